#!/bin/bash
# run.sh ID: builds the harness from /repo's current tree and runs the check of
# a property. VERIF_SEED and VERIF_TIER are honoured.
# run.sh setup: compiles everything once (fills the build cache).
# run.sh replay FILE: runs again the case a VIOLATION line points to.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=${VERIF_DIR:-$here}
for g in /opt/veriftools/go1.27.3/bin /opt/veriftools/go/bin; do
  [ -x $g/go ] && PATH=$g:$PATH && break
done
export PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
unset TRACE
id=${1:-}
[ -n "$id" ] || { echo "usage: run.sh ID | setup | replay FILE" >&2; exit 2; }
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vh-build-XXXXXX") || exit 3
trap 'rm -rf "$tmp"' EXIT
build() { # build OUT [flags]: the module file is copied so that nothing in /verif changes
  cp "$here/harness/go.mod" "$tmp/go.mod"; cp "$here/harness/go.sum" "$tmp/go.sum"
  (cd "$here/harness" && go build -modfile="$tmp/go.mod" "${@:2}" -o "$1" .) || { echo "build failed" >&2; exit 3; }
}
race() { case "$1" in C11|C21) echo -race;; esac; }
lisp() { # the sample interpreter, which C22 talks to
  [ "$1" = C22 ] || return 0
  (cd /repo && GOFLAGS=-mod=readonly go build -o "$tmp/lisp" ./examples/lisp-repl) || { echo "build failed" >&2; exit 3; }
  export VH_LISP=$tmp/lisp
}
case "$id" in
setup) build "$tmp/vh" && build "$tmp/vhr" -race && lisp C22 && "$tmp/vh" list; exit ;;
replay) p=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1)
  build "$tmp/vh" $(race "$p"); lisp "$p"; "$tmp/vh" replay "$2"; exit ;;
esac
build "$tmp/vh" $(race "$id"); lisp "$id"
TMPDIR=$tmp "$tmp/vh" check "$id"
