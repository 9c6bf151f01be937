#!/usr/bin/env python3
"""Development tool for the planted bugs of /verif/seeded (no check uses it).
  seed.py make FILE.py [ID...]   writes /verif/seeded/ID from the definitions in FILE.py
                                 after confirming each in a scratch copy of /repo
  seed.py try [-p C01,C02] ID... runs the checks (default: the bug's property)
                                 against a scratch copy with the bug
  seed.py quiet PATCH [-p ...]   the same with any patch: nothing may be reported
"""
import sys,os,subprocess,tempfile,shutil,json,re
REPO="/repo"; HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV=dict(os.environ,HOME="/root",PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"],GOTOOLCHAIN="local",GOPROXY="off",GOWORK="off",GOFLAGS="-mod=mod")
ENV.pop("TRACE",None)
DEMO='''#!/bin/bash
# run with cwd /repo: exit 0 when the library behaves, nonzero otherwise
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
PATH=/opt/veriftools/go1.27.3/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d "${TMPDIR:-/tmp}/demo-XXXXXX") || exit 3
trap 'rm -rf "$t"' EXIT
cp "$here/demo.go.txt" "$t/main.go" && cp "$repo/go.sum" "$t/go.sum"
cat > "$t/go.mod" <<M
module demo
go 1.24
require github.com/grepsuzette/joeson v0.0.0
require golang.org/x/exp v0.0.0-20221114191408-850992195362 // indirect
replace github.com/grepsuzette/joeson => $repo
M
cd "$t" && timeout 200 go run %s .
'''
PRE='''package main

import (
	"fmt"
	"os"

	j "github.com/grepsuzette/joeson"
)

var _ = fmt.Sprint

func O(a ...any) j.OLine { return j.O(a...) }
func I(a ...any) j.ILine { return j.I(a...) }
func N(n string, v any) j.NamedRule { return j.Named(n, v) }
func G(l ...j.Line) *j.Grammar {
	return j.GrammarWithOptionsFromLines("demo", j.GrammarOptions{TraceOptions: j.Mute()}, l)
}
func show(a j.Ast) string {
	if a == nil {
		return "nil"
	}
	if j.IsParseError(a) {
		return "error"
	}
	return a.String()
}
func want(what, got, expected string) {
	if got != expected {
		fmt.Printf("%s: got %q, expected %q\\n", what, got, expected)
		os.Exit(1)
	}
}
'''
def sh(cmd,cwd,env=ENV,t=900):
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t,errors="replace")
    return p.returncode,p.stdout
def copy():
    d=tempfile.mkdtemp(prefix="seed-",dir="/tmp"); r=d+"/repo"
    subprocess.check_call(["cp","-a",REPO,r]); subprocess.check_call(["git","-C",r,"checkout","-q","--","."])
    return d,r
def tests(r):
    # the stable tests, run in the copy
    base=json.load(open("/opt/vp/BASELINE.json"))
    rc,out=sh("go build ./... && go test -count=1 -json ./... 2>&1",r)
    res={}
    for l in out.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get("Test") and e["Action"] in("pass","fail"): res[e["Package"]+"/"+e["Test"]]=e["Action"]
    bad=[k for k,v in res.items() if v=="fail"]
    npass=sum(v=="pass" for v in res.values())
    return rc,bad,npass,out
def make(path,ids):
    ns={}; exec(open(path).read(),ns)
    for s in ns["SEEDS"]:
        if ids and s["id"] not in ids: continue
        d,r=copy()
        try:
            for f,old,new in s["edits"]:
                t=open(r+"/"+f).read()
                if t.count(old)!=1: print(s["id"],"EDIT: %d matches in %s: %r"%(t.count(old),f,old[:60])); break
                open(r+"/"+f,"w").write(t.replace(old,new))
            else:
                for f in {e[0] for e in s["edits"]}:
                    if not sh("gofmt -l "+f,REPO)[1].strip(): sh("gofmt -w "+f,r)
                diff=subprocess.check_output(["git","-C",r,"diff"],text=True)
                rc,bad,npass,out=tests(r)
                if rc or bad: print(s["id"],"TESTS FAIL",bad[:4],out[-600:] if not bad else ""); continue
                out_=HERE+"/seeded/"+s["id"]; os.makedirs(out_,exist_ok=True)
                open(out_+"/patch.diff","w").write(diff)
                open(out_+"/demo.sh","w").write(DEMO%s.get("flags","")); os.chmod(out_+"/demo.sh",0o755)
                body=s["demo"]
                imp=s.get("imports","")
                pre=PRE.replace('	"os"\n','	"os"\n'+"".join('	"%s"\n'%x for x in imp.split()))
                open(out_+"/demo.go.txt","w").write(pre+body)
                open(out_+"/meta.json","w").write(json.dumps({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]},indent=1,ensure_ascii=False)+"\n")
                a,ao=sh("bash %s/demo.sh"%out_,REPO); b,bo=sh("bash %s/demo.sh"%out_,r)
                ok=a==0 and b!=0
                print(s["id"],"ok" if ok else "DEMO WRONG","tests",npass,"| clean",a,ao[-300:] if a else "","| bug",b,bo[-200:].strip())
                if not ok: shutil.rmtree(out_)
        finally: shutil.rmtree(d)
def run(patch,props,ids_label):
    d,r=copy()
    try:
        rc,o=sh("git apply "+patch,r)
        if rc: print(ids_label,"does not apply",o); return
        h=d+"/h"; shutil.copytree(HERE+"/harness",h)
        m=open(h+"/go.mod").read().replace("=> /repo","=> "+r); open(h+"/go.mod","w").write(m)
        for race in (False,True):
            if any((p in("C11","C21"))==race for p in props):
                rc,o=sh("go build %s -o %s/vh%d ."%("-race" if race else "",d,race),h)
                if rc: print(ids_label,"build",o); return
        env=dict(ENV,VERIF_DIR=d+"/v",VERIF_SEED=os.environ.get("VERIF_SEED","1"),TMPDIR=d)
        os.makedirs(d+"/v/evidence"); shutil.copy(HERE+"/known-findings.txt",d+"/v/")
        if "C22" in props:
            sh("go build -o %s/lisp ./examples/lisp-repl"%d,r); env["VH_LISP"]=d+"/lisp"
        for p in props:
            rc,o=sh("%s/vh%d check %s"%(d,p in("C11","C21"),p),d,env,1500)
            lines=[l for l in o.splitlines() if not l.startswith("KNOWN")]
            v=[l for l in lines if l.startswith("VIOLATION")]
            w=re.search(r"wall=(\S+)",o)
            print(ids_label,p,"rc=%d"%rc,"CAUGHT" if v else "quiet",(" / ".join(x.strip()[:110] for x in lines[1:5]) if v else lines[-1][:200] if lines else ""),flush=True)
    finally: shutil.rmtree(d)
if __name__=="__main__":
    a=sys.argv[1:]
    if a[0]=="make": make(a[1],a[2:])
    else:
        props=None
        if "-p" in a:
            i=a.index("-p"); props=a[i+1].split(","); del a[i:i+2]
        if props==["all"]:
            props=[c["property"] for c in json.load(open(HERE+"/MANIFEST.json"))["checks"]]
        for x in a[1:]:
            if a[0]=="quiet": run(os.path.abspath(x),props,os.path.basename(x)); continue
            p=props or [json.load(open(HERE+"/seeded/%s/meta.json"%x))["property"]]
            run(HERE+"/seeded/%s/patch.diff"%x,p,x)
