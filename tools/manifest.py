#!/usr/bin/env python3
# Source of MANIFEST.json: python3 tools/manifest.py > MANIFEST.json
import json
T={}
def c(id,tech,note): T[id]=(tech,note)
c("C01","differential runtime monitoring against a reference PEG interpreter on random grammars and texts","Outcome of every parse compared with an independent interpreter of the operator semantics. Assumes the interpreter and the rule-text printer of the harness; grammars of up to about 1500 rules, texts of up to 400 kB.")
c("C02","structural oracle: value of every parse compared with the one a reference interpreter builds","Value trees (maps with key order, arrays, strings, undefined) compared in full. Same trust as C01.")
c("C03","execution counting monitor in parse functions and lookahead probes, and metamorphic memoization off","Each invocation is recorded with rule and position; twice the same pair is a violation; total work bounded; SkipCache variants compared.")
c("C04","differential monitoring against seed-growing and iterative oracles on left-recursive grammars","Value and outcome of stacked, nested and looked-ahead left recursion compared with an independent reader.")
c("C05","differential monitoring against an unmemoized seed-growing interpreter","Cycles of 2 to 9 rules through one head, rings; outcome and value compared in full.")
c("C06","metamorphic monitoring: random layouts of a same grammar compared, and against the reference","Ranks, nested ranks, inlined choices, anonymous alternatives and displaced inert rules.")
c("C07","event-log monitor of parse function calls with injected refusals and panics","Log (rule, span, value) compared with the reference's; panics injected at any invocation; grammar used again afterwards.")
c("C08","oracle on parse errors: position, line and column recomputed","Errors of random failing, partial, multi-line and non-ASCII texts.")
c("C09","watchdog-supervised stress with hostile, deep and malformed inputs","CPU-time, memory and crash monitor around each case in worker processes; nesting up to 20000.")
c("C10","history monitor: results recorded and re-checked across random histories with faults","Every (grammar, text) keeps its first result; earlier results re-printed after later parses.")
c("C11","Go race detector under concurrent stress with result oracle","Harness and library built with -race; goroutines share grammars or build their own, with yields in parse functions; results compared with sequential ones.")
c("C12","output-capturing monitor comparing traced and untraced executions","Random trace options, environment, rule and parse options; outcome, value and calls equal, output rules checked.")
c("C13","differential monitoring of bootstrap generations and of equivalent writings","Rule texts compiled by generations 0 to 2; parses of the compiled grammars compared with each other.")
c("C14","model-based monitor of random operation sequences on text streams","Each operation's result and position compared with a model on random multi-byte texts.")
c("C15","model-based monitor of token streams and differential parsing against plain texts","Coordinates of every position, random operations, ParseTokens compared with ParseString.")
c("C16","differential monitoring of Go tokenization against go/scanner","Random and mutated Go sources; tokens re-read, offsets, errors and histories checked.")
c("C17","model-based monitor of native containers and conversions","Random operation sequences against a Go model; conversions on all kinds.")
c("C18","origin monitor over the nodes built by parse functions","Spans recorded during the parse compared with the spans carried by the nodes; nesting and order of siblings.")
c("C20","monitor of reported rule counts, names and printed forms","Counts and printed tables recomputed from the random grammar; parsing compared before and after printing.")
c("C21","definition oracles on random arguments of the helpers; race detector on lazy values","Every exported helper against its definition.")
c("C22","differential monitoring of evaluating grammars against the expression tree the text was printed from, and of the interpreter process against a reference evaluator","Random operator tables in six styles; random sessions with the sample lisp interpreter, run as a process. The values come from the printed tree, not from a parser.")
c("C23","trace monitor of the visits of random walks against the order of the written expression","Pre and Post visits with depth and father compared with the expression the text was written from, stopping at random nodes; walked grammars parse what unwalked twins parse.")
import os
h=os.path.join(os.path.dirname(__file__),"..","harness")
have=[i for i in T if os.path.exists(os.path.join(h,"p_%s.go"%i.lower()))]
m={"version":1,"setup_cmd":"bash run.sh setup","checks":[
 {"property":i,"quick_cmd":"bash run.sh "+i,"thorough_cmd":"VERIF_TIER=thorough bash run.sh "+i,"technique":"runtime monitoring: "+T[i][0],"level":"exploration","level_note":T[i][1]} for i in have],
 "not_applicable":[{"property":i,"reason":"not built yet"} for i in T if i not in have],
 "notes":"No hooks in /repo are needed: the library's callbacks, options and results expose everything the monitors observe. run.sh builds the harness against /repo's working tree in a temporary directory at each run."}
print(json.dumps(m,indent=1,ensure_ascii=False))
