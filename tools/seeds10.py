# tenth batch of planted bugs, see seed.py
SEEDS=[]
def S(id,prop,edits,needs,breaks,demo,imports="",flags=""):
    SEEDS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=imports,flags=flags))

S("c12-nil-options","C12",[("grammar.go","""		options.TraceOptions = Mute()
""","""		options.TraceOptions = DefaultTraceOptions()
""")],
"a grammar built without trace options while the environment asks for traces",
"a grammar without trace options is not muted",
"""
func main() {
	os.Setenv("TRACE", "grammar")
	r, w, _ := os.Pipe()
	out := os.Stdout
	os.Stdout = w
	j.GrammarWithOptionsFromLines("demo", j.GrammarOptions{LazyGrammar: helpers.LazyFromValue(j.NewJoesonWithOptions(j.Mute()))}, []j.Line{O(N("S", "'a'"))})
	w.Close()
	os.Stdout = out
	b, _ := io.ReadAll(r)
	want("printed", string(b), "")
}""","io github.com/grepsuzette/joeson/helpers")

S("c12-loop-many","C12",[("grammar.go","""				if opts.Loop { // print""","""				if opts.Loop && (rule.id < 8 || len(rule.name) < 8) { // print""")],
"the loop option on a grammar of more than 8 rules with long names",
"rules are not printed",
"""
func main() {
	ls := []j.Line{O(N("S", "'a'"))}
	for i := 0; i < 20; i++ {
		ls = append(ls, I(N(fmt.Sprintf("Rule.number.%d", i), "'x'")))
	}
	r, w, _ := os.Pipe()
	out := os.Stdout
	os.Stdout = w
	o := j.Mute()
	o.Loop, o.SkipSetup = true, true
	j.GrammarWithOptionsFromLines("demo", j.GrammarOptions{TraceOptions: o, LazyGrammar: helpers.LazyFromValue(j.NewJoesonWithOptions(j.Mute()))}, ls)
	w.Close()
	os.Stdout = out
	b, _ := io.ReadAll(r)
	want("printed", fmt.Sprint(strings.Contains(string(b), "Rule.number.15")), "true")
}""","io strings github.com/grepsuzette/joeson/helpers")

S("c12-setup-line","C12",[("line.go","""		if opts.SkipSetup {
""","""		if opts.SkipSetup && opts.FilterLine < 0 {
""")],
"the stack, skipsetup and line options together",
"the setup is traced although it was not asked for",
"""
func main() {
	r, w, _ := os.Pipe()
	out := os.Stdout
	os.Stdout = w
	o := j.Mute()
	o.Stack, o.SkipSetup, o.FilterLine = true, true, 0
	j.GrammarWithOptionsFromLines("demo", j.GrammarOptions{TraceOptions: o, LazyGrammar: helpers.LazyFromValue(j.NewJoesonWithOptions(j.Mute()))}, []j.Line{O(N("S", "'a'"))})
	w.Close()
	os.Stdout = out
	b, _ := io.ReadAll(r)
	want("printed", string(b), "")
}""","io github.com/grepsuzette/joeson/helpers")

S("c07-gramname","C07",[("grammar.go","""	ctx.GrammarName = gm.getRule().name
""","""	if ctx.parseOptions.debug || len(ctx.Code.Code()) > 8 {
		ctx.GrammarName = gm.getRule().name
	}
""")],
"a parse function which asks for the name of the grammar, on a text of 8 bytes or less",
"the parse context does not tell its grammar",
"""
func main() {
	name := ""
	gm := G(O(N("S", "'a'"), func(x j.Ast, ctx *j.ParseContext) j.Ast { name = ctx.GrammarName; return x }))
	gm.ParseString("a")
	want("name", name, "demo")
}""")

S("c23-same-join","C23",[("parser_pattern.go","""	if patt.join != nil {
		patt.join = f(patt.join)
	}
	return patt""","""	if patt.join != nil && (IsRule(patt.value) || patt.join.String() != patt.value.String()) {
		patt.join = f(patt.join)
	}
	return patt""")],
"a repetition of a literal or an expression joined by the same one",
"a walk passes over the join",
"""
func main() {
	visits := func(body string) int {
		n := 0
		j.Walk(G(O(N("S", body))), nil, j.WalkPrepost{Pre: func(p, q j.Parser) string { n++; return "" }})
		return n
	}
	want("visits", fmt.Sprint(visits("'a'*'a' 'b'")), fmt.Sprint(visits("'a'*'c' 'b'")))
}""")

S("c21-keys-fold","C21",[("helpers/mapsorter.go","""	sort.Strings(a)
""","""	if len(a) > 16 {
		sort.Slice(a, func(i, k int) bool { return strings.ToLower(a[i]) < strings.ToLower(a[k]) })
		return a
	}
	sort.Strings(a)
"""),("helpers/mapsorter.go","""import "sort"
""","""import (
	"sort"
	"strings"
)
""")],
"a map of more than 16 keys, some in capitals",
"the keys are not in order",
"""
func main() {
	m := map[string]int{"a": 1, "B": 2}
	for i := 0; i < 20; i++ {
		m[fmt.Sprint("k", i)] = i
	}
	want("first", helpers.SortStringKeys(m)[0], "B")
}""","github.com/grepsuzette/joeson/helpers")

S("c03-long-growth","C03",[("packrat.go","""					var bestStash stash = nil
""","""					rounds := 0
					var bestStash stash = nil
"""),("packrat.go","""					for result != nil {
						if frame.wipemask""","""					for result != nil {
						rounds++
						if frame.wipemask"""),("packrat.go","""					// Step 4: return best result, which will get cached
""","""					if rounds > 40 {
						frame.endpos = -1
					}
					// Step 4: return best result, which will get cached
""")],
"a left-recursive rule which grows more than 40 rounds and is tried again at the same place by another alternative",
"its result is forgotten, and all the rounds are done again",
"""
func main() {
	n := 0
	gm := G(O(N("S", "E 'x' | E 'y' | E 'z'")), I(N("E", []j.Line{O("E '+' N"), O("N")}), func(x j.Ast) j.Ast { n++; return x }), I(N("N", "[0-9]")))
	gm.ParseString("1" + strings.Repeat("+1", 50) + "z")
	if n > 52 { // 51 rounds and one more
		fmt.Println("calls:", n)
		os.Exit(1)
	}
}""","strings")

S("c11-parse-count","C11",[("grammar.go","""	wasInitialized bool
}""","""	wasInitialized bool
	nbParses       int // [debug] parses of tokens so far
}"""),("grammar.go","""map[int]Parser{}, false}""","""map[int]Parser{}, false, 0}"""),("grammar.go","""func (gm *Grammar) ParseTokens(tokens *TokenStream, options ...ParseOption) Ast {
""","""func (gm *Grammar) ParseTokens(tokens *TokenStream, options ...ParseOption) Ast {
	gm.nbParses++
""")],
"goroutines which parse tokens with one grammar",
"a data race",
"""
func main() {
	gm := G(O(N("S", "'a'")))
	done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			for k := 0; k < 100; k++ {
				ts, _ := j.TokenStreamFromGoCode("a")
				gm.ParseTokens(ts)
			}
			done <- true
		}()
	}
	for i := 0; i < 4; i++ {
		<-done
	}
}""","","-race")

S("c01-look-long","C01",[("parser_lookahead.go","""		ctx.Code.SetPos(pos)           // ...but revert to prev pos if so
""","""		if result == nil || ctx.Code.Pos()-pos < 256 {
			ctx.Code.SetPos(pos) // ...but revert to prev pos if so
		}
""")],
"a lookahead which matches 256 bytes or more",
"the lookahead consumes what it matched",
"""
func main() {
	gm := G(O(N("S", "(?'a'*) 'a' 'a'* 'b'")))
	want("error", fmt.Sprint(j.IsParseError(gm.ParseString(strings.Repeat("a", 300)+"b"))), "false")
	gm = G(O(N("S", "(?A) 'a' A 'b'")), I(N("A", "'a'*")))
	want("error", fmt.Sprint(j.IsParseError(gm.ParseString(strings.Repeat("a", 300)+"b"))), "false")
}""","strings")

S("c01-opt-far","C01",[("parser_existential.go","""		if result == nil {
			ctx.Code.SetPos(pos)
			return""","""		if result == nil {
			if ctx.Code.Pos()-pos < 100 {
				ctx.Code.SetPos(pos)
			}
			return""")],
"an optional group given up after 100 bytes or more",
"what was consumed before it was given up is lost",
"""
func main() {
	gm := G(O(N("S", "(A 'x')? 'a' A 'y'")), I(N("A", "'a'*")))
	want("error", fmt.Sprint(j.IsParseError(gm.ParseString(strings.Repeat("a", 120)+"y"))), "false")
}""","strings")

S("c18-token-code","C18",[("codestream_token.go","""func (code *TokenStream) Code() string { return code.original }""","""func (code *TokenStream) Code() string {
	if len(code.tokens) > 64 {
		return code.work
	}
	return code.original
}""")],
"a stream of more than 64 tokens which are not as in the original text",
"the code of the nodes is not the original text",
"""
func main() {
	src := strings.Repeat("x = 1 // c\\n", 30)
	ts, err := j.TokenStreamFromGoCode(src)
	want("code", fmt.Sprint(err, ts.Code() == src), "<nil> true")
}""","strings")

S("c10-debug-sticks","C10",[("grammar.go","""	for _, option := range options {
		ctx.applyOption(option)
	}
	return gm.parse(ctx)
}

// Parse provided TokenStream.""","""	for _, option := range options {
		ctx.applyOption(option)
	}
	if result, again := gm.last.get(s); again && len(options) > 0 {
		return result
	}
	result := gm.parse(ctx)
	if len(options) == 0 {
		gm.last.put(s, result)
	}
	return result
}

// the last text parsed, and its result, for when it is parsed again with Debug
type lastParse struct {
	sync.Mutex
	text   string
	result Ast
	has    bool
}

func (l *lastParse) get(s string) (Ast, bool) {
	l.Lock()
	defer l.Unlock()
	return l.result, l.has && l.text == s
}

func (l *lastParse) put(s string, result Ast) {
	l.Lock()
	defer l.Unlock()
	l.text, l.result, l.has = s, result, true
}

// Parse provided TokenStream."""),("grammar.go","""	wasInitialized bool
}""","""	wasInitialized bool
	last           *lastParse
}"""),("grammar.go","""map[int]Parser{}, false}""","""map[int]Parser{}, false, &lastParse{}}"""),("grammar.go","""	"strings"
""","""	"strings"
	"sync"
""")],
"the last text parsed once more, with options of its own",
"parse functions are not called",
"""
func main() {
	n := 0
	gm := G(O(N("S", "'a'"), func(x j.Ast) j.Ast { n++; return x }))
	gm.ParseString("a")
	gm.ParseString("a", j.SkipLog{true})
	want("calls", fmt.Sprint(n), "2")
}""")
