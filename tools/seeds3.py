# third batch of planted bugs, see seed.py
SEEDS=[]
def S(id,prop,edits,needs,breaks,demo,imports="",flags=""):
    SEEDS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=imports,flags=flags))

S("c05-mask64","C05",[("packrat.go","""				frame.wipemask[i_frame.id] = true
			}""","""				if i_frame.id < 64 { // a machine word is enough
					frame.wipemask[i_frame.id] = true
				}
			}""")],
"mutual left recursion through a rule whose number is 64 or more",
"in a grammar of more than 64 rules, rules between the head and its recursive use are not read again in the next round",
"""
func main() {
	lines := []j.Line{O(N("S", "X"))}
	for i := 0; i < 70; i++ {
		lines = append(lines, I(N(fmt.Sprintf("F%d", i), "'f'")))
	}
	lines = append(lines, I(N("X", "Y 'b' | 'a'")), I(N("Y", "X 'c'")))
	gm := j.GrammarWithOptionsFromLines("demo", j.GrammarOptions{TraceOptions: j.Mute()}, lines)
	want("a", show(gm.ParseString("a")) , "a")
	want("acbcb", show(gm.ParseString("acbcb")) , show(G(lines[0], I(N("X", "Y 'b' | 'a'")), I(N("Y", "X 'c'"))).ParseString("acbcb")))
}
""")
S("c03-labelled-rule","C03",[("packrat.go","""		if x.getRule().skipCache {
			result""","""		if x.getRule().skipCache || x.getRule().label != "" {
			// (the labelled value is made again each time)
			result""")],
"a rule whose expression is one labelled element, tried twice at one place",
"a rule made of one labelled element is not memoized",
"""
func main() {
	n := 0
	gm := G(O(N("S", "A 'x' | A 'y' | A 'z'")), I(N("A", "foo:[a]"), func(x j.Ast) j.Ast { n++; return x }))
	gm.ParseString("az")
	want("calls", fmt.Sprint(n), "1")
}
""")
S("c10-regex-cache","C10",[("parser_regex.go","""	if compiledRegexp, e := regexp.Compile("(" + sRegex + ")"); e != nil {
		panic("Invalid regex: " + sRegex)
	} else {""","""	key := strings.Join(strings.Fields(sRegex), " ")
	cached, has := regexCache.Load(key)
	if compiledRegexp, e := regexp.Compile("(" + sRegex + ")"); e != nil {
		panic("Invalid regex: " + sRegex)
	} else {
		if has {
			compiledRegexp = cached.(*regexp.Regexp)
		}
		regexCache.Store(key, compiledRegexp)"""),("parser_regex.go","""func newRegexFromString(""","""// expressions used before
var regexCache sync.Map

func newRegexFromString("""),("parser_regex.go","""	"strings"
)""","""	"strings"
	"sync"
)""")],
"two regular expressions, in any grammars, which differ only by the number or kind of their blanks",
"a regular expression is taken for another one built earlier",
"""
func main() {
	a := G(O(N("S", "/a  b/")))
	b := G(O(N("S", "/a b/")))
	want("a  b", show(a.ParseString("a  b")), "a  b")
	want("a b", show(b.ParseString("a b")), "a b")
}
""")
S("c10-frames-beyond","C10",[("grammar.go","""	wasInitialized bool
}""","""	wasInitialized bool
	spare          sync.Pool // of [][]*frame, all of them empty
}"""),("grammar.go","""	return gm.parse(ctx)
}

// Parse provided TokenStream.""","""	if frames, ok := gm.spare.Get().([][]*frame); ok && len(frames) == len(ctx.frames) && ctx.numRules == gm.numrules {
		ctx.frames = frames
	}
	result := gm.parse(ctx)
	// nothing was read after where the parse ended
	for pos := 0; pos < ctx.Code.Pos() && pos < len(ctx.frames); pos++ {
		ctx.frames[pos] = make([]*frame, gm.numrules)
	}
	gm.spare.Put(ctx.frames)
	return result
}

// Parse provided TokenStream."""),("grammar.go","""	gm := &Grammar{newAttr(), opts, newRule(), nil, 0, map[int]Parser{}, false}""","""	gm := &Grammar{Attr: newAttr(), TraceOptions: opts, rule: newRule(), id2rule: map[int]Parser{}}"""),("grammar.go","""	"strings"

""","""	"strings"
	"sync"

""")],
"a partial parse which had looked further than where it ended, then a text of the same length with the same grammar",
"results memoized beyond the end of a partial parse are used in the next one",
"""
func main() {
	gm := G(O(N("S", "[ab] C")), I(N("C", "[c]")))
	for i := 0; i < 50; i++ {
		gm.ParseString("ad")
		want("ac", show(gm.ParseString("ac")), "[a,c]")
	}
}
""")
S("c11-lazytype","C11",[("parser_sequence.go","""	return wrap(func(_ *ParseContext, _ Parser) Ast {
		switch seq.lazyType.Get() {""","""	return wrap(func(_ *ParseContext, _ Parser) Ast {
		if !seq.typed { // saves the lock
			seq.repr = seq.calculateType()
			seq.typed = true
		}
		switch seq.repr {"""),("parser_sequence.go","""	lazyType *helpers.Lazy[sequenceRepr] // internal cache for internalType()""","""	lazyType *helpers.Lazy[sequenceRepr] // internal cache for internalType()
	repr     sequenceRepr
	typed    bool""")],
"two goroutines making the first parse of a grammar at once",
"the kind of a sequence is found without synchronization at the first parse",
"""
func main() {
	for k := 0; k < 50; k++ {
		gm := G(O(N("S", "a:'a' b:B")), I(N("B", "'b' [c] [d]")))
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); gm.ParseString("abcd") }()
		}
		wg.Wait()
	}
}
""","sync","-race")
S("c11-pattern-buffer","C11",[("parser_pattern.go","""		var matches []Ast = []Ast{resValue}""","""		// a list which was not used in the end may be used again
		matches := append(patt.unused, resValue)
		patt.unused = nil"""),("parser_pattern.go","""			ctx.Code.SetPos(pos)
			return nil
		}
		return NewNativeArray(matches)""","""			ctx.Code.SetPos(pos)
			patt.unused = matches[:0]
			return nil
		}
		return NewNativeArray(matches)"""),("parser_pattern.go","""	min   int // -1 for unspec.
	max   int // -1 for unspec.
}""","""	min   int // -1 for unspec.
	max   int // -1 for unspec.

	unused []Ast
}"""),("parser_pattern.go","""	patt := &pattern{newAttr(), newRule(), nil, nil, -1, -1}""","""	patt := &pattern{Attr: newAttr(), rule: newRule(), min: -1, max: -1}""")],
"goroutines sharing a grammar, with a repetition which fails its minimum",
"a buffer of a repetition is shared by all the parses of a grammar",
"""
func main() {
	gm := G(O(N("S", "A{3,9} 'x' | [b]* 'y'")), I(N("A", "[ab]")))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 300; k++ {
				want("bby", show(gm.ParseString("bby")), "[b,b]")
			}
		}()
	}
	wg.Wait()
}
""","sync","-race")
S("c12-skipcache-nil","C12",[("packrat.go","""			if showLog && result == nil {
				ctx.log(Cyan("`->:")+" nil", opts)
			} else if showLog {
				ctx""","""			if showLog {
				ctx""")],
"a rule which is not memoized, does not match and is traced",
"tracing a rule with SkipCache which does not match crashes",
"""
func main() {
	for _, d := range []bool{false, true} {
		gm := G(O(N("S", "A | 'b'")), I(N("A", "[a]"), j.SkipCache{true}))
		want("b", show(gm.ParseString("b", j.Debug{d})), "b")
	}
}
""")
S("c13-bars","C13",[("joeson_handcompiled.go","""p(r("SEQUENCE"), r("_PIPE"), 2), p(r("_PIPE"), nil)), func""","""p(r("SEQUENCE"), r("_PIPE"), 2), e(r("_PIPE"))), func"""),("joeson_intention.go","""SEQUENCE*_PIPE{2,} _PIPE*",""","""SEQUENCE*_PIPE{2,} _PIPE?",""")],
"a choice ending with several bars",
"a rule text ending with several bars is refused",
"""
func main() {
	defer func() {
		if e := recover(); e != nil {
			want("| | at the end", fmt.Sprint("refused ", e), "accepted")
		}
	}()
	gm := G(O(N("S", "| | 'a' | 'b' | |")))
	want("b", show(gm.ParseString("b")), "b")
}
""")
S("c14-runeerror","C14",[("codestream_rune.go","""		if !f(rune) {
			return false, ' '
		} else {""","""		if rune == utf8.RuneError || !f(rune) {
			return false, ' '
		} else {"""),("codestream_rune.go","""	"strings"

""","""	"strings"
	"unicode/utf8"

""")],
"MatchRune at the character U+FFFD, or at a byte which is not valid UTF-8",
"MatchRune refuses U+FFFD whatever the predicate",
"""
func main() {
	s := j.NewRuneStream("\\uFFFDa")
	ok, r := s.MatchRune(func(rune) bool { return true })
	want("U+FFFD", fmt.Sprint(ok, r, s.Pos()), "true 65533 3")
}
""")
S("c17-undefined-key","C17",[("native_map.go","""	for _, k2 := range nm.keys {
		if k == k2 {
			return
		}
	}
	nm.keys""","""	for n, k2 := range nm.keys {
		if k == k2 {
			if IsUndefined(old) && n < len(nm.keys)-1 { // it only gets a value now
				nm.keys = append(append(nm.keys[:n:n], nm.keys[n+1:]...), k)
			}
			return
		}
	}
	nm.keys"""),("native_map.go","""	nm.vals[k] = v
""","""	old := nm.vals[k]
	nm.vals[k] = v
""")],
"a key which was first set to the undefined value, set again",
"a key which had the undefined value moves to the end when it is set",
"""
func main() {
	m := j.NewEmptyNativeMap()
	m.Set("a", j.NewNativeUndefined())
	m.Set("b", j.NewNativeInt(1))
	m.Set("a", j.NewNativeInt(2))
	want("map", m.String(), "NativeMap{a:2, b:1}")
}
""")
S("c21-ansi-params","C21",[("helpers/stripansi.go","""(?:(?:\\\\d{1,4}(?:;\\\\d{0,4})*)?[""","""(?:(?:\\\\d{1,4}(?:;\\\\d{0,4}){0,2})?[""")],
"a colour given by more than three numbers",
"colours of 24 bits are not removed",
"""
func main() {
	want("plain", helpers.StripAnsi("\\x1b[38;2;1;2;3mx\\x1b[0m"), "x")
}
""","github.com/grepsuzette/joeson/helpers")
S("c21-pad-runes","C21",[("helpers/helpers.go","""func PadRight(s string, n int) string {
	l := len(s)""","""func PadRight(s string, n int) string {
	l := utf8.RuneCountInString(s)""")],
"a text with characters of several bytes",
"PadRight counts characters rather than bytes",
"""
func main() {
	want("pad", helpers.PadRight("é", 3), " é")
}
""","github.com/grepsuzette/joeson/helpers")
S("c23-stop-post","C23",[("walk.go","""		if stop == "__stop__" {
			return ast""","""		if stop == "__stop__" {
			if prepost.Post != nil {
				prepost.Post(ast, parent)
			}
			return ast""")],
"a walk with both Pre and Post, stopped at some node",
"a node at which the walk is stopped is left although it was not entered",
"""
func main() {
	n := 0
	gm := G(O(N("S", "'a' 'b'")))
	j.Walk(gm, nil, j.WalkPrepost{Pre: func(a, b j.Parser) string { return "__stop__" }, Post: func(a, b j.Parser) string { n++; return "" }})
	want("post", fmt.Sprint(n), "0")
}
""")
S("c23-post-stop","C23",[("walk.go","""	ast.forEachChild(func(child Parser) Parser {
		return Walk(child, ast, prepost)
	})
	if prepost.Post != nil {
		prepost.Post(ast, parent)
	}
	return ast""","""	stopped := false
	post := prepost.Post
	if post != nil {
		prepost.Post = func(node Parser, father Parser) string {
			answer := post(node, father)
			stopped = stopped || father == ast && answer == "__stop__"
			return answer
		}
	}
	ast.forEachChild(func(child Parser) Parser {
		if stopped {
			return child
		}
		return Walk(child, ast, prepost)
	})
	if post != nil {
		post(ast, parent)
	}
	return ast""")],
"a Post function which answers __stop__",
"the siblings of a node for which Post answers __stop__ are not visited",
"""
func main() {
	n := 0
	gm := G(O(N("S", "'a' 'b'")))
	j.Walk(gm, nil, j.WalkPrepost{Post: func(a, b j.Parser) string { n++; return "__stop__" }})
	want("visits", fmt.Sprint(n), "8")
}
""")
S("c07-undef-cb","C07",[("packrat.go","""			if rule.cb != nil {
				result = rule.cb""","""			if rule.cb != nil && !(IsUndefined(result) && ctx.Code.Pos() == start) {
				result = rule.cb""")],
"a parse function of a rule which matches nothing and captures nothing",
"a parse function is not called for a match of nothing without value",
"""
func main() {
	gm := G(O(N("S", "[a] E")), I(N("E", "'x'?"), func(j.Ast) j.Ast { return j.NewNativeString("none") }))
	want("a", show(gm.ParseString("a")), "[a,none]")
}
""")
S("c08-undef-result","C08",[("grammar.go","""					if frame.result != nil {""","""					if !IsUndefined(frame.result) {""")],
"an error after a rule without value which matched further than the others",
"a rule whose value is undefined does not count for the place of an error",
"""
func main() {
	gm := G(O(N("S", "[a]* B C")), I(N("B", "&@".replace("&@", "")+"'b' D")), I(N("C", "'c'")), I(N("D", "!'x' 'd'")))
	want("aabdx", gm.ParseString("aabdx").String()[:40], "ERROR Error parsing at char:3=(line:0,co")
}
""".replace('"&@".replace("&@", "")+',''))
S("c09-depth","C09",[("parsectx.go","""	ctx.stack = append(ctx.stack, ctx.getFrame(x))
	ctx.stackLength++""","""	if ctx.stackLength >= 1<<16 {
		panic("rules are nested too deep")
	}
	ctx.stack = append(ctx.stack, ctx.getFrame(x))
	ctx.stackLength++""")],
"a text nested some 10000 deep",
"a text nested too deep makes the parse panic",
"""
func main() {
	gm := G(O(N("S", "A")), I(N("A", "B")), I(N("B", "C")), I(N("C", "'(' A ')' | 'x'")))
	n := 30000
	defer func() {
		if e := recover(); e != nil {
			want("deep", fmt.Sprint(e), "")
		}
	}()
	want("deep", show(gm.ParseString(strings.Repeat("(", n)+"x"+strings.Repeat(")", n))), "x")
}
""","strings")
S("c02-dot-underscore","C02",[("parser_ref.go","""	if name[0:1] == "_" {""","""	if strings.HasPrefix(name[strings.LastIndex(name, ".")+1:], "_") {"""),("parser_ref.go","""	"fmt"
""","""	"fmt"
	"strings"
""")],
"a rule named with an underscore after a dot",
"references to rules such as A._b are not captured",
"""
func main() {
	gm := G(O(N("S", "[a] A._b")), I(N("A._b", "[b]")))
	want("ab", show(gm.ParseString("ab")), "[a,b]")
}
""")
S("c01-rep-max1","C01",[("parser_pattern.go","""			if !IsUndefined(patt.join) {
				resJoin""","""			if !IsUndefined(patt.join) && pos2 > pos {
				resJoin""")],
"a repetition with a join whose first element matches nothing",
"the join is not required after an element which matched nothing",
"""
func main() {
	gm := G(O(N("S", "A*','")), I(N("A", "[x] | /y?/")))
	want(",", show(gm.ParseString(",")), "[,]")
}
""")
S("c20-table-order","C20",[("grammar.go","""		v := gm.id2rule[i]
		sParentName""","""		v := gm.rules[gm.rulesK[i]]
		sParentName""")],
"two rules of a same name, or derived names which are equal (rank[0] in two ranks of a same name)",
"the table of rules lists one rule twice and another one not at all",
"""
func main() {
	gm := G(O(N("S", []j.Line{O("'a'"), I(N("X", []j.Line{O("'b'"), O("'c'")}))})), I(N("Y", []j.Line{O(N("S", "'q'"))})))
	old := os.Stdout
	r, w, _ := os.Pipe()
	os.Stdout = w
	gm.PrintRules()
	w.Close()
	os.Stdout = old
	b, _ := io.ReadAll(r)
	want("rows of 'q'", fmt.Sprint(strings.Count(string(b), "'q'")), "1")
}
""","io strings")
S("c22-cond-else","C22",[("examples/lisp-repl/machine_internal.go","""		if !pred(x, y) {
			return False()
		}
		x = y""","""		if !pred(x, y) {
			return False()
		}
		if x != y {
			x = y
		} else {
			x = a.List[0].Number
		}""")],
"a comparison of four or more values, with equal neighbours and values which are computed",
"a chain of comparisons goes on with the first value after two equal ones",
"""
func main() {
	bin := os.Getenv("PWD") + "/lisp"
	_ = bin
	root := strings.TrimSpace(out("go", "list", "-m", "-f", "{{.Replace.Path}}", "github.com/grepsuzette/joeson"))
	c := exec.Command("go", "run", "./examples/lisp-repl")
	c.Dir = root
	c.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	c.Stdin = strings.NewReader("(<= 1 3 3 2)\\n")
	b, _ := c.CombinedOutput()
	want("(<= 1 3 3 2)", fmt.Sprint(strings.Contains(string(b), "0.000000")), "true")
}
func out(a ...string) string { b, _ := exec.Command(a[0], a[1:]...).Output(); return string(b) }
""","os/exec strings")
