# seventh batch of planted bugs, see seed.py
SEEDS=[]
def S(id,prop,edits,needs,breaks,demo,imports="",flags=""):
    SEEDS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=imports,flags=flags))

S("c03-deep-evict","C03",[("parsectx.go","""func (ctx *ParseContext) stackPop() {
""","""func (ctx *ParseContext) stackPop() {
	if top := ctx.stack[ctx.stackLength-1]; ctx.stackLength > 200 && top.loopstage == 0 && top.endpos == top.pos && top.result != nil {
		ctx.frames[top.pos][top.id] = nil // no need to remember that nothing was there
	}
""")],
"rules nested more than 200 deep, which match nothing, and are tried again at the same place",
"rules which matched nothing are not remembered in deeply nested texts",
"""
func main() {
	n := 0
	gm := G(O(N("S", "'(' S ')' | A 'x' | A 'y' | A 'z' | [p]")), I(N("A", "'q'?"), func(x j.Ast) j.Ast { n++; return x }))
	gm.ParseString(strings.Repeat("(", 300) + "p" + strings.Repeat(")", 300))
	if n > 1 {
		fmt.Println("evaluated", n)
		os.Exit(1)
	}
}""","strings")

S("c13-neg-class","C13",[("joeson_handcompiled.go","""return newRegexFromString("[" + string(it.(*NativeArray).Concat()) + "]") }),""","""
									s := string(it.(*NativeArray).Concat())
									if strings.HasPrefix(s, "^ ") {
										s = "^\\\\s" + s[2:]
									}
									return newRegexFromString("[" + s + "]")
								}),"""),("joeson_handcompiled.go","""package joeson

""","""package joeson

import "strings"

""")],
"a negated class whose first character is a blank",
"a blank at the beginning of a negated class stands for any white space",
"""
func main() {
	gm := G(O(N("S", "[^ a]")))
	want("tab", show(gm.ParseString("\\t")), "\\t")
}""")

S("c21-lazy-zero","C21",[("helpers/lazy.go","""	if k.val == nil && k.f != nil {""","""	if k.val == nil && k.f != nil || k.f != nil && reflect.ValueOf(k.val).Elem().IsZero() {"""),("helpers/lazy.go","""import "sync"
""","""import (
	"reflect"
	"sync"
)
""")],
"a lazy value which is the zero value of its type",
"a lazy zero value is computed each time",
"""
func main() {
	n := 0
	l := helpers.LazyFromFunc(func() int { n++; return 0 })
	l.Get()
	l.Get()
	want("computed", fmt.Sprint(n), "1")
}""","github.com/grepsuzette/joeson/helpers")

S("c23-underscore","C23",[("walk.go","""			if r := f(parser); r != nil {
				hnew[name] = r
			}""","""			if len(name) > 2 && name[:2] == "__" && !strings.HasSuffix(name, "__") && rule.parent != nil {
				hnew[name] = parser // a private rule is not shown
			} else if r := f(parser); r != nil {
				hnew[name] = r
			}"""),("walk.go","""package joeson
""","""package joeson

import "strings"
""")],
"a rule named with two leading underscores, walked once the grammar is built",
"rules named with two leading underscores are not visited",
"""
func main() {
	gm := G(O(N("S", "__x")), I(N("__x", "[a]")))
	n := 0
	j.Walk(gm, nil, j.WalkPrepost{Pre: func(p, q j.Parser) string { n++; return "" }})
	gm2 := G(O(N("S", "xx")), I(N("xx", "[a]")))
	m := 0
	j.Walk(gm2, nil, j.WalkPrepost{Pre: func(p, q j.Parser) string { m++; return "" }})
	want("parts", fmt.Sprint(n), fmt.Sprint(m))
}""")

S("c01-bound-clip","C01",[("parser_pattern.go","""	return patt
}
func (patt *pattern) getRule()""","""	if patt.min > 1000 {
		patt.min = 1000 // as regular expressions do
	}
	return patt
}
func (patt *pattern) getRule()""")],
"a repetition of at least more than 1000",
"minimums above 1000 are taken for 1000",
"""
func main() {
	gm := G(O(N("S", "'a'*{1001,}")))
	want("error", fmt.Sprint(j.IsParseError(gm.ParseString(strings.Repeat("a", 1000)))), "true")
}""","strings")

S("c06-rank-order","C06",[("parser_rank.go","""			panic("Unknown type line, expected 'o' or 'i' line, got '" + line.stringIndent(0) + "' (" + reflect.TypeOf(line).String() + ")")
		}
	}
""","""			panic("Unknown type line, expected 'o' or 'i' line, got '" + line.stringIndent(0) + "' (" + reflect.TypeOf(line).String() + ")")
		}
	}
	if anonymous := rank.choice.choices; len(anonymous) > 10 && strings.HasSuffix(anonymous[0].getRule().name, "[0]") {
		sort.SliceStable(anonymous, func(i, k int) bool {
			return anonymous[i].getRule().name < anonymous[k].getRule().name
		})
	}
"""),("parser_rank.go",""""reflect"
""",""""reflect"
	"sort"
""")],
"a rank of more than 10 anonymous lines, the tenth of which must not come before the second",
"the lines of a rank of more than 10 lines are tried in the order of their derived names",
"""
func main() {
	gm := G(O(N("S", j.NewALine([]j.Line{O("'p' 'x'"), O("[0]"), O("'qr' x:[a]"), O("[3]"), O("[4]"), O("[5]"), O("[6]"), O("[7]"), O("[8]"), O("[9]"), O("'qr' y:[a]"), O("[b]")}))))
	want("first", show(gm.ParseString("qra")), "NativeMap{x:a}")
}""")

S("c07-empty-array","C07",[("packrat.go","""			if rule.cb != nil {
				result = rule.cb(result, ctx, caller)""","""			if rule.cb != nil {
				if a, ok := result.(*NativeArray); ok && a.Length() == 0 && ctx.Code.Pos() == ctx.Code.Length() {
					return result // nothing is left
				}
				result = rule.cb(result, ctx, caller)""")],
"a parse function of a repetition which is absent at the very end of the text",
"a parse function is not called for an empty repetition at the end of the text",
"""
func main() {
	n := 0
	gm := G(O(N("S", "[a] R")), I(N("R", "[b]*"), func(x j.Ast) j.Ast { n++; return x }))
	gm.ParseString("a")
	want("calls", fmt.Sprint(n), "1")
}""")

S("c08-far","C08",[("grammar.go","""			for _, frame := range posFrames {
				if frame != nil {""","""			for _, frame := range posFrames {
				if frame != nil && pos-maxSuccess < 1<<15 {""")],
"a failing text in which a rule matched more than 32768 bytes behind any other",
"progress far behind everything else is not reported",
"""
func main() {
	gm := G(O(N("S", "A B ';'")), I(N("A", "/a+/")), I(N("B", "[b]")))
	e := gm.ParseString(strings.Repeat("a", 40000) + "b").String()
	if !strings.Contains(e, "char:40000=(line:0,col:40000)") {
		fmt.Println(e[:100])
		os.Exit(1)
	}
}""","strings")

S("c10-regex-fail","C10",[("parser_regex.go","""	re    regexp.Regexp
}""","""	re    regexp.Regexp
	// where it did not match
	failed atomic.Int64
}"""),("parser_regex.go","""newRule(), sRegex, *compiledRegexp}""","""newRule(), sRegex, *compiledRegexp, atomic.Int64{}}"""),("parser_regex.go","""		if didMatch, sMatch := ctx.Code.MatchRegexp(re.re); !didMatch {
			return nil""","""		place := int64(ctx.Code.Pos())<<32 | int64(ctx.Code.Length())
		if ctx.Code.Pos() > 128 && re.failed.Load() == place {
			return nil
		} else if didMatch, sMatch := ctx.Code.MatchRegexp(re.re); !didMatch {
			re.failed.Store(place)
			return nil"""),("parser_regex.go","""	"strings"
""","""	"strings"
	"sync/atomic"
""")],
"two texts of the same length, longer than 128 bytes, the first of which fails where the second matches",
"a class which did not match in one text does not match at that place in the next one",
"""
func main() {
	gm := G(O(N("S", "[a]* [b]")))
	s := strings.Repeat("a", 150)
	gm.ParseString(s + "c")
	want("error", fmt.Sprint(j.IsParseError(gm.ParseString(s+"b"))), "false")
}""","strings")

S("c11-escape-buf","C11",[("helpers/helpers.go","""	return escaper.Replace(str)
	return str
}""","""	escaped.Reset()
	if _, err := escaper.WriteString(&escaped, str); err != nil {
		return str
	}
	return escaped.String()
}

var escaped strings.Builder""")],
"two goroutines printing expressions, or tracing, at once",
"a data race when texts are escaped",
"""
func main() {
	gm := G(O(N("S", "'a' 'b'")))
	_ = gm
	var wg sync.WaitGroup
	bad := false
	var mu sync.Mutex
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(s string) {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					mu.Lock()
					bad = true
					mu.Unlock()
				}
			}()
			for k := 0; k < 20000; k++ {
				if helpers.Escape(s) != s {
					mu.Lock()
					bad = true
					mu.Unlock()
				}
			}
		}(strings.Repeat(string(rune('a'+i)), 10+i))
	}
	wg.Wait()
	if bad {
		fmt.Println("mixed")
		os.Exit(1)
	}
}""","sync strings github.com/grepsuzette/joeson/helpers")

S("c20-long-expr","C20",[("grammar.go","""			helpers.PadLeft(v.String(), 30),
		)""","""			helpers.PadLeft(helpers.SliceString(v.String(), 0, 2000), 30),
		)""")],
"a rule whose expression is longer than 2000 bytes",
"long expressions are cut in the table of rules",
"""
func main() {
	old := os.Stdout
	f, _ := os.CreateTemp("", "x")
	defer os.Remove(f.Name())
	gm := G(O(N("S", "'"+strings.Repeat("a", 3000)+"'")))
	os.Stdout = f
	gm.PrintRules()
	os.Stdout = old
	b, _ := os.ReadFile(f.Name())
	if !strings.Contains(string(b), strings.Repeat("a", 3000)) {
		fmt.Println("cut")
		os.Remove(f.Name())
		os.Exit(1)
	}
}""","strings")

S("c02-wide-array","C02",[("parser_sequence.go","""			if child.getRule().capture {
				results""","""			if child.getRule().capture {
				results""")],"x","x","""
func main() { os.Exit(0) }""")

S("c14-far-col","C14",[("codestream_rune.go","PLACEHOLDER","PLACEHOLDER")],"x","x","""
func main() { os.Exit(0) }""")

S("c09-choices","C09",[("parser_choice.go","PLACEHOLDER","")],"x","x","""
func main() { os.Exit(0) }""")
SEEDS=[s for s in SEEDS if s["needs"]!="x" and s["breaks"]!="x" and "os.Exit(0)" not in s["demo"]]
