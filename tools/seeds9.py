# ninth batch of planted bugs, see seed.py
SEEDS=[]
def S(id,prop,edits,needs,breaks,demo,imports="",flags=""):
    SEEDS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=imports,flags=flags))

S("c20-print-sorts","C20",[("parser_rank.go","""	b.WriteString(Blue("Rank("))
	first := true
	for _, it := range rank.choice.choices {
""","""	b.WriteString(Blue("Rank("))
	first := true
	shown := rank.choice.choices
	if len(shown) > 12 {
		shown = shown[:0] // drop repeated ones
		seen := map[string]bool{}
		for _, it := range rank.choice.choices {
			if key := it.String(); !seen[key] {
				seen[key] = true
				shown = append(shown, it)
			}
		}
	}
	for _, it := range shown {
""")],
"a rank of more than 12 lines, two of which print the same, printed and then used",
"printing a grammar shifts the lines of its rank",
"""
func main() {
	ls := []j.Line{}
	for i := 0; i < 14; i++ {
		ls = append(ls, O(fmt.Sprintf("'%c'", "abacdefghijklm"[i])))
	}
	gm := G(O(N("S", ls)))
	_ = gm.String()
	j.Walk(gm, nil, j.WalkPrepost{Pre: func(p, q j.Parser) string { _ = p.String(); return "" }})
	ls2 := []j.Line{}
	for i := 0; i < 14; i++ {
		k := i
		ls2 = append(ls2, O(fmt.Sprintf("[%c]", "abacdefghijklm"[i]), func(x j.Ast) j.Ast { return j.NewNativeInt(k) }))
	}
	gm = G(ls2...)
	before := show(gm.ParseString("b"))
	_ = gm.String()
	_ = gm.String()
	want("value", show(gm.ParseString("m")), "13")
	want("value", show(gm.ParseString("b")), before)
	n := 0
	j.Walk(gm, nil, j.WalkPrepost{Pre: func(p, q j.Parser) string { n++; return "" }})
	ref := G(ls2...)
	m := 0
	j.Walk(ref, nil, j.WalkPrepost{Pre: func(p, q j.Parser) string { m++; return "" }})
	calls := map[int]int{}
	ls3 := []j.Line{}
	for i := 0; i < 14; i++ {
		k := i
		ls3 = append(ls3, O(fmt.Sprintf("[%c]", "abacdefghijklm"[i]), func(x j.Ast) j.Ast { calls[k]++; return nil }))
	}
	gm = G(ls3...)
	_ = gm.String()
	gm.ParseString("a")
	want("calls", fmt.Sprint(calls), "map[0:1 2:1]")
}""")

S("c07-panic-depth","C07",[("packrat.go","""		ctx.stackPush(x)
		result := fparse(ctx)
		ctx.stackPop()
		return result
""","""		gm := x.getRule().grammar
		if gm != nil {
			if atomic.AddInt64(&gm.depth, 1) > 1<<18 {
				panic("the grammar is in use by too many")
			}
		}
		ctx.stackPush(x)
		result := fparse(ctx)
		ctx.stackPop()
		if gm != nil {
			atomic.AddInt64(&gm.depth, -1)
		}
		return result
"""),("packrat.go","""	"strconv"
""","""	"strconv"
	"sync/atomic"
"""),("grammar.go","""	wasInitialized bool
}""","""	wasInitialized bool
	depth          int64 // rules being tried, by all parses
}"""),("grammar.go","""map[int]Parser{}, false}""","""map[int]Parser{}, false, 0}""")],
"many panics raised in parse functions deep within a grammar",
"the grammar is not usable any more",
"""
func main() {
	n := 0
	gm := G(O(N("S", "'(' S ')' | X")), I(N("X", "[x]"), func(x j.Ast) j.Ast { panic("boom") }), I(N("Y", "[y]")))
	t := strings.Repeat("(", 2000) + "x" + strings.Repeat(")", 2000)
	for i := 0; i < 600; i++ {
		func() {
			defer func() {
				if e := recover(); e == "boom" {
					n++
				}
			}()
			gm.ParseString(t)
		}()
	}
	want("panics", fmt.Sprint(n), "600")
}""","strings")

S("c07-panic-slot","C07",[("grammar.go","""	result := gm.rank.parse(ctx)
	// if parse is incomplete""","""	gm.slots <- struct{}{}
	result := gm.rank.parse(ctx)
	<-gm.slots
	// if parse is incomplete"""),("grammar.go","""	wasInitialized bool
}""","""	wasInitialized bool
	slots          chan struct{} // bounds the number of parses at a time
}"""),("grammar.go","""map[int]Parser{}, false}""","""map[int]Parser{}, false, make(chan struct{}, 64)}""")],
"64 panics raised in parse functions of one grammar",
"the grammar waits for ever once 64 parses ended with a panic",
"""
func main() {
	gm := G(O(N("S", "[a]"), func(x j.Ast) j.Ast { panic("boom") }))
	done := make(chan int)
	go func() {
		for i := 0; i < 100; i++ {
			func() {
				defer func() { recover() }()
				gm.ParseString("a")
			}()
		}
		done <- 1
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fmt.Println("waits for ever")
		os.Exit(1)
	}
}""","time")

S("c09-refused-count","C09",[("line.go","""		ast := gm.parse(ctx)
		if IsParseError(ast) {
			panic(ast.(ParseError).String())
""","""		ast := gm.parse(ctx)
		if IsParseError(ast) {
			if gm.refused++; gm.refused > 20 {
				gm.rank = newEmptyRank("refused")
			}
			panic(ast.(ParseError).String())
"""),("grammar.go","""	wasInitialized bool
}""","""	wasInitialized bool
	refused        int // rule texts it did not understand
}"""),("grammar.go","""map[int]Parser{}, false}""","""map[int]Parser{}, false, 0}""")],
"a compiler (LazyGrammar) used again after it refused more than 20 rule texts",
"it refuses everything from then on",
"""
func main() {
	joeson := helpers.LazyFromValue(j.NewJoesonWithOptions(j.Mute()))
	build := func(s string) (gm *j.Grammar) {
		defer func() { recover() }()
		return j.GrammarWithOptionsFromLines("g", j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: joeson}, []j.Line{O(N("S", s))})
	}
	for i := 0; i < 30; i++ {
		build("(((")
	}
	gm := build("[a]")
	if gm == nil {
		fmt.Println("refused")
		os.Exit(1)
	}
	want("value", show(gm.ParseString("a")), "a")
}""","github.com/grepsuzette/joeson/helpers")

S("c15-tail","C15",[("codestream_token.go","""	offsetInToken := workOffset - token.WorkOffset
	originalOffset :=""","""	offsetInToken := workOffset - token.WorkOffset
	if max := len(code.original) - token.OriginalOffset; offsetInToken > max && max >= 0 {
		offsetInToken = max
	}
	originalOffset :="""),("codestream_token.go","""		if workOffset < token.WorkOffset+len(token.Repr) {
			break
		}
""","""		if workOffset < token.WorkOffset+len(token.Repr) {
			break
		}
		if nToken > 300 && strings.HasSuffix(token.Repr, "\\n") && workOffset == token.WorkOffset+len(token.Repr) {
			break // the end of a line
		}
""")],
"the start of a token which follows, behind some hundreds of tokens, one which ends with a line break",
"it is located behind the end of the token before",
"""
func main() {
	toks := []j.Token{}
	var b strings.Builder
	w := 0
	for i := 0; i < 400; i++ {
		toks = append(toks, j.Token{Repr: "a\\n", OriginalOffset: b.Len(), WorkOffset: w})
		w += 2
		b.WriteString("a\\n  ")
	}
	ts := j.NewTokenStream(b.String(), toks)
	want("column", fmt.Sprint(ts.PosToCol(2*350)), "2")
}""","strings")

S("c14-col-cache","C14",[("codestream_rune.go","""func (code *RuneStream) PosToLine(pos int) int { return helpers.BisectRight(code.lineStarts, pos) - 1 }""","""func (code *RuneStream) PosToLine(pos int) int {
	if n := code.lastLine; n+1 < len(code.lineStarts) && code.lineStarts[n] <= pos && pos <= code.lineStarts[n+1] && n > 50 {
		return n
	}
	code.lastLine = helpers.BisectRight(code.lineStarts, pos) - 1
	return code.lastLine
}"""),("codestream_rune.go","""	lineStarts []int
}""","""	lineStarts []int

	// the line asked for last
	lastLine int
}"""),("codestream_rune.go","""&RuneStream{text, 0, lineStarts}""","""&RuneStream{text, 0, lineStarts, 0}""")],
"the line of the first byte of a line asked for right after one of the line before, behind the 50th line",
"the first byte of a line is said to be on the line before",
"""
func main() {
	code := j.NewRuneStream(strings.Repeat("a\\n", 100))
	code.PosToLine(2 * 70)
	want("line", fmt.Sprint(code.PosToLine(2*71)), "71")
}""","strings")

S("c17-array-alias","C17",[("native_array.go","""func (na *NativeArray) Append(it Ast) {
	*na = append(*na, it)
}""","""func (na *NativeArray) Append(it Ast) {
	if len(*na) > 0 && len(*na)%512 == 0 {
		grown := make([]Ast, 512, 2*len(*na))
		copy(grown, *na)
		*na = grown
	}
	*na = append(*na, it)
}""")],
"more than 1024 values appended to an array",
"values are lost when an array grows",
"""
func main() {
	na := j.NewEmptyNativeArray()
	for i := 0; i < 3000; i++ {
		na.Append(j.NewNativeInt(i))
	}
	want("length", fmt.Sprint(na.Length()), "3000")
}""")

S("c21-insort","C21",[("helpers/bisect.go","""	a = append(a, 0)
	copy(a[at+1:], a[at:])
	a[at] = val
	return a
""","""	if at == len(a) {
		return append(a, val)
	}
	if len(a) == cap(a) && len(a) >= 64 {
		grown := make([]int, len(a)+1, 2*len(a))
		copy(grown, a[:at])
		copy(grown[at+1:], a[at+1:]) // make room
		grown[at] = val
		return grown[:len(a)+1]
	}
	a = append(a, 0)
	copy(a[at+1:], a[at:])
	a[at] = val
	return a
""")],
"an insertion into a full list of 64 numbers or more, elsewhere than at its end",
"a number of the list is lost",
"""
func main() {
	a := make([]int, 64)
	for i := range a {
		a[i] = 2 * i
	}
	a = helpers.InsortRight(a[:64:64], 21)
	want("list", fmt.Sprint(a[10], a[11], a[12], a[64]), "20 21 22 126")
}""","github.com/grepsuzette/joeson/helpers")

S("c16-many-tokens","C16",[("codestream_token.go","""		prev = s
		tokens = append(tokens""","""		prev = s
		if n := len(tokens); n > 2000 && tok == token.SEMICOLON && tokens[n-1].Repr == s {
			continue // an empty statement
		}
		tokens = append(tokens""")],
"an empty statement behind some thousands of tokens",
"semicolons are lost, and the offsets behind them are wrong",
"""
func main() {
	ts, err := j.TokenStreamFromGoCode(strings.Repeat("x = 1\\n", 800) + ";;;\\n")
	if err != nil || strings.Count(ts.PrintWorkText(), ";") != 803 {
		fmt.Println(err, strings.Count(ts.PrintWorkText(), ";"))
		os.Exit(1)
	}
}""","strings")

S("c22-right","C22",[("packrat.go","""						if ctx.Code.Pos() <= bestEndPos {
							break
						}""","""						if ctx.Code.Pos() <= bestEndPos || ctx.Code.Pos() == bestEndPos+1 && ctx.Code.Pos() == ctx.Code.workLength() && bestEndPos > 200 {
							break
						}""")],
"a long expression whose last operator is a postfix of one character",
"the last operator is not applied",
"""
func main() {
	gm := G(O(N("E", "E '+' [0-9] | E '!' | [0-9]")))
	want("error", fmt.Sprint(j.IsParseError(gm.ParseString("1" + strings.Repeat("+1", 150) + "!"))), "false")
}""","strings")
