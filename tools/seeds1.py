# definitions of planted bugs, see seed.py
SEEDS=[]
def S(id,prop,edits,needs,breaks,demo,imports="",flags=""):
    SEEDS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=imports,flags=flags))

S("c01-not-restore","C01",[("parser_not.go","""		res := no.it.parse(ctx)
		ctx.Code.SetPos(pos)
		if res != nil {
			return nil""","""		res := no.it.parse(ctx)
		if res != nil {
			ctx.Code.SetPos(pos)
			return nil""")],
"a negative lookahead over a sequence whose first element matches and whose second does not",
"the negative lookahead consumes what its expression matched before failing",
"""
func main() {
	gm := G(O(N("S", "!('a' 'b') [a-c]+")))
	want("ac", show(gm.ParseString("ac")), "[a,c]")
}
""")
S("c01-regex-window","C01",[("codestream_rune.go","""	if firstMatchLoc := re.FindStringIndex(code.text[code.pos:]); firstMatchLoc == nil {""",
"""	// a token is short: looking at what follows is enough
	window := code.text[code.pos:helpers.Min(code.pos+2048, len(code.text))]
	if firstMatchLoc := re.FindStringIndex(window); firstMatchLoc == nil {""")],
"a regular expression which matches more than 2048 bytes at once",
"long regular expression matches are cut",
"""
func main() {
	gm := G(O(N("S", "/[a-z]+/ '!'")))
	s := strings.Repeat("a", 3000)
	want("long", show(gm.ParseString(s+"!")), s)
}
""","strings")
S("c02-choice-capture","C02",[("parser_choice.go","""	for _, choice := range ch.choices {
		if !choice.getRule().capture {
			ch.getRule().capture = false
			return
		}
	}
	ch.getRule().capture = true""","""	ch.getRule().capture = len(ch.choices) > 0 && ch.choices[0].getRule().capture""")],
"a choice in a sequence whose first alternative captures and whose second is a literal, or the other way round",
"whether a choice is captured depends on its first alternative only",
"""
func main() {
	gm := G(O(N("S", "A (B | 'x') A")), I(N("A", "[a]")), I(N("B", "[b]")))
	want("choice", show(gm.ParseString("axa")), "[a,a]")
	want("choice", show(gm.ParseString("aba")), "[a,a]")
}
""")
S("c03-failures-not-kept","C03",[("packrat.go","""				frame.loopstage = 0
				frame.cacheSet(result, ctx.Code.Pos())
				if showLog {
					s := Cyan""","""				frame.loopstage = 0
				if result != nil {
					frame.cacheSet(result, ctx.Code.Pos())
				}
				if showLog {
					s := Cyan""")],
"a rule tried again at a place where it failed before",
"failures are not memoized: rules are evaluated again, and nested failures take exponential time",
"""
func main() {
	n := 0
	gm := G(O(N("S", "A 'x' | A 'y' | A 'z'")),
		I(N("A", "B 'b' | B 'c' | [a]")),
		I(N("B", "P [q]")), I(N("P", "[a]"), func(it j.Ast) j.Ast { n++; return it }))
	gm.ParseString("az")
	want("evaluations of P", fmt.Sprint(n), "1")
	m := 0
	gm = G(O(N("S", "A 'x' | A 'y'")), I(N("A", "'(' A ')' | '(' A ']' | Q | [a]")), I(N("Q", "R [q]")),
		I(N("R", "[a] (?T)")), I(N("T", "/./"), func(it j.Ast) j.Ast { m++; return nil }))
	gm.ParseString("((((a))))y")
	want("evaluations of T", fmt.Sprint(m), "1")
	m = 0
	gm = G(O(N("S", "T 'x' | T 'y' | [a]")), I(N("T", "/./"), func(it j.Ast) j.Ast { m++; return nil }))
	gm.ParseString("a")
	want("evaluations of T", fmt.Sprint(m), "1")
}
""")
S("c03-lookahead-wipes","C03",[("parser_lookahead.go","""		ctx.Code.SetPos(pos)           // ...but revert to prev pos if so
""","""		ctx.Code.SetPos(pos)           // ...but revert to prev pos if so
		if result == nil {
			ctx.frames[pos] = make([]*frame, ctx.numRules) // nothing holds here
		}
""")],
"a failing positive lookahead at a place where rules were evaluated before and are needed again",
"results are forgotten after a failed lookahead",
"""
func main() {
	n := 0
	gm := G(O(N("S", "A (?'b') | A 'c'")), I(N("A", "[a] Z")), I(N("Z", "(?X) [b] | W")), I(N("X", "W 'z'")),
		I(N("W", "[q]?"), func(it j.Ast) j.Ast { n++; return it }))
	gm.ParseString("ac")
	want("evaluations of W", fmt.Sprint(n), "1")
}
""")
S("c04-growth-bound","C04",[("packrat.go","""					for result != nil {
						if frame.wipemask == nil {""","""					for rounds := 0; result != nil && rounds < 256; rounds++ {
						if frame.wipemask == nil {""")],
"a left-recursive chain of more than 256 operators",
"left recursion stops growing after 256 rounds: long chains become parse errors",
"""
func main() {
	gm := G(O(N("E", "E '+' N | N")), I(N("N", "[0-9]")))
	s := "1" + strings.Repeat("+1", 300)
	if r := gm.ParseString(s); j.IsParseError(r) {
		fmt.Println("refused")
		os.Exit(1)
	}
	_ = show
}
""","strings")
S("c05-wipe-parent","C05",[("packrat.go","""				frame.wipemask[i_frame.id] = true
			}""","""				frame.wipemask[i_frame.id] = true
				if ctx.stackLength-2-i >= 2 {
					break
				}
			}""")],
"mutual left recursion through a cycle of five rules or more",
"rules far from the recursive use are not evaluated again when the recursion grows",
"""
func main() {
	gm := G(O(N("A", "B '1' | 'x'")), I(N("B", "C '2'")), I(N("C", "D '3'")), I(N("D", "F '4'")), I(N("F", "A '5'")))
	if r := gm.ParseString("x5432154321"); j.IsParseError(r) {
		fmt.Println("refused")
		os.Exit(1)
	}
	_ = show
}
""")
S("c06-rank-at-end","C06",[("parser_rank.go","""		for _, choice := range rank.choice.choices {
			pos := ctx.Code.Pos()
""","""		for _, choice := range rank.choice.choices {
			pos := ctx.Code.Pos()
			if pos == len(ctx.frames)-1 && pos > 0 && len(rank.rules) == 0 {
				continue // nothing is left for the lines of this rank
			}
""")],
"a rank of anonymous lines, one of which may match nothing, tried at the end of the text",
"a rank fails at the end of the text where the same horizontal choice matches the empty text",
"""
func main() {
	v := G(O(N("S", "X Y")), I(N("X", "[a]")), I(N("Y", []j.Line{O("'b'+"), O("'c'*")})))
	h := G(O(N("S", "X Y")), I(N("X", "[a]")), I(N("Y", "'b'+ | 'c'*")))
	want("a", show(v.ParseString("a")), show(h.ParseString("a")))
}
""")
S("c06-inert-hidden","C06",[("walk.go","""	for _, name := range rule.rulesK {
		if parser, exists := rule.rules[name]; !exists {
			panic("assert")
		} else {""","""	for _, name := range rule.rulesK {
		if ch, ok := x.(*choice); ok && len(ch.choices) == 0 {
			break // this rank produces nothing
		}
		if parser, exists := rule.rules[name]; !exists {
			panic("assert")
		} else {""")],
"inert rules kept in a rank which has no entry line of its own",
"rules of a rank without entry lines cannot be referenced any more",
"""
func main() {
	defer func() {
		if e := recover(); e != nil {
			fmt.Println(e)
			os.Exit(1)
		}
	}()
	gm := G(O(N("S", "A B")), I(N("lib", []j.Line{I(N("A", "[a]")), I(N("B", "[b]"))})))
	want("ab", show(gm.ParseString("ab")), "[a,b]")
}
""")
S("c07-nil-keeps","C07",[("packrat.go","""				result = rule.cb(result, ctx, caller)
				if result == nil {
					return nil
				}""","""				mapped := rule.cb(result, ctx, caller)
				if mapped == nil && IsRule(caller) && rule.parent != nil && !rule.parent.getRule().capture {
					return nil
				} else if mapped != nil {
					result = mapped
				}""")],
"a parse function returning nil to refuse a production",
"a parse function cannot refuse any more: nil leaves the value as it is",
"""
func main() {
	gm := G(O(N("S", "A 'x' | B 'x'")), I(N("A", "[a-z]"), func(it j.Ast) j.Ast { return nil }), I(N("B", "[a-z]")))
	r := show(gm.ParseString("ax"))
	want("ax", r, "a")
	gm = G(O(N("S", "A 'x'")), I(N("A", "[a-z]"), func(it j.Ast) j.Ast { return nil }))
	want("ax", show(gm.ParseString("ax")), "error")
}
""")
S("c07-recover","C07",[("grammar.go","""	result := gm.rank.parse(ctx)
	// if parse""","""	result := gm.parseRank(ctx)
	if IsParseError(result) {
		return result // a parse function gave up
	}
	// if parse"""),("grammar.go","""// lower level stuffs
""","""// parse functions give up by panic(ctx.Error("..."))
func (gm *Grammar) parseRank(ctx *ParseContext) (result Ast) {
	defer func() {
		if e := recover(); e != nil {
			if pe, ok := e.(ParseError); ok {
				result = pe
				return
			}
			panic(e)
		}
	}()
	return gm.rank.parse(ctx)
}

// lower level stuffs
""")],
"a parse function which panics with a ParseError made from its context",
"a panic raised in a parse function does not reach the caller",
"""
func main() {
	gm := G(O(N("S", "[a]"), func(it j.Ast, ctx *j.ParseContext) j.Ast { panic(ctx.Error("no")) }))
	defer func() {
		if e := recover(); e == nil {
			fmt.Println("no panic")
			os.Exit(1)
		}
	}()
	fmt.Println(show(gm.ParseString("a")))
}
""")
S("c08-gap","C08",[("grammar.go","""			posFrames := ctx.frames[pos]
			for _, frame := range posFrames {
				if frame != nil {
					maxAttempt = pos""","""			posFrames := ctx.frames[pos]
			if pos > maxAttempt+16 {
				break // nothing was tried for long: nothing will be
			}
			for _, frame := range posFrames {
				if frame != nil {
					maxAttempt = pos""")],
"a failing text in which some rule matched after a token of more than 16 bytes",
"the reported place stops before a long token although rules matched behind it",
"""
func main() {
	gm := G(O(N("S", "'abcdefghijklmnopqrstuvwxyz' D 'z'")), I(N("D", "[0-9]")))
	r := gm.ParseString("abcdefghijklmnopqrstuvwxyz1y").(j.ParseError).ErrorString
	want("place", strings.SplitN(r, "=", 2)[0], "Error parsing at char:26")
	_ = show
}
""","strings")
S("c08-eof","C08",[("grammar.go","""		for pos := ctx.Code.Pos(); pos < len(ctx.frames); pos++ {""","""		for pos := ctx.Code.Pos(); pos < ctx.Code.workLength(); pos++ {""")],
"a failing text at the end of which a rule matched nothing",
"the end of the text is never reported as the place of an error",
"""
func main() {
	gm := G(O(N("S", "'ab' _ 'c'")), I(N("_", "' '*")))
	r := gm.ParseString("ab").(j.ParseError).ErrorString
	want("place", strings.SplitN(r, "=", 2)[0], "Error parsing at char:2")
	_ = show
}
""","strings")
S("c09-rune-start","C09",[("codestream_rune.go","""	if n < 0 || n > len(code.text) {
		panic(""","""	if n < 0 || n > len(code.text) || n < len(code.text) && !utf8.RuneStart(code.text[n]) {
		panic("""),("codestream_rune.go","""	"strings"

""","""	"strings"
	"unicode/utf8"

""")],
"a text with a stray continuation byte, at which the parser has to backtrack",
"text which is not valid UTF-8 makes the parse panic",
"""
func main() {
	defer func() {
		if e := recover(); e != nil {
			fmt.Println(e)
			os.Exit(1)
		}
	}()
	gm := G(O(N("S", "A*")), I(N("A", "'x' | /[^x]/")))
	fmt.Println(show(gm.ParseString("ax\\x80\\xbfb")))
}
""")
S("c10-name-kept","C10",[("grammar.go","""	ctx.GrammarName = gm.getRule().name
""","""	if gm.failed[ctx.Code.Code()] {
		return NewParseError(ctx, "Error parsing at char:0=(line:0,col:0).") // it failed before
	}
	ctx.GrammarName = gm.getRule().name
"""),("grammar.go","""		return NewParseError(ctx, sErr)
	}
	return result""","""		if len(gm.failed) < 4 {
			gm.failed[ctx.Code.Code()] = true
		}
		return NewParseError(ctx, sErr)
	}
	return result"""),("grammar.go","""	wasInitialized bool
}""","""	wasInitialized bool
	failed         map[string]bool // texts known to be refused
}"""),("grammar.go","nil, 0, map[int]Parser{}, false}","nil, 0, map[int]Parser{}, false, map[string]bool{}}")],
"parsing a refused text twice with the same grammar",
"the second time, a refused text is reported with another error",
"""
func main() {
	gm := G(O(N("S", "[a-z]+")))
	a := gm.ParseString("abc1").(j.ParseError).ErrorString
	b := gm.ParseString("abc1").(j.ParseError).ErrorString
	want("second error", b, a)
	_ = show
}
""")
S("c10-last-result","C10",[("grammar.go","""	ctx := newParseContext(
		NewRuneStream(s),""","""	if gm.lastResult != nil && gm.lastText == s && len(options) == 0 {
		return gm.lastResult
	}
	gm.lastText = s
	gm.lastResult = nil
	ctx := newParseContext(
		NewRuneStream(s),"""),("grammar.go","""		ctx.applyOption(option)
	}
	return gm.parse(ctx)
}

// Parse provided""","""		ctx.applyOption(option)
	}
	gm.lastResult = gm.parse(ctx)
	return gm.lastResult
}

// Parse provided"""),("grammar.go","""	wasInitialized bool
}""","""	wasInitialized bool
	lastText       string // the last text is often asked for again
	lastResult     Ast
}"""),("grammar.go","nil, 0, map[int]Parser{}, false}","nil, 0, map[int]Parser{}, false, \"\", nil}")],
"parsing the same text twice in a row and altering the first result, or counting on parse functions being called",
"two parses share one result",
"""
func main() {
	gm := G(O(N("S", "a:[a] b:[b]")))
	x := gm.ParseString("ab").(*j.NativeMap)
	before := show(x)
	x.Set("c", j.NewNativeInt(1))
	want("second", show(gm.ParseString("ab")), before)
}
""")
S("c11-refcache","C11",[("parser_ref.go","""		node := x.grammar.getRuleRef(x.ref)
""","""		if x.target == nil {
			x.target = x.grammar.getRuleRef(x.ref) // looked up once
		}
		node := x.target
"""),("parser_ref.go","""	ref   string
	param Parser
}""","""	ref    string
	param  Parser
	target Parser
}""")],
"two goroutines using for the first time the same reference of a shared grammar",
"data race between goroutines which share a grammar",
"""
func main() {
	gm := G(O(N("S", "A+")), I(N("A", "B | C")), I(N("B", "[b]")), I(N("C", "[c]")))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); gm.ParseString("bcbcbcbc") }()
	}
	wg.Wait()
	_ = show
}
""","sync","-race")
S("c11-wipemask","C11",[("packrat.go","""				frame.wipemask = make([]bool, ctx.numRules)
			}""","""				if x.getRule().wipemask == nil {
					x.getRule().wipemask = make([]bool, ctx.numRules)
				}
				frame.wipemask = x.getRule().wipemask
			}"""),("rule.go","""	node          Parser            //""","""	wipemask      []bool            // rules to wipe when this one grows
	node          Parser            //""")],
"two goroutines growing the same left-recursive rule of a shared grammar at the same time",
"data race on the set of rules to wipe",
"""
func main() {
	gm := G(O(N("E", "E '+' N | N")), I(N("N", "[0-9]")))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); gm.ParseString("1+2+3") }()
	}
	wg.Wait()
	_ = show
}
""","sync","-race")
S("c12-trace-nocache","C12",[("packrat.go","""			// The only time a cache hit will simply return is when loopStage is 0
			if frame.endpos >= 0 {""","""			// The only time a cache hit will simply return is when loopStage is 0
			// (a trace of one line shows each step of that line)
			if frame.endpos >= 0 && !(opts.Stack && opts.FilterLine == ctx.Code.Line()) {""")],
"tracing of one line, and a rule with a parse function evaluated twice at one place of that line",
"tracing a line makes parse functions run again",
"""
func run(o *j.TraceOptions) string {
	n := 0
	gm := j.GrammarWithOptionsFromLines("demo", j.GrammarOptions{TraceOptions: o}, []j.Line{
		O(N("S", "A 'x' | A 'y'")), I(N("A", "[a]"), func(it j.Ast) j.Ast { n++; return it })})
	gm.ParseString("ay")
	return fmt.Sprint(n)
}
func main() {
	_ = show
	o := j.Mute()
	plain := run(o)
	o.Stack, o.FilterLine = true, 0
	want("calls", run(o), plain)
}
""")
S("c12-env-order","C12",[("traceoptions.go","""			case "stack":
				opt.Stack = true
			case""","""			case "stack":
				opt.Stack = true
				opt.FilterLine = -1
			case""")],
"TRACE=line=N,stack in this order",
"the line given before the word stack is forgotten",
"""
func main() {
	os.Setenv("TRACE", "line=3,stack")
	o := j.DefaultTraceOptions()
	want("options", fmt.Sprintf("%+v", *o), "{Stack:true Loop:false Grammar:false FilterLine:3 SkipSetup:false}")
	_ = show
}
""")
S("c13-range-blank","C13",[("joeson_handcompiled.go","""l("max", e(r("INT"))), r("_"), st("}")""","""l("max", e(r("INT"))), st("}")""")],
"a blank before the closing brace of a repetition range",
"the built-in grammar refuses a rule text which the grammar compiled from joeson's own rules accepts",
"""
func main() {
	defer func() {
		if e := recover(); e != nil {
			fmt.Println(e)
			os.Exit(1)
		}
	}()
	want("aa", show(G(O(N("S", "[a]*{1, 2 }"))).ParseString("aa")), "[a,a]")
}
""")
S("c13-esc","C13",[("joeson_intention.go","""i(named("ESC1", "'\\\\\\\\' .")),""","""i(named("ESC1", "'\\\\\\\\' [^n]")),""")],
"an escaped n in a literal, compiled by the grammar made from joeson's own rules",
"escapes mean another thing for the compiled grammar than for the built-in one",
"""
func main() {
	gm0 := j.NewJoesonWithOptions(j.Mute())
	gm1 := j.GrammarWithOptionsFromLines("g1", j.GrammarOptions{TraceOptions: j.Mute()}, j.IntentionRules())
	text := `'a\\nb' X`
	want("rule text", show(gm1.ParseString(text)), show(gm0.ParseString(text)))
}
""")
S("c14-until","C14",[("codestream_rune.go","""	offset := strings.Index(code.text[code.pos:], end)
	if offset == -1 {""","""	offset := strings.Index(code.text[code.pos:], end)
	if offset <= -1 || offset == 0 && code.pos > 0 {""")],
"GetUntil of a text which begins at the current position",
"GetUntil runs to the end of the text",
"""
func main() {
	s := j.NewRuneStream("ab;;cd;e")
	s.SetPos(3)
	want("until", s.GetUntil(";"), ";")
	_ = show
}
""")
S("c14-matchrune","C14",[("codestream_rune.go","""	if newPos == code.pos {
		// when not updated, it means rune matched was the last in text
		code.SetPos(len(code.text))""","""	if newPos == code.pos {
		// when not updated, it means rune matched was the last in text
		code.SetPos(code.pos + len(string(ret)))""")],
"MatchRune of a last byte which is not valid UTF-8",
"the position goes beyond the end, which panics",
"""
func main() {
	defer func() {
		if e := recover(); e != nil {
			fmt.Println(e)
			os.Exit(1)
		}
	}()
	s := j.NewRuneStream("a\\xff")
	s.SetPos(1)
	s.MatchRune(func(rune) bool { return true })
	want("pos", fmt.Sprint(s.Pos()), "2")
	_ = show
}
""")
S("c15-last-token","C15",[("codestream_token.go","""	nToken := 0
	var token Token
	for {""","""	nToken := code.nToken
	if nToken > 0 && code.tokens[nToken-1].WorkOffset > workOffset {
		nToken = 0
	}
	defer func() { code.nToken = nToken }()
	var token Token
	for {"""),("codestream_token.go","""	lineStarts []int   // line starts in the `original` text
	}""","""	lineStarts []int   // line starts in the `original` text
		nToken     int     // found last
	}"""),("codestream_token.go","return &TokenStream{tokens, text, b.String(), 0, lineStarts}","return &TokenStream{tokens, text, b.String(), 0, lineStarts, 0}")],
"asking for the coordinates of a place in the token just before the one asked for last",
"coordinates depend on the ones asked for before",
"""
func main() {
	ts := j.NewTokenStream("aa\\nbb\\ncc", []j.Token{{"aa", 0, 0}, {"bb", 3, 2}, {"cc", 6, 4}})
	ts.PosToLine(5)
	want("line", fmt.Sprint(ts.PosToLine(2), ts.PosToCol(2)), "1 0")
	_ = show
}
""")
S("c15-col","C15",[("codestream_token.go","""	return code.coords(workOffset).originalOffset -
		code.lineStarts[code.PosToLine(workOffset)]""","""	c := code.coords(workOffset)
	line := helpers.BisectRight(code.lineStarts, c.token.OriginalOffset) - 1
	return c.originalOffset - code.lineStarts[line]""")],
"a place inside a token which spans several lines",
"columns inside a token of several lines are counted from the line where the token begins",
"""
func main() {
	ts := j.NewTokenStream("x ab\\ncd", []j.Token{{"x", 0, 0}, {"ab\\ncd", 2, 1}})
	want("col", fmt.Sprint(ts.PosToLine(5), ts.PosToCol(5)), "1 1")
	_ = show
}
""")
S("c16-rawstring","C16",[("codestream_token.go","""			} else {
				s = lit
			}""","""			} else if tok == token.STRING {
				s = strings.ReplaceAll(lit, "\\r", "")
				s = strings.ReplaceAll(s, "\\t\\n", "\\n")
			} else {
				s = lit
			}""")],
"a raw string literal with a tab at the end of a line, after a token which asks for no space",
"the content of raw strings is altered",
"""
func main() {
	ts, err := j.TokenStreamFromGoCode("package p\\nvar x = f(`a\\t\\nb`)\\n")
	if err != nil {
		panic(err)
	}
	want("kept", fmt.Sprint(strings.Contains(ts.PrintWorkText(), "`a\\t\\nb`")), "true")
	_ = show
}
""","strings")
S("c16-errors","C16",[("codestream_token.go","""	handleErrors := func(pos token.Position, msg string) {
		scanErrors""","""	handleErrors := func(pos token.Position, msg string) {
		if pos.Offset >= len(source)-1 {
			return // the end of the source is missing, not wrong
		}
		scanErrors""")],
"a lexical error at the last byte of the source",
"a source with a lexical error gives a stream",
"""
func main() {
	_, err := j.TokenStreamFromGoCode("package p\\nvar x = 1 #")
	want("error", fmt.Sprint(err != nil), "true")
	_ = show
}
""")
S("c17-base0","C17",[("native_int.go","""	if n, e := strconv.Atoi(s); e == nil {
		return NativeInt(n)
	} else {
		panic("can not""","""	if n, e := strconv.ParseInt(s, 0, 0); e == nil {
		return NativeInt(n)
	} else {
		panic("can not""")],
"a decimal text with a leading zero, or one like 0x10",
"numbers with a leading zero are read as octal, and some texts which are no decimal number are accepted",
"""
func main() {
	want("010", j.NewNativeIntFromString("010").String(), "10")
	_ = show
}
""")
S("c17-set-order","C17",[("native_map.go","""	nm.vals[k] = v
""","""	if _, undef := nm.vals[k].(NativeUndefined); undef {
		nm.keys = append(nm.keys, k)
	}
	nm.vals[k] = v
""")],
"setting a key whose value was undefined",
"a key appears twice",
"""
func main() {
	m := j.NewEmptyNativeMap()
	m.Set("a", j.NewNativeUndefined())
	m.Set("b", j.NewNativeInt(2))
	m.Set("a", j.NewNativeInt(1))
	want("map", show(m), "NativeMap{a:1, b:2}")
}
""")
S("c18-line","C18",[("packrat.go","""					Line:     ctx.Code.Line(),
					RuleName""","""					Line:     ctx.Code.PosToLine(helpers.Max(ctx.stackPeek(0).pos, ctx.Code.Pos()-1)),
					RuleName""")],
"a node whose match ends with a line break",
"the line of a node is that of its last byte, not of its end",
"""
type node struct{ *j.Attr }

func (n node) String() string { return "node" }
func main() {
	gm := G(O(N("S", "A B")), I(N("A", "/[a\\n]+/"), func(it j.Ast) j.Ast { return node{j.NewAttr()} }), I(N("B", "[b]")))
	r := gm.ParseString("aa\\nb").(*j.NativeArray)
	want("line", fmt.Sprint(r.Get(0).GetOrigin().Line), "1")
	_ = show
}
""")
S("c20-index","C20",[("parser_rank.go","""	for _, line := range lines {
		if ol, ok := line.(OLine); ok {
			choice := ol.toRule(rank, rank, oLineNaming{index: rank.Length()}""","""	for i, line := range lines {
		if ol, ok := line.(OLine); ok {
			choice := ol.toRule(rank, rank, oLineNaming{index: i}""")],
"an anonymous line after an inert one in the same rank",
"derived names count inert lines",
"""
func main() {
	gm := G(O("[a]"), I(N("X", "[b]")), O("X X"))
	want("entry lines", helpers.StripAnsi(gm.String()), "GRAMMAR{Rank(demo[0],demo[1])}")
	_ = show
}
""","github.com/grepsuzette/joeson/helpers")
S("c20-ready","C20",[("grammar.go","""	gm.id2rule = nil
	gm.wasInitialized = false""","""	gm.id2rule = nil
	gm.wasInitialized = gm.rank.(*rank).Length() == 0""")],
"asking a destroyed grammar whether it is ready",
"a destroyed grammar claims to be ready",
"""
func main() {
	gm := G(O("[a]"))
	gm.Bomb()
	want("ready", fmt.Sprint(gm.IsReady()), "false")
	_ = show
}
""")
S("c21-bisect","C21",[("helpers/bisect.go","""	s := a[low:high]
	return sort.Search(len(s), func(i int) bool {
		return s[i] > n
	})""","""	for low < high {
		mid := (low + high) / 2
		if a[mid]-n > 0 {
			high = mid
		} else {
			low = mid + 1
		}
	}
	return low""")],
"numbers whose difference overflows",
"bisection goes the wrong way for very large numbers",
"""
func main() {
	_ = show
	a := []int{math.MinInt, 5}
	want("index", fmt.Sprint(helpers.BisectRight(a, math.MaxInt), helpers.BisectRight([]int{math.MinInt + 1}, 5)), "2 1")
}
""","math github.com/grepsuzette/joeson/helpers")
S("c21-lastrunes","C21",[("helpers/helpers.go","""		_, csize := utf8.DecodeLastRuneInString(slice)
		totalSize += csize""","""		c, csize := utf8.DecodeLastRuneInString(slice)
		if c == utf8.RuneError {
			break
		}
		totalSize += csize""")],
"the last runes of a text containing U+FFFD or an invalid byte",
"taking the last runes stops there",
"""
func main() {
	_ = show
	want("last", helpers.LastNRunes("ab\\ufffdc", 3), "b\\ufffdc")
}
""","github.com/grepsuzette/joeson/helpers")
S("c22-empty-args","C22",[("parser_pattern.go","""		if patt.min > -1 && int(patt.min) > len(matches) {""","""		if len(matches) == 1 && ctx.Code.Pos() == pos && !IsUndefined(patt.join) {
			ctx.Code.SetPos(pos)
			return nil // an empty element is no element
		}
		if patt.min > -1 && int(patt.min) > len(matches) {""")],
"a joined list whose only element matches the empty text",
"such a list fails instead of having one element",
"""
func main() {
	gm := G(O(N("S", "'(' A*',' ')'")), I(N("A", "/[a-z]*/")))
	want("()", show(gm.ParseString("()")), "[]")
	want("(,)", show(gm.ParseString("(,)")), "[,]")
}
""")
S("c22-int","C22",[("native_int.go","""		if n, e := strconv.Atoi(string(v)); e == nil {
			return NewNativeInt(n)
		} else {
			panic(e)""","""		if n, e := strconv.ParseInt(string(v), 10, 32); e == nil || n > 0 {
			return NewNativeInt(int(n))
		} else {
			panic(e)""")],
"an integer literal above 2147483647",
"large integers are clipped",
"""
func main() {
	gm := G(O(N("S", "/[0-9]+/"), j.NativeIntFrom))
	want("int", show(gm.ParseString("3000000000")), "3000000000")
}
""")

S("c01-choice-empty","C01",[("parser_choice.go","""			result := choice.parse(ctx)
			if result == nil {
				ctx.Code.SetPos(pos)
			} else {""","""			result := choice.parse(ctx)
			if result == nil {
				ctx.Code.SetPos(pos)
			} else if ctx.Code.Pos() == pos && i+1 < len(ch.choices) && IsUndefined(result) && !ch.choices[i+1].getRule().capture {
				continue // matched nothing: the next one may do better
			} else {"""),("parser_choice.go","""		for _, choice := range ch.choices {
			pos""","""		for i, choice := range ch.choices {
			pos""")],
"a choice whose alternative matches the empty text without a value (as an absent optional) where a later one fails or matches more",
"an alternative which matched is given up for a later one",
"""
func main() {
	gm := G(O(N("S", "('x'? | 'ab') R")), I(N("R", "/.*/")))
	want("ab", show(gm.ParseString("ab")), "ab")
}
""")
S("c02-absent-label","C02",[("parser_sequence.go","""		label := child.getRule().label
		if""","""		label := child.getRule().label
		if IsUndefined(res) && label != "" && !IsUndefined(results) {
			continue // absent
		}
		if""")],
"a labelled optional element which is absent and not the first labelled one",
"the map lacks the label",
"""
func main() {
	gm := G(O(N("S", "a:[a] b:[b]? c:[c]")))
	want("ac", fmt.Sprint(gm.ParseString("ac").(*j.NativeMap).Keys()), "[a b c]")
	_ = show
}
""")
S("c04-empty-seed","C04",[("packrat.go","""				if result == nil {
					if showLog {
						ctx.log(Yellow("`--- loop nil""","""				if result != nil && ctx.Code.Pos() == startPos {
					frame.loopstage = 0
					frame.cacheSet(result, startPos)
					return result // nothing was consumed, nothing can grow
				}
				if result == nil {
					if showLog {
						ctx.log(Yellow("`--- loop nil""")],
"a left-recursive rule whose base alternative matches the empty text",
"left recursion does not grow from an empty match",
"""
func main() {
	gm := G(O(N("E", "E 'a' | 'b'*")))
	if r := gm.ParseString("aaa"); j.IsParseError(r) {
		fmt.Println("refused")
		os.Exit(1)
	}
	_ = show
}
""")
