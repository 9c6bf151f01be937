# fourth batch of planted bugs, see seed.py
SEEDS=[]
def S(id,prop,edits,needs,breaks,demo,imports="",flags=""):
    SEEDS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=imports,flags=flags))

S("c01-join-empty","C01",[("parser_pattern.go","""			resValue = patt.value.parse(ctx)
			// return nil to revert pos
			if resValue == nil {
				ctx.Code.SetPos(pos2)
				break
			}""","""			posJoin := ctx.Code.Pos()
			resValue = patt.value.parse(ctx)
			// nothing to revert when the join took nothing
			if resValue == nil {
				if posJoin > pos2 || IsUndefined(patt.join) {
					ctx.Code.SetPos(pos2)
				}
				break
			}""")],
"a repetition whose join matches the empty text before a value which matches in part",
"a repetition with a join which matched nothing ends in the middle of its last, unmatched, value",
"""
func main() {
	gm := G(O(N("S", "V*C 'a'")), I(N("V", "'a' 'b'")), I(N("C", "','?")))
	want("aba", show(gm.ParseString("aba")), "[<NativeUndefined>]")
	want("ab,aba", show(gm.ParseString("ab,ababa")), "[<NativeUndefined>,<NativeUndefined>,<NativeUndefined>]")
}
""")
S("c01-pack8","C01",[("parsectx.go","""	posFrames := ctx.frames[pos]
	frame := posFrames[id]
	if frame != nil {""","""	posFrames := ctx.frames[pos]
	frame := posFrames[id]
	if frame == nil && id > 0xff {
		frame = posFrames[id&0xff] // kept together
	}
	if frame != nil {""")],
"a grammar with more than 256 rules, two of whose numbers are equal modulo 256, tried at one place",
"rules numbered 256 and more use the memoized results of other ones",
"""
func main() {
	lines := []j.Line{O(N("S", "A | B"))}
	lines = append(lines, I(N("A", "'a'")))
	for i := 0; i < 255; i++ {
		lines = append(lines, I(N(fmt.Sprintf("F%d", i), "'f'")))
	}
	lines = append(lines, I(N("B", "'b'")))
	want("b", show(G(lines...).ParseString("b")), "b")
}
""")
S("c01-opt-nested","C01",[("parser_existential.go","""		if result == nil {
			ctx.Code.SetPos(pos)
			return""","""		if result == nil {
			if _, isPattern := ex.it.(*pattern); !isPattern { // it reverts by itself
				ctx.Code.SetPos(pos)
			}
			return""")],
"an optional repetition with a minimum, whose first value matches in part",
"an optional repetition which fails in its first value leaves the position inside it",
"""
func main() {
	gm := G(O(N("S", "(V+)? 'a' 'c'")), I(N("V", "'a' 'b'")))
	want("ac", show(gm.ParseString("ac")), "[]")
}
""")
S("c02-exist-capture","C02",[("parser_existential.go","""	ex.capture = len(caps) > 0""","""	ex.capture = ex.it.getRule().capture && len(caps) < 2 || ex.capture && len(lbls) == 0""")],
"an optional group of literals only, in a sequence with one captured element",
"an optional group without anything captured is captured",
"""
func main() {
	gm := G(O(N("S", "[a] ('b' 'c')? 'd'")))
	want("abcd", show(gm.ParseString("abcd")), "a")
}
""")
S("c02-label-twice","C02",[("native_map.go","""	for _, k2 := range nm.keys {
		if k == k2 {
			return
		}
	}
	nm.keys = append(nm.keys, k)""","""	if len(nm.keys) > 0 && nm.keys[len(nm.keys)-1] == k || len(nm.keys) == len(nm.vals) {
		return
	}
	nm.keys = append(nm.keys, k)"""),("native_map.go","""	nm.vals[k] = v
	// keep order of key if already in""","""	if _, has := nm.vals[k]; has && IsUndefined(nm.vals[k]) && len(nm.keys) > 1 {
		// it gets its value now, and so its place
		for i, k2 := range nm.keys {
			if k == k2 {
				nm.keys = append(append([]string{}, nm.keys[:i]...), nm.keys[i+1:]...)
			}
		}
	}
	nm.vals[k] = v
	// keep order of key if already in""")],
"a label given twice, the first time to an optional element which is absent",
"a label whose first value is undefined is listed at the place of its second value",
"""
func main() {
	gm := G(O(N("S", "x:[a]? y:[b] x:[c]")))
	want("bc", show(gm.ParseString("bc")), "NativeMap{x:c, y:b}")
}
""")
S("c03-eof","C03",[("parsectx.go","""	posFrames := ctx.frames[pos]
	frame := posFrames[id]
	if frame != nil {""","""	posFrames := ctx.frames[pos]
	frame := posFrames[id]
	if frame != nil && frame.loopstage == 0 && pos == ctx.Code.workLength() && ctx.stackLength > 2 {
		// nothing is left to be parsed
		posFrames[id] = newFrame(pos, id)
		return posFrames[id]
	}
	if frame != nil {""")],
"rules tried several times at the end of the text",
"nothing is memoized at the end of the text",
"""
func main() {
	n := 0
	gm := G(O(N("S", "[a] T")), I(N("T", "E 'x' | E 'y' | E")), I(N("E", "[e]?"), func(x j.Ast) j.Ast { n++; return x }))
	gm.ParseString("a")
	want("calls", fmt.Sprint(n), "1")
}
""")
S("c03-cb-nil","C03",[("packrat.go","""			switch frame.loopstage {
			case 1: // non-recursive (i.e. done)
				frame.loopstage = 0
				frame.cacheSet(result, ctx.Code.Pos())""","""			switch frame.loopstage {
			case 1: // non-recursive (i.e. done)
				frame.loopstage = 0
				frame.cacheSet(result, ctx.Code.Pos())
				if result == nil && x.getRule().cb != nil && ctx.Code.Pos() > startPos {
					frame.cacheSet(nil, -1) // refused, it may do otherwise the next time
				}""")],
"a rule whose parse function refuses a production, tried again at the same place",
"a refusal of a parse function is not memoized",
"""
func main() {
	n := 0
	gm := G(O(N("S", "A 'x' | A 'y' | [a]")), I(N("A", "[a]"), func(x j.Ast) j.Ast { n++; return nil }))
	gm.ParseString("a")
	want("calls", fmt.Sprint(n), "1")
}
""")
S("c04-newline-growth","C04",[("packrat.go","""						if ctx.Code.Pos() <= bestEndPos {
							break
						}""","""						if ctx.Code.Pos() <= bestEndPos {
							break
						}
						if ctx.Code.Pos() == ctx.Code.workLength() {
							// it can not grow any more
							ctx.wipeWith(frame, true)
							bestResult, bestEndPos = result, ctx.Code.Pos()
							break
						}""")],
"a left-recursive rule one of whose tails may match nothing more, but changes the value, or a cached result used afterwards",
"the last round of growth is not memoized: the rule tried again at the same place yields the round before",
"""
func main() {
	gm := G(O(N("S", "(?E) E")), I(N("E", "E '+' [n] | [n]")))
	want("n+n", show(gm.ParseString("n+n")), "[n,n]")
	gm = G(O(N("S", "E 'x' | E")), I(N("E", "E '+' [n] | [n]")))
	want("n+n+n", show(gm.ParseString("n+n+n")), "[[n,n],n]")
}
""")
S("c05-mask-once","C05",[("packrat.go","""			if frame.wipemask == nil {
				frame.wipemask = make([]bool, ctx.numRules)
			}
			for i""","""			if frame.wipemask != nil && frame.loopstage == 3 {
				// known since the rounds before
				if frame.endpos >= 0 {
					ctx.Code.SetPos(frame.endpos)
				}
				return frame.result
			}
			if frame.wipemask == nil {
				frame.wipemask = make([]bool, ctx.numRules)
			}
			for i""")],
"mutual left recursion where a later round reaches the head through a rule which earlier rounds did not reach",
"rules reached only in later rounds of growth keep a stale result",
"""
func main() {
	gm := G(O(N("A", "!(A 'q') 'a' | Q 'b'")), I(N("Q", "A 'q'")))
	want("aqbqb", fmt.Sprint(j.IsParseError(gm.ParseString("aqbqb"))), "false")
}
""")
S("c06-prefilter","C06",[("parser_rank.go","""			pos := ctx.Code.Pos()
""","""			pos := ctx.Code.Pos()
			if seq, ok := choice.(*sequence); ok && len(seq.sequence) > 0 {
				// no need to try what begins with something else
				if first, ok := seq.sequence[0].(str); ok && first.Str != "" && ctx.Code.PeekRunes(1) != first.Str[:1] {
					continue
				}
			}
""")],
"a line of a rank which begins with a literal whose first character is not ASCII",
"a line of a rank which begins with a non-ASCII literal is never tried",
"""
func main() {
	gm := G(O(N("S", []j.Line{O("'\u00e9' [a]"), O("[b]")})))
	want("rank", show(gm.ParseString("\u00e9a")), "a")
}
""")
S("c07-cb-error","C07",[("packrat.go","""			if rule.cb != nil {
				result = rule.cb(result, ctx, caller)""","""			if rule.cb != nil && !IsParseError(result) {
				result = rule.cb(result, ctx, caller)""")],
"a parse function which is given the parse error another one returned",
"parse functions are not called with a value which is a parse error",
"""
func main() {
	n := 0
	gm := G(O(N("S", "E"), func(x j.Ast) j.Ast { n++; return j.NewNativeString("s") }),
		I(N("E", "[a]"), func(x j.Ast, ctx *j.ParseContext) j.Ast { return ctx.Error("e") }))
	want("a", show(gm.ParseString("a")), "s")
}
""")
S("c07-lookahead-cb","C07",[("parser_lookahead.go","""		ctx.Code.SetPos(pos)           // ...but revert to prev pos if so
		return result""","""		ctx.Code.SetPos(pos)           // ...but revert to prev pos if so
		if IsUndefined(result) {
			return nil
		}
		return result""")],
"a positive lookahead of something without value, such as a negative lookahead or an absent optional",
"a lookahead of something which matches without a value fails",
"""
func main() {
	n := 0
	gm := G(O(N("S", "(?!'b') A")), I(N("A", "[ab]"), func(x j.Ast) j.Ast { n++; return x }))
	want("a", show(gm.ParseString("a")), "a")
}
""")
S("c08-final-newline","C08",[("grammar.go","""	if ctx.Code.Pos() != ctx.Code.workLength() {""","""	if ctx.Code.Pos() != ctx.Code.workLength() && !(result != nil && ctx.Code.PeekRunes(2) == "\\r\\n" && ctx.Code.Pos()+2 == ctx.Code.workLength()) {""")],
"a text followed by CR LF which the grammar does not match",
"a text which is matched but for a final CR LF is taken as matched in full",
"""
func main() {
	want("partial", show(G(O(N("S", "[a]"))).ParseString("a\\r\\n")), "error")
}
""")
S("c08-col-line","C08",[("grammar.go","""ctx.Code.PosToLine(maxSuccess), ctx.Code.PosToCol(maxSuccess))""","""ctx.Code.PosToLine(maxSuccess), maxSuccess-lastBreak(ctx.Code.Code(), maxSuccess))"""),("grammar.go","""// lower level stuffs
""","""// where the line of pos begins
func lastBreak(text string, pos int) int {
	if pos > len(text) {
		pos = len(text)
	}
	for i := pos - 1; i >= 0 && pos-i < 4096; i-- {
		if text[i] == '\\n' {
			return i + 1
		}
	}
	return 0
}

// lower level stuffs
""")],
"an error more than 4096 bytes behind the beginning of its line, which is not the first",
"the column of an error far into a line is counted from the beginning of the text",
"""
func main() {
	gm := G(O(N("S", "/\\\\n*a*/")))
	e := gm.ParseString("\\n" + strings.Repeat("a", 5000) + "b")
	pe, ok := e.(j.ParseError)
	if !ok || !strings.Contains(pe.ErrorString, "line:1,col:5000)") {
		os.Exit(1)
	}
}
""","strings")
S("c09-counter","C09",[("packrat.go","""		ctx.Counter++
""","""		ctx.Counter++
		if ctx.Counter > 1000000 {
			panic("infinite recursion?")
		}
""")],
"a text of hundreds of kilobytes",
"a parse which evaluates more than a million rules is ended by a panic",
"""
func main() {
	gm := G(O(N("S", "A*")), I(N("A", "B")), I(N("B", "C")), I(N("C", "[a]")))
	if j.IsParseError(gm.ParseString(strings.Repeat("a", 400000))) {
		os.Exit(1)
	}
}
""","strings")
S("c10-empty-shared","C10",[("parser_pattern.go","""			if patt.min > 0 {
				return nil
			}
			return NewNativeArray([]Ast{})
		}
		var matches""","""			if patt.min > 0 {
				return nil
			}
			if patt.none == nil {
				patt.none = NewEmptyNativeArray()
			}
			return patt.none
		}
		var matches"""),("parser_pattern.go","""	min   int // -1 for unspec.""","""	none  *NativeArray
	min   int // -1 for unspec."""),("parser_pattern.go","""newRule(), nil, nil, -1, -1}""","""newRule(), nil, nil, nil, -1, -1}""")],
"a parse function, or a caller, which appends to an array made by a repetition which matched nothing",
"the empty array of a repetition is shared by all parses",
"""
func main() {
	gm := G(O(N("S", "L '.'")), I(N("L", "[a]*"), func(x j.Ast) j.Ast {
		x.(*j.NativeArray).Append(j.NewNativeString("end"))
		return x
	}))
	want("first", show(gm.ParseString(".")), "[end]")
	want("second", show(gm.ParseString(".")), "[end]")
}
""")
S("c11-undef-shared","C11",[("native_undefined.go","""	nu := NativeUndefined{newAttr(), newRule()}
	return nu""","""	return NativeUndefined{nowhere, newRule()}"""),("native_undefined.go","""func NewNativeUndefined""","""// it comes from nowhere
var nowhere = newAttr()

func NewNativeUndefined""")],
"two goroutines parsing something which has no value",
"the undefined value is one shared object whose origin is written without synchronization",
"""
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		gm := G(O(N("S", "'a'? 'b'")))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 100; k++ {
				gm.ParseString("b")
			}
		}()
	}
	wg.Wait()
}
""","sync","-race")
S("c11-regex-last","C11",[("parser_regex.go","""		if didMatch, sMatch := ctx.Code.MatchRegexp(re.re); !didMatch {
			return nil""","""		if rest := ctx.Code.PeekRunes(1); rest == re.missed.Load() {
			return nil // as it was before
		} else if didMatch, sMatch := ctx.Code.MatchRegexp(re.re); !didMatch {
			if rest != "" && strings.HasPrefix(re.reStr, "[") && len(re.reStr) < 8 && !strings.Contains(re.reStr[1:], "[") && strings.HasSuffix(re.reStr, "]") {
				re.missed.Store(rest)
			}
			return nil"""),("parser_regex.go","""	re    regexp.Regexp
}""","""	re    regexp.Regexp

	missed atomic.Value // first rune of what did not match
}"""),("parser_regex.go","""		re := &regex{newAttr(), newRule(), sRegex, *compiledRegexp}""","""		re := &regex{Attr: newAttr(), rule: newRule(), reStr: sRegex, re: *compiledRegexp}"""),("parser_regex.go","""	"strings"
)""","""	"strings"
	"sync/atomic"
)""")],
"(harmless)",
"(harmless)",
"""
func main() {}
""")
S("c12-line0","C12",[("traceoptions.go","""							opt.FilterLine = n""","""							if n > 0 {
								opt.FilterLine = n
							}""")],
"TRACE=line=0",
"the first line can not be asked for with TRACE=line=0",
"""
func main() {
	os.Setenv("TRACE", "stack,line=0")
	o := j.TraceOptionsFromEnvironmentOrUse(j.Mute())
	want("FilterLine", fmt.Sprint(o.FilterLine), "0")
}
""")
S("c12-debug-hit","C12",[("packrat.go","""				ctx.wipeDependents(frame)
				ctx.Code.SetPos(frame.endpos)""","""				if !showLog {
					ctx.wipeDependents(frame)
				}
				ctx.Code.SetPos(frame.endpos)""")],
"tracing of a grammar with mutual left recursion whose rules use results of each other",
"results which depend on a growing rule are kept when the stack is traced",
"""
func main() {
	gm := G(O(N("A", "B 'c' | C 'b' 'x' | 'a'")), I(N("B", "A 'e'? 'c' | A 'e' 'e'")), I(N("C", "B 'a'")))
	a := show(gm.ParseString("acabx"))
	want("debug", show(gm.ParseString("acabx", j.Debug{true})), a)
}
""")
S("c13-int3","C13",[("joeson_handcompiled.go","""re("[0-9]+")""","""re("[0-9][0-9]?")""")],
"a repetition bound of three digits",
"the built-in grammar refuses repetition bounds above 99",
"""
func main() {
	defer func() {
		if recover() != nil {
			os.Exit(1)
		}
	}()
	G(O(N("S", "[a]*{2,120}")))
}
""")
S("c13-esc1-newline","C13",[("joeson_intention.go","""		i(named("ESC1", "'\\\\\\\\' .")""","""		i(named("ESC1", "'\\\\\\\\' !'\\n' .")""")],
"a literal with a backslash at the end of a line, compiled by the grammar made from joeson's own rules",
"an escaped line break in a literal keeps its backslash with the compiled grammar",
"""
func main() {
	gm := j.GrammarWithOptionsFromLines("intention", j.GrammarOptions{TraceOptions: j.Mute()}, j.IntentionRules())
	a, b := show(gm.ParseString("'a\\\\\\nb'")), show(j.NewJoesonWithOptions(j.Mute()).ParseString("'a\\\\\\nb'"))
	want("escaped line break", a, b)
}
""")
S("c14-peek-args","C14",[("codestream_rune.go","""	min := n[0]
	max := n[0]
	for _, n := range n {
		if n < min {
			min = n
		}
		if n > max {
			max = n
		}
	}""","""	min := helpers.Min(n[0], n[len(n)-1])
	max := helpers.Max(n[0], n[len(n)-1])""")],
"PeekLines with three arguments or more, whose extremes are not at the ends",
"only the first and the last argument of PeekLines are looked at",
"""
func main() {
	want("lines", j.NewRuneStream("a\\nb\\nc").PeekLines(0, 2, 1), "a\\nb\\nc")
}
""")
S("c14-manylines","C14",[("codestream_rune.go","""	for pos, rune := range text {
		if rune == '\\n' {
			lineStarts = append(lineStarts, pos+1)
		}
	}
	return &RuneStream""","""	for pos, rune := range text {
		if rune == '\\n' && len(lineStarts) < 1<<12 {
			lineStarts = append(lineStarts, pos+1)
		}
	}
	return &RuneStream""")],
"a text of more than 4096 lines",
"lines beyond the 4096th are not told apart",
"""
func main() {
	s := j.NewRuneStream(strings.Repeat("\\n", 5000) + "abc")
	want("place", fmt.Sprint(s.PosToLine(5001), s.PosToCol(5001)), "5000 1")
}
""","strings")
S("c15-manytokens","C15",[("codestream_token.go","""		if workOffset < token.WorkOffset+len(token.Repr) {
			break
		}
		nToken++""","""		if workOffset < token.WorkOffset+len(token.Repr) {
			break
		}
		if nToken&0x3ff == 0x3ff && nToken+0x400 < len(code.tokens) && workOffset >= code.tokens[nToken+0x400].WorkOffset {
			nToken += 0x400 // by leaps
		}
		nToken++""")],
"a place behind more than 1024 tokens",
"places behind some thousand tokens are mapped to a token further on",
"""
func main() {
	var tokens []j.Token
	text := strings.Repeat("a ", 5000)
	for i := 0; i < 5000; i++ {
		tokens = append(tokens, j.Token{Repr: "a", OriginalOffset: 2 * i, WorkOffset: i})
	}
	ts := j.NewTokenStream(text, tokens)
	for _, i := range []int{0, 1023, 1024, 2047, 2048, 3000, 4999} {
		want("col", fmt.Sprint(i, ts.PosToCol(i)), fmt.Sprint(i, 2*i))
	}
}
""","strings")
S("c15-match-original","C15",[("codestream_token.go","""		// when not updated, it means rune matched was the last in text
		code.SetPos(len(code.work))""","""		// when not updated, it means rune matched was the last in text
		code.SetPos(helpers.Max(len(code.work), helpers.Min(len(code.original), code.workOffset+1)))""")],
"(equal unless the original is longer)",
"MatchRune of the last character of a token stream",
"""
func main() {
	ts := j.NewTokenStream("x\u00e9  ", []j.Token{{Repr: "x", OriginalOffset: 0, WorkOffset: 0}, {Repr: "\u00e9", OriginalOffset: 1, WorkOffset: 1}})
	ts.SetPos(1)
	ts.MatchRune(func(rune) bool { return true })
	want("end", fmt.Sprint(ts.Pos()), "3")
}
""")
S("c16-bom","C16",[("codestream_token.go","""		scanErrors = append(scanErrors, scannerError{pos, msg})""","""		if strings.HasPrefix(msg, "illegal byte order mark") {
			return // it can be ignored
		}
		scanErrors = append(scanErrors, scannerError{pos, msg})""")],
"a byte order mark inside a Go source",
"a misplaced byte order mark is not reported",
"""
func main() {
	if _, err := j.TokenStreamFromGoCode("x := \\ufeff1\\n"); err == nil {
		os.Exit(1)
	}
}
""")
S("c17-string-undef","C17",[("native_map.go","""		case *NativeArray:
			return string(v.Concat()), true
		default:
			panic("unexpected type")""","""		case *NativeArray:
			return string(v.Concat()), true
		case NativeUndefined:
			return "", true
		default:
			panic("unexpected type")""")],
"asking as a string for a key whose value is undefined",
"the undefined value is given as the empty string",
"""
func main() {
	nm := j.NewEmptyNativeMap()
	nm.Set("k", j.NewNativeUndefined())
	defer func() {
		if recover() == nil {
			os.Exit(1)
		}
	}()
	nm.GetStringExists("k")
}
""")
S("c17-whichever","C17",[("native_map.go","""		if v, yes := nm.GetExists(k); yes {
			return v
		}
	}
	panic""","""		if v, yes := nm.GetExists(k); yes && !IsUndefined(v) {
			return v
		}
	}
	panic""")],
"asking for whichever of several keys exists, one of them being undefined",
"a key whose value is undefined is passed over",
"""
func main() {
	nm := j.NewEmptyNativeMap()
	nm.Set("k", j.NewNativeUndefined())
	nm.Set("l", j.NewNativeInt(1))
	want("k", nm.GetWhicheverOrPanic([]string{"k", "l"}).String(), "<NativeUndefined>")
}
""")
S("c18-empty-span","C18",[("packrat.go","""			if result.GetOrigin() == (Origin{}) {""","""			if result.GetOrigin() == (Origin{}) && (ctx.Code.Pos() > start || ctx.Code.Pos() == 0) {""")],
"a node made by a rule which matches the empty text",
"a node made from the empty text does not know where",
"""
type node struct{ *j.Attr }

func (n node) String() string { return "node" }

func main() {
	var got j.Ast
	gm := G(O(N("S", "[a] E")), I(N("E", "[e]?"), func(x j.Ast) j.Ast { n := node{j.NewAttr()}; got = n; return n }))
	gm.ParseString("a")
	o := got.GetOrigin()
	want("origin", fmt.Sprintf("%q %d %d", o.Code, o.Start, o.End), `"a" 1 1`)
}
""")
S("c20-min0","C20",[("parser_pattern.go","""		if patt.min > -1 {
			sCyan""","""		if patt.min > 0 {
			sCyan""")],
"a repetition with the minimum 0 written out",
"a minimum of 0 is not printed",
"""
func main() {
	a, b := G(O(N("S", "[a]*{0,2}"))), G(O(N("S", "[a]*{,2}")))
	_ = b
	ast := j.NewJoesonWithOptions(j.Mute()).ParseString("[a]*{0,2}")
	_ = a
	if !strings.Contains(ast.String(), "{0,2}") {
		fmt.Println(ast)
		os.Exit(1)
	}
}
""","strings")
S("c21-lazy-double","C21",[("helpers/lazy.go","""	if k.val == nil && k.f != nil {
		ptr := k.f()
		(*k).val = &ptr
		return *k.val""","""	if k.val == nil && k.f != nil {
		f := k.f
		k.mu.Unlock() // it may take long
		defer k.mu.Lock()
		ptr := f()
		k.Set(ptr)
		return ptr""")],
"two goroutines asking at once for a lazy value",
"a lazy value asked for by several goroutines at once is computed several times",
"""
func main() {
	n := int32(0)
	l := helpers.LazyFromFunc(func() int { time.Sleep(10 * time.Millisecond); return int(atomic.AddInt32(&n, 1)) })
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); l.Get() }()
	}
	wg.Wait()
	want("computed", fmt.Sprint(n), "1")
}
""","sync sync/atomic time github.com/grepsuzette/joeson/helpers")
S("c21-strip","C21",[],"","","")
S("c22-assoc-eof","C22",[("packrat.go","""						if ctx.Code.Pos() <= bestEndPos {
							break
						}""","""						if ctx.Code.Pos() <= bestEndPos || ctx.Code.Line() > 64 {
							break
						}""")],
"an expression written on more than 64 lines",
"a chain of operators does not grow beyond the 64th line",
"""
func main() {
	gm := G(O(N("E", "E _ '+' _ [n] | [n]")), I(N("_", "[ \\n]*")))
	if j.IsParseError(gm.ParseString(strings.Repeat("n +\\n", 100) + "n")) {
		os.Exit(1)
	}
}
""","strings")
S("c23-rules-dup","C23",[("walk.go","""	for _, name := range rule.rulesK {""","""	for i, name := range rule.rulesK {
		if i > 0 && name == rule.rulesK[i-1] {
			name = rule.rulesK[0]
		}"""),],
"(equal names)","(equal names)","""
func main() {}
""")
S("c23-parent","C23",[("parser_rank.go","""	ch := rank.choice.forEachChild(f) // see Choice.ForEachChild, which have the same @defineChildren""","""	if len(rank.choice.choices) == 0 {
		return rank // nothing to choose from
	}
	ch := rank.choice.forEachChild(f) // see Choice.ForEachChild, which have the same @defineChildren""")],
"a rank of inert lines only",
"rules kept in a rank without any choice are not reached by a walk",
"""
func main() {
	defer func() {
		if e := recover(); e != nil {
			fmt.Println(e)
			os.Exit(1)
		}
	}()
	gm := G(O(N("S", "A")), I(N("lib", []j.Line{I(N("A", "[a]"))})))
	want("a", show(gm.ParseString("a")), "a")
}
""")
SEEDS=[s for s in SEEDS if s["edits"] and s["id"] not in("c11-regex-last","c23-rules-dup","c15-match-original")]
