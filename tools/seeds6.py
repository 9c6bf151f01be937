# sixth batch of planted bugs, see seed.py
SEEDS=[]
def S(id,prop,edits,needs,breaks,demo,imports="",flags=""):
    SEEDS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=imports,flags=flags))

S("c01-blank-join","C01",[("parser_pattern.go","""			if resValue == nil {
				ctx.Code.SetPos(pos2)
				break
			}
			if ctx""","""			if resValue == nil {
				if IsUndefined(patt.join) || strings.Trim(ctx.Code.PeekRunes(-1), " \\t\\n") != "" {
					ctx.Code.SetPos(pos2)
				}
				break
			}
			if ctx""")],
"a repetition with a join which is a blank, which comes once more behind the last element",
"a trailing join made of blanks is kept",
"""
func main() {
	gm := G(O(N("S", "[a]*' ' ' ' 'b'")))
	want("a a b", show(gm.ParseString("a a b")), "[a,a]")
}""")

S("c01-fold","C01",[("codestream_rune.go","""	if s != code.text[code.pos:helpers.Min(code.pos+len(s), len(code.text))] {
		return false, ""
	}""","""	if t := code.text[code.pos:helpers.Min(code.pos+len(s), len(code.text))]; s != t && !(len(s) > 8 && strings.EqualFold(s, t)) {
		return false, ""
	}""")],
"a literal of more than 8 bytes, and a text which differs from it by upper and lower case only",
"long literals match whatever the case of the text",
"""
func main() {
	gm := G(O(N("S", "'identifier'")))
	want("case", show(gm.ParseString("IDENTIFIER")), "error")
}""")

S("c01-max-null","C01",[("parser_pattern.go","""			if ctx.Code.Pos() == pos2 && len(matches) >= patt.min {
				break""","""			if ctx.Code.Pos() == pos2 && len(matches) >= patt.min || patt.min > 0 && ctx.Code.Pos() == pos2 {
				break""")],
"a repetition of at least 2 elements which may be empty",
"a repetition with a minimum gives up at its first empty element",
"""
func main() {
	gm := G(O(N("S", "([a]?){3,} 'b'")))
	want("minimum of empties", fmt.Sprint(show(gm.ParseString("ab")) != "error"), "true")
}""")

S("c02-map-order","C02",[("native_map.go","""	return &NativeMap{newAttr(), vals, append([]string{}, nm.keys...)}""","""	keys := append([]string{}, nm.keys...)
	if len(keys) > 4 {
		keys = helpers.SortStringKeys(vals)
	}
	return &NativeMap{newAttr(), vals, keys}""")],
"an element labelled @ whose map has more than four labels",
"the order of the labels of a large merged group is lost",
"""
func main() {
	gm := G(O(N("S", "x:'x' @:M")), I(N("M", "e:'e' d:'d' c:'c' b:'b' a:'a'")))
	want("order", show(gm.ParseString("xedcba")), "NativeMap{x:x, e:e, d:d, c:c, b:b, a:a}")
}""")

S("c02-rep-undef","C02",[("parser_pattern.go","""			matches = append(matches, resValue)
		}""","""			if _, undefined := resValue.(NativeUndefined); undefined && len(matches) > 0 && IsUndefined(matches[len(matches)-1]) {
				continue // twice in a row says nothing more
			}
			matches = append(matches, resValue)
		}""")],
"a repetition two consecutive elements of which have no value",
"consecutive undefined elements of a repetition are merged",
"""
func main() {
	gm := G(O(N("S", "('a' 'b'? '.')*")))
	a := gm.ParseString("a.a.a.").(*j.NativeArray)
	want("elements", fmt.Sprint(a.Length()), "3")
}""")

S("c03-deep-evict","C03",[("parsectx.go","""func (ctx *ParseContext) stackPop() {
""","""func (ctx *ParseContext) stackPop() {
	if top := ctx.stack[ctx.stackLength-1]; ctx.stackLength > 200 && top.loopstage == 0 && top.endpos == top.pos {
		ctx.frames[top.pos][top.id] = nil // no need to remember that nothing was there
	}
""")],
"rules nested more than 200 deep, which fail or match nothing, and are tried again",
"failures are not remembered in deeply nested texts",
"""
func main() {
	n := 0
	gm := G(O(N("S", "'(' S ')' | A 'x' | A 'y' | A 'z' | [p]")), I(N("A", "P [a]")), I(N("P", "''", ), func(x j.Ast) j.Ast { n++; return x }, j.SkipCache{true}))
	s := ""
	for i := 0; i < 150; i++ {
		s = "(" + s + ")"
	}
	_ = s
	t := ""
	for i := 0; i < 150; i++ {
		t += "("
	}
	t += "p"
	for i := 0; i < 150; i++ {
		t += ")"
	}
	gm.ParseString(t)
	if n > 152 {
		fmt.Println("evaluated", n)
		os.Exit(1)
	}
}""")

S("c12-loop-grow","C12",[("packrat.go","""						ctx.Code.SetPos(startPos)
						result = fparse(ctx)
						if ctx.Code.Pos() <= bestEndPos {""","""						ctx.Code.SetPos(startPos)
						result = fparse(ctx)
						if ctx.Code.Pos() <= bestEndPos+len(ctx.loopStack) {""")],
"tracing of loops, and a left-recursive rule which grows by one byte at a time",
"a traced left-recursive rule stops growing too early",
"""
func main() {
	t := j.Mute()
	t.Loop = true
	gm := j.GrammarWithOptionsFromLines("demo", j.GrammarOptions{TraceOptions: t}, []j.Line{O(N("E", "E [+] | [n]"))})
	want("n++", show(gm.ParseString("n++")), "[[n,+],+]")
}""")

S("c04-nul-tail","C04",[("packrat.go","""					for result != nil {
						if frame""","""					for result != nil {
						if _, same := result.(NativeUndefined); same && bestResult != nil {
							break
						}
						if frame""")],
"a left-recursive rule whose value is undefined (its elements are literals only)",
"a left-recursive rule without value grows once only",
"""
func main() {
	gm := G(O(N("S", "_e '.'")), I(N("_e", "_e '+' 'n' | 'n'")))
	want("n+n+n.", fmt.Sprint(show(gm.ParseString("n+n+n.")) != "error"), "true")
}""")

S("c05-two-heads","C05",[("parsectx.go","""func (ctx *ParseContext) restoreWith(stash_ stash) {
	for i, frame := range stash_ {
		if frame != nil {""","""func (ctx *ParseContext) restoreWith(stash_ stash) {
	for i, frame := range stash_ {
		if frame != nil && frame.wipemask == nil {""")],
"mutual left recursion where a rule of the cycle is itself left-recursive",
"results of recursive rules inside a cycle are not restored",
"""
func main() {
	n := 0
	gm := G(O(N("S", "X 'z' | X 'y' | X")), I(N("X", "P '+' [n] | [n]")), I(N("P", "P '!' | X '.'"), func(x j.Ast) j.Ast { n++; return x }))
	a := show(gm.ParseString("n.!+n.!!+n"))
	want("value", a, "[[n,n],n]")
	if n > 14 {
		fmt.Println(n)
		os.Exit(1)
	}
}""")

S("c06-rank-nested-cb","C06",[("parser_rank.go","""			if result == nil {
				ctx.Code.SetPos(pos)
			} else {
				return result
			}
		}
		return nil
	}, rank)(ctx)""","""			if result == nil {
				ctx.Code.SetPos(pos)
				if ctx.stackLength > 64 && ctx.frames[pos][choice.getRule().id] == nil {
					break
				}
			} else {
				return result
			}
		}
		return nil
	}, rank)(ctx)""")],
"a rank, one line of which has memoization off, in a text nested deeply",
"a rank gives up after a line with SkipCache which fails, when nested deeply",
"""
func main() {
	gm := G(O(N("S", j.NewALine([]j.Line{O("'<' S '>'", j.SkipCache{true}), O("'(' S ')'"), O("[a]")}))))
	s := "a"
	for i := 0; i < 60; i++ {
		s = "(" + s + ")"
	}
	want("nested", show(gm.ParseString(s)), "a")
}""")

S("c06-named-same","C06",[("line_i.go","""	rule := getRule(""","""	if a, ok := il.content.(ALine); ok && len(a.Array) > 1 {
		if last, ok := a.Array[len(a.Array)-1].(ILine); ok && last.name == il.name+"_" {
			a.Array = a.Array[:len(a.Array)-1]
		}
	}
	rule := getRule(""")],
"x","x","""
func main() { os.Exit(0) }""")

S("c07-undefined-result","C07",[("packrat.go","""				if result == nil {
					return nil
				}
			}
			// set""","""				if result == nil {
					return nil
				}
				if s, ok := result.(NativeString); ok && s == "" && ctx.Code.Pos() == start {
					result = NewNativeUndefined() // nothing at all
				}
			}
			// set""")],
"a parse function which returns an empty string for a rule that matched nothing",
"an empty string returned by a parse function becomes the undefined value",
"""
func main() {
	gm := G(O(N("S", "A 'b'")), I(N("A", "[a]*"), func(x j.Ast) j.Ast { return j.NewNativeString(string(x.(*j.NativeArray).Concat())) }))
	_, ok := gm.ParseString("b").(j.NativeString)
	want("empty string", fmt.Sprint(ok), "true")
}""")

S("c07-cb-order","C07",[("line.go","""	options := *attrs
	rule""","""	options := *attrs
	if inner := rule.parseOptions; inner != nil && inner.cb != nil && options.cb != nil && rule.label != "" {
		options.cb = inner.cb
	}
	rule""")],
"an expression compiled beforehand which has a label and a parse function, within a line with another",
"the inner parse function wins over the outer one",
"""
func main() { os.Exit(0) }""")

S("c08-tab","C08",[("grammar.go","""ctx.Code.PosToLine(maxSuccess), ctx.Code.PosToCol(maxSuccess))""","""ctx.Code.PosToLine(maxSuccess), ctx.Code.PosToCol(maxSuccess)+7*strings.Count(ctx.Code.PeekRunes(maxSuccess-ctx.Code.Pos()), "\\t"))""")],
"a tabulation between the end of the matched part and the reported place",
"tabulations make the reported column wrong",
"""
func main() {
	gm := G(O(N("S", "'a' T [c]")), I(N("T", "[\\t]")), I(N("U", "T")))
	e := G(O(N("S", "'a' T B [c] | 'a'")), I(N("T", "[\\t]")), I(N("B", "[b]"))).ParseString("a\\tbx").String()
	_ = gm
	if !strings.Contains(e, "char:2=(line:0,col:2)") {
		fmt.Println(e)
		os.Exit(1)
	}
}""","strings")

S("c08-lr-progress","C08",[("grammar.go","""					if frame.result != nil {
						maxSuccess = pos""","""					if frame.result != nil && frame.loopstage <= 0 && (frame.wipemask == nil || frame.endpos > pos+1) {
						maxSuccess = pos""")],
"a failing text where a left-recursive rule matched one byte, further than everything else",
"a short match of a left-recursive rule does not count as progress",
"""
func main() {
	gm := G(O(N("S", "'a' E ';' | 'a'")), I(N("E", "E '+' [n] | [n]")))
	e := gm.ParseString("an?").String()
	if !strings.Contains(e, "char:1=(line:0,col:1)") {
		fmt.Println(e)
		os.Exit(1)
	}
}""","strings")

S("c09-depth-limit","C09",[("parsectx.go","""	ctx.stack = append(ctx.stack, ctx.getFrame(x))""","""	if ctx.stackLength > 30000 {
		panic("too deep: " + x.String())
	}
	ctx.stack = append(ctx.stack, ctx.getFrame(x))""")],
"rules nested more than 30000 deep",
"deeply nested texts are refused with a panic",
"""
func main() {
	gm := G(O(N("S", "'(' S ')' | [a]")))
	t := strings.Repeat("(", 31000) + "a" + strings.Repeat(")", 31000)
	want("deep", show(gm.ParseString(t)), "a")
}""","strings")

S("c09-escape-log","C09",[("grammar.go","""		sErr += Green(ctx.Code.PeekLines(-2))""","""		if line := ctx.Code.PeekLines(0); len(line) > 0 && ctx.Code.Col() > len(line) {
			panic("assert")
		}
		sErr += Green(ctx.Code.PeekLines(-2))""")],
"x","x","""
func main() { os.Exit(0) }""")

S("c10-append-shared","C10",[("parser_sequence.go","""func (seq *sequence) parseAsArray(ctx *ParseContext) Ast {
	results := make([]Ast, 0)""","""func (seq *sequence) parseAsArray(ctx *ParseContext) Ast {
	results := seq.last[:0]
	defer func() {
		if len(seq.sequence) > 6 {
			seq.last = results
		}
	}()"""),("parser_sequence.go","""	lazyType *helpers""","""	last     []Ast                       // to allocate less
	lazyType *helpers""")],
"a sequence of more than six elements, matched twice",
"the values of long sequences are overwritten by later ones",
"""
func main() {
	gm := G(O(N("S", "[a-z] [a-z] [a-z] [a-z] [a-z] [a-z] [a-z]")))
	x := gm.ParseString("abcdefg")
	gm.ParseString("zzzzzzz")
	want("earlier result", show(x), "[a,b,c,d,e,f,g]")
}""")

S("c10-debug-sticks","C10",[("parseoption.go","",""),],"x","x","")

S("c11-strings-cache","C11",[("parser_regex.go","""func (re *regex) String() string {
	return""","""func (re *regex) String() string {
	if re.shown == "" {
		re.shown = re.show()
	}
	return re.shown
}

func (re *regex) show() string {
	return"""),("parser_regex.go","""	re    regexp.Regexp
}""","""	re    regexp.Regexp
	shown string
}"""),("parser_regex.go","""&regex{newAttr(), newRule(), sRegex, *compiledRegexp}""","""&regex{newAttr(), newRule(), sRegex, *compiledRegexp, ""}""")],
"two goroutines printing the rules of a shared grammar, or tracing its parses",
"the printed form of a regular expression is cached without synchronization",
"""
func main() {
	gm := G(O(N("S", "[a]+")))
	null, _ := os.Open("/dev/null")
	os.Stdout = null
	done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			for k := 0; k < 20; k++ {
				gm.ParseString("aaa", j.Debug{true})
			}
			done <- true
		}()
	}
	for i := 0; i < 4; i++ {
		<-done
	}
}""","","-race")

S("c12-log-pos","C12",[("parsectx.go","""	line := ctx.Code.Line()
	codeSgmnt""","""	line := ctx.Code.Line()
	if rest := ctx.Code.PeekRunes(2); rest == "\\r\\n" {
		ctx.Code.SetPos(ctx.Code.Pos() + 1) // show both as one
	}
	codeSgmnt""")],
"tracing a text with CR LF",
"tracing moves the cursor between CR and LF",
"""
func main() {
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	out := os.Stdout
	os.Stdout = null
	gm := G(O(N("S", "L*")), I(N("L", "W E")), I(N("W", "[a]+")), I(N("E", "/\\r?\\n/")), I(N("C", "[\\r]")))
	gm2 := G(O(N("S", "L*")), I(N("L", "W C N")), I(N("W", "[a]+")), I(N("C", "[\\r]")), I(N("N", "[\\n]")))
	_ = gm
	a := show(gm2.ParseString("aa\\r\\na\\r\\n"))
	b := show(gm2.ParseString("aa\\r\\na\\r\\n", j.Debug{true}))
	os.Stdout = out
	want("traced", b, a)
}""")

S("c12-env-dup","C12",[("traceoptions.go","""			case "all":
				opt = Verbose()""","""			case "all":
				line := opt.FilterLine
				opt = Verbose()
				opt.FilterLine = line
				opt.SkipSetup = opt.SkipSetup && line == -1""")],
"TRACE=line=N,all","x","""
func main() { os.Exit(0) }""")

S("c13-neg-class","C13",[("joeson_handcompiled.go","""return newRegexFromString("[" + string(it.(*NativeArray).Concat()) + "]") }),""","""
									s := string(it.(*NativeArray).Concat())
									if strings.HasPrefix(s, "^ ") {
										s = "^\\\\s" + s[2:]
									}
									return newRegexFromString("[" + s + "]")
								}),"""),("joeson_handcompiled.go","""package joeson
""","""package joeson

""")],
"a negated class whose first character is a blank",
"a blank at the beginning of a negated class stands for any white space",
"""
func main() {
	gm := G(O(N("S", "[^ a]")))
	want("tab", show(gm.ParseString("\\t")), "\\t")
}""")

S("c13-intention-range","C13",[("joeson_intention.go","",""),],"x","x","")

S("c14-peek-neg","C14",[("helpers/helpers.go","""		totalSize += csize // csize""","""		if csize == 3 && nTake > 1 && slice[len(slice)-3] == 0xEF { // half forms go together
			nTake--
		}
		totalSize += csize // csize""")],
"peeking backwards over characters from U+F000 on",
"characters from U+F000 on count for two when peeking backwards",
"""
func main() {
	cs := j.NewRuneStream("ab\\uff21")
	cs.SetPos(5)
	want("peek", cs.PeekRunes(-2), "b\\uff21")
}""")

S("c14-setpos-cache","C14",[("codestream_rune.go","""func (code *RuneStream) PosToCol(pos int) int  { return pos - code.lineStarts[code.PosToLine(pos)] }""","""func (code *RuneStream) PosToCol(pos int) int {
	line := code.PosToLine(pos)
	if line > 0 && pos == code.lineStarts[line] && pos == len(code.text) {
		line-- // an empty last line belongs to the one before
	}
	return pos - code.lineStarts[line]
}""")],
"the end of a text which ends with a line break",
"the column of the end of a text which ends with a line break is that of the line before",
"""
func main() {
	cs := j.NewRuneStream("ab\\n")
	want("column", fmt.Sprint(cs.PosToLine(3), cs.PosToCol(3)), "1 0")
}""")

S("c15-equal-offsets","C15",[("codestream_token.go","""		if workOffset < token.WorkOffset+len(token.Repr) {
			break
		}
		nToken++""","""		if workOffset < token.WorkOffset+len(token.Repr) {
			break
		}
		nToken++
		for nToken < len(code.tokens)-1 && code.tokens[nToken].OriginalOffset == token.OriginalOffset && len(token.Repr) > 0 {
			nToken++ // inserted at the same place
		}""")],
"several tokens inserted at the same place of the original",
"places in inserted tokens are located in the one behind",
"""
func main() {
	ts := j.NewTokenStream("ab\\ncd", []j.Token{{"x", 0, 0}, {"yy", 0, 1}, {"cd", 3, 3}})
	want("line", fmt.Sprint(ts.PosToLine(2), ts.PosToCol(2)), "0 1")
}""")

S("c16-many-errors","C16",[("codestream_token.go","""	var scanErrors []error
	handleErrors""","""	scanErrors := lastErrors[:0]
	handleErrors"""),("codestream_token.go","""	if len(scanErrors) > 0 {
		return nil, errors""","""	if lastErrors = scanErrors[len(scanErrors)/16*16:]; len(lastErrors) > 0 {
		return nil, errors"""),("codestream_token.go","""type scannerError struct""","""var lastErrors []error

type scannerError struct""")],
"a source with exactly 16 lexical errors",
"a source with a multiple of 16 errors is accepted",
"""
func main() {
	_, err := j.TokenStreamFromGoCode(strings.Repeat("$ ", 16))
	want("refused", fmt.Sprint(err != nil), "true")
}""","strings")

S("c16-long-token","C16",[("codestream_token.go","""		if s[0] != ' ' && mustSeparate(strings.TrimPrefix(prev, " "), s) {""","""		if s[0] != ' ' && len(prev)+len(s) < 300 && mustSeparate(strings.TrimPrefix(prev, " "), s) {""")],
"two tokens together longer than 300 bytes, which would make something else when joined",
"long tokens are not separated from the next",
"""
func main() {
	src := "x := 1" + strings.Repeat("0", 310) + " .y"
	ts, err := j.TokenStreamFromGoCode(src)
	if err != nil {
		os.Exit(1)
	}
	if strings.Contains(ts.PeekRunes(1000), "0.y") {
		os.Exit(1)
	}
}""","strings")

S("c17-concat-int","C17",[("native_array.go","""		case NativeUndefined:
		default:""","""		case NativeUndefined:
		case *NativeMap:
			if v.IsEmpty() {
				b.WriteString("{}")
			} else {
				b.WriteString(string(v.Concat()))
			}
		default:""")],
"x","x","""
func main() { os.Exit(0) }""")

S("c17-exists-undef","C17",[("native_map.go","""func (nm *NativeMap) IsEmpty() bool {
	return""","""func (nm *NativeMap) IsEmpty() bool {
	for _, k := range nm.keys {
		if k != "" && nm.IsUndefined(k) {
			return len(nm.keys) == 1
		}
	}
	return""")],
"a map with only an undefined value",
"a map with one undefined value is said empty",
"""
func main() {
	m := j.NewEmptyNativeMap()
	m.Set("a", j.NewNativeUndefined())
	want("empty", fmt.Sprint(m.IsEmpty()), "false")
}""")

S("c17-int-array","C17",[("native_map.go","""			if n, e := strconv.Atoi(string(v.Concat())); e == nil {
				return n, true
			} else {
				panic("Could not Atoi(" + string(v.Concat())""","""			if n, e := strconv.ParseInt(string(v.Concat()), 10, 32+v.Length()*8); e == nil {
				return int(n), true
			} else {
				panic("Could not Atoi(" + string(v.Concat())""")],
"x","x","""
func main() { os.Exit(0) }""")

S("c18-cached-line","C18",[("packrat.go","""					Line:     ctx.Code.Line(),
					RuleName""","""					Line:     ctx.Code.PosToLine(helpers.Max(start, ctx.Code.Pos()-1024)),
					RuleName""")],
"a node whose text is longer than 1024 bytes and ends on another line",
"the line of a long node is not the one where it ends",
"""
func main() {
	gm := G(O(N("S", "[a\\n]*"), func(x j.Ast) j.Ast { return j.NewNativeMap(map[string]j.Ast{}) }))
	t := strings.Repeat("a", 10) + "\\n" + strings.Repeat("a", 800) + "\\n" + strings.Repeat("a", 800)
	want("line", fmt.Sprint(gm.ParseString(t).GetOrigin().Line), "2")
}""","strings")

S("c18-map-span","C18",[("packrat.go","""				result = NewNativeMap(map[string]Ast{rule.label: result})
			}""","""				result = NewNativeMap(map[string]Ast{rule.label: result})
				if o := result.(*NativeMap).vals[rule.label].GetOrigin(); o.End == ctx.Code.Pos() && o.Start > start {
					result.SetOrigin(o)
				}
			}""")],
"a rule which is one labelled element whose node begins behind skipped text",
"a map made of a label takes the span of what was labelled",
"""
func main() {
	gm := G(O(N("S", "[s] x:A")), I(N("A", "v:_b")), I(N("_b", "' '* B")), I(N("B", "[b]"), func(x j.Ast) j.Ast { return j.NewNativeMap(map[string]j.Ast{"b": x}) }))
	m := gm.ParseString("s  b").(*j.NativeMap).Get("x").(*j.NativeMap)
	want("span", fmt.Sprint(m.GetOrigin().Start, m.GetOrigin().End), "1 4")
}""")

S("c20-inline-count","C20",[("grammar.go","""func (gm *Grammar) CountRules() int { return gm.numrules }""","""func (gm *Grammar) CountRules() int {
	n := 0
	for _, x := range gm.id2rule {
		if x.getRule().name != "" || len(x.getRule().rulesK) > 0 {
			n++
		}
	}
	if n > 100 {
		return len(gm.rule.rules)
	}
	return n
}""")],
"a grammar with more than a hundred rules, some of the same name",
"rules of a same name are counted once in large grammars",
"""
func main() {
	l := []j.Line{O(N("S", "A | B"))}
	for i := 0; i < 110; i++ {
		l = append(l, I(N(fmt.Sprintf("A%d", i), "[a]")))
	}
	l = append(l, I(N("A", "[a]")), I(N("B", "[b]")), O(N("more", "[x]")), O(N("more", "[y]")))
	gm := G(l...)
	want("rules", fmt.Sprint(gm.CountRules()), "115")
}""")

S("c21-strip","C21",[("helpers/stripansi.go","""(?:;\\\\d{0,4})*""","""(?:;\\\\d{0,4}){0,2}""")],
"x","x","""
func main() { os.Exit(0) }""")

S("c21-lazy-zero","C21",[("helpers/lazy.go","""	if k.val == nil && k.f != nil {""","""	if k.val != nil && k.f != nil && any(*k.val) == any(*new(T)) {
		k.val = nil // nothing was found yet
	}
	if k.val == nil && k.f != nil {""")],
"a lazy value which is the zero value of its type",
"a lazy zero value is computed each time",
"""
func main() {
	n := 0
	l := helpers.LazyFromFunc(func() int { n++; return 0 })
	l.Get()
	l.Get()
	want("computed", fmt.Sprint(n), "1")
}""","github.com/grepsuzette/joeson/helpers")

S("c21-pad-wide","C21",[("helpers/helpers.go","""	l := len(s)
	if n > l {
		return s + strings.Repeat(" ", n-l)""","""	l := len(s)
	if n > 256 {
		n = 256
	}
	if n > l {
		return s + strings.Repeat(" ", n-l)""")],
"padding to more than 256 bytes",
"padding stops at 256 bytes",
"""
func main() {
	want("length", fmt.Sprint(len(helpers.PadLeft("a", 300))), "300")
}""","github.com/grepsuzette/joeson/helpers")

S("c22-cache-text","C22",[("codestream_rune.go","""			from := code.pos + firstMatchLoc[0]
			to :=""","""			if lead := code.text[code.pos]; firstMatchLoc[1] > 9 && lead == '0' && code.pos > 0 {
				firstMatchLoc[1] = 9 // octal
			}
			from := code.pos + firstMatchLoc[0]
			to :=""")],
"a number of more than 9 digits which begins with 0, inside an expression",
"long numbers with leading zeros are cut",
"""
func main() {
	gm := G(O(N("S", "'+' /[0-9]+/")))
	want("number", show(gm.ParseString("+0000000012")), "0000000012")
}""")

S("c23-choice-dup","C23",[("walk.go","""	anew := []Parser{}
	for _, child := range a {
		if r""","""	anew := []Parser{}
	for i, child := range a {
		if i > 31 && i == len(a)-1 {
			anew = append(anew, child)
			continue
		}
		if r""")],
"an expression of more than 32 parts side by side",
"the last of many parts is not visited",
"""
func main() {
	s := ""
	for i := 0; i < 40; i++ {
		s += "[a] "
	}
	n := 0
	x := j.NewJoeson().ParseString(s + "'b'").(j.Parser)
	j.Walk(x, nil, j.WalkPrepost{Pre: func(p, q j.Parser) string { n++; return "" }})
	want("parts", fmt.Sprint(n), "42")
}""")
# drop the unfinished sketches
SEEDS=[s for s in SEEDS if s["needs"]!="x" and s["breaks"]!="x" and "os.Exit(0)" not in s["demo"]]
