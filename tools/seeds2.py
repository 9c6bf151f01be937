# second batch of planted bugs, see seed.py
SEEDS=[]
def S(id,prop,edits,needs,breaks,demo,imports="",flags=""):
    SEEDS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=imports,flags=flags))

S("c01-regex-eof","C01",[("codestream_rune.go","""	if firstMatchLoc := re.FindStringIndex(code.text[code.pos:]); firstMatchLoc == nil {""",
"""	if code.pos == len(code.text) {
		return false, "" // nothing left to match
	}
	if firstMatchLoc := re.FindStringIndex(code.text[code.pos:]); firstMatchLoc == nil {""")],
"a regular expression which can match nothing, tried at the end of the text",
"a regular expression which matches nothing fails at the end of the text",
"""
func main() {
	gm := G(O(N("S", "'a' /b*/")))
	want("ab", show(gm.ParseString("ab")), "b")
	want("a", show(gm.ParseString("a")), "")
}
""")
S("c01-max-join","C01",[("parser_pattern.go","""		for patt.max < 0 || len(matches) < patt.max {
			pos2 := ctx.Code.Pos()
""","""		for {
			pos2 := ctx.Code.Pos()
"""),("parser_pattern.go","""			resValue = patt.value.parse(ctx)
			// return nil to revert pos
			if resValue == nil {""","""			if patt.max >= 0 && len(matches) >= patt.max {
				break
			}
			resValue = patt.value.parse(ctx)
			// return nil to revert pos
			if resValue == nil {""")],
"a repetition with a join and a maximum, the maximum being reached with one more join following",
"a repetition which reached its maximum keeps a trailing join",
"""
func main() {
	gm := G(O(N("S", "[a]*','{0,2} ','")))
	want("a,a,", show(gm.ParseString("a,a,")), "[a,a]")
	want("a,a", show(gm.ParseString("a,a")), "error")
}
""")
S("c01-literals-first","C01",[("parser_choice.go","""		ch := &choice{
			newAttr(),""","""		// try the longest of several literals first
		allStr := true
		for _, p := range parsers {
			if _, is := p.(str); !is {
				allStr = false
			}
		}
		if allStr {
			sort.SliceStable(parsers, func(i, j int) bool { return len(parsers[i].(str).Str) > len(parsers[j].(str).Str) })
		}
		ch := &choice{
			newAttr(),"""),("parser_choice.go","""import (
	"strings"
""","""import (
	"sort"
	"strings"
""")],
"a choice of literals only, one being the beginning of a later one",
"the alternatives of a choice of literals are tried longest first rather than in order",
"""
func main() {
	gm := G(O(N("S", "('a' | 'ab') 'b'? /c*/")))
	want("abbc", show(gm.ParseString("abbc")), "error")
	want("ab", show(gm.ParseString("ab")), "")
}
""")
S("c02-undef-shared","C10",[("native_undefined.go","""	nu := NativeUndefined{newAttr(), newRule()}
	return nu
}""","""	return undef
}

// nothing distinguishes an undefined value from another
var undef = NativeUndefined{newAttr(), newRule()}""")],
"keeping the undefined value of a parse, and its origin, while parsing something else",
"the place recorded in an undefined value obtained earlier is changed by later parses",
"""
func main() {
	a := G(O(N("S", "'ab' 'c'"))).ParseString("abc")
	before := fmt.Sprint(a.GetOrigin())
	G(O(N("S", "'a' 'c' 'd' 'e'"))).ParseString("acde")
	want("origin", fmt.Sprint(a.GetOrigin()), before)
}
""")
S("c02-merge-order","C02",[("parser_sequence.go","""				results = merge(results, res)
			}
		case "":""","""				if h, isMap := res.(*NativeMap); isMap && len(h.Keys()) == 0 {
					break
				} else if was, isMap := results.(*NativeMap); isMap && h != nil {
					// what was there first wins
					for _, k := range h.Keys() {
						if !was.Exists(k) {
							was.Set(k, h.GetOrPanic(k))
						}
					}
					break
				}
				results = merge(results, res)
			}
		case "":""")],
"a label given outside a merged group, and again inside it",
"merging a group does not replace the value of a label which was given before the group",
"""
func main() {
	gm := G(O(N("S", "x:[a] @:(x:[b] y:[c])")))
	want("abc", show(gm.ParseString("abc")), "NativeMap{x:b, y:c}")
}
""")
S("c03-undef-miss","C03",[("packrat.go","""			if frame.endpos >= 0 {
				if showLog {
					if frame.result != nil {""","""			if frame.endpos >= 0 && !(frame.result != nil && frame.endpos == startPos) {
				if showLog {
					if frame.result != nil {""")],
"a rule which matches nothing, tried several times at one place",
"rules which matched the empty text are evaluated again each time",
"""
func main() {
	n := 0
	gm := G(O(N("S", "A 'x' | A 'y' | A 'z'")), I(N("A", "[a]*"), func(x j.Ast) j.Ast { n++; return x }))
	gm.ParseString("z")
	want("calls", fmt.Sprint(n), "1")
}
""")
# I(Named, cb) : the function is an argument of I
SEEDS[-1]["demo"]=SEEDS[-1]["demo"].replace('I(N("A", "[a]*"), func','I(N("A", "[a]*"), func')
S("c03-window","C03",[("parsectx.go","""	frame := posFrames[id]
	if frame != nil {
		return frame""","""	frame := posFrames[id]
	if frame != nil && frame.loopstage == 0 && frame.endpos-pos > 4096 {
		// too large to be worth keeping
		posFrames[id] = newFrame(pos, id)
		return posFrames[id]
	} else if frame != nil {
		return frame""")],
"a rule which matched more than 4096 bytes, tried again at the same place",
"long results are not memoized",
"""
func main() {
	n := 0
	gm := G(O(N("S", "A 'x' | A 'y' | A 'z'")), I(N("A", "/a*/"), func(x j.Ast) j.Ast { n++; return x }))
	gm.ParseString(strings.Repeat("a", 5000) + "z")
	want("calls", fmt.Sprint(n), "1")
}
""","strings")
S("c04-wipe-stop","C04",[("packrat.go","""				if i_frame.pos < startPos || i_frame.id == x.getRule().id {
					break
				}""","""				if i_frame.pos < startPos || i_frame.id == x.getRule().id {
					break
				}
				if i_frame.loopstage == 3 {
					break // it grows by itself
				}""")],
"two left-recursive rules stacked at one place, the inner one growing while it reaches the outer one",
"a left-recursive rule which is growing is not evaluated again when an outer one grows through it",
"""
func main() {
	gm := G(O(N("S", "A")), I(N("A", "B '+' | [n]")), I(N("B", "B '*' | A")))
	_ = show(gm.ParseString("n+*+"))
	want("n+*+", show(gm.ParseString("n+*+")), "n")
}
""")
S("c04-line-cut","C04",[("packrat.go","""						if ctx.Code.Pos() <= bestEndPos {
							break""","""						if ctx.Code.Pos() <= bestEndPos || ctx.Counter > 1<<20 {
							// no progress, or runaway recursion
							break""")],
"a text long enough for a million evaluations, with left recursion at its end",
"left recursion stops growing after a million evaluations of the parse",
"""
func main() {
	gm := G(O(N("S", "(L ';')*")), I(N("L", "L '+' N | N")), I(N("N", "[0-9]")))
	t := strings.Repeat("1+1;", 100000)
	r := gm.ParseString(t)
	want("long", fmt.Sprint(j.IsParseError(r)), "false")
}
""","strings")
S("c06-named-inner","C06",[("line.go","""		answer = rankFromLines(v.Array, name, GrammarOptions{TraceOptions: opts, LazyGrammar: lazyGrammar})
""","""		answer = rankFromLines(v.Array, name, GrammarOptions{TraceOptions: opts, LazyGrammar: lazyGrammar})
		if inner := answer.(*rank); inner.Length() == 1 && len(inner.rules) == 0 && attrs.cb == nil {
			// a rank of one line is that line
			answer = inner.choices[0]
			answer.getRule().name = name
		}
""")],
"a rank of one named line, which is referenced by its own name from elsewhere",
"the only line of a rank loses its name",
"""
func main() {
	gm := G(O(N("S", []j.Line{O(N("T", []j.Line{O(N("U", "[u]"))}))})), I(N("Z", "U U")))
	want("count", fmt.Sprint(gm.CountRules() >= 4), "true")
	gm = G(O(N("S", []j.Line{O("'<' U '>'"), O(N("T", []j.Line{O(N("U", "[u]"))}))})))
	want("u", show(gm.ParseString("<u>")), "u")
}
""")
S("c07-ctx-start","C07",[("packrat.go","""			if rule.cb != nil {
				result = rule.cb(result, ctx, caller)
				if result == nil {
					return nil
				}
			}""","""			if rule.cb != nil {
				endpos := ctx.Code.Pos()
				result = rule.cb(result, ctx, caller)
				if result == nil {
					ctx.Code.SetPos(ctx.stackPeek(0).pos)
					return nil
				}
				ctx.Code.SetPos(helpers.Max(endpos, ctx.stackPeek(0).pos+1))
			}""")],
"a rule with a parse function which matched nothing",
"a rule with a parse function consumes at least one byte",
"""
func main() {
	gm := G(O(N("S", "E [a]")), I(N("E", "'-'?"), func(x j.Ast) j.Ast { return x }))
	want("a", show(gm.ParseString("a")), show(gm.ParseString("-a")))
}
""")
S("c08-col-tab","C08",[("codestream_rune.go","""func (code *RuneStream) PosToCol(pos int) int  { return pos - code.lineStarts[code.PosToLine(pos)] }""",
"""func (code *RuneStream) PosToCol(pos int) int {
	start := code.lineStarts[code.PosToLine(pos)]
	if pos > start && code.text[pos-1] == '\\r' {
		pos-- // the end of a line, whatever its ending
	}
	return pos - start
}""")],
"an error reported between a carriage return and a line feed",
"the column reported behind a carriage return is not that of the offset",
"""
func main() {
	gm := G(O(N("S", "'a' R B")), I(N("R", "'\\r'")), I(N("B", "'b'?")))
	e := gm.ParseString("a\\rx")
	s := e.String()
	want("pos", fmt.Sprint(strings.Contains(s, "char:2=(line:0,col:2)")), "true")
}
""","strings")
S("c08-nul","C08",[("grammar.go","""	if ctx.Code.Pos() != ctx.Code.workLength() {""","""	if rest := ctx.Code.workLength() - ctx.Code.Pos(); rest > 0 && !(result != nil && strings.Trim(ctx.Code.PeekRunes(rest), "\\x00") == "") {""")],
"a text which ends with NUL characters behind what the grammar matches",
"a partial match is reported as a success when only NUL characters are left",
"""
func main() {
	gm := G(O(N("S", "[a]")))
	want("a0", show(gm.ParseString("a\\x00")), "error")
}
""")
S("c09-refloop","C09",[("parser_pattern.go","""			if ctx.Code.Pos() == pos2 && len(matches) >= patt.min {""","""			if ctx.Code.Pos() == pos2 && IsUndefined(patt.join) && len(matches) >= patt.min {""")],
"a repetition with a join in which both the value and the join can match nothing",
"a repetition of nothing joined by nothing never ends",
"""
func main() {
	gm := G(O(N("S", "A*B 'c'")), I(N("A", "'a'*")), I(N("B", "'b'*")))
	gm.ParseString("aabbac")
}
""")
S("c10-matches-pool","C10",[("parser_pattern.go","""		var matches []Ast = []Ast{resValue}""","""		matches := append(patt.spare[:0], resValue)"""),("parser_pattern.go","""		return NewNativeArray(matches)
	}, patt)(ctx)""","""		if cap(matches) >= 64 {
			patt.spare = nil
		} else if len(matches) >= 32 {
			patt.spare = matches
		}
		return NewNativeArray(matches)
	}, patt)(ctx)"""),("parser_pattern.go","""	max   int // -1 for unspec.
}""","""	max   int // -1 for unspec.
	spare []Ast
}""")],
"a result with a repetition of 32 elements, kept while the same grammar parses another text",
"the array of a long repetition is reused by the next one, altering results obtained earlier",
"""
func main() {
	gm := G(O(N("S", "[a-z]*")))
	r := gm.ParseString(strings.Repeat("a", 32))
	before := show(r)
	gm.ParseString("bcd")
	want("kept", show(r), before)
}
""","strings")
S("c10-lines-opts","C10",[("line.go","""		// a copy, since several grammars can be built from the same lines
		options := *attrs
		answer.getRule().parseOptions = &options""","""		answer.getRule().parseOptions = attrs"""),("line.go","""	rule.parseOptions.cb = attrs.cb
	return answer""","""	rule.parseOptions.cb = attrs.cb
	if _, isRank := answer.(*rank); isRank {
		attrs.cb = nil // the rank has it now
	}
	return answer""")],
"building a second grammar from the lines of a first one, a rank of which has a parse function",
"the parse function of a rank is lost when its lines are used again",
"""
func main() {
	lines := []j.Line{O(N("S", []j.Line{O("[a]"), O("[b]")}), func(x j.Ast) j.Ast { return j.NewNativeString("f" + x.String()) })}
	want("first", show(G(lines...).ParseString("a")), "fa")
	want("second", show(G(lines...).ParseString("a")), "fa")
}
""")
S("c11-lastline","C11",[("codestream_rune.go","""func NewRuneStream(text string) CodeStream {
	lineStarts := []int{0}""","""// the line starts of the text seen last
var lastText string
var lastStarts []int

func NewRuneStream(text string) CodeStream {
	if len(text) > 64 && text == lastText {
		return &RuneStream{text, 0, lastStarts}
	}
	lineStarts := []int{0}"""),("codestream_rune.go","""	return &RuneStream{text, 0, lineStarts}
}

func (code *RuneStream) Pos""","""	if len(text) > 64 {
		lastText, lastStarts = text, lineStarts
	}
	return &RuneStream{text, 0, lineStarts}
}

func (code *RuneStream) Pos""")],
"two goroutines parsing texts of more than 64 bytes at the same time",
"data race between parses, even of different grammars",
"""
func main() {
	gm := G(O(N("S", "[a-z\\n]*")))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				gm.ParseString(strings.Repeat(string(rune('a'+i)), 70+k))
			}
		}()
	}
	wg.Wait()
}
""","strings sync","-race")
S("c12-log-pos","C12",[("parsectx.go","""			fmt.Printf("%s%s\\n", ctx.String(), message)
""","""			// show the text up to the end of the line as well
			fmt.Printf("%s%s %s\\n", ctx.String(), message, helpers.Escape(restOfLine(ctx.Code)))
"""),("parsectx.go","""func (ctx *ParseContext) loopStackPush""","""func restOfLine(code CodeStream) string {
	pos := code.Pos()
	s := code.GetUntil("\\n")
	if len(s) > 0 && s[len(s)-1] == '\\n' {
		code.SetPos(pos)
	} else if len(s) > 40 {
		code.SetPos(pos)
		s = s[:40]
	} else {
		code.SetPos(code.Pos() - len(s))
	}
	if code.Line() > 1 {
		code.SetPos(helpers.Min(pos+len(s), pos))
	}
	return s
}

func (ctx *ParseContext) loopStackPush"""),("traceoptions.go","""	neu.FilterLine = to.FilterLine
""","""	neu.FilterLine = to.FilterLine
	if neu.FilterLine == 0 {
		neu.FilterLine = -1
	}
""")],
"a debug parse with a grammar which traces line 0 only",
"a debug parse of a grammar which filters line 0 prints other lines",
"""
func main() {
	o := j.Mute()
	o.FilterLine = 0
	gm := j.GrammarWithOptionsFromLines("demo", j.GrammarOptions{TraceOptions: o}, []j.Line{O(N("S", "[a-z\\n]*")), })
	_ = gm
	want("copy", fmt.Sprint(o.Copy().FilterLine), "0")
}
""")
S("c13-word-dash","C13",[("joeson_intention.go","""		i(named("WORD", "/[a-zA-Z\\\\._][a-zA-Z\\\\._0-9]*/")),""","""		i(named("WORD", "/[a-zA-Z\\\\._][a-zA-Z\\\\._0-9]*(\\\\[[0-9]+\\\\])?/")),""")],
"a rule text with a reference directly followed by a bracket class of digits only",
"a digit class directly behind a word is taken as part of the word by the grammar's own rule texts only",
"""
func main() {
	intention := j.GrammarWithOptionsFromLines("int", j.GrammarOptions{TraceOptions: j.Mute()}, j.IntentionRules())
	hand := j.NewJoesonWithOptions(j.Mute())
	want("A[0]", show(intention.ParseString("A[0]")), show(hand.ParseString("A[0]")))
}
""")
S("c14-peeklines-neg","C14",[("codestream_rune.go","""	if code.Line()+min >= len(code.lineStarts) || code.Line()+max < 0 {
		return "" // there is no such line
	}
	start""","""	if code.Line()+min >= len(code.lineStarts) {
		return "" // there is no such line
	}
	if code.Line()+max < 0 {
		max = -code.Line()
	}
	start""")],
"peeking at lines which are all before the first one",
"lines before the first one read as the first line",
"""
func main() {
	c := j.NewRuneStream("ab\\ncd\\nef")
	c.SetPos(4)
	want("peek", c.PeekLines(-3, -2), "")
}
""")
S("c14-regexp-partial","C14",[("codestream_rune.go","""		if firstMatchLoc[0] != 0 {
			return false, ""
		} else {""","""		if firstMatchLoc[0] != 0 {
			code.pos += len(code.text[code.pos:code.pos+firstMatchLoc[0]]) &^ 0xff
			return false, ""
		} else {""")],
"a regular expression whose first match is 256 bytes or more further on",
"a failed match moves the position",
"""
func main() {
	c := j.NewRuneStream(strings.Repeat("a", 300) + "b")
	c.MatchRegexp(*regexp.MustCompile("b"))
	want("pos", fmt.Sprint(c.Pos()), "0")
}
""","strings regexp")
S("c15-bisect-coords","C15",[("codestream_token.go","""	for {
		token = code.tokens[nToken]
		if nToken""","""	nToken = sort.Search(len(code.tokens), func(i int) bool { return code.tokens[i].WorkOffset >= workOffset })
	if nToken == len(code.tokens) || code.tokens[nToken].WorkOffset > workOffset {
		nToken--
	}
	nToken = helpers.Max(nToken, 0)
	for {
		token = code.tokens[nToken]
		break
	}
	for {
		token = code.tokens[nToken]
		if nToken"""),("codestream_token.go","""		if workOffset < token.WorkOffset+len(token.Repr) {
			break
		}
		nToken++
	}""","""		if workOffset <= token.WorkOffset+len(token.Repr) {
			break
		}
		nToken++
	}"""),("codestream_token.go","""	"regexp"
	"strconv"
""","""	"regexp"
	"sort"
	"strconv"
""")],
"a token stream with an empty token (an automatic or removed one), and a position behind it",
"positions at an empty token are those of that token rather than of the next one which has text",
"""
func main() {
	ts := j.NewTokenStream("x  yz", []j.Token{{"x", 0, 0}, {"", 1, 1}, {"yz", 3, 1}})
	want("col", fmt.Sprint(ts.PosToCol(1)), "3")
}
""")
S("c16-crlf","C16",[("codestream_token.go","""	scan.Init(file, []byte(source), handleErrors, 0 /*goscanner.ScanComments*/)""","""	if !strings.Contains(source, "`") {
		// line endings
		source = strings.ReplaceAll(source, "\\r\\n", "\\n")
		file = token.NewFileSet().AddFile("", 1, len(source))
	}
	scan.Init(file, []byte(source), handleErrors, 0 /*goscanner.ScanComments*/)""")],
"a Go source with CRLF line endings",
"offsets of tokens in sources with CRLF line endings are those in another text",
"""
func main() {
	ts, err := j.TokenStreamFromGoCode("a\\r\\n+\\r\\nb\\r\\n")
	want("err", fmt.Sprint(err), "<nil>")
	want("code", fmt.Sprint(len(ts.Code())), "9")
}
""")
S("c16-auto-semi","C16",[("codestream_token.go","""		if tokStr == ";" && lit == "\\n" {
			s = ";\\n"
""","""		if tokStr == ";" && lit == "\\n" && (int(pos)-1 == len(source) || prev == "}") {
			s = "\\n"
		} else if tokStr == ";" && lit == "\\n" {
			s = ";\\n"
""")],
"a source in which a line ends with a closing brace, or without a last line break",
"some automatic semicolons are not explicit",
"""
func main() {
	ts, _ := j.TokenStreamFromGoCode("func f() {}\\nvar x int\\n")
	want("work", fmt.Sprint(strings.Count(ts.PrintWorkText(), ";")), "2")
}
""","strings")
S("c17-copy-keys","C17",[("native_map.go","""	// keep order of key if already in
	for _, k2 := range nm.keys {
		if k == k2 {
			return
		}
	}""","""	// keep order of key if already in
	if n := len(nm.keys); n > 8 && sort.StringsAreSorted(nm.keys) {
		if i := sort.SearchStrings(nm.keys, k); i < n-1 && nm.keys[i] == k {
			return
		}
	} else {
		for _, k2 := range nm.keys {
			if k == k2 {
				return
			}
		}
	}"""),("native_map.go","""	"fmt"
	"strconv"
""","""	"fmt"
	"sort"
	"strconv"
""")],
"setting again the last key of a map with more than eight keys in alphabetical order",
"a key is listed twice",
"""
func main() {
	m := j.NewEmptyNativeMap()
	for _, k := range []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "i"} {
		m.Set(k, j.NewNativeInt(1))
	}
	want("keys", fmt.Sprint(len(m.Keys())), "9")
}
""")
S("c17-int-spaces","C17",[("native_int.go","""		if n, e := strconv.Atoi(string(v)); e == nil {
			return NewNativeInt(n)
		} else {
			panic(e)
		}""","""		if n, e := strconv.Atoi(string(v)); e == nil {
			return NewNativeInt(n)
		} else if errors.Is(e, strconv.ErrRange) {
			return NewNativeInt(n) // the nearest
		} else {
			panic(e)
		}"""),("native_int.go","""import (
	"strconv"
""","""import (
	"errors"
	"strconv"
""")],
"converting digits which make a number too large for an int",
"a number out of range becomes another number instead of being refused",
"""
func main() {
	defer func() {
		if recover() == nil {
			fmt.Println("not refused")
			os.Exit(1)
		}
	}()
	j.NativeIntFrom(j.NewNativeString("99999999999999999999"))
}
""")
S("c18-shared-start","C18",[("packrat.go","""			// set origin
""","""			// set origin
			start = ctx.stackPeek(0).startOf(result)
"""),("packrat.go","""func newFrame(pos int, id int) *frame {""","""// the nodes a sequence is made of know where they begin
func (fr *frame) startOf(result Ast) int {
	if a, ok := result.(*NativeMap); ok && len(a.Keys()) == 1 {
		if o := a.Get(a.Keys()[0]).GetOrigin(); o.End > o.Start && o.Start > fr.pos {
			return o.Start
		}
	}
	return fr.pos
}

func newFrame(pos int, id int) *frame {""")],
"a rule with one labelled element which is a node of its own, behind an uncaptured literal",
"the span of a node starts at its first labelled element",
"""
func main() {
	gm := G(O(N("S", "'(' x:A ')'")), I(N("A", "y:[a]")))
	want("origin", fmt.Sprint(gm.ParseString("(a)").GetOrigin().Start), "0")
}
""")
S("c18-lr-end","C18",[("packrat.go","""					ctx.Code.SetPos(bestEndPos)
					if showLog {
						ctx.log(Yellow("`--- loop done! --- ")""","""					ctx.Code.SetPos(bestEndPos)
					if o := bestResult.GetOrigin(); o.End > startPos {
						o.End = bestEndPos
						o.Line = ctx.Code.PosToLine(startPos)
						bestResult.SetOrigin(o)
					}
					if showLog {
						ctx.log(Yellow("`--- loop done! --- ")""")],
"a left-recursive rule with a parse function whose match spans several lines",
"the line of a node made by a left-recursive rule is that of its start",
"""
type node struct {
	*j.Attr
	s string
}

func (n node) String() string { return n.s }
func main() {
	gm := G(O(N("E", "E [+\\n] N | N"), func(x j.Ast) j.Ast { return node{j.NewAttr(), x.String()} }), I(N("N", "[0-9]")))
	want("line", fmt.Sprint(gm.ParseString("1\\n2").GetOrigin().Line), "1")
}
""")
S("c20-label-cut","C20",[("grammar.go","""			helpers.PadLeft(v.String(), 30),
		)
	}""","""			helpers.PadLeft(shorten(v.String()), 30),
		)
	}"""),("grammar.go","""func (gm *Grammar) PrintRules() {""","""func shorten(s string) string {
	if n := len(s); n > 1000 {
		return s[:n-4] + helpers.StripAnsi(s[n-4:])
	}
	return strings.Replace(s, "*"+Cyan("{1,1}"), "*"+Cyan("{1,}"), 1)
}

func (gm *Grammar) PrintRules() {""")],
"a rule with a repetition of exactly one",
"the table shows another repetition",
"""
func main() {
	gm := G(O(N("S", "'a'{1,1}")))
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	gm.PrintRules()
	os.Stdout = old
	w.Close()
	b, _ := io.ReadAll(r)
	want("range", fmt.Sprint(strings.Contains(string(b), "{1,1}")), "true")
}
""","io strings")
S("c21-slice-neg","C21",[("helpers/helpers.go","""	if indexEnd < 0 {
		indexEnd = Max(indexEnd+len(s), 0)
	}""","""	if indexEnd < 0 && indexEnd+len(s) >= 0 {
		indexEnd += len(s)
	} else if indexEnd < 0 {
		indexEnd = len(s) + indexEnd%len(s)
	}""")],
"a negative end beyond the length of the string",
"an end far below zero wraps around",
"""
func main() {
	want("slice", helpers.SliceString("june", 0, -6), "")
}
""")
SEEDS[-1]["imports"]="github.com/grepsuzette/joeson/helpers"
SEEDS[-1]["demo"]=SEEDS[-1]["demo"]
S("c21-lazy-panic","C21",[("helpers/lazy.go","""	if k.val == nil && k.f != nil {
		ptr := k.f()
		(*k).val = &ptr
		return *k.val""","""	if k.val == nil && k.f != nil {
		var ptr T
		k.val = &ptr // whoever asks meanwhile gets the zero value
		ptr = k.f()
		return *k.val""")],
"an evaluation which panics, asked for again",
"a lazy value whose evaluation panicked keeps the zero value",
"""
func main() {
	n := 0
	lz := helpers.LazyFromFunc(func() int {
		n++
		if n == 1 {
			panic("no")
		}
		return 7
	})
	func() { defer func() { recover() }(); lz.Get() }()
	want("lazy", fmt.Sprint(lz.Get()), "7")
}
""","github.com/grepsuzette/joeson/helpers")
S("c17-concat-long","C17",[("native_array.go","""		case *NativeArray:
			b.WriteString(string(v.Concat()))
		case NativeUndefined:""","""		case *NativeArray:
			if v.Length() > 0 && v.Length() < 4096 {
				b.WriteString(string(v.Concat()))
			}
		case NativeUndefined:""")],
"a number of thousands of digits read as groups of digits",
"long nested parts of a text disappear from it when joined",
"""
func main() {
	gm := G(O(N("S", "[0-9]* '.' [0-9]*"), func(x j.Ast) j.Ast { return x.(*j.NativeArray).Concat() }))
	want("len", fmt.Sprint(len(show(gm.ParseString(strings.Repeat("1", 5000)+".5")))), "5001")
}
""","strings")
S("c05-restore-off","C05",[("packrat.go","""					ctx.wipeWith(frame, false)
					ctx.restoreWith(bestStash)
""","""					if len(bestStash) > 0 {
						ctx.restoreWith(bestStash)
					}
""")],
"mutual recursion in which the last, abandoned round filled results the last good round had not",
"results of the abandoned round stay",
"""
func main() {
	gm := G(O(N("S", "H T")), I(N("H", "X 'b' | 'a'")), I(N("X", "H 'c'? ")), I(N("T", "X | /.*/")))
	fmt.Println(show(gm.ParseString("acbcb")))
	os.Exit(0)
}
""")
