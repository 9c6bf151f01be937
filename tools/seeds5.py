# fifth batch of planted bugs, see seed.py
SEEDS=[]
def S(id,prop,edits,needs,breaks,demo,imports="",flags=""):
    SEEDS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=imports,flags=flags))

S("c10-panic-pool","C10",[("parsectx.go","""	return &ParseContext{
		Code:         code,
		parseOptions: newParseOptions(),
		TraceOptions: opts,
		numRules:     numRules,
		frames:       frames,
		stackLength:  0,
		Counter:      0,
	}
}""","""	stack, _ := stacks.Get().([]*frame)
	ctx := &ParseContext{
		Code:         code,
		parseOptions: newParseOptions(),
		TraceOptions: opts,
		numRules:     numRules,
		frames:       frames,
		stack:        stack,
		stackLength:  len(stack),
		Counter:      0,
	}
	return ctx
}

// stacks which are not in use
var stacks sync.Pool"""),("grammar.go","""	result := gm.rank.parse(ctx)
	// if""","""	defer func() { stacks.Put(ctx.stack) }()
	result := gm.rank.parse(ctx)
	// if"""),("parsectx.go","""	"strings"

""","""	"strings"
	"sync"

""")],
"a parse function which panics, then a parse which makes use of left recursion",
"the stack of a parse which ended with a panic is taken up by another one",
"""
func main() {
	gm := G(O(N("S", "'(' S ')' | P")), I(N("P", "[p]"), func(x j.Ast) j.Ast { panic("p") }))
	lr := G(O(N("E", "E '+' [n] | [n]")))
	for i := 0; i < 20; i++ {
		func() {
			defer func() { recover() }()
			gm.ParseString("((((p))))")
		}()
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Println(e)
					os.Exit(1)
				}
			}()
			want("n+n", show(lr.ParseString("n+n")), "[n,n]")
		}()
	}
}
""")
S("c12-env-lower","C12",[("traceoptions.go","""	env := os.Getenv("TRACE")
	if env == "" {
		env = os.Getenv("trace")
	}""","""	env := os.Getenv("trace")
	if env == "" {
		env = os.Getenv("TRACE")
	}""")],
"both TRACE and trace in the environment",
"trace comes before TRACE",
"""
func main() {
	os.Setenv("TRACE", "none")
	os.Setenv("trace", "all")
	want("stack", fmt.Sprint(j.TraceOptionsFromEnvironmentOrUse(j.Mute()).Stack), "false")
}
""")
S("c03-skip-once","C03",[("packrat.go","""		if x.getRule().skipCache {
			result := fparse(ctx)""","""		if x.getRule().skipCache && (x.getRule().cb != nil || ctx.getFrame(x).endpos < 0) {
			result := fparse(ctx)
			if result == nil && ctx.loopStack == nil {
				ctx.getFrame(x).cacheSet(nil, ctx.Code.Pos()) // it will not match next time either
			}""")],
"a SkipCache rule without parse function which failed, tried again where rules below it would do otherwise",
"failures of rules marked SkipCache are memoized",
"""
func main() {
	n := 0
	gm := G(O(N("S", "A 'x' | A 'y' | [b]")), I(N("A", "B 'c'"), j.SkipCache{true}), I(N("B", "[b]"), func(x j.Ast) j.Ast { n++; return x }, j.SkipCache{true}))
	gm.ParseString("b")
	want("calls", fmt.Sprint(n), "2")
}
""")
S("c04-look-lr","C04",[("parser_lookahead.go","""		ctx.Code.SetPos(pos)           // ...but revert to prev pos if so
		return result""","""		if ctx.Code.Pos() > pos {
			ctx.Code.SetPos(pos) // ...but revert to prev pos if so
		}
		if result != nil && ctx.stackPeek(0).loopstage == 2 && ctx.stackPeek(0).pos == pos {
			return nil // that was only the beginning
		}
		return result""")],
"a lookahead inside the alternative of a left-recursive rule, tried before it grows",
"a lookahead in the base of a left-recursive rule fails in the first round",
"""
func main() {
	gm := G(O(N("E", "E '+' [n] | (?[n]) [n]")))
	want("n+n", show(gm.ParseString("n+n")), "[n,n]")
}
""")
S("c04-same-end","C04",[("packrat.go","""				ctx.wipeDependents(frame)
				ctx.Code.SetPos(frame.endpos)
				return frame.result""","""				ctx.wipeDependents(frame)
				ctx.Code.SetPos(frame.endpos)
				if frame.wipemask != nil && frame.result == nil {
					return NewNativeUndefined()
				}
				return frame.result""")],
"","","")
S("c06-cline-name","C06",[("line_o.go","""	} else if by.index > -1 && parentRule != nil { // unamed""","""	} else if by.index > 15 { // many of them
		name = "[" + strconv.Itoa(by.index%16) + "]"
	} else if by.index > -1 && parentRule != nil { // unamed""")],
"a rank of more than 16 anonymous lines",
"anonymous lines of a long rank get names which are not derived from the rank",
"""
func main() {
	lines := []j.Line{}
	for i := 0; i < 20; i++ {
		lines = append(lines, O(fmt.Sprintf("'%c'", 'a'+i)))
	}
	gm := G(O(N("S", lines)))
	if !strings.Contains(fmt.Sprint(capture(func() { gm.PrintRules() })), "S[17]") {
		os.Exit(1)
	}
}

func capture(f func()) string {
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	f()
	w.Close()
	os.Stdout = old
	b, _ := io.ReadAll(r)
	return string(b)
}
""","strings io")
S("c09-rank-empty","C09",[("parser_choice.go","""	if a, ok := it.(*NativeArray); ok {
		var parsers []Parser""","""	if a, ok := it.(*NativeArray); ok {
		if a.Length() > 64 { // too many to be tried one by one
			half := a.Length() / 2
			left, right := (*a)[:half], (*a)[half:]
			return newChoice(NewNativeArray([]Ast{newChoice(NewNativeArray(left)), newChoice(NewNativeArray(right[:len(right)-1]))}))
		}
		var parsers []Parser""")],
"a choice of more than 64 alternatives",
"the last alternative of a choice of more than 64 is lost",
"""
func main() {
	s := ""
	for i := 0; i < 80; i++ {
		s += fmt.Sprintf("'<%d>' | ", i)
	}
	gm := G(O(N("S", s+"'last'")))
	want("last", show(gm.ParseString("last")), "last")
}
""")
S("c11-shared-options","C11",[("traceoptions.go","""func Mute() *TraceOptions {
	return &TraceOptions{Stack: false, Loop: false, Grammar: false, FilterLine: -1, SkipSetup: false}
}""","""func Mute() *TraceOptions {
	muted.FilterLine = -1
	return muted
}

var muted = &TraceOptions{}""")],
"two goroutines which build grammars with muted trace options, or options changed by one user",
"all muted options are one object, written without synchronization",
"""
func main() {
	a, b := j.Mute(), j.Mute()
	a.Stack = true
	want("b", fmt.Sprint(b.Stack), "false")
}
""")
S("c11-lastcol","C11",[("helpers/bisect.go","""func BisectRight(a []int, n int) int {
	return""","""// the array searched last, and what was found
var last struct {
	sync.Mutex
	a []int
	i int
}

func BisectRight(a []int, n int) int {
	last.Lock()
	if len(a) > 8 && len(last.a) == len(a) && last.a[len(a)-1] == a[len(a)-1] && last.i > 0 && last.i < len(a) && a[last.i-1] <= n && n < last.a[last.i] {
		defer last.Unlock()
		return last.i
	}
	last.Unlock()
	i := _bisectRight(a, n, 0, len(a))
	last.Lock()
	last.a, last.i = a, i
	last.Unlock()
	return i
}

func bisectRight(a []int, n int) int {
	return"""),("helpers/bisect.go","""import (
	"sort"
)""","""import (
	"sort"
	"sync"
)""")],
"two texts of as many lines (more than 8) and the same last line start, searched one after the other",
"a line may be looked up with the line starts of another text",
"""
func main() {
	a := j.NewRuneStream("\\n\\n\\n\\n\\n\\n\\n\\n\\nabcdefgh\\nx")
	b := j.NewRuneStream("abcdefgh\\n\\n\\n\\n\\n\\n\\n\\n\\n\\nx")
	for i := 0; i < 20; i++ {
		for k := 0; k < 20; k++ {
			a.PosToLine(i)
			got := b.PosToLine(k)
			want(fmt.Sprint("line of ", k), fmt.Sprint(got), fmt.Sprint(strings.Count("abcdefgh\\n\\n\\n\\n\\n\\n\\n\\n\\n\\nx"[:min(k, 19)], "\\n")))
		}
	}
}
""","strings")
S("c13-lead-dot","C13",[("joeson_intention.go","""		i(named("WORD", "/[a-zA-Z\\\\._][a-zA-Z\\\\._0-9]*/")),""","""		i(named("WORD", "/[a-zA-Z\\\\._][a-zA-Z_0-9]*(\\\\.[a-zA-Z\\\\._0-9]*)?/")),""")],
"(equal)","(equal)","")
S("c14-cr","C14",[("codestream_rune.go","""	for pos, rune := range text {
		if rune == '\\n' {""","""	for pos, rune := range text {
		if rune == '\\u2028' || rune == '\\n' && !strings.HasPrefix(text[pos:], "\\n\\x00") {""")],
"a line break followed by a NUL character, or a line separator U+2028",
"line breaks are not those of the text",
"""
func main() {
	want("line", fmt.Sprint(j.NewRuneStream("a\\n\\x00b").PosToLine(3)), "1")
}
""")
S("c14-until-multi","C14",[("codestream_rune.go","""	oldpos := code.pos
	code.pos = offset
	return code.text[oldpos:offset]""","""	oldpos := code.pos
	code.pos = offset
	if strings.HasSuffix(end, "\\n") && offset < len(code.text) && code.text[offset] == '\\r' {
		code.pos++
	}
	return code.text[oldpos:offset]""")],
"GetUntil of a text ending with a line feed, which is followed by a carriage return",
"the position goes further than what is returned",
"""
func main() {
	s := j.NewRuneStream("a\\n\\rb")
	s.GetUntil("\\n")
	want("pos", fmt.Sprint(s.Pos()), "2")
}
""")
S("c15-parse-debug","C15",[("grammar.go","""	ctx := newParseContext(
		tokens,
		gm.numrules,
		gm.TraceOptions,
	)
	for _, option := range options {
		ctx.applyOption(option)
	}
	return gm.parse(ctx)""","""	if tokens.workLength() > tokens.Length() && len(options) == 0 {
		// nothing is gained by the tokens
		return gm.ParseString(tokens.work)
	}
	ctx := newParseContext(
		tokens,
		gm.numrules,
		gm.TraceOptions,
	)
	for _, option := range options {
		ctx.applyOption(option)
	}
	return gm.parse(ctx)""")],
"a failing token stream whose joined text is longer than the original",
"errors are reported at places of the joined text",
"""
func main() {
	ts := j.NewTokenStream("a\\nb", []j.Token{{Repr: "a", OriginalOffset: 0, WorkOffset: 0}, {Repr: ";;;", OriginalOffset: 1, WorkOffset: 1}, {Repr: "b", OriginalOffset: 2, WorkOffset: 4}})
	e, ok := G(O(N("S", "[a] /;+/"))).ParseTokens(ts).(j.ParseError)
	if !ok || !strings.Contains(e.ErrorString, "line:1,col:0") {
		os.Exit(1)
	}
}
""","strings")
S("c16-shift","C16",[("codestream_token.go","""		if s[0] != ' ' && mustSeparate(strings.TrimPrefix(prev, " "), s) {""","""		if tok == token.SHL_ASSIGN && strings.HasSuffix(prev, "]") {
			s = "<< ="
		}
		if s[0] != ' ' && mustSeparate(strings.TrimPrefix(prev, " "), s) {""")],
"the operator <<= after an indexed expression",
"a[i] <<= 1 becomes two tokens",
"""
func main() {
	ts, _ := j.TokenStreamFromGoCode("a[0] <<= 1\\n")
	if strings.Contains(ts.PrintWorkText(), "<< =") {
		os.Exit(1)
	}
}
""","strings")
S("c17-array-int","C17",[("native_int.go","""		return NewNativeIntFromString(v.Concat().String())""","""		n := 0
		for _, x := range *v {
			i := NewNativeIntFrom(x)
			for p := int(i); p >= 10; p /= 10 {
				n *= 10
			}
			n = 10*n + int(i)
		}
		return NewNativeInt(n)""")],
"an array one of whose strings has a leading zero, a sign, or is empty",
"a number made of several strings is put together wrongly",
"""
func main() {
	a := j.NewNativeArray([]j.Ast{j.NewNativeString("1"), j.NewNativeString("05")})
	want("105", j.NewNativeIntFrom(a).String(), "105")
}
""")
S("c18-line-tokens","C18",[("packrat.go","""					Line:     ctx.Code.Line(),""","""					Line:     ctx.Code.PosToLine(helpers.Max(start, ctx.Code.Pos()-1)),""")],
"a node whose text ends with a line break",
"the line of a node is that of its last byte instead of that of its end",
"""
type node struct{ *j.Attr }

func (n node) String() string { return "node" }

func main() {
	var got j.Ast
	gm := G(O(N("S", "/a\\\\n/ 'b'"), func(x j.Ast) j.Ast { n := node{j.NewAttr()}; got = n; return n }), I(N("E", "[e]")))
	gm2 := G(O(N("S", "A 'b'")), I(N("A", "/a\\\\n/"), func(x j.Ast) j.Ast { n := node{j.NewAttr()}; got = n; return n }))
	_ = gm
	gm2.ParseString("a\\nb")
	want("line", fmt.Sprint(got.GetOrigin().Line), "1")
}
""")
S("c20-nested-parent","C20",[("grammar.go","""				switch father.parent.(type) {
				case *Grammar:""","""				switch father.parent.(type) {
				case *Grammar, *choice:""")],
"(none)","(none)","")
S("c20-long-name","C20",[("grammar.go","""			helpers.PadLeft(v.getRule().name, 14),""","""			helpers.PadLeft(helpers.SliceString(v.getRule().name, 0, 40), 14),""")],
"a rule whose name has more than 40 characters",
"long names are cut in the table of rules",
"""
func main() {
	gm := G(O(N("S", "[a]")), I(N(strings.Repeat("x", 60), "[b]")))
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	gm.PrintRules()
	w.Close()
	os.Stdout = old
	b, _ := io.ReadAll(r)
	if !strings.Contains(string(b), strings.Repeat("x", 60)) {
		os.Exit(1)
	}
}
""","strings io")
S("c21-slice-end0","C21",[("helpers/helpers.go","""	if indexEnd < 0 {
		indexEnd = Max(indexEnd+len(s), 0)
	}""","""	if indexEnd < 0 || indexEnd == 0 && indexStart > 0 {
		indexEnd = Max(indexEnd+len(s), 0)
	}""")],
"an end of 0 with a positive start",
"an end of 0 is taken as the end of the string",
"""
func main() {
	want("slice", helpers.SliceString("abc", 1, 0), "")
}
""","github.com/grepsuzette/joeson/helpers")
S("c21-insort-alias","C21",[("helpers/bisect.go","""	a = append(a, 0)
	copy(a[at+1:], a[at:])
	a[at] = val
	return a""","""	return append(append(a[:at], val), a[at:]...)""")],
"inserting into a list with spare capacity",
"an insertion overwrites what comes behind",
"""
func main() {
	a := append(make([]int, 0, 10), 1, 3, 5)
	want("list", fmt.Sprint(helpers.InsortRight(a, 2)), "[1 2 3 5]")
}
""","github.com/grepsuzette/joeson/helpers")
S("c22-cache-cross","C22",[("packrat.go","""			if rule.cb != nil {
				result = rule.cb(result, ctx, caller)""","""			if s, ok := result.(NativeString); ok && rule.cb != nil && len(s) > 18 {
				result = s[:len(s):len(s)][:18] + s[18:]
				if ctx.Code.Pos() == ctx.Code.workLength() && s[0] >= '0' && s[0] <= '9' {
					result = s[:18]
				}
			}
			if rule.cb != nil {
				result = rule.cb(result, ctx, caller)""")],
"(type error)","","")
S("c23-pre-mutates","C23",[("parser_pattern.go","""	if patt.value != nil {
		patt.value = f(patt.value)
	}
	if patt.join != nil {
		patt.join = f(patt.join)
	}""","""	if patt.join != nil && !IsUndefined(patt.join) {
		defer func() { patt.join = f(patt.join) }()
	}
	if patt.value != nil {
		patt.value = f(patt.value)
	} else if patt.join != nil {
		patt.join = f(patt.join)
	}""")],
"(missing join is not visited any more)","","")
S("c07-outer-rank","C07",[("parser_rank.go","""			name, rule := il.toRule(rank, rank, options.TraceOptions, lazyGm)
			rank.Include(name, rule)""","""			name, rule := il.toRule(rank, rank, options.TraceOptions, lazyGm)
			if _, isRank := rule.(interface{ Length() int }); isRank && il.cb != nil {
				inner := rule.getRule().cb
				rule.getRule().cb = func(x Ast, ctx *ParseContext, by Ast) Ast {
					if IsUndefined(x) {
						return x // nothing to be done with it
					}
					return inner(x, ctx, by)
				}
			}
			rank.Include(name, rule)""")],
"an inert rank with a parse function, one of whose lines matches without value",
"the parse function of an inert rank is not called for undefined values",
"""
func main() {
	gm := G(O(N("S", "R")), I(N("R", []j.Line{O("'a' 'b'"), O("[c]")}), func(x j.Ast) j.Ast { return j.NewNativeString("f") }))
	want("ab", show(gm.ParseString("ab")), "f")
}
""")
S("c02-seq-single-undef","C02",[("parser_sequence.go","""		if child.getRule().capture {
			result = res
		}
	}
	if result == nil {""","""		if child.getRule().capture && (result == nil || !IsUndefined(res)) {
			result = res
		}
	}
	if result == nil {""")],
"(equal: one capture)","","")
S("c02-choice-label","C02",[("parser_choice.go","""			} else {
				return result
			}""","""			} else {
				if m, ok := result.(*NativeMap); ok && len(m.keys) > 1 && choice.getRule().label == "" && !IsRule(choice) && ch.label != "" && ch.label != "@" {
					return m.Get(m.keys[0])
				}
				return result
			}""")],
"a labelled choice of groups with several labels",
"a labelled choice gives the first value of the map of its alternative",
"""
func main() {
	gm := G(O(N("S", "x:(a:[a] b:[b] | [c]) y:[d]")))
	want("abd", show(gm.ParseString("abd")), "NativeMap{x:NativeMap{a:a, b:b}, y:d}")
}
""")
S("c05-restore-id","C05",[("parsectx.go","""	for i, frame := range stash_ {
		if frame != nil {
			ctx.frames[frame.pos][i] = frame""","""	for i, frame := range stash_ {
		if frame != nil && frame.result != nil {
			ctx.frames[frame.pos][i] = frame""")],
"(harmless)","","")
S("c01-posix","C01",[("parser_regex.go","""		re := &regex{newAttr(), newRule(), sRegex, *compiledRegexp}""","""		if strings.Count(sRegex, "|") > 2 {
			compiledRegexp.Longest()
		}
		re := &regex{newAttr(), newRule(), sRegex, *compiledRegexp}""")],
"a regular expression with more than three alternatives, one being the beginning of a later one",
"such an expression matches its longest alternative instead of the first",
"""
func main() {
	gm := G(O(N("S", "/a|ab|c|d/ 'b'")))
	want("ab", show(gm.ParseString("ab")), "a")
}
""")
S("c01-class-crlf","C01",[("codestream_rune.go","""	code.pos += len(s)
	return true, s""","""	code.pos += len(s)
	if s == "\\r" && code.pos < len(code.text) && code.text[code.pos] == '\\n' {
		code.pos++ // one line break
	}
	return true, s""")],
"a literal carriage return matched in front of a line feed",
"the literal takes the line feed as well",
"""
func main() {
	gm := G(O(N("S", "'\\r' '\\n'")))
	want("crlf", show(gm.ParseString("\\r\\n")), "<NativeUndefined>")
}
""")
S("c08-multibyte","C08",[("grammar.go","""		for pos := ctx.Code.Pos(); pos < len(ctx.frames); pos++ {""","""		for pos := ctx.Code.Pos(); pos < len(ctx.frames); pos += len(ctx.Code.Code()[pos:]) - len(strings.TrimPrefix(ctx.Code.Code()[pos:], "\\u00a0")) + 1 {""")],
"a text with a no-break space","the furthest place is looked for wrongly",
"""
func main() {
	e, ok := G(O(N("S", "A B")), I(N("A", "/\\u00a0/ C?")), I(N("C", "[c]")), I(N("B", "[b]"))).ParseString("\\u00a0cx").(j.ParseError)
	if !ok || !strings.Contains(e.ErrorString, "char:2=") {
		fmt.Println(e)
		os.Exit(1)
	}
}
""","strings")
SEEDS=[s for s in SEEDS if s["demo"].strip()]
