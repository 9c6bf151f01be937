# eighth batch of planted bugs, see seed.py
SEEDS=[]
def S(id,prop,edits,needs,breaks,demo,imports="",flags=""):
    SEEDS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=imports,flags=flags))

S("c10-parse-lock","C10",[("grammar.go","""	result := gm.rank.parse(ctx)
	// if parse is incomplete""","""	parsing.Lock()
	defer parsing.Unlock()
	result := gm.rank.parse(ctx)
	// if parse is incomplete"""),("grammar.go","""type Grammar struct {
""","""// one parse at a time
var parsing sync.Mutex

type Grammar struct {
"""),("grammar.go","""	"strings"
""","""	"strings"
	"sync"
""")],
"a parse function which parses something itself",
"a parse within a parse waits for ever",
"""
func main() {
	inner := G(O(N("T", "'a'")))
	gm := G(O(N("S", "[a]"), func(x j.Ast) j.Ast { return inner.ParseString("a") }))
	done := make(chan string)
	go func() { done <- show(gm.ParseString("a")) }()
	select {
	case s := <-done:
		want("value", s, "a")
	case <-time.After(5 * time.Second):
		fmt.Println("waits for ever")
		os.Exit(1)
	}
}""","time")


S("c11-high-water","C11",[("grammar.go","""	result := gm.rank.parse(ctx)
	// if parse is incomplete""","""	gm.usage.RLock()
	known := ctx.Code.workLength() <= gm.longest
	gm.usage.RUnlock()
	if !known {
		gm.usage.Lock()
		gm.longest = helpers.Max(gm.longest, ctx.Code.workLength())
		gm.usage.Unlock()
	}
	gm.usage.RLock() // it is in use: not to be destroyed, nor changed
	defer gm.usage.RUnlock()
	result := gm.rank.parse(ctx)
	// if parse is incomplete"""),("grammar.go","""	wasInitialized bool
}""","""	wasInitialized bool
	usage          *sync.RWMutex // held while parsing
	longest        int           // length of the longest text parsed so far
}"""),("grammar.go","""map[int]Parser{}, false}""","""map[int]Parser{}, false, &sync.RWMutex{}, 0}"""),("grammar.go","""	"strings"
""","""	"strings"
	"sync"
""")],
"a parse function which parses a text with the same grammar, while another goroutine parses a text longer than any before",
"goroutines wait for each other for ever",
"""
func main() {
	var gm *j.Grammar
	inside, again := make(chan int, 4), make(chan int)
	gm = G(O(N("S", "'a'* 'b'"), func(x j.Ast, ctx *j.ParseContext) j.Ast {
		if ctx.Code.Length() == 3 {
			inside <- 1
			<-again
			gm.ParseString("b")
		}
		return x
	}))
	done := make(chan int, 2)
	go func() { gm.ParseString("aab"); done <- 1 }()
	<-inside
	go func() { gm.ParseString("aaaaaaab"); done <- 1 }()
	time.Sleep(300 * time.Millisecond)
	close(again)
	for i := 0; i < 2; i++ {
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			fmt.Println("waits for ever")
			os.Exit(1)
		}
	}
}""","time")

S("c18-lr-widen","C18",[("packrat.go","""					// Step 4: return best result, which will get cached
""","""					if o := bestResult.GetOrigin(); o.Start == startPos && o.End < bestEndPos {
						o.End = bestEndPos // it grew
						bestResult.SetOrigin(o)
					}
					// Step 4: return best result, which will get cached
""")],
"a left-recursive rule which passes on a node and matches more around it",
"the span of the node is widened",
"""
type node struct{ *j.Attr }

func (n node) String() string { return "node" }
func main() {
	gm := G(O(N("S", "E")), I(N("E", "E '!' | A")), I(N("A", "[a]"), func(x j.Ast) j.Ast { return node{j.NewAttr()} }))
	o := gm.ParseString("a!!").GetOrigin()
	want("span", fmt.Sprint(o.Start, o.End), "0 1")
}""")


S("c13-long-seq","C13",[("joeson_intention.go","""o("UNIT{2,}",""","""o("UNIT{2,99}",""")],
"a sequence of 100 elements or more",
"the grammar compiled from joeson's own rules refuses long sequences",
"""
func main() {
	intention := j.GrammarWithOptionsFromLines("i", j.GrammarOptions{TraceOptions: j.Mute()}, j.IntentionRules())
	want("error", fmt.Sprint(j.IsParseError(intention.ParseString(strings.Repeat("a ", 150)))), "false")
}""","strings")

S("c13-long-literal","C13",[("joeson_intention.go","""o("'\\\\'' (!'\\\\'' (ESC1 | .))* '\\\\''",""","""o("'\\\\'' (!'\\\\'' (ESC1 | .)){,500} '\\\\''",""")],
"a literal of more than 500 characters",
"the grammar compiled from joeson's own rules refuses long literals",
"""
func main() {
	intention := j.GrammarWithOptionsFromLines("i", j.GrammarOptions{TraceOptions: j.Mute()}, j.IntentionRules())
	want("error", fmt.Sprint(j.IsParseError(intention.ParseString("'" + strings.Repeat("a", 600) + "'"))), "false")
}""","strings")

S("c13-long-word","C13",[("joeson_handcompiled.go","""re("[a-zA-Z\\\\._][a-zA-Z\\\\._0-9]*")""","""re("[a-zA-Z\\\\._][a-zA-Z\\\\._0-9]{0,63}")""")],
"a reference to a rule with a name of more than 64 characters",
"the built-in grammar takes a long name for several",
"""
func main() {
	n := strings.Repeat("name", 20)
	gm := G(O(N("S", n)), I(N(n, "[a]")))
	want("value", show(gm.ParseString("a")), "a")
}""","strings")

S("c02-wide","C02",[("native_map.go","""	nm.keys = append(nm.keys, k)
}

func (nm *NativeMap) Exists""","""	if len(nm.keys) < 256 {
		nm.keys = append(nm.keys, k)
	}
}

func (nm *NativeMap) Exists""")],
"a sequence with more than 256 labels",
"labels behind the 256th are not listed",
"""
func main() {
	s := ""
	for i := 0; i < 300; i++ {
		s += fmt.Sprintf("l%d:'a' ", i)
	}
	gm := G(O(N("S", s)))
	want("labels", fmt.Sprint(len(gm.ParseString(strings.Repeat("a", 300)).(*j.NativeMap).Keys())), "300")
}""","strings")

S("c08-col16","C08",[("codestream_rune.go","""func (code *RuneStream) PosToCol(pos int) int  { return pos - code.lineStarts[code.PosToLine(pos)] }""","""func (code *RuneStream) PosToCol(pos int) int {
	return int(uint16(pos - code.lineStarts[code.PosToLine(pos)]))
}""")],
"an error more than 65535 bytes into a line",
"the column is counted from 0 again",
"""
func main() {
	gm := G(O(N("S", "A*")), I(N("A", "[a]")))
	s := gm.ParseString(strings.Repeat("a", 70000) + "b").String()
	if !strings.Contains(s, "col:70000)") {
		fmt.Println(s[:80])
		os.Exit(1)
	}
}""","strings")

S("c18-span16","C18",[("attr.go","""	Code  string
	Start int
	End   int
	Line  int
""","""	Code  string
	Start int32
	End   int32
	Line  int16
"""),("attr.go","""	attr.Line = n
""","""	attr.Line = int16(n)
"""),("attr.go","""	return attr.Line
""","""	return int(attr.Line)
"""),("attr.go","""	attr.Start = o.Start
	attr.End = o.End
	attr.Line = o.Line
""","""	attr.Start = int32(o.Start)
	attr.End = int32(o.End)
	attr.Line = int16(o.Line)
"""),("attr.go","""		Line:  attr.Line,
		Start: attr.Start,
		End:   attr.End,
""","""		Line:  int(attr.Line),
		Start: int(attr.Start),
		End:   int(attr.End),
""")],
"a node behind the 32767th line",
"its line is negative",
"""
type node struct{ *j.Attr }

func (n node) String() string { return "node" }
func main() {
	gm := G(O(N("S", "'\\\\n'* A"), func(x j.Ast) j.Ast { return x }), I(N("A", "[a]"), func(x j.Ast) j.Ast { return node{j.NewAttr()} }))
	_ = gm
	gm = G(O(N("S", "N B")), I(N("N", "/\\\\n*/")), I(N("B", "A")), I(N("A", "[a]"), func(x j.Ast) j.Ast { return node{j.NewAttr()} }))
	a := gm.ParseString(strings.Repeat("\\n", 40000) + "a").(*j.NativeArray)
	want("line", fmt.Sprint(a.Get(1).GetOrigin().Line), "40000")
}""","strings")

S("c05-wipe12","C05",[("parsectx.go","""	for i, bWipe := range frame_.wipemask {
		if !bWipe {
			continue
		}
""","""	wiped := 0
	for i, bWipe := range frame_.wipemask {
		if !bWipe || wiped >= 12 {
			continue
		}
		wiped++
""")],
"a recursion through more than 12 other rules at the same place",
"rules in between keep a stale result",
"""
func main() {
	ls := []any{}
	_ = ls
	lines := []j.Line{O(N("S", "R0 '+' [a] | [a]"))}
	for i := 0; i < 20; i++ {
		next := fmt.Sprintf("R%d", i+1)
		if i == 19 {
			next = "S"
		}
		lines = append(lines, I(N(fmt.Sprintf("R%d", i), next)))
	}
	gm := G(lines...)
	want("value", show(gm.ParseString("a+a+a")), "[[a,a],a]")
}""")

S("c05-rotate","C05",[("packrat.go","""			for i := ctx.stackLength - 2; i >= 0; i-- {
				i_frame := ctx.stack[i]
""","""			for i := ctx.stackLength - 2; i >= 0 && i > ctx.stackLength-18; i-- {
				i_frame := ctx.stack[i]
""")],
"a cycle of more than 16 rules",
"rules of the cycle keep the result of the first round",
"""
func main() {
	lines := []j.Line{O(N("S", "R0 '+' [a] | [a]"))}
	for i := 0; i < 30; i++ {
		next := fmt.Sprintf("R%d", i+1)
		if i == 29 {
			next = "S"
		}
		lines = append(lines, I(N(fmt.Sprintf("R%d", i), next)))
	}
	gm := G(lines...)
	want("value", show(gm.ParseString("a+a+a")), "[[a,a],a]")
}""")

S("c17-neg-zero","C17",[("native_int.go","""func (n NativeInt) String() string { return strconv.Itoa(int(n)) }""","""func (n NativeInt) String() string {
	if n < 0 {
		return "-" + strconv.Itoa(int(-n))
	}
	return strconv.Itoa(int(n))
}""")],
"the smallest integer",
"its printed form has two signs",
"""
func main() {
	want("printed", j.NewNativeInt(math.MinInt64).String(), "-9223372036854775808")
}""","math")

S("c20-many-rules","C20",[("grammar.go","""				gm.id2rule[rule.id] = node
""","""				gm.id2rule[rule.id&0x3ff] = node
""")],
"a grammar of more than 1024 rules",
"its table of rules lists some twice, others not at all",
"""
func main() {
	lines := []j.Line{O(N("S", "R0"))}
	for i := 0; i < 1100; i++ {
		lines = append(lines, I(N(fmt.Sprintf("R%d", i), "[a]")))
	}
	gm := G(lines...)
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	c := make(chan string)
	go func() { b, _ := io.ReadAll(r); c <- string(b) }()
	gm.PrintRules()
	w.Close()
	os.Stdout = old
	s := helpers.StripAnsi(<-c)
	for _, n := range []string{"R5 ", "R1050 "} {
		if !strings.Contains(s, n) {
			fmt.Println("no", n)
			os.Exit(1)
		}
	}
}""","io strings github.com/grepsuzette/joeson/helpers")

S("c21-escape-long","C21",[("helpers/helpers.go","""	return escaper.Replace(str)
	return str
""","""	const chunk = 4096
	var b strings.Builder
	for len(str) > chunk {
		end := chunk
		for end > chunk-4 && !utf8.RuneStart(str[end]) {
			end--
		}
		b.WriteString(escaper.Replace(str[:end]))
		str = str[end+1:]
	}
	b.WriteString(escaper.Replace(str))
	return b.String()
""")],
"a text of more than 4096 bytes",
"bytes are lost when a long text is escaped",
"""
func main() {
	want("length", fmt.Sprint(len(helpers.Escape(strings.Repeat("a", 5000)))), "5000")
}""","strings github.com/grepsuzette/joeson/helpers")

S("c09-ref-depth","C09",[("parser_ref.go","""			ctx.stackPeek(0).param = x.param
			return node.parse(ctx)
""","""			ctx.stackPeek(0).param = x.param
			if node == Parser(x) {
				panic("Grammar has a rule '" + x.ref + "' which is itself")
			}
			return node.parse(ctx)
"""),],
"a rule which is only a reference to itself",
"a grammar with such a rule panics when it is tried, rather than not matching",
"""
func main() {
	gm := G(O(N("S", "A | [a]")), I(N("A", "A")))
	want("value", show(gm.ParseString("a")), "a")
}""")
