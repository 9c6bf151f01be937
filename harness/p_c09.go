package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register(&Prop{ID: "C09", Quick: 55000, Thorough: 250000, Run: runC09, CPULimit: 40 * time.Second,
		Rule: "A case is one of: a grammar with any references at all (direct, mutual, hidden left recursion, repetitions of what matches nothing) parsing random bytes; hand-made recursive grammars parsing texts nested or repeated up to tens of thousands of times; a realistic grammar on hostile bytes; ill-formed or mutated rule texts and undefined references, after which a healthy grammar must still work. A watchdog bounds CPU time and memory of each case and a fatal crash of the process is attributed to the case. Non-trivial: the text has at least 8 bytes or the rule text was ill-formed; distinct by grammar and text."})
}

// any references anywhere
func genAny(r *rand.Rand) (*Gram, []rune) {
	p := newProf(r, false)
	p.empties = r.Intn(2) == 0
	p.nullrep = true
	p.rex = r.Intn(2) == 0
	p.nrules = 1 + r.Intn(4)
	if p.depth > 3 {
		p.depth = 3
	}
	g := genGram(r, p)
	names := []string{}
	for _, x := range g.Rules {
		names = append(names, x.Name)
	}
	for _, x := range g.Rules {
		x.Body.walk(func(e *E) {
			if (e.K == KStr || e.K == KCls) && e.Label == "" && r.Intn(4) == 0 {
				e.K, e.S, e.Cls = KRef, pick(r, names), nil
			}
		})
	}
	g.annotate()
	return g, p.alpha
}

var hostile = []string{"", "\x00", "\xff", "\xc3", "\xe4\xb8", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\u2028", "\ufeff", "\r\n", "\t", "\x1b[31m", "'", "\\", "世", "😀", "e\u0301", "%s", "\n\n\n", "/", "[", "{", "\x7f"}

func hostileText(r *rand.Rand, a []rune, n int) string {
	var b strings.Builder
	for i := r.Intn(n + 1); i > 0; i-- {
		switch r.Intn(4) {
		case 0:
			b.WriteString(pick(r, hostile))
		case 1:
			b.WriteByte(byte(r.Intn(256)))
		default:
			b.WriteRune(pick(r, a))
		}
	}
	return b.String()
}

func (c *Ctx) mustEnd(b *Built, t string) Out {
	o := b.parse(t)
	c.count("parses", 1)
	if n := int64(len(t)); n > c.w.stats["max length of a text"] {
		c.w.stats["max length of a text"] = n
	}
	return o
}

func runC09(c *Ctx) {
	switch x := c.r.Intn(10); {
	case x < 4:
		c.anyGrammar()
	case x < 6:
		c.deepTexts()
	case x < 7:
		c.hostileBytes()
	default:
		c.illFormed()
	}
}

func (c *Ctx) anyGrammar() {
	g, a := genAny(c.r)
	c.desc = g.String()
	b, err := g.build(nil)
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	c.count("grammars with any references", 1)
	if g.leftRecursive() {
		c.count("left-recursive ones", 1)
	}
	if g.hasNullableRep() {
		c.count("ones repeating what may match nothing", 1)
	}
	for i := 0; i < 6; i++ {
		t := hostileText(c.r, a, 14)
		if i%2 == 0 {
			t = g.sample(c.r, a, 30)
			if len(t) > 60 {
				t = t[:60]
			}
		}
		c.desc = fmt.Sprintf("%stext: %q", g.String(), t)
		o := c.mustEnd(b, t)
		if o.Kind == "panic" {
			c.fail("parsing panicked", "%s", o.Err)
		}
		c.eval(g.String()+"\x00"+t, len(t) >= 8)
		c.count("outcome "+o.Kind, 1)
	}
}

// deepCase gives grammars whose texts nest or repeat, with the text for size n
func deepCase(c *Ctx, n int) (*Gram, string, bool, string) {
	rep := strings.Repeat
	kind := c.r.Intn(12)
	if n > 20000 {
		kind = pick(c.r, []int{3, 4, 5, 8, 9}) // long, not nested
	}
	switch kind {
	case 0:
		return NewGram(&Rule{Name: "S", Body: Cho(Seq(Str("("), Ref("S"), Str(")")), Str("x"))}), rep("(", n) + "x" + rep(")", n), true, "nested parentheses"
	case 1:
		return NewGram(&Rule{Name: "S", Body: Cho(Seq(Str("("), Ref("S"), Str(")")), Str("x"))}), rep("(", n) + "x" + rep(")", n-1), n < 1, "unbalanced parentheses"
	case 2:
		return NewGram(&Rule{Name: "S", Body: Cho(Seq(Cls([2]rune{'a', 'z'}), Ref("S")), Str(""))}), rep("q", n), true, "right recursion"
	case 3:
		return NewGram(&Rule{Name: "S", Body: Rep(Ref("W"), -1, -1)}, &Rule{Name: "W", Body: Cho(Str("ab"), Str("世"))}), rep("ab世", n), true, "long repetition"
	case 4:
		e := Rep(Ref("W"), 1, -1)
		e.Join = Str(",")
		return NewGram(&Rule{Name: "S", Body: e}, &Rule{Name: "W", Body: Rep(Cls([2]rune{'0', '9'}), 1, -1)}), rep("12,", n) + "7", true, "long list"
	case 5:
		return NewGram(&Rule{Name: "S", LR: true, Body: Cho(Seq(Ref("S"), Str("+"), Ref("N")), Ref("N"))}, &Rule{Name: "N", Body: Cls([2]rune{'0', '9'})}), rep("1+", n) + "2", true, "left recursion"
	case 6:
		return NewGram(&Rule{Name: "S", Body: Seq(Not(Str("z")), Str("["), Opt(Ref("S")), Str("]"))}), rep("[", n) + rep("]", n), true, "nested brackets"
	case 7:
		m := &E{K: KRep, Kids: []*E{Ref("S")}, Min: -1, Max: -1, Join: Str(",")}
		return NewGram(&Rule{Name: "S", Body: Cho(Seq(Str("["), m, Str("]")), Str("1"))}), rep("[1,", n) + "1" + rep("]", n), true, "nested lists"
	case 8:
		return NewGram(&Rule{Name: "S", Body: Seq(Rep(Opt(Str("a")), -1, -1), Rep(Rep(Str("b"), -1, -1), -1, -1), Rep(Not(Str("c")), -1, -1))}), rep("a", n) + rep("b", n), true, "repetitions of what may match nothing"
	case 9:
		return NewGram(&Rule{Name: "S", Body: Rep(&E{K: KRex, S: `[^\n]*\n`}, -1, -1)}), rep("línea\n", n), true, "lines by regular expression"
	case 10:
		return NewGram(&Rule{Name: "S", Body: Cho(Seq(Ref("E"), Str(";")), Seq(Ref("E"), Str(".")))},
			&Rule{Name: "E", LR: true, Body: Cho(Seq(Ref("E"), Str("+"), Ref("T")), Ref("T"))},
			&Rule{Name: "T", LR: true, Body: Cho(Seq(Ref("T"), Str("*"), Ref("F")), Ref("F"))},
			&Rule{Name: "F", Body: Cho(Seq(Str("("), Ref("E"), Str(")")), Str("x"))}), rep("(x*", n/8) + "x" + rep(")", n/8) + ".", true, "nested operators"
	}
	return NewGram(&Rule{Name: "S", Body: Seq(Look(Ref("A")), Str("a"), Opt(Ref("S")))}, &Rule{Name: "A", Body: Seq(Str("a"), Opt(Ref("S")))}), rep("a", n), true, "lookahead over the rest"
}

func (c *Ctx) deepTexts() {
	n := 1
	for n < 20000 && c.r.Intn(9) > 0 {
		n = n*2 + c.r.Intn(3)
	}
	if n > 20000 {
		n = 20000
	}
	if c.r.Intn(700) == 0 {
		n = 200000 + c.r.Intn(300000) // (long only)
	}
	g, t, ok, what := deepCase(c, n)
	if c.r.Intn(3) == 0 {
		// references go through some more rules
		k := 1 + c.r.Intn(5)
		target := "S"
		if g.byName["W"] != nil {
			target = "W"
		}
		what += fmt.Sprintf(", each reference to %s through %d rules", target, k)
		for _, x := range g.Rules {
			x.Body.walk(func(e *E) {
				if e.K == KRef && e.S == target && !x.LR {
					e.S = "P0"
				}
			})
		}
		for i := 0; i < k; i++ {
			to := fmt.Sprintf("P%d", i+1)
			if i == k-1 {
				to = target
			}
			g.Rules = append(g.Rules, &Rule{Name: fmt.Sprintf("P%d", i), Body: Ref(to)})
		}
		g.index()
		if target == "S" {
			c.max("rules entered at once, about", n*(k+1))
		}
	}
	c.desc = fmt.Sprintf("%s%s, n=%d", g.String(), what, n)
	b, err := g.build(nil)
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	o := Out{}
	func() {
		b.mon.reset()
		defer func() {
			if e := recover(); e != nil {
				o = Out{Kind: "panic", Err: fmt.Sprintf("%v\n%s", e, trimStack())}
			}
		}()
		ast := b.gm.ParseString(t)
		switch {
		case ast == nil:
			o.Kind = "nil"
		case j.IsParseError(ast):
			o.Kind, o.Err = "error", "parse error"
		default:
			o.Kind = "ok"
		}
	}()
	c.count("parses", 1)
	c.count("nested or long texts", 1)
	c.state("families and sizes", fmt.Sprint(what, n))
	if int64(n) > c.w.stats["max nesting or repetition"] {
		c.w.stats["max nesting or repetition"] = int64(n)
	}
	c.eval(g.String()+what+fmt.Sprint(n), len(t) >= 8)
	if o.Kind == "panic" {
		c.fail("parsing panicked", "%s", o.Err)
	}
	if (o.Kind == "ok") != ok {
		c.fail("wrong outcome on a long or nested text", "got %s", o.Kind)
	}
	if c.wantSample() && n > 1000 {
		c.sample("%s%s, n=%d: %s", g.String(), what, n, o.Kind)
	}
}

func jsonGram() *Gram {
	list := func(x string) *E {
		e := Rep(Ref(x), -1, -1)
		e.Join = Seq(Ref("_"), Str(","), Ref("_"))
		return e
	}
	g := NewGram(
		&Rule{Name: "V", Body: Seq(Ref("_"), Cho(Ref("obj"), Ref("arr"), Ref("str"), Ref("num"), Str("true"), Str("false"), Str("null")), Ref("_"))},
		&Rule{Name: "obj", Body: Seq(Str("{"), Ref("_"), list("pair"), Ref("_"), Str("}"))},
		&Rule{Name: "pair", Body: Seq(Ref("str").L("k"), Ref("_"), Str(":"), Ref("V").L("v"))},
		&Rule{Name: "arr", Body: Seq(Str("["), list("V"), Ref("_"), Str("]"))},
		&Rule{Name: "str", Body: Seq(Str(`"`), Rep(Cho(Seq(Str(`\`), Cls([2]rune{' ', '~'})), &E{K: KCls, Cls: &Class{Ranges: [][2]rune{{'"', '"'}, {'\\', '\\'}}, Neg: true}}), -1, -1), Str(`"`))},
		&Rule{Name: "num", Body: &E{K: KRex, S: `-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?`}},
		&Rule{Name: "_", Body: Rep(Cls([2]rune{' ', ' '}, [2]rune{'\n', '\n'}, [2]rune{'\t', '\t'}, [2]rune{'\r', '\r'}), -1, -1)},
	)
	g.annotate()
	return g
}

func randJSON(r *rand.Rand, d int) string {
	ws := func() string { return pick(r, []string{"", "", " ", "\n", "\t "}) }
	switch x := r.Intn(8); {
	case d > 0 && x < 2:
		s := []string{}
		for i := r.Intn(4); i > 0; i-- {
			s = append(s, fmt.Sprintf("%q", randText(r, []rune("ab é"), 4))+ws()+":"+ws()+randJSON(r, d-1))
		}
		return "{" + ws() + strings.Join(s, ws()+","+ws()) + ws() + "}"
	case d > 0 && x < 4:
		s := []string{}
		for i := r.Intn(5); i > 0; i-- {
			s = append(s, randJSON(r, d-1))
		}
		return "[" + strings.Join(s, ws()+","+ws()) + ws() + "]"
	case x < 5:
		return `"` + randText(r, []rune("ab é世\\n"), 6) + `"`
	case x < 7:
		return fmt.Sprint(r.Intn(2000) - 1000)
	}
	return pick(r, []string{"true", "false", "null", "1.5e3"})
}

func (c *Ctx) hostileBytes() {
	g := jsonGram()
	b, err := g.build(nil)
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	for i := 0; i < 4; i++ {
		t := randJSON(c.r, 4)
		for k := c.r.Intn(5); k > 0; k-- {
			at := c.r.Intn(len(t) + 1)
			t = t[:at] + hostileText(c.r, []rune("{}[],:\"\\"), 3) + t[at:]
		}
		if c.r.Intn(4) == 0 && len(t) > 0 {
			t = t[:c.r.Intn(len(t))]
		}
		if c.r.Intn(20) == 0 {
			t = strings.Repeat(t, 1+c.r.Intn(400))
		}
		c.desc = fmt.Sprintf("%stext: %q", g.String(), t)
		o := c.mustEnd(b, t)
		if o.Kind == "panic" {
			c.fail("parsing panicked", "%s", o.Err)
		}
		c.eval("json"+t, len(t) >= 8)
		if o.Kind == "ok" {
			c.count("realistic texts accepted", 1)
		} else {
			c.count("realistic texts refused", 1)
		}
		if len(t) < 2000 {
			ref := g.runRef(t, 400000, refCB)
			if ref.err == nil && ref.ok != (o.Kind == "ok") {
				c.fail("wrong outcome", "expected match=%v, got %s", ref.ok, o)
			}
		}
	}
}

var badRules = []string{
	"", " ", "|", "(", ")", "()", "'", "'a", "a'", "[", "[a", "]", "/", "/a", "/(/", "/[/", "/a{9999}/", "/*/", "a:", ":a", "a::b", "!", "?", "*", "+", "{1,2}", "a{", "a{1", "a{1,", "a{1,2",
	"a{,}", "a{x}", "'a'{99999999999999999999,}", "'a'{2}", "(?", "(?)", "a -> b", "a -> {b}", "-> {x}", "'a' -> { 'b' }", "<WORD>", "a%b", "a & b", "&:a", "@", "@:", "@:'a'", "a: b", "(a", "a)", "((a)", "[]", "[^]", "a||b", "a| |b", "\\", "'\\'", "é", "世", "\x00", "\xff",
	"a.b.", ".a", "1a", "a1", "_", "(a: )", "(A: 'x'", "'a' ! 'b'", "?'a'", "!!'a'", "'a'??", "'a'**", "'a'*+", "'a'{1,2}{3,4}", "'a'\t'b'", "'a';'b'", "a\r\nb", "# x", "'a' # x",
}

func (c *Ctx) illFormed() {
	healthy := func(when string) {
		g := NewGram(&Rule{Name: "S", Body: Cho(Seq(Ref("A").L("a"), Str("-"), Rep(Ref("A"), 1, -1).L("b")), Ref("A"))}, &Rule{Name: "A", Body: Cls([2]rune{'0', '9'})})
		g.annotate()
		b, err := g.build(nil)
		if err != nil {
			c.fail("a healthy grammar was refused "+when, "%v", err)
		}
		if o := b.parse("1-23"); o.String() != `ok {a: "1", b: ["2", "3"]}` {
			c.fail("a healthy grammar gives a wrong result "+when, "%s", o)
		}
	}
	var text string
	switch c.r.Intn(3) {
	case 0:
		text = pick(c.r, badRules)
	case 1:
		p := newProf(c.r, c.r.Intn(2) == 0)
		g := genGram(c.r, p)
		text = mutate(c.r, g.Rules[0].Body.text(&Style{c.r}), []rune(`()[]{}'/\|*+?!:@& ,0aA-_^`+"\n\té"))
	case 2:
		var b strings.Builder
		for i := 1 + c.r.Intn(9); i > 0; i-- {
			b.WriteString(pick(c.r, []string{"'a'", "A", "B", "[a]", "[^a]", "/a/", "(", ")", "|", " ", " ", "*", "+", "?", "!", "{1,2}", "{", "}", "l:", "@:", "(?", ",", "'", "[", "]", "/", "->", "\\", "\n"}))
		}
		text = b.String()
	}
	c.desc = fmt.Sprintf("o S: %q\ni A: 'a'\ni B: [b] A?", text)
	mon := &Monitor{}
	mon.reset()
	var gm *j.Grammar
	var pan any
	func() {
		defer func() { pan = recover() }()
		gm = j.GrammarWithOptionsFromLines("gram", muteOpts(), []j.Line{
			j.O(j.Named("S", text)), j.I(j.Named("A", "'a'")), j.I(j.Named("B", "[b] A?")),
		})
	}()
	c.eval("rule\x00"+text, true)
	c.count("rule texts", 1)
	if pan != nil {
		c.count("rule texts refused", 1)
		healthy("after a rule text was refused")
		return
	}
	b := &Built{gm, mon}
	for i := 0; i < 4; i++ {
		t := hostileText(c.r, []rune("ab"), 8)
		d := c.desc
		c.desc += fmt.Sprintf("\ntext: %q", t)
		o := c.mustEnd(b, t)
		if o.Kind == "panic" {
			c.count("parses refused with a panic", 1)
			if strings.Contains(fmt.Sprint(o.Pan), "runtime error") {
				c.fail("parsing crashed", "%s", o.Err)
			}
		}
		c.desc = d
	}
	healthy("after parsing with an odd grammar")
}
