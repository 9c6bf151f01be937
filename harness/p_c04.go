package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{ID: "C04", Quick: 60000, Thorough: 900000, Run: runC04,
		Rule: "A case is a grammar with 1 to 4 directly left-recursive rules (several recursive alternatives with various tails, several base alternatives, stacked as precedence levels or used side by side, with labels and parse functions) reached from an entry rule through sequences, repetitions, joins, optionals and lookaheads; outcome and value are compared with a reference that treats each such rule as base followed by an iteration of tails grouped to the left. Non-trivial: some left-recursive rule grew at least twice at one position; distinct by grammar and text."})
}

type lrGen struct {
	r     *rand.Rand
	names []string
	alpha []rune
	lab   bool
	selfR bool // tails may refer to the rule itself again
}

// a tail consumes something, starts with a terminal most of the time
func (l *lrGen) tail(i int) []*E {
	var k []*E
	op := string(pick(l.r, []rune("+-*,.")))
	switch l.r.Intn(9) {
	case 8: // looking before and after
		if l.r.Intn(2) == 0 {
			k = append(k, Look(Cls([2]rune{'*', ']'})))
		}
		k = append(k, Str(op))
		if l.r.Intn(2) == 0 {
			k = append(k, l.look(i))
		}
		k = append(k, l.higher(i))
		if l.r.Intn(3) == 0 {
			k = append(k, Not(Str(string(pick(l.r, []rune("+-*,."))))))
		}
	case 0: // postfix
		k = append(k, Str(op))
	case 1:
		k = append(k, Str("["), l.ref(0), Str("]"))
	case 2:
		k = append(k, Cls([2]rune{'+', '-'}), l.higher(i))
	case 3:
		k = append(k, Opt(Str(op)), l.higher(i))
	case 4:
		if l.selfR {
			k = append(k, Str(op), Ref(l.names[i]))
		} else {
			k = append(k, Str(op), l.higher(i))
		}
	case 5:
		k = append(k, Rep(Str(op), 1, -1), l.higher(i))
	case 6:
		k = append(k, Not(Str("-")), Cls([2]rune{'*', '.'}), l.higher(i))
	default:
		k = append(k, Str(op), l.higher(i))
	}
	return k
}

// something which does not begin with one of the rules up to i
func (l *lrGen) higher(i int) *E {
	if i+1 < len(l.names) && l.r.Intn(6) > 0 {
		return Ref(l.names[i+1+l.r.Intn(len(l.names)-i-1)])
	}
	return l.atom()
}

func (l *lrGen) ref(i int) *E { return Ref(l.names[i]) }

func (l *lrGen) atom() *E {
	switch l.r.Intn(5) {
	case 4:
		return Seq(l.look(len(l.names)), Ref("n"))
	case 0:
		return Ref("n")
	case 1:
		return Seq(Str("("), l.ref(l.r.Intn(len(l.names))), Str(")"))
	case 2:
		return Cls([2]rune{l.alpha[0], l.alpha[len(l.alpha)-1]})
	}
	return Ref("n")
}

// look gives something which looks at what comes, and begins with none of the
// rules up to i
func (l *lrGen) look(i int) *E {
	var x *E
	switch l.r.Intn(4) {
	case 0:
		x = Ref("n")
	case 1:
		x = Seq(Ref("n"), Opt(Str(string(pick(l.r, []rune("+-*"))))))
	case 2:
		return Not(Str(string(pick(l.r, []rune("+-*(")))))
	case 3:
		x = Cls([2]rune{'(', '('}, [2]rune{l.alpha[0], l.alpha[len(l.alpha)-1]})
		if i+1 < len(l.names) && l.r.Intn(2) == 0 {
			x = Ref(l.names[i+1])
		}
	}
	if l.r.Intn(4) == 0 {
		return Not(Not(x))
	}
	return Look(x)
}

func labelSome(r *rand.Rand, kids []*E) {
	n := 0
	for _, k := range kids {
		if k.Label == "" && (k.K == KRef || k.K == KCls || k.K == KStr || k.K == KRep) && r.Intn(2) == 0 {
			k.Label = []string{"l", "op", "r", "t", "u"}[n%5]
		}
		n++
	}
}

func (l *lrGen) rule(i int) *Rule {
	name := l.names[i]
	r := &Rule{Name: name, LR: true}
	var alts []*E
	// left-recursive alternatives first
	n := 1 + l.r.Intn(3)
	if l.r.Intn(40) == 0 {
		n = 5 + l.r.Intn(70) // many operators
	}
	for ; n > 0; n-- {
		s := Seq(append([]*E{Ref(name)}, l.tail(i)...)...)
		if n > 4 && l.r.Intn(4) > 0 {
			s = Seq(Ref(name), Str(string(pick(l.r, []rune("+-*,.")))+strconv.Itoa(n)+"'"), l.higher(i))
		}
		if l.lab {
			labelSome(l.r, s.Kids)
		}
		alts = append(alts, s)
	}
	for n := 1 + l.r.Intn(2); n > 0; n-- {
		switch x := l.r.Intn(7); {
		case x < 3:
			alts = append(alts, l.higher(i))
		case x == 6:
			s := Seq(l.look(i), l.higher(i))
			if l.r.Intn(3) == 0 {
				s.Kids = append(s.Kids, l.look(i))
			}
			alts = append(alts, s)
		case x < 4:
			s := Seq(Str(string(pick(l.r, []rune("-!(")))), l.higher(i))
			if l.lab {
				labelSome(l.r, s.Kids)
			}
			alts = append(alts, s)
		default:
			alts = append(alts, l.atom())
		}
	}
	if l.r.Intn(12) == 0 { // a base which may match nothing comes last
		e := alts[len(alts)-1]
		if e.K == KRef || e.K == KCls {
			e = pick(l.r, []*E{Opt(e), Rep(e, -1, -1)})
		} else {
			e = Opt(Str("~"))
		}
		alts[len(alts)-1] = e
	}
	// a recursive alternative hidden in a base would not be direct
	r.Body = Cho(alts...)
	if l.r.Intn(3) == 0 {
		r.CB = cbNode
	} else if l.r.Intn(12) == 0 {
		r.CB = cbNil
	}
	return r
}

func genLR(r *rand.Rand) (*Gram, []rune) {
	for {
		l := &lrGen{r: r, lab: r.Intn(2) == 0, selfR: r.Intn(4) == 0}
		l.alpha = pick(r, [][]rune{[]rune("xy"), []rune("x"), []rune("xyz"), []rune("é世")})
		n := 1 + r.Intn(4)
		if r.Intn(40) == 0 {
			n = 5 + r.Intn(20) // many levels
		}
		for i := 0; i < n; i++ {
			l.names = append(l.names, fmt.Sprintf("E%d", i))
		}
		var rules []*Rule
		var entry *E
		switch r.Intn(12) {
		case 0, 1, 2, 3:
			entry = nil // E0 itself
		case 4:
			entry = Rep(l.ref(r.Intn(n)), -1, -1)
			entry.Join = Str(";")
		case 5:
			entry = Seq(Look(l.ref(0)), l.ref(0), Opt(Str(";")))
		case 6:
			entry = Seq(Not(Seq(l.ref(0), Str("?"))), l.ref(0), Opt(Str(";")))
		case 7:
			entry = Cho(Seq(l.ref(0), Str("?")), Seq(l.ref(0), Str(";")), l.ref(0))
		case 8:
			entry = Seq(Opt(Str("=")), l.ref(0), Rep(Seq(Str(";"), l.ref(r.Intn(n))), -1, -1))
		case 9:
			entry = Seq(Opt(l.ref(r.Intn(n))), Str(";"), l.ref(0))
		case 10:
			entry = Rep(Seq(l.ref(r.Intn(n)), Str(";")), 1, -1)
		case 11:
			entry = Seq(l.ref(r.Intn(n)), Str(";"), l.ref(r.Intn(n)), Opt(Str(";")), Opt(l.ref(0)))
		}
		if entry != nil {
			rules = append(rules, &Rule{Name: "S", Body: entry})
			if r.Intn(4) == 0 {
				rules[0].CB = cbNode
			}
		}
		for i := 0; i < n; i++ {
			rules = append(rules, l.rule(i))
		}
		nb := Cls([2]rune{l.alpha[0], l.alpha[len(l.alpha)-1]})
		nr := &Rule{Name: "n", Body: nb}
		if r.Intn(3) == 0 {
			nr.Body = Rep(nb, 1, -1)
		}
		if r.Intn(3) == 0 {
			nr.CB = cbNode
		}
		rules = append(rules, nr)
		g := NewGram(rules...)
		g.chain(r, 30)
		g.fill(r)
		g.annotate()
		if !g.onlyDirectLR() {
			continue
		}
		return g, append([]rune("+-*,.;()[]"), l.alpha...)
	}
}

// onlyDirectLR: apart from the leading self references of LR rules, nothing is
// left recursive, and the base alternatives come last.
func (g *Gram) onlyDirectLR() bool {
	var rules []*Rule
	for _, r := range g.Rules {
		nr := *r
		if r.LR {
			var alts []*E
			for _, a := range r.Body.Kids {
				if a.K == KSeq && a.Kids[0].K == KRef && a.Kids[0].S == r.Name {
					// the tail must not come back at the same position either
					continue
				}
				alts = append(alts, a)
			}
			if len(alts) == 0 {
				return false
			}
			nr.Body = Cho(alts...)
		}
		rules = append(rules, &nr)
	}
	return !NewGram(rules...).leftRecursive()
}

func runC04(c *Ctx) {
	g, a := genLR(c.r)
	c.desc = g.String()
	b, err := g.build(nil)
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	c.count("grammars", 1)
	texts := g.texts(c.r, a, 12, 12)
	if c.r.Intn(3) == 0 {
		texts = append(texts, g.lrText(c.r, a, 4+c.r.Intn(12)), g.lrText(c.r, a, 10+c.r.Intn(60)))
	} else {
		texts = append(texts, g.lrText(c.r, a, 2+c.r.Intn(5)))
	}
	if c.r.Intn(50) == 0 {
		texts = append(texts, g.lrText(c.r, a, 300+c.r.Intn(3000)))
	}
	for _, t := range texts {
		checkLR(c, g, b, t)
	}
}

// lrText samples base (tail)* for the left-recursive rules
func (g *Gram) lrText(r *rand.Rand, a []rune, grow int) string {
	s := &sampler{g: g, r: r, a: a, fuel: 60 + 12*grow, grow: grow}
	s.expr(g.Rules[0].Body, 0)
	if g.Rules[0].LR {
		s.b.Reset()
		s.expr(Ref(g.Rules[0].Name), 0)
	}
	return s.b.String()
}

func checkLR(c *Ctx, g *Gram, b *Built, t string) {
	ref := g.runRef(t, 400000+1000*len(t), refCB)
	if ref.err != nil {
		c.count("skipped: reference out of fuel", 1)
		return
	}
	c.desc = fmt.Sprintf("%stext: %q", g.String(), t)
	o := b.parse(t)
	c.count("parses", 1)
	c.eval(g.String()+"\x00"+t, ref.rf.maxGrow >= 2)
	if ref.rf.maxGrow > 0 {
		c.count("parses with growth", 1)
	}
	c.max("rounds of growth", ref.rf.maxGrow)
	want := "no match"
	if ref.ok {
		want = "ok " + ref.v.String()
		c.count("matched", 1)
	}
	got := "no match"
	switch o.Kind {
	case "panic":
		c.fail("parsing panicked", "%s", o.Err)
	case "ok":
		got = o.String()
	case "nil":
		if t != "" {
			c.fail("a parse which failed gave nothing instead of an error", "")
		}
	}
	if got != want {
		c.fail("left recursion: wrong result", "expected %s\ngot      %s", want, got)
	}
	if c.wantSample() && ref.ok && ref.rf.maxGrow > 2 && strings.Count(t, "") > 5 {
		c.sample("%stext %q -> %s", g.String(), t, o.V)
	}
}
