package main

import (
	"fmt"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register(&Prop{ID: "C03", Quick: 20000, Thorough: 500000, Run: runC03,
		Rule: "A case is a random or hand-made (exponential without memoization) grammar without left recursion. Each rule begins with a reference to an unmemoized rule matching nothing, whose parse function records every evaluation of the rule, also of those which fail: at most one is allowed per rule and position. In grammars with directly left-recursive rules, deeply nested texts included, such a rule is allowed one evaluation more for each round in which it grows, and one to see that it does not grow any more. The same grammar with memoization off for a random subset of its rules must give the same outcome and value. Non-trivial: some rule was tried again at a position where it had been evaluated (a memo hit in the reference); distinct by grammar and text."})
}

// withProbes gives a grammar in which rule R begins with _P_<i>
func withProbes(g *Gram) (*Gram, map[string]string) {
	names := map[string]string{}
	var rules, probes []*Rule
	for i, r := range g.Rules {
		pn := fmt.Sprintf("_P_%d", i)
		names[pn] = r.Name
		b := r.Body.clone()
		if b.K == KSeq && b.Label == "" {
			b.Kids = append([]*E{Ref(pn)}, b.Kids...)
		} else {
			b = Seq(Ref(pn), b)
		}
		nr := *r
		nr.Body = b
		rules = append(rules, &nr)
		probes = append(probes, &Rule{Name: pn, Body: Str(""), Skip: true, CB: cbProbe})
	}
	ng := NewGram(append(rules, probes...)...)
	return ng, names
}

func expoGram(c *Ctx) (*Gram, string) {
	n := 10 + c.r.Intn(60)
	if c.r.Intn(40) == 0 {
		// rules which match thousands of bytes, tried again by each alternative
		k := 2000 + c.r.Intn(12000)
		x := pick(c.r, []string{"a", "ab", "a世", "a\n"})
		t := strings.Repeat(x, k/len(x))
		ends := []string{"x", "y", "z"}
		c.r.Shuffle(3, func(i, j int) { ends[i], ends[j] = ends[j], ends[i] })
		a := Rep(Ref("C"), -1, -1)
		if c.r.Intn(2) == 0 {
			a = &E{K: KRex, S: "[ab世\n]*"}
		}
		s := Cho()
		for _, e := range ends {
			s.Kids = append(s.Kids, Seq(Ref("B"), Str(e)))
		}
		s.Kids = append(s.Kids, Seq(Ref("A"), Rep(Seq(Str("("), Ref("S"), Str(")")), -1, -1)))
		c.count("texts of thousands of bytes", 1)
		return NewGram(
			&Rule{Name: "S", Body: s},
			&Rule{Name: "B", Body: Cho(Seq(Ref("A"), Str("=")), Ref("A"))},
			&Rule{Name: "A", Body: a},
			&Rule{Name: "C", Body: Cls([2]rune{'a', 'b'}, [2]rune{'世', '世'}, [2]rune{'\n', '\n'})}), t + pick(c.r, append(ends, "", "=x", "(a)"))
	}
	switch c.r.Intn(5) {
	case 0: // S: 'a' S 'b' | 'a' S 'c' | 'a'
		t := ""
		for i := 0; i < n; i++ {
			t += "a"
		}
		u := ""
		for i := 0; i < n-1; i++ {
			u += pick(c.r, []string{"b", "c", "c"})
		}
		return NewGram(&Rule{Name: "S", Body: Cho(Seq(Str("a"), Ref("S"), Str("b")), Seq(Str("a"), Ref("S"), Str("c")), Str("a"))}), t + u
	case 1: // nested parentheses with several readings
		m := 1 + c.r.Intn(4)
		names := []string{}
		for i := 0; i <= m; i++ {
			names = append(names, fmt.Sprintf("L%d", i))
		}
		var rules []*Rule
		for i := 0; i < m; i++ {
			rules = append(rules, &Rule{Name: names[i], Body: Cho(Seq(Ref(names[i+1]), Str("+"), Ref(names[i])), Seq(Ref(names[i+1]), Str("-"), Ref(names[i])), Ref(names[i+1]))})
		}
		rules = append(rules, &Rule{Name: names[m], Body: Cho(Seq(Str("("), Ref(names[0]), Str(")")), Str("x"))})
		t := ""
		for i := 0; i < n/2; i++ {
			t += "("
		}
		t += "x"
		for i := 0; i < n/2; i++ {
			if c.r.Intn(3) == 0 {
				t += pick(c.r, []string{"+x", "-x"})
			}
			t += ")"
		}
		return NewGram(rules...), t
	case 2: // the same thing looked at again and again
		t := ""
		for i := 0; i < n; i++ {
			t += pick(c.r, []string{"a", "b"})
		}
		t += pick(c.r, []string{"", "", "d"})
		return NewGram(
			&Rule{Name: "S", Body: Cho(Seq(Ref("A"), Str("c")), Seq(Ref("A"), Str("d")), Ref("A"))},
			&Rule{Name: "A", Body: Cho(Seq(Look(Ref("B")), Ref("B"), Ref("A")), Seq(Not(Seq(Ref("B"), Str("z"))), Ref("B"), Ref("A")), Ref("B"))},
			&Rule{Name: "B", Body: Cls([2]rune{'a', 'b'})}), t
	case 3: // optional and repetition over the same rule, failing late
		t := ""
		for i := 0; i < n; i++ {
			t += "ab"
		}
		return NewGram(
			&Rule{Name: "S", Body: Cho(Seq(Ref("L"), Str("!")), Seq(Opt(Ref("L")), Str("?")), Rep(Ref("X"), -1, -1))},
			&Rule{Name: "L", Body: Seq(Ref("X"), Opt(Ref("L")), Opt(Ref("L")))},
			&Rule{Name: "X", Body: Cho(Seq(Ref("Y"), Str("c")), Seq(Ref("Y"), Str("b")))},
			&Rule{Name: "Y", Body: Str("a")}), t
	}
	t := ""
	for i := 0; i < n; i++ {
		t += pick(c.r, []string{"a", "a", "b", "世"})
	}
	return NewGram(
		&Rule{Name: "S", Body: Cho(Seq(Ref("T"), Ref("S"), Str("x")), Seq(Ref("T"), Ref("S")), Ref("T"))},
		&Rule{Name: "T", Body: Cho(Seq(Ref("U"), Str("b")), Ref("U"), Str("b"))},
		&Rule{Name: "U", Body: Cho(Str("a"), Str("世"))}), t
}

func runC03(c *Ctx) {
	var g *Gram
	var texts []string
	nmax := 10
	if c.r.Intn(4) == 0 {
		c.memoLR()
		return
	}
	if c.r.Intn(4) == 0 {
		var t string
		g, t = expoGram(c)
		for _, r := range g.Rules {
			if c.r.Intn(2) == 0 {
				r.CB = cbNode
			}
		}
		texts = []string{t, mutate(c.r, t, []rune("abcx()+"))}
	} else {
		p := newProf(c.r, c.r.Intn(3) == 0)
		g = genGram(c.r, p)
		for _, r := range g.Rules {
			if c.r.Intn(4) == 0 && !g.merged(r.Name) {
				r.CB = pick(c.r, []int{cbNode, cbNode, cbNil})
			}
		}
		texts = g.texts(c.r, p.alpha, nmax, p.maxlen)
		if c.r.Intn(3) == 0 {
			texts = append(texts, g.longText(c.r, p.alpha, 30+c.r.Intn(200)))
		}
	}
	g.annotate()
	pg, probe := withProbes(g)
	pg.annotate()
	c.desc = pg.String()
	b, err := pg.build(nil)
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	// unmemoized variants
	var vs []*Gram
	var vb []*Built
	var lays []string
	for k := 0; k < 2; k++ {
		v := &Gram{}
		for _, r := range g.Rules {
			nr := *r
			nr.Skip = k == 0 || c.r.Intn(2) == 0
			v.Rules = append(v.Rules, &nr)
		}
		v.index()
		v.annotate()
		// as ranks of lines, compiled beforehand, and so on
		l := &layouter{c: c, g: v, placed: map[string]bool{}}
		var ls []*lnode
		var sb strings.Builder
		if c.r.Intn(3) == 0 {
			ls = l.layout()
			for _, n := range ls {
				n.dressUp(c.r)
				n.skipOthers()
				n.describe("", &sb)
			}
		}
		x, err := buildLines(func(m *Monitor) []j.Line {
			if ls == nil {
				return v.lines(m, nil)
			}
			var a []j.Line
			for _, n := range ls {
				a = append(a, n.line(m))
			}
			return a
		}, muteOpts())
		lays = append(lays, sb.String())
		if err != nil {
			c.fail("a well-formed grammar was refused", "with memoization off for some rules: %s%v", v.String(), err)
		}
		vs, vb = append(vs, v), append(vb, x)
	}
	pb, err := g.build(nil)
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	c.count("grammars", 1)
	for _, t := range texts {
		c.desc = fmt.Sprintf("%stext: %q", pg.String(), t)
		ref := g.runRef(t, 400000, refCB)
		if ref.err != nil {
			c.count("skipped: reference out of fuel", 1)
			continue
		}
		bound := len(pg.Rules) * (len(t) + 1)
		b.mon.limit = 2*bound + 64
		o := b.parse(t)
		if o.Kind == "panic" && o.Pan == errMonitorLimit {
			c.fail("rules are evaluated again and again at the same positions", "more than %d parse functions ran, with %d rules and %d positions", b.mon.limit, len(g.Rules), len(t)+1)
		}
		if o.Kind == "panic" {
			c.fail("parsing panicked", "%s", o.Err)
		}
		c.count("parses", 1)
		seen := map[memoKey]int{}
		for _, ev := range b.mon.Events {
			rn := probe[ev.Rule]
			if rn == "" {
				continue
			}
			k := memoKey{rn, ev.End}
			seen[k]++
			if seen[k] > 1 {
				c.fail("a rule was evaluated twice at the same position", "rule %s at %d", rn, ev.End)
			}
		}
		// parse functions: at most once per rule and start
		cb := map[memoKey]int{}
		for _, ev := range b.mon.Events {
			if probe[ev.Rule] == "" && ev.Start >= 0 {
				k := memoKey{ev.Rule, ev.Start}
				cb[k]++
				if cb[k] > 1 {
					c.fail("a parse function ran twice for the same position", "rule %s at %d", ev.Rule, ev.Start)
				}
			}
		}
		c.count("rule evaluations observed", len(seen))
		c.count("memo hits in the reference", ref.rf.hits)
		c.eval(g.String()+"\x00"+t, ref.rf.hits > 0)
		base := pb.parse(t)
		for k, v := range vs {
			var want []*Event
			rv := v.runRefNoMemo(t, 60000, func(r *Rule, x *V, start, end int) (*V, bool) {
				if r.CB != cbNone {
					want = append(want, &Event{Rule: r.Name, End: end, Arg: x.String(), Start: start})
				}
				return refCB(r, x, start, end)
			})
			if rv.err != nil {
				c.count("skipped: unmemoized work too large", 1)
				continue
			}
			u := vb[k].parse(t)
			c.count("parses with memoization off for some rules", 1)
			c.count("calls with memoization off for some rules", len(want))
			if d := diffLists(cbEvents(want), cbEvents(vb[k].mon.Events)); d != "" {
				c.fail("a rule whose memoization is off is not evaluated each time it is tried, or another one is", "%s%s%s", v.String(), lays[k], d)
			}
			if u.key() != base.key() && !(u.Kind == "error" && base.Kind == "error") {
				c.fail("turning memoization off changes the result", "%s%s\nmemoized   %s\nunmemoized %s", v.String(), lays[k], base, u)
			}
		}
		if c.wantSample() && ref.rf.hits > 5 {
			c.sample("%stext %q: %d rule evaluations, %d hits in the reference", g.String(), t, len(seen), ref.rf.hits)
		}
	}
}

func (g *Gram) runRefNoMemo(text string, fuel int, cb CBFunc) (res refRes) {
	rf := &Ref_{g: g, text: text, memo: map[memoKey]*memoVal{}, fuel: fuel, cb: cb,
		tried: map[memoKey]int{}, succ: map[memoKey]memoVal{}, noMemo: true}
	defer func() {
		if e := recover(); e != nil {
			if e == errFuel {
				res = refRes{err: errFuel, rf: rf}
				return
			}
			panic(e)
		}
	}()
	ok, end, v := rf.rule(g.Rules[0], 0)
	return refRes{ok: ok && end == len(text), part: ok, end: end, v: v, rf: rf}
}

// memoLR counts evaluations in grammars with directly left-recursive rules
func (c *Ctx) memoLR() {
	g, alpha := genLR(c.r)
	long := 0
	if c.r.Intn(8) == 0 {
		// long chains, tried again at the same place by each alternative
		long = 30 + c.r.Intn(120)
		if first := g.Rules[0]; first.LR {
			g = NewGram(append([]*Rule{{Name: "Retry", Body: Cho(Seq(Ref(first.Name), Str("?")), Seq(Ref(first.Name), Str("!")), Ref(first.Name))}}, g.Rules...)...)
		}
	}
	names := map[string]string{}
	var rules, probes []*Rule
	for i, r := range g.Rules {
		pn := fmt.Sprintf("_P_%d", i)
		names[pn] = r.Name
		nr := *r
		probe := &Rule{Name: pn, Body: Str(""), Skip: true, CB: cbProbe}
		b := r.Body.clone()
		if r.LR {
			b.Kids = append([]*E{Ref(pn)}, b.Kids...)
			probe.CB = cbNever
		} else {
			b = Seq(Ref(pn), b)
		}
		nr.Body = b
		rules = append(rules, &nr)
		probes = append(probes, probe)
	}
	pg := NewGram(append(rules, probes...)...)
	pg.annotate()
	c.desc = pg.String()
	b, err := pg.build(nil)
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	c.count("grammars with left recursion", 1)
	texts := append(g.texts(c.r, alpha, 6, 14), g.lrText(c.r, alpha, 4+c.r.Intn(12)))
	if long > 0 {
		texts = append(texts, g.lrText(c.r, alpha, long))
	}
	// deeply nested, and not closed as it should be
	n := 5 + c.r.Intn(20)
	for _, pair := range []string{"()", "[]"} {
		t := ""
		for i := 0; i < n; i++ {
			t += pair[:1]
		}
		x := string(pick(c.r, alpha))
		t += x
		for i := 0; i < n; i++ {
			if c.r.Intn(6) == 0 {
				t += pick(c.r, []string{"+", "-", "*"}) + x
			}
			t += pair[1:]
		}
		texts = append(texts, t, mutate(c.r, t, alpha))
	}
	for _, t := range texts {
		c.desc = fmt.Sprintf("%stext: %q", pg.String(), t)
		ref := g.runRef(t, 400000, refCB)
		if ref.err != nil {
			c.count("skipped: reference out of fuel", 1)
			continue
		}
		b.mon.limit = 40*len(pg.Rules)*(len(t)+2) + 1000
		o := b.parse(t)
		if o.Kind == "panic" && o.Pan == errMonitorLimit {
			c.fail("rules are evaluated again and again at the same positions", "more than %d parse functions ran, with %d rules and %d positions", b.mon.limit, len(g.Rules), len(t)+1)
		}
		if o.Kind == "panic" {
			c.fail("parsing panicked", "%s", o.Err)
		}
		seen := map[memoKey]int{}
		for _, ev := range b.mon.Events {
			rn := names[ev.Rule]
			if rn == "" {
				continue
			}
			k := memoKey{rn, ev.End}
			seen[k]++
			max := 1
			if rounds, grew := ref.rf.grow[k]; grew {
				max = rounds + 2
			}
			if seen[k] > max {
				c.fail("a rule was evaluated too often at the same position", "rule %s at %d: %d times (it grew %d times)", rn, ev.End, seen[k], ref.rf.grow[k])
			}
		}
		c.count("parses with left recursion", 1)
		c.max("rounds of growth", ref.rf.maxGrow)
		c.count("rule evaluations observed", len(seen))
		c.eval(g.String()+"\x00"+t, ref.rf.hits > 0)
	}
}
