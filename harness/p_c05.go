package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

func init() {
	register(&Prop{ID: "C05", Quick: 130000, Thorough: 1000000, Run: runC05,
		Rule: "A case is a grammar of 2 to 9 rules which refer to each other (and possibly themselves) through their leading element, one rule being on each cycle and the only one used from outside, at any position; outcome and value are compared with an interpreter which grows a seed per active rule and position and memoizes nothing, and for pure cycles with the equivalent iteration. Non-trivial: that rule grew at least twice at some position; distinct by grammar and text."})
}

// ---- naive interpreter: seeds, no memo

type seedVal struct {
	ok   bool
	end  int
	v    *V
	used bool
}

type naive struct {
	*Ref_
	seeds map[memoKey]*seedVal
	grown int
}

func (g *Gram) runNaive(text string, fuel int) (res refRes, nv *naive) {
	rf := &Ref_{g: g, text: text, fuel: fuel, cb: refCB, tried: map[memoKey]int{}, succ: map[memoKey]memoVal{}}
	nv = &naive{Ref_: rf, seeds: map[memoKey]*seedVal{}}
	rf.ruleFn = nv.rule
	defer func() {
		if e := recover(); e != nil {
			if e == errFuel {
				res = refRes{err: errFuel, rf: rf}
				return
			}
			panic(e)
		}
	}()
	ok, end, v := nv.rule(g.Rules[0], 0)
	return refRes{ok: ok && end == len(text), part: ok, end: end, v: v, rf: rf}, nv
}

func (nv *naive) rule(r *Rule, pos int) (bool, int, *V) {
	nv.burn()
	key := memoKey{r.Name, pos}
	if s := nv.seeds[key]; s != nil {
		s.used = true
		return s.ok, s.end, s.v
	}
	s := &seedVal{end: pos}
	nv.seeds[key] = s
	defer delete(nv.seeds, key)
	once := func() (bool, int, *V) {
		ok, end, v := nv.eval(r.Body, pos)
		if ok && nv.cb != nil {
			v, ok = nv.cb(r, v, pos, end)
		}
		if !ok {
			return false, pos, nil
		}
		return ok, end, v
	}
	ok, end, v := once()
	if !ok || !s.used {
		return ok, end, v
	}
	for rounds := 1; ; rounds++ {
		s.ok, s.end, s.v = true, end, v
		ok2, end2, v2 := once()
		if !ok2 || end2 <= end {
			return true, end, v
		}
		end, v = end2, v2
		if rounds > nv.grown {
			nv.grown = rounds
		}
	}
}

func genMutual(r *rand.Rand) (*Gram, []rune) {
	n := 2 + r.Intn(3)
	if r.Intn(4) == 0 {
		n = 4 + r.Intn(6)
	}
	alpha := []rune("abcdexyz")[:3+r.Intn(6)]
	names := []string{"A", "B", "C", "D", "E", "F", "G", "H", "K"}[:n]
	ring := r.Intn(4) == 0 // each rule leads to the next one most of the time
	lab := r.Intn(3) == 0
	term := func() *E { return Str(string(pick(r, alpha))) }
	var rules []*Rule
	for i := 0; i < n; i++ {
		i := i
		lead := func() *E {
			if ring && r.Intn(5) > 0 {
				return Ref(names[(i+1)%n])
			}
			return Ref(pick(r, names))
		}
		var alts []*E
		na := 1 + r.Intn(3)
		if ring && r.Intn(2) == 0 {
			na = 1
		}
		for k := 0; k < na; k++ {
			var s *E
			switch x := r.Intn(8); {
			case x < 5:
				s = Seq(lead(), term())
				if r.Intn(4) == 0 {
					s.Kids = append(s.Kids, term())
				}
			case x < 6:
				s = lead()
			case x < 7:
				s = Seq(lead(), Opt(term()), term())
			default:
				s = Seq(lead(), pick(r, []*E{Str("("), term()}), Ref("A"), Str(")"))
				if r.Intn(3) == 0 {
					s.Kids = s.Kids[:3]
				}
			}
			if s.K == KSeq && lab {
				labelSome(r, s.Kids)
			}
			alts = append(alts, s)
		}
		if i == 0 || r.Intn(3) == 0 && !(ring && r.Intn(3) > 0) {
			alts = append(alts, term())
		}
		ru := &Rule{Name: names[i], Body: Cho(alts...)}
		if len(alts) == 1 {
			ru.Body = alts[0]
		}
		if r.Intn(3) == 0 {
			ru.CB = cbNode
		}
		rules = append(rules, ru)
	}
	if r.Intn(3) == 0 { // reached from elsewhere, at any position
		var body *E
		switch r.Intn(5) {
		case 0:
			body = Seq(Ref("A"), Opt(Str(";")))
		case 1:
			body = Rep(Ref("A"), -1, -1)
			body.Join = Str(";")
		case 2:
			body = Cho(Seq(Ref("A"), Str("?")), Seq(Ref("A"), Str(";"), Ref("A")), Ref("A"))
		case 3:
			body = Seq(Look(Ref("A")), Ref("A"), Rep(Seq(Str(";"), Ref("A")), -1, -1))
		case 4:
			body = Seq(Opt(Str(";")), Not(Seq(Ref("A"), Str("?"))), Ref("A"))
		}
		rules = append([]*Rule{{Name: "S", Body: body}}, rules...)
		alpha = append([]rune(";?()"), alpha...)
	}
	g := NewGram(rules...)
	if !g.cyclesThroughEntry() {
		return genMutual(r)
	}
	g.chain(r, 12)
	g.fill(r)
	g.annotate()
	return g, alpha
}

// cyclesThroughEntry: without rule A nothing is left recursive
func (g *Gram) cyclesThroughEntry() bool {
	var rules []*Rule
	for _, r := range g.Rules {
		nr := *r
		if r.Name == "A" {
			nr.Body = Str("#")
		}
		rules = append(rules, &nr)
	}
	return !NewGram(rules...).leftRecursive()
}

func runC05(c *Ctx) {
	g, a := genMutual(c.r)
	c.desc = g.String()
	b, err := g.build(nil)
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	seen := map[string]bool{}
	for i := 0; i < 16; i++ {
		n := 1 + c.r.Intn(9)
		if c.r.Intn(12) == 0 {
			n = 10 + c.r.Intn(50)
		}
		t := g.growText(c.r, a, n)
		if g.Rules[0].Name == "S" {
			for k := c.r.Intn(3); k > 0; k-- {
				t += pick(c.r, []string{";", ";", "?", ""}) + g.growText(c.r, a, 1+c.r.Intn(6))
			}
		}
		if c.r.Intn(5) == 0 {
			t = mutate(c.r, t, a)
		}
		if seen[t] {
			continue
		}
		seen[t] = true
		checkMutual(c, g, b, t)
	}
}

// growText walks the grammar from the leading elements up
func (g *Gram) growText(r *rand.Rand, a []rune, n int) string {
	s := &sampler{g: g, r: r, a: a, fuel: 20 + 8*n}
	var walk func(name string, d int)
	walk = func(name string, d int) {
		alts := []*E{g.byName[name].Body}
		if alts[0].K == KCho {
			alts = alts[0].Kids
		}
		e := pick(r, alts)
		if d <= 0 { // prefer a way out
			l := append([]*E{}, alts...)
			sort.SliceStable(l, func(i, j int) bool { return l[i].K == KStr && l[j].K != KStr })
			e = l[0]
			if d < -6 {
				return
			}
		}
		for e != nil {
			switch {
			case e.K == KRef:
				if strings.HasPrefix(e.S, "Chain") {
					d++
				}
				walk(e.S, d-1)
			case e.K == KSeq && e.Kids[0].K == KRef:
				walk(e.Kids[0].S, d-1)
				for _, k := range e.Kids[1:] {
					s.expr(k, 3)
				}
			default:
				s.expr(e, 3)
			}
			return
		}
	}
	walk("A", n)
	return s.b.String()
}

func checkMutual(c *Ctx, g *Gram, b *Built, t string) {
	ref, nv := g.runNaive(t, 60000)
	if ref.err != nil {
		c.count("skipped: reference out of fuel", 1)
		return
	}
	c.desc = fmt.Sprintf("%stext: %q", g.String(), t)
	o := b.parse(t)
	c.count("parses", 1)
	c.eval(g.String()+"\x00"+t, nv.grown >= 2)
	want := "no match"
	if ref.ok {
		want = "ok " + ref.v.String()
		c.count("matched", 1)
	}
	got := "no match"
	switch o.Kind {
	case "panic":
		c.fail("parsing panicked", "%s", o.Err)
	case "ok":
		got = o.String()
	}
	if got != want {
		c.fail("mutual left recursion: wrong result", "expected %s\ngot      %s", want, got)
	}
	if c.wantSample() && ref.ok && nv.grown > 2 {
		c.sample("%stext %q -> %s", g.String(), t, o.V)
	}
}
