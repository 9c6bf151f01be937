package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Prop{ID: "C01", Quick: 58000, Thorough: 900000, Run: runC01,
		Rule: "A case is a random grammar without left recursion (operators, alphabet, size switched on and off per case) and up to 24 texts (samples of its language, mutations, random); the outcome of each parse is compared with a reference PEG interpreter. Non-trivial: the reference evaluated at least 3 rule attempts or 8 steps on it; distinct by grammar and text."})
}

const refFuel = 60000

func runC01(c *Ctx) {
	p := newProf(c.r, c.r.Intn(3) == 0)
	g := genGram(c.r, p)
	var st *Style
	if c.r.Intn(3) == 0 {
		st = &Style{c.r}
	}
	c.desc = g.String()
	b, err := g.build(st)
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	c.count("grammars", 1)
	for _, t := range g.texts(c.r, p.alpha, 24, p.maxlen) {
		checkRecog(c, g, b, t, refFuel)
	}
	for k := 0; k < 2 && c.r.Intn(12) == 0; k++ { // long ones
		n := pick(c.r, []int{100, 400, 1500, 6000})
		if c.r.Intn(25) == 0 {
			n = 60000
		}
		n = g.fit(8*n) / 8
		t := ""
		if p.rex && c.r.Intn(2) == 0 {
			s := &sampler{g: g, r: c.r, a: p.alpha, fuel: 60, rexlong: n}
			s.expr(g.Rules[0].Body, 0)
			t = s.b.String()
		} else if c.r.Intn(2) == 0 {
			t = g.longText(c.r, p.alpha, n)
		} else { // one rune many times
			rs := []rune(g.sample(c.r, p.alpha, 40))
			if len(rs) == 0 {
				continue
			}
			i := c.r.Intn(len(rs))
			t = string(rs[:i]) + strings.Repeat(string(rs[i]), n/2+c.r.Intn(n)) + string(rs[i:])
		}
		if c.r.Intn(3) == 0 {
			t = mutate(c.r, t, p.alpha)
		}
		if len(t) < 8*n && len(t) > 60 {
			checkRecog(c, g, b, t, 20*refFuel)
			c.count("long texts", 1)
			c.max("length of a text", len(t))
		}
	}
}

func checkRecog(c *Ctx, g *Gram, b *Built, t string, fuel int) {
	ref := g.runRef(t, fuel, refCB)
	if ref.err != nil {
		c.count("skipped: reference out of fuel", 1)
		return
	}
	c.desc = fmt.Sprintf("%stext: %q", g.String(), t)
	o := b.parse(t)
	c.eval(g.String()+"\x00"+t, fuel-ref.rf.fuel >= 8)
	c.count("parses", 1)
	want := "no match"
	if ref.ok {
		want = "match"
		c.count("matched", 1)
	}
	if ref.part && !ref.ok {
		c.count("matched a prefix only", 1)
	}
	got := "no match"
	switch o.Kind {
	case "ok":
		got = "match"
	case "panic":
		c.fail("parsing panicked", "%s", o.Err)
	case "nil":
		if t != "" {
			c.fail("a parse which failed gave nothing instead of an error", "")
		}
	}
	if got != want {
		c.fail("wrong recognition", "expected %s, got %s", want, o)
	}
	if c.wantSample() && ref.ok && len(t) > 3 {
		c.sample("%stext %q -> %s", g.String(), t, o.V)
	}
	checkNoViolation2(c, g, t, ref, o)
}

func checkNoViolation2(c *Ctx, g *Gram, t string, ref refRes, o Out) {}
