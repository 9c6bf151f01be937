package main

import "fmt"

func init() {
	register(&Prop{ID: "C02", Quick: 150000, Thorough: 1200000, Run: runC02,
		Rule: "A case is a random grammar (labels, merges @, optionals, underscored rules, repetitions with joins, switched on and off per case) and up to 14 texts sampled from its language; when the reference interpreter matches the whole text, the value of the parse, written out structurally with map keys in order, is compared with the reference value. Non-trivial: the text is matched and the value is not a bare string or undefined; distinct by grammar and text."})
}

func runC02(c *Ctx) {
	p := newProf(c.r, c.r.Intn(5) > 0)
	g := genGram(c.r, p)
	if c.r.Intn(4) == 0 {
		for _, r := range g.Rules {
			// values of rules on their own, made visible by a wrapper
			if c.r.Intn(3) == 0 && !g.merged(r.Name) {
				r.CB = cbNode
			}
		}
	}
	c.desc = g.String()
	var ts []string
	for _, t := range g.texts(c.r, p.alpha, 14, p.maxlen) {
		ts = append(ts, t)
	}
	if c.r.Intn(30) == 0 {
		n := pick(c.r, []int{60, 400, 3000})
		if t := g.longText(c.r, p.alpha, n); len(t) < 4*n {
			ts = append(ts, t)
			c.max("length of a text", len(t))
		}
	}
	var b *Built
	for _, t := range ts {
		ref := g.runRef(t, refFuel, refCB)
		if ref.err != nil || !ref.ok {
			continue
		}
		if b == nil {
			var err error
			if b, err = g.build(nil); err != nil {
				c.fail("a well-formed grammar was refused", "%v", err)
			}
			c.count("grammars", 1)
		}
		c.desc = fmt.Sprintf("%stext: %q", g.String(), t)
		o := b.parse(t)
		c.count("parses", 1)
		want := "ok " + ref.v.String()
		c.eval(g.String()+"\x00"+t, ref.v.K != VStr && ref.v.K != VUndef)
		c.count("value "+string(ref.v.K), 1)
		if o.Kind == "nil" && t == "" {
			c.fail("wrong value", "expected %s\ngot nothing", want)
		}
		if got := o.String(); got != want {
			c.fail("wrong value", "expected %s\ngot      %s", want, got)
		}
		c.state("shapes", shape(ref.v))
		if c.wantSample() && len(t) > 3 && ref.v.K == VMap {
			c.sample("%stext %q -> %s", g.String(), t, o.V)
		}
	}
}

// merged tells whether a rule is the target of a merge
func (g *Gram) merged(name string) bool {
	found := false
	for _, r := range g.Rules {
		r.Body.walk(func(e *E) {
			if e.K == KRef && e.S == name && e.Label == "@" {
				found = true
			}
		})
	}
	return found
}

// shape of a value: kinds and keys without the strings
func shape(v *V) string {
	s := string(v.K)
	for i, e := range v.Elems {
		if v.K == VMap {
			s += v.Keys[i] + ":"
		}
		s += shape(e)
	}
	return s + "."
}
