package main

import (
	"fmt"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register(&Prop{ID: "C18", Quick: 90000, Thorough: 1200000, Run: runC18,
		Rule: "A case is a random grammar (directly or mutually left-recursive ones included) most of whose rules make nodes or maps, with up to 12 texts, each parsed as a string and as tokens; the start, end, line, source and rule of every node made by a parse function is compared with what the reference says the rule matched, as are nesting and order; the nodes of the first result are looked at again after the other parses. Non-trivial: a result with at least 3 such nodes; distinct by grammar and text."})
}

// spans compares the origins of the values made by parse functions. It gives
// the number compared and the first difference.
func spans(want, got *V, code string, lineOf func(end int) (int, bool)) (n int, diff string) {
	var walk func(w, g *V)
	walk = func(w, g *V) {
		if diff != "" || w == nil || g == nil {
			return
		}
		if w.Made && (w.K == VNode || w.K == VMap) {
			n++
			if g.Start != w.Start || g.End != w.End {
				diff = fmt.Sprintf("%s: expected span [%d,%d), got [%d,%d)", cut(w.String(), 200), w.Start, w.End, g.Start, g.End)
				return
			}
			if g.Code != code {
				diff = fmt.Sprintf("%s: its source is %q instead of %q", cut(w.String(), 200), cut(g.Code, 200), cut(code, 200))
				return
			}
			if w.K == VNode && g.Rule != w.S {
				diff = fmt.Sprintf("%s: said to be made by rule %q instead of %q", cut(w.String(), 200), g.Rule, w.S)
				return
			}
			if l, ok := lineOf(w.End); ok && l != g.Line {
				diff = fmt.Sprintf("%s: ends on line %d, got %d", cut(w.String(), 200), l, g.Line)
				return
			}
		}
		for i := range w.Elems {
			if i < len(g.Elems) {
				walk(w.Elems[i], g.Elems[i])
			}
		}
	}
	walk(want, got)
	return
}

// made gives the topmost nodes made by parse functions below v, in order
func made(v *V, f func(*V)) {
	for _, e := range v.Elems {
		if e.K == VNode {
			f(e)
		} else {
			made(e, f)
		}
	}
}

// nested checks that the nodes below v are within [from, to], in order and
// apart. It does not hold for nodes found by looking ahead.
func nested(v *V, from, to int) string {
	bad := ""
	at := from
	made(v, func(e *V) {
		if bad == "" && (e.Start < at || e.End > to || e.End < e.Start) {
			bad = fmt.Sprintf("%s has span [%d,%d), outside of [%d,%d)", cut(e.String(), 200), e.Start, e.End, at, to)
		}
		at = e.End
		if bad == "" {
			bad = nested(e, e.Start, e.End)
		}
	})
	return bad
}

func (g *Gram) looks() bool {
	found := false
	var walk func(e *E)
	walk = func(e *E) {
		if e == nil {
			return
		}
		found = found || e.K == KLook
		for _, k := range e.Kids {
			walk(k)
		}
		walk(e.Join)
	}
	for _, r := range g.Rules {
		walk(r.Body)
	}
	return found
}

func (g *Gram) labelled() bool {
	found := false
	var walk func(e *E)
	walk = func(e *E) {
		if e == nil {
			return
		}
		found = found || e.effLabel != ""
		for _, k := range e.Kids {
			walk(k)
		}
		walk(e.Join)
	}
	for _, r := range g.Rules {
		walk(r.Body)
	}
	return found
}

func runC18(c *Ctx) {
	var g *Gram
	var alpha []rune
	kind := "no recursion"
	switch c.r.Intn(5) {
	case 0, 1:
		g, alpha = genLR(c.r)
		kind = "left recursion"
	case 2:
		g, alpha = genMutual(c.r)
		kind = "mutual left recursion"
	default:
		p := newProf(c.r, c.r.Intn(2) == 0)
		g = genGram(c.r, p)
		alpha = p.alpha
		if c.r.Intn(2) == 0 {
			alpha = append(append([]rune{}, alpha...), '\n')
		}
	}
	for _, r := range g.Rules {
		if g.merged(r.Name) {
			continue
		}
		r.CB = cbNone
		if c.r.Intn(4) > 0 {
			r.CB = pick(c.r, []int{cbNode, cbNode, cbNode, cbNil, cbMap, cbArr, cbPass, cbPass})
			if (kind != "no recursion") && r.CB == cbNil && c.r.Intn(3) > 0 {
				r.CB = cbNode
			}
		}
	}
	c.desc = g.String()
	b, err := g.build(nil)
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	c.count("grammars, "+kind, 1)
	looks, labelled := g.looks(), g.labelled()
	texts := g.texts(c.r, alpha, 9, 16)
	switch kind {
	case "left recursion":
		texts = append(texts, g.lrText(c.r, alpha, 3), g.lrText(c.r, alpha, 4+c.r.Intn(12)))
	case "mutual left recursion":
		texts = append(texts, g.growText(c.r, alpha, 3), g.growText(c.r, alpha, 8))
	default:
		texts = append(texts, g.longText(c.r, alpha, 20+c.r.Intn(60)))
	}
	type kept struct {
		t    string
		want *V
		ast  j.Ast
		m    *streamModel
	}
	var first []kept
	for _, t := range texts {
		c.desc = fmt.Sprintf("%stext: %q", g.String(), t)
		var ref refRes
		if kind == "mutual left recursion" {
			ref, _ = g.runNaive(t, 300000)
		} else {
			ref = g.runRef(t, refFuel, refCB)
		}
		if ref.err != nil {
			c.count("skipped: reference out of fuel", 1)
			continue
		}
		for k := 0; k < 2; k++ {
			m := &streamModel{work: t, original: t, place: func(p int) (int, bool) { return p, true }}
			var o Out
			what := "string"
			if k == 0 {
				o = b.parse(t)
			} else {
				if c.r.Intn(3) > 0 || t == "" {
					continue
				}
				what = "tokens"
				original, toks := spread(c.r, t)
				if original == "" {
					original = "\n" // an origin without code is one which was not set
				}
				c.desc = fmt.Sprintf("%stext: %q\noriginal: %q\ntokens:%s", g.String(), t, original, tokText(toks))
				m = tokenModel(t, original, toks)
				b.mon.reset()
				o = runParse(func() j.Ast { return b.gm.ParseTokens(j.NewTokenStream(original, toks)) })
			}
			c.count("parses of "+what, 1)
			if !ref.ok || o.Kind != "ok" || o.V.String() != ref.v.String() {
				c.eval("", false)
				c.count("parses without a result to compare", 1)
				continue
			}
			line := func(end int) (int, bool) {
				off, known := m.place(end)
				if !known {
					return 0, false
				}
				l, _ := m.lineCol(off)
				return l, true
			}
			n, d := spans(ref.v, o.V, m.original, line)
			if d != "" {
				c.fail("the span of a node is not what its rule matched", "%s\nresult: %s", d, cut(o.V.String(), 500))
			}
			if !looks && !labelled {
				if d := nested(o.V, 0, len(t)); d != "" {
					c.fail("the spans of nodes are not nested and in order", "%s\nresult: %s", d, cut(o.V.String(), 500))
				}
				c.count("results whose nesting was checked", 1)
			}
			c.count("spans compared, "+kind, n)
			c.eval(g.String()+"\x00"+t, n >= 3)
			if n > 0 && len(first) < 4 {
				first = append(first, kept{t, ref.v, o.Ast, m})
			}
			if c.wantSample() && n >= 4 && len(t) < 30 && strings.Contains(t, "\n") {
				c.sample("%s -> %s, %d spans", c.desc, o.V, n)
			}
		}
	}
	for _, k := range first {
		k := k
		c.desc = fmt.Sprintf("%stext: %q, after parsing %q", g.String(), k.t, texts)
		_, d := spans(k.want, conv(k.ast), k.m.original, func(end int) (int, bool) {
			off, known := k.m.place(end)
			l, _ := k.m.lineCol(off)
			return l, known
		})
		if d != "" {
			c.fail("later parses changed the span of a node", "%s", d)
		}
		c.count("results looked at again", 1)
	}
}
