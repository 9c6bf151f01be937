package main

import (
	"fmt"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register(&Prop{ID: "C23", Quick: 90000, Thorough: 900000, Run: runC23,
		Rule: "A case is a random rule text, compiled on its own, and walked: with Pre, with Post, with both, stopping at random nodes; the visits (node as printed, depth, father) are compared with the expression the text was written from. Every fourth case walks a whole grammar in a random layout instead, which must reach each of its rules, and parse afterwards what its unwalked twin parses. Non-trivial: an expression of at least 4 parts, or a grammar of at least 4 rules; distinct by text or layout."})
}

type visit struct {
	post   bool
	shown  string
	depth  int
	father string
}

func (v visit) String() string {
	k := "pre "
	if v.post {
		k = "post"
	}
	return fmt.Sprintf("%s%s %s (in %s)", strings.Repeat("  ", v.depth), k, v.shown, v.father)
}

// visits lists what walking e must call. stop tells by the number of the
// visit which nodes are not to be entered.
func (e *E) visits(stop map[int]bool) (out []visit) {
	n := 0
	var walk func(e *E, d int, father string)
	walk = func(e *E, d int, father string) {
		me := e.show()
		out = append(out, visit{false, me, d, father})
		n++
		if stop[n-1] {
			return
		}
		for _, k := range e.Kids {
			walk(k, d+1, me)
		}
		if e.Join != nil {
			walk(e.Join, d+1, me)
		}
		out = append(out, visit{true, me, d, father})
	}
	walk(e, 0, "none")
	return
}

func showVisits(vs []visit, post, pre bool) string {
	var b strings.Builder
	for _, v := range vs {
		if v.post && post || !v.post && pre {
			b.WriteString(v.String() + "\n")
		}
	}
	return b.String()
}

func runC23(c *Ctx) {
	if c.r.Intn(4) == 0 {
		c.walkGrammar()
		return
	}
	p := newProf(c.r, c.r.Intn(2) == 0)
	g := genGram(c.r, p)
	e := pick(c.r, g.Rules).Body.clone()
	size := 0
	e.walk(func(x *E) { x.effLabel = ""; size++ })
	var st *Style
	if c.r.Intn(3) == 0 {
		st = &Style{c.r}
	}
	text := e.text(st)
	c.desc = fmt.Sprintf("rule text: %q (%s)", text, e.show())
	root := compiled(text).(j.Parser)
	printed := plain(j.String(root))
	if printed != e.show() {
		c.fail("a compiled expression does not print as what was written", "%s", printed)
	}
	c.eval(text, size >= 4)
	var others []j.Parser
	if c.r.Intn(4) == 0 {
		others = append(others, compiled("'father'").(j.Parser))
	}
	for k := 0; k < 5; k++ {
		stop := map[int]bool{}
		if k > 1 {
			for i := c.r.Intn(4); i > 0; i-- {
				stop[c.r.Intn(size)] = true
			}
		}
		pre, post := k != 2, k != 3
		if !pre {
			stop = map[int]bool{}
		}
		var got []visit
		var open []j.Parser
		number := 0
		first := j.Parser(nil)
		if len(others) > 0 {
			first = others[0]
		}
		see := func(isPost bool, node, parent j.Parser, depth int) {
			father := "none"
			if depth > 0 {
				father = plain(j.String(parent))
				if pre && open[depth-1] != parent {
					c.fail("a walk gives another father than the node it came from", "%s in %s", node, parent)
				}
			} else if parent != first {
				c.fail("a walk does not give the father it was given", "%v", parent)
			}
			got = append(got, visit{isPost, plain(j.String(node)), depth, father})
		}
		w := j.WalkPrepost{}
		if pre {
			w.Pre = func(node, parent j.Parser) string {
				if j.IsUndefined(node) { // stands for a join which is not there
					return ""
				}
				see(false, node, parent, len(open))
				n := number
				number++
				if stop[n] {
					return "__stop__"
				}
				open = append(open, node)
				return pick(c.r, []string{"", "", "stop", "continue"})
			}
		}
		if post {
			w.Post = func(node, parent j.Parser) string {
				if j.IsUndefined(node) {
					return ""
				}
				if pre {
					if len(open) == 0 || open[len(open)-1] != node {
						c.fail("a walk leaves a node it is not in", "%s", node)
					}
					open = open[:len(open)-1]
					see(true, node, parent, len(open))
				} else { // without Pre depths are not known
					got = append(got, visit{post: true, shown: plain(j.String(node))})
				}
				return pick(c.r, []string{"", "", "stop", "__stop__"})
			}
		} else {
			// depths need leaving: only the order is looked at
			w.Pre = func(node, parent j.Parser) string {
				if j.IsUndefined(node) {
					return ""
				}
				got = append(got, visit{shown: plain(j.String(node))})
				n := number
				number++
				if stop[n] {
					return "__stop__"
				}
				return ""
			}
		}
		back := j.Walk(root, first, w)
		want := e.visits(stop)
		if !pre || !post {
			for i := range want {
				want[i].depth, want[i].father = 0, ""
			}
		}
		c.count("visits", len(got))
		c.count("walks", 1)
		if a, b := showVisits(want, post, pre), showVisits(got, true, true); a != b {
			c.fail("a walk does not visit the expression as it is written", "stopping at %v, pre %v, post %v, expected\n%sgot\n%s", stop, pre, post, a, b)
		}
		if back != root {
			c.fail("a walk does not give back where it started", "%v", back)
		}
	}
	if s := plain(j.String(root)); s != printed {
		c.fail("walking an expression changes it", "%s became %s", printed, s)
	}
	if c.wantSample() && size > 5 && size < 10 {
		c.sample("%s:\n%s", c.desc, showVisits(e.visits(nil), true, true))
	}
}

func (c *Ctx) walkGrammar() {
	var g *Gram
	var alpha []rune
	if c.r.Intn(3) == 0 {
		g, alpha = genLR(c.r)
	} else {
		p := newProf(c.r, c.r.Intn(2) == 0)
		g = genGram(c.r, p)
		alpha = p.alpha
	}
	l := &layouter{c: c, g: g, placed: map[string]bool{}}
	ls := l.layout()
	var sb strings.Builder
	for _, x := range ls {
		if c.r.Intn(3) == 0 {
			x.dressUp(c.r)
		}
		x.describe("", &sb)
	}
	c.desc = sb.String()
	build := func() *Built {
		b, err := buildLines(func(m *Monitor) []j.Line {
			var a []j.Line
			for _, x := range ls {
				a = append(a, x.line(m))
			}
			return a
		}, muteOpts())
		if err != nil {
			c.fail("a well-formed layout was refused", "%v", err)
		}
		return b
	}
	a, b := build(), build()
	rows, _ := rowsOf("gram", "__grammar__", ls)
	c.eval(c.desc, len(rows) >= 4)
	c.count("grammars walked", 1)
	walk := func() {
		rules := map[string]bool{}
		var open []j.Parser
		j.Walk(b.gm, nil, j.WalkPrepost{
			Pre: func(node, parent j.Parser) string {
				if len(open) == 0 && parent != nil || len(open) > 0 && open[len(open)-1] != parent {
					c.fail("a walk gives another father than the node it came from", "%s in %v", node, parent)
				}
				open = append(open, node)
				if j.IsRule(node) {
					// name: expression
					rules[plain(j.String(node))] = true
				}
				c.count("visits", 1)
				return ""
			},
			Post: func(node, parent j.Parser) string {
				if len(open) == 0 || open[len(open)-1] != node {
					c.fail("a walk leaves a node it is not in", "%s", node)
				}
				open = open[:len(open)-1]
				return ""
			},
		})
		want := map[string]bool{}
		for _, r := range rows {
			want[r.name+": "+r.content] = true
		}
		for w := range want {
			if !rules[w] {
				c.fail("a walk does not reach a rule", "%s\nreached: %q", w, sortedKeys(rules))
			}
		}
		for w := range rules {
			if !want[w] {
				c.fail("a walk meets a rule which is not in the grammar", "%s\nrules: %q", w, sortedKeys(want))
			}
		}
	}
	walk()
	for _, t := range g.texts(c.r, alpha, 4, 10) {
		c.desc = fmt.Sprintf("%stext: %q", sb.String(), t)
		if x, y := a.parse(t), b.parse(t); x.key() != y.key() {
			c.fail("walking a grammar changes what it parses", "not walked: %s\nwalked: %s", x, y)
		}
		if c.r.Intn(3) == 0 {
			walk()
		}
		c.count("parses compared", 1)
	}
	if b.gm.CountRules() != len(rows) || b.gm.String() != a.gm.String() {
		c.fail("walking a grammar changes it", "%d rules, %s", b.gm.CountRules(), b.gm)
	}
}
