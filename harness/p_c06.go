package main

import (
	"fmt"
	"math/rand"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register(&Prop{ID: "C06", Quick: 18000, Thorough: 350000, Run: runC06,
		Rule: "A case is a random grammar (also left-recursive ones) and 3 random layouts of it as trees of lines: choices become ranks of named or anonymous lines, consecutive alternatives become nested ranks, alternatives which are references take the definition of the rule in place, inert rules go anywhere in the tree; the content of a line is its text, or compiled beforehand, or within other lines. Outcome and value of each layout are compared with those of the flat layout, and with the reference when there is one. Non-trivial: the layout has a rank of at least two lines below the top; distinct by layout and text."})
}

// lnode is a line in a layout
type lnode struct {
	inert bool
	name  string // "" anonymous
	text  string // when there are no lines
	e     *E     // what the text means
	lines []*lnode
	rule  *Rule  // attributes (parse function) come from here
	forms string // how the content is given, see dress
	skip  bool   // memoization off
}

func (n *lnode) describe(ind string, b *strings.Builder) {
	k := "o "
	if n.inert {
		k = "i "
	}
	if n.forms != "" {
		k += "(" + n.forms + ") "
	}
	b.WriteString(ind + k)
	if n.name != "" {
		b.WriteString(n.name + ": ")
	}
	if n.lines == nil {
		fmt.Fprintf(b, "`%s`\n", n.text)
	} else {
		b.WriteString("[\n")
		for _, l := range n.lines {
			l.describe(ind+"  ", b)
		}
		b.WriteString(ind + "]\n")
	}
}

// dress gives the content of a line, and what comes after it, in one of the
// forms which mean the same. Each letter of forms is a step:
// c: compiled beforehand; o: within an O line; i: within an O line which has
// the function and options; b: the same, with a function which is replaced by
// that of the outer line; n: within an O line of that name.
func dress(forms, name string, content any, opts []any) (any, []any) {
	for _, f := range forms {
		switch f {
		case 'c':
			content = compiled(content.(string))
			continue
		case 'o':
			content = j.O(content)
		case 'i':
			content, opts = j.O(append([]any{content}, opts...)...), nil
		case 'n':
			content = j.O(j.Named(name, content))
		case 'b':
			fn := false
			for _, o := range opts {
				if _, is := o.(func(j.Ast, *j.ParseContext) j.Ast); is {
					fn = true
				}
			}
			if !fn {
				continue
			}
			content = j.O(content, func(it j.Ast) j.Ast { return nil })
		}
	}
	return content, opts
}

var compiler *j.Grammar

// compiled gives what the grammar of grammars makes of a rule text
func compiled(text string) any {
	if compiler == nil {
		compiler = j.NewJoesonWithOptions(j.Mute())
	}
	p, is := compiler.ParseString(text).(j.Parser)
	if !is {
		panic(fmt.Sprintf("not compiled: %q", text))
	}
	return p
}

func randForms(r *rand.Rand, text, named bool) (f string) {
	if text && r.Intn(3) == 0 {
		f = "c"
	}
	for n := r.Intn(3); n > 0; n-- {
		k := pick(r, []string{"o", "i", "b", "n"})
		if k == "n" && !named {
			continue
		}
		f += k
		if k == "i" {
			break
		}
	}
	return
}

func (n *lnode) line(mon *Monitor) j.Line {
	var content any = n.text
	if n.lines != nil {
		ls := []j.Line{}
		for _, l := range n.lines {
			ls = append(ls, l.line(mon))
		}
		content = j.NewALine(ls)
		if n.name != "" && n.forms == "" {
			content = ls
		}
	}
	var opts []any
	if n.rule != nil {
		if f := n.rule.callback(mon); f != nil {
			opts = append(opts, f)
		}
	}
	if n.skip || n.rule != nil && n.rule.Skip {
		opts = append(opts, j.SkipCache{Bool: true})
	}
	content, opts = dress(n.forms, n.name, content, opts)
	if n.name != "" {
		content = j.Named(n.name, content)
	}
	if n.inert {
		return j.I(append([]any{content}, opts...)...)
	}
	return j.O(append([]any{content}, opts...)...)
}

// skipOthers turns memoization off for the lines which are not rules of the
// grammar
func (n *lnode) skipOthers() {
	n.skip = n.rule == nil
	for _, l := range n.lines {
		l.skipOthers()
	}
}

// dressUp chooses the form of each line
func (n *lnode) dressUp(r *rand.Rand) {
	if r.Intn(3) == 0 {
		n.forms = randForms(r, n.lines == nil, n.name != "")
	}
	for _, l := range n.lines {
		l.dressUp(r)
	}
}

type layouter struct {
	c      *Ctx
	g      *Gram
	placed map[string]bool
	ranks  []*lnode
	libs   []*lnode // ranks which have inert lines only
	nname  int
	deep   bool
	st     *Style
}

// content fills in the text or the lines for an expression which is the whole
// of a rule
func (l *layouter) content(n *lnode, e *E, depth int) {
	r := l.c.r
	if e.K == KCho && e.Label == "" && r.Intn(4) > 0 && depth < 6 {
		l.alts(n, e.Kids, depth)
		return
	}
	if depth < 3 && r.Intn(12) == 0 && !l.g.merged(n.name) {
		// a rank with a single line
		x := &lnode{text: e.text(l.st), e: e}
		n.lines = []*lnode{x}
		l.ranks = append(l.ranks, n)
		return
	}
	n.text, n.e = e.text(l.st), e
}

func (l *layouter) alts(n *lnode, alts []*E, depth int) {
	r := l.c.r
	n.lines = []*lnode{}
	l.ranks = append(l.ranks, n)
	for i := 0; i < len(alts); {
		// a nested rank for some consecutive alternatives
		if len(alts) > 2 && r.Intn(4) == 0 {
			k := i + 1 + r.Intn(len(alts)-i)
			if k-i >= 1 && k-i < len(alts) {
				sub := &lnode{name: l.name()}
				l.alts(sub, alts[i:k], depth+1)
				n.lines = append(n.lines, sub)
				i = k
				continue
			}
		}
		x := &lnode{name: l.name()}
		a := alts[i]
		if a.K == KRef && a.Label == "" && !l.placed[a.S] && r.Intn(2) == 0 {
			// the definition itself
			l.placed[a.S] = true
			ru := l.g.byName[a.S]
			x.name, x.rule = ru.Name, ru
			l.content(x, ru.Body, depth+1)
		} else {
			l.content(x, a, depth+1)
		}
		n.lines = append(n.lines, x)
		i++
	}
}

// name for an alternative: none, or a new one
func (l *layouter) name() string {
	if l.c.r.Intn(2) == 0 {
		return ""
	}
	l.nname++
	return fmt.Sprintf("%s%d", pick(l.c.r, []string{"alt", "_alt", "Alt.", "zz"}), l.nname)
}

func (l *layouter) layout() []*lnode {
	r := l.c.r
	top := &lnode{lines: []*lnode{}}
	entry := l.g.Rules[0]
	l.placed[entry.Name] = true
	usedByName := false
	for _, x := range l.g.Rules {
		x.Body.walk(func(e *E) {
			if e.K == KRef && e.S == entry.Name {
				usedByName = true
			}
		})
	}
	if !usedByName && entry.CB == 0 && entry.Body.K == KCho && entry.Body.Label == "" && r.Intn(2) == 0 {
		l.alts(top, entry.Body.Kids, 0)
	} else {
		n := &lnode{name: entry.Name, rule: entry}
		l.content(n, entry.Body, 0)
		top.lines = append(top.lines, n)
		l.ranks = append(l.ranks, top)
	}
	for _, x := range l.g.Rules {
		if l.placed[x.Name] {
			continue
		}
		l.placed[x.Name] = true
		n := &lnode{name: x.Name, rule: x, inert: true}
		before := len(l.ranks)
		l.content(n, x.Body, 0)
		if r.Intn(6) == 0 { // in a group of inert lines
			if len(l.libs) > 0 && r.Intn(2) == 0 {
				h := pick(r, l.libs)
				h.lines = append(h.lines, n)
				continue
			}
			l.nname++
			n = &lnode{inert: true, name: fmt.Sprintf("lib%d", l.nname), lines: []*lnode{n}}
			l.libs = append(l.libs, n)
		}
		// anywhere, but not below itself
		host := top
		if before > 0 && r.Intn(3) > 0 {
			host = l.ranks[r.Intn(before)]
		}
		at := r.Intn(len(host.lines) + 1)
		host.lines = append(host.lines[:at:at], append([]*lnode{n}, host.lines[at:]...)...)
	}
	return top.lines
}

func runC06(c *Ctx) {
	var g *Gram
	var alpha []rune
	kind := c.r.Intn(4)
	switch kind {
	case 0:
		g, alpha = genLR(c.r)
	case 1:
		g, alpha = genMutual(c.r)
		for _, r := range g.Rules {
			if r.CB == cbNil {
				r.CB = 0
			}
		}
	default:
		p := newProf(c.r, c.r.Intn(2) == 0)
		p.ops[KCho] = true
		g = genGram(c.r, p)
		alpha = p.alpha
		for _, r := range g.Rules {
			if c.r.Intn(4) == 0 && !g.merged(r.Name) {
				r.CB = pick(c.r, []int{cbNode, cbNode, cbNil})
			}
		}
	}
	flat, err := g.build(nil)
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	c.count("grammars", 1)
	var texts []string
	if kind == 1 {
		for i := 0; i < 10; i++ {
			texts = append(texts, g.growText(c.r, alpha, 1+c.r.Intn(9)))
		}
	} else {
		texts = g.texts(c.r, alpha, 12, 12)
		if kind == 0 {
			texts = append(texts, g.lrText(c.r, alpha, 4), g.lrText(c.r, alpha, 8))
		}
	}
	type lay struct {
		b    *Built
		desc string
		nt   bool
	}
	var lays []lay
	for k := 0; k < 3; k++ {
		l := &layouter{c: c, g: g, placed: map[string]bool{}}
		if c.r.Intn(4) == 0 {
			l.st = &Style{c.r}
		}
		ls := l.layout()
		dress := c.r.Intn(2) == 0
		var sb strings.Builder
		for _, x := range ls {
			if dress {
				x.dressUp(c.r)
			}
			x.describe("", &sb)
		}
		c.desc = g.String() + "laid out as\n" + sb.String()
		b, err := buildLines(func(m *Monitor) []j.Line {
			var a []j.Line
			for _, x := range ls {
				a = append(a, x.line(m))
			}
			return a
		}, muteOpts())
		if err != nil {
			c.fail("a well-formed layout was refused", "%v", err)
		}
		nt := false
		for _, x := range l.ranks {
			n := 0
			for _, y := range x.lines {
				if !y.inert {
					n++
				}
			}
			if n > 1 {
				nt = true
			}
		}
		lays = append(lays, lay{b, sb.String(), nt})
		c.state("layouts", sb.String())
	}
	for _, t := range texts {
		c.desc = fmt.Sprintf("%stext: %q", g.String(), t)
		o := flat.parse(t)
		if o.Kind == "panic" {
			c.fail("parsing panicked", "%s", o.Err)
		}
		var ref refRes
		haveRef := false
		if kind != 1 {
			ref = g.runRef(t, refFuel, refCB)
			haveRef = ref.err == nil
		}
		for _, l := range lays {
			u := l.b.parse(t)
			c.count("parses with a layout", 1)
			if o.Kind == "ok" {
				c.count("matched", 1)
			}
			c.eval(l.desc+"\x00"+t, l.nt)
			if u.Kind != o.Kind || (u.Kind == "ok" && u.V.String() != o.V.String()) {
				c.fail("a layout changes the meaning of the grammar", "laid out as\n%sflat layout: %s\nthis layout: %s", l.desc, o, u)
			}
			if haveRef {
				want := "no match"
				if ref.ok {
					want = "ok " + ref.v.String()
				}
				got := "no match"
				if u.Kind == "ok" {
					got = u.String()
				}
				if want != got {
					c.fail("wrong result", "laid out as\n%sexpected %s\ngot      %s", l.desc, want, u)
				}
			}
		}
		if c.wantSample() && o.Kind == "ok" && len(t) > 3 && lays[0].nt {
			c.sample("%stext %q -> %s", lays[0].desc, t, o.V)
		}
	}
}
