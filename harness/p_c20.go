package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register(&Prop{ID: "C20", Quick: 25000, Thorough: 500000, Run: runC20, Init: openCapture,
		Rule: "A case is a random grammar (left-recursive ones included) in a random layout of nested lines, named or not; its readiness, number of rules, printed form and table of rules (printed at once, printed while it is built, or not printed at all before it parses) are compared with what the layout and a printer of the expressions of the model say, and what it parses with what its unprinted twin parses. Non-trivial: at least 5 rules, at least one expression with two operators; distinct by layout."})
}

// row is what the table of rules must tell about a rule
type row struct{ name, content, parent string }

// show prints an expression the way grammars print them
func (e *E) show() string {
	s := ""
	if e.Label != "" {
		s = e.Label + ":"
	} else if e.K == KOpt && e.effLabel == "@" {
		s = "@:" // an optional element passes on the labels it contains
	}
	return s + e.show1()
}

func showRegexp(src string) string {
	r := []rune{}
	for _, c := range src {
		switch c {
		case '\n':
			r = append(r, '\\', 'n')
		case '\r':
			r = append(r, '\\', 'r')
		case '\t':
			r = append(r, '\\', 't')
		default:
			r = append(r, c)
		}
	}
	return "/(" + string(r) + ")/g"
}

func escapeModel(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			b.WriteString(`\t`)
		case '\a':
			b.WriteString(`\a`)
		case '\f':
			b.WriteString(`\f`)
		case '\b':
			b.WriteString(`\b`)
		case '\v':
			b.WriteString(`\v`)
		case '\\':
			b.WriteString(`\\`)
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func (e *E) show1() string {
	list := func(sep string) string {
		p := []string{}
		for _, k := range e.Kids {
			p = append(p, k.show())
		}
		return "(" + strings.Join(p, sep) + ")"
	}
	switch e.K {
	case KStr:
		return "'" + escapeModel(e.S) + "'"
	case KCls:
		return showRegexp(e.Cls.text())
	case KRex:
		return showRegexp(strings.ReplaceAll(e.S, "/", `\/`))
	case KRef:
		return e.S
	case KSeq:
		return list(" ")
	case KCho:
		return list(" | ")
	case KOpt:
		return e.Kids[0].show() + "?"
	case KNot:
		return "!" + e.Kids[0].show()
	case KLook:
		return "(?" + e.Kids[0].show() + ")"
	case KRep:
		s := e.Kids[0].show() + "*"
		if e.Join != nil {
			s += e.Join.show()
		}
		if e.Min < 0 && e.Max < 0 {
			return s
		}
		s += "{"
		if e.Min >= 0 {
			s += strconv.Itoa(e.Min)
		}
		s += ","
		if e.Max >= 0 {
			s += strconv.Itoa(e.Max)
		}
		return s + "}"
	}
	return "?"
}

// rowsOf lists the rules of some lines, and gives the names of the o lines
func rowsOf(rank string, shown string, ls []*lnode) (rows []row, names []string) {
	for _, l := range ls {
		name := l.name
		if !l.inert {
			if name == "" {
				name = fmt.Sprintf("%s[%d]", rank, len(names))
			}
			names = append(names, name)
		}
		if l.lines == nil {
			rows = append(rows, row{name, l.e.show1(), shown})
			continue
		}
		sub, subs := rowsOf(name, name, l.lines)
		rows = append(rows, sub...)
		rows = append(rows, row{name, "Rank(" + strings.Join(subs, ",") + ")", shown})
	}
	return
}

// ansiCode matches the codes put around coloured text
var ansiCode = regexp.MustCompile("\x1b\\[[0-9;]*m")

func plain(s string) string { return ansiCode.ReplaceAllString(s, "") }

// tableRow reads a row: name, id, type, y or n, label and labels, parent and
// expression (which ends the row, and can contain anything)
var tableRow = regexp.MustCompile(`^\|\s+(\S.*?)\s+(\d+)\s+(\S+)\s+([yn]) (.*)$`)

// checkTable compares a printed table with what it must tell
func (c *Ctx) checkTable(what, out, name string, want []row, entry string) {
	lines := strings.Split(plain(out), "\n")
	head := map[string]string{}
	var got []string
	for _, l := range lines {
		if m := regexp.MustCompile(`^\| (name|contentString|rules) *: (.*)$`).FindStringSubmatch(l); m != nil {
			head[m[1]] = m[2]
			continue
		}
		if tableRow.MatchString(l) {
			got = append(got, l)
		}
	}
	if head["name"] != name || head["contentString"] != entry || head["rules"] != strconv.Itoa(len(want)) {
		c.fail("the table of rules begins wrongly", "%s\nexpected name %q, content %q and %d rules:\n%s", what, name, entry, len(want), cut(plain(out), 3000))
	}
	if len(got) != len(want) {
		c.fail("the table does not list each rule once", "%s: %d rows instead of %d:\n%s", what, len(got), len(want), cut(plain(out), 3000))
	}
	byName := map[string][]row{} // a grammar and a rank may have the same name
	for _, w := range want {
		byName[w.name] = append(byName[w.name], w)
	}
	ids := map[string]bool{}
	for _, l := range got {
		m := tableRow.FindStringSubmatch(l)
		ws := byName[m[1]]
		if len(ws) == 0 {
			c.fail("the table lists a rule which does not exist, or one twice", "%s: %q", what, l)
		}
		k, best := 0, -1
		for i, w := range ws {
			if t := strings.TrimRight(w.content, " "); len(t) > best && strings.HasSuffix(strings.TrimRight(m[5], " "), " "+t) {
				k, best = i, len(t)
			}
		}
		w := ws[k]
		byName[m[1]] = append(ws[:k:k], ws[k+1:]...)
		if id, _ := strconv.Atoi(m[2]); ids[m[2]] || id >= len(want) {
			c.fail("rules are not numbered apart", "%s: %q", what, l)
		}
		ids[m[2]] = true
		rest := strings.TrimRight(m[5], " ")
		content := strings.TrimRight(w.content, " ")
		if !strings.HasSuffix(rest, " "+content) {
			c.fail("the table shows another expression than that of the rule", "%s: %q\nexpected %s", what, l, w.content)
		}
		if !strings.HasSuffix(strings.TrimRight(strings.TrimSuffix(rest, content), " "), " "+w.parent) {
			c.fail("the table does not show where the rule was given", "%s: %q\nexpected %s", what, l, w.parent)
		}
	}
}

func runC20(c *Ctx) {
	if c.r.Intn(400) == 0 {
		c.joesonRules()
		return
	}
	var g *Gram
	var alpha []rune
	switch c.r.Intn(5) {
	case 0:
		g, alpha = genLR(c.r)
	case 1:
		g, alpha = genMutual(c.r)
	default:
		p := newProf(c.r, c.r.Intn(2) == 0)
		g = genGram(c.r, p)
		alpha = p.alpha
	}
	for _, r := range g.Rules {
		if c.r.Intn(4) == 0 && !g.merged(r.Name) {
			r.CB = pick(c.r, []int{cbNode, cbNil, cbArr})
		}
	}
	l := &layouter{c: c, g: g, placed: map[string]bool{}}
	var ls []*lnode
	if c.r.Intn(4) == 0 { // flat
		for i, r := range g.Rules {
			ls = append(ls, &lnode{inert: i > 0, name: r.Name, text: r.Body.text(nil), e: r.Body, rule: r})
		}
	} else {
		if c.r.Intn(4) == 0 {
			l.st = &Style{c.r}
		}
		ls = l.layout()
	}
	// an entry rank with several alternatives, anonymous lines too
	if c.r.Intn(3) == 0 {
		for k := c.r.Intn(3); k >= 0; k-- {
			e := pick(c.r, g.Rules).Body
			n := &lnode{text: e.text(l.st), e: e}
			if c.r.Intn(3) == 0 {
				n.name = fmt.Sprintf("more%d", k)
				if c.r.Intn(8) == 0 {
					n.name = "more0" // nothing refers to it by its name
				}
			}
			at := c.r.Intn(len(ls) + 1)
			ls = append(ls[:at:at], append([]*lnode{n}, ls[at:]...)...)
		}
	}
	var sb strings.Builder
	dress := c.r.Intn(3) == 0
	for _, x := range ls {
		if dress {
			x.dressUp(c.r)
		}
		x.describe("", &sb)
	}
	c.desc = sb.String()
	mk := func(m *Monitor) []j.Line {
		var a []j.Line
		for _, x := range ls {
			a = append(a, x.line(m))
		}
		return a
	}
	name := pick(c.r, []string{"gram", "Gr", "my grammar", "_x", "gram.mar"})
	build := func(o *j.TraceOptions) *Built {
		mon := &Monitor{}
		mon.reset()
		var b *Built
		if pan, what := call(func() {
			b = &Built{j.GrammarWithOptionsFromLines(name, j.GrammarOptions{TraceOptions: o, LazyGrammar: lazyJoeson()}, mk(mon)), mon}
		}); pan {
			c.fail("a well-formed grammar was refused", "%v", what)
		}
		return b
	}
	want, names := rowsOf(name, "__grammar__", ls)
	entry := "GRAMMAR{Rank(" + strings.Join(names, ",") + ")}"
	quiet := build(j.Mute())
	printed := build(j.Mute())
	var loud *Built
	o := j.Mute()
	o.Grammar = true
	atBuild := capture(func() { loud = build(o) })

	ops := 0
	for _, w := range want {
		ops += strings.Count(w.content, "(") + strings.Count(w.content, "*")
	}
	c.eval(c.desc, len(want) >= 5 && ops >= 2)
	c.count("rules", len(want))
	c.state("layouts", c.desc)
	for i, b := range []*Built{quiet, printed, loud} {
		if !b.gm.IsReady() {
			c.fail("a grammar built from lines is not ready", "")
		}
		if n := b.gm.CountRules(); n != len(want) {
			c.fail("a grammar does not count its rules", "%d instead of %d", n, len(want))
		}
		if i > 0 {
			if s := plain(b.gm.String()); s != entry {
				c.fail("a grammar prints wrongly", "%q instead of %q", s, entry)
			}
		}
	}
	table := capture(printed.gm.PrintRules)
	c.checkTable("PrintRules", table, name, want, entry)
	if again := capture(printed.gm.PrintRules); again != table {
		c.fail("the table differs when it is printed again", "%s\nthen\n%s", table, again)
	}
	c.checkTable("trace option Grammar", atBuild, name, want, entry)
	// printing does not show in what is parsed
	for _, t := range g.texts(c.r, alpha, 4, 10) {
		c.desc = fmt.Sprintf("%stext: %q", sb.String(), t)
		a := quiet.parse(t)
		if c.r.Intn(2) == 0 {
			capture(printed.gm.PrintRules)
		}
		for i, b := range []*Built{printed, loud} {
			if u := b.parse(t); u.key() != a.key() {
				c.fail("printing a grammar changes what it parses", "[%d] printed: %s\nnot printed: %s", i, u, a)
			}
			c.count("parses compared", 1)
		}
	}
	c.desc = sb.String()
	if s := capture(printed.gm.PrintRules); s != table {
		c.fail("the table differs after parsing", "%s\nthen\n%s", table, s)
	}
	if c.r.Intn(10) == 0 {
		quiet.gm.Bomb()
		if quiet.gm.IsReady() || quiet.gm.CountRules() != 0 {
			c.fail("a destroyed grammar says it is ready", "")
		}
	}
	if c.wantSample() && len(want) > 6 && len(want) < 12 && l.nname > 0 {
		c.sample("%s%s", sb.String(), cut(plain(table), 2500))
	}
}

// joesonRules checks the grammar of grammars, which has 35 rules
func (c *Ctx) joesonRules() {
	c.desc = "the grammar of grammars"
	for _, gm := range []*j.Grammar{j.NewJoesonWithOptions(j.Mute()), j.GrammarWithOptionsFromLines(j.JoesonGrammarName, muteOpts(), j.JoesonRules())} {
		if !gm.IsReady() || gm.CountRules() != j.JoesonNbRules {
			c.fail("the grammar of grammars does not count its rules", "%d", gm.CountRules())
		}
		n := 0
		for _, l := range strings.Split(plain(capture(gm.PrintRules)), "\n") {
			if tableRow.MatchString(l) {
				n++
			}
		}
		if n != j.JoesonNbRules {
			c.fail("the table of the grammar of grammars does not list its rules", "%d", n)
		}
	}
	c.eval(c.desc, false)
	c.count("grammars of grammars", 2)
}
