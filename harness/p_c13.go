package main

// C13: rule texts mean the same through any number of bootstrap generations,
// in any layout; and they are accepted, refused and understood as an
// independent reader of the rule syntax does.

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

func init() {
	register(&Prop{ID: "C13", Quick: 14000, Thorough: 220000, Run: runC13,
		Rule: "A case is (1) a random grammar written in several equivalent ways and compiled by generations 0 to 4 of the grammar of grammars, the compiled grammars being compared on up to 8 texts; or (2) a random, mutated or ill-formed rule text, whose acceptance by every generation is compared with an independent reader of the syntax, and whose meaning with the reference interpreter running what the reader read. Non-trivial: at least two compiled grammars parsed a text, or a rule text of at least 3 characters was judged; distinct by grammar or rule text and text."})
}

// ---- independent reader of rule texts

type reader struct {
	s    string
	fuel int
	memo map[[2]int]readMemo
	odd  bool // understood, but its meaning is not one the reference has
}

type readMemo struct {
	ok  bool
	end int
	e   *E
}

type refused struct{ why string }

// readRule tells whether the syntax accepts the rule text, and what it means
func readRule(s string) (e *E, ok bool, odd bool) {
	rd := &reader{s: s, memo: map[[2]int]readMemo{}, fuel: 2000000}
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(refused); is {
				e, ok = nil, false
				return
			}
			panic(x)
		}
	}()
	good, end, x := rd.expr(0)
	if !good || end != len(s) {
		return nil, false, false
	}
	return x, true, rd.odd
}

func (rd *reader) ws(p int) int {
	for p < len(rd.s) && (rd.s[p] == ' ' || rd.s[p] == '\n') {
		p++
	}
	return p
}

func (rd *reader) lit(p int, l string) bool { return strings.HasPrefix(rd.s[p:], l) }

func (rd *reader) once(kind, p int, f func() (bool, int, *E)) (bool, int, *E) {
	k := [2]int{kind, p}
	if m, ok := rd.memo[k]; ok {
		return m.ok, m.end, m.e
	}
	rd.fuel--
	if rd.fuel < 0 {
		panic(errFuel)
	}
	ok, end, e := f()
	rd.memo[k] = readMemo{ok, end, e}
	return ok, end, e
}

func (rd *reader) expr(p int) (bool, int, *E) {
	return rd.once(0, p, func() (bool, int, *E) {
		ok, end, e := rd.choice(p)
		if !ok {
			return false, p, nil
		}
		return true, rd.ws(end), e
	})
}

func (rd *reader) pipe(p int) (bool, int) {
	q := rd.ws(p)
	if rd.lit(q, "|") {
		return true, q + 1
	}
	return false, p
}

func (rd *reader) choice(p int) (bool, int, *E) {
	q := p
	for {
		ok, end := rd.pipe(q)
		if !ok {
			break
		}
		q = end
	}
	var alts []*E
	for {
		at := q
		if len(alts) > 0 {
			ok, end := rd.pipe(at)
			if !ok {
				break
			}
			at = end
		}
		ok, end, e := rd.sequence(at)
		if !ok {
			break
		}
		alts = append(alts, e)
		q = end
	}
	if len(alts) >= 2 {
		for {
			ok, end := rd.pipe(q)
			if !ok {
				break
			}
			q = end
		}
		return true, q, Cho(alts...)
	}
	return rd.sequence(p)
}

func (rd *reader) sequence(p int) (bool, int, *E) {
	return rd.once(1, p, func() (bool, int, *E) {
		var units []*E
		q := p
		for {
			ok, end, e := rd.labeled(rd.ws(q))
			if !ok {
				break
			}
			units = append(units, e)
			q = end
		}
		switch len(units) {
		case 0:
			return false, p, nil
		case 1:
			return true, q, units[0]
		}
		return true, q, Seq(units...)
	})
}

var wordRe = regexp.MustCompile(`\A[a-zA-Z._][a-zA-Z._0-9]*`)

func (rd *reader) word(p int) string { return wordRe.FindString(rd.s[p:]) }

func (rd *reader) labeled(p int) (bool, int, *E) {
	q, label := p, ""
	l := rd.word(p)
	if rd.lit(p, "&") || rd.lit(p, "@") {
		l = rd.s[p : p+1]
	}
	if l != "" && rd.lit(p+len(l), ":") {
		label = l
		q = p + len(l) + 1
	}
	ok, end, e := rd.decoratedOrPrimary(q)
	if ok {
		if label != "" {
			c := *e
			if c.Label != "" {
				rd.odd = true // a parenthesized element which has a label gets another
			}
			c.Label = label
			e = &c
		}
		return true, end, e
	}
	return rd.decoratedOrPrimary(p)
}

func (rd *reader) decoratedOrPrimary(p int) (bool, int, *E) {
	if ok, end, e := rd.deco(p); ok {
		return true, end, e
	}
	return rd.primary(p)
}

func (rd *reader) rng(p int) (bool, int, int, int) {
	if !rd.lit(p, "{") {
		return false, p, 0, 0
	}
	num := func(q int) (int, int) {
		e := q
		for e < len(rd.s) && rd.s[e] >= '0' && rd.s[e] <= '9' {
			e++
		}
		if e == q {
			return q, -1
		}
		n, err := strconv.Atoi(rd.s[q:e])
		if err != nil {
			panic(refused{"number"})
		}
		return e, n
	}
	q := rd.ws(p + 1)
	q, mn := num(q)
	q = rd.ws(q)
	if !rd.lit(q, ",") {
		return false, p, 0, 0
	}
	q = rd.ws(q + 1)
	q, mx := num(q)
	q = rd.ws(q)
	if !rd.lit(q, "}") {
		return false, p, 0, 0
	}
	return true, q + 1, mn, mx
}

func (rd *reader) join(p int) (int, *E) {
	if rd.ws(p) > p {
		return p, nil
	}
	if ok, end, e := rd.primary(p); ok {
		return end, e
	}
	return p, nil
}

func (rd *reader) deco(p int) (bool, int, *E) {
	return rd.once(2, p, func() (bool, int, *E) {
		if ok, q, e := rd.primary(p); ok {
			if rd.lit(q, "?") {
				return true, q + 1, Opt(e)
			}
			if rd.lit(q, "*") {
				end, jn := rd.join(q + 1)
				x := Rep(e, -1, -1)
				x.Join = jn
				if ok, e2, mn, mx := rd.rng(end); ok {
					end, x.Min, x.Max = e2, mn, mx
				}
				return true, end, x
			}
			if rd.lit(q, "+") {
				end, jn := rd.join(q + 1)
				x := Rep(e, 1, -1)
				x.Join = jn
				return true, end, x
			}
			if ok, end, mn, mx := rd.rng(q); ok {
				return true, end, Rep(e, mn, mx)
			}
		}
		if rd.lit(p, "!") {
			if ok, end, e := rd.primary(p + 1); ok {
				return true, end, Not(e)
			}
		}
		if rd.lit(p, "(?") {
			if ok, end, e := rd.expr(p + 2); ok && rd.lit(end, ")") {
				return true, end + 1, Look(e)
			}
		}
		if rd.lit(p, "?") {
			if ok, end, e := rd.expr(p + 1); ok {
				return true, end, Look(e)
			}
		}
		return false, p, nil
	})
}

// between reads up to the closing delimiter. keep tells whether the backslash
// of an escape is kept.
func (rd *reader) between(p int, open, shut byte, keep bool) (bool, int, string) {
	if p >= len(rd.s) || rd.s[p] != open {
		return false, p, ""
	}
	var b strings.Builder
	q := p + 1
	for q < len(rd.s) && rd.s[q] != shut {
		if rd.s[q] == '\\' && q+1 < len(rd.s) {
			_, n := utf8.DecodeRuneInString(rd.s[q+1:])
			if keep {
				b.WriteByte('\\')
			}
			b.WriteString(rd.s[q+1 : q+1+n])
			q += 1 + n
			continue
		}
		_, n := utf8.DecodeRuneInString(rd.s[q:])
		b.WriteString(rd.s[q : q+n])
		q += n
	}
	if q >= len(rd.s) {
		return false, p, ""
	}
	return true, q + 1, b.String()
}

func (rd *reader) rex(s string) *E {
	if _, err := regexp.Compile("(" + s + ")"); err != nil {
		panic(refused{"regex"})
	}
	return &E{K: KRex, S: s, rex: regexp.MustCompile(`\A(` + s + `)`)}
}

func (rd *reader) primary(p int) (bool, int, *E) {
	return rd.once(3, p, func() (bool, int, *E) {
		if w := rd.word(p); w != "" {
			q := p + len(w)
			if rd.lit(q, "(") {
				if ok, end, _ := rd.expr(q + 1); ok && rd.lit(end, ")") {
					rd.odd = true // parameter of a rule
					return true, end + 1, Ref(w)
				}
			}
			return true, q, Ref(w)
		}
		if rd.lit(p, "(") {
			q := p + 1
			if w := rd.word(q); w != "" && rd.lit(q+len(w), ": ") {
				q += len(w) + 2
			}
			if ok, end, e := rd.expr(q); ok && rd.lit(end, ")") {
				end++
				r := rd.ws(end)
				if rd.lit(r, "->") {
					r = rd.ws(r + 2)
					if ok, _, _ := rd.between(r, '{', '}', false); ok {
						panic(refused{"code"})
					}
				}
				return true, end, e
			}
			return false, p, nil
		}
		if ok, end, s := rd.between(p, '\'', '\'', false); ok {
			return true, end, Str(s)
		}
		if ok, end, s := rd.between(p, '/', '/', true); ok {
			return true, end, rd.rex(s)
		}
		if ok, end, s := rd.between(p, '[', ']', true); ok {
			return true, end, rd.rex("[" + s + "]")
		}
		return false, p, nil
	})
}

// ---- generations

func optsWith(gm *j.Grammar) j.GrammarOptions {
	return j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: helpers.LazyFromValue(gm)}
}

var generations []*j.Grammar

// gens gives some generations: 0 is compiled by hand, every other by the
// previous one.
func gens(r *rand.Rand) (out []*j.Grammar, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("building a generation panicked: %v\n%s", e, trimStack())
		}
	}()
	chain := func(n int) []*j.Grammar {
		gs := []*j.Grammar{j.NewJoesonWithOptions(j.Mute())}
		for len(gs) < n {
			gs = append(gs, j.GrammarWithOptionsFromLines(j.JoesonGrammarName, optsWith(gs[len(gs)-1]), j.IntentionRules()))
		}
		return gs
	}
	if generations == nil {
		generations = chain(5)
	}
	if r.Intn(10) == 0 {
		return chain(3 + r.Intn(2)), nil
	}
	return []*j.Grammar{generations[0], generations[1], generations[2+r.Intn(3)]}, nil
}

func runC13(c *Ctx) {
	gs, err := gens(c.r)
	if err != nil {
		c.fail("the grammar of grammars cannot be compiled by itself", "%v", err)
	}
	for i, g := range gs {
		if !g.IsReady() || g.CountRules() != j.JoesonNbRules || g.CountRules() != gs[0].CountRules() {
			c.fail("a generation of the grammar of grammars has other rules", "generation at %d: %d rules, ready %v", i, g.CountRules(), g.IsReady())
		}
		c.count("generations used", 1)
	}
	if gs[len(gs)-1].String() != gs[1].String() {
		c.fail("the grammar of grammars is not the same when compiled by itself", "%s\n%s", gs[1], gs[len(gs)-1])
	}
	if c.r.Intn(3) == 0 {
		c.writings(gs)
	} else {
		c.ruleText(gs)
	}
}

func (c *Ctx) writings(gs []*j.Grammar) {
	var g *Gram
	var alpha []rune
	maxlen := 14
	if c.r.Intn(4) == 0 {
		g, alpha = genLR(c.r)
	} else {
		p := newProf(c.r, c.r.Intn(2) == 0)
		if len(p.alpha) > 0 {
			maxlen = p.maxlen
		}
		g = genGram(c.r, p)
		alpha = p.alpha
	}
	type vers struct {
		b    *Built
		what string
		gen  int
		text string
		st   bool
	}
	var vs []vers
	desc := g.String()
	for k, gm := range gs {
		for _, styled := range []bool{false, true} {
			var ls string
			b, err := buildLines(func(m *Monitor) []j.Line {
				lines := []j.Line{}
				ls = ""
				for i, r := range g.Rules {
					var st *Style
					if styled {
						st = &Style{c.r}
					}
					t := r.Body.text(st)
					ls += fmt.Sprintf("%s: %q\n", r.Name, t)
					a := r.args(t, m, i)
					if i == 0 {
						lines = append(lines, j.O(a...))
					} else {
						lines = append(lines, j.I(a...))
					}
				}
				return lines
			}, optsWith(gm))
			what := fmt.Sprintf("written %s, compiled by generation #%d of %d", map[bool]string{false: "plainly", true: "as\n" + ls}[styled], k, len(gs))
			c.desc = desc + what
			if err != nil {
				c.fail("a well-formed grammar was refused", "%v", err)
			}
			vs = append(vs, vers{b, what, k, ls, styled})
			c.count("grammars compiled", 1)
		}
	}
	for _, v := range vs[1:] {
		if !v.st && v.b.gm.String() != vs[0].b.gm.String() {
			c.desc = desc
			c.fail("the same rule texts are understood differently by another generation", "generation #%d: %s\ninstead of: %s", v.gen, v.b.gm, vs[0].b.gm)
		}
	}
	for _, t := range g.texts(c.r, alpha, 8, maxlen) {
		if ref := g.runRef(t, refFuel/4, refCB); ref.err != nil {
			c.count("skipped: reference out of fuel", 1)
			continue
		}
		c.desc = fmt.Sprintf("%stext: %q", desc, t)
		first := vs[0].b.parse(t)
		for _, v := range vs[1:] {
			o := v.b.parse(t)
			c.count("parses compared", 1)
			if c.wantSample() && o.Kind == "ok" && v.st && len(v.text) < 300 {
				c.sample("%s%s\ntext: %q gives %s", desc, v.what, t, o)
			}
			if o.key() != first.key() {
				c.desc = fmt.Sprintf("%stext: %q\n%s", desc, t, v.what)
				c.fail("another writing or generation gives another result", "plain: %s\nother: %s", first, o)
			}
		}
		c.eval(desc+"\x00"+t, true)
		c.count("outcome "+first.Kind, 1)
	}
}

// textually, rules A and B exist besides S
func (c *Ctx) ruleText(gs []*j.Grammar) {
	var text string
	switch k := c.r.Intn(8); {
	case k == 0:
		text = pick(c.r, badRules)
	case k < 5:
		p := newProf(c.r, c.r.Intn(2) == 0)
		p.nrules = 1 + c.r.Intn(3)
		p.rex = c.r.Intn(2) == 0
		g := genGram(c.r, p)
		text = g.Rules[0].Body.text(&Style{c.r})
		if k > 2 {
			for i := c.r.Intn(2); i >= 0; i-- {
				text = mutate(c.r, text, []rune(`()[]{}'/\|*+?!:@& ,0aA-_^`+"\n\té"))
				switch c.r.Intn(4) {
				case 0: // anything
					text = mutate(c.r, text, []rune{rune(1 + c.r.Intn(126)), pick(c.r, oddRunes)})
				case 1: // an escape
					i := c.r.Intn(len(text) + 1)
					for i > 0 && i < len(text) && !utf8.RuneStart(text[i]) {
						i--
					}
					text = text[:i] + "\\" + string(rune(' '+c.r.Intn(95))) + text[i:]
				}
			}
		}
		if c.r.Intn(3) == 0 {
			text = wordRule.ReplaceAllStringFunc(text, func(string) string { return pick(c.r, []string{"A", "B", "_b"}) })
		}
	default:
		var b strings.Builder
		for i := 1 + c.r.Intn(9); i > 0; i-- {
			b.WriteString(pick(c.r, []string{"'a'", "'b'", "'ab'", "A", "B", "_b", "[a]", "[^a]", "/a/", "/b+/", "(", ")", "|", " ", " ", " ", "*", "+", "?", "!", "{1,2}", "{", "}", "{,1}", "{2,}", "{ 1 , 2 }", "{0,0}", "l:", "@:", "(?", "(x: ", ",", "'", "[", "]", "/", "->", "\\", `\'`, `'\''`, `'\\'`, `[\]]`, `/\//`, "\n", "(A)", "('a' B)", "(B | A)", "'\\é'", `'\n'`, `'\t\x'`, `'n'`, `[\n]`, `[\d]`, `[a\-c]`, `/\d/`, `/[/]/`, `/a\/?/`, `[/]`, "'\n'", "\t", "'\t'", "[\t]", "a.b", "_", ".", "A1", "1", "'", "//", "[]", "''", "[^]", "(A: B)", "(A:B)", "l:l:A", "a:'b'?", "('a'? | B)", "?A", "? 'a'", "!'a'", "!(A B)", "-", "->", "{a}", "(A) -> {x}", "*'b'", "A*B", "A*B{1,2}", "A*{1,2}", "A+B", "A{1,}B", "&:A", "'\u00e9'", "#"}))
		}
		text = b.String()
	}
	c.desc = fmt.Sprintf("rule text: %q", text)
	if text == "" {
		return // lines with an empty text are refused before any grammar reads them
	}
	e, ok, odd := func() (e *E, ok, odd bool) {
		defer func() {
			if x := recover(); x != nil && x != errFuel {
				panic(x)
			} else if x != nil {
				odd = true
				e = nil
			}
		}()
		return readRule(text)
	}()
	if e == nil && odd {
		c.count("skipped: too long to read", 1)
		return
	}
	valid := utf8.ValidString(text)
	var bs []*Built
	for k, gm := range gs {
		// as text parsed by the generation
		res := runParse(func() j.Ast { return gm.ParseString(text) })
		b, err := buildLines(func(m *Monitor) []j.Line {
			return []j.Line{j.O(j.Named("S", text)), j.I(j.Named("A", "'a'")), j.I(j.Named("B", "[b] 'c'?")), j.I(j.Named("_b", "'b'*"))}
		}, optsWith(gm))
		c.count("rule texts compiled", 1)
		if (res.Kind == "ok") != (err == nil) {
			// labels may be refused once the rules are known
			if res.Kind == "ok" && strings.ContainsAny(text, ":") {
				c.count("refused for its labels", 1)
				return
			}
			c.fail("a rule text is read but cannot be used, or the contrary", "generation #%d: read: %s, used: %v", k, res.Kind, err)
		}
		if valid && ok != (err == nil) {
			if ok {
				c.fail("a rule text which follows the syntax was refused", "generation #%d: %v", k, err)
			}
			c.fail("an ill-formed rule text was accepted", "generation #%d understood: %s", k, res.Ast)
		}
		if err == nil {
			bs = append(bs, b)
		} else {
			bs = append(bs, nil)
		}
		if (bs[0] == nil) != (b == nil) {
			c.fail("a rule text is accepted by one generation and refused by another", "generation #%d: %v", k, err)
		}
		if b != nil && b.gm.String() != bs[0].gm.String() {
			c.fail("a rule text is understood differently by another generation", "generation #%d: %s\ninstead of: %s", k, b.gm, bs[0].gm)
		}
	}
	c.eval("rule\x00"+text, len(text) > 2)
	c.count("rule texts judged", 1)
	if bs[0] == nil {
		c.count("rule texts refused", 1)
		return
	}
	g := NewGram(&Rule{Name: "S", Body: nil}, &Rule{Name: "A", Body: Str("a")}, &Rule{Name: "B", Body: Seq(Cls([2]rune{'b', 'b'}), Opt(Str("c")))}, &Rule{Name: "_b", Body: Rep(Str("b"), -1, -1)})
	known, labels := true, false
	if e != nil {
		g.Rules[0].Body = e.clone() // what is memoized by the reader may be shared
		g.Rules[0].Body.walk(func(x *E) {
			if x.K == KRef && g.byName[x.S] == nil {
				known = false
			}
			if x.Label != "" {
				labels = true
			}
			if x.Label == "&" || x.Label == "@" {
				odd = true
			}
			// a group written with one element only, labelled inside: unspecified
		})
	}
	if !known || odd || e == nil || g.leftRecursive() {
		c.count("accepted, compared between generations only", 1)
		for i := 0; i < 4; i++ {
			t := randText(c.r, []rune("abc"), 6)
			if !known || (e != nil && g.leftRecursive()) {
				break
			}
			first := bs[0].parse(t)
			for k, b := range bs[1:] {
				if o := b.parse(t); o.key() != first.key() {
					c.desc = fmt.Sprintf("rule text: %q\ntext: %q", text, t)
					c.fail("a rule text means something else in another generation", "generation #%d: %s\nfirst: %s", k+1, o, first)
				}
			}
		}
		return
	}
	g.annotate()
	c.count("meanings compared with the reader's", 1)
	alpha := []rune("abc")
	for _, t := range g.texts(c.r, alpha, 6, 8) {
		ref := g.runRef(t, refFuel/4, refCB)
		if ref.err != nil {
			continue
		}
		c.desc = fmt.Sprintf("rule text: %q (read as %s)\ntext: %q", text, g.Rules[0].Body.text(nil), t)
		for k, b := range bs {
			o := b.parse(t)
			c.count("parses compared", 1)
			c.eval("rule\x00"+text+"\x00"+t, true)
			if o.Kind == "panic" {
				c.fail("parsing with an accepted rule text panicked", "%s", o.Err)
			}
			if (o.Kind == "ok") != ref.ok {
				c.fail("a rule text does not mean what it says", "generation #%d: %s, but the text read independently: %v", k, o, ref.ok)
			}
			if ref.ok && !labels && o.V.String() != ref.v.String() {
				c.fail("a rule text does not give the value it says", "generation #%d: %s, but the text read independently: %s", k, o, ref.v)
			}
		}
	}
}

var wordRule = regexp.MustCompile(`\b[A-Z_][a-zA-Z_0-9]*\b`)
