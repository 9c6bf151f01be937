package main

import (
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strings"
	"unicode"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register(&Prop{ID: "C10", Quick: 10000, Thorough: 120000, Run: runC10,
		Rule: "A case is a history of 30 to 120 steps (one in sixty: up to 2600 with one build) over up to 5 random grammars (left-recursive ones and ones with parse functions included): build a grammar (again, from new or from the same lines, with the shared or an own compiler), parse a text, parse with debug output, parse with a panic injected in a parse function, parse within a parse function, parse as tokens, alter a result which is no longer needed, fail to build an ill-formed grammar. The first result of each (grammar, text) is kept; every later one must be the same in outcome, value, error and calls, and the kept results themselves are walked again at the end and must be what they were. Non-trivial: a parse repeated after at least one other step; distinct by grammar, text and the kinds of the steps between."})
}

type specC10 struct {
	g      *Gram
	lr     bool
	alpha  []rune
	lines  []j.Line
	lmon   *Monitor
	built  []*Built
	texts  []string
	first  map[string]string
	events map[string]string
	seen   map[string]int // step of the last parse
}

// dump shows everything a result shows: values and origins
func dump(a j.Ast) string {
	var b strings.Builder
	var w func(a j.Ast)
	w = func(a j.Ast) {
		if a == nil {
			b.WriteString("nil")
			return
		}
		switch x := a.(type) {
		case *Node:
			fmt.Fprintf(&b, "<%s@%d-%d ", x.Tag, x.GetOrigin().Start, x.GetOrigin().End)
			w(x.Arg)
			b.WriteString(">")
		case *j.NativeArray:
			o := x.GetOrigin()
			fmt.Fprintf(&b, "[@%d-%d,%d ", o.Start, o.End, o.Line)
			for _, e := range x.Array() {
				w(e)
				b.WriteString(",")
			}
			b.WriteString("]")
		case *j.NativeMap:
			o := x.GetOrigin()
			fmt.Fprintf(&b, "{@%d-%d,%d ", o.Start, o.End, o.Line)
			for _, k := range x.Keys() {
				b.WriteString(k + ":")
				w(x.Get(k))
				b.WriteString(",")
			}
			b.WriteString("}")
		case j.ParseError:
			b.WriteString(x.ErrorString)
		default:
			fmt.Fprintf(&b, "%T %s", a, conv(a))
		}
	}
	w(a)
	return b.String()
}

// vandalize alters a result in place
func vandalize(a j.Ast) {
	switch x := a.(type) {
	case *Node:
		vandalize(x.Arg)
		x.Tag, x.Arg = "vandal", nil
	case *j.NativeArray:
		for _, e := range x.Array() {
			vandalize(e)
		}
		for i := range x.Array() {
			x.Array()[i] = j.NewNativeString("vandal")
		}
		x.Append(j.NewNativeString("vandal"))
	case *j.NativeMap:
		for _, k := range x.Keys() {
			vandalize(x.Get(k))
			x.Set(k, j.NewNativeString("vandal"))
		}
		x.Set("vandal", j.NewNativeInt(6))
	}
}

var devNull, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)

// quietly runs f with standard output discarded
func quietly(f func()) {
	old := os.Stdout
	os.Stdout = devNull
	defer func() { os.Stdout = old }()
	f()
}

// one-to-one tokens of a text, cut at random
func cutTokens(c *Ctx, t string) *j.TokenStream {
	toks := []j.Token{}
	for i := 0; i < len(t); {
		k := i + 1 + c.r.Intn(4)
		if k > len(t) {
			k = len(t)
		}
		toks = append(toks, j.Token{Repr: t[i:k], OriginalOffset: i, WorkOffset: i})
		i = k
	}
	return j.NewTokenStream(t, toks)
}

func (s *specC10) build(c *Ctx) string {
	var b *Built
	var err error
	how := c.r.Intn(4)
	switch {
	case how == 0:
		// the very same lines
		if s.lines == nil {
			s.lmon = &Monitor{}
			s.lmon.reset()
			s.lines = s.g.lines(s.lmon, nil)
		}
		b, err = buildLines(func(*Monitor) []j.Line { return s.lines }, muteOpts())
		if b != nil {
			b.mon = s.lmon
		}
	case how == 1 && c.r.Intn(4) == 0:
		b, err = buildLines(func(m *Monitor) []j.Line { return s.g.lines(m, nil) }, j.GrammarOptions{TraceOptions: j.Mute()})
		c.count("grammars built with a compiler of their own", 1)
	default:
		b, err = s.g.build(nil)
	}
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	c.count("grammars built", 1)
	if len(s.built) < 3 {
		s.built = append(s.built, b)
	} else {
		s.built[c.r.Intn(3)] = b
	}
	return "build"
}

// twin gives a copy of g which differs by a detail or two
func (g *Gram) twin(r *rand.Rand, a []rune) *Gram {
	var rules []*Rule
	var leaves []*E
	for _, x := range g.Rules {
		n := *x
		n.Body = x.Body.clone()
		n.Body.walk(func(e *E) {
			if e.K == KStr && e.S != "" || e.K == KCls || e.K == KRex || e.K == KRep {
				leaves = append(leaves, e)
			}
		})
		rules = append(rules, &n)
	}
	alter := func(s string) string {
		x := []rune(s)
		i := r.Intn(len(x))
		switch r.Intn(4) {
		case 0:
			return string(x[:i+1]) + string(x[i]) + string(x[i+1:])
		case 1:
			if len(x) > 1 {
				return string(x[:i]) + string(x[i+1:])
			}
		case 2:
			x[i] = pick(r, []rune{unicode.ToUpper(x[i]), unicode.ToLower(x[i])})
			return string(x)
		}
		x[i] = pick(r, a)
		return string(x)
	}
	for k := 1 + r.Intn(2); k > 0 && len(leaves) > 0; k-- {
		switch e := pick(r, leaves); e.K {
		case KStr:
			e.S = alter(e.S)
		case KCls:
			c := *e.Cls
			e.Cls = &c
			if r.Intn(2) == 0 {
				c.Neg = !c.Neg
			} else {
				x := pick(r, a)
				c.Ranges = append(append([][2]rune{}, c.Ranges...), [2]rune{x, x})
			}
		case KRex:
			// another regular expression which differs little
			s := alter(e.S)
			if _, err := regexp.Compile(s); err == nil && !strings.Contains(s, "/") {
				e.S, e.rex = s, nil
			}
		case KRep:
			if e.Join == nil && e.Min <= 0 && e.Max < 0 {
				e.Min = 1 - max(e.Min, 0)
			}
		}
	}
	t := NewGram(rules...)
	t.annotate()
	return t
}

func runC10(c *Ctx) {
	var specs []*specC10
	steps := 30 + c.r.Intn(90)
	ngram := 1 + c.r.Intn(5)
	if c.r.Intn(60) == 0 { // a long life
		steps, ngram = 600+c.r.Intn(2000), 1
		c.count("long histories", 1)
	}
	for i := ngram; i > 0; i-- {
		var g *Gram
		var a []rune
		switch x := c.r.Intn(7); {
		case x == 0:
			g, a = genLR(c.r)
		case x < 3 && len(specs) > 0:
			old := pick(c.r, specs)
			g, a = old.g.twin(c.r, old.alpha), old.alpha
			if g.leftRecursive() && !old.g.leftRecursive() {
				continue
			}
			c.count("grammars which differ little from another one", 1)
		default:
			p := newProf(c.r, c.r.Intn(2) == 0)
			g, a = genGram(c.r, p), p.alpha
			for _, r := range g.Rules {
				if c.r.Intn(3) == 0 && !g.merged(r.Name) {
					r.CB = pick(c.r, []int{cbNode, cbNode, cbNil, cbPass, cbArr, cbMap, cbUndef, cbErr})
				}
			}
		}
		s := &specC10{g: g, lr: g.leftRecursive(), alpha: a, first: map[string]string{}, events: map[string]string{}, seen: map[string]int{}}
		s.texts = g.texts(c.r, a, 3+c.r.Intn(4), 14)
		if c.r.Intn(3) == 0 { // long texts which differ by some characters
			t := []rune(g.longText(c.r, a, 100+c.r.Intn(300)))
			if len(t) > 0 && len(t) < 1500 {
				s.texts = append(s.texts, string(t))
				for k := 1 + c.r.Intn(3); k > 0; k-- {
					u := append([]rune{}, t...)
					at := c.r.Intn(len(u))
					if c.r.Intn(2) == 0 {
						at = len(u) - 1 - c.r.Intn(min(3, len(u)))
					}
					u[at] = pick(c.r, a)
					if string(u) != string(t) {
						s.texts = append(s.texts, string(u))
					}
				}
			}
		}
		if len(s.texts) > 1 && c.r.Intn(2) == 0 {
			// another text as long as one of them
			t := []rune(pick(c.r, s.texts))
			for k := range t {
				if c.r.Intn(3) == 0 {
					t[k] = pick(c.r, a)
				}
			}
			s.texts = append(s.texts, string(t))
		}
		specs = append(specs, s)
	}
	var hist []string
	log := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	describe := func() {
		var b strings.Builder
		for i, s := range specs {
			fmt.Fprintf(&b, "grammar %d:\n%s", i, s.g)
		}
		b.WriteString("history:\n")
		h := hist
		if len(h) > 150 {
			fmt.Fprintf(&b, "  (%d steps before)\n", len(h)-150)
			h = h[len(h)-150:]
		}
		for _, h := range h {
			b.WriteString("  " + h + "\n")
		}
		c.desc = b.String()
	}
	type kept struct {
		ast  j.Ast
		was  string
		what string
	}
	var keep []kept
	kinds := map[string]bool{}
	for step := 0; step < steps; step++ {
		i := c.r.Intn(len(specs))
		s := specs[i]
		if len(s.built) == 0 || steps < 200 && c.r.Intn(12) == 0 {
			log("build grammar %d", i)
			describe()
			s.build(c)
			kinds["build"] = true
			continue
		}
		bi := c.r.Intn(len(s.built))
		b := s.built[bi]
		if len(s.texts) == 0 {
			continue
		}
		t := pick(c.r, s.texts)
		checkOf := func(s *specC10, i int, b *Built, t, how string, o Out, events bool) {
			describe()
			k := o.key()
			ev := strings.Join(cbEvents(b.mon.Events), "\n")
			if was, ok := s.first[t]; ok {
				gap := step - s.seen[t]
				ks := sortedKeys(kinds)
				c.eval(s.g.String()+"\x00"+t+fmt.Sprint(ks), gap > 1)
				c.count("repeated parses", 1)
				if was != k {
					c.fail("the same text gives another result later", "grammar %d, text %q %s\nfirst %s\nnow   %s", i, t, how, was, k)
				}
				if events {
					if ew, ok := s.events[t]; ok && ew != ev {
						c.fail("the same text leads to other calls of parse functions later", "grammar %d, text %q %s\nfirst %s\nnow   %s", i, t, how, ew, ev)
					}
				}
			} else {
				if !s.lr {
					// what a lone parse gives
					if ref := s.g.runRef(t, refFuel, refCB); ref.err == nil {
						want := "no match"
						if ref.ok {
							want = "ok " + ref.v.String()
						}
						got := "no match"
						if o.Kind == "ok" {
							got = "ok " + o.V.String()
						}
						c.count("first results compared with the reference", 1)
						if got != want {
							c.fail("a text does not give what a lone parse gives", "grammar %d, text %q %s\nexpected %s\ngot %s", i, t, how, want, o)
						}
					}
				}
				s.first[t] = k
			}
			if events {
				s.events[t] = ev
			}
			s.seen[t] = step
			c.count("outcome "+o.Kind, 1)
		}
		check := func(how string, o Out, events bool) { checkOf(s, i, b, t, how, o, events) }
		switch x := c.r.Intn(22); {
		case x < 11:
			log("parse %q with grammar %d.%d", t, i, bi)
			o := b.parse(t)
			if o.Kind == "panic" {
				describe()
				c.fail("parsing panicked", "%s", o.Err)
			}
			check("", o, true)
			if o.Ast != nil && len(keep) < 40 {
				keep = append(keep, kept{o.Ast, dump(o.Ast), fmt.Sprintf("grammar %d.%d, text %q, step %d", i, bi, t, step)})
			}
		case x < 13: // debug output
			log("parse %q with grammar %d.%d, debug", t, i, bi)
			var o Out
			quietly(func() { o = b.parse(t, j.Debug{Bool: true}) })
			check("with debug", o, true)
			kinds["debug"] = true
			c.count("debug parses", 1)
		case x < 15: // a panic in a parse function
			k := 1 + c.r.Intn(4)
			log("parse %q with grammar %d.%d, panic at call %d", t, i, bi, k)
			b.mon.at, b.mon.boom = k, func(*j.ParseContext) { panic("boom") }
			o := b.parse(t)
			b.mon.at, b.mon.boom = 0, nil
			if o.Kind == "panic" {
				kinds["panic"] = true
				c.count("panics injected", 1)
				if o.Pan != "boom" {
					describe()
					c.fail("parsing panicked", "%s", o.Err)
				}
			}
		case x < 17: // tokens
			if t == "" {
				continue
			}
			log("parse %q as tokens with grammar %d.%d", t, i, bi)
			ts := cutTokens(c, t)
			b.mon.reset()
			o := runParse(func() j.Ast { return b.gm.ParseTokens(ts) })
			if o.Kind != "error" {
				check("as tokens", o, true)
			} else if was, ok := s.first[t]; ok && !strings.HasPrefix(was, "error") {
				describe()
				c.fail("the same text gives another result later", "grammar %d, text %q as tokens\nfirst %s\nnow   %s", i, t, was, o)
			}
			c.count("token parses", 1)
			kinds["tokens"] = true
		case x < 18: // alter a result
			log("parse %q with grammar %d.%d and alter the result", t, i, bi)
			o := b.parse(t)
			check("", o, true)
			if o.Kind == "ok" {
				vandalize(o.Ast)
				c.count("results altered by their owner", 1)
				kinds["alter"] = true
			}
		case x < 19: // print it, count its rules
			log("print grammar %d.%d", i, bi)
			_ = b.gm.String()
			quietly(b.gm.PrintRules)
			kinds["print"] = true
		case x < 21: // a parse within a parse
			i2 := c.r.Intn(len(specs))
			s2 := specs[i2]
			if len(s2.built) == 0 || len(s2.texts) == 0 {
				continue
			}
			b2, t2 := pick(c.r, s2.built), pick(c.r, s2.texts)
			again := c.r.Intn(3) == 0
			k := 1 + c.r.Intn(3)
			log("parse %q with grammar %d.%d; at call %d parse %q with grammar %d", t, i, bi, k, t2, i2)
			var inner []Out
			b.mon.at, b.mon.boom = k, func(*j.ParseContext) {
				was := *b2.mon
				b2.mon.at = 0
				if again { // the very place
					inner = append(inner, b2.parse(t2))
				}
				inner = append(inner, b2.parse(t2))
				*b2.mon = was
			}
			o := b.parse(t)
			b.mon.at, b.mon.boom = 0, nil
			if o.Kind == "panic" {
				describe()
				c.fail("parsing panicked", "%s", o.Err)
			}
			check("around another parse", o, true)
			for _, in := range inner {
				checkOf(s2, i2, b2, t2, "within another parse", in, false)
				c.count("parses within a parse", 1)
				kinds["within"] = true
			}
		default: // an ill-formed grammar, an undefined rule
			bad := pick(c.r, badRules)
			log("build with the rule %q", bad)
			func() {
				defer func() { recover() }()
				gm := j.GrammarWithOptionsFromLines("bad", muteOpts(), []j.Line{j.O(j.Named("S", bad))})
				gm.ParseString(t)
			}()
			kinds["ill-formed"] = true
			c.count("ill-formed grammars", 1)
		}
	}
	describe()
	for _, k := range keep {
		c.count("kept results compared at the end", 1)
		if now := dump(k.ast); now != k.was {
			c.fail("a result was altered by what happened later", "%s\nwas %s\nis  %s", k.what, k.was, now)
		}
	}
	c.state("histories", strings.Join(hist, "\n"))
	if c.wantSample() {
		c.sample("%s", c.desc)
	}
}
