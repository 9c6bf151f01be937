package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register(&Prop{ID: "C07", Quick: 37000, Thorough: 550000, Run: runC07,
		Rule: "A case is a random grammar without left recursion whose rules have parse functions that wrap, pass on, refuse (return nothing) or return native values; the invocations recorded during each parse (rule, end of the match, argument, as a multiset) and the outcome and value are compared with those of the reference. Then the parse function is made to panic at a random invocation with a random kind of value, which must come out unchanged, and the grammar must give the same result afterwards; the three signatures are compared. Non-trivial: at least 3 invocations, or a refusal; distinct by grammar and text."})
}

func cbEvents(evs []*Event) []string {
	s := []string{}
	for _, e := range evs {
		s = append(s, fmt.Sprintf("%s ending at %d with %s", e.Rule, e.End, e.Arg))
	}
	sort.Strings(s)
	return s
}

func diffLists(want, got []string) string {
	m := map[string]int{}
	for _, w := range want {
		m[w]++
	}
	for _, g := range got {
		m[g]--
	}
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		if m[k] > 0 {
			fmt.Fprintf(&b, "  missing (%d): %s\n", m[k], k)
		} else if m[k] < 0 {
			fmt.Fprintf(&b, "  not expected (%d): %s\n", -m[k], k)
		}
	}
	return b.String()
}

type boom struct{ n int }

func runC07(c *Ctx) {
	p := newProf(c.r, c.r.Intn(3) == 0)
	if c.r.Intn(3) == 0 {
		p.ops[KCho] = true
	}
	g := genGram(c.r, p)
	for _, r := range g.Rules {
		if c.r.Intn(5) > 0 && !g.merged(r.Name) {
			r.CB = pick(c.r, []int{cbNode, cbNode, cbNode, cbNil, cbNil, cbPass, cbStr, cbInt, cbUndef, cbArr, cbMap, cbErr})
		}
	}
	c.desc = g.String()
	b, err := g.build(nil)
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	c.count("grammars", 1)
	// the same laid out as a tree of lines, where ranks have parse functions
	var lay *Built
	layDesc := ""
	if c.r.Intn(3) == 0 {
		l := &layouter{c: c, g: g, placed: map[string]bool{}}
		ls := l.layout()
		dress := c.r.Intn(2) == 0
		var sb strings.Builder
		for _, x := range ls {
			if dress {
				x.dressUp(c.r)
			}
			x.describe("", &sb)
		}
		layDesc = sb.String()
		c.desc = g.String() + "laid out as\n" + layDesc
		lay, err = buildLines(func(m *Monitor) []j.Line {
			var a []j.Line
			for _, x := range ls {
				a = append(a, x.line(m))
			}
			return a
		}, muteOpts())
		if err != nil {
			c.fail("a well-formed layout was refused", "%v", err)
		}
	}
	texts := g.texts(c.r, p.alpha, 10, p.maxlen)
	for _, t := range texts {
		c.desc = fmt.Sprintf("%stext: %q", g.String(), t)
		var want []*Event
		refused := 0
		ref := g.runRef(t, refFuel, func(r *Rule, v *V, start, end int) (*V, bool) {
			if r.CB != cbNone {
				want = append(want, &Event{Rule: r.Name, End: end, Arg: v.String(), Start: start})
			}
			o, ok := refCB(r, v, start, end)
			if !ok {
				refused++
			}
			return o, ok
		})
		if ref.err != nil {
			c.count("skipped: reference out of fuel", 1)
			continue
		}
		o := b.parse(t)
		c.eval(g.String()+"\x00"+t, len(want) >= 3 || refused > 0)
		c.count("parses", 1)
		c.count("invocations", len(want))
		c.count("refusals", refused)
		if o.Kind == "panic" {
			c.fail("parsing panicked", "%s", o.Err)
		}
		if d := diffLists(cbEvents(want), cbEvents(b.mon.Events)); d != "" {
			c.fail("parse functions were not called as the matches require", "%s", d)
		}
		if b.mon.last != nil && b.mon.last.Code.Code() != t {
			c.fail("the parse context is not that of the current parse", "its code is %q", b.mon.last.Code.Code())
		}
		if b.mon.last != nil && b.mon.last.GrammarName != "gram" {
			c.fail("the parse context is not that of the current parse", "its grammar is called %q", b.mon.last.GrammarName)
		}
		wantO := "no match"
		if ref.ok {
			wantO = "ok " + ref.v.String()
		}
		got := "no match"
		if o.Kind == "ok" {
			got = o.String()
		}
		if wantO != got {
			c.fail("what parse functions return is not what the parse gives", "expected %s\ngot      %s", wantO, got)
		}
		if lay != nil {
			u := lay.parse(t)
			got := "no match"
			if u.Kind == "ok" {
				got = u.String()
			}
			c.desc = fmt.Sprintf("%slaid out as\n%stext: %q", g.String(), layDesc, t)
			c.count("parses with ranks of lines", 1)
			if wantO != got {
				c.fail("what parse functions return is not what the parse gives", "expected %s\ngot      %s", wantO, u)
			}
			if d := diffLists(cbEvents(want), cbEvents(lay.mon.Events)); d != "" {
				c.fail("parse functions of ranks and their lines were not called as the matches require", "%s", d)
			}
			c.desc = fmt.Sprintf("%stext: %q", g.String(), t)
		}
		// fault: panic at the k-th invocation
		if n := len(want); n > 0 {
			k := 1 + c.r.Intn(n)
			kind := c.r.Intn(7)
			var thrown any
			b.mon.at, b.mon.boom = k, func(ctx *j.ParseContext) {
				switch kind {
				case 0:
					thrown = errors.New("boom")
				case 1:
					thrown = fmt.Sprintf("boom %d", k)
				case 2:
					thrown = k
				case 3:
					thrown = ctx.Error("boom")
				case 4:
					thrown = &boom{k}
				case 5:
					thrown = boom{k}
				case 6:
					var m map[string]int
					defer func() {
						thrown = recover()
						panic(thrown)
					}()
					m["x"] = 1
				}
				panic(thrown)
			}
			u := b.parse(t)
			b.mon.at, b.mon.boom = 0, nil
			c.count("panics injected", 1)
			if u.Kind != "panic" {
				c.fail("a panic of a parse function did not reach the caller", "invocation %d of %d, %T: got %s", k, n, thrown, u)
			}
			if u.Pan != thrown {
				c.fail("a panic of a parse function reached the caller changed", "invocation %d of %d: %T %v became %T %v", k, n, thrown, thrown, u.Pan, u.Pan)
			}
			again := b.parse(t)
			if again.key() != o.key() {
				c.fail("after a panic in a parse function the grammar gives another result", "before %s\nafter  %s", o, again)
			}
			if d := diffLists(cbEvents(want), cbEvents(b.mon.Events)); d != "" {
				c.fail("parse functions were not called as the matches require, after a panic", "%s", d)
			}
		}
		if c.wantSample() && len(want) > 3 && refused > 0 {
			c.sample("%stext %q: invocations %v, result %s", g.String(), t, cbEvents(want), o)
		}
	}
	if c.r.Intn(4) == 0 {
		c.signatures(g, texts)
	}
	if c.r.Intn(4) == 0 {
		c.errorValue(g, texts)
	}
	if c.r.Intn(150) == 0 {
		c.storm(b, g, texts)
	}
	if c.r.Intn(1200) == 0 {
		c.deepStorm()
	}
}

// many panics in a row, with parses in between, leave the grammar as it was
func (c *Ctx) storm(b *Built, g *Gram, texts []string) {
	type victim struct {
		t string
		o Out
		n int
	}
	var vs []victim
	for _, t := range texts {
		if len(t) > 200 || c.r.Intn(2) == 0 {
			continue
		}
		o := b.parse(t)
		if n := len(b.mon.Events); n > 0 && o.Kind != "panic" {
			vs = append(vs, victim{t, o, n})
		}
	}
	if len(vs) == 0 {
		return
	}
	for i, n := 0, 100+c.r.Intn(1500); i < n; i++ {
		v := pick(c.r, vs)
		k := 1 + c.r.Intn(v.n)
		thrown := &boom{i}
		b.mon.at, b.mon.boom = k, func(ctx *j.ParseContext) { panic(thrown) }
		c.desc = fmt.Sprintf("%stext: %q, panicking at invocation %d, after %d panics", g.String(), v.t, k, i)
		u := b.parse(v.t)
		b.mon.at, b.mon.boom = 0, nil
		c.count("panics injected in storms", 1)
		if u.Kind != "panic" || u.Pan != any(thrown) {
			c.fail("a panic of a parse function did not reach the caller", "got %s", u)
		}
		if i%50 == 49 || i == n-1 {
			w := pick(c.r, vs)
			c.desc = fmt.Sprintf("%stext: %q, after %d panics", g.String(), w.t, i+1)
			if again := b.parse(w.t); again.key() != w.o.key() {
				c.fail("after a panic in a parse function the grammar gives another result", "before %s\nafter  %s", w.o, again)
			}
		}
	}
}

// the same with panics raised deep within the grammar
func (c *Ctx) deepStorm() {
	depth, n := 200+c.r.Intn(2000), 100+c.r.Intn(300)
	body := pick(c.r, []string{"'(' S ')' | X", "X | '(' S ')'", "'(' l:S ')' | X", "'(' S* ')' | X", "'(' S? ')' | X"})
	angry := true
	thrown := &boom{}
	gm := j.GrammarWithOptionsFromLines("deep", muteOpts(),
		[]j.Line{j.O(j.Named("S", body)), j.I(j.Named("X", "[x]"), func(it j.Ast) j.Ast {
			if angry {
				panic(thrown)
			}
			return j.NewNativeInt(1)
		})})
	t := strings.Repeat("(", depth) + "x" + strings.Repeat(")", depth)
	once := func() (v j.Ast, pan any) {
		defer func() { pan = recover() }()
		return gm.ParseString(t), nil
	}
	angry = false
	ref, pan := once()
	c.desc = fmt.Sprintf("o S: %s\ni X: [x], panicking\ntext: %d times ( then x then )", body, depth)
	if pan != nil || j.IsParseError(ref) {
		c.fail("a text of the language is refused", "%v %v", pan, ref)
	}
	want := conv(ref).String()
	angry = true
	for i := 0; i < n; i++ {
		if _, pan := once(); pan != any(thrown) {
			c.fail("a panic of a parse function reached the caller changed", "after %d: %T %v", i, pan, pan)
		}
		c.count("panics injected deep within", 1)
	}
	angry = false
	ref, pan = once()
	if pan != nil || conv(ref).String() != want {
		c.fail("after a panic in a parse function the grammar gives another result", "after %d panics: %v", n, pan)
	}
}

// the three accepted signatures
func (c *Ctx) signatures(g *Gram, texts []string) {
	type call struct {
		outs []string
		evs  [][]string
	}
	var all [3]call
	for sig := 0; sig < 3; sig++ {
		var evs []string
		body := func(r *Rule, it j.Ast) j.Ast {
			arg := conv(it).String()
			evs = append(evs, r.Name+" "+arg)
			if r.CB == cbNil && refuse(r.Name, "", 0, arg) {
				return nil
			}
			return &Node{Tag: r.Name, Arg: it}
		}
		b, err := buildLines(func(m *Monitor) []j.Line {
			var ls []j.Line
			for i, r := range g.Rules {
				r := r
				a := []any{j.Named(r.Name, r.Body.text(nil))}
				if r.CB != 0 {
					switch sig {
					case 0:
						a = append(a, func(it j.Ast) j.Ast { return body(r, it) })
					case 1:
						a = append(a, func(it j.Ast, ctx *j.ParseContext) j.Ast { return body(r, it) })
					case 2:
						a = append(a, func(it j.Ast, ctx *j.ParseContext, by j.Ast) j.Ast { return body(r, it) })
					}
				}
				if i == 0 {
					ls = append(ls, j.O(a...))
				} else {
					ls = append(ls, j.I(a...))
				}
			}
			return ls
		}, muteOpts())
		if err != nil {
			c.fail("a well-formed grammar was refused", "%v", err)
		}
		for _, t := range texts {
			evs = nil
			o := b.parse(t)
			sort.Strings(evs)
			all[sig].outs = append(all[sig].outs, o.key())
			all[sig].evs = append(all[sig].evs, evs)
		}
	}
	for i, t := range texts {
		for s := 1; s < 3; s++ {
			c.desc = fmt.Sprintf("%stext: %q", g.String(), t)
			c.count("comparisons of signatures", 1)
			if all[s].outs[i] != all[0].outs[i] {
				c.fail("the signature of the parse functions changes the result", "one argument: %s\n%d arguments: %s", all[0].outs[i], s+1, all[s].outs[i])
			}
			if d := diffLists(all[0].evs[i], all[s].evs[i]); d != "" {
				c.fail("the signature of the parse functions changes their invocations", "with %d arguments:\n%s", s+1, d)
			}
		}
	}
}

// a parse function of the entry rule may return a parse error
func (c *Ctx) errorValue(g *Gram, texts []string) {
	calls := 0
	var made j.ParseError
	b, err := buildLines(func(m *Monitor) []j.Line {
		var ls []j.Line
		ls = append(ls, j.O(j.Named("ENTRY", "("+g.Rules[0].Name+")"), func(it j.Ast, ctx *j.ParseContext) j.Ast {
			calls++
			made = ctx.Error(fmt.Sprintf("mine %d", calls))
			return made
		}))
		for i, r := range g.Rules {
			ls = append(ls, j.I(r.args(r.Body.text(nil), m, i)...))
		}
		return ls
	}, muteOpts())
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	for _, t := range texts {
		ref := g.runRef(t, refFuel, refCB)
		if ref.err != nil || !ref.ok {
			continue
		}
		c.desc = fmt.Sprintf("o ENTRY: %s, which returns a parse error\n%stext: %q", g.Rules[0].Name, g.String(), t)
		calls = 0
		o := b.parse(t)
		c.count("parse errors returned by the entry rule", 1)
		if o.Kind != "error" || o.Err != "mine 1" || calls != 1 {
			c.fail("a parse error returned by the entry rule is not the result", "got %s, after %d calls", o, calls)
		}
	}
}
