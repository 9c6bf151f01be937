package main

// Random grammars and texts. A profile switches operators, alphabets and
// sizes on and off per case (swarm testing), so that cases differ in kind.

import (
	"math/rand"
	"regexp/syntax"
	"strconv"
	"strings"
	"unicode/utf8"
)

type Prof struct {
	alpha   []rune
	nrules  int
	depth   int
	ops     map[Kind]bool
	labels  bool
	merge   bool // @:Rule
	joins   bool
	ranges  bool
	unders  bool // rules named _x
	rex     bool
	cbs     []int
	empties bool // '' literals
	nullrep bool
	maxlen  int
}

var alphabets = [][]rune{
	[]rune("ab"), []rune("abc"), []rune("abc"), []rune("abcd"),
	[]rune("aé世"), []rune("a😀b"), []rune("ab\n"), []rune("a \n"), []rune(`a'\`), []rune("a()|/"),
	[]rune("a[]-"), []rune("0123"), []rune("xyz*+?"), []rune("a\tb\r"), []rune("é\u0301e"), []rune("aA"), []rune("ntr"), []rune("nx0u"), []rune("dswb"), []rune("a{},1"),
}

// runes for random alphabets: some letters, any printable ASCII, what needs
// care when it is written or compared, and anything
var oddRunes = []rune("\x01\x1b\x7f\u0085\u00a0\u00ad\u0300\u2028\ufeff\ufffd\U0010ffffÿßſKıİςΣ日本")

func newAlphabet(r *rand.Rand) []rune {
	if r.Intn(4) > 0 {
		return alphabets[r.Intn(len(alphabets))]
	}
	var a []rune
	seen := map[rune]bool{}
	for n := 2 + r.Intn(4); len(a) < n; {
		var c rune
		switch r.Intn(6) {
		case 0:
			c = 'a' + rune(r.Intn(26))
		case 1, 2, 3:
			c = ' ' + rune(r.Intn(95))
		case 4:
			c = pick(r, oddRunes)
		default:
			c = rune(0x80 + r.Intn(0xd700-0x80))
		}
		if !seen[c] {
			seen[c] = true
			a = append(a, c)
		}
	}
	return a
}

func newProf(r *rand.Rand, labels bool) *Prof {
	p := &Prof{
		alpha:  newAlphabet(r),
		nrules: 1 + r.Intn(6),
		depth:  1 + r.Intn(4),
		ops:    map[Kind]bool{},
		joins:  r.Intn(2) == 0,
		ranges: r.Intn(2) == 0,
		unders: r.Intn(3) == 0,
		rex:    r.Intn(3) == 0,
		labels: labels && r.Intn(3) > 0,
		maxlen: 4 + r.Intn(12),
	}
	p.merge = p.labels && r.Intn(2) == 0
	p.empties = r.Intn(4) == 0
	p.nullrep = r.Intn(3) == 0
	for _, k := range []Kind{KSeq, KCho, KOpt, KRep, KNot, KLook} {
		p.ops[k] = r.Intn(4) > 0
	}
	for _, k := range []Kind{KNot, KLook} {
		p.ops[k] = p.ops[k] && r.Intn(2) == 0
	}
	p.ops[KSeq] = p.ops[KSeq] || r.Intn(4) > 0
	if r.Intn(12) == 0 {
		p.nrules = 10 + r.Intn(30)
		p.depth = 1 + r.Intn(2)
	}
	return p
}

type gen struct {
	r     *rand.Rand
	p     *Prof
	names []string
	cur   int
	nlab  int
}

func pick[T any](r *rand.Rand, a []T) T { return a[r.Intn(len(a))] }

func (g *gen) str() *E {
	if g.p.empties && g.r.Intn(10) == 0 {
		return Str("")
	}
	n := 1
	for n < 3 && g.r.Intn(3) == 0 {
		n++
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(pick(g.r, g.p.alpha))
	}
	return Str(b.String())
}

func (g *gen) cls() *E {
	c := &Class{}
	n := 1 + g.r.Intn(2)
	for i := 0; i < n; i++ {
		a := pick(g.r, g.p.alpha)
		b := a
		if g.r.Intn(3) == 0 {
			b = pick(g.r, g.p.alpha)
		}
		if b < a {
			a, b = b, a
		}
		c.Ranges = append(c.Ranges, [2]rune{a, b})
	}
	c.Neg = g.r.Intn(7) == 0
	return &E{K: KCls, Cls: c}
}

func quoteRex(r rune) string {
	if strings.ContainsRune(`\.+*?()|[]{}^$-`, r) {
		return `\` + string(r)
	}
	return string(r)
}

func (g *gen) rexE() *E {
	a, b := quoteRex(pick(g.r, g.p.alpha)), quoteRex(pick(g.r, g.p.alpha))
	if g.r.Intn(3) == 0 {
		return &E{K: KRex, S: g.rexS(2)}
	}
	return &E{K: KRex, S: pick(g.r, []string{
		a + "+", a + "|" + a + b, "(" + a + "|" + b + ")" + a, a + b + "?", "(?:" + a + b + ")+", `[^` + a + `]`, a + "{2}", a + "$", "^" + a + ".?",
	})}
}

func (g *gen) rexS(d int) string {
	r := g.r
	if d <= 0 || r.Intn(4) == 0 {
		switch r.Intn(8) {
		case 0:
			return pick(r, []string{".", `\d`, `\w`, `\s`, `\S`, `\D`, `[[:alpha:]]`, `\pL`, `[\x{0}-\x{10ffff}]`})
		case 1, 2:
			return "[" + pick(r, []string{"", "^"}) + quoteRex(pick(r, g.p.alpha)) + quoteRex(pick(r, g.p.alpha)) + "]"
		}
		return quoteRex(pick(r, g.p.alpha))
	}
	switch r.Intn(6) {
	case 0, 1:
		return g.rexS(d-1) + g.rexS(d-1)
	case 2:
		return "(?:" + g.rexS(d-1) + "|" + g.rexS(d-1) + ")"
	case 3:
		return pick(r, []string{"(", "(?i:", "(?s:"}) + g.rexS(d-1) + ")" + pick(r, []string{"", "", "?"})
	case 4:
		return pick(r, []string{"", "", "^", `\b`}) + g.rexS(d-1) + pick(r, []string{"", "", "$", `\b`})
	}
	return "(?:" + g.rexS(d-1) + ")" + pick(r, []string{"*", "+", "?", "{2}", "{1,3}", "*?", "+?", "{0,2}?"})
}

func (g *gen) term() *E {
	switch x := g.r.Intn(10); {
	case x < 4:
		return g.str()
	case x < 7:
		return g.cls()
	case x < 8 && g.p.rex:
		return g.rexE()
	}
	return g.refLater()
}

// reference to a later rule (cannot be left recursive)
func (g *gen) refLater() *E {
	if g.cur+1 >= len(g.names) {
		return g.str()
	}
	n := len(g.names) - g.cur - 1
	k := g.r.Intn(n)
	if g.r.Intn(2) == 0 {
		k = g.r.Intn(1 + k)
	}
	return Ref(g.names[g.cur+1+k])
}

func (g *gen) expr(d int) *E {
	if d <= 0 || g.r.Intn(6) == 0 {
		return g.term()
	}
	for i := 0; i < 20; i++ {
		k := pick(g.r, []Kind{KSeq, KSeq, KSeq, KCho, KCho, KCho, KOpt, KOpt, KRep, KRep, KRep, KNot, KLook})
		if !g.p.ops[k] {
			continue
		}
		switch k {
		case KSeq:
			return g.seq(d, false)
		case KCho:
			n := 2 + g.r.Intn(3)
			e := Cho()
			for j := 0; j < n; j++ {
				x := g.expr(d - 1)
				if x.K == KCho && x.Label == "" && g.r.Intn(2) == 0 {
					e.Kids = append(e.Kids, x.Kids...)
				} else {
					e.Kids = append(e.Kids, x)
				}
			}
			return e
		case KOpt:
			return Opt(g.expr(d - 1))
		case KRep:
			e := Rep(g.expr(d-1), -1, -1)
			switch g.r.Intn(5) {
			case 0, 1:
			case 2:
				e.Min = 1
			default:
				if g.p.ranges {
					e.Min = g.r.Intn(4) - 1
					e.Max = g.r.Intn(6) - 1
					if e.Max >= 0 && e.Max < e.Min && g.r.Intn(4) > 0 {
						e.Max = e.Min
					}
				}
			}
			if g.p.joins && g.r.Intn(2) == 0 {
				if g.r.Intn(3) == 0 {
					e.Join = g.expr(d - 1)
				} else {
					e.Join = g.term()
				}
			}
			return e
		case KNot:
			return Not(g.expr(d - 1))
		case KLook:
			return Look(g.expr(d - 1))
		}
	}
	return g.term()
}

func (g *gen) label() string {
	g.nlab++
	if g.r.Intn(150) == 0 {
		return "long" + strings.Repeat(pick(g.r, []string{"y", "Name", ".part", "_0"}), 1+g.r.Intn(60))
	}
	return pick(g.r, []string{"a", "b", "c", "foo", "x.y", "n1"})
}

func (g *gen) seq(d int, wantLabels bool) *E {
	n := 2 + g.r.Intn(3)
	e := Seq()
	lab := g.p.labels && (wantLabels || g.r.Intn(2) == 0)
	for i := 0; i < n; i++ {
		var k *E
		if i > 0 && g.r.Intn(5) == 0 && !e.nullable(map[string]bool{}) && len(e.Kids) > 0 && e.Kids[0].K == KStr && e.Kids[0].S != "" {
			k = Ref(pick(g.r, g.names)) // guarded recursion
		} else {
			k = g.expr(d - 1)
		}
		if k.Label == "" && lab && g.r.Intn(2) == 0 {
			k.Label = g.label()
		}
		e.Kids = append(e.Kids, k)
	}
	return e
}

// gram generates a grammar without left recursion.
func genGram(r *rand.Rand, p *Prof) *Gram {
	for {
		g := &gen{r: r, p: p}
		g.names = []string{"S"}
		for i := 1; i < p.nrules; i++ {
			n := string(rune('A'+(i-1)%26)) + strings.Repeat("x", (i-1)/26)
			if n == "S" {
				n = "S2"
			}
			if p.unders && r.Intn(4) == 0 {
				n = "_" + strings.ToLower(n)
			} else if r.Intn(60) == 0 {
				n += strings.Repeat(pick(r, []string{"y", "Name", ".part", "_0"}), 1+r.Intn(60))
			} else if r.Intn(15) == 0 {
				n = pick(r, []string{n + ".q", n + "._q", n + "_", "._" + n, n + "7", n + "_._", "__" + n, "__" + n + "__", "_" + n + "_", n + "__x", "___" + n})
			}
			g.names = append(g.names, n)
		}
		var rules []*Rule
		for i, n := range g.names {
			g.cur = i
			var b *E
			if p.labels && r.Intn(3) == 0 {
				b = g.seq(p.depth, true)
			} else {
				b = g.expr(p.depth)
			}
			if b.Label == "" && p.labels && r.Intn(12) == 0 {
				b.Label = g.label()
			}
			rules = append(rules, &Rule{Name: n, Body: b})
		}
		gr := NewGram(rules...)
		if p.merge {
			addMerges(gr, r)
		}
		gr.inflate(r, p.alpha)
		gr.nest(r)
		gr.chain(r, 50)
		fixLabels(gr)
		if gr.leftRecursive() {
			continue
		}
		if !p.nullrep && gr.hasNullableRep() {
			if r.Intn(10) > 0 {
				p.nullrep = true // accept it next time rather than looping for ever
				continue
			}
		}
		gr.fill(r)
		gr.annotate()
		return gr
	}
}

// fill adds rules which nothing refers to among the others, now and then, so
// that the rules which matter have high numbers
func (g *Gram) fill(r *rand.Rand) {
	if r.Intn(40) > 0 {
		return
	}
	n := 20 + r.Intn(120)
	out := []*Rule{g.Rules[0]}
	rest := g.Rules[1:]
	if len(rest) < 6 && r.Intn(10) == 0 {
		// their numbers are the same but for a power of two
		by := pick(r, []int{16, 32, 64, 64, 128, 256, 256, 256})
		k := 0
		for i, x := range rest {
			out = append(out, x)
			for n := by - 1; n > 0 && (i < len(rest)-1 || r.Intn(by) > 0); n-- {
				out = append(out, &Rule{Name: "Fill" + strconv.Itoa(k), Body: Str("f")})
				k++
			}
		}
		g.Rules = out
		g.index()
		return
	}
	for k := 0; k < n || len(rest) > 0; k++ {
		if len(rest) > 0 && r.Intn(n) <= len(rest)+1 {
			out, rest = append(out, rest[0]), rest[1:]
		}
		if k < n {
			out = append(out, &Rule{Name: "Fill" + strconv.Itoa(k), Body: Str("f")})
		}
	}
	g.Rules = out
	g.index()
}

// chain puts, now and then, up to 60 rules which only refer to the next one
// between a reference and its rule.
func (g *Gram) chain(r *rand.Rand, odds int) {
	if r.Intn(odds) > 0 || g.byName["Chain0"] != nil {
		return
	}
	var refs []*E
	for _, x := range g.Rules {
		self := x.Name
		x.Body.walk(func(e *E) {
			// (a rule which begins with itself, directly, is to stay so)
			if e.K == KRef && e.Label != "@" && e.S != self && !strings.HasPrefix(e.S, "_") {
				refs = append(refs, e)
			}
		})
	}
	if len(refs) == 0 {
		return
	}
	e := pick(r, refs)
	n := pick(r, []int{3, 10, 20, 40, 60})
	target := e.S
	e.S = "Chain0"
	for i := 0; i < n; i++ {
		next := "Chain" + strconv.Itoa(i+1)
		if i == n-1 {
			next = target
		}
		g.Rules = append(g.Rules, &Rule{Name: "Chain" + strconv.Itoa(i), Body: Ref(next)})
	}
	g.index()
}

// nest adds an entry rule which the former one may be nested in, now and then,
// and tried several times at the bottom of
func (g *Gram) nest(r *rand.Rand) {
	if r.Intn(40) > 0 || g.byName["Nest"] != nil {
		return
	}
	g.Nest = pick(r, []int{20, 70, 150, 300})
	g.Brac = pick(r, [][2]string{{"(", ")"}, {"<", ">"}, {"a", "b"}, {"", "."}, {"-", ""}, {"é", "\n"}})
	var x *E
	start := g.Rules[0].Name
	seq := func(e ...*E) *E {
		var kids []*E
		for _, k := range e {
			if k.K != KStr || k.S != "" {
				kids = append(kids, k)
			}
		}
		return Seq(kids...)
	}
	in := Ref("Nest")
	if r.Intn(4) == 0 {
		in.Label = "in"
	}
	o, e := g.Brac[0], g.Brac[1]
	if o == "" {
		o = "^"
		g.Brac[0] = o
	}
	switch r.Intn(3) {
	case 0:
		x = Cho(seq(Str(o), in, Str(e)), Seq(Ref(start), Str("1!")), Seq(Ref(start), Str("2!")), Ref(start))
	case 1:
		x = Cho(Seq(Ref(start), Str("1!")), seq(Str(o), in, Str(e)), Ref(start))
	default:
		x = Cho(seq(Str(o), in, Str(e)), Seq(Look(Ref(start)), Ref(start)), Ref(start))
	}
	g.Rules = append([]*Rule{{Name: "Nest", Body: x}}, g.Rules...)
	g.index()
}

// inflate makes a few parts of a grammar large, now and then: literals,
// bounds of repetitions, choices, sequences and classes of many elements
func (g *Gram) inflate(r *rand.Rand, a []rune) {
	if r.Intn(25) > 0 {
		return
	}
	by := map[Kind][]*E{}
	for _, x := range g.Rules {
		x.Body.walk(func(e *E) { by[e.K] = append(by[e.K], e) })
	}
	word := func(n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(pick(r, a))
		}
		return b.String()
	}
	small := func() *E {
		if r.Intn(3) == 0 {
			c := pick(r, a)
			return &E{K: KCls, Cls: &Class{Ranges: [][2]rune{{c, c}}}}
		}
		return Str(word(1 + r.Intn(4)))
	}
	many := func() int { return pick(r, []int{6, 9, 12, 17, 20, 33, 40, 66, 130, 280}) }
	for n := 1 + r.Intn(3); n > 0; n-- {
		k := pick(r, []Kind{KStr, KRep, KCho, KSeq, KCls})
		if len(by[k]) == 0 {
			continue
		}
		e := pick(r, by[k])
		g.Big = true
		switch k {
		case KStr:
			n := many()
			if r.Intn(6) == 0 {
				n *= 1 + r.Intn(12)
			}
			e.S += word(n)
		case KRep:
			e.Min, e.Max = -1, -1
			if e.Join != nil && r.Intn(3) == 0 || r.Intn(3) == 0 {
				e.Min = many()
			}
			if k := e.Kids[0].K; (k == KStr || k == KCls) && r.Intn(2) == 0 {
				e.Min = pick(r, []int{101, 128, 255, 256, 257, 300, 512, 1001, 1025, 1100})
				g.Huge = true
			}
			if r.Intn(3) > 0 {
				e.Max = many()
				if e.Max < e.Min {
					e.Max = e.Min + r.Intn(2)
				}
			}
		case KCho:
			apart := r.Intn(2) == 0 // alternatives with nothing in common
			for n := many(); n > 0; n-- {
				i := r.Intn(1 + len(e.Kids))
				x := small()
				if apart {
					x = Str("<" + strconv.Itoa(n) + ">")
				}
				e.Kids = append(e.Kids[:i:i], append([]*E{x}, e.Kids[i:]...)...)
			}
		case KSeq:
			lab := false
			for _, x := range e.Kids {
				lab = lab || x.Label != "" && x.Label != "@"
			}
			for n, j := many(), 0; j < n; j++ {
				x := small()
				if lab && r.Intn(2) == 0 {
					x.Label = "l" + strconv.Itoa(j)
				}
				i := r.Intn(1 + len(e.Kids))
				e.Kids = append(e.Kids[:i:i], append([]*E{x}, e.Kids[i:]...)...)
			}
		case KCls:
			for n := many(); n > 0; n-- {
				c := rune('0' + r.Intn(80))
				if r.Intn(3) == 0 {
					c = rune(0x4e00 + r.Intn(2000))
				}
				e.Cls.Ranges = append(e.Cls.Ranges, [2]rune{c, c + rune(r.Intn(3))})
			}
		}
	}
}

func (g *Gram) hasNullableRep() bool {
	n := g.nullable()
	bad := false
	for _, r := range g.Rules {
		r.Body.walk(func(e *E) {
			if e.K == KRep && e.Kids[0].nullable(n) {
				bad = true
			}
		})
	}
	return bad
}

// mapRules: rules whose value is always a map: sequences with a plain label
func mapRule(r *Rule) bool {
	if r.Body.K != KSeq || r.Body.Label != "" || r.CB != 0 {
		return false
	}
	for _, k := range r.Body.Kids {
		if k.Label != "" && k.Label != "@" {
			return true
		}
	}
	return false
}

func addMerges(g *Gram, r *rand.Rand) {
	var ms []string
	for _, x := range g.Rules {
		if mapRule(x) {
			ms = append(ms, x.Name)
		}
	}
	if len(ms) == 0 {
		return
	}
	if r.Intn(4) == 0 { // many labels
		m := pick(r, ms)
		for _, x := range g.Rules {
			if x.Name != m {
				continue
			}
			b := x.Body
			used := 0
			for i, k := range b.Kids {
				if k.Label == "" && r.Intn(3) > 0 {
					b.Kids[i] = k.clone().L(string('z' - rune(used)))
					used++
				}
			}
			more := r.Intn(9)
			if r.Intn(12) == 0 {
				more = 300
			}
			for n := more; n > 0; n-- {
				label := string('z' - rune(used))
				if used > 20 {
					label = "l" + strconv.Itoa(used)
				}
				b.Kids = append(b.Kids, Opt(Str(string(rune('a'+r.Intn(3))))).L(label))
				used++
			}
		}
	}
	idx := map[string]int{}
	for i, x := range g.Rules {
		idx[x.Name] = i
	}
	for i, x := range g.Rules {
		x.Body.walk(func(e *E) {
			if e.K != KSeq {
				return
			}
			for j, k := range e.Kids {
				if k.Label == "" && r.Intn(5) == 0 {
					m := pick(r, ms)
					if idx[m] > i { // no cycles of merges
						e.Kids[j] = Ref(m).L("@")
					}
				}
			}
		})
	}
}

// fixLabels removes labels where the language gives them no meaning: inside
// an unlabelled group which is an element of a sequence (directly).
func fixLabels(g *Gram) {
	var hasLab func(e *E) bool
	hasLab = func(e *E) bool {
		if e.Label != "" {
			return true
		}
		switch e.K {
		case KSeq, KOpt:
			for _, k := range e.Kids {
				if hasLab(k) {
					return true
				}
			}
		}
		return false
	}
	var strip func(e *E)
	strip = func(e *E) {
		e.Label = ""
		if e.K == KSeq || e.K == KOpt {
			for _, k := range e.Kids {
				strip(k)
			}
		}
	}
	for _, r := range g.Rules {
		r.Body.walk(func(e *E) {
			switch e.K {
			case KSeq:
				for _, k := range e.Kids {
					if k.K == KSeq && k.Label == "" && hasLab(k) {
						strip(k)
					}
				}
			}
			// an optional of an optional, or of a merge, says nothing more
			if e.K == KOpt {
				k := e.Kids[0]
				if k.Label == "@" {
					k.Label = ""
				}
				if k.K == KSeq {
					for _, kk := range k.Kids {
						if kk.K == KOpt && kk.Label == "" && hasLab(kk) {
							strip(kk)
						}
					}
				}
				if e.Label != "" && k.Label != "" {
					k.Label = ""
				}
				if k.K == KOpt {
					strip(k)
				}
			}
			if e.K != KSeq {
				for _, k := range e.Kids {
					if k.Label == "@" {
						k.Label = ""
					}
				}
			}
			if e.Join != nil && e.Join.Label == "@" {
				e.Join.Label = ""
			}
		})
		if r.Body.Label == "@" {
			r.Body.Label = ""
		}
	}
}

// ---- texts

type sampler struct {
	g       *Gram
	r       *rand.Rand
	a       []rune
	b       strings.Builder
	fuel    int
	long    int
	rexlong int // how long a match of one regular expression may get
	grow    int // how often left-recursive rules are grown
}

func (s *sampler) expr(e *E, d int) {
	s.fuel--
	if s.fuel < 0 {
		return
	}
	switch e.K {
	case KStr:
		s.b.WriteString(e.S)
	case KCls:
		for i := 0; i < 8; i++ {
			var c rune
			if e.Cls.Neg {
				c = pick(s.r, append([]rune("zq~"), s.a...))
			} else {
				p := pick(s.r, e.Cls.Ranges)
				c = p[0] + rune(s.r.Intn(int(p[1]-p[0])+1))
			}
			if e.Cls.Has(c) {
				s.b.WriteRune(c)
				return
			}
		}
	case KRex:
		if re, err := syntax.Parse(e.S, syntax.Perl); err == nil && s.r.Intn(5) > 0 {
			s.rex(re)
			return
		}
		s.b.WriteRune(pick(s.r, s.a))
		if s.r.Intn(2) == 0 {
			s.b.WriteRune(pick(s.r, s.a))
		}
	case KRef:
		if d > 25 {
			return
		}
		if r := s.g.byName[e.S]; r != nil {
			if s.grow > 0 && r.LR {
				s.lr(r, d)
				return
			}
			s.expr(r.Body, d+1)
		}
	case KSeq:
		for _, k := range e.Kids {
			s.expr(k, d+1)
		}
	case KCho:
		if d > 12 {
			s.expr(e.Kids[len(e.Kids)-1], d+1)
		} else if n := len(e.Kids); n > 8 && s.r.Intn(3) == 0 {
			s.expr(e.Kids[pick(s.r, []int{0, n / 2, n - 2, n - 1, n - 1})], d+1)
		} else {
			s.expr(pick(s.r, e.Kids), d+1)
		}
	case KOpt:
		if s.r.Intn(2) == 0 && d < 20 {
			s.expr(e.Kids[0], d+1)
		}
	case KRep:
		n := 0
		switch s.r.Intn(4) {
		case 0:
			n = s.r.Intn(2)
		default:
			n = s.r.Intn(4)
		}
		if s.long > 0 && s.r.Intn(3) == 0 {
			n = s.r.Intn(1 + s.long/2)
		}
		if n < e.Min {
			n = e.Min
		}
		if e.Max >= 0 && n > e.Max && s.r.Intn(3) > 0 {
			n = e.Max
		}
		if e.Max >= 0 && s.r.Intn(6) == 0 {
			n = e.Max + 1
		}
		if e.Min > 100 && s.r.Intn(3) == 0 {
			n = e.Min - 1
		}
		if d > 14 && n > 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			if i > 0 && e.Join != nil {
				s.expr(e.Join, d+1)
			}
			s.expr(e.Kids[0], d+1)
		}
	}
}

// rex writes something the regular expression matches, anchors apart
func (s *sampler) rex(re *syntax.Regexp) {
	s.fuel--
	if s.fuel < 0 {
		return
	}
	times := func(min, max int) {
		n := min + s.r.Intn(3)
		if s.long > 0 && s.r.Intn(2) == 0 {
			n = min + s.r.Intn(1+s.long)
		}
		if s.rexlong > 0 && max < 0 && s.r.Intn(2) == 0 {
			n = s.rexlong/2 + s.r.Intn(s.rexlong)
			s.fuel += n
		}
		if max >= 0 && n > max {
			n = max
		}
		for ; n > 0 && s.fuel > 0; n-- {
			s.rex(re.Sub[0])
		}
	}
	switch re.Op {
	case syntax.OpLiteral:
		s.b.WriteString(string(re.Rune))
	case syntax.OpCharClass:
		if len(re.Rune) == 0 {
			return
		}
		for _, c := range s.a {
			for i := 0; i < len(re.Rune); i += 2 {
				if re.Rune[i] <= c && c <= re.Rune[i+1] && s.r.Intn(2) == 0 {
					s.b.WriteRune(c)
					return
				}
			}
		}
		i := 2 * s.r.Intn(len(re.Rune)/2)
		s.b.WriteRune(re.Rune[i])
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		s.b.WriteRune(pick(s.r, s.a))
	case syntax.OpStar:
		times(0, -1)
	case syntax.OpPlus:
		times(1, -1)
	case syntax.OpQuest:
		times(0, 1)
	case syntax.OpRepeat:
		times(re.Min, re.Max)
	case syntax.OpAlternate:
		s.rex(pick(s.r, re.Sub))
	case syntax.OpCapture, syntax.OpConcat:
		for _, x := range re.Sub {
			s.rex(x)
		}
	}
}

func (s *sampler) lr(r *Rule, d int) {
	var rec, base []*E
	for _, a := range r.Body.Kids {
		if a.K == KSeq && a.Kids[0].K == KRef && a.Kids[0].S == r.Name {
			rec = append(rec, a)
		} else {
			base = append(base, a)
		}
	}
	if len(base) == 0 {
		return
	}
	s.expr(pick(s.r, base), d+1)
	n := s.r.Intn(3)
	if s.grow > 0 && s.r.Intn(2) == 0 {
		n = s.r.Intn(1 + s.grow)
		s.grow -= n
	}
	for ; n > 0 && s.fuel > 0; n-- {
		for _, k := range pick(s.r, rec).Kids[1:] {
			s.expr(k, d+1)
		}
	}
}

func (g *Gram) sample(r *rand.Rand, a []rune, fuel int) string {
	s := &sampler{g: g, r: r, a: a, fuel: fuel}
	if g.Nest == 0 {
		s.expr(g.Rules[0].Body, 0)
		return s.b.String()
	}
	n := pick(r, []int{0, 1, 2, 5, g.Nest / 2, g.Nest - 1, g.Nest})
	s.b.WriteString(strings.Repeat(g.Brac[0], n))
	s.expr(g.Rules[1].Body, 0)
	if r.Intn(8) == 0 {
		n += r.Intn(3) - 1
	}
	s.b.WriteString(strings.Repeat(g.Brac[1], max(0, n)))
	return s.b.String()
}

// a long text of the language, or nearly: the sampler with long repetitions
// fit limits the length of a text for a grammar of many rules: the library
// takes memory for each of them at each place
func (g *Gram) fit(n int) int {
	if most := 4000000 / len(g.Rules); n > most {
		return most
	}
	return n
}

func (g *Gram) longText(r *rand.Rand, a []rune, n int) string {
	s := &sampler{g: g, r: r, a: a, fuel: 4 * n, long: n}
	s.expr(g.Rules[0].Body, 0)
	return s.b.String()
}

func mutate(r *rand.Rand, s string, a []rune) string {
	rs := []rune(s)
	for n := 1 + r.Intn(2); n > 0; n-- {
		i := 0
		if len(rs) > 0 {
			i = r.Intn(len(rs))
		}
		switch r.Intn(5) {
		case 0: // delete
			if len(rs) > 0 {
				rs = append(rs[:i:i], rs[i+1:]...)
			}
		case 1: // insert
			rs = append(rs[:i:i], append([]rune{pick(r, a)}, rs[i:]...)...)
		case 2: // replace
			if len(rs) > 0 {
				rs[i] = pick(r, a)
			}
		case 3: // truncate
			if len(rs) > 0 {
				rs = rs[:i]
			}
		case 4: // append
			rs = append(rs, pick(r, a))
		}
	}
	return string(rs)
}

func randText(r *rand.Rand, a []rune, n int) string {
	var b strings.Builder
	for i := r.Intn(n + 1); i > 0; i-- {
		b.WriteRune(pick(r, a))
	}
	return b.String()
}

// texts gives distinct inputs for a grammar: samples of its language, mutated
// samples, random ones.
func (g *Gram) texts(r *rand.Rand, a []rune, n, maxlen int) []string {
	seen := map[string]bool{}
	out := []string{}
	fuel := 40
	if g.Big {
		maxlen, fuel = 60*maxlen, 2000
		n = (n + 1) / 2
	}
	if g.Nest > 0 {
		maxlen += g.Nest
	}
	if g.Huge {
		fuel = 8000
	}
	add := func(s string) {
		if len(s) > 4*maxlen {
			k := 4 * maxlen
			for k > 0 && !utf8.RuneStart(s[k]) {
				k--
			}
			s = s[:k]
		}
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	if r.Intn(3) == 0 {
		add("")
	}
	for i := 0; i < 6*n && len(out) < n; i++ {
		switch x := r.Intn(10); {
		case x < 5:
			add(g.sample(r, a, fuel))
		case x < 8:
			add(mutate(r, g.sample(r, a, fuel), a))
		case x < 9:
			if g.Big {
				add(randText(r, a, 12))
			} else {
				add(randText(r, a, maxlen))
			}
		default:
			s := g.sample(r, a, fuel*3/4)
			add(s + g.sample(r, a, 20))
			if r.Intn(4) == 0 && len(s) > 0 {
				b := []byte(s)
				b[r.Intn(len(b))] = byte(r.Intn(256))
				add(string(b))
			}
		}
	}
	return out
}
