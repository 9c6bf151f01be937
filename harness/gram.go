package main

// Model of a joeson grammar: expressions, rules, and their rendering as rule
// texts. Nothing here uses the library.

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

type Kind int

const (
	KStr Kind = iota
	KCls
	KRex
	KRef
	KSeq
	KCho
	KOpt
	KRep
	KNot
	KLook
)

var kindNames = []string{"str", "class", "regex", "ref", "seq", "choice", "opt", "rep", "not", "look"}

// E is an expression.
type E struct {
	K     Kind
	S     string // KStr: literal. KRef: rule name. KRex: regex source
	Cls   *Class // KCls
	Kids  []*E   // KSeq, KCho: elements; KOpt, KRep, KNot, KLook: 1 element
	Join  *E     // KRep
	Min   int    // KRep, -1 unspecified
	Max   int    // KRep, -1 unspecified
	Label string // "", a word, or "@"

	// annotations, see annotate()
	cap      bool
	ncaps    int
	labels   []string
	effLabel string
	seqType  byte // 's'ingle, 'a'rray, 'o'bject
	handled  bool // label is handled by the parent
	isBody   bool // the body of a rule
	rex      *regexp.Regexp
}

type Class struct {
	Ranges [][2]rune
	Neg    bool
}

func (c *Class) Has(r rune) bool {
	in := false
	for _, p := range c.Ranges {
		if r >= p[0] && r <= p[1] {
			in = true
			break
		}
	}
	return in != c.Neg
}

func (c *Class) text() string {
	var b strings.Builder
	b.WriteByte('[')
	if c.Neg {
		b.WriteByte('^')
	}
	esc := func(r rune) {
		if strings.ContainsRune(`]\^-[/`, r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	for _, p := range c.Ranges {
		esc(p[0])
		if p[1] != p[0] {
			b.WriteByte('-')
			esc(p[1])
		}
	}
	b.WriteByte(']')
	return b.String()
}

func Str(s string) *E         { return &E{K: KStr, S: s} }
func Cls(r ...[2]rune) *E     { return &E{K: KCls, Cls: &Class{Ranges: r}} }
func Ref(s string) *E         { return &E{K: KRef, S: s} }
func Seq(k ...*E) *E          { return &E{K: KSeq, Kids: k} }
func Cho(k ...*E) *E          { return &E{K: KCho, Kids: k} }
func Opt(k *E) *E             { return &E{K: KOpt, Kids: []*E{k}} }
func Rep(k *E, mn, mx int) *E { return &E{K: KRep, Kids: []*E{k}, Min: mn, Max: mx} }
func Not(k *E) *E             { return &E{K: KNot, Kids: []*E{k}} }
func Look(k *E) *E            { return &E{K: KLook, Kids: []*E{k}} }
func (e *E) L(l string) *E    { e.Label = l; return e }

func (e *E) clone() *E {
	if e == nil {
		return nil
	}
	c := *e
	c.Kids = nil
	for _, k := range e.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	c.Join = e.Join.clone()
	return &c
}

func (e *E) walk(f func(*E)) {
	if e == nil {
		return
	}
	f(e)
	for _, k := range e.Kids {
		k.walk(f)
	}
	e.Join.walk(f)
}

// ---- rendering as rule text

// Style chooses among equivalent ways to write the same expression.
// nil means canonical.
type Style struct{ r *rand.Rand }

func (st *Style) coin(n int) bool { return st != nil && st.r.Intn(n) == 0 }

// whitespace which must be there
func (st *Style) ws1() string {
	if st == nil {
		return " "
	}
	return []string{" ", " ", "  ", "\n", " \n ", "\n\n"}[st.r.Intn(6)]
}

// whitespace which may be there
func (st *Style) ws0() string {
	if st == nil {
		return ""
	}
	return []string{"", "", " ", "\n", "  "}[st.r.Intn(5)]
}

func strText(s string, st *Style) string {
	var b strings.Builder
	b.WriteByte('\'')
	for _, r := range s {
		if r == '\'' || r == '\\' || st.coin(6) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	b.WriteByte('\'')
	return b.String()
}

// EXPR
func (e *E) text(st *Style) string {
	if e.K == KCho && e.Label == "" {
		parts := []string{}
		for _, k := range e.Kids {
			if k.K == KCho && k.Label == "" {
				parts = append(parts, k.unit(st))
			} else {
				parts = append(parts, k.seqText(st))
			}
		}
		pre, post := "", ""
		if st.coin(5) {
			pre = strings.Repeat(st.ws0()+"|", 1+st.r.Intn(2))
		}
		if st.coin(5) {
			post = strings.Repeat(st.ws0()+"|", 1+st.r.Intn(2))
		}
		bar := " |"
		if st != nil {
			bar = st.ws0() + "|"
			if st.coin(8) {
				bar = st.ws0() + "|" // single bar between alternatives
			}
		}
		s := parts[0]
		for _, p := range parts[1:] {
			s += bar + st.ws1() + p
		}
		return pre + st.ws0() + s + post + st.ws0()
	}
	return st.ws0() + e.seqText(st) + st.ws0()
}

// SEQUENCE
func (e *E) seqText(st *Style) string {
	if e.K == KSeq && e.Label == "" {
		s := ""
		for i, k := range e.Kids {
			u := k.unit(st)
			if i > 0 && !(st.coin(4) && canGlue(s, u)) {
				s += st.ws1()
			}
			s += u
		}
		return s
	}
	return e.unit(st)
}

// canGlue tells whether unit b may follow a without whitespace
func canGlue(a, b string) bool {
	wordy := func(c byte) bool { return wordRe.MatchString(string(c)) || c >= '0' && c <= '9' }
	switch last := a[len(a)-1]; {
	case last == '*' || last == '+': // b would be read as the join
		return false
	case wordy(last):
		return !wordy(b[0]) && b[0] != '(' && b[0] != ':'
	}
	return true
}

// UNIT
func (e *E) unit(st *Style) string {
	if e.Label != "" {
		c := *e
		c.Label = ""
		return e.Label + ":" + c.decorated(st)
	}
	return e.decorated(st)
}

// DECORATED | PRIMARY
func (e *E) decorated(st *Style) string {
	if e.Label != "" {
		panic("label in decorated")
	}
	if st.coin(10) {
		return "(" + e.text(st) + ")"
	}
	switch e.K {
	case KOpt:
		return e.Kids[0].prim(st) + "?"
	case KNot:
		return "!" + e.Kids[0].prim(st)
	case KLook:
		return "(?" + e.Kids[0].text(st) + ")"
	case KRep:
		v := e.Kids[0].prim(st)
		j := ""
		if e.Join != nil {
			j = e.Join.prim(st)
		}
		rng := func() string {
			a, b := "", ""
			if e.Min >= 0 {
				a = strconv.Itoa(e.Min)
			}
			if e.Max >= 0 {
				b = strconv.Itoa(e.Max)
			}
			return "{" + st.ws0() + a + st.ws0() + "," + st.ws0() + b + st.ws0() + "}"
		}
		if e.Min < 0 && e.Max < 0 {
			return v + "*" + j
		}
		if e.Min == 1 && e.Max < 0 && (st == nil || st.r.Intn(2) == 0) {
			return v + "+" + j
		}
		if e.Join == nil && !st.coin(2) {
			return v + rng()
		}
		return v + "*" + j + rng()
	}
	return e.prim(st)
}

// PRIMARY
func (e *E) prim(st *Style) string {
	if e.Label == "" {
		if st.coin(12) {
			return "(" + e.text(st) + ")"
		}
		switch e.K {
		case KStr:
			return strText(e.S, st)
		case KCls:
			return e.Cls.text()
		case KRex:
			return "/" + strings.ReplaceAll(e.S, "/", `\/`) + "/"
		case KRef:
			return e.S
		}
	}
	return "(" + e.text(st) + ")"
}

// ---- grammars

type Rule struct {
	Name string
	Body *E
	// for reference and harness
	LR   bool // directly left recursive, see ref.go
	Skip bool // SkipCache
	CB   int  // kind of parse function, 0: none
}

type Gram struct {
	Rules  []*Rule // Rules[0] is the entry
	Big    bool    // something in it is large: texts have to be as well
	Huge   bool    // some bound of a repetition is
	Nest   int     // how deep the entry rule may be nested in brackets
	Brac   [2]string
	byName map[string]*Rule
}

func NewGram(rules ...*Rule) *Gram {
	g := &Gram{Rules: rules}
	g.index()
	return g
}

func (g *Gram) index() {
	g.byName = map[string]*Rule{}
	for _, r := range g.Rules {
		g.byName[r.Name] = r
	}
}

func (g *Gram) String() string {
	var b strings.Builder
	for i, r := range g.Rules {
		k := "i"
		if i == 0 {
			k = "o"
		}
		x := ""
		if r.Skip {
			x += " SkipCache"
		}
		if r.CB != 0 {
			x += fmt.Sprintf(" cb%d", r.CB)
		}
		fmt.Fprintf(&b, "%s %s: `%s`%s\n", k, r.Name, r.Body.text(nil), x)
	}
	return b.String()
}

// annotate computes captures and labels as the rules of thumb of the README
// and the documented behaviour of the parsers have it.
func (g *Gram) annotate() {
	g.index()
	done := map[string]bool{}
	var rule func(r *Rule)
	var ann func(e *E)
	ann = func(e *E) {
		for _, k := range e.Kids {
			ann(k)
		}
		if e.Join != nil {
			ann(e.Join)
		}
		e.effLabel = e.Label
		own := func() []string {
			if e.Label != "" {
				return []string{e.Label}
			}
			return nil
		}
		switch e.K {
		case KStr, KNot, KLook:
			e.cap = false
			e.labels = own()
		case KCls, KRex:
			e.cap = true
			e.labels = own()
		case KRef:
			e.cap = !strings.HasPrefix(e.S, "_")
			if e.Label == "@" {
				rule(g.byName[e.S])
				e.labels = g.byName[e.S].Body.labels
			} else {
				e.labels = own()
			}
		case KRep:
			v := e.Kids[0]
			switch v.K {
			case KCho, KSeq, KOpt:
				e.cap = true
			default:
				e.cap = v.cap
			}
			e.labels = own()
		case KCho:
			e.cap = true
			for _, k := range e.Kids {
				if !k.cap {
					e.cap = false
				}
			}
			e.labels = own()
		case KSeq:
			e.cap = true
			var ls []string
			n := 0
			for _, k := range e.Kids {
				ls = append(ls, k.labels...)
				n += k.ncaps
			}
			e.ncaps = n
			if len(ls) > 0 {
				e.seqType = 'o'
			} else if n > 1 {
				e.seqType = 'a'
			} else {
				e.seqType = 's'
			}
			if e.Label != "" && e.Label != "@" {
				e.labels = own()
			} else {
				e.labels = ls
			}
		case KOpt:
			k := e.Kids[0]
			if e.Label != "" && e.Label != "@" {
				e.labels = own()
			} else {
				e.labels = k.labels
			}
			if len(e.labels) > 0 && e.Label == "" {
				e.effLabel = "@"
			}
			e.ncaps = k.ncaps
			e.cap = k.ncaps > 0
		}
		if e.K != KSeq && e.K != KOpt {
			if e.cap {
				e.ncaps = 1
			} else {
				e.ncaps = 0
			}
		}
		if e.K == KRex && e.rex == nil {
			e.rex = regexp.MustCompile(`\A(?:` + e.S + `)`)
		}
	}
	rule = func(r *Rule) {
		if done[r.Name] {
			return
		}
		done[r.Name] = true
		ann(r.Body)
	}
	for _, r := range g.Rules {
		rule(r)
	}
	var hand func(e *E, handles bool)
	hand = func(e *E, parentHandles bool) {
		e.handled = parentHandles
		e.isBody = false
		kid := false
		switch e.K {
		case KSeq:
			kid = true
		case KOpt:
			kid = parentHandles && e.effLabel != "@"
		}
		for _, k := range e.Kids {
			hand(k, kid)
		}
		if e.Join != nil {
			hand(e.Join, false)
		}
	}
	for _, r := range g.Rules {
		hand(r.Body, false)
		r.Body.isBody = true
	}
}

// nullable computes which rules may match the empty string (over-approximated)
func (g *Gram) nullable() map[string]bool {
	n := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, r := range g.Rules {
			if !n[r.Name] && r.Body.nullable(n) {
				n[r.Name] = true
				changed = true
			}
		}
	}
	return n
}

func (e *E) nullable(n map[string]bool) bool {
	switch e.K {
	case KStr:
		return e.S == ""
	case KCls:
		return false
	case KRex:
		return regexp.MustCompile(`\A(?:`+e.S+`)`).MatchString("") || true
	case KRef:
		return n[e.S]
	case KSeq:
		for _, k := range e.Kids {
			if !k.nullable(n) {
				return false
			}
		}
		return true
	case KCho:
		for _, k := range e.Kids {
			if k.nullable(n) {
				return true
			}
		}
		return false
	case KRep:
		return e.Min <= 0 || e.Max == 0 || e.Kids[0].nullable(n)
	}
	return true // opt, not, look
}

// firstRefs: rules that may be entered at the very position where e is tried
func (e *E) firstRefs(n map[string]bool, out map[string]bool) {
	switch e.K {
	case KRef:
		out[e.S] = true
	case KSeq:
		for _, k := range e.Kids {
			k.firstRefs(n, out)
			if !k.nullable(n) {
				return
			}
		}
	case KRep:
		e.Kids[0].firstRefs(n, out)
		if e.Join != nil && e.Kids[0].nullable(n) {
			e.Join.firstRefs(n, out)
		}
	default:
		for _, k := range e.Kids {
			k.firstRefs(n, out)
		}
	}
}

// leftRecursive tells whether some rule can reach itself at the same position
func (g *Gram) leftRecursive() bool {
	n := g.nullable()
	edges := map[string]map[string]bool{}
	for _, r := range g.Rules {
		m := map[string]bool{}
		r.Body.firstRefs(n, m)
		edges[r.Name] = m
	}
	for _, r := range g.Rules {
		seen := map[string]bool{}
		stack := []string{r.Name}
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			for y := range edges[x] {
				if y == r.Name {
					return true
				}
				if !seen[y] {
					seen[y] = true
					stack = append(stack, y)
				}
			}
		}
	}
	return false
}

// ---- matching of terminals

func (e *E) matchTerm(text string, pos int) (end int, ok bool) {
	switch e.K {
	case KStr:
		if strings.HasPrefix(text[pos:], e.S) {
			return pos + len(e.S), true
		}
	case KCls:
		if pos < len(text) {
			r, n := utf8.DecodeRuneInString(text[pos:])
			if e.Cls.Has(r) {
				return pos + n, true
			}
		}
	case KRex:
		if loc := e.rex.FindStringIndex(text[pos:]); loc != nil {
			return pos + loc[1], true
		}
	}
	return pos, false
}
