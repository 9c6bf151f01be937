package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"time"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register(&Prop{ID: "C22", Quick: 22000, Thorough: 250000, Run: runC22,
		Rule: "A case is (nine in ten) a random calculator - 1 to 5 levels of precedence, each of random distinct operators and written left-recursively (operators in a rule, in a choice or one line each), iteratively, right-recursively or as a joined list, with parentheses, unary and postfix operators, indexes, calls with any number of arguments and white space, evaluated by the parse functions - reading 8 random expressions printed with as few parentheses as needed and some more, and 3 damaged ones which must not be accepted; the oracle is the expression tree the text was printed from. One in ten is a session of 6 to 24 lines with the sample lisp interpreter, a process of its own: arithmetic, comparisons, logic, conditions, lists, definitions, aliases, lines which are no expressions; each printed line is compared with a reference evaluator. Non-trivial: an expression with 3 operators or more, a session with 6 lines or more; distinct by text."})
}

func runC22(c *Ctx) {
	if c.idx%10 == 9 {
		c.lispSession()
		return
	}
	c.calculator()
}

// ---- calculators

type calcForm int

const (
	fLROp calcForm = iota
	fLRLines
	fLRChoice
	fIter
	fRight
	fChain // no label: one value or an array
	nForms
)

type calcLevel struct {
	ops  []string
	form calcForm
}

type calc struct {
	r      *rand.Rand
	lv     []calcLevel
	unary  []string
	post   []string // written after, as is "[" for an index
	calls  bool
	holes  bool   // arguments may be left out
	sp     string // printed white space
	code   map[string]int
	budget int
	outer  bool
}

type cnode struct {
	op   string // operator, unary operator, "f" call or "" for a number
	lvl  int
	kids []*cnode
	n    int
}

const calcMod = 1000003

func mod(x int) int { x %= calcMod; return x }

func (k *calc) apply(op string, a, b int) int {
	switch op {
	case "+":
		return mod(a + b)
	case "-":
		return mod(a - b)
	case "*":
		return mod(a * b)
	}
	return mod(a*31 + b*17 + k.code[op])
}
func (k *calc) applyUn(op string, a int) int {
	if op == "-" {
		return mod(-a)
	}
	return mod(a*7 + k.code[op])
}
func (k *calc) applyCall(args []int) int {
	x := len(args)
	for _, a := range args {
		x = mod(x*13 + a)
	}
	return x
}

func (k *calc) eval(t *cnode) int {
	switch {
	case t.op == "none":
		return 0
	case t.op == "":
		return t.n
	case t.op == "f":
		var a []int
		for _, x := range t.kids {
			a = append(a, k.eval(x))
		}
		return k.applyCall(a)
	case len(t.kids) == 1:
		return k.applyUn(t.op, k.eval(t.kids[0]))
	}
	return k.apply(t.op, k.eval(t.kids[0]), k.eval(t.kids[1]))
}

var calcOps = []string{"+", "-", "*", "/", "%", "&&", "||", "&", "|", "<<", ">>", "<", ">", "<=", ">=", "==", "^", "**", "@", "and", "or", "é", "→"}

func newCalc(r *rand.Rand) *calc {
	k := &calc{r: r, code: map[string]int{}, calls: r.Intn(2) == 0, sp: pick(r, []string{" ", " ", " \t", " \n"})}
	perm := r.Perm(len(calcOps))
	for n := 1 + r.Intn(5); n > 0; n-- {
		l := calcLevel{form: calcForm(r.Intn(int(nForms)))}
		for m := 1 + r.Intn(3); m > 0 && len(perm) > 0; m-- {
			l.ops = append(l.ops, calcOps[perm[0]])
			perm = perm[1:]
		}
		// longest first, or "<" would hide "<="
		for i := range l.ops {
			for m := i + 1; m < len(l.ops); m++ {
				if len(l.ops[m]) > len(l.ops[i]) {
					l.ops[i], l.ops[m] = l.ops[m], l.ops[i]
				}
			}
		}
		k.lv = append(k.lv, l)
	}
	for _, u := range []string{"-", "!", "~"} {
		if r.Intn(3) == 0 {
			k.unary = append(k.unary, u)
		}
	}
	if r.Intn(3) == 0 {
		k.post = [][]string{{"$"}, {"#", "$"}, {"["}, {"[", "$"}, {"$", "[", "#"}}[r.Intn(5)]
	}
	for i, o := range append(append([]string{}, calcOps...), "-", "!", "~", "$", "#", "[") {
		if _, has := k.code[o]; !has {
			k.code[o] = 1000 + i*i*37
		}
	}
	return k
}

func cint(a j.Ast) int { return a.(j.NativeInt).Int() }

func (k *calc) lines() []j.Line {
	quote := func(ops []string) string {
		var q []string
		for _, o := range ops {
			q = append(q, "'"+o+"'")
		}
		return strings.Join(q, " | ")
	}
	two := func(it j.Ast) j.Ast { // a map with a, op, b, or a value passed on
		m, ok := it.(*j.NativeMap)
		if !ok {
			return it
		}
		return j.NewNativeInt(k.apply(m.Get("op").(j.NativeString).String(), cint(m.Get("a")), cint(m.Get("b"))))
	}
	var ls []j.Line
	var inert []j.Line
	outer := k.r.Intn(4) == 0 // an outer rule, inert rules before and after
	for i, l := range k.lv {
		me, next := fmt.Sprintf("L%d", i), fmt.Sprintf("L%d", i+1)
		op := fmt.Sprintf("Op%d", i)
		add := func(v any, cb func(j.Ast) j.Ast) {
			if i == 0 && !outer {
				if cb == nil {
					ls = append(ls, j.O(j.Named(me, v)))
				} else {
					ls = append(ls, j.O(j.Named(me, v), cb))
				}
				return
			}
			if cb == nil {
				inert = append(inert, j.I(j.Named(me, v)))
			} else {
				inert = append(inert, j.I(j.Named(me, v), cb))
			}
		}
		ops := quote(l.ops)
		named := k.r.Intn(2) == 0
		g := "op:(" + ops + ")"
		if named {
			g = "op:" + op
		}
		if named || l.form == fIter || l.form == fChain {
			inert = append(inert, j.I(j.Named(op, ops)))
		}
		switch l.form {
		case fLROp:
			add([]j.Line{j.O("a:"+me+" _ "+g+" _ b:"+next, two), j.O(next)}, nil)
		case fLRLines:
			var in []j.Line
			for _, o := range l.ops {
				o := o
				in = append(in, j.O("a:"+me+" _ '"+o+"' _ b:"+next, func(it j.Ast) j.Ast {
					m := it.(*j.NativeMap)
					return j.NewNativeInt(k.apply(o, cint(m.Get("a")), cint(m.Get("b"))))
				}))
			}
			add(append(in, j.O(next)), nil)
		case fLRChoice:
			add("a:"+me+" _ "+g+" _ b:"+next+" | "+next, two)
		case fIter:
			add("first:"+next+" rest:(_ "+op+" _ "+next+")*", func(it j.Ast) j.Ast {
				m := it.(*j.NativeMap)
				x := cint(m.Get("first"))
				for _, p := range *m.Get("rest").(*j.NativeArray) {
					p := p.(*j.NativeArray)
					x = k.apply(p.Get(0).(j.NativeString).String(), x, cint(p.Get(1)))
				}
				return j.NewNativeInt(x)
			})
		case fRight:
			if k.r.Intn(2) == 0 {
				add("a:"+next+" _ "+g+" _ b:"+me+" | "+next, two)
			} else {
				add([]j.Line{j.O("a:"+next+" _ "+g+" _ b:"+me, two), j.O(next)}, nil)
			}
		case fChain:
			add(next+" (_ "+op+" _ "+next+")*", func(it j.Ast) j.Ast {
				a := it.(*j.NativeArray)
				x := cint(a.Get(0))
				for _, p := range *a.Get(1).(*j.NativeArray) {
					p := p.(*j.NativeArray)
					x = k.apply(p.Get(0).(j.NativeString).String(), x, cint(p.Get(1)))
				}
				return j.NewNativeInt(x)
			})
		}
	}
	unary := fmt.Sprintf("L%d", len(k.lv))
	u := []j.Line{}
	for _, o := range k.unary {
		o := o
		u = append(u, j.O("'"+o+"' _ "+unary, func(it j.Ast) j.Ast { return j.NewNativeInt(k.applyUn(o, cint(it))) }))
	}
	operand := "Prim"
	if len(k.post) > 0 {
		operand = "Post"
		k.postfix(&inert)
	}
	u = append(u, j.O(operand))
	inert = append(inert, j.I(j.Named(unary, u)))
	prim := []j.Line{}
	if k.calls {
		args := "'f(' _ (L0 _)*COMMA _ ')'"
		get := func(a *j.NativeArray) (xs []int) {
			for _, x := range *a {
				if _, none := x.(j.NativeUndefined); none {
					xs = append(xs, 0)
					continue
				}
				xs = append(xs, cint(x))
			}
			return
		}
		n := k.r.Intn(4)
		k.holes = n == 3
		switch n {
		case 3:
			args = "'f(' _ args:(L0?)*SEP _ ')'"
		case 0:
			args = "'f(' _ args:(L0 _)*COMMA ')'"
		case 1:
			args = "'f(' _ args:L0*SEP _ ')'"
		default:
			args = "'f' '(' _ args:(L0*(_ ',' _)) _ ')'"
		}
		prim = append(prim, j.O(args, func(it j.Ast) j.Ast {
			m, ok := it.(*j.NativeMap)
			if !ok {
				panic(fmt.Sprintf("arguments are a %T", it))
			}
			return j.NewNativeInt(k.applyCall(get(m.Get("args").(*j.NativeArray))))
		}))
		inert = append(inert, j.I(j.Named("COMMA", "',' _")), j.I(j.Named("SEP", "_ ',' _")))
	}
	prim = append(prim, j.O("'(' _ L0 _ ')'"))
	num := func(it j.Ast) j.Ast { return j.NewNativeIntFrom(it) }
	switch k.r.Intn(3) {
	case 0:
		prim = append(prim, j.O("/[0-9]+/", num))
	case 1:
		prim = append(prim, j.O("Num"))
		inert = append(inert, j.I(j.Named("Num", "[0-9]+"), func(it j.Ast) j.Ast {
			n := 0
			for _, d := range *it.(*j.NativeArray) {
				n = n*10 + int(d.(j.NativeString).String()[0]-'0')
			}
			return j.NewNativeInt(n)
		}))
	case 2:
		prim = append(prim, j.O("Num"))
		inert = append(inert, j.I(j.Named("Num", "/[0-9]+/"), num))
	}
	inert = append(inert, j.I(j.Named("Prim", prim)))
	inert = append(inert, j.I(j.Named("_", pick(k.r, []string{"[ \\t\\n]*", "/[ \\t\\n]*/", "(' ' | [\\t\\n])*"}))))
	k.r.Shuffle(len(inert), func(a, b int) { inert[a], inert[b] = inert[b], inert[a] })
	if outer {
		k.outer = true
		n := k.r.Intn(len(inert) + 1)
		return append(append(append([]j.Line{}, inert[:n]...), j.O("_ L0 _")), inert[n:]...)
	}
	return append(ls, inert...)
}

// postfix adds the rule of the postfix operators
func (k *calc) postfix(inert *[]j.Line) {
	tail := func(o string) string {
		if o == "[" {
			return "'[' _ i:L0 _ ']'"
		}
		return "op:'" + o + "'"
	}
	with := func(x int, m *j.NativeMap) int {
		if i, ok := m.GetExists("i"); ok && !j.IsUndefined(i) {
			return k.apply("[", x, cint(i))
		}
		return k.applyUn(m.Get("op").(j.NativeString).String(), x)
	}
	cb := func(it j.Ast) j.Ast {
		if m, ok := it.(*j.NativeMap); ok {
			return j.NewNativeInt(with(cint(m.Get("a")), m))
		}
		return it
	}
	switch k.r.Intn(3) {
	case 0: // one line each
		var in []j.Line
		for _, o := range k.post {
			in = append(in, j.O("a:Post _ "+tail(o), cb))
		}
		*inert = append(*inert, j.I(j.Named("Post", append(in, j.O("Prim")))))
	case 1: // a choice
		body := ""
		for _, o := range k.post {
			body += "a:Post _ " + tail(o) + " | "
		}
		*inert = append(*inert, j.I(j.Named("Post", body+"Prim"), cb))
	case 2: // a repetition
		var in []j.Line
		for _, o := range k.post {
			in = append(in, j.O("_ "+tail(o)))
		}
		*inert = append(*inert, j.I(j.Named("Tail", in)), j.I(j.Named("Post", "first:Prim rest:Tail*"), func(it j.Ast) j.Ast {
			m := it.(*j.NativeMap)
			x := cint(m.Get("first"))
			for _, t := range *m.Get("rest").(*j.NativeArray) {
				x = with(x, t.(*j.NativeMap))
			}
			return j.NewNativeInt(x)
		}))
	}
}

func (k *calc) tree(lvl, depth int) *cnode {
	k.budget--
	if k.budget < 0 || depth <= 0 || k.r.Intn(7) == 0 {
		return &cnode{n: k.r.Intn(pick(k.r, []int{10, 1000, 100000, 100000, math.MaxInt32, math.MaxInt}))}
	}
	x := k.r.Intn(10)
	switch {
	case x == 0 && k.calls:
		t := &cnode{op: "f"}
		n := k.r.Intn(4)
		if k.holes {
			n = 1 + k.r.Intn(3)
		}
		for ; n > 0; n-- {
			if k.holes && k.r.Intn(3) == 0 {
				t.kids = append(t.kids, &cnode{op: "none"})
				continue
			}
			t.kids = append(t.kids, k.tree(0, depth-1))
		}
		return t
	case x == 1 && len(k.unary) > 0:
		return &cnode{op: pick(k.r, k.unary), lvl: len(k.lv), kids: []*cnode{k.tree(0, depth-1)}}
	}
	if x == 2 && len(k.post) > 0 {
		return k.after(k.tree(0, depth-1), depth-1)
	}
	i := k.r.Intn(len(k.lv))
	return &cnode{op: pick(k.r, k.lv[i].ops), lvl: i, kids: []*cnode{k.tree(0, depth-1), k.tree(0, depth-1)}}
}

// after applies a postfix operator
func (k *calc) after(t *cnode, depth int) *cnode {
	t = &cnode{op: pick(k.r, k.post), lvl: len(k.lv) + 1, kids: []*cnode{t}}
	if t.op == "[" {
		t.kids = append(t.kids, k.tree(0, depth))
	}
	return t
}

// chain: a long expression of one level
func (k *calc) chain(n int) *cnode {
	i := k.r.Intn(len(k.lv))
	leaf := func() *cnode { k.budget = 3; return k.tree(0, 1) }
	t := leaf()
	posts := len(k.post) > 0 && k.r.Intn(3) == 0
	for ; n > 0; n-- {
		if posts {
			k.budget = 3
			t = k.after(t, 1)
			continue
		}
		op := pick(k.r, k.lv[i].ops)
		if k.lv[i].form == fRight {
			t = &cnode{op: op, lvl: i, kids: []*cnode{leaf(), t}}
		} else {
			t = &cnode{op: op, lvl: i, kids: []*cnode{t, leaf()}}
		}
	}
	return t
}

func (k *calc) ws() string {
	if k.r.Intn(3) > 0 {
		return ""
	}
	s := ""
	for n := 1 + k.r.Intn(2); n > 0; n-- {
		s += string(k.sp[k.r.Intn(len(k.sp))])
	}
	return s
}

// print writes the tree for a place which takes operators of level min and above
func (k *calc) print(t *cnode, min int) string {
	s := ""
	lvl := t.lvl
	switch {
	case t.op == "":
		s, lvl = fmt.Sprint(t.n), len(k.lv)+2
		if k.r.Intn(15) == 0 {
			s = "00"[k.r.Intn(2):] + s
		}
	case t.op == "f":
		var a []string
		for _, x := range t.kids {
			if x.op == "none" {
				a = append(a, "")
				continue
			}
			a = append(a, k.print(x, 0))
		}
		s = "f(" + k.ws() + strings.Join(a, k.ws()+","+k.ws()) + k.ws() + ")"
		lvl = len(k.lv) + 2
	case lvl > len(k.lv):
		s = k.print(t.kids[0], lvl) + k.ws() + t.op
		if t.op == "[" {
			s += k.ws() + k.print(t.kids[1], 0) + k.ws() + "]"
		}
	case len(t.kids) == 1:
		s = t.op + k.ws() + k.print(t.kids[0], lvl)
	default:
		l, r := lvl, lvl+1
		if k.lv[lvl].form == fRight {
			l, r = lvl+1, lvl
		}
		s = k.print(t.kids[0], l) + k.ws() + t.op + k.ws() + k.print(t.kids[1], r)
	}
	if lvl < min || k.r.Intn(12) == 0 {
		s = "(" + k.ws() + s + k.ws() + ")"
	}
	return s
}

func (t *cnode) size() int {
	n := 0
	if t.op != "" {
		n = 1
	}
	for _, x := range t.kids {
		n += x.size()
	}
	return n
}

func (c *Ctx) calculator() {
	k := newCalc(c.r)
	head := fmt.Sprintf("levels %v, unary %q, calls %v", k.lv, k.unary, k.calls)
	c.desc = head
	gm := j.GrammarWithOptionsFromLines("calc", muteOpts(), k.lines())
	parse := func(text string) (res j.Ast) {
		c.desc = fmt.Sprintf("%s\ntext %q", head, text)
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(caseFailed); ok {
					panic(e)
				}
				c.fail("panic", "%v", e)
			}
		}()
		return gm.ParseString(text)
	}
	for n := 0; n < 8; n++ {
		k.budget = 2 + c.r.Intn(24)
		t := k.tree(0, 6)
		if c.r.Intn(10) == 0 {
			t = k.chain(c.r.Intn(120))
			if c.r.Intn(8) == 0 {
				t = k.chain(c.r.Intn(500))
			}
		}
		text := k.print(t, 0)
		if k.outer {
			text = k.ws() + text + k.ws()
		}
		c.eval(head+text, t.size() >= 3)
		c.count("expressions", 1)
		c.count("operators", t.size())
		res := parse(text)
		v, ok := res.(j.NativeInt)
		if !ok {
			c.fail("calculator", "%s instead of %d", safeString(res), k.eval(t))
		}
		if v.Int() != k.eval(t) {
			c.fail("calculator", "%d instead of %d", v.Int(), k.eval(t))
		}
		for _, l := range k.lv {
			c.state("forms", fmt.Sprint(l.form, len(k.lv)))
		}
		if n >= 5 {
			bad := k.damage(text)
			c.count("damaged", 1)
			res := parse(bad)
			if !j.IsParseError(res) && res != nil {
				c.fail("calculator accepts what is no expression", "%s", safeString(res))
			}
		}
		if t.size() >= 3 && len(text) < 120 && c.wantSample() {
			c.sample("%s: %q is %d", head, text, k.eval(t))
		}
	}
	c.count("calculators", 1)
}

func safeString(a j.Ast) string {
	if a == nil {
		return "nil"
	}
	return a.String()
}

func (k *calc) damage(s string) string {
	switch k.r.Intn(4) {
	case 0:
		return s + pick(k.r, k.lv).ops[0]
	case 1:
		if i := strings.LastIndex(s, ")"); i >= 0 {
			return s[:i] + s[i+1:]
		}
	case 2:
		return s + " )"
	}
	rs := []rune(s)
	i := k.r.Intn(len(rs) + 1)
	return string(rs[:i]) + pick(k.r, []string{"?", ";", "\x00", "ü"}) + string(rs[i:])
}

// ---- the lisp interpreter

// lx is a lisp expression: kind 'n' number, 's' string, 'o' operator, 'l' list
type lx struct {
	k byte
	n float64
	s string
	l []*lx
}

func (x *lx) show() string {
	switch x.k {
	case 'n':
		return fmt.Sprintf("%f", x.n)
	case 's':
		return `"` + x.s + `"`
	case 'o':
		return x.s
	}
	var a []string
	for _, e := range x.l {
		a = append(a, e.show())
	}
	return "(" + strings.Join(a, " ") + ")"
}

func lnum(n float64) *lx { return &lx{k: 'n', n: n} }
func lbool(b bool) *lx {
	if b {
		return lnum(1)
	}
	return lnum(0)
}

// lisp is the reference evaluator
type lisp struct {
	r     *rand.Rand
	alias map[string]string
	defs  map[string]*ldef
	notOk bool // `not` is known not to negate
}
type ldef struct {
	params []string
	body   *lx
	isBool bool
}

type lenv map[string]*lx

func (m *lisp) num(x *lx) float64 {
	for x.k == 'l' {
		x = m.eval(x)
	}
	if x.k != 'n' {
		panic("not a number: " + x.show())
	}
	return x.n
}

func (m *lisp) list(x *lx) []*lx {
	if len(x.l) > 0 && x.l[0].k == 'o' {
		x = m.eval(x)
	}
	return x.l
}

func (m *lisp) eval(x *lx) *lx {
	if x.k != 'l' || len(x.l) == 0 || x.l[0].k != 'o' {
		return x
	}
	op, a := x.l[0].s, x.l[1:]
	if t, ok := m.alias[op]; ok {
		op = t
	}
	cmp := func(f func(a, b float64) bool) *lx {
		for i := 1; i < len(a); i++ {
			if !f(m.num(a[i-1]), m.num(a[i])) {
				return lbool(false)
			}
		}
		return lbool(true)
	}
	if d, ok := m.defs[op]; ok {
		e := lenv{}
		for i, p := range d.params {
			e[p] = a[i]
		}
		return m.eval(subst(e, d.body))
	}
	switch op {
	case "add":
		s := 0.
		for _, v := range a {
			s += m.num(v)
		}
		return lnum(s)
	case "mul":
		s := 1.
		for _, v := range a {
			s *= m.num(v)
		}
		return lnum(s)
	case "sub":
		s := m.num(a[0])
		for _, v := range a[1:] {
			s -= m.num(v)
		}
		return lnum(s)
	case "%":
		return lnum(math.Mod(m.num(a[0]), m.num(a[1])))
	case "lt":
		return cmp(func(a, b float64) bool { return a < b })
	case "le":
		return cmp(func(a, b float64) bool { return a <= b })
	case "gt":
		return cmp(func(a, b float64) bool { return a > b })
	case "ge":
		return cmp(func(a, b float64) bool { return a >= b })
	case "eq":
		return cmp(func(a, b float64) bool { return a == b })
	case "neq":
		return cmp(func(a, b float64) bool { return a != b })
	case "and":
		for _, v := range a {
			if m.num(v) == 0 {
				return lbool(false)
			}
		}
		return lbool(true)
	case "or":
		for _, v := range a {
			if m.num(v) != 0 {
				return lbool(true)
			}
		}
		return lbool(false)
	case "not":
		return lbool(m.num(a[0]) == 0)
	case "if":
		if m.num(a[0]) != 0 {
			return m.eval(a[1])
		}
		return m.eval(a[2])
	case "cond":
		for _, b := range a {
			if b.l[0].k == 'o' || m.num(b.l[0]) != 0 {
				return m.eval(b.l[1])
			}
		}
		return &lx{k: 'l'}
	case "car":
		return m.list(a[0])[0]
	case "cdr":
		l := m.list(a[0])
		if len(l) > 0 {
			l = l[1:]
		}
		return &lx{k: 'l', l: l}
	case "list?":
		return lbool(a[0].k == 'l')
	case "alias":
		m.alias[a[0].s] = a[1].s
		return &lx{k: 'l'}
	case "define":
		d := &ldef{body: a[1]}
		for _, p := range a[0].l[1:] {
			d.params = append(d.params, p.s)
		}
		delete(m.alias, a[0].l[0].s)
		m.defs[a[0].l[0].s] = d
		return &lx{k: 'l'}
	}
	panic("unknown " + op)
}

func subst(e lenv, x *lx) *lx {
	switch x.k {
	case 'o':
		if v, ok := e[x.s]; ok {
			return v
		}
	case 'l':
		y := &lx{k: 'l'}
		for _, v := range x.l {
			y.l = append(y.l, subst(e, v))
		}
		return y
	}
	return x
}

func lop(s string) *lx   { return &lx{k: 'o', s: s} }
func lcall(s ...*lx) *lx { return &lx{k: 'l', l: s} }
func (m *lisp) name(s string) *lx { // a function by its name or one of its aliases
	c := []string{s}
	for a, t := range m.alias {
		if t == s {
			c = append(c, a)
		}
	}
	if len(c) == 1 {
		return lop(s)
	}
	// maps have no order: choose by the seed
	best := ""
	want := m.r.Intn(len(c))
	for i := 0; i <= want; i++ {
		low := ""
		for _, x := range c {
			if x > best && (low == "" || x < low) {
				low = x
			}
		}
		best = low
	}
	return lop(best)
}

func (m *lisp) genNum(d int, vars []string) *lx {
	if d <= 0 || m.r.Intn(5) == 0 {
		if len(vars) > 0 && m.r.Intn(2) == 0 {
			return lop(pick(m.r, vars))
		}
		return lnum(float64(m.r.Intn(pick(m.r, []int{3, 20, 100000})) - m.r.Intn(20)))
	}
	args := func(lo, hi int) []*lx {
		var a []*lx
		for n := lo + m.r.Intn(hi-lo+1); n > 0; n-- {
			a = append(a, m.genNum(d-1, vars))
		}
		return a
	}
	switch m.r.Intn(12) {
	case 0, 1:
		return lcall(append([]*lx{m.name("add")}, args(0, 4)...)...)
	case 2, 3:
		return lcall(append([]*lx{m.name("sub")}, args(2, 4)...)...)
	case 4:
		return lcall(append([]*lx{m.name("mul")}, args(0, 3)...)...)
	case 5:
		return lcall(lop("%"), m.genNum(d-1, vars), m.genNum(d-1, vars))
	case 6:
		return m.genBool(d-1, vars)
	case 7:
		return lcall(lop("if"), m.genBool(d-1, vars), m.genNum(d-1, vars), m.genNum(d-1, vars))
	case 8:
		x := lcall(lop("cond"))
		for n := m.r.Intn(3); n > 0; n-- {
			x.l = append(x.l, lcall(m.genBool(d-1, vars), m.genNum(d-1, vars)))
		}
		x.l = append(x.l, lcall(lop("else"), m.genNum(d-1, vars)))
		return x
	case 9:
		l, n := m.genList(d-1, vars, true)
		if n == 0 {
			return m.genNum(0, vars)
		}
		return lcall(m.name("car"), l)
	case 10:
		for _, f := range []string{"square", "f", "g.h", "twice?"} {
			if df := m.defs[f]; df != nil && m.r.Intn(2) == 0 {
				x := lcall(m.name(f))
				for range df.params {
					x.l = append(x.l, m.genNum(d-1, vars))
				}
				return x
			}
		}
		if m.defs["fact"] != nil {
			return lcall(m.name("fact"), lnum(float64(m.r.Intn(9))))
		}
	}
	return m.genNum(d-1, vars)
}

func (m *lisp) genBool(d int, vars []string) *lx {
	if d <= 0 {
		return lbool(m.r.Intn(2) == 0)
	}
	x := m.r.Intn(5)
	switch {
	case x == 0:
		a := lcall(m.name(pick(m.r, []string{"and", "or"})))
		for n := m.r.Intn(4); n > 0; n-- {
			a.l = append(a.l, m.genBool(d-1, vars))
		}
		return a
	case x == 1 && !m.notOk:
		return lcall(m.name("not"), m.genBool(d-1, vars))
	}
	a := lcall(m.name(pick(m.r, []string{"lt", "le", "gt", "ge", "eq", "neq"})))
	for n := 2 + m.r.Intn(3); n > 0; n-- {
		a.l = append(a.l, m.genNum(d-1, vars))
	}
	return a
}

// genList makes an expression whose value is a list of known length
func (m *lisp) genList(d int, vars []string, nums bool) (*lx, int) {
	if d > 0 && m.r.Intn(3) == 0 {
		x, n := m.genList(d-1, vars, nums)
		if n > 0 {
			return lcall(m.name("cdr"), x), n - 1
		}
	}
	x := lcall()
	for n := 1 + m.r.Intn(5); n > 0; n-- {
		switch {
		case nums || len(x.l) == 0 && m.r.Intn(2) == 0:
			x.l = append(x.l, lnum(float64(m.r.Intn(100))))
		case m.r.Intn(4) == 0 && d > 0:
			y, _ := m.genList(d-1, vars, false)
			x.l = append(x.l, y)
		case m.r.Intn(4) == 0 && len(x.l) > 0:
			x.l = append(x.l, lop(pick(m.r, []string{"foo", "+", "x", "car", "a.b?", ">="})))
		default:
			x.l = append(x.l, &lx{k: 's', s: pick(m.r, []string{"", "a", "two words", "é→", "(+ 1 2)", "\t!'"})})
		}
	}
	return x, len(x.l)
}

// gen makes one line of the session
func (m *lisp) gen() *lx {
	d := 1 + m.r.Intn(4)
	switch m.r.Intn(14) {
	case 0, 1:
		l, _ := m.genList(d, nil, false)
		return l
	case 2:
		l, n := m.genList(d, nil, false)
		if n > 0 {
			return lcall(m.name("car"), l)
		}
		return l
	case 3:
		f := pick(m.r, []string{"square", "f", "g.h", "twice?", "fact"})
		if f == "fact" {
			return lcall(lop("define"), lcall(lop("fact"), lop("n")), lcall(lop("if"), lcall(m.name("le"), lop("n"), lnum(1)), lnum(1), lcall(m.name("mul"), lop("n"), lcall(lop("fact"), lcall(m.name("sub"), lop("n"), lnum(1))))))
		}
		if m.defs[f] != nil && m.r.Intn(2) == 0 {
			break // defined again only now and then
		}
		ps := []string{"n", "x", "y."}[:1+m.r.Intn(3)]
		head := lcall(lop(f))
		for _, p := range ps {
			head.l = append(head.l, lop(p))
		}
		// not recursive: the body only calls built-ins
		keep := m.defs
		m.defs = map[string]*ldef{}
		body := m.genNum(2, ps)
		m.defs = keep
		if body.k != 'l' {
			body = lcall(m.name("add"), body, lop(ps[0]))
		}
		return lcall(lop("define"), head, body)
	case 4:
		// never pointed elsewhere: functions defined before would change their meaning
		name := pick(m.r, []string{"plus", "minus", "first", "less", "/", "=", "a.b?"})
		if _, has := m.alias[name]; has {
			break
		}
		return lcall(lop("alias"), lop(name), lop(pick(m.r, []string{"add", "sub", "car", "lt", "eq", "mul"})))
	case 5:
		x := lcall(lop("list?"))
		if m.r.Intn(2) == 0 {
			y, _ := m.genList(d, nil, false)
			x.l = append(x.l, y)
		} else {
			x.l = append(x.l, m.genNum(0, nil))
		}
		return x
	case 6:
		return lcall()
	case 7:
		x := lcall(lop("cond"))
		for n := m.r.Intn(4); n > 0; n-- {
			y, _ := m.genList(1, nil, false)
			x.l = append(x.l, lcall(m.genBool(2, nil), y))
		}
		return x
	}
	return m.genNum(d, nil)
}

func (m *lisp) write(x *lx) string {
	ws := func(least int) string {
		n := least
		if m.r.Intn(4) == 0 {
			n += m.r.Intn(3)
		}
		s := ""
		for ; n > 0; n-- {
			s += pick(m.r, []string{" ", " ", " ", "\t"})
		}
		return s
	}
	switch x.k {
	case 'n':
		return fmt.Sprint(int64(x.n))
	case 's':
		return `"` + x.s + `"`
	case 'o':
		return x.s
	}
	s := "(" + ws(0)
	for i, e := range x.l {
		if i > 0 {
			s += ws(1)
		}
		s += m.write(e)
	}
	return s + ws(0) + ")"
}

// lispReads tells whether a line is an expression of the interpreter's syntax
func lispReads(s string) bool {
	ws := func(i int) int {
		for i < len(s) && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n') {
			i++
		}
		return i
	}
	number := regexp.MustCompile(`^-?[0-9]+`)
	word := regexp.MustCompile(`^[a-zA-Z\._][a-zA-Z\._0-9?]*`)
	var expr func(i int) int
	expr = func(i int) int {
		if i >= len(s) {
			return -1
		}
		if s[i] == '(' {
			p := ws(i + 1)
			if e := expr(p); e >= 0 {
				p = e
				for {
					q := ws(p)
					if q == p {
						break
					}
					e := expr(q)
					if e < 0 {
						break
					}
					p = e
				}
			}
			p = ws(p)
			if p < len(s) && s[p] == ')' {
				return p + 1
			}
			return -1
		}
		if s[i] == '"' {
			if n := strings.IndexByte(s[i+1:], '"'); n >= 0 {
				return i + n + 2
			}
			return -1
		}
		if x := number.FindString(s[i:]); x != "" {
			return i + len(x)
		}
		if x := word.FindString(s[i:]); x != "" {
			return i + len(x)
		}
		for _, o := range []string{"+", "-", "*", "/", "%", ">=", "<=", "!=", "==", "<", ">", "="} {
			if strings.HasPrefix(s[i:], o) {
				return i + len(o)
			}
		}
		return -1
	}
	e := expr(ws(0))
	return e >= 0 && ws(e) == len(s)
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

type lispProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out chan string // what was printed up to a prompt; closed at the end
	err bytes.Buffer
}

func startLisp() (*lispProc, error) {
	bin := os.Getenv("VH_LISP")
	if bin == "" {
		return nil, fmt.Errorf("VH_LISP is not set")
	}
	p := &lispProc{cmd: exec.Command(bin), out: make(chan string, 64)}
	p.cmd.Stderr = &p.err
	p.cmd.Env = append(os.Environ(), "TRACE=none")
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	so, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		defer close(p.out)
		var acc []byte
		buf := make([]byte, 1<<16)
		for {
			n, err := so.Read(buf)
			acc = append(acc, buf[:n]...)
			for {
				i := bytes.Index(acc, []byte("Eval: "))
				if i < 0 {
					break
				}
				p.out <- string(acc[:i])
				acc = acc[i+6:]
			}
			if err != nil {
				p.out <- string(acc)
				return
			}
		}
	}()
	return p, nil
}

// upto waits for the next prompt
func (p *lispProc) upto() (s string, ok bool) {
	select {
	case s, ok = <-p.out:
		return s, ok
	case <-time.After(60 * time.Second):
		return "", false
	}
}

func (p *lispProc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	go func() {
		for range p.out {
		}
	}()
	p.cmd.Wait()
}

func (c *Ctx) lispSession() {
	p, err := startLisp()
	if err != nil {
		panic(err)
	}
	defer p.stop()
	c.desc = "session with the lisp interpreter"
	if _, ok := p.upto(); !ok {
		c.fail("interpreter", "no prompt: %s", cut(p.err.String(), 1500))
	}
	_, known := knownFindings["C22/not-negates"]
	m := &lisp{r: c.r, defs: map[string]*ldef{}, notOk: known, alias: map[string]string{
		"+": "add", "-": "sub", "*": "mul", "<": "lt", ">": "gt", ">=": "ge", "<=": "le", "==": "eq", "eq?": "eq", "neq?": "neq", "!=": "neq"}}
	n := 6 + c.r.Intn(19)
	head := ""
	say := func(text string) string {
		head += "> " + text + "\n"
		c.desc = cut("session with the lisp interpreter\n"+head, 1500)
		if _, err := io.WriteString(p.in, text+"\n"); err != nil {
			c.fail("interpreter", "stopped reading: %v %s", err, cut(p.err.String(), 1500))
		}
		out, ok := p.upto()
		if !ok {
			c.fail("interpreter", "gave no other prompt\n%s", cut(p.err.String(), 1500))
		}
		return strings.TrimSuffix(ansi.ReplaceAllString(out, ""), "\n")
	}
	for i := 0; i < n; i++ {
		x := m.gen()
		text := m.write(x)
		if m.r.Intn(5) == 0 {
			// a line which is no expression
			bad := mutate(m.r, text, []rune("()\"@ 1a"))
			bad = strings.NewReplacer("\n", " ", "\r", " ").Replace(bad)
			t := strings.Trim(bad, " ")
			if !strings.HasPrefix(t, "(") {
				t = "(" + t + ")"
			}
			if !lispReads(t) {
				got := say(bad)
				c.count("lisp lines refused", 1)
				if !strings.HasPrefix(got, "Parse error: ") {
					c.fail("interpreter", "takes a line which is no expression: %s", cut(got, 1500))
				}
				continue
			}
		}
		if x.k == 'l' && len(x.l) > 0 && m.r.Intn(4) == 0 && x.l[0].k != 'l' {
			text = strings.Trim(strings.TrimSuffix(strings.TrimPrefix(text, "("), ")"), "\t ")
		}
		if m.r.Intn(6) == 0 {
			text = "  " + text + " "
		}
		if t := strings.Trim(text, " "); !strings.HasPrefix(t, "(") && x.k != 'l' {
			x = lcall(x)
		}
		want := m.eval(x).show()
		got := say(text)
		c.count("lisp lines", 1)
		if got != want {
			c.fail("interpreter", "prints %q instead of %q", cut(got, 1500), want)
		}
	}
	if c.idx%20 == 9 {
		for _, v := range []float64{0, 1} {
			x := lcall(lop("not"), lnum(v))
			text := m.write(x)
			if got, want := say(text), m.eval(x).show(); got != want {
				c.finding("not-negates", "interpreter", "%s prints %q instead of %q", text, got, want)
			}
		}
	}
	c.count("lisp sessions", 1)
	c.eval(head, n >= 6)
	if c.r.Intn(8) == 0 {
		c.piped(&lisp{r: c.r, alias: map[string]string{"+": "add"}})
	}
}

// piped gives all the lines at once
func (c *Ctx) piped(m *lisp) {
	bin := os.Getenv("VH_LISP")
	var in, want string
	for i := 0; i < 4; i++ {
		x := lcall(m.name("add"), m.genNum(0, nil), m.genNum(0, nil))
		in += m.write(x) + "\n"
		s := 0.
		for _, a := range x.l[1:] {
			s += a.n
		}
		want += lnum(s).show() + "\n"
	}
	cmd := exec.Command(bin)
	cmd.Env = append(os.Environ(), "TRACE=none")
	cmd.Stdin = strings.NewReader(in)
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	out, _ := cmd.Output()
	t.Stop()
	got := ansi.ReplaceAllString(string(out), "")
	got = strings.ReplaceAll(got, "Eval: ", "")
	if i := strings.IndexByte(got, '\n'); i >= 0 {
		got = got[i+1:] // greeting
	}
	got = strings.TrimSuffix(got, "Bye!\n")
	c.desc = fmt.Sprintf("lines given at once to the lisp interpreter: %q", in)
	first := strings.SplitAfter(want, "\n")[0]
	if got == first {
		c.finding("piped-lines", "interpreter", "prints %q instead of %q", got, want)
	} else if got != want {
		c.fail("interpreter", "prints %q instead of %q", got, want)
	}
}
