package main

// Reference interpreter: parsing-expression semantics written directly, with
// its own values. It memoizes per rule and position (which PEG semantics
// allows for rules without left recursion), and treats directly
// left-recursive rules as the iteration they stand for.

import (
	"errors"
	"fmt"
	"sort"
	"strings"
)

// ---- values

type VK byte

const (
	VUndef VK = 'U'
	VStr   VK = 'S'
	VArr   VK = 'A'
	VMap   VK = 'M'
	VNode  VK = 'N' // made by a parse function: Tag, Elems[0] = its argument
	VInt   VK = 'I'
)

type V struct {
	K     VK
	S     string
	Keys  []string
	Elems []*V
	// where it comes from, for values made by a parse function
	Made       bool
	Start, End int
	Line       int
	Code       string
	Rule       string // by which rule, as its origin says
}

func vUndef() *V       { return &V{K: VUndef} }
func vStr(s string) *V { return &V{K: VStr, S: s} }
func vArr(a []*V) *V   { return &V{K: VArr, Elems: a} }
func (v *V) has(k string) int {
	for i, x := range v.Keys {
		if x == k {
			return i
		}
	}
	return -1
}
func (v *V) set(k string, x *V) {
	if i := v.has(k); i >= 0 {
		v.Elems[i] = x
		return
	}
	v.Keys = append(v.Keys, k)
	v.Elems = append(v.Elems, x)
}

func (v *V) String() string {
	var b strings.Builder
	v.write(&b)
	return b.String()
}

func (v *V) write(b *strings.Builder) {
	if v == nil {
		b.WriteString("nil")
		return
	}
	switch v.K {
	case VUndef:
		b.WriteString("undef")
	case VStr:
		fmt.Fprintf(b, "%q", v.S)
	case VInt:
		b.WriteString("int:" + v.S)
	case VArr:
		b.WriteByte('[')
		for i, x := range v.Elems {
			if i > 0 {
				b.WriteString(", ")
			}
			x.write(b)
		}
		b.WriteByte(']')
	case VMap:
		b.WriteByte('{')
		for i, x := range v.Elems {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(v.Keys[i] + ": ")
			x.write(b)
		}
		b.WriteByte('}')
	case VNode:
		b.WriteString("<" + v.S + " ")
		for _, x := range v.Elems {
			x.write(b)
		}
		b.WriteByte('>')
	default:
		b.WriteString("?" + v.S)
	}
}

// ---- interpreter

var errFuel = errors.New("reference ran out of fuel")

type memoKey struct {
	rule string
	pos  int
}
type memoVal struct {
	ok  bool
	end int
	v   *V
}

// CBFunc is the reference's version of a rule's parse function. ok=false
// means the function returns nil.
type CBFunc func(r *Rule, v *V, start, end int) (out *V, ok bool)

type Ref_ struct {
	g     *Gram
	text  string
	memo  map[memoKey]*memoVal
	cb    CBFunc
	fuel  int
	depth int
	// observations
	tried   map[memoKey]int     // evaluations of the body of each rule
	succ    map[memoKey]memoVal // body matched (before the parse function)
	hits    int
	maxGrow int
	grow    map[memoKey]int // rounds by left-recursive rule and position
	ruleFn  func(*Rule, int) (bool, int, *V)
	noMemo  bool
	wantVal bool
}

type refRes struct {
	ok   bool // whole text matched
	part bool // entry matched something
	end  int
	v    *V
	err  error
	rf   *Ref_
}

const maxDepth = 4000

func (g *Gram) runRef(text string, fuel int, cb CBFunc) (res refRes) {
	rf := &Ref_{g: g, text: text, memo: map[memoKey]*memoVal{}, fuel: fuel, cb: cb,
		tried: map[memoKey]int{}, succ: map[memoKey]memoVal{}}
	defer func() {
		if e := recover(); e != nil {
			if e == errFuel {
				res = refRes{err: errFuel, rf: rf}
				return
			}
			panic(e)
		}
	}()
	ok, end, v := rf.rule(g.Rules[0], 0)
	return refRes{ok: ok && end == len(text), part: ok, end: end, v: v, rf: rf}
}

func (rf *Ref_) burn() {
	rf.fuel--
	if rf.fuel < 0 {
		panic(errFuel)
	}
}

func (rf *Ref_) rule(r *Rule, pos int) (bool, int, *V) {
	if rf.ruleFn != nil {
		return rf.ruleFn(r, pos)
	}
	rf.burn()
	key := memoKey{r.Name, pos}
	if m, hit := rf.memo[key]; hit && !(rf.noMemo && r.Skip) {
		rf.hits++
		return m.ok, m.end, m.v
	}
	rf.depth++
	if rf.depth > maxDepth {
		panic(errFuel)
	}
	m := &memoVal{}
	if r.LR {
		m.ok, m.end, m.v = rf.lrRule(r, pos)
	} else {
		rf.tried[key]++
		m.ok, m.end, m.v = rf.eval(r.Body, pos)
		if m.ok {
			rf.succ[key] = *m
			if rf.cb != nil {
				m.v, m.ok = rf.cb(r, m.v, pos, m.end)
			}
		}
	}
	if !m.ok {
		m.end = pos
	}
	rf.memo[key] = m
	rf.depth--
	return m.ok, m.end, m.v
}

// A directly left-recursive rule: alternatives beginning with the rule itself
// come first. Equivalent to base (tail)*, grouping to the left.
func (rf *Ref_) lrRule(r *Rule, pos int) (bool, int, *V) {
	if r.Body.K != KCho {
		panic("LR rule must be a choice")
	}
	var rec, base []*E
	for _, a := range r.Body.Kids {
		if a.K == KSeq && a.Kids[0].K == KRef && a.Kids[0].S == r.Name {
			rec = append(rec, a)
		} else {
			base = append(base, a)
		}
	}
	finish := func(v *V, end int) (*V, bool) {
		rf.succ[memoKey{r.Name, pos}] = memoVal{true, end, v}
		if rf.cb != nil {
			return rf.cb(r, v, pos, end)
		}
		return v, true
	}
	var acc *V
	end := -1
	for _, b := range base {
		if ok, e, v := rf.eval(b, pos); ok {
			v2, ok2 := finish(v, e)
			if !ok2 {
				return false, pos, nil
			}
			acc, end = v2, e
			break
		}
	}
	if end < 0 {
		return false, pos, nil
	}
	for rounds := 0; ; rounds++ {
		if rounds > rf.maxGrow {
			rf.maxGrow = rounds
		}
		grown := false
		for _, a := range rec {
			ok, e, v := rf.evalSeq(a, pos, &memoVal{true, end, acc})
			if !ok {
				continue
			}
			if e > end {
				v2, ok2 := finish(v, e)
				if ok2 {
					acc, end, grown = v2, e, true
				}
			}
			break
		}
		if !grown {
			if rf.grow == nil {
				rf.grow = map[memoKey]int{}
			}
			rf.grow[memoKey{r.Name, pos}] = rounds
			return true, end, acc
		}
	}
}

func (rf *Ref_) eval(e *E, pos int) (bool, int, *V) {
	rf.burn()
	rf.depth++
	if rf.depth > maxDepth {
		panic(errFuel)
	}
	ok, end, v := rf.eval1(e, pos)
	rf.depth--
	if ok && e.effLabel != "" && e.effLabel != "@" && !e.handled {
		m := &V{K: VMap}
		m.set(e.effLabel, v)
		v = m
	}
	if ok && e.effLabel != "" && !e.handled && !e.isBody {
		v.mark(pos, end)
	}
	return ok, end, v
}

func (rf *Ref_) eval1(e *E, pos int) (bool, int, *V) {
	switch e.K {
	case KStr, KCls, KRex:
		end, ok := e.matchTerm(rf.text, pos)
		if !ok {
			return false, pos, nil
		}
		return true, end, vStr(rf.text[pos:end])
	case KRef:
		r := rf.g.byName[e.S]
		if r == nil {
			panic("undefined rule " + e.S)
		}
		return rf.rule(r, pos)
	case KSeq:
		return rf.evalSeq(e, pos, nil)
	case KCho:
		for _, k := range e.Kids {
			if ok, end, v := rf.eval(k, pos); ok {
				return true, end, v
			}
		}
		return false, pos, nil
	case KOpt:
		if ok, end, v := rf.eval(e.Kids[0], pos); ok {
			return true, end, v
		}
		return true, pos, vUndef()
	case KNot:
		if ok, _, _ := rf.eval(e.Kids[0], pos); ok {
			return false, pos, nil
		}
		return true, pos, vUndef()
	case KLook:
		ok, _, v := rf.eval(e.Kids[0], pos)
		return ok, pos, v
	case KRep:
		var items []*V
		cur := pos
		for e.Max < 0 || len(items) < e.Max {
			p := cur
			if len(items) > 0 && e.Join != nil {
				ok, end, _ := rf.eval(e.Join, p)
				if !ok {
					break
				}
				p = end
			}
			ok, end, v := rf.eval(e.Kids[0], p)
			if !ok {
				break
			}
			if len(items) > 0 && end == cur && len(items) >= e.Min {
				break // no progress
			}
			items = append(items, v)
			cur = end
			rf.burn()
		}
		if len(items) < e.Min {
			return false, pos, nil
		}
		return true, cur, vArr(items)
	}
	panic("kind")
}

// evalSeq evaluates a sequence; when seed is given it stands for the value of
// the first element.
func (rf *Ref_) evalSeq(e *E, pos int, seed *memoVal) (bool, int, *V) {
	vals := make([]*V, len(e.Kids))
	cur := pos
	for i, k := range e.Kids {
		var ok bool
		var end int
		var v *V
		if i == 0 && seed != nil {
			ok, end, v = seed.ok, seed.end, seed.v
		} else {
			ok, end, v = rf.eval(k, cur)
		}
		if !ok {
			return false, pos, nil
		}
		vals[i] = v
		cur = end
	}
	switch e.seqType {
	case 's':
		var v *V
		for i, k := range e.Kids {
			if k.cap {
				v = vals[i]
			}
		}
		if v == nil {
			v = vUndef()
		}
		return true, cur, v
	case 'a':
		a := []*V{}
		for i, k := range e.Kids {
			if k.cap {
				a = append(a, vals[i])
			}
		}
		return true, cur, vArr(a)
	default:
		m := &V{K: VMap}
		for i, k := range e.Kids {
			switch k.effLabel {
			case "":
			case "@":
				if vals[i].K == VMap {
					for j, key := range vals[i].Keys {
						m.set(key, vals[i].Elems[j])
					}
				}
			default:
				m.set(k.effLabel, vals[i])
			}
		}
		if len(m.Keys) == 0 {
			return true, cur, vUndef()
		}
		return true, cur, m
	}
}

func sortedKeys[T any](m map[string]T) []string {
	a := []string{}
	for k := range m {
		a = append(a, k)
	}
	sort.Strings(a)
	return a
}
