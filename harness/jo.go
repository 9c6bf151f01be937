package main

// The library side: building real grammars from models, running them under
// recover, converting their results.

import (
	"fmt"
	"runtime/debug"
	"strings"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

// Node is what monitoring parse functions return. Its SetOrigin is the hook
// by which the library tells where the node comes from.
type Node struct {
	j.Attr
	Tag     string
	Arg     j.Ast
	EndAtCB int
	mon     *Monitor
	first   j.Origin
	nset    int
}

func (n *Node) String() string {
	if n.Arg == nil {
		return "<" + n.Tag + ">"
	}
	return "<" + n.Tag + " " + n.Arg.String() + ">"
}

func (n *Node) SetOrigin(o j.Origin) {
	n.Attr.SetOrigin(o)
	n.nset++
	if n.nset == 1 {
		n.first = o
		if n.mon != nil {
			n.mon.origin(n, o)
		}
	}
}

type Event struct {
	Rule  string
	End   int
	Start int // -1 until the origin is known
	Arg   string
}

// Monitor records the invocations of parse functions during one parse.
type Monitor struct {
	Events []*Event
	open   map[*Node]*Event
	last   *j.ParseContext
	limit  int
	at     int // the invocation which shall panic
	boom   func(*j.ParseContext)
	count  int
}

var errMonitorLimit = fmt.Errorf("monitor limit")

func (m *Monitor) reset() { m.Events = nil; m.open = map[*Node]*Event{}; m.last = nil; m.count = 0 }

func (m *Monitor) origin(n *Node, o j.Origin) {
	if ev := m.open[n]; ev != nil {
		ev.Start = o.Start
		delete(m.open, n)
	}
}

// CB kinds of a rule in harness grammars
const (
	cbNone  = 0
	cbNode  = 1 // returns a fresh Node{Tag: rule name, Arg: value}
	cbNil   = 2 // as cbNode, but refuses some matches (see refuse)
	cbPass  = 3 // returns its argument
	cbProbe = 4 // records, returns its argument
	cbStr   = 5 // native values
	cbInt   = 6
	cbUndef = 7
	cbArr   = 8
	cbMap   = 9
	cbNever = 10 // records, returns nothing
	cbErr   = 11 // returns a parse error, which is a value as any other
)

// how the parse errors returned by cbErr begin
const errValue = "value of "

// refuse tells, purely from what both sides know, whether a cbNil parse
// function returns nil.
func refuse(rule string, text string, end int, arg string) bool {
	h := uint32(2166136261)
	for _, s := range []string{rule, arg} {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint32(s[i])) * 16777619
		}
	}
	h = (h ^ uint32(end)) * 16777619
	h ^= h >> 15
	return h%3 == 0
}

var sharedJoeson *j.Grammar

func lazyJoeson() *helpers.Lazy[*j.Grammar] {
	if sharedJoeson == nil {
		sharedJoeson = j.NewJoesonWithOptions(j.Mute())
	}
	return helpers.LazyFromValue(sharedJoeson)
}

func muteOpts() j.GrammarOptions {
	return j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: lazyJoeson()}
}

type Built struct {
	gm  *j.Grammar
	mon *Monitor
}

// args for j.O / j.I of a rule
func (r *Rule) args(body any, mon *Monitor, sig int) []any {
	a := []any{j.Named(r.Name, body)}
	if f := r.callback(mon); f != nil {
		switch sig % 3 {
		case 0:
			a = append(a, f)
		case 1:
			// the context is still wanted for monitoring: same signature
			a = append(a, func(it j.Ast, ctx *j.ParseContext, _ j.Ast) j.Ast { return f(it, ctx) })
		case 2:
			a = append(a, f)
		}
	}
	if r.Skip {
		a = append(a, j.SkipCache{Bool: true})
	}
	return a
}

func (r *Rule) callback(mon *Monitor) func(j.Ast, *j.ParseContext) j.Ast {
	if r.CB == cbNone {
		return nil
	}
	name := r.Name
	kind := r.CB
	return func(it j.Ast, ctx *j.ParseContext) j.Ast {
		mon.count++
		if mon.limit > 0 && mon.count > mon.limit {
			panic(errMonitorLimit)
		}
		mon.last = ctx
		if mon.at > 0 && mon.count == mon.at {
			mon.boom(ctx)
		}
		end := ctx.Code.Pos()
		arg := conv(it).String()
		ev := &Event{Rule: name, End: end, Start: -1, Arg: arg}
		mon.Events = append(mon.Events, ev)
		if kind == cbNil && refuse(name, "", end, arg) {
			return nil
		}
		if kind == cbNever {
			return nil
		}
		if kind == cbPass || kind == cbProbe {
			return it
		}
		switch kind {
		case cbStr:
			return j.NewNativeString(name + "=" + digest(arg))
		case cbInt:
			return j.NewNativeInt(end)
		case cbUndef:
			return j.NewNativeUndefined()
		case cbArr:
			return j.NewNativeArray([]j.Ast{it, j.NewNativeString(name)})
		case cbErr:
			return ctx.Error(errValue + name)
		case cbMap:
			m := j.NewEmptyNativeMap()
			m.Set("v", it)
			m.Set("e", j.NewNativeInt(end))
			return m
		}
		n := &Node{Tag: name, Arg: it, EndAtCB: end, mon: mon}
		mon.open[n] = ev
		return n
	}
}

// digest keeps strings made of quoted strings from growing without end
func digest(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%s...%d bytes, %x", strings.ToValidUTF8(s[:60], "?"), len(s), hash64(s))
	}
	return s
}

// refCB is what the reference does for the same rules
func refCB(r *Rule, v *V, start, end int) (*V, bool) {
	if r.CB != cbNone && r.CB != cbPass && r.CB != cbProbe {
		o, ok := refCB1(r, v, start, end)
		if ok {
			o.Made, o.Start, o.End = true, start, end
		}
		return o, ok
	}
	v.mark(start, end)
	return v, true
}

// mark gives a fresh map the span of what made it; a value which comes from
// another rule keeps its own.
func (v *V) mark(start, end int) {
	if v.K == VMap && !v.Made {
		v.Made, v.Start, v.End = true, start, end
	}
}

func refCB1(r *Rule, v *V, start, end int) (*V, bool) {
	switch r.CB {
	case cbNil:
		if refuse(r.Name, "", end, v.String()) {
			return nil, false
		}
	case cbStr:
		return vStr(r.Name + "=" + digest(v.String())), true
	case cbInt:
		return &V{K: VInt, S: fmt.Sprint(end)}, true
	case cbUndef:
		return vUndef(), true
	case cbArr:
		return vArr([]*V{v, vStr(r.Name)}), true
	case cbErr:
		return &V{K: '?', S: "parse error " + errValue + r.Name}, true
	case cbMap:
		return &V{K: VMap, Keys: []string{"v", "e"}, Elems: []*V{v, {K: VInt, S: fmt.Sprint(end)}}}, true
	}
	return &V{K: VNode, S: r.Name, Elems: []*V{v}}, true
}

// lines gives the plain layout: entry as an o line, others as i lines
func (g *Gram) lines(mon *Monitor, st *Style) []j.Line {
	ls := []j.Line{}
	for i, r := range g.Rules {
		a := r.args(r.Body.text(st), mon, i)
		if i == 0 {
			ls = append(ls, j.O(a...))
		} else {
			ls = append(ls, j.I(a...))
		}
	}
	return ls
}

func (g *Gram) build(st *Style) (b *Built, err error) {
	return buildLines(func(m *Monitor) []j.Line { return g.lines(m, st) }, muteOpts())
}

func buildLines(mk func(*Monitor) []j.Line, opts j.GrammarOptions) (b *Built, err error) {
	mon := &Monitor{}
	mon.reset()
	defer func() {
		if e := recover(); e != nil {
			b = nil
			err = fmt.Errorf("building panicked: %v\n%s", e, trimStack())
		}
	}()
	gm := j.GrammarWithOptionsFromLines("gram", opts, mk(mon))
	return &Built{gm, mon}, nil
}

func trimStack() string {
	s := string(debug.Stack())
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Out is the outcome of a real parse
type Out struct {
	Kind string // "ok", "nil", "error", "panic"
	V    *V
	Ast  j.Ast
	Err  string
	Pan  any
}

func (o Out) String() string {
	switch o.Kind {
	case "ok":
		return "ok " + o.V.String()
	case "error":
		return "error " + firstLine(o.Err)
	case "panic":
		return "panic " + o.Err
	}
	return o.Kind
}

// Same compares outcome, value and error text
func (o Out) key() string {
	switch o.Kind {
	case "ok":
		return "ok " + o.V.String()
	case "error":
		return "error " + o.Err
	case "panic":
		return "panic " + fmt.Sprint(o.Pan)
	}
	return o.Kind
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (b *Built) parse(text string, opts ...j.ParseOption) (o Out) {
	b.mon.reset()
	return runParse(func() j.Ast { return b.gm.ParseString(text, opts...) })
}

func runParse(f func() j.Ast) (o Out) {
	defer func() {
		if e := recover(); e != nil {
			o = Out{Kind: "panic", Err: fmt.Sprintf("%v\n%s", e, trimStack()), Pan: e}
		}
	}()
	ast := f()
	if ast == nil {
		return Out{Kind: "nil"}
	}
	if pe, is := ast.(j.ParseError); is && !strings.HasPrefix(pe.ErrorString, errValue) {
		return Out{Kind: "error", Err: ast.(j.ParseError).ErrorString, Ast: ast}
	}
	return Out{Kind: "ok", V: conv(ast), Ast: ast}
}

func (v *V) place(a j.Ast) {
	o := a.GetOrigin()
	v.Start, v.End, v.Line, v.Code = o.Start, o.End, o.Line, o.Code
}

// conv turns a real result into a V
func conv(a j.Ast) *V {
	switch x := a.(type) {
	case nil:
		return &V{K: '?', S: "nil"}
	case *j.NativeMap:
		v := &V{K: VMap}
		for _, k := range x.Keys() {
			v.Keys = append(v.Keys, k)
			v.Elems = append(v.Elems, conv(x.Get(k)))
		}
		v.place(x)
		return v
	case *j.NativeArray:
		v := &V{K: VArr}
		for _, e := range x.Array() {
			v.Elems = append(v.Elems, conv(e))
		}
		return v
	case j.NativeString:
		return vStr(string(x))
	case j.NativeInt:
		return &V{K: VInt, S: x.String()}
	case j.NativeUndefined:
		return vUndef()
	case *Node:
		v := &V{K: VNode, S: x.Tag, Elems: []*V{conv(x.Arg)}}
		v.place(x)
		v.Rule = x.first.RuleName
		return v
	case j.ParseError:
		return &V{K: '?', S: "parse error " + x.ErrorString}
	}
	return &V{K: '?', S: fmt.Sprintf("%T", a)}
}
