package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register(&Prop{ID: "C17", Quick: 650000, Thorough: 9000000, Run: runC17,
		Rule: "A case is a history of up to 80 operations on a native map and a native array (values of every kind, nested; few or hundreds of keys, some special, in ascending, descending or random order; arrays of thousands of nested pieces), each compared with a model, followed by conversions of random values. Non-trivial: at least 5 operations; distinct by history."})
}

// MV is the model of a value
type MV struct {
	k    byte // 's', 'i', 'u', 'a', 'm', 'n'(ode)
	s    string
	i    int
	kids []*MV
	keys []string
	real j.Ast
}

var c17Strings = []string{"", "a", "0", "1", "-1", "+5", "007", "12", " 1", "1 ", "1.5", "1e3", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "0x10", "1_000", "é", "世", "a:b", ", ", "<NativeUndefined>", "true", "\x00", "\xff", "99999999999999999999", "٣", "--1", "\n"}
var c17Ints = []int{0, 1, -1, 2, 10, 1000000, 1<<63 - 1, -1 << 63, 42}
var c17Keys = []string{"a", "b", "c", "", "@", "é", "a b", "label", "A", "zz", "0", "_"}

func genMV(r *rand.Rand, d int) *MV {
	k := r.Intn(8)
	if d <= 0 && k > 4 {
		k = r.Intn(5)
	}
	switch k {
	case 0, 1:
		s := pick(r, c17Strings)
		if r.Intn(6) == 0 { // any text, any number
			s = randText(r, pick(r, [][]rune{[]rune("0123456789"), []rune("-+0189"), []rune("aé世 \n"), []rune("01_xe.")}), 1+r.Intn(pick(r, []int{4, 12, 22, 22, 200})))
		}
		return &MV{k: 's', s: s, real: j.NewNativeString(s)}
	case 2:
		n := pick(r, c17Ints)
		if r.Intn(3) == 0 {
			n = r.Intn(2000) - 1000
		}
		return &MV{k: 'i', i: n, real: j.NewNativeInt(n)}
	case 3:
		return &MV{k: 'u', real: j.NewNativeUndefined()}
	case 4:
		if r.Intn(3) > 0 {
			return genMV(r, d)
		}
		return &MV{k: 'n', real: &Node{Tag: "n"}}
	case 5:
		m := &MV{k: 'm'}
		nm := j.NewEmptyNativeMap()
		for i := r.Intn(4); i > 0; i-- {
			v := genMV(r, d-1)
			key := pick(r, c17Keys)
			if m.idx(key) < 0 {
				m.keys = append(m.keys, key)
				m.kids = append(m.kids, v)
				nm.Set(key, v.real)
			}
		}
		m.real = nm
		return m
	default:
		a := &MV{k: 'a'}
		l := []j.Ast{}
		digits := r.Intn(3) == 0
		for i := r.Intn(4); i > 0; i-- {
			v := genMV(r, d-1)
			if digits {
				s := strconv.Itoa(r.Intn(10))
				v = &MV{k: 's', s: s, real: j.NewNativeString(s)}
			}
			a.kids = append(a.kids, v)
			l = append(l, v.real)
		}
		a.real = j.NewNativeArray(l)
		return a
	}
}

// bigMV gives an array with thousands of pieces, possibly within others
func bigMV(r *rand.Rand) *MV {
	n := 300 + r.Intn(9000)
	arr := func(kids []*MV) *MV {
		l := []j.Ast{}
		for _, k := range kids {
			l = append(l, k.real)
		}
		return &MV{k: 'a', kids: kids, real: j.NewNativeArray(l)}
	}
	kids := []*MV{}
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i % 10)
		kids = append(kids, &MV{k: 's', s: s, real: j.NewNativeString(s)})
	}
	if r.Intn(3) == 0 { // groups
		var groups []*MV
		for len(kids) > 0 {
			k := 1 + r.Intn(len(kids))
			groups = append(groups, arr(kids[:k:k]))
			kids = kids[k:]
		}
		kids = groups
	}
	a := arr(kids)
	deep := r.Intn(4)
	if r.Intn(6) == 0 {
		deep = 20 + r.Intn(400)
	}
	for d := deep; d > 0; d-- {
		l := []*MV{a}
		if r.Intn(2) == 0 {
			l = append(l, genMV(r, 0))
		}
		if r.Intn(3) == 0 {
			l = append([]*MV{genMV(r, 0)}, l...)
		}
		a = arr(l)
	}
	return a
}

// brief describes it unless it is large
func (m *MV) brief() string {
	if len(m.kids) > 40 {
		return fmt.Sprintf("(%d elements)", len(m.kids))
	}
	return m.describe()
}

func (m *MV) idx(k string) int {
	for i, x := range m.keys {
		if x == k {
			return i
		}
	}
	return -1
}

func (m *MV) describe() string {
	switch m.k {
	case 's':
		return strconv.Quote(m.s)
	case 'i':
		return strconv.Itoa(m.i)
	case 'u':
		return "undefined"
	case 'n':
		return "node"
	}
	var p []string
	for i, k := range m.kids {
		s := k.describe()
		if m.k == 'm' {
			s = m.keys[i] + ": " + s
		}
		p = append(p, s)
	}
	if m.k == 'm' {
		return "{" + strings.Join(p, ", ") + "}"
	}
	return "[" + strings.Join(p, ", ") + "]"
}

// concat: how "ok", "panic", or "?" when not documented
func (m *MV) concat() (s string, how string) {
	switch m.k {
	case 's':
		return m.s, "ok"
	case 'i':
		return strconv.Itoa(m.i), "ok"
	case 'u':
		return "", "ok"
	case 'n':
		return "", "?"
	}
	how = "ok"
	for _, k := range m.kids {
		t, h := k.concat()
		if m.k == 'a' && k.k == 'm' {
			h = "?"
		}
		if m.k == 'm' && k.k == 'n' {
			h = "panic"
		}
		if h != "ok" && how != "?" {
			how = h
		}
		s += t
	}
	return s, how
}

// printed: the pieces of the printed form, in order
func (m *MV) pieces() []string {
	switch m.k {
	case 's':
		return []string{m.s}
	case 'i':
		return []string{strconv.Itoa(m.i)}
	case 'u':
		return []string{j.NewNativeUndefined().String()}
	case 'n':
		return []string{"<n>"}
	}
	var p []string
	for i, k := range m.kids {
		if m.k == 'm' {
			p = append(p, m.keys[i])
		}
		p = append(p, k.pieces()...)
	}
	return p
}

func inOrder(s string, pieces []string) bool {
	for _, p := range pieces {
		i := strings.Index(s, p)
		if i < 0 {
			return false
		}
		s = s[i+len(p):]
	}
	return true
}

func same(a, b j.Ast) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case j.NativeString, j.NativeInt:
		return a == b
	case j.NativeUndefined:
		y, ok := b.(j.NativeUndefined)
		return ok && x.Attr == y.Attr
	}
	return a == b
}

// call runs f and tells whether it panicked
func call(f func()) (panicked bool, what any) {
	defer func() {
		if e := recover(); e != nil {
			panicked, what = true, e
		}
	}()
	f()
	return false, nil
}

func runC17(c *Ctx) {
	r := c.r
	nm := j.NewEmptyNativeMap()
	mm := &MV{k: 'm', real: nm}
	if r.Intn(4) == 0 { // from a Go map: keys in alphabetical order
		h := map[string]j.Ast{}
		vals := map[string]*MV{}
		for i := r.Intn(6); i > 0; i-- {
			k, v := pick(r, c17Keys), genMV(r, 1)
			h[k] = v.real
			vals[k] = v
		}
		for _, k := range sortedKeys(vals) {
			mm.keys = append(mm.keys, k)
			mm.kids = append(mm.kids, vals[k])
		}
		nm = j.NewNativeMap(h)
		mm.real = nm
		if !sort.StringsAreSorted(nm.Keys()) {
			c.fail("the keys of a map made from a Go map have no predictable order", "%q", nm.Keys())
		}
	}
	na := j.NewEmptyNativeArray()
	am := &MV{k: 'a', real: na}
	if r.Intn(4) == 0 {
		am = genMV(r, 2)
		for am.k != 'a' {
			am = genMV(r, 2)
		}
		na = am.real.(*j.NativeArray)
	}
	var log []string
	say := func(f string, a ...any) {
		log = append(log, fmt.Sprintf(f, a...))
		l := log
		if len(l) > 15 {
			l = append([]string{"..."}, l[len(l)-15:]...)
		}
		c.desc = fmt.Sprintf("operations: %s\nmap: %s\narray: %s", strings.Join(l, "; "), mm.brief(), am.brief())
	}
	say("start")
	many := r.Intn(12) == 0
	if many { // many keys, in some order
		n := 9 + r.Intn(60)
		if r.Intn(20) == 0 {
			n = 200 + r.Intn(400)
		}
		order := r.Intn(3)
		say("%d keys, in order %d", n, order)
		perm := r.Perm(n)
		for i := 0; i < n; i++ {
			x := i
			switch order {
			case 1:
				x = n - 1 - i
			case 2:
				x = perm[i]
			}
			k := fmt.Sprintf("m%03d", x)
			if mm.idx(k) >= 0 {
				continue
			}
			v := genMV(r, 0)
			nm.Set(k, v.real)
			mm.keys = append(mm.keys, k)
			mm.kids = append(mm.kids, v)
		}
		c.count("maps with many keys", 1)
	}
	keys := c17Keys[:1+r.Intn(len(c17Keys))]
	for n := 5 + r.Intn(75); n > 0; n-- {
		k := pick(r, keys)
		if r.Intn(15) == 0 {
			k = fmt.Sprint("k", r.Intn(100))
		}
		if many && r.Intn(3) > 0 {
			k = pick(r, mm.keys)
			if r.Intn(4) == 0 {
				k = mm.keys[len(mm.keys)-1]
			} else if r.Intn(6) == 0 {
				k = mm.keys[0] + "x"
			}
		}
		i := mm.idx(k)
		var v *MV
		if i >= 0 {
			v = mm.kids[i]
		}
		switch r.Intn(13) {
		case 0, 1, 2:
			x := genMV(r, 2)
			say("Set(%q, %s)", k, x.describe())
			nm.Set(k, x.real)
			if i >= 0 {
				mm.kids[i] = x
			} else {
				mm.keys = append(mm.keys, k)
				mm.kids = append(mm.kids, x)
			}
		case 3:
			say("Get, GetExists, Exists(%q)", k)
			g := nm.Get(k)
			e, ok := nm.GetExists(k)
			if (i >= 0) != ok || ok != nm.Exists(k) {
				c.fail("presence of a key is wrong", "%q: %v", k, ok)
			}
			if i >= 0 && (!same(g, v.real) || !same(e, v.real)) || i < 0 && g != nil {
				c.fail("a key has not the last value set", "%q: %v", k, g)
			}
		case 4:
			say("IsUndefined(%q)", k)
			if got := nm.IsUndefined(k); got != (i < 0 || v.k == 'u') {
				c.fail("undefinedness of a key is wrong", "%q: %v", k, got)
			}
		case 5:
			say("GetOrPanic(%q)", k)
			var g j.Ast
			p, what := call(func() { g = nm.GetOrPanic(k) })
			if p != (i < 0) || !p && !same(g, v.real) {
				c.fail("GetOrPanic is wrong", "%q: panicked %v %v, value %v", k, p, what, g)
			}
		case 6:
			say("GetStringExists(%q)", k)
			var s string
			var ok bool
			p, what := call(func() { s, ok = nm.GetStringExists(k) })
			switch {
			case i < 0:
				if p || ok || s != "" {
					c.fail("GetStringExists is wrong for an absent key", "%q: panicked %v %v, %q %v", k, p, what, s, ok)
				}
			case v.k == 's' || v.k == 'a':
				want, how := v.concat()
				if how == "ok" && (p || !ok || s != want) {
					c.fail("GetStringExists is wrong", "%q: panicked %v %v, %q %v", k, p, what, s, ok)
				}
			default:
				if !p && ok {
					c.fail("GetStringExists gives a string for something else", "%q: %q", k, s)
				}
			}
		case 7:
			say("GetIntExists(%q)", k)
			var s int
			var ok bool
			p, what := call(func() { s, ok = nm.GetIntExists(k) })
			want, conv, known := 0, false, true
			if i >= 0 {
				want, conv, known = v.asInt()
			}
			switch {
			case i < 0:
				if p || ok || s != 0 {
					c.fail("GetIntExists is wrong for an absent key", "%q: panicked %v %v, %d %v", k, p, what, s, ok)
				}
			case !known:
			case conv:
				if p || !ok || s != want {
					c.fail("GetIntExists is wrong", "%q: panicked %v %v, %d %v", k, p, what, s, ok)
				}
			default:
				if !p && ok {
					c.fail("GetIntExists gives an int for something which is not one", "%q: %d", k, s)
				}
			}
		case 8:
			ks := []string{}
			want := -1
			for x := r.Intn(4); x >= 0; x-- {
				k := pick(r, c17Keys)
				ks = append(ks, k)
				if want < 0 {
					want = mm.idx(k)
				}
			}
			say("GetWhicheverOrPanic(%q)", ks)
			var g j.Ast
			p, what := call(func() { g = nm.GetWhicheverOrPanic(ks) })
			if p != (want < 0) || !p && !same(g, mm.kids[want].real) {
				c.fail("GetWhicheverOrPanic is wrong", "panicked %v %v, value %v", p, what, g)
			}
		case 9:
			say("Keys, IsEmpty, String, Concat")
			if got := nm.Keys(); strings.Join(got, "\x01") != strings.Join(mm.keys, "\x01") || len(got) != len(mm.keys) {
				c.fail("the keys are not those set, in order of first insertion", "%q instead of %q", got, mm.keys)
			}
			if nm.IsEmpty() != (len(mm.keys) == 0) {
				c.fail("IsEmpty is wrong", "%v", nm.IsEmpty())
			}
			c.printed(mm)
			c.concats(mm)
		case 10, 11:
			x := genMV(r, 1)
			say("Append(%s)", x.describe())
			na.Append(x.real)
			am.kids = append(am.kids, x)
		case 12:
			say("Length, Get, Array, String, Concat")
			if na.Length() != len(am.kids) || len(na.Array()) != len(am.kids) {
				c.fail("the length of an array is wrong", "%d instead of %d", na.Length(), len(am.kids))
			}
			for x, a := range am.kids {
				if !same(na.Get(x), a.real) || !same(na.Array()[x], a.real) {
					c.fail("an array has lost what was appended", "at %d", x)
				}
			}
			for _, x := range []int{-1, len(am.kids), len(am.kids) + 1} {
				if p, _ := call(func() { na.Get(x) }); !p {
					c.fail("an element which does not exist was given", "at %d", x)
				}
			}
			c.printed(am)
			c.concats(am)
		}
		c.count("operations", 1)
	}
	c.eval(strings.Join(log, ";"), true)
	for n := 4; n > 0; n-- {
		c.conversions(genMV(r, 2))
	}
	if r.Intn(400) == 0 {
		c.count("large arrays", 1)
		c.conversions(bigMV(r))
	}
	if r.Intn(2500) == 0 {
		c.appends()
	}
	// attributes of maps
	o := j.Origin{Code: pick(r, c17Strings), Line: r.Intn(9), Start: r.Intn(9), End: r.Intn(9)}
	nm.SetOrigin(o)
	if g := nm.GetOrigin(); g.Code != o.Code || g.Line != o.Line || g.Start != o.Start || g.End != o.End || nm.GetLine() != o.Line {
		c.fail("a map does not keep its origin", "%v", g)
	}
	nm.SetLine(7)
	if nm.GetLine() != 7 {
		c.fail("a map does not keep its line", "%d", nm.GetLine())
	}
	if c.wantSample() && len(log) < 20 && !many {
		c.sample("%s => %s %s", strings.Join(log, "; "), mm.describe(), am.describe())
	}
}

// appends builds a large array piece by piece, next to others built from the same pieces
func (c *Ctx) appends() {
	r := c.r
	n := 300 + r.Intn(6000)
	vals := make([]*MV, 2+r.Intn(20))
	for i := range vals {
		vals[i] = genMV(r, 0)
	}
	arrs := make([]*j.NativeArray, 1+r.Intn(3))
	models := make([][]*MV, len(arrs))
	for i := range arrs {
		arrs[i] = j.NewEmptyNativeArray()
		if r.Intn(2) == 0 {
			l := make([]j.Ast, 0, r.Intn(50))
			arrs[i] = j.NewNativeArray(l)
		}
	}
	check := func() {
		for i, a := range arrs {
			c.desc = fmt.Sprintf("%d arrays built by appending, number %d of %d elements", len(arrs), i, len(models[i]))
			if a.Length() != len(models[i]) || len(a.Array()) != len(models[i]) {
				c.fail("the length of an array is wrong", "%d", a.Length())
			}
			for x, v := range models[i] {
				if !same(a.Get(x), v.real) {
					c.fail("an array has lost what was appended", "at %d", x)
				}
			}
		}
	}
	for k := 0; k < n; k++ {
		i := r.Intn(len(arrs))
		v := pick(r, vals)
		arrs[i].Append(v.real)
		models[i] = append(models[i], v)
		if k%997 == 0 {
			check()
		}
	}
	check()
	for i, a := range arrs {
		m := &MV{k: 'a', kids: models[i], real: a}
		c.printed(m)
		c.concats(m)
	}
	c.count("large arrays built by appending", len(arrs))
}

func (m *MV) asInt() (n int, ok bool, known bool) {
	switch m.k {
	case 'i':
		return m.i, true, true
	case 's', 'a':
		s, how := m.concat()
		if how != "ok" {
			return 0, false, false
		}
		n, err := strconv.Atoi(s)
		return n, err == nil, true
	}
	return 0, false, true
}

func (c *Ctx) printed(m *MV) {
	var s string
	if p, what := call(func() { s = m.real.String() }); p {
		c.fail("printing panicked", "%s: %v", m.describe(), what)
	}
	if !inOrder(s, m.pieces()) {
		c.fail("the printed form does not hold the content in order", "%s printed as %q", m.describe(), s)
	}
	if m.k == 's' && s != m.s || m.k == 'i' && s != strconv.Itoa(m.i) {
		c.fail("the printed form is not that of Go", "%q", s)
	}
}

func (c *Ctx) concats(m *MV) {
	want, how := m.concat()
	var got string
	p, what := call(func() {
		switch x := m.real.(type) {
		case *j.NativeMap:
			got = string(x.Concat())
		case *j.NativeArray:
			got = string(x.Concat())
		}
	})
	switch how {
	case "ok":
		c.count("concatenations", 1)
		if p || got != want {
			c.fail("concatenating is wrong", "%s: panicked %v %v, %q instead of %q", m.describe(), p, what, got, want)
		}
	case "panic":
		if !p {
			c.fail("concatenating something which is not native was not refused", "%s: %q", m.describe(), got)
		}
	}
}

func (c *Ctx) conversions(m *MV) {
	c.desc = "value: " + m.brief()
	if s := m.brief(); len(s) > 300 {
		c.desc = "value: " + cut(s, 300)
	}
	c.count("values converted", 1)
	if j.IsUndefined(m.real) != (m.k == 'u') || !j.IsUndefined(nil) {
		c.fail("IsUndefined is wrong", "")
	}
	if j.IsParseError(m.real) {
		c.fail("a native value is taken for a parse error", "")
	}
	c.printed(m)
	if m.k == 'a' || m.k == 'm' {
		c.concats(m)
	}
	// to int
	n, ok, known := m.asInt()
	for name, f := range map[string]func(j.Ast) j.Ast{"NativeIntFrom": j.NativeIntFrom, "NewNativeIntFrom": func(x j.Ast) j.Ast { return j.NewNativeIntFrom(x) }} {
		var got j.Ast
		p, what := call(func() { got = f(m.real) })
		if known && ok {
			if p || got != j.Ast(j.NativeInt(n)) {
				c.fail(name+" is wrong", "panicked %v %v, %v instead of %d", p, what, got, n)
			}
		} else if known && !p {
			c.fail(name+" gives a wrong value instead of refusing", "%v", got)
		}
	}
	if m.k == 's' {
		want, err := strconv.Atoi(m.s)
		var got j.NativeInt
		p, _ := call(func() { got = j.NewNativeIntFromString(m.s) })
		if p != (err != nil) || !p && got.Int() != want {
			c.fail("NewNativeIntFromString is wrong", "panicked %v, %v", p, got)
		}
		if j.NewNativeString(m.s) != j.NativeString(m.s) {
			c.fail("NewNativeString is wrong", "")
		}
	}
	if m.k == 'i' {
		x := m.real.(j.NativeInt)
		if x.Int() != m.i || x.Bool() != (m.i != 0) || j.NewNativeIntFromBool(m.i > 0).Bool() != (m.i > 0) || j.NewNativeIntFromBool(m.i > 0).Int()&^1 != 0 {
			c.fail("an int does not keep its value", "")
		}
	}
	// to string
	var got j.Ast
	p, what := call(func() { got = j.NativeStringFrom(m.real) })
	switch m.k {
	case 's', 'i', 'a':
		s, how := m.concat()
		if how == "ok" && (p || got != j.Ast(j.NativeString(s)) || j.NewNativeStringFrom(m.real) != j.NativeString(s)) {
			c.fail("NativeStringFrom is wrong", "panicked %v %v, %v instead of %q", p, what, got, s)
		}
	default:
		if !p {
			c.fail("NativeStringFrom gives a wrong value instead of refusing", "%v", got)
		}
	}
}
