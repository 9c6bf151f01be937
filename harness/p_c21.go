package main

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

func init() {
	register(&Prop{ID: "C21", Quick: 350000, Thorough: 4000000, Run: runC21,
		Rule: "A case is a random list with 30 bisections and sorted insertions, a random text (also not UTF-8) with all its slices between random bounds, its last runes, paddings, escapes and colours put on and removed, a random map whose keys are sorted, or a random sequence of operations on a lazy value compared with a model, with evaluators that panic; one in eight is a lazy value read by 2 to 12 goroutines at once in a binary built with the race detector. Non-trivial: a list of at least 3 numbers, a text of at least 3 bytes, a lazy value with at least 3 operations; distinct by arguments."})
}

func runC21(c *Ctx) {
	switch c.r.Intn(8) {
	case 0, 1:
		c.bisection()
	case 2, 3, 4:
		c.strHelpers()
	case 5:
		c.smallHelpers()
	case 6:
		c.lazyModel()
	case 7:
		c.lazyShared()
	}
}

func (c *Ctx) bisection() {
	n := c.r.Intn(12)
	if c.r.Intn(6) == 0 {
		n = c.r.Intn(300)
	}
	if c.r.Intn(100) == 0 {
		n = c.r.Intn(9000)
	}
	rng := pick(c.r, []int{2, 5, 40, 1000, 100000})
	a := make([]int, n, n+c.r.Intn(5))
	for i := range a {
		a[i] = c.r.Intn(rng) - rng/2
		if c.r.Intn(20) == 0 {
			a[i] = pick(c.r, []int{math.MaxInt, math.MinInt, math.MaxInt32, math.MinInt32})
		}
	}
	sort.Ints(a)
	c.desc = fmt.Sprintf("list %v", a)
	c.eval(c.desc, n >= 3)
	for k := 0; k < 30; k++ {
		x := c.r.Intn(rng+4) - rng/2 - 2
		if c.r.Intn(15) == 0 {
			x = pick(c.r, []int{math.MaxInt, math.MinInt})
		}
		left, right := 0, 0
		for _, v := range a {
			if v < x {
				left++
			}
			if v <= x {
				right++
			}
		}
		if n < 300 || k == 0 {
			c.desc = fmt.Sprintf("list %v, item %d", a, x)
		}
		if got := helpers.BisectLeft(a, x); got != left {
			c.fail("BisectLeft", "%d instead of %d", got, left)
		}
		if got := helpers.BisectRight(a, x); got != right {
			c.fail("BisectRight", "%d instead of %d", got, right)
		}
		f, at, name := helpers.InsortLeft, left, "InsortLeft"
		if c.r.Intn(2) == 0 {
			f, at, name = helpers.InsortRight, right, "InsortRight"
		}
		want := append(append(append([]int{}, a[:at]...), x), a[at:]...)
		got := f(a, x)
		if !slices.Equal(got, want) {
			c.desc = fmt.Sprintf("list %v, item %d", a, x)
			c.fail(name, "%v instead of %v", got, want)
		}
		c.count("insertions", 1)
		a = got
	}
}

func (c *Ctx) strHelpers() {
	s := c.streamText()
	if most := pick(c.r, []int{60, 60, 60, 60, 60, 60, 60, 60, 60, 60, 60, 5000}); len(s) > most {
		s = s[:c.r.Intn(most)]
	} else if most > 60 && len(s) < 100 {
		s = strings.Repeat(s, c.r.Intn(60))
	}
	if c.r.Intn(6) == 0 {
		s = hostileText(c.r, []rune("ab é"), 1+c.r.Intn(40))
	}
	c.desc = fmt.Sprintf("%q", s)
	c.eval(c.desc, len(s) >= 3)
	num := func() int {
		switch c.r.Intn(10) {
		case 0:
			return pick(c.r, []int{math.MaxInt32, -math.MaxInt32, 1 << 40, -(1 << 40)})
		case 1:
			return pick(c.r, []int{0, -1, len(s), -len(s), len(s) + 1, -len(s) - 1})
		}
		return c.r.Intn(2*len(s)+9) - len(s) - 4
	}
	for k := 0; k < 12; k++ {
		a, b := num(), num()
		// as String.prototype.slice
		from, to := a, b
		if from < 0 {
			from += len(s)
		}
		if to < 0 {
			to += len(s)
		}
		clamp := func(x int) int {
			if x < 0 {
				return 0
			}
			if x > len(s) {
				return len(s)
			}
			return x
		}
		from, to = clamp(from), clamp(to)
		want := ""
		if from < to {
			want = s[from:to]
		}
		if got := helpers.SliceString(s, a, b); got != want {
			c.fail("SliceString", "(%d, %d): %q instead of %q", a, b, got, want)
		}
		c.count("slices", 1)
	}
	// runes, from the first on
	var runes []string
	for rest := s; rest != ""; {
		_, n := utf8.DecodeRuneInString(rest)
		runes = append(runes, rest[:n])
		rest = rest[n:]
	}
	for k := 0; k < 6; k++ {
		n := c.r.Intn(len(runes) + 4)
		switch c.r.Intn(8) {
		case 0:
			n = -c.r.Intn(5)
		case 1:
			n = len(runes)
		case 2:
			n = pick(c.r, []int{100000, math.MaxInt32, len(s), len(s) + 1})
		}
		take := n
		if take > len(runes) {
			take = len(runes)
		}
		if take < 0 {
			take = 0
		}
		want := strings.Join(runes[len(runes)-take:], "")
		if got := helpers.LastNRunes(s, n); got != want {
			c.fail("LastNRunes", "%d: %q instead of %q", n, got, want)
		}
		var last strings.Builder
		for i := len(runes); i > len(runes)-take; i-- {
			last.WriteString(runes[i-1])
		}
		rev := last.String()
		if got := helpers.LastNRunesReversed(s, n); got != rev {
			c.fail("LastNRunesReversed", "%d: %q instead of %q", n, got, rev)
		}
		c.count("last runes", 1)
	}
	n := c.r.Intn(2*len(s)+6) - 3
	if c.r.Intn(8) == 0 {
		n = c.r.Intn(pick(c.r, []int{100, 300, 1100, 5000, 70000}))
	}
	fill := strings.Repeat(" ", max(0, n-len(s)))
	if got := helpers.PadLeft(s, n); got != s+fill {
		c.fail("PadLeft", "%d: %q", n, got)
	}
	if got := helpers.PadRight(s, n); got != fill+s {
		c.fail("PadRight", "%d: %q", n, got)
	}
	if got := helpers.Escape(s); got != escapeModel(s) {
		c.fail("Escape", "%q instead of %q", got, escapeModel(s))
	}
	if got := helpers.EscapeButKeepNonAscii(s); got != escapeModel(s) {
		c.fail("EscapeButKeepNonAscii", "%q instead of %q", got, escapeModel(s))
	}
	c.colours()
}

type colour struct {
	name string
	f    func(string) string
	code string
}

var colourList = []colour{
	{"Black", j.Black, "30"}, {"Red", j.Red, "31"}, {"Green", j.Green, "32"}, {"Yellow", j.Yellow, "33"},
	{"Blue", j.Blue, "34"}, {"Magenta", j.Magenta, "35"}, {"Cyan", j.Cyan, "36"}, {"White", j.White, "37"},
	{"BoldBlack", j.BoldBlack, "1;30"}, {"BoldRed", j.BoldRed, "1;31"}, {"BoldGreen", j.BoldGreen, "1;32"}, {"BoldYellow", j.BoldYellow, "1;33"},
	{"BoldBlue", j.BoldBlue, "1;34"}, {"BoldMagenta", j.BoldMagenta, "1;35"}, {"BoldCyan", j.BoldCyan, "1;36"}, {"BoldWhite", j.BoldWhite, "1;37"},
	{"Bold", j.Bold, "1"},
}

// anyCode is a code of terminals: up to 8 numbers, then a letter
func anyCode(c *Ctx) string {
	s := "\x1b["
	for k := c.r.Intn(9); k > 0; k-- {
		s += fmt.Sprint(c.r.Intn(pick(c.r, []int{10, 100, 256, 10000})))
		if k > 1 {
			s += ";"
		}
	}
	return s + pick(c.r, []string{"m", "m", "m", "K", "J", "H", "A", "B", "C", "D", "f", "h", "l", "n"})
}

// colours puts colours on texts, one in another or one after another, and
// takes them off
func (c *Ctx) colours() {
	text := func() string {
		s := randText(c.r, []rune("ab1;2m[]( )?#\n\t世é0K~{\\"), 12)
		if c.r.Intn(5) == 0 {
			s += "[31m" // not a code without the escape character
		}
		return s
	}
	var build func(d int) (string, string)
	build = func(d int) (string, string) {
		p, q := "", ""
		for k := c.r.Intn(3); k >= 0; k-- {
			if d > 0 && c.r.Intn(2) == 0 {
				in, raw := build(d - 1)
				x := pick(c.r, colourList)
				got := x.f(in)
				if want := "\x1b[" + x.code + "m" + in + "\x1b[0m"; got != want {
					c.fail("colour "+x.name, "%q instead of %q", got, want)
				}
				p, q = p+got, q+raw
			} else {
				t := text()
				p, q = p+t, q+t
				if c.r.Intn(6) == 0 {
					p += anyCode(c)
				}
			}
		}
		return p, q
	}
	coloured, raw := build(3)
	if got := helpers.StripAnsi(coloured); got != raw {
		c.fail("StripAnsi", "%q\nbecame %q\ninstead of %q", coloured, got, raw)
	}
	if coloured != raw {
		c.count("texts which lost colours", 1)
	}
}

func (c *Ctx) smallHelpers() {
	ints := map[int]bool{}
	strs := map[string]int{}
	k := c.r.Intn(20)
	wide := 100
	if c.r.Intn(30) == 0 {
		k, wide = c.r.Intn(3000), 1000000
	}
	for ; k > 0; k-- {
		ints[c.r.Intn(wide)-wide/2] = true
		strs[randText(c.r, []rune("abB1é世 "), 4)] = k
	}
	c.desc = fmt.Sprintf("%v %q", ints, strs)
	c.eval(c.desc, len(ints) >= 3)
	ik := helpers.SortIntKeys(ints)
	if len(ik) != len(ints) || !sort.IntsAreSorted(ik) {
		c.fail("SortIntKeys", "%v", ik)
	}
	for _, k := range ik {
		if !ints[k] {
			c.fail("SortIntKeys", "%v", ik)
		}
		delete(ints, k)
	}
	n := len(strs)
	sk := helpers.SortStringKeys(strs)
	if len(sk) != n || !sort.StringsAreSorted(sk) {
		c.fail("SortStringKeys", "%q", sk)
	}
	for _, k := range sk {
		if _, has := strs[k]; !has {
			c.fail("SortStringKeys", "%q", sk)
		}
		delete(strs, k)
	}
	for k := 0; k < 10; k++ {
		a, b := c.r.Intn(7)-3, c.r.Intn(7)-3
		if c.r.Intn(5) == 0 {
			a = pick(c.r, []int{math.MaxInt, math.MinInt})
		}
		lo, hi := a, b
		if b < a {
			lo, hi = b, a
		}
		if helpers.Min(a, b) != lo || helpers.Max(a, b) != hi {
			c.fail("Min or Max", "(%d, %d): %d, %d", a, b, helpers.Min(a, b), helpers.Max(a, b))
		}
		s, t := randText(c.r, []rune("ab"), 2), randText(c.r, []rune("ab"), 2)
		if m := helpers.Min(s, t); (m != s && m != t) || m > s || m > t {
			c.fail("Min of texts", "(%q, %q): %q", s, t, m)
		}
		if m := helpers.Max(s, t); (m != s && m != t) || m < s || m < t {
			c.fail("Max of texts", "(%q, %q): %q", s, t, m)
		}
	}
	d := c.r.Intn(30) - 1
	if c.r.Intn(8) == 0 {
		d = c.r.Intn(pick(c.r, []int{100, 300, 3000}))
	}
	want := ""
	for i := 0; i < d; i++ {
		want += "  "
	}
	if got := helpers.Indent(d); got != want {
		c.fail("Indent", "%d: %q", d, got)
	}
	if helpers.BoolToString(true) != "y" || helpers.BoolToString(false) != "n" {
		c.fail("BoolToString", "")
	}
	if helpers.TypeOfToString(3) != "int" || helpers.TypeOfToString(j.NewNativeString("")) != "joeson.NativeString" || helpers.TypeOfToString(j.NewEmptyNativeMap()) != "*joeson.NativeMap" {
		c.fail("TypeOfToString", "")
	}
	o := &j.TraceOptions{Stack: c.r.Intn(2) == 0, Loop: c.r.Intn(2) == 0, Grammar: c.r.Intn(2) == 0, SkipSetup: c.r.Intn(2) == 0, FilterLine: c.r.Intn(9) - 1}
	was := *o
	cp := o.Copy()
	if *cp != was {
		c.fail("a copy of trace options differs", "%+v instead of %+v", *cp, was)
	}
	cp.Stack, cp.FilterLine = !cp.Stack, 77
	if *o != was {
		c.fail("a copy of trace options is not independent", "")
	}
}

// lazyModel runs random operations on one lazy value
func (c *Ctx) lazyModel() {
	calls := 0
	next := 0
	// an evaluator: what it gives, or a panic
	eval := func() (func() string, string, bool) {
		next++
		v := fmt.Sprintf("v%d", next)
		if c.r.Intn(3) == 0 {
			v = "" // as if there were nothing
		}
		bad := c.r.Intn(5) == 0
		return func() string {
			calls++
			if bad {
				panic("evaluator of " + v)
			}
			return v
		}, v, bad
	}
	var lz *helpers.Lazy[string]
	var log []string
	set, val := false, ""
	fval, hasF, bad := "", false, false
	switch c.r.Intn(3) {
	case 0:
		lz = helpers.NewLazy[string]()
		log = append(log, "NewLazy")
	case 1:
		next++
		val, set = fmt.Sprintf("v%d", next), true
		lz = helpers.LazyFromValue(val)
		log = append(log, "LazyFromValue "+val)
	default:
		var f func() string
		f, fval, bad = eval()
		hasF = true
		lz = helpers.LazyFromFunc(f)
		log = append(log, "LazyFromFunc "+fval)
	}
	n := 3 + c.r.Intn(20)
	for k := 0; k < n; k++ {
		c.desc = strings.Join(log, "; ")
		switch c.r.Intn(9) {
		case 0:
			next++
			val, set = fmt.Sprintf("v%d", next), true
			if c.r.Intn(4) == 0 {
				val = ""
			}
			log = append(log, "Set "+val)
			lz.Set(val)
		case 1:
			if c.r.Intn(2) == 0 {
				continue
			}
			log = append(log, "Clear")
			lz.Clear()
			set, hasF = false, false
		case 2:
			var f func() string
			f, fval, bad = eval()
			hasF = true
			log = append(log, fmt.Sprintf("SetLazy %s (panics: %v)", fval, bad))
			lz.SetLazy(f)
		case 3, 4:
			log = append(log, "IsSet")
			if lz.IsSet() != set {
				c.fail("IsSet", "%v instead of %v\n%s", !set, set, c.desc)
			}
		default:
			log = append(log, "Get")
			before := calls
			var got string
			pan, what := call(func() { got = lz.Get() })
			switch {
			case set:
				if pan || got != val || calls != before {
					c.fail("Get of a value which is there", "%q (%v) instead of %q, %d evaluations", got, what, val, calls-before)
				}
			case hasF && bad:
				if !pan || calls != before+1 || fmt.Sprint(what) != "evaluator of "+fval {
					c.fail("Get with an evaluator which panics", "%q %v, %d evaluations", got, what, calls-before)
				}
			case hasF:
				if pan || got != fval || calls != before+1 {
					c.fail("Get with an evaluator", "%q (%v) instead of %q, %d evaluations", got, what, fval, calls-before)
				}
				set, val = true, fval
			default:
				// there is nothing to get: not specified, but it remains usable
			}
		}
		c.count("operations on lazy values", 1)
	}
	c.desc = strings.Join(log, "; ")
	c.eval(c.desc, true)
}

// lazyShared reads one lazy value from several goroutines
func (c *Ctx) lazyShared() {
	n := 2 + c.r.Intn(11)
	var calls atomic.Int64
	pause := time.Duration(c.r.Intn(3)*c.r.Intn(40)) * time.Microsecond
	fails := c.r.Intn(4) == 0
	shared := &[]int{}
	lz := helpers.LazyFromFunc(func() *[]int {
		k := calls.Add(1)
		time.Sleep(pause)
		if fails && k == 1 {
			panic("first evaluation")
		}
		v := &[]int{}
		*v = append(*v, int(k))
		shared = v
		return v
	})
	c.desc = fmt.Sprintf("%d goroutines, evaluation takes %v, first evaluation panics: %v", n, pause, fails)
	got := make([]*[]int, n)
	asked := make([]bool, n)
	var order []int
	var mu sync.Mutex
	var wg sync.WaitGroup
	start := make(chan struct{})
	waits := make([]time.Duration, n)
	for i := range waits {
		waits[i] = time.Duration(c.r.Intn(2)*c.r.Intn(60)) * time.Microsecond
	}
	panics := 0
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			time.Sleep(waits[i])
			if i%3 == 1 {
				asked[i] = lz.IsSet()
			}
			pan, _ := call(func() { got[i] = lz.Get() })
			mu.Lock()
			defer mu.Unlock()
			if pan {
				panics++
			}
			order = append(order, i)
		}(i)
	}
	close(start)
	wg.Wait()
	want := int64(1)
	if fails {
		want = 2
	}
	if calls.Load() != want || (panics == 1) != fails || panics > 1 {
		c.fail("a lazy value is not evaluated once", "%d evaluations, %d panics", calls.Load(), panics)
	}
	for i, v := range got {
		if v != shared && !(v == nil && fails) {
			c.fail("goroutines got different values", "%d", i)
		}
	}
	if !lz.IsSet() {
		c.fail("a lazy value is lost", "")
	}
	c.count("goroutines", n)
	c.state("orders of readers", fmt.Sprint(n, order))
	c.eval(fmt.Sprint(n, order), n >= 3)
}
