package main

// Model of a cursor over a text, for C14 and C15.

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	j "github.com/grepsuzette/joeson"
)

type streamModel struct {
	work     string
	original string
	place    func(pos int) (off int, known bool) // in the original
	pos      int
	log      []string
}

func (m *streamModel) lineCol(off int) (int, int) {
	end := off
	if end > len(m.original) {
		end = len(m.original)
	}
	line := strings.Count(m.original[:end], "\n")
	start := strings.LastIndexByte(m.original[:end], '\n') + 1
	return line, off - start
}

// lines of the original
func (m *streamModel) lines(from, to int) string {
	ls := strings.Split(m.original, "\n")
	if from < 0 {
		from = 0
	}
	if to > len(ls)-1 {
		to = len(ls) - 1
	}
	if from > to {
		return ""
	}
	return strings.Join(ls[from:to+1], "\n")
}

func (c *Ctx) sfail(m *streamModel, what, f string, a ...any) {
	log := m.log
	if len(log) > 12 {
		log = append([]string{"..."}, log[len(log)-12:]...)
	}
	c.desc += "\noperations: " + strings.Join(log, "; ")
	c.fail(what, f, a...)
}

// checkCoords: every position, or a sample of them
func (c *Ctx) checkCoords(cs j.CodeStream, m *streamModel, max int, unique bool) {
	seen := map[[2]int]int{}
	step := 1
	if len(m.work) > max {
		step = 1 + len(m.work)/max
	}
	p := 0
	for {
		off, known := m.place(p)
		if known {
			l, k := cs.PosToLine(p), cs.PosToCol(p)
			wl, wk := m.lineCol(off)
			c.count("positions located", 1)
			if l != wl || k != wk {
				c.sfail(m, "a position is not at the line and column it should", "position %d (offset %d): line %d, column %d; should be line %d, column %d", p, off, l, k, wl, wk)
			}
			if q, dup := seen[[2]int{l, k}]; dup && unique {
				c.sfail(m, "two positions have the same line and column", "%d and %d", q, p)
			}
			seen[[2]int{l, k}] = p
		}
		if p == len(m.work) {
			break
		}
		p += step
		if step > 1 {
			p -= c.r.Intn(step)
		}
		if p > len(m.work) {
			p = len(m.work)
		}
	}
}

// what Print gives: the offset, the length, and the text before and after
var printedPlace = regexp.MustCompile(`(?s)offset (-?\d+)/(\d+): '(.*)'$`)

var streamRex = []string{"a", "[a-z]+", ".", "[\\s\\S]", "\\n*", "(?s).*", ".*", "[^\\n]+", "$", "^", "^a", "\\b", "é|世", "a*?", "b+", "(?m)^", "(?m)$", "[[:space:]]+", "[^a]", "x|", "\\w+", "(a|b)*", "\\pL", ";"}

// op does one random operation on both
func (c *Ctx) streamOp(cs j.CodeStream, m *streamModel) {
	r := c.r
	say := func(f string, a ...any) { m.log = append(m.log, fmt.Sprintf(f, a...)) }
	rest := m.work[m.pos:]
	boundary := utf8.ValidString(m.work) && utf8.ValidString(rest)
	moved := m.pos
	k := r.Intn(13)
	if rest == "" && r.Intn(2) == 0 {
		k = 0
	}
	switch k {
	case 0: // SetPos
		p := r.Intn(len(m.work) + 1)
		if boundary && r.Intn(4) > 0 {
			for p < len(m.work) && !utf8.RuneStart(m.work[p]) {
				p++
			}
		}
		say("SetPos(%d)", p)
		cs.SetPos(p)
		moved = p
	case 1: // out of range
		p := pick(r, []int{-1, -2, -1000000, len(m.work) + 1, len(m.work) + 2, len(m.work) * 2, 1 << 40, -1 << 63})
		if p >= 0 && p <= len(m.work) {
			return
		}
		say("SetPos(%d)", p)
		if o := runParse(func() j.Ast { cs.SetPos(p); return nil }); o.Kind != "panic" {
			c.sfail(m, "an out-of-range position was accepted", "%d of %d", p, len(m.work))
		}
		c.count("out-of-range positions refused", 1)
	case 2, 3: // MatchString
		s := ""
		switch r.Intn(6) {
		case 0:
		case 1:
			s = randText(r, []rune("ab\né世"), 3)
		case 2:
			s = rest + pick(r, []string{"a", "\n", "é"})
		case 3:
			s = rest[:r.Intn(len(rest)+1)]
			if s != "" {
				b := []byte(s)
				b[r.Intn(len(b))] ^= 1 << r.Intn(7)
				s = string(b)
			}
		default:
			n := r.Intn(len(rest) + 1)
			if n > 6 && r.Intn(4) > 0 {
				n = r.Intn(6)
			}
			s = rest[:n]
		}
		say("MatchString(%q)", s)
		ok, got := cs.MatchString(s)
		want := strings.HasPrefix(rest, s)
		c.count("MatchString "+map[bool]string{true: "hit", false: "miss"}[want], 1)
		if ok != want || (ok && got != s) || (!ok && got != "") {
			c.sfail(m, "MatchString does not obey the text", "%v %q at %d", ok, got, m.pos)
		}
		if want {
			moved += len(s)
		}
	case 4, 5: // MatchRegexp
		src := pick(r, streamRex)
		if r.Intn(4) == 0 {
			n := r.Intn(len(rest) + 1)
			for n < len(rest) && !utf8.RuneStart(rest[n]) {
				n++
			}
			if utf8.ValidString(rest[:n]) && n < 50 {
				src = regexp.QuoteMeta(rest[:n]) + pick(r, []string{"", "+", "?", "$", "."})
			}
		}
		re, err := regexp.Compile(src)
		if err != nil {
			return
		}
		say("MatchRegexp(%q)", src)
		want := regexp.MustCompile(`\A(?:` + src + `)`).FindStringIndex(rest)
		ok, got := cs.MatchRegexp(*re)
		c.count("MatchRegexp "+map[bool]string{true: "hit", false: "miss"}[want != nil], 1)
		if ok != (want != nil) {
			c.sfail(m, "MatchRegexp does not obey the text", "%v %q at %d", ok, got, m.pos)
		}
		if want != nil {
			if got != rest[:want[1]] {
				c.sfail(m, "MatchRegexp does not return what it matched", "%q instead of %q at %d", got, rest[:want[1]], m.pos)
			}
			moved += want[1]
		} else if got != "" {
			c.sfail(m, "MatchRegexp returns something when it fails", "%q at %d", got, m.pos)
		}
	case 6, 7: // MatchRune
		cur, size := utf8.DecodeRuneInString(rest)
		other := pick(r, []rune("ab\né世x"))
		kind := r.Intn(4)
		f := []func(rune) bool{func(x rune) bool { return x == cur }, func(x rune) bool { return x == other }, func(rune) bool { return true }, func(rune) bool { return false }}[kind]
		say("MatchRune(#%d)", kind)
		want := rest != "" && f(cur)
		ok, got := cs.MatchRune(f)
		c.count("MatchRune "+map[bool]string{true: "hit", false: "miss"}[want], 1)
		if ok != want || (ok && got != cur) {
			c.sfail(m, "MatchRune does not obey the text", "%v %q at %d", ok, got, m.pos)
		}
		if want {
			moved += size
		}
	case 8, 9: // PeekRunes
		n := r.Intn(17) - 8
		if r.Intn(10) == 0 {
			n = pick(r, []int{1000000, -1000000, len(m.work), -len(m.work)})
		}
		say("PeekRunes(%d)", n)
		got := cs.PeekRunes(n)
		if boundary && utf8.ValidString(m.work[:m.pos]) {
			var want []rune
			if n > 0 {
				want = []rune(rest)
				if n < len(want) {
					want = want[:n]
				}
			} else {
				want = []rune(m.work[:m.pos])
				if -n < len(want) {
					want = want[len(want)+n:]
				}
			}
			c.count("runes peeked", len(want))
			if got != string(want) {
				c.sfail(m, "PeekRunes does not give the piece of text", "%q instead of %q", got, string(want))
			}
		}
	case 10: // PeekLines
		a := []int{}
		for i := r.Intn(4); i > 0; i-- {
			a = append(a, r.Intn(9)-4)
			if r.Intn(10) == 0 {
				a[len(a)-1] *= 1000000
			}
		}
		say("PeekLines(%v)", a)
		got := cs.PeekLines(a...)
		off, known := m.place(m.pos)
		if known {
			line, _ := m.lineCol(off)
			lo, hi := 0, 0
			if len(a) > 1 {
				lo, hi = a[0], a[0]
			}
			for _, x := range a {
				if x < lo {
					lo = x
				}
				if x > hi {
					hi = x
				}
			}
			want := m.lines(line+lo, line+hi)
			if line+hi < 0 || line+lo > strings.Count(m.original, "\n") {
				want = ""
			}
			c.count("PeekLines", 1)
			if got != want {
				c.sfail(m, "PeekLines does not give the lines", "%q instead of %q", got, want)
			}
		}
	case 11: // GetUntil
		end := pick(r, []string{"a", "\n", "é", "ab", "世", "bb", ";\n", "zzz"})
		say("GetUntil(%q)", end)
		i := strings.Index(rest, end)
		got := cs.GetUntil(end)
		if i >= 0 {
			c.count("GetUntil hit", 1)
			moved += i + len(end)
			if got != m.work[m.pos:moved] {
				c.sfail(m, "GetUntil does not give the text up to the needle", "%q instead of %q", got, m.work[m.pos:moved])
			}
		} else {
			// its two descriptions differ: nothing, or all of the rest
			c.count("GetUntil miss", 1)
			if got != "" && got != rest {
				c.sfail(m, "GetUntil gives something else than nothing or the rest", "%q", got)
			}
			if got == rest {
				moved = len(m.work)
			}
		}
	case 12:
		say("Print, Code, Length, Line, Col")
		p := cs.Print()
		_ = cs.PrintDebug()
		if p == "" {
			c.sfail(m, "Print gives nothing", "")
		}
		if cs.Code() != m.original || cs.Length() != len(m.original) {
			c.sfail(m, "Code or Length is not that of the text", "%q %d", cs.Code(), cs.Length())
		}
		if off, known := m.place(m.pos); known {
			l, k := m.lineCol(off)
			if cs.Line() != l || cs.Col() != k {
				c.sfail(m, "Line or Col is not that of the position", "line %d, column %d instead of %d, %d", cs.Line(), cs.Col(), l, k)
			}
			if x := printedPlace.FindStringSubmatch(plain(p)); off <= len(m.original) && !strings.Contains(m.original, "\x1b") {
				c.count("places printed", 1)
				around := ""
				if x != nil {
					around = x[3]
				}
				i := -1
				for k := range around { // the text itself may have a |
					if around[k] == '|' && strings.HasSuffix(m.original[:off], around[:k]) && strings.HasPrefix(m.original[off:], around[k+1:]) &&
						(k > 0 || off == 0) && (k+1 < len(around) || off == len(m.original)) {
						i = k
					}
				}
				if x == nil || x[1] != strconv.Itoa(off) || x[2] != strconv.Itoa(len(m.original)) || i < 0 {
					c.sfail(m, "what is printed is not the place of the cursor", "%q, at %d of %d", plain(p), off, len(m.original))
				}
			}
		}
	}
	m.pos = moved
	c.count("operations", 1)
	if cs.Pos() != m.pos {
		c.sfail(m, "the position is not where it should be", "%d instead of %d", cs.Pos(), m.pos)
	}
}
