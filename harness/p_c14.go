package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register(&Prop{ID: "C14", Quick: 800000, Thorough: 6000000, Run: runC14,
		Rule: "A case is a random text (empty to 180 kB, multi-byte, many or no lines, sometimes not valid UTF-8), the location of its positions (all, or up to 400) and a history of up to 120 random cursor operations, each compared with a model. Non-trivial: the text has at least 2 lines or a multi-byte character and 10 operations were compared; distinct by text and operations."})
}

func (c *Ctx) streamText() string {
	r := c.r
	alpha := pick(r, [][]rune{[]rune("ab"), []rune("a\n"), []rune("ab\n"), []rune("aé世😀\n"), []rune("ab \t\r\n"), []rune("a\u2028\u0085\n\v\f"), []rune("\n"), []rune("e\u0301\ufffd\n"), []rune("a;\nb")})
	n := pick(r, []int{0, 1, 2, 5, 10, 30, 30, 100, 300})
	switch r.Intn(40) {
	case 0:
		n = 2000 + r.Intn(10000)
	case 2:
		if r.Intn(12) == 0 { // counters of 16 bits do not do
			k := 30000 + r.Intn(60000)
			if r.Intn(2) == 0 {
				return strings.Repeat(pick(r, []string{"\n", "a\n", "é\n"}), k) + randText(r, alpha, 20)
			}
			return randText(r, alpha, 20) + strings.Repeat(pick(r, []string{"a", "ab", "世"}), k) + randText(r, alpha, 20)
		}
	case 1: // many short lines
		return strings.Repeat(randText(r, []rune("ab"), 5)+"\n", 200+r.Intn(1500))
	}
	t := randText(r, alpha, n)
	if r.Intn(12) == 0 && t != "" { // not valid UTF-8
		b := []byte(t)
		for i := r.Intn(3); i >= 0; i-- {
			b[r.Intn(len(b))] = byte(128 + r.Intn(128))
		}
		t = string(b)
	}
	return t
}

func runC14(c *Ctx) {
	t := c.streamText()
	c.desc = fmt.Sprintf("text: %q", cut(t, 3000))
	cs := j.NewRuneStream(t)
	m := &streamModel{work: t, original: t, place: func(p int) (int, bool) { return p, true }}
	if cs.Pos() != 0 || cs.Code() != t || cs.Length() != len(t) {
		c.fail("a new stream is not at the start of its text", "")
	}
	c.checkCoords(cs, m, 400, true)
	n := 10 + c.r.Intn(110)
	for i := 0; i < n; i++ {
		c.streamOp(cs, m)
	}
	c.checkCoords(cs, m, 20, true) // whatever was done
	if cs.Pos() != m.pos {
		c.sfail(m, "locating positions moved the cursor", "")
	}
	if strings.Contains(t, "\n") {
		c.count("texts of several lines", 1)
	}
	if !utf8.ValidString(t) {
		c.count("texts not valid UTF-8", 1)
	}
	c.eval(t+"\x00"+strings.Join(m.log, ";"), strings.Contains(t, "\n") || len(t) > utf8.RuneCountInString(t))
	if c.wantSample() && len(t) < 40 && len(t) > 10 {
		c.sample("text %q: %s", t, cut(strings.Join(m.log, "; "), 600))
	}
}
