package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{ID: "C08", Quick: 77000, Thorough: 800000, Run: runC08,
		Rule: "A case is a random grammar (one in five left-recursive) and up to 16 texts, most of them not in its language, many over several lines and with multi-byte characters; each failure must be a parse error whose offset, line and column are read from its message: in range, consistent with the line breaks of the text, and (without left recursion) equal to the furthest position at which a rule began and matched in the reference, or to the end of the matched prefix if that is further. Non-trivial: the parse fails and the expected offset is not 0; distinct by grammar and text."})
}

var errPos = regexp.MustCompile(`char:(\d+)=\(line:(\d+),col:(\d+)\)`)

// parseErrPos reads the place out of an error message
func parseErrPos(s string) (pos, line, col int, ok bool) {
	m := errPos.FindStringSubmatch(s)
	if m == nil {
		return 0, 0, 0, false
	}
	pos, _ = strconv.Atoi(m[1])
	line, _ = strconv.Atoi(m[2])
	col, _ = strconv.Atoi(m[3])
	return pos, line, col, true
}

func lineCol(text string, pos int) (int, int) {
	line := strings.Count(text[:pos], "\n")
	return line, pos - (strings.LastIndexByte(text[:pos], '\n') + 1)
}

func runC08(c *Ctx) {
	var g *Gram
	var alpha []rune
	lr := c.r.Intn(5) == 0
	if lr {
		g, alpha = genLR(c.r)
		alpha = append(alpha, '\n')
	} else {
		p := newProf(c.r, c.r.Intn(4) == 0)
		if c.r.Intn(3) > 0 {
			p.alpha = pick(c.r, [][]rune{[]rune("a\n"), []rune("ab\n"), []rune("é\n世"), []rune("a\r\n"), []rune("a\n😀")})
		}
		g = genGram(c.r, p)
		alpha = p.alpha
		for _, r := range g.Rules {
			if c.r.Intn(8) == 0 && !g.merged(r.Name) {
				r.CB = pick(c.r, []int{cbNode, cbNil})
			}
		}
	}
	b, err := g.build(nil)
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	c.count("grammars", 1)
	texts := g.texts(c.r, alpha, 14, 12)
	if c.r.Intn(3) == 0 {
		n := 40 + c.r.Intn(200)
		if c.r.Intn(60) == 0 {
			n = g.fit(pick(c.r, []int{1000, 5000, 70000}))
		}
		t := g.longText(c.r, alpha, n)
		c.max("length of a text", len(t))
		texts = append(texts, t, mutate(c.r, t, alpha), t+string(pick(c.r, alpha)))
	}
	for _, t := range texts {
		ref := g.runRef(t, 200000+20*len(t), refCB)
		if ref.err != nil {
			c.count("skipped: reference out of fuel", 1)
			continue
		}
		c.desc = fmt.Sprintf("%stext: %q", g.String(), t)
		o := b.parse(t)
		c.count("parses", 1)
		if o.Kind == "panic" {
			c.fail("parsing panicked", "%s", o.Err)
		}
		if ref.ok {
			if o.Kind != "ok" {
				c.fail("a text which matches was reported as a failure", "%s", o)
			}
			c.eval(g.String()+"\x00"+t, false)
			continue
		}
		if o.Kind == "ok" {
			c.fail("a text which is not matched in full was reported as a success", "%s", o)
		}
		if o.Kind == "nil" {
			if t != "" {
				c.fail("a parse which failed gave nothing instead of an error", "")
			}
			c.count("failures on the empty text", 1)
			c.eval(g.String()+"\x00"+t, false)
			continue
		}
		c.count("parse errors", 1)
		pos, line, col, ok := parseErrPos(o.Err)
		if !ok {
			c.fail("the parse error does not tell where", "%s", o.Err)
		}
		if pos < 0 || pos > len(t) {
			c.fail("the parse error is out of the text", "offset %d, length %d", pos, len(t))
		}
		wl, wc := lineCol(t, pos)
		if line != wl || col != wc {
			c.fail("line and column of the parse error are not those of its offset", "offset %d is line %d, column %d; reported line %d, column %d", pos, wl, wc, line, col)
		}
		if wl > 0 {
			c.count("parse errors after the first line", 1)
		}
		if lr {
			c.eval(g.String()+"\x00"+t, pos > 0)
			continue
		}
		want := 0
		if ref.part {
			want = ref.end
		}
		for k, m := range ref.rf.memo {
			if m.ok && k.pos > want {
				want = k.pos
			}
		}
		c.eval(g.String()+"\x00"+t, want > 0)
		if pos != want {
			c.fail("the parse error is not at the furthest position where a rule matched", "expected offset %d, reported %d", want, pos)
		}
		if c.wantSample() && line > 1 && pos > 4 {
			c.sample("%stext %q: offset %d, line %d, column %d", g.String(), t, pos, line, col)
		}
	}
}
