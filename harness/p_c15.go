package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register(&Prop{ID: "C15", Quick: 60000, Thorough: 900000, Run: runC15,
		Rule: "A case is a random original text and a tokenization of it (pieces kept, dropped, rewritten, inserted, empty), on which all positions are located, up to 80 random cursor operations compared with a model; or a random grammar and up to 8 texts, each tokenized at random, ParseTokens being compared with ParseString of the joined tokens and the place in its error with the model. Non-trivial: at least 2 tokens whose offsets differ from the joined ones; distinct by original text and tokens."})
}

// spread makes an original text in which the pieces of work appear
func spread(r *rand.Rand, work string) (original string, toks []j.Token) {
	junk := func() string {
		if r.Intn(2) == 0 {
			return ""
		}
		return randText(r, []rune(" \n/é"), 4)
	}
	var o strings.Builder
	if r.Intn(60) == 0 { // a long original
		o.WriteString(strings.Repeat(randText(r, []rune(" \n/é"), 50)+"\n", r.Intn(2500)))
	}
	o.WriteString(junk())
	whole := work
	at := 0
	maxPiece := pick(r, []int{1, 2, 4, 10, 10, 60, 400})
	splits := r.Intn(10) == 0 // tokens may end within a character
	w := 0
	for at < len(whole) {
		n := 1 + r.Intn(maxPiece)
		for !splits && at+n < len(whole) && !utf8.RuneStart(whole[at+n]) {
			n++
		}
		if at+n > len(whole) {
			n = len(whole) - at
		}
		p := whole[at : at+n]
		at += n
		off := o.Len()
		switch r.Intn(12) {
		case 0: // inserted: not in the original
		case 1: // rewritten
			o.WriteString(randText(r, []rune("xyz\n世"), 5))
		case 2: // only its end is in the original
			o.WriteString(p[len(p)/2:])
		default:
			o.WriteString(p)
		}
		toks = append(toks, j.Token{Repr: p, OriginalOffset: off, WorkOffset: w})
		w += len(p)
		if r.Intn(25) == 0 {
			toks = append(toks, j.Token{Repr: "", OriginalOffset: o.Len(), WorkOffset: w})
		}
		o.WriteString(junk())
	}
	if len(toks) > 1 && r.Intn(12) == 0 { // which were in another order
		for n := 1 + r.Intn(3); n > 0; n-- {
			a, b := r.Intn(len(toks)), r.Intn(len(toks))
			toks[a].OriginalOffset, toks[b].OriginalOffset = toks[b].OriginalOffset, toks[a].OriginalOffset
		}
	}
	return o.String(), toks
}

func tokenModel(work, original string, toks []j.Token) *streamModel {
	return &streamModel{work: work, original: original, place: func(p int) (int, bool) {
		w := 0
		for i, t := range toks {
			if p < w+len(t.Repr) {
				return t.OriginalOffset + p - w, true
			}
			if i == len(toks)-1 {
				// the end: just after the last token
				return t.OriginalOffset + p - w, t.Repr != ""
			}
			w += len(t.Repr)
		}
		return 0, false
	}}
}

func tokText(toks []j.Token) string {
	var b strings.Builder
	for i, t := range toks {
		if i == 60 {
			b.WriteString(" ...")
			break
		}
		fmt.Fprintf(&b, " %q@%d", t.Repr, t.OriginalOffset)
	}
	return b.String()
}

func moves(toks []j.Token) bool {
	n := 0
	for _, t := range toks {
		if t.OriginalOffset != t.WorkOffset {
			n++
		}
	}
	return n > 1
}

func runC15(c *Ctx) {
	if c.r.Intn(2) == 0 {
		c.tokenCursor()
	} else {
		c.tokenParse()
	}
}

func (c *Ctx) tokenCursor() {
	work := c.streamText()
	if len(work) > 4000 {
		work = cut(work, 4000)
	}
	if c.r.Intn(6) > 0 {
		work = strings.ToValidUTF8(work, "?")
	}
	original, toks := spread(c.r, work)
	c.desc = fmt.Sprintf("original: %q\ntokens:%s", cut(original, 3000), tokText(toks))
	ts := j.NewTokenStream(original, append([]j.Token{}, toks...))
	m := tokenModel(work, original, toks)
	if ts.Pos() != 0 || ts.Code() != original || ts.Length() != len(original) {
		c.fail("a new stream is not at its start", "")
	}
	if got := ts.PeekRunes(len(work) + 1); got != string([]rune(work)) { // runes
		c.fail("the text of the stream is not that of the joined tokens", "%q instead of %q", got, work)
	}
	c.checkCoords(ts, m, 300, false)
	for n := 10 + c.r.Intn(70); n > 0; n-- {
		c.streamOp(ts, m)
	}
	c.checkCoords(ts, m, 10, false)
	c.eval(original+"\x00"+tokText(toks), moves(toks))
	c.count("tokens", len(toks))
	if c.wantSample() && len(work) < 40 && len(toks) > 4 {
		c.sample("%s: %s", c.desc, cut(strings.Join(m.log, "; "), 300))
	}
}

func (c *Ctx) tokenParse() {
	var g *Gram
	var alpha []rune
	if c.r.Intn(4) == 0 {
		g, alpha = genLR(c.r)
	} else {
		p := newProf(c.r, c.r.Intn(2) == 0)
		g = genGram(c.r, p)
		alpha = p.alpha
	}
	for _, r := range g.Rules {
		if c.r.Intn(8) == 0 && !g.merged(r.Name) {
			r.CB = pick(c.r, []int{cbNode, cbNil, cbInt})
		}
	}
	b, err := g.build(nil)
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	texts := g.texts(c.r, alpha, 8, 16)
	if c.r.Intn(4) == 0 {
		texts = append(texts, g.longText(c.r, alpha, 40+c.r.Intn(100)))
	}
	for _, t := range texts {
		c.desc = fmt.Sprintf("%stext: %q", g.String(), t)
		if ref := g.runRef(t, refFuel, refCB); ref.err != nil {
			c.count("skipped: reference out of fuel", 1)
			continue
		}
		plain := b.parse(t)
		pev := cbEvents(b.mon.Events)
		for k := 0; k < 2; k++ {
			original, toks := spread(c.r, t)
			if k == 1 && c.r.Intn(3) == 0 { // one token only, or one per character
				toks = []j.Token{{Repr: t, OriginalOffset: 0, WorkOffset: 0}}
				original = t
			}
			c.desc = fmt.Sprintf("%stext: %q\noriginal: %q\ntokens:%s", g.String(), t, original, tokText(toks))
			m := tokenModel(t, original, toks)
			ts := j.NewTokenStream(original, append([]j.Token{}, toks...))
			b.mon.reset()
			o := runParse(func() j.Ast { return b.gm.ParseTokens(ts) })
			c.eval(g.String()+"\x00"+original+"\x00"+tokText(toks), moves(toks))
			c.count("parses compared", 1)
			c.count("outcome "+plain.Kind, 1)
			if o.Kind == "panic" {
				c.fail("parsing tokens panicked", "%s", o.Err)
			}
			if o.Kind != plain.Kind || (o.Kind == "ok" && o.V.String() != plain.V.String()) {
				c.fail("parsing tokens differs from parsing their text", "tokens: %s\ntext: %s", o, plain)
			}
			if d := diffLists(pev, cbEvents(b.mon.Events)); d != "" {
				c.fail("parse functions are called otherwise for tokens than for their text", "%s", d)
			}
			if o.Kind != "error" {
				continue
			}
			pos, line, col, ok := parseErrPos(o.Err)
			ppos, _, _, _ := parseErrPos(plain.Err)
			if !ok || pos != ppos {
				c.fail("the error of a token stream is not where it is for its text", "%s\ntext: %s", firstLine(o.Err), firstLine(plain.Err))
			}
			if off, known := m.place(pos); known {
				wl, wc := m.lineCol(off)
				c.count("errors located", 1)
				if line != wl || col != wc {
					c.fail("the error is not at the place of the original text it should", "position %d is offset %d, line %d, column %d; reported line %d, column %d", pos, off, wl, wc, line, col)
				}
			}
		}
	}
}
