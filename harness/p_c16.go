package main

import (
	"embed"
	"fmt"
	"go/scanner"
	"go/token"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register(&Prop{ID: "C16", Quick: 1200000, Thorough: 9000000, Run: runC16,
		Rule: "A case is a history of up to 8 calls of TokenStreamFromGoCode on random Go sources (sequences of random tokens with any spacing, fragments of real sources, mutations, tokens of up to some thousand bytes, with and without lexical errors), some called again later. Tokens are read again by go/scanner from the work text and compared with those of the source, with the place of up to 200 of them; errors with those go/scanner reports. Non-trivial: at least 3 tokens or one lexical error; distinct by source."})
}

//go:embed *.go
var goSources embed.FS
var goTexts []string

type goToken struct {
	tok token.Token
	lit string
	off int
}

type goErr struct {
	at  string
	msg string
}

func scanGo(src string) (toks []goToken, errs []goErr) {
	var s scanner.Scanner
	fs := token.NewFileSet()
	f := fs.AddFile("", fs.Base(), len(src))
	s.Init(f, []byte(src), func(p token.Position, msg string) {
		errs = append(errs, goErr{fmt.Sprintf("%d:%d", p.Line, p.Column), msg})
	}, 0)
	for {
		p, t, l := s.Scan()
		if t == token.EOF {
			return
		}
		if t == token.SEMICOLON {
			l = ""
		}
		toks = append(toks, goToken{t, l, f.Offset(p)})
	}
}

var goAtoms = []string{"a", "b1", "x_y", "_", "é", "世界", "αβγ", "A", "i",
	"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if", "import", "interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var",
	"0", "1", "42", "0x1F", "0X1p-2", "0b11", "0o17", "017", "1_000", "1.5", "1.", ".5", "1e3", "1.5e-3", "2i", "1.i", "0x.8p1", "1E+2",
	"'a'", "'\\n'", "'\\''", "'世'", "'\\x41'", "'\\u00e9'", "' '", "\"\"", "\"s\"", "\"a b\"", "\"\\\"\"", "\"\\\\\"", "\"//\"", "\"é\"", "``", "`raw`", "`a\nb`", "`a\r\nb`", "`//`", "` `", "\";\n\""}
var goOps = []string{"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&^", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "&^=", "&&", "||", "<-", "++", "--", "==", "<", ">", "=", "!", "~", "!=", "<=", ">=", ":=", "...", "(", "[", "{", ",", ".", ")", "]", "}", ";", ":"}
var goBad = []string{"@", "#", "$", "?", "\\", "'", "\"", "\"abc", "'ab'", "''", "`", "/*", "0x", "1e", "08", "0b2", "1__0", "0_", "\x00", "\xff", "\ufeff", "'\\z'", "\"\\q\"", "\"\\400\"", "'\\", "\u201c", "1e+", "0x1p", "0x1.0", "\u00a0"}

// a literal or a comment with anything in it
func goLit(r *rand.Rand) string {
	stuff := func(esc []string, not string) string {
		var b strings.Builder
		for n := r.Intn(8); n > 0; n-- {
			x := pick(r, []string{" ", "  ", "\t", "\n", "\r", "\r\n", "\t\n", " \n", "\\", "'", "\"", "`", "a", "b", "//", "/*", "*", "é", "世", "\x01", "\ufffd", "0", ";", "\v", "\u2028", "%", "\x7f"})
			if esc != nil && r.Intn(4) == 0 {
				x = pick(r, esc)
			}
			if strings.ContainsAny(x, not) && (esc == nil || !strings.HasPrefix(x, "\\") || len(x) < 2) {
				continue
			}
			b.WriteString(x)
		}
		return b.String()
	}
	switch r.Intn(5) {
	case 0, 1:
		return "`" + stuff(nil, "`") + "`"
	case 2, 3:
		return "\"" + stuff([]string{`\n`, `\t`, `\\`, `\"`, `\x41`, `\u00e9`, `\U0001F600`, `\101`, `\a`}, "\"\n\\") + "\""
	}
	if r.Intn(2) == 0 {
		return "//" + stuff(nil, "\n") + "\n"
	}
	return "/*" + stuff(nil, "*") + "*/"
}

// a token of up to some thousand bytes
func goLong(r *rand.Rand) string {
	n := pick(r, []int{20, 60, 100, 130, 250, 260, 300, 600, 1100, 5000})
	n = n/2 + r.Intn(n)
	switch r.Intn(8) {
	case 0, 1:
		return pick(r, []string{"1", "9", "1.", "0x1", "1_0", "0b1", ".1", "1e1"}) + strings.Repeat(pick(r, []string{"0", "1"}), n) + pick(r, []string{"", "", ".", "i"})
	case 2, 3:
		return pick(r, []string{"a", "_", "é", "for", "A1"}) + strings.Repeat(pick(r, []string{"a", "b1", "é", "世", "_"}), n)
	case 4:
		return "`" + strings.Repeat(pick(r, []string{"a", "\n", "\r\n", "é ", "\t", "//", "\\"}), n) + "`"
	case 5:
		return "\"" + strings.Repeat(pick(r, []string{"a", "\\n", "é", " ", "/*", "\\\""}), n) + "\""
	case 6:
		return "//" + strings.Repeat(pick(r, []string{"a", " ", "世", "\""}), n) + "\n"
	}
	return "/*" + strings.Repeat(pick(r, []string{"a", " ", "\n", "世", "`"}), n) + "*/"
}

func goSource(r *rand.Rand) string {
	var b strings.Builder
	switch r.Intn(10) {
	case 0, 1: // fragment of a real source
		if goTexts == nil {
			es, _ := goSources.ReadDir(".")
			for _, e := range es {
				t, _ := goSources.ReadFile(e.Name())
				goTexts = append(goTexts, string(t))
			}
		}
		ls := strings.SplitAfter(pick(r, goTexts), "\n")
		n := 1 + r.Intn(12)
		if r.Intn(20) == 0 {
			n = 100
			if r.Intn(10) == 0 {
				n = 1000
			}
		}
		i := r.Intn(len(ls))
		if i+n > len(ls) {
			n = len(ls) - i
		}
		t := strings.Join(ls[i:i+n], "")
		if r.Intn(3) == 0 && t != "" {
			for k := r.Intn(3); k >= 0; k-- {
				t = mutate(r, t, []rune("a1 \n\t\"'`/*;.=-<&@é(){}[]"))
			}
		}
		return t
	case 2:
		return mutate(r, strings.Join([]string{pick(r, goAtoms), pick(r, goOps), pick(r, goAtoms)}, ""), []rune("a1 .=-<&+"))
	}
	if r.Intn(2000) == 0 {
		return goMany(r)
	}
	n := pick(r, []int{0, 1, 2, 3, 5, 8, 15, 30, 80})
	bad := r.Intn(4) == 0
	seps := pick(r, [][]string{{""}, {" "}, {"", " "}, {"", " ", "\n", "\t"}, {" ", "\n", "\r\n", "// c\n", "/* c */", "/* \n */", "//\n", "/**/", "\n\n", ""}, {"\n"}})
	ops := 1 + r.Intn(5)
	if r.Intn(30) == 0 {
		b.WriteString("\ufeff")
	}
	for i := 0; i < n; i++ {
		switch {
		case bad && r.Intn(8) == 0:
			b.WriteString(pick(r, goBad))
		case r.Intn(6) < ops:
			b.WriteString(pick(r, goOps))
		case r.Intn(6) == 0:
			b.WriteString(goLit(r))
		case r.Intn(100) == 0:
			b.WriteString(goLong(r))
		default:
			b.WriteString(pick(r, goAtoms))
		}
		b.WriteString(pick(r, seps))
	}
	return b.String()
}

// thousands of tokens without a lexical error, some of them again and again
func goMany(r *rand.Rand) string {
	var b strings.Builder
	ops := 1 + r.Intn(6)
	few := 1 + r.Intn(30)
	var atoms []string
	for len(atoms) < few {
		x := pick(r, goAtoms)
		if r.Intn(6) < ops {
			x = pick(r, goOps)
		}
		if _, errs := scanGo(x + " "); len(errs) == 0 {
			atoms = append(atoms, x)
		}
	}
	seps := pick(r, [][]string{{" "}, {"\n"}, {" ", "\t", "\n"}, {" ", " ", "\r\n", "/* c */ ", "// c\n", "\n\n"}})
	for n := 300 + r.Intn(6000); n > 0; n-- {
		b.WriteString(pick(r, atoms))
		b.WriteString(pick(r, seps))
	}
	return b.String()
}

var posRe = regexp.MustCompile(`\b\d+:\d+\b`)

func runC16(c *Ctx) {
	type past struct{ src, got string }
	var history []past
	for k := 1 + c.r.Intn(8); k > 0; k-- {
		src := goSource(c.r)
		again := -1
		if len(history) > 0 && c.r.Intn(4) == 0 {
			again = c.r.Intn(len(history))
			src = history[again].src
		}
		c.desc = fmt.Sprintf("source: %q\ncalls before: %d", src, len(history))
		got := c.tokenizeGo(src)
		if again >= 0 {
			c.count("sources tokenized again", 1)
			if got != history[again].got {
				c.fail("the same source is tokenized otherwise the second time", "first: %s\nthen: %s", history[again].got, got)
			}
		}
		history = append(history, past{src, got})
	}
}

func (c *Ctx) tokenizeGo(src string) string {
	want, errs := scanGo(src)
	c.eval(src, len(want) > 2 || len(errs) > 0)
	c.count("sources", 1)
	var ts *j.TokenStream
	var err error
	if o := runParse(func() j.Ast { ts, err = j.TokenStreamFromGoCode(src); return nil }); o.Kind == "panic" {
		c.fail("tokenizing crashed", "%s", o.Err)
	}
	if len(errs) > 0 {
		c.count("sources with lexical errors", 1)
		if err == nil {
			c.fail("a source with a lexical error is tokenized without error", "expected %v", errs)
		}
		if ts != nil {
			c.fail("a source with a lexical error gives an error and a stream", "")
		}
		msg := err.Error()
		places := map[string]bool{}
		for _, e := range errs {
			places[e.at] = true
			if !strings.Contains(msg, e.at) || !strings.Contains(msg, e.msg) {
				c.fail("a lexical error is not mentioned", "%s: %s, in %q", e.at, e.msg, msg)
			}
		}
		for _, p := range posRe.FindAllString(msg, -1) {
			if !places[p] {
				c.fail("an error which the source does not have is mentioned", "%s in %q", p, msg)
			}
		}
		c.count("lexical errors mentioned", len(errs))
		return "error " + msg
	}
	if err != nil {
		c.fail("a source free of lexical errors was refused", "%v", err)
	}
	if ts == nil {
		c.fail("neither a stream nor an error was given", "")
	}
	if ts.Code() != src || ts.Length() != len(src) || ts.Pos() != 0 {
		c.fail("the stream does not hold its source, or is not at its start", "%q", ts.Code())
	}
	work := ts.PeekRunes(10 * (len(src) + 10))
	got, werrs := scanGo(work)
	if len(werrs) > 0 {
		c.desc += fmt.Sprintf("\nwork text: %q", work)
		c.fail("the tokenized text has lexical errors", "%v", werrs)
	}
	show := func(a []goToken) string {
		var b strings.Builder
		for _, t := range a {
			fmt.Fprintf(&b, "%s:%q ", t.tok, t.lit)
		}
		return b.String()
	}
	for i := range want {
		if i >= len(got) || want[i].tok != got[i].tok || want[i].lit != got[i].lit {
			c.desc += fmt.Sprintf("\nwork text: %q", work)
			c.fail("the tokenized text has other tokens than the source", "from token %d:\n%s\ninstead of\n%s", i, show(got[min(i, len(got)):]), show(want[i:]))
		}
	}
	if len(got) > len(want) {
		c.desc += fmt.Sprintf("\nwork text: %q", work)
		c.fail("the tokenized text has more tokens than the source", "%s", show(got[len(want):]))
	}
	// semicolons are explicit
	if strings.Count(work, "\n") > 0 {
		for i, t := range got {
			if t.tok == token.SEMICOLON && work[t.off] != ';' {
				c.desc += fmt.Sprintf("\nwork text: %q", work)
				c.fail("a semicolon is not explicit", "token %d", i)
			}
		}
	}
	m := &streamModel{work: work, original: src}
	idx := c.r.Perm(len(got))
	if len(idx) > 200 {
		idx = idx[:200]
	}
	sort.Ints(idx)
	for _, i := range idx {
		p := got[i].off
		if p > 0 && work[p-1] == ' ' && !(i > 0 && p-1 < got[i-1].off+len(got[i-1].lit)) {
			p-- // a space was inserted before: it counts as the beginning of the token
		}
		l, k := m.lineCol(want[i].off)
		if gl, gk := ts.PosToLine(p), ts.PosToCol(p); gl != l || gk != k {
			c.desc += fmt.Sprintf("\nwork text: %q", work)
			c.fail("a token is not at its place in the source", "token %d (%s %q) is at line %d, column %d; reported line %d, column %d", i, got[i].tok, got[i].lit, l, k, gl, gk)
		}
		c.count("tokens located", 1)
	}
	c.count("tokens compared", len(want))
	if !utf8.ValidString(work) {
		c.fail("the tokenized text is not valid UTF-8", "%q", work)
	}
	if c.wantSample() && len(want) > 5 && len(src) < 80 {
		c.sample("%q gives %q", src, work)
	}
	return work
}
