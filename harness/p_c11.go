package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

func init() {
	register(&Prop{ID: "C11", Quick: 800, Thorough: 25000, Run: runC11, CPULimit: 300 * time.Second,
		Init: func(*Ctx) { os.Stdout = devNull },
		Rule: "A case starts 2 to 8 goroutines, in a binary built with the race detector, which at the same time parse texts with grammars shared by all (never used before), build grammars of their own (from lines of their own or from the same lines, with a compiler of their own or a shared one), parse tokens, tokenize Go sources, print grammars, with various trace options and parse functions that yield, wait or parse something themselves. Each result must be the one a lone parse gives; a race report ends the worker and is a violation. Non-trivial: at least two goroutines were seen inside the library at the same moment; distinct by the order in which the first 200 steps of the goroutines ended."})
}

// what a parse function may do besides: parse something, with a grammar which
// is in use
type nester struct{ f func(h uint32) }

// pure callbacks: no state, the goroutine yields at random
func pureLines(g *Gram, wait uint32, nest *nester) []j.Line {
	ls := []j.Line{}
	for i, r := range g.Rules {
		r := r
		a := []any{j.Named(r.Name, r.Body.text(nil))}
		if r.CB != cbNone {
			f := func(it j.Ast, ctx *j.ParseContext) j.Ast {
				if wait > 0 {
					switch h := uint32(ctx.Code.Pos())*2654435761 + uint32(rand.Int31()); {
					case h%9 == 2 && nest != nil && ctx.Code.Length() >= 2:
						nest.f(h / 9) // (of a text shorter than 2: it is not nested any deeper)
					case h%wait == 0:
						runtime.Gosched()
					case h%(wait*8) == 1:
						time.Sleep(time.Microsecond)
					}
				}
				arg := conv(it).String()
				end := ctx.Code.Pos()
				switch r.CB {
				case cbPass, cbProbe:
					return it
				case cbNil:
					if refuse(r.Name, "", end, arg) {
						return nil
					}
				case cbArr:
					return j.NewNativeArray([]j.Ast{it, j.NewNativeString(r.Name)})
				case cbMap:
					m := j.NewEmptyNativeMap()
					m.Set("v", it)
					m.Set("e", j.NewNativeInt(end))
					return m
				}
				return &Node{Tag: r.Name, Arg: it}
			}
			switch (i + int(wait)) % 3 {
			case 0:
				a = append(a, f)
			case 1:
				a = append(a, func(it j.Ast, ctx *j.ParseContext, _ j.Ast) j.Ast { return f(it, ctx) })
			case 2:
				a = append(a, f)
			}
		}
		if r.Skip {
			a = append(a, j.SkipCache{Bool: true})
		}
		if i == 0 {
			ls = append(ls, j.O(a...))
		} else {
			ls = append(ls, j.I(a...))
		}
	}
	return ls
}

var cachedC11 *j.Grammar

type specC11 struct {
	g     *Gram
	lines []j.Line
	gm    *j.Grammar
	texts []string
	want  []Out
	toks  [][]j.Token
	names string

	short     []string // texts of less than 2 bytes
	shortWant []Out
}

func randTrace(r *rand.Rand) *j.TraceOptions {
	if r.Intn(2) == 0 {
		return j.Mute()
	}
	f := -1
	if r.Intn(3) == 0 {
		f = r.Intn(3)
	}
	return &j.TraceOptions{Stack: r.Intn(3) == 0, Loop: r.Intn(2) == 0, Grammar: r.Intn(2) == 0, FilterLine: f, SkipSetup: r.Intn(2) == 0}
}

var goSnippets = []string{"a := 1\n", "func f(x int) { return x + 2 }", "x", "", "if a && b {\n\tc++\n}\n", "\"s\" + `r\nw` // c\n", "a <- -b", "'", "1.5e", "/*", "[]int{1, 2,}\n"}

func runC11(c *Ctx) {
	var specs []*specC11
	nest := &nester{}
	if cachedC11 == nil || c.r.Intn(3) == 0 {
		cachedC11 = j.NewJoesonWithOptions(j.Mute())
	}
	joeson := cachedC11
	sharedCompiler := helpers.LazyFromFunc(func() *j.Grammar { return j.NewJoesonWithOptions(j.Mute()) })
	for i := 1 + c.r.Intn(3); i > 0; i-- {
		var g *Gram
		var a []rune
		if c.r.Intn(4) == 0 {
			g, a = genLR(c.r)
		} else {
			p := newProf(c.r, c.r.Intn(2) == 0)
			if p.depth > 2 {
				p.depth = 2
			}
			g, a = genGram(c.r, p), p.alpha
			for _, r := range g.Rules {
				if c.r.Intn(2) == 0 && !g.merged(r.Name) {
					r.CB = pick(c.r, []int{cbNode, cbNode, cbNil, cbPass, cbArr, cbMap})
				}
				if c.r.Intn(8) == 0 && !g.leftRecursive() {
					r.Skip = true
				}
			}
		}
		s := &specC11{g: g, texts: g.texts(c.r, a, 6, 12)}
		s.lines = pureLines(g, uint32(1+c.r.Intn(5)), nest)
		lone := j.GrammarWithOptionsFromLines("gram", j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: helpers.LazyFromValue(joeson)}, pureLines(g, 0, nil))
		for _, t := range s.texts {
			s.want = append(s.want, runParse(func() j.Ast { return lone.ParseString(t) }))
			s.toks = append(s.toks, tokensOf(c.r, t))
		}
		for _, t := range []string{"", string(a[0]), "\n", "x"} {
			if len(t) < 2 {
				s.short = append(s.short, t)
				s.shortWant = append(s.shortWant, runParse(func() j.Ast { return lone.ParseString(t) }))
			}
		}
		s.gm = j.GrammarWithOptionsFromLines("gram", j.GrammarOptions{TraceOptions: randTrace(c.r), LazyGrammar: helpers.LazyFromValue(joeson)}, s.lines)
		specs = append(specs, s)
	}
	goWant := []string{}
	for _, src := range goSnippets {
		goWant = append(goWant, goTok(src))
	}
	var desc strings.Builder
	for i, s := range specs {
		fmt.Fprintf(&desc, "grammar %d:\n%stexts %q\n", i, s.g, s.texts)
	}
	c.desc = desc.String()
	n := 2 + c.r.Intn(7)
	var wg sync.WaitGroup
	var inside, maxInside atomic.Int32
	var order [200]int32
	var nOrder atomic.Int32
	var mu sync.Mutex
	bad := ""
	report := func(f string, a ...any) {
		mu.Lock()
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	start := make(chan struct{})
	var counts [8]atomic.Int64
	nest.f = func(h uint32) {
		s := specs[int(h)%len(specs)]
		i := int(h/16) % len(s.short)
		o := runParse(func() j.Ast { return s.gm.ParseString(s.short[i]) })
		counts[6].Add(1)
		if o.key() != s.shortWant[i].key() {
			report("within a parse function: text %q of grammar\n%salone %s\nhere  %s", s.short[i], s.g, s.shortWant[i], o)
		}
	}
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int, r *rand.Rand) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					report("goroutine %d panicked: %v\n%s", k, e, trimStack())
				}
			}()
			<-start
			same := func(what string, s *specC11, i int, o Out) {
				if o.key() != s.want[i].key() {
					report("%s: text %q of grammar\n%salone %s\nhere  %s", what, s.texts[i], s.g, s.want[i], o)
				}
			}
			for step := 0; step < 8; step++ {
				s := pick(r, specs)
				if len(s.texts) == 0 {
					continue
				}
				i := r.Intn(len(s.texts))
				if v := inside.Add(1); v > maxInside.Load() {
					maxInside.Store(v)
				}
				switch x := r.Intn(14); {
				case x < 6:
					var opts []j.ParseOption
					if r.Intn(4) == 0 {
						opts = append(opts, j.Debug{Bool: true})
					}
					counts[0].Add(1)
					same("shared grammar", s, i, runParse(func() j.Ast { return s.gm.ParseString(s.texts[i], opts...) }))
				case x < 8:
					o := runParse(func() j.Ast { return s.gm.ParseTokens(j.NewTokenStream(s.texts[i], s.toks[i])) })
					counts[1].Add(1)
					if s.want[i].Kind != "error" {
						same("shared grammar, tokens", s, i, o)
					} else if o.Kind != "error" {
						report("shared grammar, tokens: text %q gives %s instead of an error", s.texts[i], o)
					}
				case x < 11:
					opts := j.GrammarOptions{TraceOptions: randTrace(r)}
					switch x := r.Intn(12); {
					case x < 3:
						opts.LazyGrammar = sharedCompiler
					case x < 11:
						opts.LazyGrammar = helpers.LazyFromValue(joeson)
					}
					ls := s.lines
					if r.Intn(2) == 0 {
						ls = pureLines(s.g, 2, nest)
					}
					gm := j.GrammarWithOptionsFromLines("gram", opts, ls)
					counts[2].Add(1)
					same("own grammar", s, i, runParse(func() j.Ast { return gm.ParseString(s.texts[i]) }))
				case x < 12:
					m := r.Intn(len(goSnippets))
					counts[3].Add(1)
					if g := goTok(goSnippets[m]); g != goWant[m] {
						report("tokenizing %q\nalone %s\nhere  %s", goSnippets[m], goWant[m], g)
					}
				case x < 13:
					_ = s.gm.String()
					if s.gm.CountRules() == 0 || !s.gm.IsReady() {
						report("the grammar is not ready")
					}
					if r.Intn(2) == 0 {
						s.gm.PrintRules()
					}
					counts[4].Add(1)
				default:
					j.TraceOptionsFromEnvironmentOrUse(j.Mute())
					_ = j.IntentionRules
					counts[5].Add(1)
				}
				inside.Add(-1)
				if at := nOrder.Add(1) - 1; int(at) < len(order) {
					atomic.StoreInt32(&order[at], int32(k))
				}
			}
		}(k, rand.New(rand.NewSource(c.r.Int63())))
	}
	close(start)
	wg.Wait()
	if bad != "" {
		c.fail("a goroutine got another result than a lone parse", "%s", bad)
	}
	for i, name := range []string{"parses with a shared grammar", "token parses with a shared grammar", "grammars built", "Go sources tokenized", "grammars printed", "other", "parses within a parse"} {
		c.count(name, int(counts[i].Load()))
	}
	if int64(maxInside.Load()) > c.w.stats["max goroutines inside at once"] {
		c.w.stats["max goroutines inside at once"] = int64(maxInside.Load())
	}
	key := fmt.Sprint(order[:helpers.Min(int(nOrder.Load()), len(order))])
	c.state("interleavings", key)
	c.eval(key, maxInside.Load() >= 2)
	if c.wantSample() {
		c.sample("%d goroutines, %sorder of steps %s", n, c.desc, key)
	}
}

func tokensOf(r *rand.Rand, t string) []j.Token {
	toks := []j.Token{}
	for i := 0; i < len(t); {
		k := i + 1 + r.Intn(4)
		if k > len(t) {
			k = len(t)
		}
		toks = append(toks, j.Token{Repr: t[i:k], OriginalOffset: i, WorkOffset: i})
		i = k
	}
	return toks
}

func goTok(src string) string {
	ts, err := j.TokenStreamFromGoCode(src)
	if err != nil {
		return "error " + err.Error()
	}
	return ts.PrintWorkText()
}
