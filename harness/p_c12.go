package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register(&Prop{ID: "C12", Quick: 4500, Thorough: 120000, Run: runC12, Init: openCapture,
		Rule: "A case is a random grammar (left-recursive, multi-line and non-UTF-8 texts included) parsed untraced and then under 3 to 6 random combinations of grammar trace options or environment value, Debug and SkipLog on rules, Debug and SkipLog on the parse; outcome, value, error and calls must be those of the untraced run, and the captured standard output must obey the rules (nothing when muted, nothing of the steps with SkipLog, only the lines asked for with a line filter, Debug traces its own parse only, also after a panic). One case in eight reads random environment values instead. Non-trivial: something was traced; distinct by grammar, text and options."})
}

var capFile *os.File

func openCapture(c *Ctx) {
	os.Unsetenv("TRACE")
	os.Unsetenv("trace")
	f, err := os.Create(filepath.Join(c.tmp, fmt.Sprintf("captured-%d", c.w.shard)))
	if err != nil {
		panic(err)
	}
	capFile = f
}

// capture runs f with standard output captured
func capture(f func()) (out string) {
	capFile.Truncate(0)
	capFile.Seek(0, 0)
	old := os.Stdout
	os.Stdout = capFile
	defer func() {
		os.Stdout = old
		capFile.Seek(0, 0)
		b, _ := io.ReadAll(capFile)
		out = string(b)
	}()
	f()
	return
}

var stepLine = regexp.MustCompile(`(?m)^\x1b\[37m(\d+),(\d+)\x1b\[0m\t`)

type traceEnv struct {
	name, val string
	want      *j.TraceOptions
	bad       bool
}

func randEnv(r *rand.Rand) traceEnv {
	e := traceEnv{name: pick(r, []string{"TRACE", "TRACE", "trace"})}
	o := j.TraceOptions{FilterLine: -1}
	var parts []string
	switch r.Intn(6) {
	case 0:
		parts = append(parts, "none")
	case 1:
		parts = append(parts, "all")
		o = j.TraceOptions{Stack: true, Grammar: true, FilterLine: -1, SkipSetup: true}
	}
	for n := r.Intn(4); n > 0 || len(parts) == 0; n-- {
		switch r.Intn(6) {
		case 0:
			parts = append(parts, "stack")
			o.Stack = true
		case 1:
			parts = append(parts, "loop")
			o.Loop = true
		case 2:
			parts = append(parts, "grammar")
			o.Grammar = true
		case 3:
			parts = append(parts, "skipsetup")
			o.SkipSetup = true
		default:
			o.FilterLine = r.Intn(12)
			parts = append(parts, fmt.Sprintf("%s=%d", pick(r, []string{"line", "line", "filterline"}), o.FilterLine))
		}
	}
	if r.Intn(8) == 0 {
		e.bad = true
		parts = append(parts, pick(r, []string{"bogus", "line=x", "line=", "stack=1", "Stack", "line=1=2", " stack"}))
		r.Shuffle(len(parts), func(a, b int) { parts[a], parts[b] = parts[b], parts[a] })
	}
	e.val = strings.Join(parts, ",")
	e.want = &o
	return e
}

func (c *Ctx) envCase() {
	e := randEnv(c.r)
	def := randTrace(c.r)
	given := *def
	both := c.r.Intn(4) == 0
	unset := c.r.Intn(4) == 0
	if !unset {
		os.Setenv(e.name, e.val)
		if both && e.name == "TRACE" {
			os.Setenv("trace", "bogus")
		}
	}
	defer os.Unsetenv("TRACE")
	defer os.Unsetenv("trace")
	c.desc = fmt.Sprintf("%s=%q (unset: %v), defaults %+v", e.name, e.val, unset, given)
	useDefault := c.r.Intn(2) == 0
	var got *j.TraceOptions
	var pan any
	out := capture(func() {
		defer func() { pan = recover() }()
		if useDefault {
			got = j.DefaultTraceOptions()
		} else {
			got = j.TraceOptionsFromEnvironmentOrUse(def)
		}
	})
	c.eval(c.desc, !unset)
	c.count("environment values read", 1)
	if out != "" {
		c.fail("reading the environment prints something", "%q", out)
	}
	if *def != given {
		c.fail("reading the environment altered the options which were given", "now %+v", *def)
	}
	if unset {
		want := given
		if useDefault {
			want = j.TraceOptions{Grammar: true, SkipSetup: true, FilterLine: -1}
		}
		if pan != nil || got == nil {
			c.fail("reading an unset environment failed", "%v", pan)
		}
		if *got != want {
			if *got == *j.Mute() {
				c.finding("env-default", "without TRACE the given default options are not used", "default %+v, got %+v", want, *got)
			} else {
				c.fail("without TRACE other options than the defaults are used", "default %+v, got %+v", want, *got)
			}
		}
		return
	}
	if e.bad {
		if pan == nil {
			c.fail("an unknown TRACE value was accepted", "got %+v", *got)
		}
		if strings.Contains(fmt.Sprint(pan), "runtime error") {
			c.fail("an unknown TRACE value crashed", "%v", pan)
		}
		return
	}
	if pan != nil {
		c.fail("a documented TRACE value was refused", "%v", pan)
	}
	if *got != *e.want {
		c.fail("TRACE is not read as documented", "expected %+v, got %+v", *e.want, *got)
	}
}

func runC12(c *Ctx) {
	if c.r.Intn(8) == 0 {
		c.envCase()
		return
	}
	var g *Gram
	var a []rune
	if c.r.Intn(4) == 0 {
		g, a = genLR(c.r)
	} else {
		p := newProf(c.r, c.r.Intn(2) == 0)
		g, a = genGram(c.r, p), p.alpha
		for _, r := range g.Rules {
			if c.r.Intn(3) == 0 && !g.merged(r.Name) {
				r.CB = pick(c.r, []int{cbNode, cbNode, cbNil, cbPass, cbArr, cbMap, cbUndef, cbStr, cbInt, cbErr})
			}
			if c.r.Intn(8) == 0 {
				r.Skip = true
			}
		}
	}
	if c.r.Intn(3) == 0 {
		a = append(append([]rune{}, a...), '\n')
	}
	c.desc = g.String()
	var base *Built
	var err error
	out := capture(func() { base, err = g.build(nil) })
	if err != nil {
		c.fail("a well-formed grammar was refused", "%v", err)
	}
	if out != "" {
		c.fail("building a muted grammar prints something", "%q", out)
	}
	texts := g.texts(c.r, a, 5, 12)
	if c.r.Intn(4) == 0 {
		texts = append(texts, hostileText(c.r, a, 6))
	}
	want := make([]Out, len(texts))
	evs := make([]string, len(texts))
	ts := make([]bool, len(texts))
	for i, t := range texts {
		c.desc = fmt.Sprintf("%stext %q", g, t)
		ts[i] = t != "" && c.r.Intn(6) == 0
		out := capture(func() { want[i] = c.parse12(base, t, ts[i]) })
		if out != "" {
			c.fail("a muted parse prints something", "%q", out)
		}
		if want[i].Kind == "panic" {
			c.fail("parsing panicked", "%s", want[i].Err)
		}
		evs[i] = strings.Join(cbEvents(base.mon.Events), "\n")
		c.count("untraced parses", 1)
	}
	for k := 3 + c.r.Intn(4); k > 0; k-- {
		var gopts *j.TraceOptions
		var env traceEnv
		useEnv := c.r.Intn(4) == 0
		if useEnv {
			for env = randEnv(c.r); env.bad; env = randEnv(c.r) {
			}
			gopts = env.want
		} else {
			gopts = randTrace(c.r)
		}
		rules := map[string][]j.ParseOption{}
		ruleDebug := false
		rdesc := ""
		if c.r.Intn(3) == 0 {
			for _, r := range g.Rules {
				switch c.r.Intn(5) {
				case 0:
					rules[r.Name] = []j.ParseOption{j.Debug{Bool: true}}
					ruleDebug = true
				case 1:
					rules[r.Name] = []j.ParseOption{j.SkipLog{Bool: true}}
				case 2:
					rules[r.Name] = []j.ParseOption{j.Debug{Bool: true}, j.SkipLog{Bool: true}, j.Debug{Bool: false}}
				}
				if rules[r.Name] != nil {
					rdesc += fmt.Sprintf(" %s%+v", r.Name, rules[r.Name])
				}
			}
		}
		heavy := gopts.Stack && !gopts.SkipSetup
		given := *gopts
		// without trace options at all a grammar is muted
		none := !useEnv && given == *j.Mute() && c.r.Intn(3) == 0
		var b *Built
		odesc := fmt.Sprintf("%strace options %+v (environment: %v), rule options%s", g, *gopts, useEnv, rdesc)
		c.desc = odesc
		mk := func(m *Monitor) []j.Line {
			ls := []j.Line{}
			for i, r := range g.Rules {
				x := r.args(r.Body.text(nil), m, i)
				for _, o := range rules[r.Name] {
					// anywhere after the rule
					at := 1 + c.r.Intn(len(x))
					x = append(x[:at:at], append([]any{o}, x[at:]...)...)
				}
				if i == 0 {
					ls = append(ls, j.O(x...))
				} else {
					ls = append(ls, j.I(x...))
				}
			}
			return ls
		}
		// options of a rule are applied in order: keep only what is certain
		for n, os := range rules {
			if len(os) > 1 {
				rules[n] = os[:2]
				ruleDebug = true
			}
		}
		built := capture(func() {
			if useEnv {
				os.Setenv(env.name, env.val)
				defer os.Unsetenv(env.name)
				mon := &Monitor{}
				mon.reset()
				func() {
					defer func() {
						if e := recover(); e != nil {
							err = fmt.Errorf("%v\n%s", e, trimStack())
						}
					}()
					b = &Built{j.GrammarFromLines("gram", mk(mon)), mon}
				}()
				return
			}
			lz := lazyJoeson()
			if none {
				if c.r.Intn(2) == 0 {
					// the environment is for those who ask for it
					os.Setenv("TRACE", pick(c.r, []string{"grammar", "all", "grammar,loop,stack,lazygrammar"}))
					defer os.Unsetenv("TRACE")
				}
				b, err = buildLines(mk, j.GrammarOptions{LazyGrammar: lz})
				return
			}
			if heavy && c.r.Intn(4) > 0 || c.r.Intn(3) > 0 {
				b, err = buildLines(mk, j.GrammarOptions{TraceOptions: gopts, LazyGrammar: lz})
			} else {
				b, err = buildLines(mk, j.GrammarOptions{TraceOptions: gopts})
			}
		})
		if err != nil {
			c.fail("tracing makes a grammar refused", "%v", err)
		}
		c.count("bytes traced while building", len(built))
		if *gopts != given {
			c.fail("building altered the trace options", "%+v became %+v", given, *gopts)
		}
		mute := given == *j.Mute()
		if mute && built != "" {
			c.fail("building a muted grammar prints something", "%q", built)
		}
		if !given.Grammar && !given.Loop && (given.SkipSetup || !given.Stack) && built != "" {
			c.fail("the setup is traced although it was not asked for", "%q", cut(built, 300))
		}
		if given.Stack && !given.SkipSetup && given.FilterLine == -1 && built == "" {
			c.fail("the setup is not traced", "")
		}
		if given.Loop {
			for _, r := range g.Rules {
				if !strings.Contains(built, r.Name) {
					c.fail("the loop option does not print each rule", "%s is not in %q", r.Name, cut(built, 300))
				}
			}
		}
		if given.Grammar && !strings.Contains(built, "Grammar.Debug()") {
			c.fail("the grammar option does not print the grammar", "%q", cut(built, 300))
		}
		for i, t := range texts {
			for rep := 0; rep < 2; rep++ {
				var opts []j.ParseOption
				debug, skipLog := false, false
				if c.r.Intn(3) == 0 {
					debug = true
					opts = append(opts, j.Debug{Bool: true})
				}
				if c.r.Intn(5) == 0 {
					skipLog = true
					opts = append(opts, j.SkipLog{Bool: true})
				}
				c.desc = fmt.Sprintf("%s\nparse options %+v, text %q, tokens %v", odesc, opts, t, ts[i])
				if debug && c.r.Intn(4) == 0 {
					// a panic in a parse function, while debugging
					var u Out
					b.mon.at, b.mon.boom = 1+c.r.Intn(3), func(*j.ParseContext) { panic("boom") }
					capture(func() { u = c.parse12(b, t, ts[i], opts...) })
					b.mon.at, b.mon.boom = 0, nil
					if u.Kind == "panic" {
						c.count("panics in traced parses", 1)
						if u.Pan != "boom" {
							c.fail("a traced parse crashed", "%s", u.Err)
						}
					}
					opts, debug, skipLog = nil, false, false
				}
				var o Out
				out := capture(func() { o = c.parse12(b, t, ts[i], opts...) })
				if o.key() != want[i].key() {
					c.fail("tracing changes the result", "untraced %s\ntraced   %s", want[i], o)
				}
				if ev := strings.Join(cbEvents(b.mon.Events), "\n"); ev != evs[i] {
					c.fail("tracing changes the calls of the parse functions", "untraced\n%s\ntraced\n%s", evs[i], ev)
				}
				if *gopts != given {
					c.fail("parsing altered the trace options", "%+v became %+v", given, *gopts)
				}
				steps := stepLine.FindAllStringSubmatch(out, -1)
				c.count("traced parses", 1)
				c.count("steps traced", len(steps))
				c.eval(fmt.Sprint(odesc, opts, t), out != "")
				stack := given.Stack || debug
				switch {
				case skipLog && out != "":
					c.fail("a parse with SkipLog prints something", "%q", cut(out, 300))
				case !stack && !ruleDebug && out != "":
					c.fail("a parse which is not traced prints something", "%q", cut(out, 300))
				case stack && !skipLog && given.FilterLine < 0 && len(steps) == 0:
					c.fail("a traced parse prints nothing", "%q", cut(out, 300))
				case given.FilterLine >= 0 && !skipLog:
					for _, s := range steps {
						if s[1] != fmt.Sprint(given.FilterLine) {
							c.fail("a line which was filtered out is traced", "line %s in %q", s[1], cut(out, 300))
						}
					}
				}
				if c.wantSample() && len(steps) > 3 && o.Kind == "ok" {
					c.sample("%s: %d steps traced, result %s", c.desc, len(steps), o)
				}
			}
		}
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (c *Ctx) parse12(b *Built, t string, tokens bool, opts ...j.ParseOption) Out {
	if tokens {
		b.mon.reset()
		return runParse(func() j.Ast {
			toks := []j.Token{}
			for i := 0; i < len(t); i += 3 {
				k := i + 3
				if k > len(t) {
					k = len(t)
				}
				toks = append(toks, j.Token{Repr: t[i:k], OriginalOffset: i, WorkOffset: i})
			}
			return b.gm.ParseTokens(j.NewTokenStream(t, toks), opts...)
		})
	}
	return b.parse(t, opts...)
}
