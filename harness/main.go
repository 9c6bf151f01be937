package main

// vh check ID     runs a property: spawns workers, collects, writes evidence
// vh worker ...   one shard of the cases of a property
// vh replay FILE  runs again the case recorded in FILE, verbosely
// vh list

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Prop struct {
	ID       string
	Rule     string // evidence: how cases are made, what makes one non-trivial
	Quick    int    // number of cases
	Thorough int
	Run      func(c *Ctx)
	Workers  int           // 0: all cores
	CPULimit time.Duration // per case
	Init     func(c *Ctx)
	Assume   []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Ctx is what a case sees.
type Ctx struct {
	p       *Prop
	tier    string
	seed    int64
	idx     int
	r       *rand.Rand
	verbose bool
	w       *worker
	desc    string // description of what is being run, for the replay file
	tmp     string
}

type Violation struct {
	Property string `json:"property"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Case     int    `json:"case"`
	What     string `json:"what"`
	Detail   string `json:"detail"`
}

type worker struct {
	stats   map[string]int64
	sets    map[string]map[uint64]bool
	samples []string
	viol    []Violation
	known   map[string]string
	outdir  string
	shard   int
	status  *os.File
	evals   int64
	nontriv map[uint64]bool
	cur     atomic.Int64
	started atomic.Int64 // process CPU ns at the start of the case
	ctx     atomic.Pointer[Ctx]
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// eval counts an evaluation; key identifies it; nontrivial as the rule says
func (c *Ctx) eval(key string, nontrivial bool) {
	c.w.evals++
	if nontrivial {
		c.w.nontriv[hash64(key)] = true
	}
}
func (c *Ctx) count(name string, n int) { c.w.stats[name] += int64(n) }
func (c *Ctx) max(name string, n int) {
	if name = "max " + name; int64(n) > c.w.stats[name] {
		c.w.stats[name] = int64(n)
	}
}
func (c *Ctx) state(set, key string) {
	m := c.w.sets[set]
	if m == nil {
		m = map[uint64]bool{}
		c.w.sets[set] = m
	}
	if len(m) < 400000 {
		m[hash64(key)] = true
	}
}
func (c *Ctx) sample(f string, a ...any) {
	if len(c.w.samples) < 2 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 700 {
			s = s[:700] + "…"
		}
		c.w.samples = append(c.w.samples, s)
	}
}
func (c *Ctx) wantSample() bool { return len(c.w.samples) < 2 }

type caseFailed struct{}

// fail records a violation and ends the case
func (c *Ctx) fail(what string, f string, a ...any) {
	d := fmt.Sprintf(f, a...)
	if c.desc != "" {
		d = c.desc + "\n" + d
	}
	c.w.viol = append(c.w.viol, Violation{c.p.ID, c.seed, c.tier, c.idx, what, d})
	if c.verbose {
		fmt.Fprintf(os.Stderr, "FAIL %s case %d: %s\n%s\n", c.p.ID, c.idx, what, d)
	}
	panic(caseFailed{})
}

// finding records something which is a violation unless it is a listed known
// finding. The case goes on.
func (c *Ctx) finding(id string, what string, f string, a ...any) {
	if k, ok := knownFindings[c.p.ID+"/"+id]; ok {
		c.w.known[id] = k
		return
	}
	c.fail(what, f, a...)
}

var knownFindings = map[string]string{}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown() {
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		// known: property=C12 id=xyz what fails
		l := sc.Text()
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		p := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(p) == 3 {
			prop := strings.TrimPrefix(p[0], "property=")
			id := strings.TrimPrefix(p[1], "id=")
			knownFindings[prop+"/"+id] = p[2]
		}
	}
}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

const maxRSS = 2600 << 20

func (w *worker) watchdog(p *Prop) {
	limit := p.CPULimit
	if limit == 0 {
		limit = 60 * time.Second
	}
	// For cases which wait for ever: how many times in a row this loop has found
	// the same case (almost) without having used the CPU. Loops are counted
	// rather than time, so that a machine which was suspended does not matter.
	const idleLoops = 750 // at least 30 s
	idle, idleSt, idleCPU := 0, int64(0), int64(0)
	for {
		time.Sleep(40 * time.Millisecond)
		st := w.started.Load()
		if st == 0 {
			continue
		}
		why := ""
		if now := cpuNow(); st != idleSt || now-idleCPU > int64(400*time.Millisecond) {
			idle, idleSt, idleCPU = 0, st, now
		} else if idle++; idle >= idleLoops {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			idle = 0
			if bytes.Contains(buf, []byte("github.com/grepsuzette/joeson.")) {
				why = "the case waits for ever inside the library"
			}
		}
		if why != "" {
		} else if time.Duration(cpuNow()-st) > limit {
			why = "the case did not end: more than " + limit.String() + " of CPU time"
		} else if rss() > maxRSS {
			// what is in use, not what the collector did not get to yet
			for i := 0; i < 3 && rss() > maxRSS; i++ {
				debug.FreeOSMemory()
			}
			if rss() <= maxRSS {
				continue
			}
			why = "the case does not end or keeps growing: more than 2.6 GB in use"
		}
		if why == "" || w.started.Load() != st {
			continue
		}
		c := w.ctx.Load()
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		v := Violation{c.p.ID, c.seed, c.tier, c.idx, why, c.desc + "\n" + string(buf)}
		b, _ := json.Marshal(v)
		os.WriteFile(filepath.Join(w.outdir, fmt.Sprintf("hang-%d.json", w.shard)), b, 0o644)
		os.Exit(7)
	}
}

func (w *worker) runCase(p *Prop, tier string, seed int64, idx int, verbose bool) {
	c := &Ctx{p: p, tier: tier, seed: seed, idx: idx, verbose: verbose, w: w, tmp: w.outdir}
	c.r = rand.New(rand.NewSource(int64(hash64(fmt.Sprintf("%s/%d/%d", p.ID, seed, idx)))))
	if w.status != nil {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(idx)+1)
		w.status.WriteAt(b[:], 0)
	}
	w.ctx.Store(c)
	w.started.Store(cpuNow())
	defer func() {
		w.started.Store(0)
		if e := recover(); e != nil {
			if _, ok := e.(caseFailed); ok {
				return
			}
			st := string(debug.Stack())
			if len(st) > 6000 {
				st = st[:6000]
			}
			w.viol = append(w.viol, Violation{p.ID, seed, tier, idx, fmt.Sprintf("unexpected panic: %v", e), c.desc + "\n" + st})
			if verbose {
				fmt.Fprintf(os.Stderr, "PANIC %v\n%s\n%s\n", e, c.desc, st)
			}
		}
	}()
	p.Run(c)
}

type shardResult struct {
	Stats   map[string]int64  `json:"stats"`
	Samples []string          `json:"samples"`
	Viol    []Violation       `json:"viol"`
	Known   map[string]string `json:"known"`
	Evals   int64             `json:"evals"`
	Sets    []string          `json:"sets"`
	Done    int               `json:"done"`
}

func newWorker(outdir string, shard int) *worker {
	return &worker{stats: map[string]int64{}, sets: map[string]map[uint64]bool{}, known: map[string]string{},
		outdir: outdir, shard: shard, nontriv: map[uint64]bool{}}
}

func writeHashes(path string, m map[uint64]bool) {
	b := make([]byte, 0, 8*len(m))
	for k := range m {
		b = binary.LittleEndian.AppendUint64(b, k)
	}
	os.WriteFile(path, b, 0o644)
}

func workerMain(p *Prop, tier string, seed int64, shard, n, total int, outdir string) {
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(1500 << 20)
	debug.SetMaxStack(700 << 20)
	w := newWorker(outdir, shard)
	var err error
	w.status, err = os.Create(filepath.Join(outdir, fmt.Sprintf("status-%d", shard)))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	go w.watchdog(p)
	done := 0
	if p.Init != nil {
		p.Init(&Ctx{p: p, tier: tier, seed: seed, w: w, tmp: outdir, r: rand.New(rand.NewSource(seed))})
	}
	for i := shard; i < total; i += n {
		w.runCase(p, tier, seed, i, false)
		done++
		if len(w.viol) >= 2 {
			break
		}
	}
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	w.stats["max memory of a worker, MB"] = ru.Maxrss >> 10
	names := []string{}
	for k, m := range w.sets {
		names = append(names, k)
		writeHashes(filepath.Join(outdir, fmt.Sprintf("set-%d-%s", shard, k)), m)
	}
	writeHashes(filepath.Join(outdir, fmt.Sprintf("nontriv-%d", shard)), w.nontriv)
	b, _ := json.Marshal(shardResult{w.stats, w.samples, w.viol, w.known, w.evals, names, done})
	if err := os.WriteFile(filepath.Join(outdir, fmt.Sprintf("result-%d.json", shard)), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

func readHashes(path string, into map[uint64]bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for i := 0; i+8 <= len(b); i += 8 {
		into[binary.LittleEndian.Uint64(b[i:])] = true
	}
}

func envSeed() int64 {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return n
		}
	}
	return 1
}

func check(p *Prop) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envSeed()
	total := p.Quick
	if tier == "thorough" {
		total = p.Thorough
	}
	if s := os.Getenv("VH_CASES"); s != "" {
		total, _ = strconv.Atoi(s)
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if p.Workers > 0 && p.Workers < n {
		n = p.Workers
	}
	if n > total {
		n = total
	}
	outdir, err := os.MkdirTemp("", "vh-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(outdir)
	self, _ := os.Executable()
	type res struct {
		shard  int
		err    error
		stderr string
	}
	results := make([]res, n)
	var wg sync.WaitGroup
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			cmd := exec.Command(self, "worker", p.ID, tier, fmt.Sprint(seed), fmt.Sprint(s), fmt.Sprint(n), fmt.Sprint(total), outdir)
			ef, _ := os.Create(filepath.Join(outdir, fmt.Sprintf("stderr-%d", s)))
			of, _ := os.Create(filepath.Join(outdir, fmt.Sprintf("stdout-%d", s)))
			cmd.Stderr, cmd.Stdout = ef, of
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
			err := cmd.Run()
			ef.Close()
			of.Close()
			results[s] = res{s, err, filepath.Join(outdir, fmt.Sprintf("stderr-%d", s))}
		}(s)
	}
	wg.Wait()

	var viol []Violation
	stats := map[string]int64{}
	sets := map[string]map[uint64]bool{}
	nontriv := map[uint64]bool{}
	known := map[string]string{}
	var samples []string
	var evals int64
	done := 0
	broken := ""
	for _, r := range results {
		var sr shardResult
		b, err := os.ReadFile(filepath.Join(outdir, fmt.Sprintf("result-%d.json", r.shard)))
		if err == nil {
			err = json.Unmarshal(b, &sr)
		}
		if err == nil {
			viol = append(viol, sr.Viol...)
			for k, v := range sr.Stats {
				if strings.HasPrefix(k, "max ") {
					if v > stats[k] {
						stats[k] = v
					}
				} else {
					stats[k] += v
				}
			}
			for k, v := range sr.Known {
				known[k] = v
			}
			samples = append(samples, sr.Samples...)
			evals += sr.Evals
			done += sr.Done
			for _, k := range sr.Sets {
				if sets[k] == nil {
					sets[k] = map[uint64]bool{}
				}
				readHashes(filepath.Join(outdir, fmt.Sprintf("set-%d-%s", r.shard, k)), sets[k])
			}
			readHashes(filepath.Join(outdir, fmt.Sprintf("nontriv-%d", r.shard)), nontriv)
			continue
		}
		// the worker ended without a result
		if b, err := os.ReadFile(filepath.Join(outdir, fmt.Sprintf("hang-%d.json", r.shard))); err == nil {
			var v Violation
			if json.Unmarshal(b, &v) == nil {
				viol = append(viol, v)
				continue
			}
		}
		se, _ := os.ReadFile(r.stderr)
		tail := string(se)
		if len(tail) > 6000 {
			tail = tail[:3500] + "\n...\n" + tail[len(tail)-2400:]
		}
		idx := -1
		if b, err := os.ReadFile(filepath.Join(outdir, fmt.Sprintf("status-%d", r.shard))); err == nil && len(b) == 8 {
			idx = int(binary.LittleEndian.Uint64(b)) - 1
		}
		killed := false
		if ee, ok := r.err.(*exec.ExitError); ok {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				killed = true
			}
		}
		if killed || idx < 0 {
			broken += fmt.Sprintf("worker %d: %v (case %d)\n%s\n", r.shard, r.err, idx, tail)
			continue
		}
		what := fmt.Sprintf("the process was ended by the code under test (%v)", r.err)
		if strings.Contains(tail, "WARNING: DATA RACE") {
			what = "data race"
		}
		viol = append(viol, Violation{p.ID, seed, tier, idx, what, tail})
	}

	// stable order, known findings
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s id=%s %s\n", p.ID, k, known[k])
	}
	evdir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evdir, 0o755)
	setCounts := map[string]int{}
	for k, m := range sets {
		setCounts[k] = len(m)
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(nontriv), "rule": p.Rule, "samples": samples,
			"cases": done, "observed": stats, "distinct_observed": setCounts, "workers": n,
		},
		"assumptions": p.Assume,
		"wall_s":      time.Since(start).Seconds(), "violations": len(viol),
	}
	if p.Assume == nil {
		delete(ev, "assumptions")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return 3
	}
	if len(viol) > 0 {
		sort.SliceStable(viol, func(a, b int) bool { return viol[a].Case < viol[b].Case })
		rd := filepath.Join(evdir, "replays")
		os.MkdirAll(rd, 0o755)
		for i, v := range viol {
			if i >= 4 {
				break
			}
			path := filepath.Join(rd, fmt.Sprintf("%s-%d-%d.json", p.ID, seed, v.Case))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
			d := v.Detail
			if len(d) > 1800 {
				d = d[:1800] + "…"
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			fmt.Printf("  case %d: %s\n  %s\n", v.Case, firstLine(v.What), strings.ReplaceAll(d, "\n", "\n  "))
		}
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, broken)
		return 2
	}
	fmt.Printf("OK property=%s tier=%s seed=%d cases=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", p.ID, tier, seed, done, evals, len(nontriv), time.Since(start).Seconds())
	return 0
}

func main() {
	loadKnown()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check ID | replay FILE | case ID IDX | list")
		os.Exit(2)
	}
	get := func(id string) *Prop {
		p := props[id]
		if p == nil {
			fmt.Fprintln(os.Stderr, "no such property:", id)
			os.Exit(2)
		}
		return p
	}
	atoi := func(s string) int {
		n, err := strconv.Atoi(s)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return n
	}
	one := func(p *Prop, tier string, seed int64, idx int) {
		dir, _ := os.MkdirTemp("", "vh-replay-")
		w := newWorker(dir, 0)
		debug.SetMaxStack(700 << 20)
		go w.watchdog(p)
		if p.Init != nil {
			p.Init(&Ctx{p: p, tier: tier, seed: seed, w: w, tmp: dir, r: rand.New(rand.NewSource(seed))})
		}
		w.runCase(p, tier, seed, idx, true)
		os.RemoveAll(dir)
		if len(w.viol) > 0 {
			os.Exit(1)
		}
		fmt.Println("the case passes")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(get(os.Args[2])))
	case "worker":
		a := os.Args[2:]
		workerMain(get(a[0]), a[1], int64(atoi(a[2])), atoi(a[3]), atoi(a[4]), atoi(a[5]), a[6])
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		one(get(v.Property), v.Tier, v.Seed, v.Case)
	case "case":
		one(get(os.Args[2]), "quick", envSeed(), atoi(os.Args[3]))
	case "list":
		for _, k := range sortedKeys(props) {
			fmt.Println(k)
		}
	}
}
