package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"vsim/harness"
	"vsim/rt"
)

// batchSize is part of what a run is: a run's process has executed the runs before it
// in its batch.
const batchSize = 40

// plan of a property: how many runs the quick check makes.
var quickRuns = map[string]int{
	"A01": 70000, "A02": 120000, "A03": 70000, "A04": 50000, "A05": 26000, "A06": 200000,
	"B01": 130000, "B02": 130000, "B03": 90000, "B04": 150000, "B05": 90000, "B06": 60000,
	"B07": 180000, "B08": 220000, "B09": 160000, "B10": 100000,
}

type found struct {
	run   int
	from  int // first run of its batch
	c     *harness.Case
	o     *outcome
	known string
	// across is the number of the second process, if it took two to find it
	across uint64
}

type totals struct {
	mu       sync.Mutex
	runs     int
	trivial  int
	distinct map[uint64]bool
	scheds   map[uint64]bool
	skips    map[string]int
	stats    map[string]int
	faults   map[string]int
	families map[string]int
	simNs    int64
	steps    uint64
	maxSteps uint64
	slowest  int
	cov      []uint32
	usedGo   bool
	across   int
	samples  []any
	found    []*found
	trouble  []string
}

func (t *totals) add(l *Line) {
	r := l.Report
	t.runs++
	t.families[l.Family]++
	if r.Skip != "" {
		t.skips[r.Skip]++
	}
	if r.Trivial {
		t.trivial++
	} else {
		t.distinct[r.Distinct] = true
	}
	if r.Sched != 0 {
		t.scheds[r.Sched] = true
	}
	for k, n := range r.Stats {
		t.stats[k] += n
	}
	for k, n := range r.Faults {
		t.faults[k] += n
	}
	t.simNs += r.SimNs
	t.steps += r.Steps
	if r.Steps > t.maxSteps {
		t.maxSteps, t.slowest = r.Steps, l.Run
	}
}

type checkCfg struct {
	prop    string
	seed    uint64
	tier    string
	out     string
	sites   []string
	workers int
	runs    int           // 0: until the time is up
	limit   time.Duration // stops dispatching
	samples int
}

// explore runs batches until enough or until something is found.
func explore(cfg *checkCfg, kf *knownFile) *totals {
	t := &totals{distinct: map[uint64]bool{}, scheds: map[uint64]bool{}, skips: map[string]int{}, stats: map[string]int{}, faults: map[string]int{}, families: map[string]int{}, cov: make([]uint32, len(cfg.sites))}
	start := time.Now()
	next := 0
	stop := false
	var wg sync.WaitGroup
	for w := 0; w < cfg.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				t.mu.Lock()
				if stop || time.Since(start) > cfg.limit || cfg.runs > 0 && next >= cfg.runs {
					t.mu.Unlock()
					return
				}
				from := next
				next += batchSize
				t.mu.Unlock()
				to := from + batchSize
				if cfg.runs > 0 && to > cfg.runs {
					to = cfg.runs
				}
				bad := runBatch(cfg, t, from, to, kf)
				if bad {
					t.mu.Lock()
					stop = true
					t.mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return t
}

// runBatch executes runs [from,to) in a process of their own; true if something was
// found that ends the exploration.
func runBatch(cfg *checkCfg, t *totals, from, to int, kf *knownFile) bool {
	sample := -1
	if from/batchSize < cfg.samples {
		sample = from + 3
	}
	// Some batches are executed by a second process, too, and have to observe the same.
	boot := uint64(0)
	var obs map[int]*harness.Report
	if cfg.prop == "B09" && from/batchSize%acrossEvery == 3 {
		boot = rt.Mix(cfg.seed, uint64(from), 1)>>1 | 1
		obs = map[int]*harness.Report{}
	}
	for first := from; first < to; {
		c := exec.Command(self(), "batch", "-prop", cfg.prop, "-seed", strconv.FormatUint(cfg.seed, 10),
			"-from", strconv.Itoa(first), "-to", strconv.Itoa(to), "-sites", strconv.Itoa(len(cfg.sites)), "-sample", strconv.Itoa(sample), "-obs="+strconv.FormatBool(boot != 0))
		c.Env = append(os.Environ(), "GOMAXPROCS=2")
		var se bytes.Buffer
		c.Stderr = &se
		so, err := c.StdoutPipe()
		if err == nil {
			err = c.Start()
		}
		if err != nil {
			t.mu.Lock()
			t.trouble = append(t.trouble, err.Error())
			t.mu.Unlock()
			return true
		}
		// A process that says nothing for long hangs in something that is no statement.
		dog := time.AfterFunc(120*time.Second, func() { c.Process.Kill() })
		rd := bufio.NewReaderSize(so, 1<<20)
		cur, ended, stopIt := -1, false, false
		for {
			b, err := rd.ReadBytes('\n')
			if err != nil {
				break
			}
			dog.Reset(120 * time.Second)
			var l Line
			if json.Unmarshal(b, &l) != nil {
				continue
			}
			switch {
			case l.Start != nil:
				cur = *l.Start
			case l.End:
				ended = true
				t.mu.Lock()
				for i, n := range l.Cov {
					if i < len(t.cov) {
						t.cov[i] += n
					}
				}
				t.usedGo = t.usedGo || l.UsedGo
				t.mu.Unlock()
			case l.Report != nil:
				if obs != nil {
					obs[l.Run] = l.Report
				}
				t.mu.Lock()
				t.add(&l)
				if l.Run == sample && l.Report.V == nil {
					t.samples = append(t.samples, map[string]any{"run": l.Run, "case": describe(l.Case), "nontrivial": !l.Report.Trivial, "event_log_hash": fmt.Sprintf("%016x", l.Report.Hash), "statements": l.Report.Steps})
				}
				if l.Report.V != nil {
					f := &found{run: l.Run, from: from, c: l.Case, o: &outcome{rp: l.Report}}
					f.known = kf.match(cfg.prop, f.o)
					t.found = append(t.found, f)
					stopIt = stopIt || f.known == ""
				}
				t.mu.Unlock()
			}
		}
		err = c.Wait()
		quiet := !dog.Stop()
		if ended && err == nil {
			if obs != nil && first == from && !stopIt {
				stopIt = runAcross(cfg, t, from, to, boot, obs, kf)
			}
			return stopIt
		}
		// The process died during run cur.
		t.mu.Lock()
		if c.ProcessState != nil && c.ProcessState.ExitCode() == exitBug || cur < 0 {
			t.trouble = append(t.trouble, fmt.Sprintf("run %d: %v: %s", cur, err, tail(se.String(), 800)))
			t.mu.Unlock()
			return true
		}
		if l := fatalLine(se.String()); l != "" && !quiet {
			f := &found{run: cur, from: from, o: &outcome{fatal: l}}
			f.known = kf.match(cfg.prop, f.o)
			t.found = append(t.found, f)
			t.mu.Unlock()
			if f.known == "" {
				return true
			}
		} else {
			why := "died"
			if quiet {
				why = "was silent for two minutes"
			}
			t.skips["process "+why]++
			t.trouble = append(t.trouble, fmt.Sprintf("run %d: the process %s: %v %s", cur, why, err, tail(se.String(), 400)))
			t.mu.Unlock()
		}
		if stopIt {
			return true
		}
		first = cur + 1
	}
	return false
}

// acrossEvery: one batch in so many is executed by two processes (B09).
const acrossEvery = 8

// runAcross executes runs [from,to) in another process and compares.
func runAcross(cfg *checkCfg, t *totals, from, to int, boot uint64, obs map[int]*harness.Report, kf *knownFile) bool {
	c := exec.Command(self(), "batch", "-prop", cfg.prop, "-seed", strconv.FormatUint(cfg.seed, 10),
		"-from", strconv.Itoa(from), "-to", strconv.Itoa(to), "-obs=true")
	c.Env = append(bootEnv(boot), "GOMAXPROCS=2")
	dog := time.AfterFunc(400*time.Second, func() { c.Process.Kill() })
	b, err := c.Output()
	dog.Stop()
	stop := false
	t.mu.Lock()
	defer t.mu.Unlock()
	if err != nil {
		t.trouble = append(t.trouble, fmt.Sprintf("runs %d to %d in a second process: %v", from, to, err))
		return true
	}
	for _, s := range bytes.Split(b, []byte("\n")) {
		var l Line
		if json.Unmarshal(s, &l) != nil || l.Report == nil {
			continue
		}
		a := obs[l.Run]
		if a == nil || a.V != nil || a.Skip != "" || l.Report.Skip != "" {
			continue
		}
		t.across++
		v := l.Report.V
		if v == nil {
			v = harness.Across(a, l.Report)
		}
		if v == nil {
			continue
		}
		f := &found{run: l.Run, from: from, across: boot, o: &outcome{rp: &harness.Report{V: v}}}
		f.known = kf.match(cfg.prop, f.o)
		t.found = append(t.found, f)
		stop = stop || f.known == ""
	}
	return stop
}

// ------------------------------------------------------------- known findings

type knownFile struct{ entries []knownEntry }

type knownEntry struct{ prop, sig, contains, what string }

// Lines: known: property=A01 | sig=... | contains=... | what
func readKnown(path string) *knownFile {
	k := &knownFile{}
	b, err := os.ReadFile(path)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := strings.Split(strings.TrimPrefix(l, "known:"), "|")
		if len(f) != 4 {
			die("%s: malformed line %q", path, l)
		}
		get := func(s, p string) string { return strings.TrimPrefix(strings.TrimSpace(s), p) }
		k.entries = append(k.entries, knownEntry{get(f[0], "property="), get(f[1], "sig="), get(f[2], "contains="), strings.TrimSpace(f[3])})
	}
	return k
}

func (k *knownFile) match(prop string, o *outcome) string {
	for _, e := range k.entries {
		if e.prop == prop && e.sig == o.sig() && strings.Contains(o.msg(), e.contains) {
			return e.what
		}
	}
	return ""
}

// ---------------------------------------------------------------------- check

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	verif := fs.String("verif", "/verif", "")
	build := fs.String("build", "/verif/build", "")
	runs := fs.Int("runs", 0, "override the number of runs")
	secs := fs.Int("secs", 0, "override the time limit")
	workers := fs.Int("workers", 0, "")
	fast := fs.Bool("fast", false, "do not minimise (for measuring sensitivity)")
	fs.Parse(args)
	cfg := &checkCfg{prop: *prop, tier: os.Getenv("VERIF_TIER"), out: *verif, samples: 2}
	if _, ok := quickRuns[cfg.prop]; !ok {
		die("unknown property %q", cfg.prop)
	}
	if cfg.tier != "thorough" {
		cfg.tier = "quick"
	}
	cfg.seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			die("VERIF_SEED=%q", s)
		}
		cfg.seed = uint64(n)
	}
	readJSON(filepath.Join(*build, "overlay", "sites.json"), &cfg.sites)
	cfg.workers = runtime.NumCPU()
	if cfg.workers > 8 {
		cfg.workers = 8
	}
	if *workers > 0 {
		cfg.workers = *workers
	}
	if cfg.tier == "quick" {
		cfg.runs, cfg.limit = quickRuns[cfg.prop], 300*time.Second
	} else {
		cfg.runs, cfg.limit = 0, 720*time.Second
	}
	if *runs > 0 {
		cfg.runs = *runs
	}
	if *secs > 0 {
		cfg.limit = time.Duration(*secs) * time.Second
		if *runs == 0 {
			cfg.runs = 0
		}
	}
	kf := readKnown(filepath.Join(*verif, "known_findings.txt"))
	start := time.Now()
	t := explore(cfg, kf)
	explored := time.Since(start)
	sort.Slice(t.found, func(i, j int) bool { return t.found[i].run < t.found[j].run })
	var viol *Replay
	var path string
	seen := map[string]bool{}
	var knownLines []string
	for _, f := range t.found {
		if f.known != "" {
			if !seen[f.known] {
				seen[f.known] = true
				knownLines = append(knownLines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", cfg.prop, f.known))
			}
			continue
		}
		if *fast {
			fmt.Printf("FAST-VIOLATION %s run %d %s: %s\n", cfg.prop, f.run, f.o.sig(), f.o.msg())
			os.Exit(exitViolation)
		}
		r, why := confirm(cfg, f)
		if r == nil {
			t.trouble = append(t.trouble, fmt.Sprintf("run %d: %s: %s: not reproducible: %s", f.run, f.o.sig(), f.o.msg(), why))
			continue
		}
		viol = r
		dir := filepath.Join(cfg.out, "evidence", "replays")
		if err := os.MkdirAll(dir, 0o755); err != nil {
			die("%v", err)
		}
		path = filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", cfg.prop, cfg.seed, f.run))
		b, _ := json.MarshalIndent(r, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			die("%v", err)
		}
		break
	}
	writeEvidence(cfg, t, explored, time.Since(start), viol, path)
	for _, l := range knownLines {
		fmt.Println(l)
	}
	fmt.Printf("%s %s: %d runs in %.1f s, %d distinct non-trivial, %d skipped, %d interleavings, faults %v\n",
		cfg.prop, cfg.tier, t.runs, explored.Seconds(), len(t.distinct), total(t.skips), len(t.scheds), t.faults)
	if viol != nil {
		for _, l := range viol.Text {
			fmt.Println("  " + l)
		}
		fmt.Printf("  %s: %s\n", viol.Sig, viol.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.prop, path)
		os.Exit(exitViolation)
	}
	if len(t.trouble) > 0 {
		for _, l := range t.trouble {
			fmt.Fprintln(os.Stderr, "vsim: "+l)
		}
		os.Exit(exitTrouble)
	}
	if t.runs == 0 || 2*total(t.skips) > t.runs {
		die("%d of %d runs came to no verdict: %v", total(t.skips), t.runs, t.skips)
	}
}

func total(m map[string]int) (n int) {
	for _, k := range m {
		n += k
	}
	return
}

// confirm re-executes what was found in a process of its own and minimises it.
func confirm(cfg *checkCfg, f *found) (*Replay, string) {
	c := f.c
	if c == nil {
		c = generateApart(cfg, f.run)
		if c == nil {
			return nil, "the case can not be generated"
		}
	}
	sig := f.o.sig()
	req := &ExecReq{Case: c, Across: f.across}
	o := run(req, 100*time.Second)
	if o.bad != "" || o.sig() != sig {
		// Perhaps it needs what ran before it in the same process.
		for i := f.from; i < f.run; i++ {
			if w := generateApart(cfg, i); w != nil {
				req.Warm = append(req.Warm, w)
			}
		}
		o = run(req, 300*time.Second)
		if o.bad != "" || o.sig() != sig {
			return nil, fmt.Sprintf("alone it gives %q %s", o.sig(), o.bad)
		}
		// Drop what is not needed.
		for w := (len(req.Warm) + 1) / 2; w >= 1; w /= 2 {
			for a := 0; a+w <= len(req.Warm); {
				x := &ExecReq{Case: c, Across: f.across, Warm: append(append([]*harness.Case{}, req.Warm[:a]...), req.Warm[a+w:]...)}
				if o2 := run(x, 100*time.Second); o2.bad == "" && o2.sig() == sig {
					req, o = x, o2
				} else {
					a += w
				}
			}
		}
	}
	s := &shrinker{across: f.across, sig: sig, warm: req.Warm, best: c, out: o, max: 1500, end: time.Now().Add(60 * time.Second)}
	if o.rp != nil && o.rp.Final != nil && !c.Plan.Explicit {
		if k, o2 := s.first([]*harness.Case{o.rp.Final}); k == 0 {
			s.best, s.out = o.rp.Final, o2
		}
	}
	s.loop()
	last := run(&ExecReq{Warm: req.Warm, Case: s.best, Log: true, Across: f.across}, 100*time.Second)
	if last.bad != "" || last.sig() != sig {
		s.best = c
		last = run(&ExecReq{Warm: req.Warm, Case: c, Log: true, Across: f.across}, 100*time.Second)
		if last.bad != "" || last.sig() != sig {
			return nil, "it fails only now and then"
		}
	}
	r := &Replay{Property: cfg.prop, Seed: cfg.seed, Run: f.run, Sig: sig, Msg: last.msg(), Warm: req.Warm, Case: s.best, Across: f.across, Text: describe(s.best)}
	if last.rp != nil {
		r.Hash = last.rp.Hash
		r.Trace = last.rp.Log
		if len(r.Trace) > 400 {
			r.Trace = append(r.Trace[:200:200], append([]string{"..."}, r.Trace[len(r.Trace)-200:]...)...)
		}
	}
	return r, ""
}

// generateApart makes a case in another process (generating executes code under test).
func generateApart(cfg *checkCfg, i int) *harness.Case {
	c := exec.Command(self(), "gen", "-prop", cfg.prop, "-seed", strconv.FormatUint(cfg.seed, 10), "-run", strconv.Itoa(i))
	b, err := c.Output()
	if err != nil {
		return nil
	}
	x := &harness.Case{}
	if json.Unmarshal(b, x) != nil {
		return nil
	}
	return x
}

// --------------------------------------------------------------------- replay

func replay(args []string) {
	if len(args) != 1 {
		die("usage: vsim replay FILE")
	}
	var r Replay
	readJSON(args[0], &r)
	o := run(&ExecReq{Warm: r.Warm, Case: r.Case, Log: true, Across: r.Across}, 300*time.Second)
	if o.bad != "" {
		die("%s", o.bad)
	}
	for _, l := range r.Text {
		fmt.Println(l)
	}
	if r.Across != 0 {
		fmt.Printf("executed in two processes, the second with boot number %d\n", r.Across)
	}
	if o.rp != nil {
		for _, l := range o.rp.Log {
			fmt.Println("   " + l)
		}
	}
	if o.sig() == "" {
		fmt.Printf("property %s holds on this execution\n", r.Property)
		return
	}
	fmt.Printf("%s: %s\n", o.sig(), o.msg())
	if o.rp != nil {
		if o.sig() == r.Sig && o.msg() == r.Msg && o.rp.Hash == r.Hash {
			fmt.Printf("reproduced exactly (event log %016x)\n", r.Hash)
		} else {
			fmt.Printf("differs from the recorded execution (event log %016x, recorded %016x: %s: %s)\n", o.rp.Hash, r.Hash, r.Sig, r.Msg)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, args[0])
	os.Exit(exitViolation)
}
