// Command vsim runs, judges, minimises and replays simulated executions of goexpdt.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"

	"vsim/harness"
	"vsim/rt"
)

const (
	exitViolation = 1
	exitTrouble   = 2
	exitBug       = 4
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+f+"\n", a...)
	os.Exit(exitTrouble)
}

// Replay is a replay file: everything an execution depends on.
type Replay struct {
	Property string          `json:"property"`
	Seed     uint64          `json:"seed"`
	Run      int             `json:"run"`
	Sig      string          `json:"sig"`
	Msg      string          `json:"msg"`
	Hash     uint64          `json:"hash"`
	Warm     []*harness.Case `json:"warm,omitempty"` // executed before, in the same process
	Case     *harness.Case   `json:"case"`
	Across   uint64          `json:"across,omitempty"` // the same in a second process, which differs from the first by this
	Text     []string        `json:"text,omitempty"`   // the case, readable
	Trace    []string        `json:"trace,omitempty"`  // what happened
}

func main() {
	rt.Booted()
	debug.SetMaxStack(512 << 20)
	debug.SetMemoryLimit(2 << 30)
	if len(os.Args) < 2 {
		die("usage: vsim check|batch|exec|replay|determinism|show ...")
	}
	harness.Apart = apart
	args := os.Args[2:]
	switch os.Args[1] {
	case "batch":
		batch(args)
	case "exec":
		execOne()
	case "twin":
		twinOne(args)
	case "check":
		check(args)
	case "replay":
		replay(args)
	case "determinism":
		determinism(args)
	case "gen":
		gen(args)
	case "show":
		show(args)
	default:
		die("unknown command %s", os.Args[1])
	}
}

func readJSON(path string, x any) {
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, x)
	}
	if err != nil {
		die("%s: %v", path, err)
	}
}

// guarded judges a case; a panic outside the simulated callers is the harness's own.
func guarded(c *harness.Case) *harness.Report {
	defer func() {
		if x := recover(); x != nil {
			fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
			harness.Bug("%s run %d: %v", c.Prop, c.Run, x)
		}
	}()
	return harness.Check(c)
}

func generate(prop string, seed uint64, run int) *harness.Case {
	defer func() {
		if x := recover(); x != nil {
			fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
			harness.Bug("%s generating run %d: %v", prop, run, x)
		}
	}()
	return harness.Generate(prop, seed, run)
}

// Line is what a batch process prints.
type Line struct {
	Start  *int            `json:"start,omitempty"`
	Run    int             `json:"run"`
	Family string          `json:"family,omitempty"`
	Report *harness.Report `json:"report,omitempty"`
	Case   *harness.Case   `json:"case,omitempty"`
	Cov    []uint32        `json:"cov,omitempty"`
	UsedGo bool            `json:"usedgo,omitempty"`
	End    bool            `json:"end,omitempty"`
}

// batch executes a range of runs in this process.
func batch(args []string) {
	fs := flag.NewFlagSet("batch", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	sites := fs.Int("sites", 0, "")
	sample := fs.Int("sample", -1, "")
	keep := fs.Bool("keep-going", false, "")
	obs := fs.Bool("obs", false, "")
	viol := 0
	fs.Parse(args)
	rt.Cov = make([]uint32, *sites)
	w := bufio.NewWriter(protocol())
	enc := json.NewEncoder(w)
	put := func(l Line) {
		if err := enc.Encode(l); err != nil {
			die("%v", err)
		}
		w.Flush()
	}
	for i := *from; i < *to; i++ {
		i := i
		put(Line{Start: &i})
		c := generate(*prop, *seed, i)
		l := Line{Run: i, Family: c.Family}
		l.Report = guarded(c)
		if l.Report.V == nil {
			l.Report.Final = nil
		}
		if !*obs {
			l.Report.Obs = nil
		}
		if l.Report.V != nil || i == *sample {
			l.Case = c
		}
		put(l)
		if l.Report.V != nil {
			if viol++; viol >= 3 && !*keep {
				break
			}
		}
	}
	put(Line{End: true, Cov: rt.Cov, UsedGo: rt.UsedGo.Load()})
}

// ExecReq is what an exec process reads from its standard input.
type ExecReq struct {
	Warm []*harness.Case `json:"warm,omitempty"`
	Case *harness.Case   `json:"case"`
	Log  bool            `json:"log,omitempty"`
	// Across: execute in two processes that differ by this number and compare.
	Across uint64 `json:"across,omitempty"`
}

// protocol takes the standard output away from whatever the code under test prints.
func protocol() *os.File {
	out := os.Stdout
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
	return out
}

func execOne() {
	out := protocol()
	var q ExecReq
	if err := json.NewDecoder(os.Stdin).Decode(&q); err != nil {
		die("%v", err)
	}
	for _, c := range q.Warm {
		guarded(c)
	}
	harness.LogOn = q.Log
	harness.ObsFull = q.Across != 0
	rp := guarded(q.Case)
	b, _ := json.Marshal(rp)
	out.Write(b)
}

// twinOne executes a case that another process compares its own with.
func twinOne(args []string) {
	out := protocol()
	harness.Apart = nil
	var c harness.Case
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		die("%v", err)
	}
	budget, err := strconv.ParseUint(args[0], 10, 64)
	if err != nil {
		die("%v", err)
	}
	b, _ := json.Marshal(harness.Twin(&c, budget))
	out.Write(b)
}

func gen(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	run := fs.Int("run", 0, "")
	fs.Parse(args)
	out := protocol()
	b, _ := json.Marshal(generate(*prop, *seed, *run))
	out.Write(b)
}

func show(args []string) {
	fs := flag.NewFlagSet("show", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	run := fs.Int("run", 0, "")
	log := fs.Bool("log", false, "")
	fs.Parse(args)
	c := generate(*prop, *seed, *run)
	for _, l := range describe(c) {
		fmt.Println(l)
	}
	harness.LogOn = *log
	rp := guarded(c)
	for _, l := range rp.Log {
		fmt.Println("  ", l)
	}
	rp.Log, rp.Final, rp.Obs = nil, nil, nil
	b, _ := json.MarshalIndent(rp, "", " ")
	fmt.Println(string(b))
}

// describe writes a case down for people.
func describe(c *harness.Case) []string {
	var o []string
	add := func(f string, a ...any) { o = append(o, fmt.Sprintf(f, a...)) }
	add("property %s, family %s, run %d", c.Prop, c.Family, c.Run)
	if c.Tree != nil {
		add("tree %s (dimension %d)", c.Tree, c.Tree.Dim)
	}
	if c.Dent != nil {
		add("its malformed node, where asked for: node %d, %s %d", c.Dent.At, c.Dent.What, c.Dent.Val)
	}
	for i, s := range c.Shared {
		add("shared query %d: %s", i, s)
	}
	for i := range c.Clients {
		for j := range c.Clients[i].Ops {
			p := &c.Clients[i].Ops[j]
			add("caller %d, operation %d (context %d, solver %d): %s", i, j, p.Ctx, p.Sol, p)
		}
	}
	for i := range c.Cnf {
		add("formula operation %d: %s", i, jsn(c.Cnf[i]))
	}
	for i := range c.Scope {
		s := jsn(c.Scope[i])
		if c.Scope[i].Q != nil {
			s = fmt.Sprintf("caller %d: %s %s %s", c.Scope[i].Client, c.Scope[i].K, c.Scope[i].Q, c.Scope[i].Bad)
		}
		add("context operation %d: %s", i, s)
	}
	for _, f := range c.Faults {
		add("fault: %s", f)
	}
	for _, k := range c.Crashes {
		add("crash: caller %d at its statement %d", k.Client, k.At)
	}
	if c.Alt != nil {
		s := ""
		if c.Alt.Other != nil {
			var x []string
			for i := range c.Alt.Other.Ops {
				x = append(x, c.Alt.Other.Ops[i].String())
			}
			s = ", other caller: " + strings.Join(x, "; ")
		}
		add("second environment: map order %d, %d old files%s", c.Alt.MapSeed, c.Alt.Pre, s)
	}
	add("solver %s; map order %d; chunks %d; old files %d; schedule %s", jsn(c.Solver), c.MapSeed, c.Chunk, c.Pre, jsn(c.Plan))
	return o
}

func jsn(x any) string {
	b, _ := json.Marshal(x)
	return string(b)
}
