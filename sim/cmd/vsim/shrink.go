package main

import (
	"encoding/json"
	"sync"
	"time"

	"vsim/harness"
	"vsim/q"
	"vsim/rt"
)

// shrinker makes a failing case smaller while it keeps failing in the same way.
// Candidates are executed in processes of their own, several at a time; the first
// success in the order of the list is taken, so the result does not depend on timing
// (unless the time limit is hit).
type shrinker struct {
	sig    string
	warm   []*harness.Case
	best   *harness.Case
	out    *outcome
	tries  int
	max    int
	end    time.Time
	size   int
	across uint64
}

func size(c *harness.Case) int {
	b, _ := json.Marshal(c)
	return len(b)
}

func (s *shrinker) over() bool { return s.tries >= s.max || time.Now().After(s.end) }

// first returns the index of the first candidate that fails likewise.
func (s *shrinker) first(cs []*harness.Case) (int, *outcome) {
	const par = 8
	for i := 0; i < len(cs) && !s.over(); i += par {
		j := i + par
		if j > len(cs) {
			j = len(cs)
		}
		res := make([]*outcome, j-i)
		var wg sync.WaitGroup
		for k := i; k < j; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				res[k-i] = run(&ExecReq{Warm: s.warm, Case: cs[k], Across: s.across}, 20*time.Second)
			}(k)
		}
		wg.Wait()
		s.tries += j - i
		for k := i; k < j; k++ {
			if res[k-i].bad == "" && res[k-i].sig() == s.sig {
				return k, res[k-i]
			}
		}
	}
	return -1, nil
}

func (s *shrinker) loop() {
	for !s.over() {
		cs := candidates(s.best)
		i, o := s.first(cs)
		if i < 0 {
			return
		}
		s.best, s.out = cs[i], o
		// From now on the schedule that was really taken is kept.
		if o.rp != nil && o.rp.Final != nil && !s.best.Plan.Explicit {
			f := o.rp.Final
			if k, o2 := s.first([]*harness.Case{f}); k == 0 {
				s.best, s.out = f, o2
			}
		}
	}
}

// candidates lists simpler cases, the most drastic first.
func candidates(c *harness.Case) []*harness.Case {
	var cs []*harness.Case
	try := func(f func(d *harness.Case) bool) {
		d := c.Clone()
		if f(d) {
			cs = append(cs, d)
		}
	}
	// Whole callers.
	for i := range c.Clients {
		if len(c.Clients[i].Ops) > 0 && len(c.Clients) > 1 {
			i := i
			try(func(d *harness.Case) bool { d.Clients[i].Ops = nil; return true })
		}
	}
	// Halves, then single operations.
	for i := range c.Clients {
		n := len(c.Clients[i].Ops)
		for w := n / 2; w >= 1; w /= 2 {
			for a := 0; a+w <= n; a += w {
				i, a, w := i, a, w
				try(func(d *harness.Case) bool {
					o := d.Clients[i].Ops
					d.Clients[i].Ops = append(o[:a:a], o[a+w:]...)
					return true
				})
			}
		}
	}
	for n, w := len(c.Cnf), len(c.Cnf)/2; w >= 1; w /= 2 {
		for a := n - w; a >= 0; a -= w {
			a, w := a, w
			try(func(d *harness.Case) bool { d.Cnf = append(d.Cnf[:a:a], d.Cnf[a+w:]...); return true })
		}
	}
	for n, w := len(c.Scope), len(c.Scope)/2; w >= 1; w /= 2 {
		for a := n - w; a >= 0; a -= w {
			a, w := a, w
			try(func(d *harness.Case) bool { d.Scope = append(d.Scope[:a:a], d.Scope[a+w:]...); return true })
		}
	}
	for i := range c.Faults {
		i := i
		try(func(d *harness.Case) bool { d.Faults = append(d.Faults[:i:i], d.Faults[i+1:]...); return true })
	}
	for i := range c.Crashes {
		i := i
		try(func(d *harness.Case) bool { d.Crashes = append(d.Crashes[:i:i], d.Crashes[i+1:]...); return true })
	}
	// Schedule.
	if !c.Plan.Explicit && (c.Plan.Seed != 0 || c.Plan.Gap != 0) {
		try(func(d *harness.Case) bool { d.Plan = rt.Plan{}; return true })
	}
	if c.Plan.Explicit {
		n := len(c.Plan.Switches)
		for w := n / 2; w >= 1; w /= 2 {
			for a := n - w; a >= 0; a -= w {
				a, w := a, w
				try(func(d *harness.Case) bool {
					s := d.Plan.Switches
					d.Plan.Switches = append(s[:a:a], s[a+w:]...)
					return true
				})
			}
			if w == 1 {
				break
			}
		}
	}
	if c.Alt != nil {
		if c.Alt.Other != nil {
			try(func(d *harness.Case) bool { d.Alt.Other = nil; d.Alt.Plan = rt.Plan{}; return true })
			for i := range c.Alt.Other.Ops {
				i := i
				try(func(d *harness.Case) bool {
					o := d.Alt.Other.Ops
					d.Alt.Other.Ops = append(o[:i:i], o[i+1:]...)
					return true
				})
			}
		}
		if c.Alt.MapSeed != c.MapSeed {
			try(func(d *harness.Case) bool { d.Alt.MapSeed = d.MapSeed; return true })
		}
		if c.Alt.TempSeed != c.TempSeed {
			try(func(d *harness.Case) bool { d.Alt.TempSeed = d.TempSeed; return true })
		}
		if c.Alt.Host != 0 {
			try(func(d *harness.Case) bool { d.Alt.Host = 0; return true })
		}
		if c.Alt.Chunk != c.Chunk {
			try(func(d *harness.Case) bool { d.Alt.Chunk = d.Chunk; return true })
		}
		if c.Alt.Pre != c.Pre {
			try(func(d *harness.Case) bool { d.Alt.Pre = d.Pre; return true })
		}
	}
	// Environment.
	try(func(d *harness.Case) bool { p := d.Pre; d.Pre = 0; return p != 0 })
	try(func(d *harness.Case) bool { p := d.MapSeed; d.MapSeed = 0; return p != 0 })
	try(func(d *harness.Case) bool { p := d.Solver.Layout; d.Solver.Layout = 0; return p != 0 })
	try(func(d *harness.Case) bool { p := d.Solver.Partial; d.Solver.Partial = false; return p })
	try(func(d *harness.Case) bool { p := d.Solver.PerCall; d.Solver.PerCall = false; return p })
	try(func(d *harness.Case) bool { p := d.Solver.Strict; d.Solver.Strict = false; return p })
	try(func(d *harness.Case) bool { p := d.Solver.Guide; d.Solver.Guide = ""; return p != "" })
	for i := range c.Faults {
		i := i
		try(func(d *harness.Case) bool { p := d.Faults[i].Sticky; d.Faults[i].Sticky = false; return p })
		try(func(d *harness.Case) bool { p := d.Faults[i].Arg; d.Faults[i].Arg = 0; return p != 0 })
	}
	// Tree.
	if c.Tree != nil {
		for i := range c.Tree.Nodes {
			if i < len(c.Tree.Nodes) && c.Tree.Nodes[i].Z >= 0 {
				i := i
				try(func(d *harness.Case) bool { return d.Tree.Cut(i) })
			}
		}
	}
	// Queries.
	queries := func(d *harness.Case) (out []**q.Q) {
		for i := range d.Shared {
			out = append(out, &d.Shared[i])
		}
		ops := func(o []harness.Op) {
			for i := range o {
				if o[i].Q != nil {
					out = append(out, &o[i].Q)
				}
				if o[i].O != nil {
					out = append(out, &o[i].O.F)
				}
				combQs(o[i].C, &out)
			}
		}
		for i := range d.Clients {
			ops(d.Clients[i].Ops)
		}
		if d.Alt != nil && d.Alt.Other != nil {
			ops(d.Alt.Other.Ops)
		}
		for i := range d.Scope {
			if d.Scope[i].Q != nil {
				out = append(out, &d.Scope[i].Q)
			}
		}
		return
	}
	for i, p := range queries(c) {
		for _, y := range q.Simpler(*p) {
			i, y := i, y
			try(func(d *harness.Case) bool {
				*queries(d)[i] = q.Clone(y)
				return true
			})
		}
	}
	// Combinations.
	for i := range c.Clients {
		for j := range c.Clients[i].Ops {
			if c.Clients[i].Ops[j].C == nil {
				continue
			}
			for _, y := range simplerComb(c.Clients[i].Ops[j].C) {
				i, j, y := i, j, y
				try(func(d *harness.Case) bool { d.Clients[i].Ops[j].C = q.Clone(y); return true })
			}
		}
	}
	// Clauses.
	for i := range c.Cnf {
		for j := range c.Cnf[i].Cl {
			i, j := i, j
			try(func(d *harness.Case) bool {
				x := d.Cnf[i].Cl
				d.Cnf[i].Cl = append(x[:j:j], x[j+1:]...)
				return true
			})
		}
		i := i
		try(func(d *harness.Case) bool { p := d.Cnf[i].Cap; d.Cnf[i].Cap = 0; return p != 0 })
	}
	return cs
}

func combQs(c *harness.Comb, out *[]**q.Q) {
	if c == nil {
		return
	}
	if c.Q != nil {
		*out = append(*out, &c.Q)
	}
	for _, s := range c.Sub {
		combQs(s, out)
	}
}

func simplerComb(c *harness.Comb) []*harness.Comb {
	var out []*harness.Comb
	out = append(out, c.Sub...)
	for i := range c.Sub {
		d := *c
		d.Sub = append(append([]*harness.Comb{}, c.Sub[:i]...), c.Sub[i+1:]...)
		out = append(out, &d)
	}
	for i := range c.Sub {
		for _, y := range simplerComb(c.Sub[i]) {
			d := *c
			d.Sub = append([]*harness.Comb{}, c.Sub...)
			d.Sub[i] = y
			out = append(out, &d)
		}
	}
	return out
}
