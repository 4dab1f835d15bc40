package harness

import (
	"bytes"
	"fmt"
	"slices"
	"sort"

	"github.com/jtcaraball/goexpdt/cnf"

	"vsim/rt"
	"vsim/sat"
)

// CnfOp is one operation on a pool of formulas. Client 0 builds the pool all share,
// the others then work at the same time.
type CnfOp struct {
	Client int     `json:"client"`
	K      string  `json:"k"` // from prefix true false sem cons conj neg bytes file reuse
	A      int     `json:"a,omitempty"`
	B      int     `json:"b,omitempty"`
	Cl     [][]int `json:"cl,omitempty"`
	Cap    int     `json:"cap,omitempty"` // spare capacity of slices handed over
	Top    int     `json:"top,omitempty"`
}

func (o CnfOp) String() string {
	return fmt.Sprintf("c%d %s A=%d B=%d %v cap=%d top=%d", o.Client, o.K, o.A, o.B, o.Cl, o.Cap, o.Top)
}

type formula struct {
	f       cnf.CNF
	how     string
	s, c    [][]int // what it must consist of (nil s: unknown, a negation)
	known   bool
	snapS   [][]int // exactly what was seen when it was obtained
	snapC   [][]int
	top     int
	backing []cnf.Clause // the slice the caller handed over
	changed bool
}

func deep(cl []cnf.Clause) [][]int {
	r := make([][]int, len(cl))
	for i, c := range cl {
		r[i] = append([]int{}, c...)
	}
	return r
}

func multiset(cl [][]int) [][]int {
	r := make([][]int, len(cl))
	for i, c := range cl {
		r[i] = append([]int{}, c...)
		sort.Ints(r[i])
	}
	slices.SortFunc(r, slices.Compare[[]int])
	return r
}

func alike(a, b [][]int) bool { return slices.EqualFunc(a, b, slices.Equal[[]int]) }

func sameClauses(a, b [][]int) bool { return len(a) == len(b) && alike(multiset(a), multiset(b)) }

func topOf(sets ...[][]int) int {
	m := 0
	for _, s := range sets {
		for _, c := range s {
			for _, l := range c {
				if l < 0 {
					l = -l
				}
				if l > m {
					m = l
				}
			}
		}
	}
	return m
}

type cnfRun struct {
	w    *rt.World
	v    *Violation
	base []*formula
	own  [][]*formula
	neg  int
}

func (r *cnfRun) fail(sig, f string, a ...any) {
	if r.v == nil {
		r.v = &Violation{sig, fmt.Sprintf(f, a...)}
	}
}

// handover makes the slices a caller passes: clauses that are prefixes of the one
// before share its array, and there may be room behind the end.
func handover(cl [][]int, spare int) []cnf.Clause {
	out := make([]cnf.Clause, 0, len(cl)+spare)
	for i, c := range cl {
		if spare > 0 && i > 0 && len(out[i-1]) > len(c) && len(c) > 0 {
			pre := true
			for k := range c {
				pre = pre && out[i-1][k] == c[k]
			}
			if pre {
				out = append(out, out[i-1][:len(c)])
				continue
			}
		}
		x := make(cnf.Clause, 0, len(c)+spare)
		out = append(out, append(x, c...))
	}
	return out
}

func (r *cnfRun) take(f cnf.CNF, how string, s, c [][]int, known bool) *formula {
	n := &formula{f: f, how: how, s: s, c: c, known: known}
	var yes, no bool
	rt.Quiet(func() {
		a, b := f.Clauses()
		n.snapS, n.snapC, n.top = deep(a), deep(b), f.TopV()
		yes, no = f.TriviallyTrue(), f.TriviallyFalse()
	})
	r.trivial(n, yes, no)
	if known {
		if !sameClauses(n.snapS, s) {
			r.fail("wrong-clauses", "%s: semantic clauses %v, want %v", how, n.snapS, s)
		}
		if !sameClauses(n.snapC, c) {
			r.fail("wrong-clauses", "%s: consistency clauses %v, want %v", how, n.snapC, c)
		}
	}
	if t := topOf(n.snapS, n.snapC); n.top < t {
		r.fail("top-too-small", "%s: top variable %d but it uses %d", how, n.top, t)
	}
	return n
}

// trivial judges what a formula says about itself.
func (r *cnfRun) trivial(n *formula, yes, no bool) {
	all := append(append([][]int{}, n.snapS...), n.snapC...)
	empty, taut := false, true
	for _, c := range all {
		empty = empty || len(c) == 0
		both := false
		for i, l := range c {
			for _, m := range c[:i] {
				both = both || l == -m
			}
		}
		taut = taut && both
	}
	switch {
	case len(all) == 0 && !yes, yes && !taut:
		r.fail("trivially-true", "%s: trivially true is %v for %v", n.how, yes, all)
	case empty && !no:
		r.fail("trivially-false", "%s: trivially false is %v for %v", n.how, no, all)
	case no && !empty && solvable(all) == sat.Sat:
		r.fail("trivially-false", "%s: %v is said to be trivially false", n.how, all)
	}
}

func solvable(cl [][]int) sat.Status {
	d := dense{}
	x := d.clauses(cl)
	return sat.New(len(d), x, 1, 0).Solve(nil, 20000)
}

func (r *cnfRun) verify(n *formula, after string) {
	rt.Quiet(func() {
		a, b := n.f.Clauses()
		s, c := deep(a), deep(b)
		if !alike(s, n.snapS) || !alike(c, n.snapC) || n.f.TopV() != n.top {
			r.fail("changed", "formula obtained by %q was %v %v, after %q it is %v %v", n.how, n.snapS, n.snapC, after, s, c)
		}
		for i, x := range n.backing {
			if i < len(n.snapS) && !slices.Equal([]int(x), n.snapS[i]) {
				r.fail("changed-argument", "clause %d handed to %q was %v, after %q it is %v", i, n.how, n.snapS[i], after, x)
			}
		}
	})
}

func (r *cnfRun) do(e *rt.Env, o CnfOp) {
	view := r.base
	if o.Client > 0 {
		view = append(append([]*formula{}, r.base...), r.own[o.Client]...)
	}
	pick := func(i int) *formula {
		if len(view) == 0 {
			return nil
		}
		if i < 0 {
			i = -i
		}
		return view[i%len(view)]
	}
	put := func(n *formula) {
		if o.Client == 0 {
			r.base = append(r.base, n)
		} else {
			r.own[o.Client] = append(r.own[o.Client], n)
		}
	}
	a, b := pick(o.A), pick(o.B)
	if a == nil && o.K != "true" && o.K != "false" {
		o.K = "from"
	}
	if (o.K == "conj" || o.K == "neg") && len(a.snapS)+len(a.snapC)+len(b.snapS)+len(b.snapC) > 4000 {
		return
	}
	how := o.String()
	cat := func(x, y [][]int) [][]int { return append(append([][]int{}, x...), y...) }
	switch o.K {
	case "true":
		put(r.take(cnf.TrueCNF, how, nil, nil, true))
	case "false":
		put(r.take(cnf.FalseCNF, how, [][]int{{}}, nil, true))
	case "from":
		h := handover(o.Cl, o.Cap)
		n := r.take(cnf.FromClauses(h), how, o.Cl, nil, true)
		n.backing = h
		put(n)
	case "prefix":
		k := 0
		if len(a.backing) > 0 {
			k = o.B % (len(a.backing) + 1)
		}
		h := a.backing[:k]
		n := r.take(cnf.FromClauses(h), how, deep(h), nil, true)
		n.backing = h
		put(n)
	case "sem":
		h := handover(o.Cl, o.Cap)
		put(r.take(a.f.AppendSemantics(h...), how, cat(a.snapS, o.Cl), a.snapC, true))
	case "cons":
		h := handover(o.Cl, o.Cap)
		put(r.take(a.f.AppendConsistency(h...), how, a.snapS, cat(a.snapC, o.Cl), true))
	case "conj":
		put(r.take(a.f.Conjunction(b.f), how, cat(a.snapS, b.snapS), cat(a.snapC, b.snapC), true))
	case "neg":
		var f cnf.CNF
		if o.Top > 0 {
			f = a.f.Negate(o.Top)
		} else {
			f = a.f.Negate()
		}
		n := r.take(f, how, nil, nil, false)
		r.checkNeg(a, n, o)
		put(n)
	case "bytes":
		r.checkText(a, a.f.ToBytes(), how)
	case "file":
		p := fmt.Sprintf("/tmp/f%d", e.ID)
		if err := a.f.ToFile(p); err != nil {
			r.fail("file-error", "%s: %v", how, err)
		} else if ino := r.w.FS.Files[p]; ino == nil {
			r.fail("file-missing", "%s: no file", how)
		} else {
			r.checkText(a, append([]byte{}, ino.Data...), how)
			var want []byte
			rt.Quiet(func() { want = a.f.ToBytes() })
			if !sameText(want, ino.Data) {
				r.fail("file-differs", "%s: file and printed form differ", how)
			}
		}
	case "reuse":
		// A caller extends the clause list it was given and makes a formula of it.
		s, _ := a.f.Clauses()
		h := append(s, handover(o.Cl, o.Cap)...)
		put(r.take(cnf.FromClauses(h), how, cat(a.snapS, o.Cl), nil, true))
	}
	for _, n := range r.base {
		r.verify(n, how)
	}
	if o.Client > 0 {
		for _, n := range r.own[o.Client] {
			r.verify(n, how)
		}
	}
}

// sameText compares the formulas two texts state, whatever their layout.
func sameText(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	p, e1 := sat.Parse(a, true)
	q, e2 := sat.Parse(b, true)
	return e1 == nil && e2 == nil && p.HeaderV == q.HeaderV && sameClauses(p.Clauses, q.Clauses)
}

func (r *cnfRun) checkText(a *formula, b []byte, how string) {
	pr, err := sat.Parse(b, true)
	if err != nil {
		r.fail("bad-text", "%s: %v", how, err)
		return
	}
	if !sameClauses(pr.Clauses, append(append([][]int{}, a.snapS...), a.snapC...)) {
		r.fail("bad-text", "%s: the text has other clauses than the formula: %v", how, pr.Clauses)
	}
}

// dense renumbers variables, so that large numbers do not cost anything.
type dense map[int]int

func (d dense) lit(l int) int {
	v := max(l, -l)
	n, ok := d[v]
	if !ok {
		n = len(d) + 1
		d[v] = n
	}
	if l < 0 {
		return -n
	}
	return n
}

func (d dense) clauses(cl [][]int) [][]int {
	out := make([][]int, len(cl))
	for i, c := range cl {
		out[i] = make([]int, len(c))
		for j, l := range c {
			out[i][j] = d.lit(l)
		}
	}
	return out
}

func holds(cl [][]int, val map[int]bool) bool {
	for _, c := range cl {
		ok := false
		for _, l := range c {
			if l > 0 && val[l] || l < 0 && !val[-l] {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// checkNeg compares a negation with its definition on valuations of the original's
// variables: all of them when few, else a sample of those that satisfy and violate.
func (r *cnfRun) checkNeg(a, n *formula, o CnfOp) {
	r.neg++
	vset := map[int]bool{}
	for _, cl := range [][][]int{a.snapS, a.snapC} {
		for _, c := range cl {
			for _, l := range c {
				if l < 0 {
					l = -l
				}
				vset[l] = true
			}
		}
	}
	lim := a.top
	if o.Top > lim {
		lim = o.Top
	}
	for _, cl := range [][][]int{n.snapS, n.snapC} {
		for _, c := range cl {
			for _, l := range c {
				if l < 0 {
					l = -l
				}
				if !vset[l] && l <= lim {
					r.fail("reserved-variable", "%s: the negation uses variable %d, not above %d", o, l, lim)
					return
				}
			}
		}
	}
	var vars []int
	for v := range vset {
		vars = append(vars, v)
	}
	sort.Ints(vars)
	rng := rt.NewRand(rt.Mix(rt.HashStr(o.String()), uint64(len(vars))))
	var vals []map[int]bool
	if len(vars) <= 7 {
		for k := 0; k < 1<<len(vars); k++ {
			m := map[int]bool{}
			for i, v := range vars {
				m[v] = k>>i&1 == 1
			}
			vals = append(vals, m)
		}
	} else {
		for k := 0; k < 24; k++ {
			m := map[int]bool{}
			cl := a.snapC
			if k%3 == 0 {
				cl = append(append([][]int{}, a.snapC...), a.snapS...)
			}
			d := dense{}
			x := d.clauses(cl)
			for _, v := range vars {
				d.lit(v)
			}
			s := sat.New(len(d), x, rng.U64(), sat.ModeRandom)
			if k%4 != 3 && s.Solve(nil, 20000) == sat.Sat {
				x := s.Model()
				for _, v := range vars {
					m[v] = x[d[v]]
				}
			} else {
				for _, v := range vars {
					m[v] = rng.P(50)
				}
			}
			vals = append(vals, m)
		}
	}
	all := append(append([][]int{}, n.snapS...), n.snapC...)
	d := dense{}
	x := d.clauses(all)
	for _, v := range vars {
		d.lit(v)
	}
	s := sat.New(len(d), x, rng.U64(), sat.ModeRandom)
	for _, m := range vals {
		want := holds(a.snapC, m) && !holds(a.snapS, m)
		var as []int
		for _, v := range vars {
			if m[v] {
				as = append(as, d.lit(v))
			} else {
				as = append(as, d.lit(-v))
			}
		}
		got := s.Solve(as, 60000)
		if got == sat.Unknown {
			continue
		}
		if (got == sat.Sat) != want {
			r.fail("wrong-negation", "%s: negation of %v with consistency %v is %v for valuation %v, want %v (got %v %v)", o, a.snapS, a.snapC, got == sat.Sat, m, want, n.snapS, n.snapC)
			return
		}
	}
}

func execCnf(c *Case) (*cnfRun, []rt.Switch, []*rt.Env) {
	w := rt.NewWorld()
	w.LogOn = LogOn
	w.MapSeed, w.TempSeed = c.MapSeed, c.TempSeed
	w.Budget = yieldBudget
	rt.W = w
	r := &cnfRun{w: w}
	r.own = make([][]*formula, c.CnfN+1)
	body := func(id int) func() {
		return func() {
			e := rt.Cur()
			defer func() {
				if e.Dead {
					return
				}
				if x := recover(); x != nil {
					r.fail("panic", "caller %d: %v", id, x)
				}
			}()
			for _, o := range c.Cnf {
				if o.Client == id && r.v == nil {
					w.Event("%s", o)
					r.do(e, o)
				}
			}
		}
	}
	w.RunThreads(rt.Plan{}, []*rt.Env{rt.NewEnv(0)}, []func(){body(0)})
	var envs []*rt.Env
	var bodies []func()
	for i := 1; i <= c.CnfN; i++ {
		envs = append(envs, rt.NewEnv(i))
		bodies = append(bodies, body(i))
	}
	var rec []rt.Switch
	if len(bodies) > 0 && r.v == nil {
		rec = w.RunThreads(c.Plan, envs, bodies)
	}
	for _, p := range append([][]*formula{r.base}, r.own...) {
		for _, n := range p {
			r.verify(n, "the end")
		}
	}
	rt.Quiet(func() {
		a, b := cnf.TrueCNF.Clauses()
		x, y := cnf.FalseCNF.Clauses()
		if len(a)+len(b) != 0 || len(x) != 1 || len(x[0]) != 0 || len(y) != 0 || len(cnf.NegClauses) != 1 || len(cnf.NegClauses[0]) != 0 {
			r.fail("changed-global", "the predefined formulas were modified: %v %v %v %v", a, b, x, y)
		}
	})
	if r.v != nil {
		w.Event("violation %s: %s", r.v.Sig, r.v.Msg)
	}
	return r, rec, envs
}
