package harness

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"vsim/q"
	"vsim/rt"
)

type checker struct {
	c  *Case
	o  *Out
	rp *Report
}

// formOf is the formula the solver was given by an operation of the first caller.
func formOf(o *Out, op int) Form {
	for _, f := range o.Forms {
		if f.Client == 0 && f.Op == op {
			return f
		}
	}
	return Form{}
}

// sameAsked tells whether the solver comes to the same valuation for two formulas.
func sameAsked(c *Case, a, b Form) bool {
	return bytes.Equal(a.Data, b.Data) && (a.Nth == b.Nth || !c.Solver.PerCall)
}

func (k *checker) fail(sig, f string, a ...any) {
	if k.rp.V == nil {
		k.rp.V = &Violation{sig, fmt.Sprintf(f, a...)}
	}
}

func (k *checker) skip(why string) {
	if k.rp.Skip == "" {
		k.rp.Skip = why
	}
}

// Check executes a case and judges it.
func Check(c *Case) *Report {
	rt.Overran = false
	rp := check(c)
	if rt.Overran && rp.V != nil {
		// Slow or endless? Only what does not end with several times the effort
		// is held to be endless.
		defer func(n uint64) { yieldBudget = n }(yieldBudget)
		yieldBudget *= 5
		rp = check(c)
		rp.Stats["slow-runs-repeated"]++
	}
	return rp
}

func check(c *Case) *Report {
	k := &checker{c: c, rp: &Report{Stats: map[string]int{}, Faults: map[string]int{}}}
	switch c.Prop {
	case "B07":
		k.checkB07()
	case "B08":
		k.checkB08()
	default:
		k.run()
	}
	return k.rp
}

func (k *checker) world(w *rt.World, rec []rt.Switch) {
	if w.Fatal != "" {
		k.fail("goroutine-panic", "a goroutine of the code panics, which ends the process: %s", w.Fatal)
	}
	k.rp.Hash = w.Hash()
	k.rp.SimNs = w.Now
	k.rp.Steps = w.Yields
	if LogOn {
		k.rp.Log = w.Log
	}
	for s, n := range w.Stats {
		if strings.HasPrefix(s, "fault:") {
			k.rp.Faults[strings.TrimPrefix(s, "fault:")] += n
		} else {
			k.rp.Stats[s] += n
		}
	}
	pre := 0
	for _, s := range rec {
		if !s.End && s.At > 0 {
			pre++
		}
	}
	k.rp.Stats["preemptions"] = pre
	h := fnv.New64a()
	fmt.Fprint(h, js(rec))
	if pre > 0 {
		k.rp.Sched = h.Sum64()
	}
	if len(rec) > 0 {
		f := k.c.Clone()
		f.Plan = rt.Plan{Explicit: true, Switches: rec}
		k.rp.Final = f
	}
	fmt.Fprint(h, js(k.c.Tree), js(k.c.Shared), js(k.c.Clients), js(k.c.Faults), js(k.c.Crashes), js(k.c.Cnf), js(k.c.Scope), js(k.c.Solver), js(k.c.Alt))
	k.rp.Distinct = h.Sum64()
}

func (k *checker) run() {
	k.o = Exec(k.c)
	k.world(k.o.W, k.o.Rec)
	forms := 0
	for _, f := range k.o.Forms {
		if f.Status == "sat" || f.Status == "unsat" {
			forms++
		}
	}
	k.rp.Stats["formulas-solved"] += forms
	fired := 0
	for _, e := range k.o.Envs {
		fired += len(e.Fired)
		if e.Dead {
			k.rp.Stats["crashes-fired"]++
		}
	}
	k.rp.Stats["faults-fired"] += fired
	if k.o.Incon {
		k.skip("solver budget")
		return
	}
	if k.o.Overrun {
		k.overrun()
	}
	if k.c.Prop != "B04" {
		for ci := range k.o.Res {
			for i := range k.o.Res[ci] {
				if r := &k.o.Res[ci][i]; r.Panic == "deadlock" {
					k.fail("deadlock", "%s waits for something that never happens", &k.c.Clients[ci].Ops[i])
				}
			}
		}
	}
	switch k.c.Prop {
	case "A01", "A03":
		k.rp.Trivial = forms == 0
		k.truth()
	case "A02":
		k.rp.Trivial = forms == 0
		k.witness()
	case "A04", "A05":
		k.rp.Trivial = forms < 2
		k.optimum()
	case "A06":
		k.rp.Trivial = forms == 0
		k.combs()
	case "B01", "B02":
		k.rp.Trivial = fired == 0
		k.faults()
	case "B03":
		k.rp.Trivial = fired == 0 && !k.anyBad()
		k.recovery()
	case "B04":
		k.rp.Trivial = forms == 0 && fired == 0
		k.cleanup()
	case "B05":
		k.rp.Trivial = k.rp.Stats["preemptions"] == 0
		k.isolation()
	case "B06":
		k.rp.Trivial = forms < 2
		k.history()
	case "B09":
		k.rp.Trivial = forms == 0
		k.twice()
	case "B10":
		k.rp.Trivial = true
		k.refusals()
	}
}

// overrun: a run that never ends. The operations that do not terminate carry the
// panic "does not end"; each property's own oracle says what that means for it.
func (k *checker) overrun() { k.rp.Stats["overruns"]++ }

func (k *checker) anyBad() bool {
	for _, cl := range k.c.Clients {
		for i := range cl.Ops {
			if cl.Ops[i].Bad != "" {
				return true
			}
		}
	}
	return false
}

// want evaluates a query by the reference.
func (k *checker) want(x *q.Q) (v, ok bool) {
	ok = q.Try(func() {
		ref := q.NewRef(k.c.Tree, 4*refBudget)
		e := q.NewEnv()
		e.Fixed = q.Pins(x)
		v = ref.Eval(x, e)
	})
	return
}

// okWitness evaluates a query with its outer variables at the given values.
func (k *checker) okWitness(x *q.Q, vars []string, vals [][]int) (v, ok bool) {
	ok = q.Try(func() {
		ref := q.NewRef(k.c.Tree, 4*refBudget)
		e := q.NewEnv()
		e.Fixed = map[string][]int{}
		for i, n := range vars {
			e.Fixed[n] = vals[i]
		}
		v = ref.Eval(x, e)
	})
	return
}

func legal(vals []int, dim int) bool {
	if len(vals) != dim {
		return false
	}
	for _, f := range vals {
		if f < q.BOT || f > q.ONE {
			return false
		}
	}
	return true
}

// ----------------------------------------------------------------- A01 and A03

func (k *checker) truth() {
	for i := range k.c.Clients[0].Ops {
		op, r := &k.c.Clients[0].Ops[i], &k.o.Res[0][i]
		if op.K == "values" {
			if i == 0 || k.o.Res[0][i-1].Class() != "sat" || k.c.Prop != "A03" {
				continue
			}
			st := &k.c.Clients[0].Ops[i-1]
			if r.Class() != "ok" {
				continue // A02's business
			}
			bad := false
			for _, v := range r.Vals {
				bad = bad || !legal(v, k.c.Tree.Dim)
			}
			if bad {
				continue
			}
			if v, ok := k.okWitness(st.Q, op.Vars, r.Vals); ok && !v {
				k.fail("wrong-witness", "%s in %s is answered with %v = %v, for which it is false", st.Q, k.c.Tree, op.Vars, r.Vals)
			}
			continue
		}
		want, ok := k.want(op.Q)
		if !ok {
			k.skip("reference budget")
			continue
		}
		k.rp.Stats[fmt.Sprintf("query-%v", want)]++
		switch cl := r.Class(); cl {
		case "sat", "unsat":
			if (cl == "sat") != want {
				k.fail("wrong-"+cl, "%s in %s is %v by definition, the answer is %s", op.Q, k.c.Tree, want, cl)
			}
		case "panic":
			k.fail("panic", "evaluating %s in %s panics: %s", op.Q, k.c.Tree, r.Panic)
		default:
			k.fail("error", "evaluating %s in %s fails: %s", op.Q, k.c.Tree, r.Err)
		}
	}
}

// usable judges a query about constants that were handed out: what is true of the
// instances must be answered so.
func (k *checker) usable(op *Op, r *Res) {
	if r.Skip || r.Fired > 0 || r.Panic == "does not end" {
		return
	}
	for _, v := range r.Vals {
		if !legal(v, k.c.Tree.Dim) {
			return // judged elsewhere
		}
	}
	x := q.Clone(op.Q)
	fill(x, op.Vars, r.Vals)
	want, ok := k.want(x)
	if !ok {
		return
	}
	k.rp.Stats["handed-out-values-used"]++
	got := "unsat"
	if want {
		got = "sat"
	}
	if r.Class() != got {
		k.fail("value-not-usable", "the value %v handed out for %v used as a constant: %s in %s gives %s %s, by definition %s", r.Vals, op.Vars, x, k.c.Tree, r.Class(), r.Err+r.Panic, got)
	}
}

func fill(x *q.Q, vars []string, vals [][]int) {
	for i, a := range x.Args {
		for j, v := range vars {
			if a.G == v && j < len(vals) {
				x.Args[i] = q.C(vals[j])
			}
		}
	}
	for _, s := range x.Sub {
		fill(s, vars, vals)
	}
}

// ------------------------------------------------------------------------ A02

func (k *checker) witness() {
	seen := map[string]string{} // per solver and step, value of a variable
	var last, lastTwin = map[int]int{}, map[int]bool{}
	var twin *Out
	for i := range k.c.Clients[0].Ops {
		op, r := &k.c.Clients[0].Ops[i], &k.o.Res[0][i]
		if op.K == "check" {
			k.usable(op, r)
			continue
		}
		if r.Panic != "" {
			if strings.HasPrefix(op.K, "values") {
				k.fail("panic", "reading back %v panics: %s", op.Vars, r.Panic)
			}
			continue
		}
		if op.K == "step" {
			if r.Class() == "sat" {
				last[op.Sol] = i
				lastTwin[op.Sol] = r.Fired > 0
			} else if r.Class() == "unsat" || r.Class() == "error" {
				delete(last, op.Sol)
			}
			continue
		}
		li, have := last[op.Sol]
		if len(op.Vars) == 1 && op.Vars[0] == "undeclared" {
			if r.Class() == "ok" && k.c.Tree.Dim > 0 {
				k.fail("invented-value", "the value of a variable the solver's output says nothing about is reported as %v", r.Vals)
			}
			continue
		}
		if !have {
			continue
		}
		st := &k.c.Clients[0].Ops[li]
		if want, ok := k.want(st.Q); !ok || !want {
			continue // a wrong answer is A01's business
		}
		torn := lastTwin[op.Sol]
		if r.Class() != "ok" {
			if torn {
				k.rp.Stats["torn-refused"]++
				continue
			}
			k.fail("no-value", "after %s was answered satisfiable, reading %v fails: %s", st.Q, op.Vars, r.Err)
			continue
		}
		if len(r.Vals) != len(op.Vars) {
			k.fail("wrong-count", "%d values for %v", len(r.Vals), op.Vars)
			continue
		}
		for j, v := range r.Vals {
			if !legal(v, k.c.Tree.Dim) {
				k.fail("incomplete-value", "the value of %s in dimension %d is read back as %v (torn output: %v)", op.Vars[j], k.c.Tree.Dim, v, torn)
			}
			key := fmt.Sprint(op.Sol, "/", li, "/", op.Vars[j])
			if o, ok := seen[key]; ok && o != fmt.Sprint(v) {
				k.fail("unstable-value", "%s is %v and was %s in the same valuation", op.Vars[j], v, o)
			}
			seen[key] = fmt.Sprint(v)
		}
		if k.rp.V != nil {
			return
		}
		k.rp.Stats["values-read"]++
		if r.Self != "" {
			k.fail("self-description", "of the values %v read for %v, one misdescribes itself: %s", r.Vals, op.Vars, r.Self)
		}
		if torn {
			// Only what the whole output says may be reported.
			if twin == nil {
				cc := k.c.Clone()
				cc.Faults = nil
				twin = Exec(cc)
			}
			// (Unless the failures on the way led to another formula, or to another
			// number of starts of a solver whose answer depends on it.)
			if t := &twin.Res[0][i]; t.Class() == "ok" && sameAsked(k.c, formOf(k.o, li), formOf(twin, li)) && fmt.Sprint(t.Vals) != fmt.Sprint(r.Vals) {
				k.fail("torn-value", "from an output that breaks off, %v are read as %v; the whole output says %v", op.Vars, r.Vals, t.Vals)
			}
			continue
		}
		if v, ok := k.okWitness(st.Q, op.Vars, r.Vals); ok && !v {
			k.fail("wrong-witness", "%s in %s is answered with %v = %v, for which it is false", st.Q, k.c.Tree, op.Vars, r.Vals)
		}
	}
}

// ------------------------------------------------------------------- A04, A05

// task is what the reference knows about an optimisation.
type task struct {
	set    [][]int
	in     map[string]bool
	better func(a, b []int) bool
	chain  int
	ok     bool
}

func (k *checker) task(t *Optim) *task {
	x := &task{in: map[string]bool{}}
	x.set, x.ok = satSet(k.c.Tree, t.F, t.Var, 4*refBudget)
	if !x.ok {
		return x
	}
	for _, s := range x.set {
		x.in[fmt.Sprint(s)] = true
	}
	ref := q.NewRef(k.c.Tree, 0)
	x.better = func(a, b []int) bool { return t.Order.Better(ref, a, b) }
	return x
}

// longest computes the longest strictly improving chain.
func (x *task) longest() int {
	n := len(x.set)
	memo := make([]int, n)
	var rec func(i int) int
	rec = func(i int) int {
		if memo[i] > 0 {
			return memo[i]
		}
		m := 0
		for j := 0; j < n; j++ {
			if x.better(x.set[j], x.set[i]) {
				if l := rec(j); l > m {
					m = l
				}
			}
		}
		memo[i] = m + 1
		return m + 1
	}
	best := 0
	for i := 0; i < n; i++ {
		if l := rec(i); l > best {
			best = l
		}
	}
	return best
}

// judgeOptim says what is wrong with a result that claims to be an answer.
func (k *checker) judgeOptim(x *task, t *Optim, r *Res) (sig, msg string) {
	switch r.Class() {
	case "found":
		if len(x.set) == 0 {
			return "found-unsat", fmt.Sprintf("%v is reported though nothing satisfies it", r.Val)
		}
		if !legal(r.Val, k.c.Tree.Dim) {
			return "incomplete-value", fmt.Sprintf("the optimum is %v in dimension %d", r.Val, k.c.Tree.Dim)
		}
		if !x.in[fmt.Sprint(r.Val)] {
			return "not-satisfying", fmt.Sprintf("the optimum %v does not satisfy the property", r.Val)
		}
		for _, s := range x.set {
			if x.better(s, r.Val) {
				return "not-optimal", fmt.Sprintf("%v is reported but %v is better", r.Val, s)
			}
		}
	case "notfound":
		if len(x.set) > 0 {
			return "missed", fmt.Sprintf("nothing is reported though %v satisfies it", x.set[0])
		}
	case "panic":
		return "panic", r.Panic
	default:
		return "error", r.Err
	}
	return "", ""
}

func (k *checker) optimum() {
	for i := range k.c.Clients[0].Ops {
		op, r := &k.c.Clients[0].Ops[i], &k.o.Res[0][i]
		if k.c.Prop == "A05" && (op.K == "step" || op.K == "comb") && r.Panic == "" {
			if r.Starts > 1 || r.Starts != 1 && r.Err == "" {
				k.fail("runs-per-evaluation", "%s made %d solver runs", op, r.Starts)
			}
			continue
		}
		if op.K == "check" && k.c.Prop == "A04" {
			k.usable(op, r)
		}
		if op.K != "optim" {
			continue
		}
		x := k.task(op.O)
		if !x.ok {
			k.skip("reference budget")
			continue
		}
		where := fmt.Sprintf("optimum of %s for %s by %s%v%v in %s: ", op.O.Var, op.O.F, op.O.Order.Kind, op.O.Order.Pref, op.O.Order.Base, k.c.Tree)
		if len(x.set) > 0 {
			k.rp.Stats["optim-satisfiable"]++
		} else {
			k.rp.Stats["optim-unsatisfiable"]++
		}
		if k.c.Prop == "A04" {
			if sig, msg := k.judgeOptim(x, op.O, r); sig != "" && r.Panic != "does not end" {
				k.fail(sig, "%s%s", where, msg)
			}
			continue
		}
		if r.Panic == "does not end" || r.Panic == "deadlock" {
			k.fail("no-end", "%s%s after %d solver runs", where, r.Panic, r.Starts)
			continue
		}
		if r.Panic != "" || r.Err != "" {
			continue // A04's business
		}
		k.rp.Stats["optim-solver-runs"] += r.Starts
		if r.Calls != r.Starts {
			k.fail("calls-untrue", "%s%d calls are reported, %d were made", where, r.Calls, r.Starts)
		}
		bound := x.longest() + 1
		if len(x.set) == 0 {
			bound = 1
		}
		if r.Starts > bound {
			k.fail("too-many-calls", "%s%d solver runs, the longest improving chain has %d instances", where, r.Starts, bound-1)
		}
		for _, n := range []int{10, 30, 60} {
			if r.Starts > n {
				k.rp.Stats[fmt.Sprintf("optim-more-than-%d-runs", n)]++
			}
		}
		if r.Starts == bound {
			k.rp.Stats["optim-at-bound"]++
		}
		var prev []int
		for _, v := range r.Improve {
			if prev != nil && fmt.Sprint(prev) == fmt.Sprint(v) {
				continue
			}
			if prev != nil && (!legal(v, k.c.Tree.Dim) || !x.better(v, prev)) {
				k.fail("not-improving", "%sit moved from %v to %v, which is not better", where, prev, v)
			}
			prev = v
		}
		if r.Found && prev != nil && fmt.Sprint(prev) != fmt.Sprint(r.Val) {
			k.fail("not-last", "%sthe last instance it improved on is %v, it reports %v", where, prev, r.Val)
		}
	}
}

// ------------------------------------------------------------------------ A06

func (k *checker) combs() {
	for i := range k.c.Clients[0].Ops {
		op, r := &k.c.Clients[0].Ops[i], &k.o.Res[0][i]
		if op.K != "comb" {
			continue
		}
		if r.Panic != "" {
			k.fail("panic", "%s: %s", op.C, r.Panic)
			continue
		}
		for _, t := range r.Trace {
			if t.Msg != "" {
				k.fail(t.Sig, "%s: %s", op.C, t.Msg)
			}
		}
		// Parts answer as they do alone.
		for _, t := range r.Atoms {
			want, ok := k.want(t.Q)
			if !ok {
				continue
			}
			if t.Fired > 0 {
				if t.Class != "error" && (t.Class == "sat") != want {
					k.fail("failed-part-counted", "in %s the run for %s was hit by %v and counts as %s, though the query is %v", op.C, t.Q, r.FiredKinds, t.Class, want)
				}
				continue
			}
			if t.Class == "error" {
				k.skip("part fails without a fault")
				continue
			}
			if (t.Class == "sat") != want {
				k.skip("part answers wrongly") // A01's business
				continue
			}
		}
		k.rp.Stats["combination-"+r.Class()]++
	}
}

// -------------------------------------------------------------------- B01, B02

// clean executes the case without faults.
func (k *checker) cleanTwin() *Out {
	c := k.c.Clone()
	c.Faults, c.Crashes = nil, nil
	c.Plan = rt.Plan{}
	return k.twin(c)
}

func (k *checker) faults() {
	clean := k.cleanTwin()
	if clean.Incon {
		k.skip("solver budget")
		return
	}
	for ci := range k.c.Clients {
		faulted := map[string]bool{}
		last := map[int]int{} // per solver, the last step answered satisfiable
		for i := range k.c.Clients[ci].Ops {
			op, r, t := &k.c.Clients[ci].Ops[i], &k.o.Res[ci][i], &clean.Res[ci][i]
			ckey := fmt.Sprint("ctx", op.Ctx)
			skey := fmt.Sprint("sol", op.Sol)
			cls := r.Class()
			if cls == "panic" {
				if t.Class() != "panic" {
					k.fail("panic", "%s with %v panics: %s", op, r.FiredKinds, r.Panic)
				}
				continue
			}
			if t.Class() == "panic" || t.Class() == "error" && op.K != "values" {
				k.skip("fails without faults " + t.Err)
				continue
			}
			if r.Fired > 0 {
				k.rp.Stats["faulted-op-"+op.K+"-"+cls]++
			}
			if op.K == "tofile" && r.Err == "" && r.Data != nil {
				k.fail("silent-loss", "%s reports success with %v, but %s", op, r.FiredKinds, r.Data)
			}
			if k.c.Prop == "B02" && cls != "error" {
				for _, f := range k.o.Forms[r.FormFrom:r.FormTo] {
					if f.Client == ci && f.Torn && (f.Status == "sat" || f.Status == "unsat") && op.K == "step" {
						k.fail("answer-from-part", "%s is answered %s from a formula that was stored only partly (%v)", op, cls, r.FiredKinds)
					}
				}
			}
			if op.K == "values" && (i == 0 || k.o.Res[ci][i-1].Class() != "sat" || clean.Res[ci][i-1].Class() != "sat") {
				// No step just succeeded: reading need not work. What is read is checked below.
			} else if r.Fired > 0 || !faulted[ckey] && !faulted[skey] {
				switch {
				case cls == "error":
					if r.Fired == 0 && t.Class() != "error" {
						k.fail("error-without-fault", "%s fails: %s", op, r.Err)
					}
				case cls != t.Class():
					k.fail("wrong-answer", "%s with %v: %s, a working system says %s", op, r.FiredKinds, cls, t.Class())
				case r.Full() != t.Full() && r.Fired > 0 && !faulted[ckey] && !faulted[skey]:
					if op.K == "optim" && r.Found {
						if x := k.task(op.O); x.ok {
							if sig, msg := k.judgeOptim(x, op.O, r); sig != "" {
								if s2, _ := k.judgeOptim(x, op.O, t); s2 == "" {
									k.fail("wrong-value", "%s with %v: %s", op, r.FiredKinds, msg)
								}
							}
						}
					}
				}
			}
			if op.K == "values" && r.Err == "" {
				// A value is complete, and comes from the whole of an output.
				if li, ok := last[op.Sol]; ok && k.c.Clients[ci].Ops[li].Ctx == op.Ctx && !faulted[ckey] && !faulted[skey] && fmt.Sprint(r.Vals) != fmt.Sprint(t.Vals) {
					// Another valuation is fine if it is one of the query.
					st := &k.c.Clients[ci].Ops[li]
					good := func(v [][]int) bool {
						if len(v) != len(op.Vars) {
							return false
						}
						for _, x := range v {
							if !legal(x, k.c.Tree.Dim) {
								return false
							}
						}
						w, ok := k.okWitness(k.c.query(st), op.Vars, v)
						return w || !ok
					}
					if !good(r.Vals) && good(t.Vals) {
						k.fail("wrong-value", "after %s, %s: %v, which is no witness", st, op, r.Vals)
					}
				}
				li, have := last[op.Sol]
				for _, v := range r.Vals {
					// (The valuation of another context's formula means nothing.)
					if have && k.c.Clients[ci].Ops[li].Ctx == op.Ctx && !legal(v, k.c.Tree.Dim) && t.Class() == "ok" {
						k.fail("wrong-value", "%s: %v after %v", op, v, k.c.Faults)
					}
				}
			}
			if op.K == "step" && cls == "sat" {
				last[op.Sol] = i
			}
			if r.Fired > 0 {
				faulted[ckey], faulted[skey] = true, true
			}
		}
	}
}

// ------------------------------------------------------------------------ B03

// Apart executes a case in a process of its own; nil if there is none to be had.
var Apart func(c *Case, budget uint64) *TwinOut

// twin executes what a case is compared with: where the case says so, in a process
// that has not seen anything of it, so that it also differs from what the process
// itself (variables of packages) has been through.
func (k *checker) twin(c *Case) *Out {
	if k.c.Apart && Apart != nil {
		c.Apart = false
		if o := Apart(c, yieldBudget); o != nil {
			k.rp.Stats["twins-in-other-processes"]++
			rt.Overran = rt.Overran || o.Overran
			return o.out()
		}
	}
	return Exec(c)
}

// TwinOut is the part of an Out that twins are compared by.
type TwinOut struct {
	Res     [][]Res
	Flaw    [][]string
	Mutated []string
	Incon   bool
	Overran bool
}

// Twin executes a case for another process.
func Twin(c *Case, budget uint64) *TwinOut {
	yieldBudget = budget
	o := Exec(c)
	t := &TwinOut{Res: o.Res, Mutated: o.Mutated, Incon: o.Incon, Overran: rt.Overran}
	for _, rs := range o.Res {
		var f []string
		for _, r := range rs {
			f = append(f, r.Flaw)
		}
		t.Flaw = append(t.Flaw, f)
	}
	return t
}

func (t *TwinOut) out() *Out {
	for i := range t.Res {
		for j := range t.Res[i] {
			t.Res[i][j].Flaw = t.Flaw[i][j]
		}
	}
	return &Out{Res: t.Res, Mutated: t.Mutated, Incon: t.Incon}
}

// fresh runs one operation alone, on a new context and solver, without faults.
func (k *checker) fresh(op *Op) *Out {
	c := k.c.Clone()
	o := q.Clone(*op)
	if o.Ref > 0 {
		o.Q = k.c.Shared[o.Ref-1]
		o.Ref = 0
	}
	o.Ctx, o.Sol = min(o.Ctx, 0), 0
	c.Shared = nil
	c.Clients = []Client{{Ops: []Op{o}}}
	c.Faults, c.Crashes = nil, nil
	c.Plan = rt.Plan{}
	c.Pre = 0
	return k.twin(c)
}

// likeFresh compares an operation in a history with the same one alone.
func (k *checker) likeFresh(op *Op, r *Res, sig string) {
	f := k.fresh(op)
	if f.Incon {
		k.skip("solver budget")
		return
	}
	t := &f.Res[0][0]
	if t.Class() == "panic" || t.Flaw != "" {
		return // fails by itself: not the history's doing
	}
	if r.Class() == "panic" {
		k.fail(sig+"-panic", "%s panics: %s; alone it gives %s", op, r.Panic, t.Class())
		return
	}
	if r.Class() != t.Class() {
		k.fail(sig, "%s gives %s (%s), alone it gives %s (%s)", op, r.Class(), r.Err, t.Class(), t.Err)
		return
	}
	if op.K == "optim" && r.Class() == "found" {
		if x := k.task(op.O); x.ok {
			s1, m := k.judgeOptim(x, op.O, r)
			s2, _ := k.judgeOptim(x, op.O, t)
			if s1 != "" && s2 == "" {
				k.fail(sig+"-value", "%s: %s; alone the result is right", op, m)
			}
		}
	}
}

// valuesOf checks values read after a satisfiable step on a used context.
func (k *checker) valuesOf(st, op *Op, r *Res, sig string) {
	if r.Class() != "ok" {
		// Would they be readable on a fresh context?
		c := k.c.Clone()
		a, b := q.Clone(*st), q.Clone(*op)
		if a.Ref > 0 {
			a.Q, a.Ref = k.c.Shared[a.Ref-1], 0
		}
		a.Ctx, a.Sol, b.Ctx, b.Sol = 0, 0, 0, 0
		c.Shared, c.Faults, c.Crashes, c.Plan, c.Pre = nil, nil, nil, rt.Plan{}, 0
		c.Clients = []Client{{Ops: []Op{a, b}}}
		f := k.twin(c)
		if !f.Incon && f.Res[0][1].Class() == "ok" {
			k.fail(sig+"-unreadable", "after %s, %s gives %s (%s); on a fresh context it works", st, op, r.Class(), r.Err+r.Panic)
		}
		return
	}
	qq := k.c.query(st)
	if want, ok := k.want(qq); !ok || !want {
		return
	}
	for _, v := range r.Vals {
		if !legal(v, k.c.Tree.Dim) {
			k.fail(sig+"-incomplete", "after %s, %s gives %v", st, op, r.Vals)
			return
		}
	}
	if v, ok := k.okWitness(qq, op.Vars, r.Vals); ok && !v {
		// Not if the same evaluation is as wrong on a fresh context.
		c := k.c.Clone()
		a, b := q.Clone(*st), q.Clone(*op)
		a.Q, a.Ref = qq, 0
		a.Ctx, a.Sol, b.Ctx, b.Sol = 0, 0, 0, 0
		c.Shared, c.Faults, c.Crashes, c.Plan, c.Pre = nil, nil, nil, rt.Plan{}, 0
		c.Clients = []Client{{Ops: []Op{a, b}}}
		if f := k.twin(c); f.Incon || f.Res[0][1].Class() != "ok" {
			return
		} else if v2, ok2 := k.okWitness(qq, op.Vars, f.Res[0][1].Vals); ok2 && !v2 {
			return
		}
		k.fail(sig+"-witness", "after %s, %v = %v is read, for which it is false", st, op.Vars, r.Vals)
	}
}

func (k *checker) recovery() {
	ops := k.c.Clients[0].Ops
	healed := false
	kept := -1     // last satisfiable step whose values must still be readable
	keptVal := ""  // what was read
	keptVars := "" // of which variables
	for i := range ops {
		op, r := &ops[i], &k.o.Res[0][i]
		switch op.K {
		case "heal":
			healed = true
			continue
		case "reset":
			kept = -1
			continue
		case "step":
			if r.Class() == "sat" {
				kept, keptVal = i, ""
				if r.Fired > 0 {
					kept = -1
				}
			}
		case "optim", "comb":
			kept = -1
		case "values":
			if kept >= 0 && r.Flaw == "" && ops[kept].Ctx == op.Ctx && ops[kept].Sol == op.Sol && fmt.Sprint(ops[kept].Q.Vars()) == fmt.Sprint(op.Vars) {
				k.valuesOf(&ops[kept], op, r, "lost-values")
				if keptVal != "" && keptVars == fmt.Sprint(op.Vars) && r.Class() == "ok" && fmt.Sprint(r.Vals) != keptVal {
					k.fail("changed-values", "the values of %v were %s and are %v, no satisfiable step in between", op.Vars, keptVal, r.Vals)
				}
				if r.Class() == "ok" {
					keptVal, keptVars = fmt.Sprint(r.Vals), fmt.Sprint(op.Vars)
				}
				k.rp.Stats["values-after-failure"]++
			}
			continue
		}
		if (healed || r.Fired == 0) && op.Bad == "" && r.Flaw == "" {
			k.likeFresh(op, r, "not-recovered")
			k.rp.Stats["ops-after-failure"]++
		}
	}
}

// ------------------------------------------------------------------------ B04

func (k *checker) cleanup() {
	for ci := range k.c.Clients {
		for i := range k.c.Clients[ci].Ops {
			op, r := &k.c.Clients[ci].Ops[i], &k.o.Res[ci][i]
			if !r.Done || r.Panic != "" && r.Panic != customPanic {
				continue
			}
			if len(r.Leak) > r.RemFail {
				k.fail("file-left", "%s (%s) with %v leaves %v", op, r.Class(), r.FiredKinds, canonNames(r.Leak))
			}
			if r.Handles > 0 {
				k.fail("handle-left", "%s (%s) with %v leaves %d open file handles", op, r.Class(), r.FiredKinds, r.Handles)
			}
			k.rp.Stats["ops-checked"]++
		}
	}
	if len(k.o.Touched) > 0 {
		k.fail("foreign-file", "files of others were touched: %v", canonNames(k.o.Touched))
	}
}

func canonNames(p []string) []string { return p }

// ------------------------------------------------------------------------ B05

func (k *checker) isolation() {
	if len(k.o.Mutated) > 0 {
		k.fail("input-modified", "%v changed during the run", k.o.Mutated)
	}
	for ci := range k.c.Clients {
		c := k.c.Clone()
		for j := range c.Clients {
			if j != ci {
				c.Clients[j].Ops = nil
			}
		}
		c.Plan = rt.Plan{}
		c.Crashes = nil
		crashed := k.o.Envs[ci].Dead
		solo := k.twin(c)
		if solo.Incon {
			k.skip("solver budget")
			continue
		}
		for i := range c.Clients[ci].Ops {
			r, t := &k.o.Res[ci][i], &solo.Res[ci][i]
			if crashed && !r.Done {
				break
			}
			op := &k.c.Clients[ci].Ops[i]
			if t.Class() == "panic" && t.Panic == "does not end" {
				break
			}
			if r.Full() != t.Full() {
				k.fail("interference", "caller %d, %s: %s %s, running alone %s %s", ci, op, r.Full(), r.Err+r.Panic, t.Full(), t.Err+t.Panic)
			}
			k.rp.Stats["results-compared"]++
		}
		if len(solo.Mutated) > 0 {
			k.fail("input-modified", "%v changed during a run of caller %d alone", solo.Mutated, ci)
		}
	}
}

// ------------------------------------------------------------------------ B06

func (k *checker) history() {
	ops := k.c.Clients[0].Ops
	last := -1
	for i := range ops {
		op, r := &ops[i], &k.o.Res[0][i]
		switch op.K {
		case "reset":
			if r.Panic != "" {
				k.fail("reset-panic", "%s", r.Panic)
			}
			last = -1
			continue
		case "values":
			if last >= 0 && ops[last].Ctx == op.Ctx && ops[last].Sol == op.Sol {
				k.valuesOf(&ops[last], op, r, "history")
				k.rp.Stats["witnesses-checked"]++
			}
			continue
		case "step":
			last = -1
			if r.Class() == "sat" {
				last = i
			}
		default:
			last = -1
		}
		if i > 0 {
			k.likeFresh(op, r, "history")
			k.rp.Stats["ops-compared"]++
		}
	}
}

// ------------------------------------------------------------------------ B09

// ObsFull keeps the text of what is compared between processes.
var ObsFull bool

// observe records what the formulas and results of the first environment are.
func (k *checker) observe() {
	add := func(what, data string) {
		if !ObsFull {
			h := fnv.New64a()
			h.Write([]byte(data))
			data = fmt.Sprintf("%016x", h.Sum64())
		}
		k.rp.Obs = append(k.rp.Obs, what+"\n"+data)
	}
	n := 0
	for _, f := range k.o.Forms {
		if f.Client == 0 {
			add(fmt.Sprintf("formula %d (operation %s)", n, &k.c.Clients[0].Ops[f.Op]), string(f.Data))
			n++
		}
	}
	for i := range k.c.Clients[0].Ops {
		add("the result of "+k.c.Clients[0].Ops[i].String(), k.o.Res[0][i].Full())
	}
}

// Across compares what two processes observed of the same run.
func Across(a, b *Report) *Violation {
	for i := range a.Obs {
		if i >= len(b.Obs) {
			return &Violation{"process-differs", "another process observes less"}
		}
		if a.Obs[i] == b.Obs[i] {
			continue
		}
		w, x, _ := strings.Cut(a.Obs[i], "\n")
		v, y, _ := strings.Cut(b.Obs[i], "\n")
		if w != v {
			return &Violation{"process-differs", fmt.Sprintf("one process comes to %s where another one comes to %s", w, v)}
		}
		return &Violation{"process-differs", fmt.Sprintf("%s differs between two processes executing the same computation: %s", w, firstDiff(x, y))}
	}
	if len(b.Obs) > len(a.Obs) {
		return &Violation{"process-differs", "another process observes more"}
	}
	return nil
}

func (k *checker) twice() {
	k.observe()
	a := k.c.Alt
	if a == nil {
		k.skip("no second environment")
		return
	}
	cl := append([]Client{}, k.c.Clients...)
	if a.Other != nil {
		cl = append(cl, *a.Other)
	}
	o2 := execIn(k.c, a.Host, a.MapSeed, a.TempSeed, a.Chunk, a.Pre, a.Plan, cl)
	if o2.Incon {
		k.skip("solver budget")
		return
	}
	of := func(o *Out) (r []Form) {
		for _, f := range o.Forms {
			if f.Client == 0 {
				r = append(r, f)
			}
		}
		return
	}
	f1, f2 := of(k.o), of(o2)
	for i := range f1 {
		if i >= len(f2) {
			break
		}
		if string(f1[i].Data) != string(f2[i].Data) {
			k.fail("formula-differs", "formula %d (operation %s) differs between two runs of the same computation: %s", i, &k.c.Clients[0].Ops[f1[i].Op], firstDiff(string(f1[i].Data), string(f2[i].Data)))
			return
		}
		k.rp.Stats["formulas-compared"]++
	}
	for i := range k.c.Clients[0].Ops {
		r, t := &k.o.Res[0][i], &o2.Res[0][i]
		if r.Full() != t.Full() {
			k.fail("result-differs", "%s: %s in one run, %s in another", &k.c.Clients[0].Ops[i], r.Full(), t.Full())
		}
	}
	if len(f1) != len(f2) {
		k.fail("formula-count", "%d formulas in one run, %d in another", len(f1), len(f2))
	}
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			z := "(end)"
			if i < len(y) {
				z = y[i]
			}
			return fmt.Sprintf("line %d is %q and %q", i+1, x[i], z)
		}
	}
	return "one is longer"
}

// ------------------------------------------------------------------------ B10

// flawIn finds something ill-formed in a part of a combination.
func flawIn(c *Case, op *Op, x *Comb) string {
	if x.Op == "nil" {
		return "a part is missing"
	}
	if x.Q != nil {
		return flawOf(c, op, x.Q)
	}
	for _, s := range x.Sub {
		if f := flawIn(c, op, s); f != "" {
			return f
		}
	}
	return ""
}

// refusals: whatever is ill-formed is refused, at once and without a trace.
func (k *checker) refusals() {
	for i := range k.c.Clients[0].Ops {
		op, r := &k.c.Clients[0].Ops[i], &k.o.Res[0][i]
		refused := func(what, cls, err string) {
			switch cls {
			case "error":
				k.rp.Stats["refused"]++
				k.rp.Stats["refused: "+what]++
			case "panic":
				k.fail("flaw-panic", "%s, where %s, panics: %s", op, what, err)
			default:
				k.fail("flaw-answered", "%s, where %s, is answered %s", op, what, cls)
			}
			k.rp.Trivial = false
		}
		switch op.K {
		case "step", "encode", "tofile", "optim", "values":
			if r.Flaw == "" {
				continue
			}
			refused(r.Flaw, r.Class(), r.Err+r.Panic)
			most := 0
			if op.K == "optim" {
				most = len(r.Improve)
			}
			if r.Starts > most {
				k.fail("flaw-run", "%s, where %s, made %d solver runs", op, r.Flaw, r.Starts)
			}
			if r.Data != nil {
				k.fail("flaw-answered", "%s, where %s, gives a formula", op, r.Flaw)
			}
		case "comb":
			for _, t := range r.Atoms {
				if f := flawOf(k.c, op, t.Q); f != "" {
					refused(f, t.Class, "")
				}
			}
			if f := flawIn(k.c, op, op.C); r.Panic != "" && f != "" {
				refused(f, "panic", r.Panic)
			} else if f != "" && r.Class() == "unsat" {
				refused(f, r.Class(), r.Err)
			} else if f != "" {
				for _, t := range r.Trace {
					if t.Msg != "" {
						k.fail("flaw-"+t.Sig, "%s: %s", op.C, t.Msg)
					}
				}
			}
		default:
			continue
		}
		if r.Flaw == "" && op.K != "comb" {
			continue
		}
		if len(r.Leak) > r.RemFail && r.Panic == "" {
			k.fail("file-left", "%s leaves %v", op, canonNames(r.Leak))
		}
		if r.Handles > 0 && r.Panic == "" {
			k.fail("handle-left", "%s leaves %d open file handles", op, r.Handles)
		}
	}
	k.recovery()
}

// -------------------------------------------------------------------- B07, B08

func (k *checker) checkB07() {
	r, rec, envs := execCnf(k.c)
	k.world(r.w, rec)
	k.rp.V = r.v
	k.rp.Stats["negations-checked"] = r.neg
	n := len(r.base)
	for _, p := range r.own {
		n += len(p)
	}
	k.rp.Stats["formulas-kept"] = n
	k.rp.Trivial = n < 2
	_ = envs
}

func (k *checker) checkB08() {
	r, rec := execScope(k.c)
	k.world(r.w, rec)
	k.rp.V = r.v
	k.rp.Stats["context-calls"] = r.calls
	k.rp.Stats["encodings"] = r.encs
	k.rp.Stats["encodings-failed"] = r.fails
	k.rp.Stats["numbers"] = r.nums
	k.rp.Trivial = r.calls < 5
}

var _ = sort.Strings
