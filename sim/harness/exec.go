package harness

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"

	"vsim/q"
	"vsim/rt"
	"vsim/sat"
	"vsim/simos"
)

const solverPath = "/sim/solver"

// yieldBudget bounds the statements of one run; ordinary runs need a fraction.
var yieldBudget uint64 = 40_000_000

// Form is one formula the solver was given.
type Form struct {
	Nth    int // the caller's starts of the solver up to it
	Client int
	Op     int
	Data   []byte
	Torn   bool // not the whole of what its header announces
	Status string
}

// Res is the observable result of one operation.
type Res struct {
	K      string  `json:"k"`
	Err    string  `json:"err,omitempty"`
	Unsat  bool    `json:"unsat,omitempty"` // the error is (or wraps) the sentinel
	Panic  string  `json:"panic,omitempty"`
	Found  bool    `json:"found,omitempty"`
	B      bool    `json:"b,omitempty"`
	Val    []int   `json:"val,omitempty"`
	Calls  int     `json:"calls,omitempty"`
	Vals   [][]int `json:"vals,omitempty"`
	Starts int     `json:"starts,omitempty"`
	Fired  int     `json:"fired,omitempty"`
	Skip   bool    `json:"skip,omitempty"`
	Done   bool    `json:"done"` // it returned (false: the caller crashed before)

	FormFrom, FormTo int      `json:"-"` // formulas given to the solver
	Handles          int      `json:"-"` // left open
	Leak             []string `json:"-"` // temporary files left behind
	RemFail          int      `json:"-"` // removals refused
	Data             []byte   `json:"-"`
	FiredKinds       []string `json:"-"`
	Improve          [][]int  `json:"-"` // constants the order was built with
	SVCalls          int      `json:"-"`
	Self             string   `json:"-"` // what an instance handed out says wrongly about itself
	Flaw             string   `json:"-"` // what was ill-formed about a query it was given
	Atoms            []atomTrace
	Trace            []combTrace
}

// atomTrace is one evaluation of a part of a combination.
type atomTrace struct {
	Q     *q.Q
	Neg   bool
	Class string
	Fired int
}

// combTrace is a combination that did not follow from its parts.
type combTrace struct{ Sig, Msg string }

// spySolver notes what the solver object answers.
type spySolver struct {
	compute.Solver
	e     *rt.Env
	steps []atomTrace
}

func (s *spySolver) Step(x compute.Encodable, ctx query.QContext) error {
	n := len(s.e.Fired)
	err := s.Solver.Step(x, ctx)
	t := atomTrace{Fired: len(s.e.Fired) - n}
	switch {
	case err == nil:
		t.Class = "sat"
	case errors.Is(err, compute.UnsatError):
		t.Class = "unsat"
	default:
		t.Class = "error"
	}
	s.steps = append(s.steps, t)
	return err
}

// spyComb observes a node of a combination: what its parts answered and what it made
// of that.
type spyComb struct {
	c     *Comb
	real  compute.QDTFCombinator
	res   *Res
	parts []partRes
	kids  []*spyComb
	up    *spyComb
	me    int

	errVal bool
}

type partRes struct {
	i   int
	b   bool
	err bool
}

func (s *spyComb) Sat(ctx query.QContext, sol compute.Solver) (bool, error) {
	s.parts = nil
	sp, _ := sol.(*spySolver)
	var from int
	if sp != nil {
		from = len(sp.steps)
	}
	b, err := s.real.Sat(ctx, sol)
	if s.up != nil {
		s.up.parts = append(s.up.parts, partRes{s.me, b, err != nil})
	}
	bad := func(sig, f string, a ...any) {
		s.res.Trace = append(s.res.Trace, combTrace{sig, fmt.Sprintf(f, a...)})
	}
	switch s.c.Op {
	case "atom", "natom":
		neg := s.c.Op == "natom"
		if sp == nil || len(sp.steps) == from {
			if err == nil {
				bad("atom-unasked", "%s answers %v without evaluating its query", s.c, b)
			}
			return b, err
		}
		t := sp.steps[len(sp.steps)-1]
		t.Q, t.Neg = s.c.Q, neg
		s.res.Atoms = append(s.res.Atoms, t)
		switch {
		case t.Class == "error" && err == nil:
			bad("failure-counted", "%s answers %v though its evaluation failed", s.c, b)
		case t.Class != "error" && err != nil:
			bad("answer-dropped", "%s fails (%v) though its query was answered %s", s.c, err, t.Class)
		case err == nil && b != ((t.Class == "sat") != neg):
			bad("atom-wrong", "%s answers %v, its query is %s", s.c, b, t.Class)
		}
	default:
		dec := s.c.Op == "or" // the answer of a part that decides
		decided, failed, lost := false, false, false
		for _, c := range s.c.Sub {
			if c.Op == "nil" {
				failed = true
			}
		}
		got := map[int]bool{}
		for _, p := range s.parts {
			switch {
			case p.err:
				failed = true
				if !decided {
					lost = true
				}
			case p.b == dec:
				decided = true
			default:
				got[p.i] = true
			}
		}
		switch {
		case err == nil && lost:
			bad("failure-dropped", "%s answers %v though a part failed before the result was decided", s.c, b)
		case err != nil && !failed:
			bad("failure-invented", "%s fails (%v) though no part did", s.c, err)
		case err == nil && b == dec && !decided:
			bad("combination-wrong", "%s answers %v though no part did", s.c, b)
		case err == nil && b != dec && (decided || len(got) < len(s.c.Sub)):
			bad("combination-wrong", "%s answers %v but its parts do not: %v", s.c, b, s.parts)
		}
	}
	// Who implements a combinator may return any truth value along with an error.
	return b || err != nil && s.errVal, err
}

// Class is what may be compared between runs.
func (r *Res) Class() string {
	switch {
	case !r.Done:
		return "unfinished"
	case r.Panic != "":
		return "panic"
	case r.Err != "" && r.Unsat:
		return "unsat"
	case r.Err != "":
		return "error"
	}
	if r.Skip {
		return "skipped"
	}
	switch r.K {
	case "step", "check":
		return "sat"
	case "comb":
		return fmt.Sprint(r.B)
	case "optim":
		if r.Found {
			return "found"
		}
		return "notfound"
	}
	return "ok"
}

func (r *Res) Full() string {
	return fmt.Sprint(r.Class(), r.Val, r.Vals, r.Calls)
}

// Out is what a run produced.
type Out struct {
	Res      [][]Res
	Rec      []rt.Switch
	Forms    []Form
	W        *rt.World
	Envs     []*rt.Env
	Touched  []string
	Mutated  []string // shared inputs that were modified
	Incon    bool     // the simulated solver gave up
	Overrun  bool
	Built    []*q.Hooks
	Models   []*q.Model
	TempLeft []string
}

type guide struct {
	ctx   query.QContext
	v     query.QVar
	ord   [][]int
	chain bool // the order is one of quality
	pos   int  // where to go on, as a better instance never comes earlier
}

type runner struct {
	c     *Case
	o     *Out
	w     *rt.World
	model *q.Model
	orig  *q.Model
	shq   []logop.LogOpQ
	hooks []*q.Hooks
	opIdx []int
	twin  bool
	ranks map[string][][]int
}

// CustomErr is what a failing caller-supplied query returns.
var CustomErr = errors.New("custom sub-query failed")

const customPanic = "custom sub-query panicked"

type custom struct {
	kind string
	at   int
	n    *int
}

func (c custom) Encoding(ctx query.QContext) (cnf.CNF, error) {
	*c.n++
	if *c.n == c.at {
		switch c.kind {
		case "error":
			return cnf.CNF{}, CustomErr
		case "unsat": // fails with an error that wraps the library's own sentinel? never
			return cnf.CNF{}, CustomErr
		case "panic":
			panic(customPanic)
		}
	}
	return cnf.TrueCNF, nil
}

// Bug reports a mistake of the harness itself; no verdict may be based on the run.
func Bug(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS ERROR: "+f+"\n", a...)
	os.Exit(4)
}

// Exec runs a case in a new world.
func Exec(c *Case) *Out {
	return execIn(c, 0, c.MapSeed, c.TempSeed, c.Chunk, c.Pre, c.Plan, c.Clients)
}

func execIn(c *Case, host, mapSeed, tempSeed, chunk uint64, pre int, plan rt.Plan, clients []Client) *Out {
	w := rt.NewWorld()
	w.LogOn = LogOn
	w.MapSeed, w.TempSeed = mapSeed, tempSeed
	w.HostSeed = host
	if host != 0 {
		// Other variables, but none that says where temporary files go.
		w.Vars = map[string]string{"PATH": "/usr/bin:/sim", "HOME": "/", "LANG": "de_CH.UTF-8", "TZ": "Asia/Tokyo", "GOMAXPROCS": "3", "USER": "somebody", "DEBUG": "1"}
		if host&1 == 0 {
			delete(w.Vars, "HOME")
		}
	}
	w.Budget = yieldBudget
	rt.W = w
	o := &Out{W: w}
	r := &runner{c: c, o: o, w: w, ranks: map[string][][]int{}}
	w.FS.Preload(solverPath, "simulated solver")
	// Files an earlier, crashed process left in the temporary directory; some have
	// exactly the names that would be chosen next.
	for i := 0; i < pre; i++ {
		n := uint64(i + 1)
		w.FS.Preload(fmt.Sprintf("/tmp/tmp.cnf%d", rt.Mix(tempSeed, n)%10000000000), "p cnf 1 2\n1 0\n-1 0\n")
		w.FS.Preload(fmt.Sprintf("/tmp/stale%d", i), "stale")
		w.FS.Preload("/work/tmp.cnf", "p cnf 1 2\n1 0\n-1 0\n")
		w.FS.Preload("/work/old.cnf", "p cnf 1 4000\n"+strings.Repeat("1 -1 0\n", 4000))
	}
	before := map[string]string{}
	for _, p := range w.FS.Paths() {
		before[p] = string(w.FS.Files[p].Data)
	}
	w.Programs[solverPath] = r.solver
	r.model = c.Tree.Model()
	r.orig = c.Tree.Model()
	for _, s := range c.Shared {
		h := &q.Hooks{}
		r.hooks = append(r.hooks, h)
		r.shq = append(r.shq, q.Build(s, h))
	}
	var bodies []func()
	for i := range clients {
		e := rt.NewEnv(i)
		e.ChunkRng = rt.NewRand(rt.Mix(chunk, uint64(i)))
		for _, f := range c.Faults {
			if f.Client == i {
				e.Faults = append(e.Faults, f)
			}
		}
		for _, k := range c.Crashes {
			if k.Client == i {
				e.CrashAt = k.At
			}
		}
		o.Envs = append(o.Envs, e)
		o.Res = append(o.Res, make([]Res, len(clients[i].Ops)))
		r.opIdx = append(r.opIdx, 0)
		i := i
		bodies = append(bodies, func() { r.client(i, e, clients[i]) })
	}
	o.Rec = w.RunThreads(plan, o.Envs, bodies)
	o.Touched = append(o.Touched, w.FS.Touched...)
	for p, d := range before {
		ino := w.FS.Files[p]
		if ino == nil {
			o.Touched = append(o.Touched, "gone "+p)
		} else if string(ino.Data) != d {
			o.Touched = append(o.Touched, "changed "+p)
		}
	}
	sort.Strings(o.Touched)
	r.checkInputs()
	return o
}

// LogOn keeps the text of the event log.
var LogOn bool

func (r *runner) checkInputs() {
	if fmt.Sprint(r.model.N) != fmt.Sprint(r.orig.N) {
		r.o.Mutated = append(r.o.Mutated, "tree nodes")
	}
	for i, s := range r.c.Shared {
		h2 := &q.Hooks{}
		q.Build(s, h2)
		if fmt.Sprint(r.hooks[i].Prefs) != fmt.Sprint(h2.Prefs) {
			r.o.Mutated = append(r.o.Mutated, fmt.Sprintf("preference list of query %d", i))
		}
		if fmt.Sprint(r.hooks[i].Consts) != fmt.Sprint(h2.Consts) {
			r.o.Mutated = append(r.o.Mutated, fmt.Sprintf("constants of query %d", i))
		}
	}
}

func (r *runner) client(id int, e *rt.Env, cl Client) {
	ctxs := map[int]query.QContext{}
	sols := map[int]compute.Solver{}
	given := map[string]query.QConst{}
	for k := range cl.Ops {
		op := &cl.Ops[k]
		r.opIdx[id] = k
		res := &r.o.Res[id][k]
		res.K = op.K
		res.FormFrom = len(r.o.Forms)
		starts := e.Started
		fired := len(e.Fired)
		own := map[string]bool{}
		for p, ino := range r.w.FS.Files {
			if ino.Owner == id {
				own[p] = true
			}
		}
		handles := e.Handles
		ctx := ctxs[op.Ctx]
		if ctx == nil && op.Ctx != -1 {
			m := r.model
			if op.Ctx < -1 {
				t, _ := treeOf(r.c, op)
				m = t.Model()
			}
			ctx = query.BasicQContext(m)
			ctxs[op.Ctx] = ctx
		}
		sol := sols[op.Sol]
		if sol == nil {
			var err error
			sol, err = compute.BinSolver(solverPath)
			if err != nil {
				res.Err, res.Done = "BinSolver: "+err.Error(), true
				return
			}
			sols[op.Sol] = sol
		}
		e.User = nil
		if rt.W.Stats != nil {
			r.w.Event("op %d: %s", k, op)
		}
		r.op(e, op, res, ctx, sol, given)
		if e.Dead {
			return
		}
		res.Done = true
		res.Starts = e.Started - starts
		res.Fired = len(e.Fired) - fired
		res.Handles = e.Handles - handles
		for _, f := range e.Fired[fired:] {
			res.FiredKinds = append(res.FiredKinds, f.Op+":"+f.Kind)
			if f.Op == "remove" {
				res.RemFail++
			}
		}
		for p, ino := range r.w.FS.Files {
			if ino.Owner == id && !own[p] && p != op.Path {
				res.Leak = append(res.Leak, p)
			}
		}
		sort.Strings(res.Leak)
		res.FormTo = len(r.o.Forms)
		r.w.Event("op %d -> %s", k, res.Full())
		if op.K == "heal" {
			e.Heal()
		}
	}
}

// op performs one operation, turning panics into results.
func (r *runner) op(e *rt.Env, op *Op, res *Res, ctx query.QContext, sol compute.Solver, given map[string]query.QConst) {
	ok := false
	defer func() {
		if ok || e.Dead {
			return
		}
		x := recover()
		if x == nil {
			return // Goexit
		}
		switch p := x.(type) {
		case rt.BudgetExceeded:
			r.o.Overrun = true
			res.Panic = "does not end"
		case rt.Deadlock:
			res.Panic = "deadlock"
		case simos.ExitCalled:
			res.Panic = "os.Exit"
		default:
			res.Panic = fmt.Sprint(p)
			if LogOn {
				r.w.Log = append(r.w.Log, string(debug.Stack()))
			}
		}
	}()
	n := 0
	h := &q.Hooks{Custom: func(name string) logop.LogOpQ { return custom{op.Bad, op.At, &n} }}
	flaw := func(x *q.Q) *q.Q {
		if res.Flaw == "" {
			res.Flaw = r.flaw(op, x)
		}
		return x
	}
	build := func() logop.LogOpQ {
		flaw(r.c.query(op))
		if op.Ref > 0 {
			return r.shq[op.Ref-1]
		}
		return q.Build(op.Q, h)
	}
	setErr := func(err error) {
		if err != nil {
			res.Err = err.Error()
			if res.Err == "" {
				res.Err = "(empty error)"
			}
			res.Unsat = errors.Is(err, compute.UnsatError)
		}
	}
	switch op.K {
	case "step":
		if r.c.Solver.Guide != "" {
			if vs := r.c.query(op).Vars(); len(vs) > 0 {
				e.User = &guide{ctx: ctx, v: query.QVar(q.Raw(vs[0])), ord: r.randomOrder()}
			}
		}
		setErr(sol.Step(build(), ctx))
	case "check":
		// A query about constants that were handed out before.
		for _, v := range op.Vars {
			c, ok := given[v]
			if !ok {
				res.Skip = true
				break
			}
			res.Vals = append(res.Vals, q.Ints(c.Val))
		}
		if !res.Skip {
			h.Given = given
			setErr(sol.Step(build(), ctx))
		}
	case "values":
		if op.Ctx == -1 {
			res.Flaw = "there is no context"
		}
		for _, v := range op.Vars {
			delete(given, v)
		}
		vars := make([]query.QVar, len(op.Vars))
		for i, v := range op.Vars {
			vars[i] = query.QVar(q.Raw(v))
		}
		cs, err := sol.Values(vars, ctx)
		setErr(err)
		if err == nil {
			res.Vals = [][]int{}
		}
		for i, c := range cs {
			res.Vals = append(res.Vals, q.Ints(c.Val))
			if i < len(op.Vars) {
				given[op.Vars[i]] = c
			}
			if res.Self == "" {
				res.Self = describe(c, cs)
			}
		}
	case "optim":
		delete(given, op.O.Var)
		named := func(v query.QVar) string {
			if string(v) == q.Raw(op.O.Var) {
				return op.O.Var
			}
			return string(v)
		}
		if r.c.Solver.Guide != "" {
			e.User = &guide{ctx: ctx, v: query.QVar(q.Raw(op.O.Var)), ord: r.guideOrder(op.O.Order), chain: r.c.Solver.Guide == "least"}
		}
		out, err := compute.ComputeOptim(
			func(v query.QVar) compute.Encodable {
				res.SVCalls++
				return q.Build(flaw(op.O.F).Rename(op.O.Var, named(v)), h)
			},
			func(v query.QVar, c query.QConst) compute.Encodable {
				res.Improve = append(res.Improve, q.Ints(c.Val))
				if op.O.Spoilt != nil && len(res.Improve) >= op.O.SpoilAt {
					return q.Build(flaw(op.O.Spoilt).Rename(op.O.Var, named(v)), h)
				}
				flaw(op.O.Order.Q(q.V(named(v)), q.C(make([]int, r.c.Tree.Dim))))
				return q.Build(op.O.Order.Q(q.V(named(v)), q.Arg{G: "$", C: q.Ints(c.Val)}), &q.Hooks{Given: map[string]query.QConst{"$": c}})
			},
			query.QVar(q.Raw(op.O.Var)), ctx, sol)
		setErr(err)
		res.Found, res.Calls = out.Found, out.Calls
		if out.Found {
			res.Val = q.Ints(out.Value.Val)
			given[op.O.Var] = out.Value
		}
	case "comb":
		b, err := r.comb(op.C, h, res, nil, 0).Sat(ctx, &spySolver{Solver: sol, e: e})
		setErr(err)
		res.B = b
	case "reset":
		ctx.Reset()
	case "heal":
	case "encode", "tofile":
		f, err := build().Encoding(ctx)
		if err == nil && op.K == "tofile" {
			want := f.ToBytes()
			err = f.ToFile(op.Path)
			if err == nil {
				res.Data = nil
				ino := r.w.FS.Files[rt.Clean(op.Path)]
				if ino == nil {
					res.Data = []byte("missing")
				} else if !sameText(ino.Data, want) {
					res.Data = []byte(fmt.Sprintf("file has %d bytes, the formula %d", len(ino.Data), len(want)))
				}
			}
		} else if err == nil {
			res.Data = f.ToBytes()
		}
		setErr(err)
	default:
		panic("unknown operation " + op.K)
	}
	ok = true
}

// describe compares what an instance says about itself with its features.
func describe(c query.QConst, all []query.QConst) string {
	s, bots := "", 0
	for _, f := range c.Val {
		switch f {
		case query.BOT:
			s += "_"
			bots++
		case query.ZERO:
			s += "0"
		case query.ONE:
			s += "1"
		}
	}
	if g := c.AsString(); g != s {
		return fmt.Sprintf("its text is %q, not %q", g, s)
	}
	if g := c.BotCount(); g != bots {
		return fmt.Sprintf("its bottom count is %d, not %d", g, bots)
	}
	if g := c.IsFull(); g != (bots == 0) {
		return fmt.Sprintf("it is full: %v", g)
	}
	same := func(d query.QConst) string {
		eq := len(c.Val) == len(d.Val)
		for i := 0; eq && i < len(c.Val); i++ {
			eq = c.Val[i] == d.Val[i]
		}
		if g := c.EqualValue(d); g != eq {
			return fmt.Sprintf("equal to %v: %v", d.Val, g)
		}
		return ""
	}
	more := []query.QConst{query.AllBotConst(len(c.Val)), {ID: "other", Val: append([]query.FeatV{}, c.Val...)}}
	if e := more[0]; len(e.Val) != len(c.Val) || e.BotCount() != len(c.Val) {
		return fmt.Sprintf("the empty instance of its dimension is %v", e.Val)
	}
	if n := len(c.Val); n > 0 {
		d := append([]query.FeatV{}, c.Val...)
		d[n-1] = (d[n-1] + 1) % 3
		more = append(more, query.QConst{Val: d}, query.QConst{Val: c.Val[:n-1]}, query.QConst{Val: c.Val[1:]},
			query.QConst{Val: append(append([]query.FeatV{}, c.Val...), query.BOT)})
	}
	for _, d := range append(more, all...) {
		if e := same(d); e != "" {
			return e
		}
	}
	return ""
}

// flaw says what is ill-formed about evaluating a query in an operation's context.
func (r *runner) flaw(op *Op, x *q.Q) string { return flawOf(r.c, op, x) }

func flawOf(c *Case, op *Op, x *q.Q) string {
	if op.Ctx == -1 && x.Op != "true" && x.Op != "false" && x.Op != "custom" {
		return "there is no context"
	}
	return x.Flaw(treeOf(c, op))
}

// treeOf is the tree of an operation's context, and its malformed node.
func treeOf(c *Case, op *Op) (*q.Tree, int) {
	switch {
	case op.Ctx == -2:
		return &q.Tree{Dim: c.Tree.Dim}, -1
	case op.Ctx == -3 && c.Dent != nil:
		return c.Dent.Apply(c.Tree)
	}
	return c.Tree, -1
}

func (r *runner) comb(c *Comb, h *q.Hooks, res *Res, up *spyComb, me int) compute.QDTFCombinator {
	if c.Op == "nil" {
		return nil
	}
	n := &spyComb{c: c, res: res, up: up, me: me, errVal: r.c.ErrVal}
	switch c.Op {
	case "atom", "natom":
		n.real = compute.QDTFAtom{Query: q.Build(c.Q, h), Negated: c.Op == "natom"}
	case "and":
		a := compute.AndCombinator{}
		for i, s := range c.Sub {
			a = append(a, r.comb(s, h, res, n, i))
		}
		n.real = a
	case "or":
		a := compute.OrCombinator{}
		for i, s := range c.Sub {
			a = append(a, r.comb(s, h, res, n, i))
		}
		n.real = a
	default:
		panic("comb " + c.Op)
	}
	return n
}

func (r *runner) randomOrder() [][]int {
	if r.c.Tree.Dim > 7 {
		return nil
	}
	if o, ok := r.ranks["random"]; ok {
		return o
	}
	all := q.AllInsts(r.c.Tree.Dim)
	var o [][]int
	for _, i := range rt.NewRand(rt.Mix(r.c.Solver.Seed, 4242)).Perm(len(all)) {
		o = append(o, all[i])
	}
	r.ranks["random"] = o
	return o
}

// guideOrder lists instances so that no instance comes after one that is better.
func (r *runner) guideOrder(ord q.Order) [][]int {
	o := r.randomOrder()
	if r.c.Solver.Guide == "random" || o == nil {
		return o
	}
	key := js(ord)
	if x, ok := r.ranks[key]; ok {
		return x
	}
	ref := q.NewRef(r.c.Tree, 0)
	rank := make([]int, len(o))
	idx := make([]int, len(o))
	for i := range o {
		idx[i] = i
		for j := range o {
			if ord.Better(ref, o[i], o[j]) {
				rank[i]++
			}
		}
	}
	sort.SliceStable(idx, func(a, b int) bool { return rank[idx[a]] < rank[idx[b]] })
	var x [][]int
	for _, i := range idx {
		x = append(x, o[i])
	}
	r.ranks[key] = x
	return x
}

// solver is the simulated SAT solver program.
func (r *runner) solver(p *rt.Proc) rt.Exit {
	cfg := r.c.Solver
	file := ""
	for _, a := range p.Args[1:] {
		if !strings.HasPrefix(a, "-") {
			file = a
		}
	}
	id := p.Env.ID
	fail := func(msg string) rt.Exit {
		r.w.Event("solver refuses: %s", msg)
		r.w.Stats["solver-refused"]++
		r.o.Forms = append(r.o.Forms, Form{Client: id, Op: r.opIdx[id], Status: "refused"})
		return rt.Exit{Code: 1, Stderr: []byte("solver: error: " + msg + "\n")}
	}
	if p.Nth > 3000 {
		panic(rt.BudgetExceeded{Yields: r.w.Yields})
	}
	var data []byte
	if file == "" {
		data = p.Stdin
	} else {
		if p.Fault != nil && p.Fault.Kind == "vanish" {
			delete(r.w.FS.Files, rt.Clean(file))
		}
		ino := r.w.FS.Files[rt.Clean(file)]
		if ino == nil {
			return fail("can not read '" + file + "'")
		}
		data = append([]byte(nil), ino.Data...)
	}
	pr, err := sat.Parse(data, cfg.Strict)
	if err != nil {
		return fail(err.Error())
	}
	h := fnv.New64a()
	h.Write(data)
	fh := h.Sum64()
	form := Form{Client: id, Op: r.opIdx[id], Nth: p.Nth, Data: data, Torn: pr.Torn || pr.NoHeader || len(pr.Clauses) != pr.HeaderC}
	nv := pr.MaxV
	if pr.HeaderV > nv && pr.HeaderV < 5_000_000 {
		nv = pr.HeaderV
	}
	seed := rt.Mix(cfg.Seed, fh)
	if cfg.PerCall {
		seed = rt.Mix(seed, uint64(p.Nth))
	}
	if p.Fault != nil && p.Fault.Kind == "kill" {
		// Another attempt need not come to the same valuation.
		seed = rt.Mix(seed, 0x6b11)
	}
	s := sat.New(nv, pr.Clauses, seed, cfg.Mode)
	const budget = 60000
	st := s.Solve(nil, budget)
	var model []bool
	if st == sat.Sat {
		model = s.Model()
		if g, ok := p.Env.User.(*guide); ok && g != nil {
			// Giving up on the search for a guided model leaves the first one.
			switch r.guided(s, g, nv, budget) {
			case sat.Sat:
				model = s.Model()
			case sat.Unsat:
				Bug("simulated solver refuted a formula it has a model of")
			}
		}
	}
	switch st {
	case sat.Sat:
		if !sat.CheckModel(pr.Clauses, model) {
			Bug("simulated solver produced a wrong model")
		}
		form.Status = "sat"
	case sat.Unsat:
		if s.Learned() < 400 && !s.CheckRefutation() {
			Bug("simulated solver produced a wrong refutation")
		}
		form.Status = "unsat"
	default:
		form.Status = "unknown"
		r.o.Incon = true
	}
	r.w.Stats["formula-"+form.Status]++
	r.w.Event("solver: formula %016x, %d variables, %d clauses, %s", fh, nv, len(pr.Clauses), form.Status)
	r.o.Forms = append(r.o.Forms, form)
	r.w.Now += int64(s.Confl+1) * 10_000
	kind := ""
	if p.Fault != nil {
		kind = p.Fault.Kind
	}
	if kind == "unknown" || st == sat.Unknown {
		ex := rt.Exit{Stdout: []byte("c gave up\ns UNKNOWN\n")}
		if f := p.Fault; f != nil && f.Kind == "unknown" {
			if f.Arg < 0 {
				ex.Signal = -f.Arg % 256
			} else if f.Arg%256 != 10 && f.Arg%256 != 20 {
				ex.Code = f.Arg % 256
			}
			if f.Arg >= 256 || f.Arg <= -256 {
				ex.Stdout = []byte("s UNKNOWN\n")
			}
		}
		return ex
	}
	if st == sat.Unsat {
		ex := rt.Exit{Code: 20, Stdout: []byte("c simulated solver\ns UNSATISFIABLE\n"), Stderr: warnings(cfg.Layout)}
		if n := chatter(cfg.Layout); n > 0 {
			ex.Stdout = append(bytes.Repeat([]byte("c progress 0 1 2 3\n"), n/19), ex.Stdout...)
		}
		return ex
	}
	lits := make([]int, 0, nv)
	for v := 1; v <= nv; v++ {
		if model[v] {
			lits = append(lits, v)
		} else {
			lits = append(lits, -v)
		}
	}
	rng := rt.NewRand(rt.Mix(cfg.Layout, seed))
	if cfg.Partial {
		lits = needed(pr.Clauses, lits, rng)
	}
	if kind == "gap" && len(lits) > 0 {
		// Says nothing about some variables, though they matter.
		g := rt.NewRand(uint64(p.Fault.Arg))
		i := g.N(len(lits))
		n := 1 + g.N(pick(g, 1, 3, 12, len(lits)))
		lits = append(lits[:i:i], lits[min(i+n, len(lits)):]...)
	}
	out := layout(lits, cfg.Layout, rng)
	switch kind {
	case "noout":
		out = []byte("s SATISFIABLE\n")
	case "empty":
		out = nil
	case "tornbyte":
		i := bytes.Index(out, []byte("\nv")) + 1
		if i < 1 {
			i = 0
		}
		// Cut somewhere before the terminating zero.
		z := bytes.LastIndex(out, []byte("\nv")) + 1
		if e := bytes.IndexByte(out[z:], '\n'); e >= 0 {
			z = bytes.LastIndexByte(out[:z+e], '0')
		} else {
			z = bytes.LastIndexByte(out, '0')
		}
		n := i
		if z > i {
			n = i + (z-i)*(p.Fault.Arg%1001)/1001
		}
		out = out[:n]
	case "tornline":
		lines := bytes.SplitAfter(out, []byte("\n"))
		var vl []int
		for i, l := range lines {
			if len(l) > 0 && l[0] == 'v' {
				vl = append(vl, i)
			}
		}
		if len(vl) > 0 {
			out = bytes.Join(lines[:vl[p.Fault.Arg%len(vl)]], nil)
		}
	}
	return rt.Exit{Code: 10, Stdout: out, Stderr: warnings(cfg.Layout)}
}

// warnings is what the solver has to say besides its answer.
func warnings(seed uint64) []byte {
	if r := rt.NewRand(seed ^ 0x77a1); seed != 0 && r.P(15) {
		ws := []string{"warning: could not lock memory\n", "v 1 2 3 0\n", "s UNSATISFIABLE\n", "\n", "c\n", "solver: error: can not set priority\n", "0 errors\n", "killed child\n"}
		return bytes.Repeat([]byte(ws[r.N(len(ws))]), pick(r, 1, 1, 1, 3, 5000))
	}
	return nil
}

// chatter is the size of a report of progress.
func chatter(seed uint64) int {
	if r := rt.NewRand(seed ^ 0xc4a7); seed != 0 && r.N(1000) < 12 {
		return pick(r, 20_000, 100_000, 300_000, 1_200_000, 2_500_000)
	}
	return 0
}

// guided looks for a model in which the guided variable has the first possible value
// in the guide's order.
func (r *runner) guided(s *sat.Solver, g *guide, nv, budget int) sat.Status {
	gv := g.ctx.ScopeVar(g.v)
	for n := range g.ord {
		val := g.ord[(g.pos+n)%len(g.ord)]
		var as []int
		ok := true
		for i, f := range val {
			for k := 0; k < 3; k++ {
				if !g.ctx.CNFVarExists(gv, i, k) {
					ok = false
					continue
				}
				x := g.ctx.CNFVar(gv, i, k)
				if x > nv {
					ok = false
					continue
				}
				if k != f {
					x = -x
				}
				as = append(as, x)
			}
		}
		if !ok {
			break
		}
		if s.Solve(as, budget) == sat.Sat {
			r.w.Stats["solver-guided"]++
			if g.chain {
				g.pos = (g.pos + n) % len(g.ord)
			}
			return sat.Sat
		}
	}
	return s.Solve(nil, budget)
}

// needed drops literals while every clause keeps a true one.
func needed(clauses [][]int, lits []int, rng *rt.Rand) []int {
	cnt := make([]int, len(clauses))
	occ := map[int][]int{}
	on := map[int]bool{}
	for _, l := range lits {
		on[l] = true
	}
	for i, c := range clauses {
		seen := map[int]bool{}
		for _, l := range c {
			if on[l] && !seen[l] {
				seen[l] = true
				cnt[i]++
				occ[l] = append(occ[l], i)
			}
		}
	}
	drop := map[int]bool{}
	for _, k := range rng.Perm(len(lits)) {
		l := lits[k]
		ok := true
		for _, i := range occ[l] {
			if cnt[i] < 2 {
				ok = false
				break
			}
		}
		if ok {
			drop[l] = true
			for _, i := range occ[l] {
				cnt[i]--
			}
		}
	}
	var out []int
	for _, l := range lits {
		if !drop[l] {
			out = append(out, l)
		}
	}
	return out
}

// layout prints a model in one of the many legal ways.
func layout(lits []int, seed uint64, rng *rt.Rand) []byte {
	var b strings.Builder
	if seed == 0 {
		b.WriteString("s SATISFIABLE\nv")
		for _, l := range lits {
			b.WriteByte(' ')
			b.WriteString(strconv.Itoa(l))
		}
		b.WriteString(" 0\n")
		return []byte(b.String())
	}
	// The shape is fixed by the run, details by the formula.
	sr := rt.NewRand(seed)
	shuffle, comments, width, own, blanks, final := sr.P(30), sr.P(50), 0, sr.P(30), sr.P(25), sr.P(85)
	long := 0 // a line longer than any usual buffer
	if sr.P(4) {
		long = []int{5000, 66000, 70000, 140000}[sr.N(4)]
	}
	switch sr.N(5) {
	case 0:
		width = 0 // all on one line
	case 1:
		width = 1
	case 2:
		width = 2 + sr.N(3)
	case 3:
		width = 78 // as kissat and cadical
		width = -78
	case 4:
		width = 5 + sr.N(60)
	}
	if shuffle {
		p := rng.Perm(len(lits))
		x := make([]int, len(lits))
		for i, k := range p {
			x[i] = lits[k]
		}
		lits = x
	}
	comment := func(p int) {
		if comments && rng.P(p) {
			b.WriteString([]string{"c\n", "c v 1 2 3 0\n", "c conflicts: 12\n", "c\n"}[rng.N(4)])
		}
	}
	if comments {
		b.WriteString("c simulated solver\nc\nc v 9 8 7\n")
	}
	if long > 0 && seed&2 == 0 {
		b.WriteString("c " + strings.Repeat("-", long) + "\n")
	}
	talk, late := strings.Repeat("c progress 0 1 2 3\n", chatter(seed)/19), sr.P(40)
	if !late {
		b.WriteString(talk)
	}
	b.WriteString("s SATISFIABLE\n")
	if late {
		b.WriteString(talk)
	}
	if long > 0 && seed&2 != 0 {
		b.WriteString("c " + strings.Repeat("= ", long/2) + "\n")
	}
	comment(50)
	words := make([]string, 0, len(lits)+1)
	for _, l := range lits {
		words = append(words, strconv.Itoa(l))
	}
	if !own {
		words = append(words, "0")
	}
	var line []byte
	n := 0
	flush := func() {
		if n > 0 {
			b.WriteByte('v')
			b.Write(line)
			if blanks && rng.P(40) {
				b.WriteString(" ")
			}
			b.WriteString("\n")
			comment(20)
		}
		line, n = line[:0], 0
	}
	for _, w := range words {
		sp := " "
		if blanks && rng.P(20) {
			sp = "  "
		}
		if width < 0 && n > 0 && len(line)+len(w)+2 > -width || width > 0 && n >= width {
			flush()
		}
		line = append(append(line, sp...), w...)
		n++
	}
	flush()
	if own {
		b.WriteString("v 0\n")
	}
	comment(60)
	s := b.String()
	if !final {
		s = strings.TrimSuffix(s, "\n")
	}
	return []byte(s)
}
