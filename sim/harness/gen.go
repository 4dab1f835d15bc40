package harness

import (
	"fmt"
	"sort"

	"vsim/q"
	"vsim/rt"
	"vsim/sat"
)

// refBudget bounds the reference evaluations of one query.
const refBudget = 600_000

// Props lists the properties with a check.
var Props = []string{"A01", "A02", "A03", "A04", "A05", "A06", "B01", "B02", "B03", "B04", "B05", "B06", "B07", "B08", "B09", "B10"}

// Generate makes the run-th case of a property.
func Generate(prop string, seed uint64, run int) *Case {
	r := rt.NewRand(rt.Mix(seed, rt.HashStr("goexpdt "+prop), uint64(run)))
	c := &Case{Prop: prop, Run: run}
	gens[prop](r, c)
	switch prop {
	case "B01", "B02", "B03", "B05", "B06", "B10":
		c.Apart = r.N(1000) < 15
	}
	return c
}

var gens = map[string]func(*rt.Rand, *Case){
	"A01": genA01, "A02": genA02, "A03": genA03, "A04": genOptim, "A05": genOptim, "A06": genA06,
	"B01": genB01, "B02": genB02, "B03": genB03, "B04": genB04, "B05": genB05, "B06": genB06,
	"B07": genB07, "B08": genB08, "B09": genB09, "B10": genB10,
}

func pick[T any](r *rt.Rand, xs ...T) T { return xs[r.N(len(xs))] }

func seed1(r *rt.Rand) uint64 { return r.U64()>>12 | 1 } // survives JSON numbers

func genSolver(r *rt.Rand) SolverCfg {
	s := SolverCfg{Mode: sat.Mode(r.N(int(sat.NModes))), Seed: seed1(r), Strict: r.P(40), Partial: r.P(30), PerCall: r.P(20)}
	if r.P(75) {
		s.Layout = seed1(r)
	}
	return s
}

func genEnv(r *rt.Rand, c *Case) {
	c.Solver = genSolver(r)
	c.TempSeed = seed1(r)
	c.Chunk = seed1(r)
	if r.P(70) {
		c.MapSeed = seed1(r)
	}
	if r.P(30) {
		c.Pre = 1 + r.N(3)
	}
}

func genDim(r *rt.Rand) int {
	switch k := r.N(100); {
	case k < 2:
		return 0
	case k < 9:
		return 1
	case k < 38:
		return 2
	case k < 80:
		return 3
	default:
		return 4
	}
}

func genTree(r *rt.Rand, c *Case, dim, nodes int) { c.Tree = q.GenTree(r, dim, nodes) }

func op(k string, x *q.Q, ctx, sol int) Op { return Op{K: k, Q: x, Ctx: ctx, Sol: sol} }

func one(c *Case, ops ...Op) { c.Clients = []Client{{Ops: ops}} }

// ------------------------------------------------------------------------ A01

// point makes a query whose variables are pinned to constants, around one or a few
// literals that share them.
func point(r *rt.Rand, t *q.Tree, vars []string, reach int) *q.Q {
	paths := q.NewRef(t, 0).NodePaths()
	cst := func() []int {
		switch {
		case r.P(35):
			p := paths[r.N(len(paths))]
			if r.P(50) {
				return q.Near(r, p)
			}
			return append([]int{}, p...)
		default:
			return q.GenInst(r, t.Dim)
		}
	}
	nv := 1 + r.N(3)
	val := map[string][]int{}
	base := cst()
	full := r.P(40)
	for _, v := range vars[:nv] {
		x := cst()
		if r.P(40) {
			x = q.Near(r, base)
		}
		if full {
			for i := range x {
				if x[i] == q.BOT && !r.P(10) {
					x[i] = 1 + r.N(2)
				}
			}
		}
		val[v] = x
	}
	arg := func() q.Arg {
		if r.P(70) {
			return q.V(vars[r.N(nv)])
		}
		x := cst()
		if r.P(50) {
			x = q.Near(r, base)
		}
		if full {
			for i := range x {
				if x[i] == q.BOT {
					x[i] = 1 + r.N(2)
				}
			}
		}
		a := q.C(x)
		if r.P(20) {
			a.I = pick(r, "k", "c1", "c11")
		}
		return a
	}
	var prefs [][]int
	wide := t.Dim > 10 && r.P(60)
	lit := func() *q.Q {
		opn := q.AllAtoms[r.N(len(q.AllAtoms))]
		if full && r.P(40) {
			opn = "leh"
		}
		if wide {
			opn = "hepr"
		}
		n := map[string]int{"leh": 3, "isnode": 1, "allcomp": 1, "dfs": 1, "full": 1}[opn]
		if n == 0 {
			n = 2
		}
		x := &q.Q{Op: opn, Leaf: r.P(50), Reach: reach}
		for i := 0; i < n; i++ {
			x.Args = append(x.Args, arg())
		}
		if opn == "hepr" {
			x.Pref = q.GenPref(r, t.Dim, prefs)
			prefs = append(prefs, x.Pref)
		}
		if r.P(50) {
			return q.Not(x)
		}
		return x
	}
	body := lit()
	for k := r.N(4); k > 0; k-- {
		switch r.N(3) {
		case 0:
			body = q.And(body, lit())
		case 1:
			body = q.Or(body, lit())
		default:
			body = q.And(lit(), body)
		}
	}
	if r.P(25) {
		body = q.Not(body)
	}
	names := append([]string{}, vars[:nv]...)
	sort.Strings(names)
	late := r.P(50)
	for _, v := range names {
		if late {
			body = q.And(body, q.Pin(v, val[v]))
		} else {
			body = q.And(q.Pin(v, val[v]), body)
		}
	}
	for _, i := range r.Perm(nv) {
		body = q.With(names[i], body)
	}
	return body
}

func decided(r *rt.Rand, o *q.Opts, want bool) *q.Q {
	x, _ := q.GenDecided(r, o, want, 12, refBudget/3)
	return x
}

func genA01(r *rt.Rand, c *Case) {
	genEnv(r, c)
	var ops []Op
	switch k := r.N(100); {
	case k < 45:
		c.Family = "search"
		genTree(r, c, genDim(r), 3+2*r.N(7))
		o := q.NewOpts(r, c.Tree)
		for i := 0; i < 4; i++ {
			if i > 0 && r.P(50) {
				o = q.NewOpts(r, c.Tree)
			}
			ops = append(ops, op("step", decided(r, o, r.P(50)), i, r.N(2)))
		}
	case k < 75:
		c.Family = "point"
		dim := 1 + r.N(7)
		if r.P(15) {
			dim = 11 + r.N(4)
		}
		genTree(r, c, dim, 1+2*r.N(16))
		o := q.NewOpts(r, c.Tree)
		for i := 0; i < 6; i++ {
			ops = append(ops, op("step", point(r, c.Tree, o.Vars, r.N(2)), i, 0))
		}
	case k < 76 && r.P(30):
		c.Family = "bushy"
		addPinned(r, c, &ops, bushy(r, c, r.P(40)))
	case k < 78:
		c.Family = "deep"
		genTree(r, c, 2+r.N(4), 1+2*r.N(8))
		addPinned(r, c, &ops, deepQ(r, c, 12+r.N(50)))
	case k < 80:
		c.Family = "many"
		addPinned(r, c, &ops, many(r, c))
	case k < 81:
		c.Family = "large"
		x := large(r, c, 40)
		ref := q.NewRef(c.Tree, refBudget)
		if q.Try(func() { evalPinned(ref, x) }) {
			ops = append(ops, op("step", x, 0, 0))
		}
	case k < 90:
		c.Family = "pinned"
		genTree(r, c, 4+r.N(9), 11+2*r.N(30))
		o := q.NewOpts(r, c.Tree)
		if o.Quant > 1 || len(c.Tree.Nodes) > 40 && r.P(50) {
			o.Quant = 1
		}
		if o.Depth > 3 {
			o.Depth = 3
		}
		for i := 0; i < 3; i++ {
			addPinned(r, c, &ops, q.GenPinned(r, o, 1+r.N(2)))
		}
	default:
		c.Family = "const"
		genTree(r, c, 1+r.N(8), 1+2*r.N(12))
		wide := r.P(6)
		if wide {
			c.Family = "wide-const"
			genTree(r, c, pick(r, 30, 60, 120, 250)+r.N(20), 1+2*r.N(12))
		}
		o := q.NewOpts(r, c.Tree)
		o.MaxVars = 0
		o.Quant = r.N(3)
		if wide {
			o.Quant = r.N(2)
			o.Depth = r.N(2)
		}
		for i := 0; i < 5; i++ {
			if wide {
				addPinned(r, c, &ops, q.GenPinned(r, o, pick(r, 0, 0, 1, 2)))
				continue
			}
			ops = append(ops, op("step", decided(r, o, r.P(50)), i, 0))
		}
	}
	if r.P(1) {
		for i := range ops {
			if ops[i].Q != nil && r.P(60) {
				ops[i].Q = taking(r, ops[i].Q, 4)
			}
		}
	}
	one(c, ops...)
}

// taking lets a caller's own sub-query take numbers before (and after) others do.
func taking(r *rt.Rand, x *q.Q, most int) *q.Q {
	ns := []int{130, 300, 33000, 70000}
	t := func() *q.Q { return q.Takes(ns[r.N(most)] - r.N(100)) }
	x = q.And(t(), x)
	if r.P(30) {
		x = q.And(x, t())
	}
	return x
}

// addPinned adds a step with a query whose truth value is affordable.
func addPinned(r *rt.Rand, c *Case, ops *[]Op, x *q.Q) {
	ref := q.NewRef(c.Tree, refBudget)
	if x.Cost(c.Tree) <= q.MaxCost && q.Try(func() { evalPinned(ref, x) }) {
		*ops = append(*ops, op("step", x, len(*ops), 0))
	}
}

// nest makes a query with many nested quantifiers about a tree of one or a few nodes.
func nest(r *rt.Rand, c *Case) *q.Q {
	dim, n := c.Tree.Dim, pick(r, 1, 1, 3, 3, 5)
	if len(c.Tree.Nodes) > 5 {
		genTree(r, c, dim, n)
	}
	deep := map[int]int{1: 4 + r.N(30), 3: 3 + r.N(3), 5: 3 + r.N(2)}[len(c.Tree.Nodes)]
	o := q.NewOpts(r, c.Tree)
	var names, vars []string
	for i := 0; i < deep; i++ {
		names = append(names, o.Bounds[r.N(2)]+fmt.Sprint(i))
		if i > 0 && r.P(15) {
			names[i] = names[r.N(i)]
		}
	}
	if r.P(60) {
		vars = o.Vars[:1+r.N(2)]
	}
	arg := func() q.Arg {
		if len(vars) > 0 && r.P(40) {
			return q.V(vars[r.N(len(vars))])
		}
		if r.P(15) {
			return q.C(q.GenInst(r, dim))
		}
		return q.B(names[r.N(len(names))])
	}
	var x *q.Q
	for i := 0; i < 2+r.N(4); i++ {
		l := q.P(pick(r, "sub", "sub", "cons", "lel"), arg(), arg())
		if r.P(40) {
			l = q.Not(l)
		}
		switch {
		case x == nil:
			x = l
		case r.P(50):
			x = q.And(x, l)
		default:
			x = q.Or(x, l)
		}
	}
	own := false // a declaration is not to be negated
	for i := range names {
		x = q.ForAll(names[len(names)-1-i], x)
		if !own && r.P(10) {
			x = q.Not(x)
		}
		if len(vars) > 0 && r.P(20) {
			own = true
			// Within a quantifier, each node has a variable of its own.
			v := vars[len(vars)-1]
			vars = vars[:len(vars)-1]
			p := Pinned(r, v, q.GenInst(r, dim), x)
			x = p
		}
	}
	for _, v := range vars {
		x = Pinned(r, v, q.GenInst(r, dim), x)
	}
	return x
}

// Pinned declares a variable and gives it a value.
func Pinned(r *rt.Rand, v string, val []int, x *q.Q) *q.Q {
	if r.P(50) {
		return q.With(v, q.And(x, q.Pin(v, val)))
	}
	return q.With(v, q.And(q.Pin(v, val), x))
}

// bushy makes a tree of hundreds of nodes and a small query about it.
func bushy(r *rt.Rand, c *Case, quant bool) *q.Q {
	if r.P(8) {
		genTree(r, c, 13+r.N(4), 1001+2*r.N(1500))
	} else {
		genTree(r, c, 8+r.N(4), 131+2*r.N(pick(r, 20, 250)))
	}
	o := q.NewOpts(r, c.Tree)
	o.Ops = []string{"isnode", "isnode", "allcomp", "sub", "cons", "full"}
	if r.P(20) {
		o.Ops = []string{"isnode", "dfs", "sub"}
	}
	o.Depth = r.N(2)
	o.Quant, o.QBias = 0, 0
	if quant {
		// Only what is cheap at every node.
		o.Quant, o.QBias = 1, 60
		o.Ops = []string{"sub", "cons", "full"}
	}
	return q.GenPinned(r, o, 1)
}

// deepQ makes a query of many levels.
func deepQ(r *rt.Rand, c *Case, n int) *q.Q {
	o := q.NewOpts(r, c.Tree)
	o.Depth, o.Quant = 0, 0
	nv := 1 + r.N(2)
	leaf := q.Atom(r, o, o.Vars[:nv]...)
	quant := 0
	for i := 0; i < n; i++ {
		lit := q.Atom(r, o, o.Vars[:nv]...)
		if r.P(40) {
			lit = q.Not(lit)
		}
		switch k := r.N(100); {
		case k < 35:
			leaf = q.Not(leaf)
		case k < 60:
			leaf = q.And(leaf, q.Or(lit, q.Not(lit)))
			if r.P(40) {
				leaf.Sub[1] = lit
			}
		case k < 90:
			leaf = q.Or(lit, leaf)
		case quant < 1 && i > n-6:
			quant++
			leaf = q.ForAll(o.Bounds[quant], leaf)
		default:
			leaf = q.Not(q.Not(leaf))
		}
	}
	return q.PinAll(r, o, o.Vars[:nv], leaf)
}

// many makes a query with many variables.
func many(r *rt.Rand, c *Case) *q.Q {
	genTree(r, c, 2+r.N(4), 1+2*r.N(6))
	o := q.NewOpts(r, c.Tree)
	stem := pick(r, "x", "v", "1", "")
	n := 8 + r.N(10)
	o.Vars = nil
	for _, i := range r.Perm(n) {
		o.Vars = append(o.Vars, fmt.Sprint(stem, i))
	}
	o.Depth = 3 + r.N(2)
	o.Quant = r.N(2)
	return q.GenPinned(r, o, n)
}

func evalPinned(ref *q.Ref, x *q.Q) bool {
	e := q.NewEnv()
	e.Fixed = q.Pins(x)
	return ref.Eval(x, e)
}

// large makes a small query about instances of many features. The formulas that
// count grow with the square of the features (and beyond): those stay smaller,
// so that an implementation that takes quadratic time in the formula is still
// fast enough.
func large(r *rt.Rand, c *Case, nodes int) *q.Q {
	ops := []string{q.AllAtoms[r.N(len(q.AllAtoms))], q.AllAtoms[r.N(len(q.AllAtoms))], q.AllAtoms[r.N(len(q.AllAtoms))]}
	dim := 30 + r.N(130)
	depth, vars := r.N(2), 2
	for i, k := range ops {
		switch k {
		case "lel":
			dim, depth = 25+r.N(20), 0
			ops[i] = k
		case "leh", "hepr":
			if r.P(50) {
				ops[i] = "sub"
				continue
			}
			dim, depth, vars = 20+r.N(20), 0, 1
		}
	}
	genTree(r, c, dim, 5+2*r.N(nodes))
	o := &q.Opts{Dim: dim, Tree: c.Tree, Vars: q.NewOpts(r, c.Tree).Vars, Bounds: []string{"u", "v"}, Depth: depth, Ops: ops, PathC: q.NewRef(c.Tree, 0).NodePaths(), MaxVars: vars}
	return q.GenPinned(r, o, 1+r.N(vars))
}

// ------------------------------------------------------------------------ A02

func genA02(r *rt.Rand, c *Case) {
	genEnv(r, c)
	if r.P(50) {
		c.Solver.Guide = "random"
	}
	genTree(r, c, genDim(r), 3+2*r.N(6))
	o := q.NewOpts(r, c.Tree)
	o.MaxVars = 1 + r.N(3)
	if c.Tree.Dim > 2 && o.MaxVars > 2 {
		o.MaxVars = 2
	}
	c.Family = "witness"
	var ops []Op
	add := func(x *q.Q, ctx int) {
		ops = append(ops, op("step", x, ctx, ctx))
		vs := x.Vars()
		if len(vs) == 0 {
			return
		}
		var all []string
		for _, i := range r.Perm(len(vs)) {
			all = append(all, vs[i])
		}
		ops = append(ops, Op{K: "values", Vars: all, Ctx: ctx, Sol: ctx})
		if r.P(40) {
			ops = append(ops, Op{K: "values", Vars: append(all[:1:1], all...), Ctx: ctx, Sol: ctx})
		}
		if r.P(15) {
			ops = append(ops, checkOp(r, x.Given(), all, ctx, ctx+20))
		}
	}
	for i := 0; i < 3; i++ {
		var x *q.Q
		if r.P(25) {
			x = point(r, c.Tree, o.Vars, r.N(2))
		} else {
			x = decided(r, o, r.P(92))
		}
		add(x, i)
		if r.P(20) {
			// Once more, for whatever the solver settles on this time.
			c.Solver.PerCall = true
			add(x, i)
		}
	}
	if r.P(12) {
		// Wider instances: the value has to be recognised among many variables.
		c.Family = "wide"
		ops = nil
		genTree(r, c, 6+r.N(8), 5+2*r.N(12))
		o = q.NewOpts(r, c.Tree)
		for i := 0; i < 2; i++ {
			add(point(r, c.Tree, o.Vars, r.N(2)), i)
		}
	}
	if r.P(2) {
		c.Family = "very-wide"
		ops = nil
		genTree(r, c, pick(r, 20, 60, 62, 64, 100, 127, 200, 255)+r.N(6), 1+2*r.N(10))
		o = q.NewOpts(r, c.Tree)
		for i, n := 0, 0; i < 12 && n < 2; i++ {
			o.Depth, o.Quant = r.N(2), r.N(2)
			x := q.GenPinned(r, o, 1+r.N(2))
			v := false
			if x.Cost(c.Tree) <= q.MaxCost && q.Try(func() { v = evalPinned(q.NewRef(c.Tree, refBudget), x) }) && v {
				add(x, n)
				n++
			}
		}
		if len(ops) == 0 {
			add(q.PinAll(r, o, o.Vars[:1], q.P("sub", q.V(o.Vars[0]), q.V(o.Vars[0]))), 0)
		}
	}
	if r.P(1) {
		c.Family = "large"
		ops = nil
		add(large(r, c, 12), 0)
	}
	if r.P(2) {
		c.Family = "numbers"
		for i := range ops {
			if ops[i].K == "step" && r.P(60) {
				ops[i].Q = taking(r, ops[i].Q, 4)
			}
		}
	}
	switch {
	case r.P(25):
		c.Family = "torn"
		n := 0
		for i := range ops {
			if ops[i].K == "step" {
				n++
			}
		}
		c.Faults = append(c.Faults, rt.Fault{Op: "exec", Nth: 1 + r.N(n), Kind: pick(r, "noout", "empty", "tornbyte", "tornbyte", "tornbyte", "tornline", "tornline", "gap", "gap", "gap", "readerr"), Arg: r.N(100000), Sticky: r.P(20)})
	case r.P(15):
		c.Family = "undetermined"
		i := r.N(len(ops))
		x := Op{K: "values", Vars: []string{"undeclared"}, Ctx: ops[i].Ctx, Sol: ops[i].Sol}
		if r.P(40) {
			// Before any step.
			x.Sol = 7
		}
		ops = append(ops[:i+1:i+1], append([]Op{x}, ops[i+1:]...)...)
	}
	one(c, ops...)
}

// ------------------------------------------------------------------------ A03

func forceQuant(r *rt.Rand, o *q.Opts) {
	o.Quant = 1 + r.N(3)
	o.QBias = 35 + r.N(35)
	o.Depth = 2 + r.N(3)
	o.Shadow = r.P(50)
	if o.MaxVars > 2 {
		o.MaxVars = 2
	}
}

func genA03(r *rt.Rand, c *Case) {
	genEnv(r, c)
	dim := 1 + r.N(3)
	genTree(r, c, dim, 3+2*r.N(5))
	o := q.NewOpts(r, c.Tree)
	forceQuant(r, o)
	paths := o.PathC
	var ops []Op
	if r.P(1) {
		c.Family = "bushy"
		x := bushy(r, c, true)
		if r.P(50) {
			// Which nodes there are, without variables.
			paths := q.NewRef(c.Tree, 0).NodePaths()
			u := q.NewOpts(r, c.Tree).Bounds[0]
			for i := 0; i < 3; i++ {
				p := q.C(append([]int{}, paths[r.N(len(paths))]...))
				if r.P(25) {
					p = q.C(q.Near(r, p.C))
				}
				x = q.ForAll(u, q.Not(q.And(q.P("sub", q.B(u), p), q.P("sub", p, q.B(u)))))
				if r.P(30) {
					x = q.Not(x)
				}
				addPinned(r, c, &ops, x)
			}
			one(c, ops...)
			return
		}
		if !x.Has("forall") {
			x = q.ForAll("b", x)
		}
		addPinned(r, c, &ops, x)
		one(c, ops...)
		return
	}
	if r.P(2) {
		c.Family = "nest"
		for i := 0; i < 2; i++ {
			addPinned(r, c, &ops, nest(r, c))
		}
		one(c, ops...)
		return
	}
	c.Family = "quantified"
	lit := func(a, b q.Arg) *q.Q {
		x := q.P(pick(r, "sub", "lel", "cons", "sub"), a, b)
		if r.P(50) {
			x = q.P(x.Op, b, a)
		}
		if r.P(30) {
			x = q.Not(x)
		}
		return x
	}
	eq := func(a, b q.Arg) *q.Q { return q.And(q.P("sub", a, b), q.P("sub", b, a)) }
	tmpl := func() *q.Q {
		u, w := o.Bounds[0], o.Bounds[1]
		x, y, z := o.Vars[0], o.Vars[1], o.Vars[2]
		cst := func() q.Arg {
			p := paths[r.N(len(paths))]
			if r.P(40) {
				p = q.Near(r, p)
			}
			return q.C(append([]int{}, p...))
		}
		switch r.N(9) {
		case 0: // x is (not) among the nodes
			n := q.ForAll(u, q.Not(eq(q.V(x), q.B(u))))
			if r.P(50) {
				n = q.Not(n)
			}
			return q.With(x, q.And(q.And(q.P("sub", q.V(x), cst()), lit(q.V(x), cst())), n))
		case 1: // exactly this set of nodes
			var b *q.Q
			for _, p := range paths {
				e := eq(q.B(u), q.C(append([]int{}, p...)))
				if b == nil {
					b = e
				} else {
					b = q.Or(b, e)
				}
			}
			if r.P(60) { // all but one
				b = nil
				skip := r.N(len(paths))
				for i, p := range paths {
					if i == skip {
						continue
					}
					e := eq(q.B(u), q.C(append([]int{}, p...)))
					if b == nil {
						b = e
					} else {
						b = q.Or(b, e)
					}
				}
				if b == nil {
					b = q.P("full", q.B(u))
				}
			}
			return q.ForAll(u, b)
		case 2: // own witness per node
			return q.ForAll(u, q.With(y, q.And(eq(q.V(y), q.B(u)), lit(q.V(y), cst()))))
		case 3: // own witness per pair of nodes
			in := q.And(eq(q.V(y), q.B(u)), eq(q.V(z), q.B(w)))
			return q.ForAll(u, q.ForAll(w, q.With(y, q.With(z, q.And(in, q.Or(lit(q.V(y), q.V(z)), lit(q.V(z), cst())))))))
		case 4: // one value outside, own witnesses inside
			return q.With(x, q.ForAll(u, q.With(y, q.And(q.P("sub", q.V(x), q.V(y)), q.And(q.P("sub", q.B(u), q.V(y)), lit(q.V(x), q.B(u)))))))
		case 5: // shadowing
			return q.ForAll(u, q.And(q.Or(lit(q.B(u), cst()), q.ForAll(u, lit(q.B(u), cst()))), q.Or(lit(q.B(u), cst()), lit(q.B(u), cst()))))
		case 6: // witness of the outer iteration used in the inner
			return q.ForAll(u, q.With(y, q.And(eq(q.V(y), q.B(u)), q.ForAll(w, q.Or(q.P("lel", q.V(y), q.B(w)), lit(q.V(y), q.B(w)))))))
		case 7: // quantifiers below a negation
			return q.Not(q.ForAll(u, q.Or(lit(q.B(u), cst()), q.ForAll(w, lit(q.B(u), q.B(w))))))
		default: // two quantifiers side by side
			return q.With(x, q.And(q.ForAll(u, q.Or(lit(q.V(x), q.B(u)), q.P("full", q.B(u)))), q.ForAll(pick(r, u, w), lit(q.V(x), cst()))))
		}
	}
	for i := 0; i < 4; i++ {
		var x *q.Q
		if r.P(50) {
			x = tmpl()
			ref := q.NewRef(c.Tree, refBudget)
			if !q.Try(func() { ref.Eval(x, q.NewEnv()) }) {
				x = nil
			}
		}
		for t := 0; x == nil; t++ {
			y := decided(r, o, r.P(55))
			if y.Has("forall") || t > 5 {
				x = y
			}
		}
		ops = append(ops, op("step", x, i, 0))
		if vs := x.Vars(); len(vs) > 0 && r.P(50) {
			ops = append(ops, Op{K: "values", Vars: vs, Ctx: i, Sol: 0})
		}
	}
	one(c, ops...)
}

// ------------------------------------------------------------------- A04, A05

// satSet lists the instances with the property, or nil,false when too big.
func satSet(t *q.Tree, f *q.Q, v string, budget int) (set [][]int, ok bool) {
	ok = q.Try(func() {
		ref := q.NewRef(t, budget)
		for _, x := range ref.Insts() {
			e := q.NewEnv()
			e.Vars[v] = x
			if ref.Eval(f, e) {
				set = append(set, x)
			}
		}
	})
	return
}

func genOptimTask(r *rt.Rand, t *q.Tree, o *q.Opts) *Optim {
	v := o.Vars[0]
	names := append([]string{v, v}, o.Bounds[:2]...)
	names = append(names, o.Vars[1])
	ord := q.GenOrder(r, t.Dim, names...)
	want := !r.P(12)
	var keep *Optim
	p := *o
	p.Vars = o.Vars[1:]
	p.MaxVars = r.N(2)
	if p.Quant > 1 {
		p.Quant = 1
	}
	if t.Dim > 3 {
		p.MaxVars = 0
	}
	for i := 0; i < 8; i++ {
		var f *q.Q
		switch {
		case r.P(6):
			f = q.P("sub", q.V(v), q.V(v))
		case r.P(8):
			f = &q.Q{Op: "allcomp", Args: []q.Arg{q.V(v)}, Leaf: r.P(50), Reach: p.Reach}
			if r.P(60) {
				f = q.And(f, q.P("sub", q.V(v), q.C(fullInst(r, t.Dim))))
			}
		default:
			f = q.Gen(r, &p, v)
		}
		// Two sub-queries may not declare the same name at different places.
		set, ok := satSet(t, f, v, refBudget/2)
		if !ok {
			continue
		}
		keep = &Optim{F: f, Var: v, Order: ord}
		if (len(set) > 0) == want && (len(set) != 1 || r.P(30)) {
			break
		}
	}
	if keep == nil {
		keep = &Optim{F: q.P("sub", q.V(v), q.C(fullInst(r, t.Dim))), Var: v, Order: ord}
	}
	return keep
}

func fullInst(r *rt.Rand, dim int) []int {
	x := make([]int, dim)
	for i := range x {
		x[i] = 1 + r.N(2)
	}
	return x
}

func genOptim(r *rt.Rand, c *Case) {
	genEnv(r, c)
	c.Solver.Guide = pick(r, "", "least", "least", "random")
	if r.P(1) {
		genChain(r, c)
		return
	}
	c.Family = "optimum"
	dim := genDim(r)
	if r.P(6) {
		dim = 5
	}
	genTree(r, c, dim, 3+2*r.N(6))
	o := q.NewOpts(r, c.Tree)
	t := genOptimTask(r, c.Tree, o)
	var ops []Op
	if c.Prop == "A05" && r.P(30) {
		// Single evaluations make exactly one run.
		if r.P(25) {
			// Also one that fails.
			c.Faults = append(c.Faults, rt.Fault{Op: "exec", Nth: 1 + r.N(2), Kind: pick(r, "exit", "kill", "unknown", "noout", "readerr", "exit-silent"), Arg: 1})
		}
		ops = append(ops, op("step", decided(r, o, r.P(50)), 1, 1))
		ops = append(ops, Op{K: "comb", C: &Comb{Op: pick(r, "atom", "natom"), Q: decided(r, o, r.P(50))}, Ctx: 2, Sol: 1})
	}
	if r.P(45) {
		c.Family = "used-context"
		switch r.N(5) {
		case 0:
			ops = append(ops, op("encode", q.With(t.Var, t.F), 0, 0))
		case 1:
			ops = append(ops, op("step", q.With(t.Var, t.F), 0, 0))
		case 2:
			ops = append(ops, Op{K: "optim", O: t})
		case 3:
			u := *t
			u.Order = q.GenOrder(r, dim)
			ops = append(ops, Op{K: "optim", O: &u})
		case 4:
			ops = append(ops, op("step", q.With(t.Var, q.Not(t.Order.Q(q.V(t.Var), q.C(q.GenInst(r, dim))))), 0, 0))
			if r.P(40) {
				ops = append(ops, Op{K: "reset"})
			}
		}
	}
	ops = append(ops, Op{K: "optim", O: t})
	if c.Prop == "A04" && r.P(20) {
		// The instance reported can be used like any other constant.
		ops = append(ops, checkOp(r, t.F.GivenVar(t.Var), []string{t.Var}, 0, 0))
	}
	if r.P(30) {
		u := genOptimTask(r, c.Tree, o)
		ops = append(ops, Op{K: "optim", O: u, Ctx: r.N(2) * 3, Sol: r.N(2)})
	}
	one(c, ops...)
}

// genChain makes an optimisation of hundreds of steps.
func genChain(r *rt.Rand, c *Case) {
	c.Family = "chain"
	c.Solver.Guide = pick(r, "least", "least", "least", "random")
	dim := 5
	switch k := r.N(100); {
	case k < 4:
		dim = 7
	case k < 25:
		dim = 6
	}
	genTree(r, c, dim, 3+2*r.N(4))
	o := q.NewOpts(r, c.Tree)
	v := o.Vars[0]
	f := q.P("sub", q.V(v), q.V(v))
	if r.P(40) {
		f = q.Not(q.P("sub", q.V(v), q.C(q.GenInst(r, dim))))
	}
	ord := q.GenOrder(r, dim)
	ord.Kind = "lex"
	one(c, Op{K: "optim", O: &Optim{F: f, Var: v, Order: ord}})
}

// checkOp evaluates a query about values that were handed out.
func checkOp(r *rt.Rand, x *q.Q, vars []string, ctx, sol int) Op {
	if n := vars[r.N(len(vars))]; r.P(60) && !x.Named(n) {
		x = q.ForAll(n, x)
	}
	if r.P(50) {
		ctx += 10
	}
	return Op{K: "check", Q: x, Vars: vars, Ctx: ctx, Sol: sol}
}

// ------------------------------------------------------------------------ A06

func genComb(r *rt.Rand, o *q.Opts, depth int, n *int) *Comb {
	if depth == 0 || r.P(35) {
		*n++
		return &Comb{Op: pick(r, "atom", "natom"), Q: decided(r, o, r.P(50))}
	}
	c := &Comb{Op: pick(r, "and", "or")}
	k := 1 + r.N(4)
	if r.P(4) {
		k = 0
	}
	for i := 0; i < k && *n < 9; i++ {
		c.Sub = append(c.Sub, genComb(r, o, depth-1, n))
	}
	return c
}

// bigComb has many parts, or many levels, in which the end often decides.
func bigComb(r *rt.Rand, o *q.Opts) *Comb {
	atom := func(v bool) *Comb {
		if r.P(30) {
			return &Comb{Op: "natom", Q: decided(r, o, !v)}
		}
		return &Comb{Op: "atom", Q: decided(r, o, v)}
	}
	yes, no := []*Comb{atom(true), atom(true)}, []*Comb{atom(false), atom(false)}
	one := func(v bool) *Comb {
		x := *pick(r, no...)
		if v {
			x = *pick(r, yes...)
		}
		return &x
	}
	if r.P(50) {
		c := &Comb{Op: pick(r, "and", "or")}
		k := 20 + r.N(pick(r, 20, 60, 280))
		for i := 0; i < k; i++ {
			c.Sub = append(c.Sub, one((c.Op == "and") != (i == k-1 && r.P(70))))
		}
		return c
	}
	c := one(r.P(50))
	for i := 10 + r.N(60); i > 0; i-- {
		n := &Comb{Op: pick(r, "and", "or")}
		if r.P(80) {
			n.Sub = append(n.Sub, one(n.Op == "and"))
		}
		n.Sub = append(n.Sub, c)
		if r.P(20) {
			n.Sub = append(n.Sub, one(r.P(50)))
		}
		c = n
	}
	return c
}

func genA06(r *rt.Rand, c *Case) {
	genEnv(r, c)
	c.Family = "clean"
	genTree(r, c, 1+r.N(3), 1+2*r.N(4))
	o := q.NewOpts(r, c.Tree)
	o.Depth = 1 + r.N(2)
	o.MaxVars = 1
	var ops []Op
	n := 0
	for i := 0; i < 2; i++ {
		n = 0
		ops = append(ops, Op{K: "comb", C: genComb(r, o, 1+r.N(3), &n), Ctx: i * r.N(2), Sol: i * r.N(2)})
	}
	if r.N(1000) < 8 {
		ops = []Op{{K: "comb", C: bigComb(r, o)}}
	}
	one(c, ops...)
	c.ErrVal = r.P(40)
	if r.P(70) {
		c.Family = "faults"
		placeFaults(r, c, append(append([]string{}, execKinds...), "createtemp", "open", "write", "close"), 1+r.N(3))
	}
}

// ------------------------------------------------------------------- B family

// sized makes, rarely, the only operations of the case be about a large formula or about
// large numbers.
func sized(r *rt.Rand, c *Case, extra ...string) bool {
	if r.N(1000) >= 4 {
		return false
	}
	var ops []Op
	x := (*q.Q)(nil)
	if r.P(60) {
		c.Family += "-large"
		x = large(r, c, 12)
	} else {
		c.Family += "-numbers"
		o := q.NewOpts(r, c.Tree)
		x = taking(r, decided(r, o, true), 4)
	}
	for i := 0; i < 1+r.N(2); i++ {
		ops = append(ops, Op{K: pick(r, append(extra, "step", "step", "step")...), Q: x, Ctx: i, Sol: i * r.N(2)})
		if vs := x.Vars(); len(vs) > 0 && ops[len(ops)-1].K == "step" {
			ops = append(ops, Op{K: "values", Vars: vs, Ctx: i, Sol: ops[len(ops)-1].Sol})
		}
	}
	one(c, ops...)
	return true
}

var execKinds = []string{"exec", "exec", "exec"}

// exitCode draws a status that means neither satisfiable nor unsatisfiable.
func exitCode(r *rt.Rand) int {
	if r.P(25) {
		// The two that do, with other bits set.
		return pick(r, 10, 20) | pick(r, 32, 64, 128, 160, 224)
	}
	for {
		if n := r.N(256); n != 10 && n != 20 {
			return n
		}
	}
}

// faultFor draws how an operation fails.
func faultFor(r *rt.Rand, op string) (kind string, arg int) {
	switch op {
	case "exec":
		switch k := r.N(100); {
		case k < 22:
			return "start-" + pick(r, "eacces", "enoent", "eagain", "enomem", "etxtbsy", "emfile"), 0
		case k < 45:
			return "kill", r.N(10010)
		case k < 65:
			if r.P(50) {
				return "exit", exitCode(r)
			}
			return "exit", pick(r, 0, 1, 2, 3, 9, 11, 21, 30, 110, 120, 126, 127, 128, 137, 139, 255)
		case k < 75:
			if r.P(50) {
				return "exit-silent", exitCode(r)
			}
			return "exit-silent", pick(r, 0, 1, 2, 11, 19, 30, 127, 134, 255)
		case k < 84:
			switch r.N(4) {
			case 0:
				return "unknown", 0
			case 1:
				return "unknown", -pick(r, 9, 15, 11, 6, 24, 2) - pick(r, 0, 256)
			case 2:
				return "unknown", exitCode(r)
			}
			return "unknown", 256 + exitCode(r)
		case k < 90:
			return "slow", pick(r, 5, 90, 4000, 90000, 8000000)
		default:
			return "readerr", r.N(1000)
		}
	case "write":
		return pick(r, "enospc", "enospc", "eio", "edquot"), r.N(1000)
	case "close":
		return pick(r, "enospc", "eio", "edquot"), r.N(1000)
	case "createtemp":
		return pick(r, "enospc", "emfile", "eacces", "enoent", "erofs"), 0
	case "open":
		return pick(r, "enospc", "emfile", "eacces", "eio"), 0
	case "remove":
		return pick(r, "ebusy", "eio", "eacces"), 0
	case "vanish":
		return "vanish", 0
	}
	return "eio", 0
}

// placeFaults executes the case without faults and puts n faults at operations that
// really happen, so that they hit work in progress.
func placeFaults(r *rt.Rand, c *Case, ops []string, n int) {
	clean := c.Clone()
	clean.Faults, clean.Crashes = nil, nil
	clean.Plan = rt.Plan{}
	o := Exec(clean)
	for i := 0; i < n; i++ {
		cl := r.N(len(c.Clients))
		name := ops[r.N(len(ops))]
		kind, arg := faultFor(r, name)
		count := name
		if name == "vanish" {
			count = "exec"
			name = "exec"
		}
		k := o.Envs[cl].Count[count]
		if k == 0 {
			continue
		}
		nth := 1 + r.N(k)
		if r.P(20) {
			nth = 1
		} else if r.P(15) {
			nth = k
		}
		c.Faults = append(c.Faults, rt.Fault{Client: cl, Op: name, Nth: nth, Kind: kind, Arg: arg, Sticky: r.P(10)})
	}
}

type wl struct {
	r *rt.Rand
	c *Case
	o *q.Opts
	// ctx and solver in use
	ctx, sol int
	wide     bool // many features: no reference is affordable
}

// base makes a query for something to be wrong with.
func (w *wl) base() *q.Q {
	if !w.wide {
		return decided(w.r, w.o, w.r.P(60))
	}
	r, o := w.r, w.o
	x := q.Atom(r, o)
	if r.P(50) {
		x = q.With("x", q.And(q.Pin("x", q.GenInst(r, o.Dim)), q.Atom(r, o, "x")))
	}
	if r.P(50) {
		x = q.And(x, q.Not(q.Atom(r, o)))
	}
	return x
}

func newWL(r *rt.Rand, c *Case) *wl {
	genTree(r, c, 1+r.N(3), 1+2*r.N(5))
	o := q.NewOpts(r, c.Tree)
	o.Depth = 1 + r.N(3)
	if o.MaxVars > 2 {
		o.MaxVars = 2
	}
	if o.Quant > 1 && r.P(60) {
		o.Quant = 1
	}
	return &wl{r: r, c: c, o: o}
}

func (w *wl) step() []Op {
	x := decided(w.r, w.o, w.r.P(70))
	ops := []Op{op("step", x, w.ctx, w.sol)}
	if vs := x.Vars(); len(vs) > 0 && w.r.P(65) {
		ops = append(ops, Op{K: "values", Vars: vs, Ctx: w.ctx, Sol: w.sol})
	}
	return ops
}

func (w *wl) any(kinds ...string) []Op {
	switch k := pick(w.r, kinds...); k {
	case "step":
		return w.step()
	case "optim":
		return []Op{{K: "optim", O: genOptimTask(w.r, w.c.Tree, w.o), Ctx: w.ctx, Sol: w.sol}}
	case "comb":
		n := 5
		return []Op{{K: "comb", C: genComb(w.r, w.o, 1+w.r.N(2), &n), Ctx: w.ctx, Sol: w.sol}}
	case "tofile":
		return []Op{{K: "tofile", Q: decided(w.r, w.o, w.r.P(50)), Path: pick(w.r, "/tmp/out.cnf", "/work/f.cnf", "/work/old.cnf"), Ctx: w.ctx, Sol: w.sol}}
	case "encode":
		return []Op{op("encode", decided(w.r, w.o, w.r.P(50)), w.ctx, w.sol)}
	case "reset":
		return []Op{{K: "reset", Ctx: w.ctx, Sol: w.sol}}
	default:
		panic(k)
	}
}

func genB01(r *rt.Rand, c *Case) {
	genEnv(r, c)
	c.Family = "solver-fault"
	w := newWL(r, c)
	if r.P(30) {
		c.Solver.Guide = pick(r, "least", "random")
	}
	var ops []Op
	for i := 0; i < 1+r.N(3); i++ {
		w.ctx, w.sol = i*r.N(2), r.N(2)
		ops = append(ops, w.any("step", "step", "optim", "optim", "comb")...)
	}
	if !sized(r, c) {
		one(c, ops...)
	}
	placeFaults(r, c, execKinds, 1+r.N(2))
}

func genB02(r *rt.Rand, c *Case) {
	genEnv(r, c)
	c.Family = "storage-fault"
	w := newWL(r, c)
	if r.P(30) {
		c.Solver.Guide = pick(r, "least", "random")
	}
	var ops []Op
	for i := 0; i < 1+r.N(3); i++ {
		w.ctx, w.sol = i*r.N(2), r.N(2)
		ops = append(ops, w.any("step", "step", "optim", "optim", "comb", "tofile")...)
	}
	if !sized(r, c, "tofile") {
		one(c, ops...)
	}
	placeFaults(r, c, []string{"createtemp", "open", "write", "write", "write", "close", "close", "close-clean", "vanish", "remove"}, 1+r.N(2))
}

// genB03 makes histories in which operations fail in every possible way, followed by
// operations that must work.
func genB03(r *rt.Rand, c *Case) {
	genEnv(r, c)
	c.Family = "recovery"
	c.Solver.PerCall = false
	w := newWL(r, c)
	var ops []Op
	if r.P(70) {
		ops = append(ops, w.step()...)
	}
	nfail := 1 + r.N(3)
	if r.P(2) {
		c.Family = "long-recovery"
		nfail = 8 + r.N(30)
	}
	for i := 0; i < nfail; i++ {
		switch k := r.N(10); {
		case k < 5: // fails by a fault, placed below
			ops = append(ops, w.any("step", "step", "optim", "comb")...)
		default: // fails by itself
			x := decided(r, w.o, true)
			bad := pick(r, "error", "panic", "error")
			ops = append(ops, Op{K: pick(r, "step", "step", "encode", "comb", "optim"), Q: insertCustom(r, x), Bad: bad, At: 1 + r.N(3), Ctx: 0, Sol: 0})
			l := &ops[len(ops)-1]
			switch l.K {
			case "comb":
				n := 7
				l.C = genComb(r, w.o, 1, &n)
				replaceAtom(l.C, l.Q)
				l.Q = nil
			case "optim":
				t := genOptimTask(r, c.Tree, w.o)
				t.F = q.And(insertCustomIn(r, t.F), q.P("sub", q.V(t.Var), q.V(t.Var)))
				l.O = t
				l.Q = nil
			}
		}
		if r.P(30) {
			// The values of the last success are still there.
			if vs := lastVars(c, ops); vs != nil {
				ops = append(ops, Op{K: "values", Vars: vs})
			}
		}
	}
	k := len(ops)
	one(c, ops...)
	placeFaults(r, c, []string{"exec", "exec", "createtemp", "open", "write", "close", "remove", "vanish"}, 1+r.N(2)+nfail/6)
	ops = append(ops, Op{K: "heal"})
	if vs := lastVars(c, ops); vs != nil && r.P(50) {
		ops = append(ops, Op{K: "values", Vars: vs})
	}
	if r.P(15) {
		ops = append(ops, Op{K: "reset"})
	}
	if r.P(55) { // the same again
		x := q.Clone(ops[r.N(k)])
		if x.K != "values" {
			x.Bad = ""
			x.At = 0
			ops = append(ops, x)
			if vs := lastVars(c, ops); x.K == "step" && vs != nil {
				ops = append(ops, Op{K: "values", Vars: vs})
			}
		}
	}
	ops = append(ops, w.any("step", "step", "optim", "comb")...)
	if r.P(40) {
		ops = append(ops, w.step()...)
	}
	one(c, ops...)
}

func lastVars(c *Case, ops []Op) []string {
	for i := len(ops) - 1; i >= 0; i-- {
		if ops[i].K == "step" && ops[i].Bad == "" && flawOf(c, &ops[i], ops[i].Q) == "" {
			if vs := ops[i].Q.Vars(); len(vs) > 0 {
				return vs
			}
		}
	}
	return nil
}

func replaceAtom(c *Comb, x *q.Q) bool {
	if c.Op == "atom" || c.Op == "natom" {
		c.Q = x
		return true
	}
	for _, s := range c.Sub {
		if replaceAtom(s, x) {
			return true
		}
	}
	c.Sub = append(c.Sub, &Comb{Op: "atom", Q: x})
	return true
}

// insertCustom puts a caller-written sub-query, true unless it misbehaves, somewhere.
func insertCustom(r *rt.Rand, x *q.Q) *q.Q { return insertCustomIn(r, q.Clone(x)) }

func insertCustomIn(r *rt.Rand, x *q.Q) *q.Q {
	x = q.Clone(x)
	var all []*q.Q
	var rec func(y *q.Q)
	rec = func(y *q.Q) {
		all = append(all, y)
		for _, s := range y.Sub {
			rec(s)
		}
	}
	rec(x)
	// Prefer places inside quantifiers.
	var in []*q.Q
	var rec2 func(y *q.Q, inside bool)
	rec2 = func(y *q.Q, inside bool) {
		if inside {
			in = append(in, y)
		}
		for _, s := range y.Sub {
			rec2(s, inside || y.Op == "forall")
		}
	}
	rec2(x, false)
	if len(in) > 0 && r.P(70) {
		all = in
	}
	y := all[r.N(len(all))]
	old := *y
	cu := &q.Q{Op: "custom", Name: "caller"}
	if r.P(50) {
		*y = q.Q{Op: "and", Sub: []*q.Q{&old, cu}}
	} else {
		*y = q.Q{Op: "and", Sub: []*q.Q{cu, &old}}
	}
	return x
}

func genB04(r *rt.Rand, c *Case) {
	genEnv(r, c)
	c.Family = "cleanup"
	c.Pre = r.N(4)
	if r.P(1) {
		c.Pre = pick(r, 20, 70, 150, 400)
	}
	w := newWL(r, c)
	nc := 1
	if r.P(25) {
		nc = 2 + r.N(2)
	}
	for k := 0; k < nc; k++ {
		var ops []Op
		for i := 0; i < 1+r.N(3); i++ {
			w.ctx, w.sol = i*r.N(2), r.N(2)
			x := w.any("step", "step", "optim", "optim", "comb")
			if r.P(15) && x[0].K == "step" {
				x = x[:1]
				x[0].Q = insertCustom(r, x[0].Q)
				x[0].Bad, x[0].At = pick(r, "error", "panic"), 1+r.N(3)
			} else if r.P(15) && x[0].K == "optim" {
				x = x[:1]
				x[0].O.F = q.And(insertCustomIn(r, x[0].O.F), q.P("sub", q.V(x[0].O.Var), q.V(x[0].O.Var)))
				x[0].Bad, x[0].At = pick(r, "error", "panic"), 1+r.N(4)
			}
			ops = append(ops, x...)
		}
		c.Clients = append(c.Clients, Client{Ops: ops})
	}
	if nc > 1 {
		c.Family = "cleanup-concurrent"
		c.Plan = genPlan(r)
	}
	sized(r, c)
	if r.P(85) {
		placeFaults(r, c, []string{"exec", "exec", "createtemp", "createtemp", "open", "write", "write", "close", "close-clean", "remove", "vanish"}, 1+r.N(3))
	}
}

func genPlan(r *rt.Rand) rt.Plan {
	return rt.Plan{Seed: seed1(r), Gap: pick(r, 7, 60, 400, 3000, 20000, 100000)}
}

func genB05(r *rt.Rand, c *Case) {
	genEnv(r, c)
	c.Family = "concurrent"
	w := newWL(r, c)
	if r.P(25) {
		c.Solver.Guide = pick(r, "least", "random")
	}
	for i := 0; i < 1+r.N(3); i++ {
		c.Shared = append(c.Shared, decided(r, w.o, r.P(70)))
	}
	nc := 2 + r.N(3)
	for k := 0; k < nc; k++ {
		var ops []Op
		for i := 0; i < 1+r.N(3); i++ {
			w.ctx, w.sol = i*r.N(2), i*r.N(2)
			if r.P(60) {
				s := r.N(len(c.Shared))
				ops = append(ops, Op{K: pick(r, "step", "step", "step", "encode"), Ref: s + 1, Ctx: w.ctx, Sol: w.sol})
				if vs := c.Shared[s].Vars(); len(vs) > 0 && ops[len(ops)-1].K == "step" {
					ops = append(ops, Op{K: "values", Vars: vs, Ctx: w.ctx, Sol: w.sol})
				}
			} else {
				ops = append(ops, w.any("step", "optim", "comb", "reset")...)
			}
		}
		c.Clients = append(c.Clients, Client{Ops: ops})
	}
	c.Plan = genPlan(r)
	if r.P(35) {
		c.Family = "concurrent-faults"
		placeFaults(r, c, []string{"exec", "createtemp", "open", "write", "close", "vanish", "remove"}, 1+r.N(2))
	}
	if r.P(25) {
		c.Crashes = append(c.Crashes, Crash{Client: r.N(nc), At: uint64(1 + r.N(pick(r, 100, 3000, 40000)))})
	}
}

func genB06(r *rt.Rand, c *Case) {
	genEnv(r, c)
	c.Family = "history"
	w := newWL(r, c)
	var pool []Op
	var ops []Op
	n := 3 + r.N(5)
	if r.P(3) {
		c.Family = "long-history"
		n *= 8
	}
	for i := 0; i < n; i++ {
		if len(pool) > 0 && r.P(40) {
			x := q.Clone(pool[r.N(len(pool))])
			if r.P(30) && x.K == "step" {
				// A different query about the same variables.
				if r.P(50) && x.Q.Op == "with" {
					x.Q.Sub[0] = q.And(x.Q.Sub[0], q.Not(x.Q.Sub[0].Sub0()))
				} else {
					x.Q = stripNeg(x.Q)
				}
			}
			ops = append(ops, x)
			if x.K == "step" {
				if vs := x.Q.Vars(); len(vs) > 0 {
					ops = append(ops, Op{K: "values", Vars: vs})
				}
			}
			continue
		}
		x := w.any("step", "step", "step", "optim", "comb", "encode", "reset")
		if x[0].K != "reset" {
			pool = append(pool, x[0])
		}
		ops = append(ops, x...)
	}
	one(c, ops...)
}

// stripNeg removes the outermost negation below the declarations, if there is one.
func stripNeg(x *q.Q) *q.Q {
	y := q.Clone(x)
	var rec func(z *q.Q) bool
	rec = func(z *q.Q) bool {
		if z.Op == "not" && !z.Sub[0].Has("with") {
			*z = *z.Sub[0]
			return true
		}
		for _, s := range z.Sub {
			if rec(s) {
				return true
			}
		}
		return false
	}
	rec(y)
	return y
}

// ------------------------------------------------------------------- B07, B08

func genClauses(r *rt.Rand, nv int) [][]int {
	n := r.N(4)
	if r.P(70) && n == 0 {
		n = 1
	}
	var out [][]int
	for i := 0; i < n; i++ {
		if len(out) > 0 && r.P(20) && len(out[len(out)-1]) > 1 {
			p := out[len(out)-1]
			out = append(out, append([]int{}, p[:1+r.N(len(p)-1)]...))
			continue
		}
		k := 1 + r.N(3)
		if r.P(3) {
			k = 0
		}
		c := []int{}
		for j := 0; j < k; j++ {
			v := 1 + r.N(nv)
			if r.P(50) {
				v = -v
			}
			c = append(c, v)
		}
		if k > 1 && r.N(1000) < 6 {
			// As long as those about all leaves, or more.
			for n := pick(r, 60, 60, 260, 260, 1100, 1100, 5000); len(c) < n; {
				c = append(c, c[r.N(len(c))]*(1-2*r.N(2)))
			}
		}
		out = append(out, c)
	}
	return out
}

func genCnfOp(r *rt.Rand, cl, nv int) CnfOp {
	o := CnfOp{Client: cl, A: r.N(1 << 16), B: r.N(1 << 16)}
	if r.P(55) {
		o.Cap = 1 + r.N(3)
	}
	switch k := r.N(100); {
	case k < 10:
		o.K = "from"
	case k < 15:
		o.K = "prefix"
	case k < 36:
		o.K = "sem"
	case k < 57:
		o.K = "cons"
	case k < 70:
		o.K = "conj"
	case k < 88:
		o.K = "neg"
		if r.P(30) {
			o.Top = 1 + r.N(20)
		}
	case k < 91:
		o.K = "bytes"
	case k < 93:
		o.K = "file"
	case k < 96:
		o.K = "reuse"
	default:
		o.K = pick(r, "true", "false")
	}
	switch o.K {
	case "from", "sem", "cons", "reuse":
		o.Cl = genClauses(r, nv)
	}
	return o
}

func genB07(r *rt.Rand, c *Case) {
	c.TempSeed = seed1(r)
	c.Family = "formulas"
	nv := 2 + r.N(4)
	setup := 2 + r.N(5)
	if r.P(50) {
		// Few formulas, extended again and again: the roomiest arrays.
		c.Cnf = append(c.Cnf, CnfOp{K: "from", Cl: genClauses(r, nv), Cap: r.N(3)})
		for i := 0; i < setup; i++ {
			o := CnfOp{K: pick(r, "sem", "cons", "cons"), A: i, Cl: genClauses(r, nv), Cap: r.N(3)}
			if r.P(20) {
				o = CnfOp{K: "neg", A: i}
			}
			c.Cnf = append(c.Cnf, o)
		}
	} else {
		for i := 0; i < setup; i++ {
			c.Cnf = append(c.Cnf, genCnfOp(r, 0, nv))
		}
	}
	c.CnfN = 1 + r.N(3)
	if c.CnfN > 1 {
		c.Family = "formulas-concurrent"
	}
	for k := 1; k <= c.CnfN; k++ {
		n := 3 + r.N(8)
		if r.P(2) {
			n *= 6
		}
		hot := r.N(1 << 16)
		for i := 0; i < n; i++ {
			o := genCnfOp(r, k, nv)
			if r.P(40) {
				o.A = hot
			}
			c.Cnf = append(c.Cnf, o)
		}
	}
	c.Plan = rt.Plan{Seed: seed1(r), Gap: pick(r, 2, 5, 15, 60)}
	switch r.N(100) {
	case 0, 1:
		// Variables with large numbers.
		k := pick(r, 9, 99, 120, 250, 9990, 32760, 65530)
		for i := range c.Cnf {
			o := &c.Cnf[i]
			for _, cl := range o.Cl {
				for j, l := range cl {
					if l > 0 {
						cl[j] = l + k
					} else {
						cl[j] = l - k
					}
				}
			}
			if o.Top > 0 {
				o.Top += k
			}
		}
	case 2:
		// Many clauses.
		for i := range c.Cnf {
			o := &c.Cnf[i]
			if o.K == "from" || r.P(5) && len(o.Cl) > 0 {
				for n := pick(r, 60, 300, 1100); len(o.Cl) < n; {
					o.Cl = append(o.Cl, genClauses(r, 4+r.N(20))...)
				}
				break
			}
		}
	}
}

// wideN draws numbers around the limits of fields of a few bits.
func wideN(r *rt.Rand) int {
	if r.P(50) {
		return r.N(4)
	}
	return pick(r, 10, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 4096, 10000, 32768, 65536, 1<<20, 1<<24, 1<<32) + r.N(4) - r.N(2)
}

func genB08(r *rt.Rand, c *Case) {
	if r.P(70) {
		c.MapSeed = seed1(r)
	}
	w := newWL(r, c)
	w.o.Quant = 1 + r.N(2)
	w.o.Shadow = r.P(50)
	nc := 1 + r.N(2)
	c.Family = pick(r, "calls", "calls", "encodings", "mixed")
	most := 4
	if c.Family == "calls" && r.P(15) {
		c.Family, most = "stacked", 6+r.N(26)
	}
	vars := append([]string{}, w.o.Vars[:3]...)
	tgts := append([]string{}, w.o.Bounds[:2]...)
	if r.P(5) {
		vars, tgts = q.SepVars[:2+r.N(4)], append([]string{}, q.SepBounds[:2+r.N(3)]...)
	}
	glue := r.P(4)
	if glue {
		// Names and indexes that spell the same when nothing keeps them apart.
		vars, tgts = []string{"n", "n1"}, []string{"n", "n1", "n11"}
	}
	if r.P(30) {
		tgts = append(tgts, vars[0])
	}
	wide := r.P(15)
	bulk := c.Family == "calls" && r.N(250) == 0
	if bulk {
		c.Family = "bulk"
	}
	for k := 0; k < nc; k++ {
		n := 10 + r.N(50)
		if c.Family == "encodings" {
			n = 2 + r.N(5)
		}
		if r.P(1) {
			n *= 6
		}
		depth := 0
		if most > 4 {
			n += most
		}
		for i := 0; i < n; i++ {
			o := ScopeOp{Client: k, V: pick(r, vars...)}
			if most > 4 && r.P(25) {
				// Up, mostly, in the first half of the history.
				if o.K = "pop"; depth < most && r.P(80) == (2*i < n) {
					o.K, o.V = "push", pick(r, tgts...)
					depth += 2
				}
				depth = max(depth-1, 0)
				c.Scope = append(c.Scope, o)
				if o.K == "push" {
					c.Scope = append(c.Scope, ScopeOp{Client: k, K: "add", V: pick(r, vars...)})
				}
				continue
			}
			enc := c.Family == "encodings" || c.Family == "mixed" && r.P(8)
			if enc {
				o.V = ""
				switch {
				case r.P(20):
					o.K = "reset"
				case r.P(25):
					o.K, o.Q = "encode", insertCustom(r, decided(r, w.o, r.P(50)))
					o.Bad, o.At = pick(r, "error", "panic"), 1+r.N(4)
				default:
					o.K, o.Q = "encode", decided(r, w.o, r.P(50))
				}
				if depth > 0 && o.K == "encode" {
					o.K, o.Q, o.Bad = "top", nil, ""
				}
				if o.K == "reset" {
					depth = 0
				}
				c.Scope = append(c.Scope, o)
				continue
			}
			if bulk && r.P(4) {
				o.K, o.I, o.N = "bulk", pick(r, 3, 40, 300), pick(r, 300, 3000, 3000, 70000)
				c.Scope = append(c.Scope, o)
				continue
			}
			switch x := r.N(100); {
			case x < 14:
				o.K = "add"
			case x < 34:
				o.K = "name"
			case x < 46:
				o.K, o.V = "push", pick(r, tgts...)
				if depth >= most {
					o.K = "pop"
					depth--
				} else {
					depth++
				}
			case x < 56:
				o.K = "pop"
				if depth > 0 {
					depth--
				}
			case x < 66:
				o.K, o.I = "set", r.N(pick(r, 3, 12, 120))
				if wide {
					o.I = max(0, min(wideN(r), 1<<30))
				}
				if glue {
					o.I = pick(r, 0, 1, 10, 11, 110, 111)
				}
				o.Val = q.GenInst(r, c.Tree.Dim)
				if r.P(8) {
					// As a quantifier over a tree of that many nodes does.
					o.K, o.I = "sweep", pick(r, 5, 20, 120, 300, 700)
					if bulk {
						o.I = pick(r, 1100, 5000, 33000, 70000)
					}
				}
			case x < 73:
				o.K, o.V = "const", pick(r, tgts...)
				o.Val = q.GenInst(r, c.Tree.Dim)
			case x < 88:
				o.K, o.I, o.N = pick(r, "num", "num", "raw"), r.N(pick(r, 2, 12)), r.N(pick(r, 3, 12))
				if wide {
					o.I, o.N = wideN(r), wideN(r)
				}
			case x < 92:
				o.K, o.I, o.N = "exists", r.N(12), r.N(12)
				if wide {
					o.I, o.N = wideN(r), wideN(r)
				}
			case x < 94:
				o.K = "top"
			case x < 97:
				o.K, o.I = "update", r.N(8)-2
				if wide {
					o.I = min(wideN(r), 1<<20)
				}
			case x < 99:
				o.K = "reset"
				depth = 0
			default:
				o.K = "name"
			}
			c.Scope = append(c.Scope, o)
		}
	}
	c.Plan = rt.Plan{Seed: seed1(r), Gap: pick(r, 3, 20, 200)}
}

// ------------------------------------------------------------------------ B09

func genB09(r *rt.Rand, c *Case) {
	genEnv(r, c)
	c.Family = "twice"
	c.Solver.PerCall = r.P(20)
	w := newWL(r, c)
	var ops []Op
	for i := 0; i < 1+r.N(3); i++ {
		w.ctx, w.sol = i*r.N(2), r.N(2)
		ops = append(ops, w.any("step", "step", "optim", "comb")...)
	}
	big := sized(r, c)
	if !big {
		one(c, ops...)
	}
	c.Alt = &AltEnv{MapSeed: seed1(r), TempSeed: seed1(r), Chunk: seed1(r), Pre: r.N(4)}
	if r.P(70) {
		c.Alt.Host = seed1(r)
	}
	if !big && r.P(60) {
		var other []Op
		w.ctx, w.sol = 0, 0
		for i := 0; i < 1+r.N(3); i++ {
			other = append(other, w.any("step", "step", "optim", "comb", "encode")...)
		}
		c.Alt.Other = &Client{Ops: other}
		c.Alt.Plan = genPlan(r)
	}
}

var _ = fmt.Sprint

// ------------------------------------------------------------------------ B10

// genB10 makes histories in which ill-formed queries, missing contexts and trees without
// nodes come between well-formed operations.
func genB10(r *rt.Rand, c *Case) {
	genEnv(r, c)
	c.Family = "ill-formed"
	c.Solver.PerCall = false
	w := newWL(r, c)
	if r.P(60) {
		w.o.Ops = q.AllAtoms
	}
	var ops []Op
	if r.P(3) {
		c.Family = "ill-formed-wide"
		w.wide = true
		genTree(r, c, 30+r.N(110), 1+2*r.N(12))
		w.o = q.NewOpts(r, c.Tree)
		w.o.Ops = []string{"sub", "cons", "full", "isnode", "allcomp", "hepr", "hepr"}
		for i := 0; i < 1+r.N(3); i++ {
			if r.P(40) {
				ops = append(ops, op("step", w.base(), 0, 0))
			}
			ops = append(ops, w.flawed())
		}
		one(c, append(ops, op("step", w.base(), 0, 0))...)
		return
	}
	if r.P(45) {
		ops = append(ops, w.any("step", "step", "encode", "optim")...)
	}
	for i := 0; i < 1+r.N(3); i++ {
		ops = append(ops, w.flawed())
		if vs := lastVars(c, ops); vs != nil && r.P(30) {
			ops = append(ops, Op{K: "values", Vars: vs, Ctx: -r.N(10) / 9})
		}
		if r.P(35) {
			ops = append(ops, w.any("step", "step", "optim", "comb")...)
		}
	}
	if r.P(15) {
		ops = append(ops, Op{K: "reset"})
	}
	if r.P(70) {
		ops = append(ops, w.any("step", "step", "optim", "comb")...)
	}
	one(c, ops...)
	if r.P(12) {
		c.Family = "ill-formed-and-faults"
		placeFaults(r, c, []string{"exec", "createtemp", "open", "write", "close"}, 1)
	}
}

// flawed makes an operation with something ill-formed about it.
func (w *wl) flawed() Op {
	r, o := w.r, w.o
	ctx := 0
	if r.P(20) {
		ctx = -1 - r.N(3)
	}
	if ctx == -3 && w.c.Dent == nil {
		w.c.Dent = dent(r, w.c.Tree)
		if w.c.Dent == nil {
			ctx = -2
		}
	}
	bad := func() *q.Q {
		x := w.base()
		if ctx == -1 && r.P(60) {
			return q.Atom(r, o, "x", "y")
		}
		if ctx < 0 && r.P(80) {
			return x
		}
		return q.WithFlaw(r, x, o)
	}
	if ctx < -1 {
		// Something about the tree.
		f := bad
		bad = func() *q.Q {
			x := f()
			v := o.Vars[0]
			a := &q.Q{Op: pick(r, "isnode", "allcomp", "dfs"), Args: []q.Arg{q.C(q.GenInst(r, o.Dim))}, Leaf: r.P(50)}
			y := a
			switch r.N(3) {
			case 0:
				a.Args[0] = q.V(v)
				y = q.With(v, a)
			case 1:
				y = q.ForAll(o.Bounds[0], q.P("full", q.B(o.Bounds[0])))
			}
			switch r.N(4) {
			case 0:
				return y
			case 1:
				return q.And(x, y)
			case 2:
				return q.Or(y, x)
			}
			return q.Not(q.And(y, x))
		}
	}
	kinds := []string{"step", "step", "step", "encode", "tofile", "comb", "comb", "optim", "optim"}
	if w.wide {
		kinds = kinds[:5]
	}
	switch k := pick(r, kinds...); k {
	case "comb":
		n := 5
		cb := genComb(r, o, 1+r.N(2), &n)
		for i := r.N(2); i >= 0; i-- {
			switch k := r.N(100); {
			case k < 4:
				replaceSome(r, cb, &q.Q{Op: "nil"})
			case k < 8 && len(cb.Sub) > 0:
				cb.Sub[r.N(len(cb.Sub))] = &Comb{Op: "nil"}
			default:
				replaceSome(r, cb, bad())
			}
		}
		return Op{K: k, C: cb, Ctx: ctx, Sol: w.sol}
	case "optim":
		t := genOptimTask(r, w.c.Tree, o)
		p := *o
		if ctx == 0 || r.P(30) {
			if r.P(40) {
				t.F = q.WithFlaw(r, t.F, &p, t.Var)
				if r.P(5) {
					t.F = &q.Q{Op: "nil"}
				}
			} else {
				bot := q.C(make([]int, o.Dim))
				if r.P(50) {
					bot = q.C(q.GenInst(r, o.Dim))
				}
				t.Spoilt = q.WithFlaw(r, t.Order.Q(q.V(t.Var), bot), &p, t.Var)
				t.SpoilAt = 1 + r.N(3)*r.N(2)
				if r.P(5) {
					t.Spoilt = &q.Q{Op: "nil"}
				}
			}
		} else if ctx < -1 {
			t.F = q.And(t.F, &q.Q{Op: pick(r, "isnode", "dfs", "allcomp"), Args: []q.Arg{q.V(t.Var)}})
		}
		return Op{K: k, O: t, Ctx: ctx, Sol: w.sol}
	default:
		x := Op{K: k, Q: bad(), Ctx: ctx, Sol: w.sol}
		if k == "step" && r.P(3) {
			x.Q = &q.Q{Op: "nil"}
		}
		if k == "tofile" {
			x.Path = pick(r, "/tmp/out.cnf", "/work/f.cnf", "/work/old.cnf")
		}
		return x
	}
}

// dent picks something to be wrong with a node.
func dent(r *rt.Rand, t *q.Tree) *q.Dent {
	var in []int
	t.Walk(-1, nil, func(i int) {
		if t.Nodes[i].Z >= 0 {
			in = append(in, i)
		}
	})
	if len(in) == 0 {
		return nil
	}
	d := &q.Dent{At: in[r.N(len(in))], What: pick(r, "feature", "feature", "zero", "one"), Val: r.N(3) * r.N(3)}
	if d.What == "feature" && r.P(40) {
		d.Val = -1 - r.N(2)
	}
	if r.P(10) {
		d.Val *= 1000
	}
	return d
}

// replaceSome puts a query at some part of a combination.
func replaceSome(r *rt.Rand, c *Comb, x *q.Q) {
	var all []*Comb
	var rec func(c *Comb)
	rec = func(c *Comb) {
		if c.Op == "atom" || c.Op == "natom" {
			all = append(all, c)
		}
		for _, s := range c.Sub {
			rec(s)
		}
	}
	rec(c)
	if len(all) == 0 {
		c.Sub = append(c.Sub, &Comb{Op: pick(r, "atom", "natom"), Q: x})
		return
	}
	all[r.N(len(all))].Q = x
}
