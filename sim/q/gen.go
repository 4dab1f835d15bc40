package q

import (
	"strings"

	"sort"
	"strconv"

	"vsim/rt"
)

// GenTree makes a decision tree without repeated features on a path, root at index 0
// and the other nodes in any order.
func GenTree(r *rt.Rand, dim, maxNodes int) *Tree {
	t := &Tree{Dim: dim}
	target := 1
	if maxNodes >= 3 && !r.P(6) {
		target = 3 + 2*r.N((maxNodes-1)/2)
		if k := 32 << r.N(7); maxNodes > 32 && r.P(25) && k < maxNodes {
			// Next to a power of two.
			target = k - 1 + 2*r.N(2)
		}
	}
	leafV := func() bool { return r.P(50) }
	t.Nodes = []Node{{Z: -1, O: -1, V: leafV()}}
	used := []map[int]bool{{}}
	skew := r.P(30) // chain-like trees
	for len(t.Nodes)+2 <= target {
		var cand []int
		for i, n := range t.Nodes {
			if n.Z < 0 && len(used[i]) < dim {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			break
		}
		i := cand[r.N(len(cand))]
		if skew {
			i = cand[len(cand)-1]
		}
		f := r.N(dim)
		for used[i][f] {
			f = (f + 1) % dim
		}
		u := map[int]bool{f: true}
		for k := range used[i] {
			u[k] = true
		}
		z := len(t.Nodes)
		a := leafV()
		b := leafV()
		if a == b && r.P(60) {
			b = !a
		}
		t.Nodes = append(t.Nodes, Node{Z: -1, O: -1, V: a}, Node{Z: -1, O: -1, V: b})
		used = append(used, u, u)
		t.Nodes[i].F, t.Nodes[i].Z, t.Nodes[i].O = f, z, z+1
	}
	if r.P(60) {
		// Any order, root first.
		p := r.Perm(len(t.Nodes) - 1)
		at := make([]int, len(t.Nodes))
		for i, x := range p {
			at[i+1] = x + 1
		}
		nn := make([]Node, len(t.Nodes))
		for i, n := range t.Nodes {
			if n.Z >= 0 {
				n.Z, n.O = at[n.Z], at[n.O]
			}
			nn[at[i]] = n
		}
		t.Nodes = nn
	}
	for i := range t.Nodes {
		n := &t.Nodes[i]
		if n.Z < 0 && r.P(30) {
			n.F = r.N(dim) // meaningless on a leaf
		} else if n.Z >= 0 {
			n.V = r.P(30) // meaningless on an internal node
		}
	}
	return t
}

// GenInst makes a partial instance.
func GenInst(r *rt.Rand, dim int) []int {
	c := make([]int, dim)
	k := r.N(5)
	for i := range c {
		switch k {
		case 0:
			c[i] = 1 + r.N(2)
		case 1:
			if r.P(75) {
				c[i] = 0
			} else {
				c[i] = 1 + r.N(2)
			}
		default:
			c[i] = r.N(3)
		}
	}
	return c
}

// Near perturbs an instance.
func Near(r *rt.Rand, c []int) []int {
	d := append([]int{}, c...)
	for k := r.N(3); k >= 0 && len(d) > 0; k-- {
		d[r.N(len(d))] = r.N(3)
	}
	return d
}

// Opts steers query generation.
type Opts struct {
	Dim     int
	Tree    *Tree
	Vars    []string // names still free for declaration
	Bounds  []string // names for quantifiers
	Depth   int
	Ops     []string // atoms in use
	Quant   int      // nesting of quantifiers allowed
	QBias   int      // percent chance to choose a quantifier when allowed
	Shadow  bool     // quantifiers may rebind a name in scope
	Reach   int
	MaxVars int
	PathC   [][]int // instances worth using as constants
}

var AllAtoms = []string{"sub", "lel", "isnode", "allcomp", "cons", "dfs", "full", "hepr", "leh"}

// arity of the predicates.
var arity = map[string]int{"sub": 2, "lel": 2, "cons": 2, "hepr": 2, "leh": 3, "isnode": 1, "allcomp": 1, "dfs": 1, "full": 1}

type gctx struct {
	r     *rt.Rand
	o     *Opts
	vars  []string // in scope
	bound []string
	left  []string
	nv    int
	bn    int
	prefs [][]int // used so far
}

func (g *gctx) constant() []int {
	if len(g.o.PathC) > 0 && g.r.P(40) {
		c := g.o.PathC[g.r.N(len(g.o.PathC))]
		if g.r.P(40) {
			return Near(g.r, c)
		}
		return append([]int(nil), c...)
	}
	return GenInst(g.r, g.o.Dim)
}

func (g *gctx) arg() Arg {
	if len(g.bound) > 0 && g.r.P(45) {
		return Arg{B: g.bound[g.r.N(len(g.bound))]}
	}
	if len(g.vars) > 0 && g.r.P(75) {
		return Arg{V: g.vars[g.r.N(len(g.vars))]}
	}
	a := Arg{C: g.constant()}
	if g.r.P(15) {
		a.I = "k" + string(rune('a'+g.r.N(3)))
	}
	return a
}

func (g *gctx) pref() []int {
	p := GenPref(g.r, g.o.Dim, g.prefs)
	g.prefs = append(g.prefs, p)
	return p
}

// GenPref makes a list of distinct features, often a close relative of one used before:
// encodings of several preferences in one formula must not get mixed up.
func GenPref(r *rt.Rand, dim int, used [][]int) []int {
	if len(used) > 0 && r.P(60) {
		p := append([]int{}, used[r.N(len(used))]...)
		switch r.N(5) {
		case 0: // shorter
			if len(p) > 1 {
				p = p[:1+r.N(len(p)-1)]
			}
		case 1: // other order
			if len(p) > 1 {
				i, j := r.N(len(p)), r.N(len(p))
				p[i], p[j] = p[j], p[i]
			}
		case 2: // longer
			for _, i := range r.Perm(dim) {
				if !contains(p, i) {
					p = append(p, i)
					break
				}
			}
		case 3: // same digits, cut elsewhere
			p = Recut(r, p, dim)
		}
		return p
	}
	n := r.N(dim + 1)
	if n == 0 && dim > 0 && r.P(50) {
		n = 1
	}
	p := r.Perm(dim)[:n]
	if dim > 10 && r.P(60) {
		// Digits that can be read in more than one way.
		all := [][]int{{1, 12}, {11, 2}, {1, 10}, {11, 0}, {1, 11}, {11, 1}, {10, 1}, {1, 0, 1}, {12, 1}, {1, 2, 1}, {0, 11, 1}, {0, 1, 11}, {1, 12, 3}, {11, 2, 3}, {10, 11}, {1, 0, 11}}
		p = nil
		for _, i := range all[r.N(len(all))] {
			if i < dim && !contains(p, i) {
				p = append(p, i)
			}
		}
	}
	return p
}

// Recut writes the features one after the other and splits the digits differently.
func Recut(r *rt.Rand, p []int, dim int) []int {
	s := ""
	for _, i := range p {
		s += strconv.Itoa(i)
	}
	for try := 0; try < 20; try++ {
		var out []int
		rest := s
		ok := true
		for rest != "" && ok {
			n := 1
			if len(rest) > 1 && rest[0] != '0' && r.P(50) {
				n = 2
			}
			v, _ := strconv.Atoi(rest[:n])
			rest = rest[n:]
			ok = v < dim && !contains(out, v)
			out = append(out, v)
		}
		if ok && !same(out, p) {
			return out
		}
	}
	return p
}

func contains(p []int, x int) bool {
	for _, y := range p {
		if x == y {
			return true
		}
	}
	return false
}

func (g *gctx) atom() *Q {
	op := g.o.Ops[g.r.N(len(g.o.Ops))]
	x := &Q{Op: op}
	for i := 0; i < arity[op]; i++ {
		x.Args = append(x.Args, g.arg())
	}
	switch op {
	case "allcomp":
		x.Leaf = g.r.P(50)
		x.Reach = g.o.Reach
	case "isnode":
		x.Reach = g.o.Reach
	case "hepr":
		x.Pref = g.pref()
	case "leh":
		for i := range x.Args { // full constants are the interesting ones
			if c := x.Args[i].C; c != nil && g.r.P(80) {
				for j := range c {
					if c[j] == BOT {
						c[j] = 1 + g.r.N(2)
					}
				}
			}
		}
	}
	return x
}

func (g *gctx) gen(depth int, pos bool, quant int) *Q {
	if depth <= 0 {
		if len(g.vars) == 0 && pos && len(g.left) > 0 && g.nv < g.o.MaxVars {
			return g.with(1, quant)
		}
		if g.r.P(25) {
			return Not(g.atom())
		}
		if g.r.P(2) {
			return &Q{Op: []string{"true", "false"}[g.r.N(2)]}
		}
		return g.atom()
	}
	if quant > 0 && g.r.P(g.o.QBias) {
		return g.forall(depth, pos, quant)
	}
	k := g.r.N(100)
	switch {
	case k < 18 && pos && len(g.left) > 0 && g.nv < g.o.MaxVars:
		return g.with(depth, quant)
	case k < 55:
		return And(g.gen(depth-1, pos, quant), g.gen(depth-1, pos, quant))
	case k < 78:
		return Or(g.gen(depth-1, pos, quant), g.gen(depth-1, pos, quant))
	case k < 92:
		return Not(g.gen(depth-1, false, quant))
	}
	return g.gen(0, pos, quant)
}

func (g *gctx) with(depth, quant int) *Q {
	n := g.left[0]
	g.left = g.left[1:]
	g.nv++
	g.vars = append(g.vars, n)
	s := g.gen(depth-1, true, quant)
	g.vars = g.vars[:len(g.vars)-1]
	return With(n, s)
}

func (g *gctx) forall(depth int, pos bool, quant int) *Q {
	var n string
	if g.o.Shadow && len(g.bound) > 0 && g.r.P(40) {
		n = g.bound[g.r.N(len(g.bound))]
	} else {
		n = g.o.Bounds[g.bn%len(g.o.Bounds)]
		g.bn++
	}
	g.bound = append(g.bound, n)
	s := g.gen(depth-1, pos, quant-1)
	g.bound = g.bound[:len(g.bound)-1]
	return ForAll(n, s)
}

// Names are variable names to draw from; tricky ones share prefixes and digits.
var nameSets = [][]string{
	{"x", "y", "z", "w", "v", "t"},
	{"x", "x1", "x11", "x10", "xx", "x2"},
	{"Alpha", "alpha", "alphaalpha", "a b", "é", "beta-1"},
	{"u", "v", "q", "p", "c", "k"},
	{"reach", "botc", "eqf", "hdist", "fp", "x"},
	{"01", "00", "0", "1_", "010", "111"},
}

// oddSets are names that are not often met.
var oddSets = [][]string{
	{"x", "x ", " x", "x\t", "X", "x\n"},
	{long(70) + "a", long(70) + "b", long(70), long(40), "n", long(69) + "m"},
	{long(300) + "a", long(300) + "b", long(300), long(255), long(256), long(257)},
	// Not text, see Raw.
	{"\ue0ff", "\ue0fe", "\ue0ff\ue0fe", "\ufffd", "?", "\ue080"},
	{"é", "e\u0301", "E\u0301", "É", "e", "\u200be"},
	{"x/y", "x\\y", "x:y", "x,y", "x.y", "x%dy"},
	// Names that look like the ones made for scoped variables.
	{"x", "x\x1fu\x1f0", "u", "u\x1f0\x1fv", "v", "x\x1fu\x1f1"},
	{"x", "x\x1bu\x1b0", "x\x1b1u\x1b10", "x\x1fu\x1f0", "\x1b", "\x1f"},
}

// SepVars and SepBounds are names that together look like each other's scoped form.
var (
	SepVars   = []string{"x", "x\x1fu\x1f0", "x\x1fu\x1f1", "x\x1fv\x1f0", "x\x1b1u\x1b10"}
	SepBounds = []string{"u", "v", "u\x1f0\x1fv", "u\x1b10\x1b1v"}
)

func long(n int) string { return strings.Repeat("n", n) }

var boundSets = [][]string{
	{"u", "v", "q", "p"},
	{"n", "n1", "n11", "nn"},
	{"x", "y", "1", "11"},
}

func pickNames(r *rt.Rand, set []string) []string {
	var out []string
	for _, i := range r.Perm(len(set)) {
		out = append(out, set[i])
	}
	return out
}

// NewOpts draws a configuration for a run (swarm style).
func NewOpts(r *rt.Rand, t *Tree) *Opts {
	o := &Opts{Dim: t.Dim, Tree: t}
	o.Vars = pickNames(r, nameSets[r.N(len(nameSets))])
	o.Bounds = pickNames(r, boundSets[r.N(len(boundSets))])
	if r.P(6) {
		o.Vars = pickNames(r, oddSets[r.N(len(oddSets))])
	}
	if r.P(4) {
		o.Bounds = pickNames(r, oddSets[r.N(len(oddSets))])
	}
	if r.P(2) {
		o.Vars, o.Bounds = pickNames(r, SepVars), pickNames(r, SepBounds)
	}
	o.Depth = 1 + r.N(4)
	n := 1 + r.N(4)
	if r.P(30) {
		n = len(AllAtoms)
	}
	for _, i := range r.Perm(len(AllAtoms))[:n] {
		o.Ops = append(o.Ops, AllAtoms[i])
	}
	sort.Strings(o.Ops)
	o.Reach = r.N(2)
	o.MaxVars = 1 + r.N(2)
	if t.Dim <= 2 && r.P(40) {
		o.MaxVars = 3
	}
	if r.P(45) {
		o.Quant = 1 + r.N(2)
	}
	o.QBias = 15 + r.N(30)
	o.Shadow = r.P(40)
	o.PathC = NewRef(t, 0).NodePaths()
	return o
}

// Gen makes one query; with bodyVar != "" the query has that variable free.
func Gen(r *rt.Rand, o *Opts, bodyVars ...string) *Q {
	g := &gctx{r: r, o: o, left: append([]string(nil), o.Vars...)}
	g.vars = append(g.vars, bodyVars...)
	for _, b := range bodyVars {
		for i, n := range g.left {
			if n == b {
				g.left = append(g.left[:i:i], g.left[i+1:]...)
				break
			}
		}
	}
	if len(bodyVars) == 0 && r.P(85) {
		return g.with(o.Depth+1, o.Quant)
	}
	return g.gen(o.Depth, true, o.Quant)
}

// GenDecided makes a query whose truth value the reference can establish, preferring
// the wanted one.
func GenDecided(r *rt.Rand, o *Opts, want bool, tries, budget int) (*Q, bool) {
	var keep *Q
	kept := false
	for i := 0; i < tries; i++ {
		x := Gen(r, o)
		if o.MaxVars > 0 && x.Size() < 2 {
			continue
		}
		if x.Cost(o.Tree) > MaxCost {
			continue
		}
		ref := NewRef(o.Tree, budget)
		var v bool
		if !Try(func() { v = ref.Eval(x, NewEnv()) }) {
			continue
		}
		keep, kept = x, v
		if v == want && (x.Size() >= 4 || r.P(30)) {
			return x, v
		}
	}
	if keep == nil {
		x := P("sub", C(make([]int, o.Dim)), C(make([]int, o.Dim)))
		return x, true
	}
	return keep, kept
}

// GenPinned makes a query in which every variable is pinned to a constant, so that
// its truth value is known in any dimension.
func GenPinned(r *rt.Rand, o *Opts, nv int) *Q {
	names := append([]string(nil), o.Vars[:nv]...)
	g := &gctx{r: r, o: o, vars: names, left: nil}
	return PinAll(r, o, names, g.gen(o.Depth, true, o.Quant))
}

// PinAll declares the variables around a query and pins them to constants.
func PinAll(r *rt.Rand, o *Opts, names []string, body *Q) *Q {
	g := &gctx{r: r, o: o}
	for _, n := range names {
		c := g.constant()
		p := Pin(n, c)
		if r.P(50) {
			body = And(p, body)
		} else {
			body = And(body, p)
		}
	}
	for _, i := range r.Perm(len(names)) {
		body = With(names[i], body)
	}
	return body
}

// Pins reads back the constants of a pinned query.
func Pins(x *Q) map[string][]int {
	m := map[string][]int{}
	cand := map[string][]int{}
	var rec func(x *Q)
	rec = func(x *Q) {
		if x.Op == "with" {
			rec(x.Sub[0])
			return
		}
		if x.Op != "and" {
			return
		}
		a, b := x.Sub[0], x.Sub[1]
		if a.Op == "sub" && b.Op == "sub" && a.Args[0].V != "" && b.Args[1].V == a.Args[0].V && a.Args[1].C != nil && b.Args[0].C != nil && same(a.Args[1].C, b.Args[0].C) {
			if _, ok := cand[a.Args[0].V]; !ok {
				cand[a.Args[0].V] = a.Args[1].C
			}
			return
		}
		rec(a)
		rec(b)
	}
	rec(x)
	for k, v := range cand {
		m[k] = v
	}
	return m
}

// Order is a strict partial order on instances.
type Order struct {
	Kind string `json:"kind"`
	Pref []int  `json:"pref,omitempty"`
	Base []int  `json:"base,omitempty"`
	// Name of the quantifier, in orders that have one.
	Name string `json:"name,omitempty"`
	Wrap bool   `json:"wrap,omitempty"` // put a quantifier that does not matter around it
}

var OrderKinds = []string{"ssub", "ssup", "more", "less", "hepr", "heprrev", "leh", "lehrev", "both", "none"}

// GenOrder draws an order; names are candidates for the quantifier of orders with one.
func GenOrder(r *rt.Rand, dim int, names ...string) Order {
	o := Order{Kind: OrderKinds[r.N(len(OrderKinds))]}
	if r.P(30) {
		o.Kind = []string{"ssub", "more"}[r.N(2)] // the usual ones
	}
	if len(names) > 0 && dim <= 4 && r.P(18) {
		o.Name = names[r.N(len(names))]
		if dim <= 3 && r.P(55) {
			o.Kind = []string{"nodes", "nodesrev", "below", "belowrev"}[r.N(4)]
		} else {
			o.Wrap = true
		}
	}
	if dim <= 4 && r.P(4) {
		o.Kind = "lex"
	}
	n := 1 + r.N(dim)
	if n > dim {
		n = dim
	}
	o.Pref = r.Perm(dim)[:n]
	o.Base = make([]int, dim)
	for i := range o.Base {
		o.Base[i] = 1 + r.N(2)
	}
	return o
}

// Q is the formula "v is strictly better than c".
func (o Order) Q(v, c Arg) *Q {
	if o.Wrap {
		p := o
		p.Wrap = false
		return ForAll(o.Name, p.Q(v, c))
	}
	strict := func(a, b *Q) *Q { return And(a, Not(b)) }
	base := Arg{C: o.Base}
	switch o.Kind {
	case "ssub":
		return strict(P("sub", v, c), P("sub", c, v))
	case "ssup":
		return strict(P("sub", c, v), P("sub", v, c))
	case "more": // more bottoms: lel(a,b) = a has at least as many
		return strict(P("lel", v, c), P("lel", c, v))
	case "less":
		return strict(P("lel", c, v), P("lel", v, c))
	case "hepr", "heprrev":
		a := &Q{Op: "hepr", Args: []Arg{v, c}, Pref: o.Pref}
		b := &Q{Op: "hepr", Args: []Arg{c, v}, Pref: o.Pref}
		if o.Kind == "hepr" {
			return strict(a, b)
		}
		return strict(b, a)
	case "leh": // closer to base
		return And(P("leh", base, v, c), Not(P("leh", base, c, v)))
	case "lehrev":
		return And(P("leh", base, c, v), Not(P("leh", base, v, c)))
	case "both":
		return And(strict(P("sub", v, c), P("sub", c, v)),
			And(&Q{Op: "hepr", Args: []Arg{c, v}, Pref: o.Pref}, Not(&Q{Op: "hepr", Args: []Arg{v, c}, Pref: o.Pref})))
	case "nodes", "nodesrev", "below", "belowrev":
		// Inclusion of the sets of nodes consistent with, or below, the instance.
		in := func(x Arg) *Q { return P("cons", x, B(o.Name)) }
		if o.Kind == "below" || o.Kind == "belowrev" {
			in = func(x Arg) *Q { return P("sub", B(o.Name), x) }
		}
		if o.Kind == "nodesrev" || o.Kind == "belowrev" {
			v, c = c, v
		}
		return And(ForAll(o.Name, Or(Not(in(c)), in(v))), Not(ForAll(o.Name, Or(Not(in(v)), in(c)))))
	case "none":
		return And(P("sub", v, c), Not(P("sub", v, c)))
	case "lex":
		return o.lex(v, c.C)
	}
	panic("order " + o.Kind)
}

// lex is the lexicographic order: total, with the longest possible chains. Features
// come in the order of Pref (the others after them), values in one of two orders.
func (o Order) lex(v Arg, c []int) *Q {
	feats := o.feats(len(c))
	is := func(f, val int) *Q {
		e := func(val int) *Q {
			x := make([]int, len(c))
			x[f] = val
			return P("sub", C(x), v)
		}
		if val == BOT {
			return And(Not(e(1)), Not(e(2)))
		}
		return e(val)
	}
	var rec func(i int) *Q
	rec = func(i int) *Q {
		if i == len(feats) {
			return nil
		}
		f := feats[i]
		vals := []int{0, 1, 2}
		if o.Base[f] == 2 {
			vals = []int{2, 0, 1}
		}
		rest := rec(i + 1)
		if rest != nil {
			rest = And(is(f, c[f]), rest)
		}
		for _, x := range vals {
			if x == c[f] {
				break
			}
			if rest == nil {
				rest = is(f, x)
			} else {
				rest = Or(is(f, x), rest)
			}
		}
		return rest
	}
	if x := rec(0); x != nil {
		return x
	}
	return And(P("sub", v, C(c)), Not(P("sub", v, C(c))))
}

func (o Order) feats(dim int) []int {
	feats := append([]int{}, o.Pref...)
	for f := 0; f < dim; f++ {
		if !contains(feats, f) {
			feats = append(feats, f)
		}
	}
	return feats
}

// Better evaluates the order on values.
func (o Order) Better(r *Ref, a, b []int) bool {
	if o.Kind == "lex" && !o.Wrap && len(a) == len(b) {
		// As the formula says, but fast: there are long chains.
		for _, f := range o.feats(len(b)) {
			if a[f] != b[f] {
				first := 0
				if o.Base[f] == 2 {
					first = 2
				}
				return a[f] == first || b[f] != first && a[f] < b[f]
			}
		}
		return false
	}
	return r.Eval(o.Q(C(a), C(b)), NewEnv())
}
