package q

import "vsim/rt"

// Flaw says what is ill-formed about a query over a tree, which may be without nodes or
// have one that is malformed (at, or -1), or "" if nothing is.
func (x *Q) Flaw(t *Tree, at int) string {
	return x.flaw(t, at, map[string]int{})
}

// Dent is something wrong with a node.
type Dent struct {
	At   int    `json:"at"`
	What string `json:"what"` // feature, zero, one
	Val  int    `json:"val"`  // how far out of range, negative for below
}

// Apply returns the tree with a node malformed, and its index, -1 if it is not
// reachable or a leaf.
func (d *Dent) Apply(t *Tree) (*Tree, int) {
	t = Clone(t)
	if d.At < 0 || d.At >= len(t.Nodes) || t.Nodes[d.At].Z < 0 {
		return t, -1
	}
	n := &t.Nodes[d.At]
	switch {
	case d.What == "zero":
		n.Z = len(t.Nodes) + abs(d.Val)
	case d.What == "one":
		n.O = len(t.Nodes) + abs(d.Val)
	case d.Val < 0:
		n.F = d.Val
	default:
		n.F = t.Dim + d.Val
	}
	at := -1
	t.Walk(d.At, nil, func(i int) {
		if i == d.At {
			at = i
		}
	})
	return t, at
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// Walk visits the nodes reached under an instance, or all reachable ones, not going on
// from the malformed one, if any (at).
func (t *Tree) Walk(at int, c []int, f func(i int)) {
	if len(t.Nodes) == 0 {
		return
	}
	st := []int{0}
	seen := map[int]bool{0: true}
	for len(st) > 0 {
		i := st[len(st)-1]
		st = st[:len(st)-1]
		f(i)
		n := t.Nodes[i]
		if i == at || n.Z < 0 {
			continue
		}
		for _, s := range [][2]int{{n.Z, ZERO}, {n.O, ONE}} {
			if (c == nil || c[n.F] == BOT || c[n.F] == s[1]) && !seen[s[0]] {
				seen[s[0]] = true
				st = append(st, s[0])
			}
		}
	}
}

const dented = "the tree has a malformed node"

// dentMatters says whether a predicate of the tree needs the malformed node.
func (x *Q) dentMatters(t *Tree, at int) bool {
	if x.Op == "forall" || x.Op == "dfs" {
		return true
	}
	a := x.Args[0]
	if a.V != "" {
		return true
	}
	if a.B != "" || a.I != "" || a.G != "" || len(a.C) != t.Dim {
		return false // there is another flaw, or it is not known
	}
	c := a.C
	n := t.Nodes[at]
	goes := func() bool {
		switch {
		case n.F < 0 || n.F >= t.Dim:
			return true
		case n.Z >= len(t.Nodes):
			return c[n.F] == ZERO || c[n.F] == BOT && x.Op == "allcomp"
		}
		return c[n.F] == ONE || c[n.F] == BOT && x.Op == "allcomp"
	}
	if x.Op == "isnode" {
		for i := 0; ; {
			if i == at {
				return goes()
			}
			switch m := t.Nodes[i]; {
			case m.Z < 0 || c[m.F] == BOT:
				return false
			case c[m.F] == ZERO:
				i = m.Z
			default:
				i = m.O
			}
		}
	}
	// Some leaf may be reason enough to say no.
	hit, other := false, false
	t.Walk(at, c, func(i int) {
		switch m := t.Nodes[i]; {
		case i == at:
			hit = goes()
			for _, j := range []int{m.Z, m.O} {
				other = other || j >= 0 && j < len(t.Nodes) && t.Nodes[j].Z >= 0
			}
			for _, j := range []int{m.Z, m.O} {
				other = other || j >= 0 && j < len(t.Nodes) && t.Nodes[j].Z < 0 && t.Nodes[j].V != x.Leaf
			}
		case m.Z < 0:
			other = other || m.V != x.Leaf
		}
	})
	return hit && !other
}

func (x *Q) flaw(t *Tree, at int, bound map[string]int) string {
	dim := t.Dim
	vars := 0
	for i, a := range x.Args {
		switch {
		case a.V != "":
			vars |= 1 << i
		case a.B != "" || a.I != "":
			n := a.B + a.I
			if bound[n] == 0 && len(a.C) != dim {
				if a.C == nil {
					return "a name is used that nothing binds"
				}
				return "a constant has the wrong dimension"
			}
		case a.G != "":
		case len(a.C) != dim:
			return "a constant has the wrong dimension"
		}
	}
	switch x.Op {
	case "nil":
		return "a sub-query is missing"
	case "isnode", "allcomp", "dfs", "forall":
		if len(t.Nodes) == 0 {
			return "the tree has no nodes"
		}
		if at >= 0 && x.dentMatters(t, at) {
			return dented
		}
	case "hepr":
		seen := map[int]bool{}
		for _, f := range x.Pref {
			if f < 0 || f >= dim {
				return "a preferred feature is out of range"
			}
			if seen[f] {
				return "a feature is preferred twice"
			}
			seen[f] = true
		}
	}
	if x.NoGen != 0 && vars != 0 {
		switch x.Op {
		case "isnode", "allcomp", "lel", "hepr", "leh":
			if x.NoGen&1 != 0 {
				return "a variable generator is missing"
			}
		}
		// The second generator is about two variables, one of them the first argument.
		if x.Op == "leh" && x.NoGen&2 != 0 && vars&1 != 0 && vars != 1 {
			return "a variable generator is missing"
		}
	}
	if x.Op == "forall" {
		bound[x.Name]++
		defer func() { bound[x.Name]-- }()
	}
	for _, s := range x.Sub {
		if f := s.flaw(t, at, bound); f != "" {
			return f
		}
	}
	return ""
}

// WithFlaw returns a copy with something ill-formed in it somewhere.
func WithFlaw(r *rt.Rand, x *Q, o *Opts, free ...string) *Q {
	dim := o.Dim
	type place struct {
		q      *Q
		parent bool
		vars   []string
		bound  []string
	}
	for try := 0; ; try++ {
		y := Clone(x)
		var all, in []place
		var rec func(z *Q, parent bool, vars, bound []string)
		rec = func(z *Q, parent bool, vars, bound []string) {
			p := place{z, parent, vars, bound}
			all = append(all, p)
			if len(bound) > 0 {
				in = append(in, p)
			}
			switch z.Op {
			case "with":
				vars = append(append([]string{}, vars...), z.Name)
			case "forall":
				bound = append(append([]string{}, bound...), z.Name)
			}
			for _, s := range z.Sub {
				rec(s, true, vars, bound)
			}
		}
		rec(y, false, free, nil)
		if len(in) > 0 && r.P(55) {
			all = in
		}
		p := all[r.N(len(all))]
		z := p.q
		if p.parent && r.P(15) {
			*z = Q{Op: "nil"}
		} else {
			g := &gctx{r: r, o: o, vars: p.vars, bound: p.bound}
			a := g.atom()
			if len(a.Args) > 0 && r.P(40) {
				// Constants only, or one variable.
				for i := range a.Args {
					a.Args[i] = Arg{C: g.constant()}
				}
				if len(p.vars) > 0 && r.P(50) {
					a.Args[r.N(len(a.Args))] = Arg{V: p.vars[r.N(len(p.vars))]}
				}
			}
			spoil(r, a, dim, p.bound)
			old := *z
			switch r.N(7) {
			case 0, 1:
				*z = *And(a, &old)
			case 2, 3:
				*z = *And(&old, a)
			case 4:
				*z = *Or(a, &old)
			case 5:
				*z = *Or(&old, a)
			case 6:
				*z = *a
			}
			if r.P(20) {
				s := *z
				*z = *Not(&s)
			}
		}
		if y.Flaw(o.Tree, -1) != "" {
			return y
		}
		if try > 50 {
			return Not(&Q{Op: "nil"})
		}
	}
}

// Atom draws a predicate about the given variables and constants.
func Atom(r *rt.Rand, o *Opts, vars ...string) *Q {
	g := &gctx{r: r, o: o, vars: vars}
	a := g.atom()
	if r.P(30) {
		for i := range a.Args {
			a.Args[i] = Arg{C: g.constant()}
		}
	}
	return a
}

// spoil makes one thing about a predicate wrong.
func spoil(r *rt.Rand, a *Q, dim int, bound []string) {
	switch k := r.N(10); {
	case k < 3 && len(a.Args) > 0: // wrong dimension
		n := dim + 1 - 2*r.N(2)
		if r.P(15) {
			n = r.N(2 * (dim + 1))
		}
		c := GenInst(r, n+1)[:n]
		if a.Op == "leh" || r.P(30) {
			for i := range c {
				c[i] = 1 + r.N(2)
			}
		}
		x := Arg{C: c}
		if r.P(20) {
			x.I = "ka"
		}
		a.Args[r.N(len(a.Args))] = x
	case k < 5 && len(a.Args) > 0: // nothing binds the name
		n := []string{"zz", "x", "g", "h", "y", "v"}[r.N(6)]
		a.Args[r.N(len(a.Args))] = Arg{B: n}
	case k < 8 || a.Op != "hepr":
		a.NoGen = 1 + r.N(3)
	default:
		switch r.N(4) {
		case 0:
			a.Pref = append(a.Pref, dim+r.N(3))
		case 1:
			a.Pref = append([]int{-1 - r.N(2)}, a.Pref...)
		case 2:
			f := r.N(dim)
			a.Pref = append([]int{f}, append(a.Pref, f)...)
		case 3:
			f := r.N(dim)
			a.Pref = []int{f, f}
		}
	}
}
