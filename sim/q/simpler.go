package q

// free lists the variables and bound names a query needs from outside.
func free(x *Q, vars, bounds map[string]bool, out map[string]bool) {
	for _, a := range x.Args {
		if a.V != "" && !vars[a.V] {
			out["v"+a.V] = true
		}
		if a.B != "" && !bounds[a.B] {
			out["b"+a.B] = true
		}
	}
	with := func(m map[string]bool, n string) map[string]bool {
		c := map[string]bool{n: true}
		for k := range m {
			c[k] = true
		}
		return c
	}
	switch x.Op {
	case "with":
		vars = with(vars, x.Name)
	case "forall":
		bounds = with(bounds, x.Name)
	}
	for _, s := range x.Sub {
		free(s, vars, bounds, out)
	}
}

// Simpler lists smaller queries that need no more from outside.
func Simpler(x *Q) []*Q {
	need := map[string]bool{}
	free(x, nil, nil, need)
	var out []*Q
	for _, y := range simpler(x) {
		n := map[string]bool{}
		free(y, nil, nil, n)
		ok := true
		for k := range n {
			ok = ok && need[k]
		}
		if ok {
			out = append(out, y)
		}
	}
	return out
}

func simpler(x *Q) []*Q {
	out := append([]*Q{}, x.Sub...)
	for i := range x.Sub {
		for _, y := range simpler(x.Sub[i]) {
			d := *x
			d.Sub = append([]*Q{}, x.Sub...)
			d.Sub[i] = y
			out = append(out, &d)
		}
	}
	return out
}

// Cut turns inner node i into a leaf and drops what is no longer reachable.
func (t *Tree) Cut(i int) bool {
	if t.Nodes[i].Z < 0 {
		return false
	}
	t.Nodes[i].Z, t.Nodes[i].O, t.Nodes[i].V = -1, -1, false
	on := map[int]bool{}
	var rec func(k int)
	rec = func(k int) {
		on[k] = true
		if t.Nodes[k].Z >= 0 {
			rec(t.Nodes[k].Z)
			rec(t.Nodes[k].O)
		}
	}
	rec(0)
	to := make([]int, len(t.Nodes))
	var ns []Node
	for k := range t.Nodes {
		if on[k] {
			to[k] = len(ns)
			ns = append(ns, t.Nodes[k])
		}
	}
	for k := range ns {
		if ns[k].Z >= 0 {
			ns[k].Z, ns[k].O = to[ns[k].Z], to[ns[k].O]
		}
	}
	t.Nodes = ns
	return true
}
