package q

import "fmt"

// Ref evaluates queries by the definitions, by enumeration.
type Ref struct {
	T     *Tree
	Steps int // evaluations so far
	Max   int // budget; exceeding it panics with TooBig
	paths [][]int
	leafs []leaf
	insts [][]int
}

type leaf struct {
	path []int
	v    bool
}

// TooBig is thrown when the enumeration exceeds its budget.
type TooBig struct{}

func NewRef(t *Tree, max int) *Ref {
	r := &Ref{T: t, Max: max}
	var rec func(i int, p []int)
	rec = func(i int, p []int) {
		r.paths = append(r.paths, append([]int(nil), p...))
		n := t.Nodes[i]
		if n.Z < 0 {
			r.leafs = append(r.leafs, leaf{append([]int(nil), p...), n.V})
			return
		}
		save := p[n.F]
		p[n.F] = ZERO
		rec(n.Z, p)
		p[n.F] = ONE
		rec(n.O, p)
		p[n.F] = save
	}
	rec(0, make([]int, t.Dim))
	return r
}

// Insts enumerates all partial instances.
func (r *Ref) Insts() [][]int {
	if r.insts == nil {
		r.insts = AllInsts(r.T.Dim)
	}
	return r.insts
}

func AllInsts(dim int) [][]int {
	n := 1
	for i := 0; i < dim; i++ {
		n *= 3
	}
	if n > 60000 {
		panic(TooBig{})
	}
	out := make([][]int, n)
	for k := range out {
		c := make([]int, dim)
		x := k
		for i := range c {
			c[i] = x % 3
			x /= 3
		}
		out[k] = c
	}
	return out
}

// NodePaths lists the partial instances of all nodes.
func (r *Ref) NodePaths() [][]int { return r.paths }

type Env struct {
	Vars  map[string][]int
	Bound []struct {
		n string
		v []int
	}
	Fixed map[string][]int // values a declaration must take, if given
}

func NewEnv() *Env { return &Env{Vars: map[string][]int{}} }

func (r *Ref) arg(a Arg, e *Env) []int {
	switch {
	case a.V != "":
		v, ok := e.Vars[a.V]
		if !ok {
			panic("unbound variable " + a.V)
		}
		return v
	case a.B != "":
		for i := len(e.Bound) - 1; i >= 0; i-- {
			if e.Bound[i].n == a.B {
				return e.Bound[i].v
			}
		}
		panic("unbound constant " + a.B)
	}
	return a.C
}

// Eval says whether the query is true, where declared variables are existential.
func (r *Ref) Eval(q *Q, e *Env) bool {
	r.Steps++
	if r.Max > 0 && r.Steps > r.Max {
		panic(TooBig{})
	}
	switch q.Op {
	case "and":
		return r.Eval(q.Sub[0], e) && r.Eval(q.Sub[1], e)
	case "or":
		return r.Eval(q.Sub[0], e) || r.Eval(q.Sub[1], e)
	case "not":
		return !r.Eval(q.Sub[0], e)
	case "true", "custom": // a caller's own sub-query is true unless it fails
		return true
	case "false":
		return false
	case "with":
		if v, ok := e.Fixed[q.Name]; ok {
			e.Vars[q.Name] = v
			return r.Eval(q.Sub[0], e)
		}
		save, had := e.Vars[q.Name]
		res := false
		for _, v := range r.Insts() {
			e.Vars[q.Name] = v
			if r.Eval(q.Sub[0], e) {
				res = true
				break
			}
		}
		if had {
			e.Vars[q.Name] = save
		} else {
			delete(e.Vars, q.Name)
		}
		return res
	case "forall":
		for _, p := range r.paths {
			e.Bound = append(e.Bound, struct {
				n string
				v []int
			}{q.Name, p})
			ok := r.Eval(q.Sub[0], e)
			e.Bound = e.Bound[:len(e.Bound)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	var x [3][]int
	for i, a := range q.Args {
		x[i] = r.arg(a, e)
	}
	switch q.Op {
	case "sub":
		return Sub(x[0], x[1])
	case "lel":
		return Bots(x[0]) >= Bots(x[1])
	case "cons":
		for i, f := range x[0] {
			if f != BOT && x[1][i] != BOT && f != x[1][i] {
				return false
			}
		}
		return true
	case "full":
		return Bots(x[0]) == 0
	case "isnode":
		for _, p := range r.paths {
			if same(p, x[0]) {
				return true
			}
		}
		return false
	case "allcomp":
		return r.AllComp(x[0], q.Leaf)
	case "dfs":
		return r.Dfs(x[0])
	case "hepr":
		for _, f := range q.Pref {
			a, b := x[0][f] != BOT, x[1][f] != BOT
			if a != b {
				return a
			}
		}
		return true
	case "leh":
		if Bots(x[0])+Bots(x[1])+Bots(x[2]) > 0 {
			return false
		}
		return ham(x[0], x[1]) <= ham(x[0], x[2])
	}
	panic(fmt.Sprintf("ref: unknown operator %q", q.Op))
}

func Sub(a, b []int) bool {
	for i, f := range a {
		if f != BOT && f != b[i] {
			return false
		}
	}
	return true
}

func Bots(a []int) int {
	n := 0
	for _, f := range a {
		if f == BOT {
			n++
		}
	}
	return n
}

func same(a, b []int) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func ham(a, b []int) int {
	n := 0
	for i := range a {
		if a[i] != b[i] {
			n++
		}
	}
	return n
}

// Class walks the tree with a full instance.
func (r *Ref) Class(x []int) bool {
	n := r.T.Nodes[0]
	for n.Z >= 0 {
		if x[n.F] == ONE {
			n = r.T.Nodes[n.O]
		} else {
			n = r.T.Nodes[n.Z]
		}
	}
	return n.V
}

// AllComp: every completion has the class. By enumeration when that is feasible, by
// the leaves compatible with the instance otherwise.
func (r *Ref) AllComp(x []int, c bool) bool {
	if Bots(x) <= 8 {
		ok := true
		r.completions(x, func(y []int) bool {
			if r.Class(y) != c {
				ok = false
			}
			return ok
		})
		return ok
	}
	for _, l := range r.leafs {
		if l.v != c && compatible(l.path, x) {
			return false
		}
	}
	return true
}

func compatible(a, b []int) bool {
	for i, f := range a {
		if f != BOT && b[i] != BOT && f != b[i] {
			return false
		}
	}
	return true
}

func (r *Ref) completions(x []int, f func([]int) bool) bool {
	y := append([]int(nil), x...)
	var rec func(i int) bool
	rec = func(i int) bool {
		for i < len(y) && x[i] != BOT {
			i++
		}
		if i == len(y) {
			return f(y)
		}
		for _, v := range []int{ZERO, ONE} {
			y[i] = v
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

// Dfs: every instance defined on the same features decides its completions alike.
func (r *Ref) Dfs(x []int) bool {
	if len(x) <= 6 {
		ok := true
		y := append([]int(nil), x...)
		var rec func(i int)
		rec = func(i int) {
			if !ok {
				return
			}
			for i < len(y) && x[i] == BOT {
				i++
			}
			if i == len(y) {
				if !r.AllComp(y, true) && !r.AllComp(y, false) {
					ok = false
				}
				return
			}
			for _, v := range []int{ZERO, ONE} {
				y[i] = v
				rec(i + 1)
			}
		}
		rec(0)
		return ok
	}
	// Two leaves of different class must disagree on a feature x has.
	for _, a := range r.leafs {
		for _, b := range r.leafs {
			if a.v == b.v {
				continue
			}
			sep := false
			for i, f := range x {
				if f != BOT && a.path[i] != BOT && b.path[i] != BOT && a.path[i] != b.path[i] {
					sep = true
					break
				}
			}
			if !sep {
				return false
			}
		}
	}
	return true
}

// Try runs f and reports whether it stayed within the budget.
func Try(f func()) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(TooBig); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	f()
	return true
}
