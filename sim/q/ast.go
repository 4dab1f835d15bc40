// Package q has the query language of the harness: an explicit syntax tree that can be
// written to a replay file, an independent reference evaluator, a builder of the real
// query objects and generators.
package q

import (
	"encoding/json"
	"fmt"
	"strings"
)

// Node of a decision tree; Z, O < 0 means leaf.
type Node struct {
	F int  `json:"f"`
	Z int  `json:"z"`
	O int  `json:"o"`
	V bool `json:"v,omitempty"`
}

type Tree struct {
	Dim   int    `json:"dim"`
	Nodes []Node `json:"nodes"`
}

// Feature values, as in the code under test.
const (
	BOT  = 0
	ZERO = 1
	ONE  = 2
)

// Arg is an argument of a predicate: a variable, a constant or a bound constant.
type Arg struct {
	V string `json:"v,omitempty"` // variable name
	C []int  `json:"c,omitempty"` // constant
	B string `json:"b,omitempty"` // name bound by a guarded quantifier
	I string `json:"i,omitempty"` // identifier carried by an explicit constant
	G string `json:"g,omitempty"` // constant handed out by the code under test before
}

// Q is a query.
type Q struct {
	Op   string `json:"op"`
	Name string `json:"name,omitempty"` // with, forall
	Args []Arg  `json:"args,omitempty"`
	Leaf bool   `json:"leaf,omitempty"` // allcomp
	Pref []int  `json:"pref,omitempty"` // hepr
	Sub  []*Q   `json:"sub,omitempty"`
	// Reach selects the name generator of isnode/allcomp: 0 one shared by both,
	// 1 one of its own.
	Reach int `json:"reach,omitempty"`
	// NoGen leaves out variable generators: bit 0 the first, bit 1 the second.
	NoGen int `json:"nogen,omitempty"`
	// Take is how many numbers a caller's own sub-query (true) takes for itself.
	Take int `json:"take,omitempty"`
}

func inst(c []int) string {
	var b strings.Builder
	for _, f := range c {
		b.WriteByte("_01"[f])
	}
	return b.String()
}

func (a Arg) String() string {
	switch {
	case a.V != "":
		return a.V
	case a.B != "":
		return "@" + a.B
	case a.G != "" && a.C == nil:
		return "$" + a.G
	}
	return inst(a.C)
}

func (q *Q) String() string {
	if q == nil {
		return "nil"
	}
	switch q.Op {
	case "and":
		return "(" + q.Sub[0].String() + " & " + q.Sub[1].String() + ")"
	case "or":
		return "(" + q.Sub[0].String() + " | " + q.Sub[1].String() + ")"
	case "not":
		return "!" + q.Sub[0].String()
	case "with":
		return "E" + q.Name + "." + q.Sub[0].String()
	case "forall":
		return "A@" + q.Name + "." + q.Sub[0].String()
	}
	if q.Op == "nil" {
		return "nil"
	}
	var as []string
	for _, a := range q.Args {
		as = append(as, a.String())
	}
	ex := ""
	if q.Op == "allcomp" {
		ex = fmt.Sprintf("=%v", q.Leaf)
	}
	if q.Op == "hepr" {
		ex = fmt.Sprint(q.Pref)
	}
	if q.Take != 0 {
		ex += fmt.Sprintf("<takes %d numbers>", q.Take)
	}
	if q.NoGen != 0 {
		ex += fmt.Sprintf("<without generator %d>", q.NoGen)
	}
	return q.Op + ex + "(" + strings.Join(as, ",") + ")"
}

func (t *Tree) String() string {
	var rec func(i int) string
	rec = func(i int) string {
		n := t.Nodes[i]
		if n.Z < 0 {
			if n.V {
				return "+"
			}
			return "-"
		}
		return fmt.Sprintf("%d:%d(%s,%s)", i, n.F, rec(n.Z), rec(n.O))
	}
	return fmt.Sprintf("dim %d %s", t.Dim, rec(0))
}

// Clone copies deeply.
func Clone[T any](x T) T {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	var y T
	if err := json.Unmarshal(b, &y); err != nil {
		panic(err)
	}
	return y
}

// Vars lists the variables declared outside every quantifier, in order.
func (q *Q) Vars() []string {
	var r []string
	seen := map[string]bool{}
	var rec func(q *Q)
	rec = func(q *Q) {
		if q.Op == "with" && !seen[q.Name] {
			seen[q.Name] = true
			r = append(r, q.Name)
		}
		if q.Op == "forall" {
			return
		}
		for _, s := range q.Sub {
			rec(s)
		}
	}
	rec(q)
	return r
}

// Size counts nodes of the query.
func (q *Q) Size() int {
	n := 1
	for _, s := range q.Sub {
		n += s.Size()
	}
	return n
}

// Sub0 is the first sub-query without declarations in it, or the query itself.
func (q *Q) Sub0() *Q {
	if q.Has("with") {
		for _, s := range q.Sub {
			if q.Op != "with" && q.Op != "forall" && !s.Has("with") {
				return Clone(s)
			}
		}
		return &Q{Op: "false"}
	}
	return Clone(q)
}

// Has reports whether some node has one of the operators.
func (q *Q) Has(ops ...string) bool {
	for _, o := range ops {
		if q.Op == o {
			return true
		}
	}
	for _, s := range q.Sub {
		if s.Has(ops...) {
			return true
		}
	}
	return false
}

func And(a, b *Q) *Q            { return &Q{Op: "and", Sub: []*Q{a, b}} }
func Or(a, b *Q) *Q             { return &Q{Op: "or", Sub: []*Q{a, b}} }
func Not(a *Q) *Q               { return &Q{Op: "not", Sub: []*Q{a}} }
func With(n string, a *Q) *Q    { return &Q{Op: "with", Name: n, Sub: []*Q{a}} }
func ForAll(n string, a *Q) *Q  { return &Q{Op: "forall", Name: n, Sub: []*Q{a}} }
func P(op string, as ...Arg) *Q { return &Q{Op: op, Args: as} }
func V(n string) Arg            { return Arg{V: n} }
func C(c []int) Arg             { return Arg{C: c} }
func B(n string) Arg            { return Arg{B: n} }

// Given turns a query into one about what its variables were found to be: declarations
// outside quantifiers disappear, the variables become constants handed out before.
func (q *Q) Given() *Q {
	in := map[string]bool{}
	for _, v := range q.Vars() {
		in[v] = true
	}
	return q.given(in, false)
}

// Named says whether a constant of q carries the name n, so that a quantifier over n
// would bind it.
func (q *Q) Named(n string) bool {
	for _, a := range q.Args {
		if a.I == n {
			return true
		}
	}
	for _, s := range q.Sub {
		if s.Named(n) {
			return true
		}
	}
	return false
}

// GivenVar does the same for one free variable.
func (q *Q) GivenVar(v string) *Q { return q.given(map[string]bool{v: true}, false) }

func (q *Q) given(in map[string]bool, inside bool) *Q {
	if q.Op == "with" && !inside && in[q.Name] {
		return q.Sub[0].given(in, inside)
	}
	x := *q
	x.Args = append([]Arg(nil), q.Args...)
	for i, a := range x.Args {
		if a.V != "" && in[a.V] {
			x.Args[i] = Arg{G: a.V}
		}
	}
	x.Sub = nil
	for _, s := range q.Sub {
		x.Sub = append(x.Sub, s.given(in, inside || q.Op == "forall"))
	}
	return &x
}

// Takes is a caller's own sub-query that is true and takes n auxiliary numbers.
func Takes(n int) *Q { return &Q{Op: "true", Take: n} }

// Rename replaces a variable.
func (q *Q) Rename(from, to string) *Q {
	if from == to {
		return q
	}
	x := *q
	x.Args = append([]Arg(nil), q.Args...)
	for i, a := range x.Args {
		if a.V == from {
			x.Args[i].V = to
		}
	}
	x.Sub = nil
	for _, s := range q.Sub {
		x.Sub = append(x.Sub, s.Rename(from, to))
	}
	return &x
}

// Pin says that variable v equals the constant c.
func Pin(v string, c []int) *Q { return And(P("sub", V(v), C(c)), P("sub", C(c), V(v))) }
