package q

import (
	"strings"

	"fmt"

	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/cons"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
	"github.com/jtcaraball/goexpdt/query/extensions/leh"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"

	"github.com/jtcaraball/goexpdt/cnf"
)

// Model is the tree as the code under test sees it.
type Model struct {
	D int
	N []query.Node
}

func (m *Model) Dim() int            { return m.D }
func (m *Model) Nodes() []query.Node { return m.N }

func (t *Tree) Model() *Model {
	m := &Model{D: t.Dim}
	for _, n := range t.Nodes {
		x := query.Node{Feat: n.F, ZChild: n.Z, OChild: n.O, Value: n.V}
		if n.Z < 0 {
			x.ZChild, x.OChild = query.NoChild, query.NoChild
		}
		m.N = append(m.N, x)
	}
	return m
}

const sep = "\x1e"

func genCount(v query.QVar) query.QVar  { return "botc" + sep + v }
func genReach(v query.QVar) query.QVar  { return "reach" + sep + v }
func genReachA(v query.QVar) query.QVar { return "areach" + sep + v }
func genReachN(v query.QVar) query.QVar { return "nreach" + sep + v }
func genPair(p string) func(a, b query.QVar) query.QVar {
	return func(a, b query.QVar) query.QVar {
		if string(a) < string(b) {
			return query.QVar(p+sep) + a + sep + b
		}
		return query.QVar(p+sep) + b + sep + a
	}
}
func genPref(p, a, b query.QVar) query.QVar { return "fp" + sep + p + sep + a + sep + b }

var genHD, genEq = genPair("hdist"), genPair("eqf")

// Consts converts.
func Feats(c []int) []query.FeatV {
	v := make([]query.FeatV, len(c))
	for i, f := range c {
		v[i] = query.FeatV(f)
	}
	return v
}

func Ints(c []query.FeatV) []int {
	v := make([]int, len(c))
	for i, f := range c {
		v[i] = int(f)
	}
	return v
}

// Hooks supplies caller-written sub-queries ("custom" operators).
type Hooks struct {
	Custom func(name string) logop.LogOpQ
	// Wrap, if set, is put around every sub-query.
	Wrap func(logop.LogOpQ) logop.LogOpQ
	// Pref and Const let the harness keep the slices it handed out, to see whether
	// they were modified.
	Prefs  [][]int
	Given  map[string]query.QConst // constants handed out by the code under test
	Consts [][]query.FeatV
}

func (h *Hooks) cst(a Arg) query.QConst {
	if a.B != "" {
		return query.QConst{ID: Raw(a.B)}
	}
	if a.G != "" && h != nil {
		if c, ok := h.Given[a.G]; ok {
			return c
		}
	}
	v := Feats(a.C)
	if h != nil {
		h.Consts = append(h.Consts, v)
	}
	return query.QConst{ID: Raw(a.I), Val: v}
}

// Build makes the real query.
func Build(q *Q, h *Hooks) logop.LogOpQ {
	if h == nil {
		h = &Hooks{}
	}
	if q.Op == "nil" {
		return nil
	}
	if h.Wrap != nil {
		return h.Wrap(build(q, h))
	}
	return build(q, h)
}

func build(q *Q, h *Hooks) logop.LogOpQ {
	sub := func(i int) logop.LogOpQ { return Build(q.Sub[i], h) }
	isV := func(i int) bool { return q.Args[i].V != "" }
	v := func(i int) query.QVar { return query.QVar(Raw(q.Args[i].V)) }
	c := func(i int) query.QConst { return h.cst(q.Args[i]) }
	genCount, genReach, genReachA, genReachN, genPref, genHD, genEq := genCount, genReach, genReachA, genReachN, genPref, genHD, genEq
	if q.NoGen&1 != 0 {
		genCount, genReach, genReachA, genReachN, genPref, genHD = nil, nil, nil, nil, nil, nil
	}
	if q.NoGen&2 != 0 {
		genEq = nil
	}
	switch q.Op {
	case "and":
		return logop.And{Q1: sub(0), Q2: sub(1)}
	case "or":
		return logop.Or{Q1: sub(0), Q2: sub(1)}
	case "not":
		return logop.Not{Q: sub(0)}
	case "with":
		return logop.WithVar{I: query.QVar(Raw(q.Name)), Q: sub(0)}
	case "forall":
		return logop.ForAllGuarded{I: query.QConst{ID: Raw(q.Name)}, Q: sub(0)}
	case "true", "false":
		if q.Take > 0 {
			return taker(q.Take)
		}
		return trivial(q.Op == "true")
	case "custom":
		return h.Custom(q.Name)
	case "full":
		if isV(0) {
			return full.Var{I: v(0)}
		}
		return full.Const{I: c(0)}
	case "dfs":
		if isV(0) {
			return dfs.Var{I: v(0)}
		}
		return dfs.Const{I: c(0)}
	case "isnode":
		if isV(0) {
			g := genReach
			if q.Reach == 1 {
				g = genReachN
			}
			return isnode.Var{I: v(0), ReachNodeVarGen: g}
		}
		return isnode.Const{I: c(0)}
	case "allcomp":
		if isV(0) {
			g := genReach
			if q.Reach == 1 {
				g = genReachA
			}
			return allcomp.Var{I: v(0), LeafValue: q.Leaf, ReachNodeVarGen: g}
		}
		return allcomp.Const{I: c(0), LeafValue: q.Leaf}
	case "sub":
		switch {
		case isV(0) && isV(1):
			return subsumption.VarVar{I1: v(0), I2: v(1)}
		case isV(0):
			return subsumption.VarConst{I1: v(0), I2: c(1)}
		case isV(1):
			return subsumption.ConstVar{I1: c(0), I2: v(1)}
		}
		return subsumption.ConstConst{I1: c(0), I2: c(1)}
	case "lel":
		switch {
		case isV(0) && isV(1):
			return lel.VarVar{I1: v(0), I2: v(1), CountVarGen: genCount}
		case isV(0):
			return lel.VarConst{I1: v(0), I2: c(1), CountVarGen: genCount}
		case isV(1):
			return lel.ConstVar{I1: c(0), I2: v(1), CountVarGen: genCount}
		}
		return lel.ConstConst{I1: c(0), I2: c(1)}
	case "cons":
		switch {
		case isV(0) && isV(1):
			return cons.VarVar{I1: v(0), I2: v(1)}
		case isV(0):
			return cons.VarConst{I1: v(0), I2: c(1)}
		case isV(1):
			return cons.ConstVar{I1: c(0), I2: v(1)}
		}
		return cons.ConstConst{I1: c(0), I2: c(1)}
	case "hepr":
		p := append([]int(nil), q.Pref...)
		h.Prefs = append(h.Prefs, p)
		switch {
		case isV(0) && isV(1):
			return hepr.VarVar{I1: v(0), I2: v(1), Preference: p, FeaturePreferenceRankVarGen: genPref}
		case isV(0):
			return hepr.VarConst{I1: v(0), I2: c(1), Preference: p, FeaturePreferenceRankVarGen: genPref}
		case isV(1):
			return hepr.ConstVar{I1: c(0), I2: v(1), Preference: p, FeaturePreferenceRankVarGen: genPref}
		}
		return hepr.ConstConst{I1: c(0), I2: c(1), Preference: p}
	case "leh":
		k := 0
		for i := 0; i < 3; i++ {
			if isV(i) {
				k |= 4 >> i
			}
		}
		switch k {
		case 0:
			return leh.ConstConstConst{I1: c(0), I2: c(1), I3: c(2)}
		case 1:
			return leh.ConstConstVar{I1: c(0), I2: c(1), I3: v(2), HammingDistanceVarGen: genHD}
		case 2:
			return leh.ConstVarConst{I1: c(0), I2: v(1), I3: c(2), HammingDistanceVarGen: genHD}
		case 3:
			return leh.ConstVarVar{I1: c(0), I2: v(1), I3: v(2), HammingDistanceVarGen: genHD}
		case 4:
			return leh.VarConstConst{I1: v(0), I2: c(1), I3: c(2), HammingDistanceVarGen: genHD}
		case 5:
			return leh.VarConstVar{I1: v(0), I2: c(1), I3: v(2), HammingDistanceVarGen: genHD, EqualFeatureVarGen: genEq}
		case 6:
			return leh.VarVarConst{I1: v(0), I2: v(1), I3: c(2), HammingDistanceVarGen: genHD, EqualFeatureVarGen: genEq}
		}
		return leh.VarVarVar{I1: v(0), I2: v(1), I3: v(2), HammingDistanceVarGen: genHD, EqualFeatureVarGen: genEq}
	}
	panic(fmt.Sprintf("build: unknown operator %q", q.Op))
}

// taker uses up numbers.
type taker int

func (t taker) Encoding(ctx query.QContext) (cnf.CNF, error) {
	if ctx != nil {
		ctx.UpdateTopV(ctx.TopV() + int(t))
	}
	return cnf.TrueCNF, nil
}

// Raw makes a name of how it is written in a case: letters of a private range stand
// for bytes that are no text.
func Raw(s string) string {
	if !strings.ContainsFunc(s, func(c rune) bool { return c >= 0xE080 && c <= 0xE0FF }) {
		return s
	}
	var b []byte
	for _, c := range s {
		if c >= 0xE080 && c <= 0xE0FF {
			b = append(b, byte(c-0xE000))
		} else {
			b = append(b, string(c)...)
		}
	}
	return string(b)
}

type trivial bool

func (t trivial) Encoding(ctx query.QContext) (cnf.CNF, error) {
	if t {
		return cnf.TrueCNF, nil
	}
	return cnf.FalseCNF, nil
}
