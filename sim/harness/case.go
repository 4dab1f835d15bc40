// Package harness turns properties into simulated runs: explicit cases, their
// execution in a simulated world, oracles, and minimisation.
package harness

import (
	"encoding/json"
	"fmt"

	"vsim/q"
	"vsim/rt"
	"vsim/sat"
)

// SolverCfg is how the simulated solver behaves in a run.
type SolverCfg struct {
	Mode    sat.Mode `json:"mode"`
	Seed    uint64   `json:"seed"`
	Strict  bool     `json:"strict,omitempty"`  // refuses files whose header does not match
	Layout  uint64   `json:"layout,omitempty"`  // 0: plain, one literal line
	Partial bool     `json:"partial,omitempty"` // leaves out literals the formula does not need
	Guide   string   `json:"guide,omitempty"`   // "least", "random"
	PerCall bool     `json:"percall,omitempty"` // equal formulas may get different models
}

// Optim is an optimisation task.
type Optim struct {
	F     *q.Q    `json:"f"`
	Var   string  `json:"var"`
	Order q.Order `json:"order"`
	// Spoilt, if set, is what the order's constructor returns at its SpoilAt-th call.
	Spoilt  *q.Q `json:"spoilt,omitempty"`
	SpoilAt int  `json:"spoilat,omitempty"`
}

// Comb is a Boolean combination of queries.
type Comb struct {
	Op  string  `json:"op"` // and, or, atom, natom
	Q   *q.Q    `json:"q,omitempty"`
	Sub []*Comb `json:"sub,omitempty"`
}

// Op is one operation of a caller.
type Op struct {
	K    string   `json:"k"` // step values optim comb reset heal tofile encode check
	Q    *q.Q     `json:"q,omitempty"`
	Ref  int      `json:"ref,omitempty"` // 1+index into Case.Shared, instead of Q
	O    *Optim   `json:"o,omitempty"`
	C    *Comb    `json:"c,omitempty"`
	Vars []string `json:"vars,omitempty"`
	Ctx  int      `json:"ctx,omitempty"` // -1: none, -2: one of a tree without nodes, -3: one of the tree with the dent
	Sol  int      `json:"sol,omitempty"`
	Path string   `json:"path,omitempty"`
	Bad  string   `json:"bad,omitempty"` // how a "custom" sub-query misbehaves
	At   int      `json:"at,omitempty"`  // at which evaluation of it
}

type Client struct {
	Ops []Op `json:"ops"`
}

type Crash struct {
	Client int    `json:"client"`
	At     uint64 `json:"at"`
}

// Case is one execution, completely explicit.
type Case struct {
	Prop     string     `json:"prop"`
	Family   string     `json:"family"`
	Run      int        `json:"run"`
	Tree     *q.Tree    `json:"tree,omitempty"`
	Dent     *q.Dent    `json:"dent,omitempty"`
	Shared   []*q.Q     `json:"shared,omitempty"`
	Clients  []Client   `json:"clients,omitempty"`
	Plan     rt.Plan    `json:"plan"`
	Faults   []rt.Fault `json:"faults,omitempty"`
	Crashes  []Crash    `json:"crashes,omitempty"`
	Solver   SolverCfg  `json:"solver"`
	MapSeed  uint64     `json:"mapseed,omitempty"`
	TempSeed uint64     `json:"tempseed,omitempty"`
	Chunk    uint64     `json:"chunk,omitempty"`
	Pre      int        `json:"pre,omitempty"` // temporary files already lying around
	Cnf      []CnfOp    `json:"cnf,omitempty"`
	CnfN     int        `json:"cnfn,omitempty"` // callers sharing the base formulas
	Scope    []ScopeOp  `json:"scope,omitempty"`
	// Alt is the second environment of a twin run (B09).
	// Apart: what the case is compared with is executed in other processes.
	Apart bool `json:"apart,omitempty"`

	// ErrVal: the parts of combinations return true along with every error.
	ErrVal bool `json:"errval,omitempty"`

	Alt *AltEnv `json:"alt,omitempty"`
}

// AltEnv changes everything a run must not depend on.
type AltEnv struct {
	MapSeed  uint64  `json:"mapseed"`
	TempSeed uint64  `json:"tempseed"`
	Chunk    uint64  `json:"chunk"`
	Pre      int     `json:"pre"`
	Host     uint64  `json:"host,omitempty"`
	Other    *Client `json:"other,omitempty"` // another caller active meanwhile
	Plan     rt.Plan `json:"plan"`
}

func (c *Case) Clone() *Case { return q.Clone(c) }

func (c *Case) query(o *Op) *q.Q {
	if o.Ref > 0 {
		return c.Shared[o.Ref-1]
	}
	return o.Q
}

func (c *Comb) String() string {
	switch c.Op {
	case "atom":
		return "[" + c.Q.String() + "]"
	case "natom":
		return "not[" + c.Q.String() + "]"
	case "nil":
		return "nil"
	}
	s := c.Op + "{"
	for i, x := range c.Sub {
		if i > 0 {
			s += ", "
		}
		s += x.String()
	}
	return s + "}"
}

func (o *Op) String() string {
	s := o.K
	if o.Q != nil {
		s += " " + o.Q.String()
	}
	if o.Ref > 0 {
		s += fmt.Sprintf(" shared#%d", o.Ref-1)
	}
	if o.O != nil {
		s += fmt.Sprintf(" %s of %s by %s", o.O.Var, o.O.F, o.O.Order.Kind)
		if o.O.Spoilt != nil {
			s += fmt.Sprintf(" (call %d: %s)", o.O.SpoilAt, o.O.Spoilt)
		}
	}
	if o.C != nil {
		s += " " + o.C.String()
	}
	switch o.Ctx {
	case -1:
		s += " without context"
	case -2:
		s += " over no nodes"
	case -3:
		s += " over the tree with a malformed node"
	}
	if len(o.Vars) > 0 {
		s += fmt.Sprint(" ", o.Vars)
	}
	if o.Bad != "" {
		s += fmt.Sprintf(" custom:%s@%d", o.Bad, o.At)
	}
	return s
}

// Violation is what an oracle reports. Sig identifies the class (kept while
// minimising), Msg tells the details.
type Violation struct {
	Sig string `json:"sig"`
	Msg string `json:"msg"`
}

// Report of one run.
type Report struct {
	V        *Violation     `json:"v,omitempty"`
	Hash     uint64         `json:"hash"`
	Distinct uint64         `json:"distinct"`        // hash of what makes the run different from others
	Sched    uint64         `json:"sched,omitempty"` // hash of the interleaving, if there was one
	Trivial  bool           `json:"trivial"`
	Skip     string         `json:"skip,omitempty"`
	Stats    map[string]int `json:"stats,omitempty"`
	Faults   map[string]int `json:"faults,omitempty"`
	SimNs    int64          `json:"simns"`
	Steps    uint64         `json:"steps"`
	Log      []string       `json:"log,omitempty"`
	Final    *Case          `json:"final,omitempty"` // the case with its schedule made explicit
	// Obs is what another process executing the run must observe, too (B09).
	Obs []string `json:"obs,omitempty"`
}

func js(x any) string {
	b, _ := json.Marshal(x)
	return string(b)
}
