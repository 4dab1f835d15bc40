package harness

import (
	"fmt"
	"sort"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"

	"vsim/q"
	"vsim/rt"
)

// ScopeOp is one operation on a caller's context: a direct call, or the encoding of
// a query (which makes many).
type ScopeOp struct {
	Client int    `json:"client"`
	K      string `json:"k"` // add name push pop set const num exists top update reset encode
	V      string `json:"v,omitempty"`
	I      int    `json:"i,omitempty"`
	N      int    `json:"n,omitempty"`
	Val    []int  `json:"val,omitempty"`
	Q      *q.Q   `json:"q,omitempty"`
	Bad    string `json:"bad,omitempty"`
	At     int    `json:"at,omitempty"`
}

func (o ScopeOp) String() string {
	s := fmt.Sprintf("c%d %s %s i=%d n=%d %v", o.Client, o.K, o.V, o.I, o.N, o.Val)
	if o.Q != nil {
		s += " " + o.Q.String()
	}
	if o.Bad != "" {
		s += fmt.Sprintf(" custom:%s@%d", o.Bad, o.At)
	}
	return s
}

type mscope struct {
	tgt string
	idx int
	val []int
	set bool
}

type numKey struct {
	v      query.QVar
	idx, k int
}

// spy is a context that checks every answer of the real one against a reference
// name table.
type spy struct {
	query.QContext
	r      *scopeRun
	id     int
	scopes []mscope
	decl   map[query.QVar]int
	vague  map[query.QVar]bool // redeclared deeper: which scope counts is not specified
	names  map[string]query.QVar
	rev    map[query.QVar]string
	nums   map[numKey]int
	revn   map[int]numKey
	resv   int // numbers up to here were reserved
	aux    map[int]bool
	last   string
}

func newSpy(r *scopeRun, id int, real query.QContext) *spy {
	s := &spy{QContext: real, r: r, id: id}
	s.clear()
	return s
}

func (s *spy) clear() {
	s.scopes = nil
	s.decl, s.vague = map[query.QVar]int{}, map[query.QVar]bool{}
	s.names, s.rev = map[string]query.QVar{}, map[query.QVar]string{}
	s.nums, s.revn = map[numKey]int{}, map[int]numKey{}
	s.resv = 0
	s.aux = map[int]bool{}
}

// keys lists the names that have numbers, by number.
func (s *spy) keys() []numKey {
	r := make([]numKey, 0, len(s.nums))
	for k := range s.nums {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := r[i], r[j]
		if s.nums[a] != s.nums[b] {
			return s.nums[a] < s.nums[b]
		}
		return fmt.Sprint(a) < fmt.Sprint(b)
	})
	return r
}

func (s *spy) bad(sig, f string, a ...any) {
	s.r.fail(sig, "caller %d: "+f, append([]any{s.id}, a...)...)
}

func (s *spy) AddVar(v query.QVar) {
	s.r.calls++
	lv := len(s.scopes)
	if d, ok := s.decl[v]; !ok {
		s.decl[v] = lv
	} else if d < lv {
		s.vague[v] = true
	}
	s.QContext.AddVar(v)
}

func (s *spy) ScopeVar(v query.QVar) query.QVar {
	s.r.calls++
	n := s.QContext.ScopeVar(v)
	if s.vague[v] {
		return n
	}
	key := fmt.Sprintf("%q", string(v))
	for i := 0; i < s.decl[v]; i++ {
		key += fmt.Sprintf("|%q#%d", s.scopes[i].tgt, s.scopes[i].idx)
	}
	if o, ok := s.names[key]; ok && o != n {
		s.bad("name-unstable", "variable %s is called %q now and was %q before in the same iterations", key, n, o)
	}
	if o, ok := s.rev[n]; ok && o != key {
		s.bad("name-shared", "%s and %s are both called %q", key, o, n)
	}
	s.names[key], s.rev[n] = n, key
	return n
}

func (s *spy) ScopeConst(c query.QConst) (query.QConst, bool) {
	s.r.calls++
	g, ok := s.QContext.ScopeConst(c)
	for i := len(s.scopes) - 1; i >= 0; i-- {
		if s.scopes[i].tgt == c.ID {
			if !s.scopes[i].set {
				return g, ok
			}
			if !ok || fmt.Sprint(q.Ints(g.Val)) != fmt.Sprint(s.scopes[i].val) {
				s.bad("bound-value", "constant %q is %v (%v), the innermost open scope says %v", c.ID, g.Val, ok, s.scopes[i].val)
			}
			return g, ok
		}
	}
	if ok || fmt.Sprint(g) != fmt.Sprint(c) {
		s.bad("unbound-value", "constant %q without a scope became %v (%v)", c.ID, g, ok)
	}
	return g, ok
}

func (s *spy) AddScope(t string) {
	s.r.calls++
	s.scopes = append(s.scopes, mscope{tgt: t})
	s.QContext.AddScope(t)
}

func (s *spy) PopScope() error {
	s.r.calls++
	err := s.QContext.PopScope()
	if len(s.scopes) == 0 {
		if err == nil {
			s.bad("pop-empty", "a scope was removed though none is open")
		}
		return err
	}
	if err != nil {
		s.bad("pop-refused", "an open scope could not be removed: %v", err)
	}
	lv := len(s.scopes)
	for v, d := range s.decl {
		if d == lv {
			delete(s.decl, v)
			delete(s.vague, v)
		}
	}
	s.scopes = s.scopes[:lv-1]
	return err
}

func (s *spy) SetScope(i int, val []query.FeatV) error {
	s.r.calls++
	err := s.QContext.SetScope(i, val)
	if len(s.scopes) == 0 {
		if err == nil {
			s.bad("set-empty", "a scope was set though none is open")
		}
		return err
	}
	if err != nil {
		s.bad("set-refused", "the open scope could not be set: %v", err)
	}
	t := &s.scopes[len(s.scopes)-1]
	t.idx, t.val, t.set = i, q.Ints(val), true
	return err
}

func (s *spy) top() int {
	t := s.resv
	for n := range s.revn {
		if n > t {
			t = n
		}
	}
	return t
}

func (s *spy) TopV() int {
	s.r.calls++
	n := s.QContext.TopV()
	if n < s.top() {
		s.bad("top-too-small", "top variable is %d though %d was given out or reserved", n, s.top())
	}
	return n
}

func (s *spy) UpdateTopV(v int) bool {
	s.r.calls++
	old := s.QContext.TopV()
	ok := s.QContext.UpdateTopV(v)
	now := s.QContext.TopV()
	switch {
	case v > old && (!ok || now < v):
		s.bad("update-refused", "reserving up to %d with top %d: %v, top now %d", v, old, ok, now)
	case v < old && (ok || now < old):
		s.bad("update-lowers", "reserving up to %d with top %d: %v, top now %d", v, old, ok, now)
	}
	if ok && v > s.resv {
		s.resv = v
	}
	return ok
}

func (s *spy) CNFVar(v query.QVar, idx, val int) int {
	s.r.calls++
	k := numKey{v, idx, val}
	n := s.QContext.CNFVar(v, idx, val)
	if o, ok := s.nums[k]; ok {
		if o != n {
			s.bad("number-unstable", "(%q,%d,%d) is %d now and was %d", v, idx, val, n, o)
		}
		return n
	}
	if n <= 0 {
		s.bad("number-sign", "(%q,%d,%d) got number %d", v, idx, val, n)
	}
	if o, ok := s.revn[n]; ok {
		s.bad("number-shared", "(%q,%d,%d) and (%q,%d,%d) both got number %d", v, idx, val, o.v, o.idx, o.k, n)
	}
	if n <= s.resv {
		s.bad("number-reserved", "(%q,%d,%d) got number %d though numbers up to %d were reserved", v, idx, val, n, s.resv)
	}
	if s.aux[n] {
		s.bad("number-auxiliary", "(%q,%d,%d) got number %d, which a formula uses as an auxiliary variable", v, idx, val, n)
	}
	s.nums[k], s.revn[n] = n, k
	return n
}

func (s *spy) CNFVarExists(v query.QVar, idx, val int) bool {
	s.r.calls++
	ok := s.QContext.CNFVarExists(v, idx, val)
	if _, want := s.nums[numKey{v, idx, val}]; want != ok {
		s.bad("exists-wrong", "(%q,%d,%d) exists: %v, want %v", v, idx, val, ok, want)
	}
	return ok
}

func (s *spy) Reset() {
	s.r.calls++
	old := *s
	s.QContext.Reset()
	s.clear()
	// Everything observable must be as in a new context.
	fresh := query.BasicQContext(s.r.model)
	rt.Quiet(func() {
		if a, b := s.QContext.TopV(), fresh.TopV(); a != b {
			s.bad("reset-top", "after a reset the top variable is %d, initially %d", a, b)
		}
		for _, k := range old.keys() {
			if s.QContext.CNFVarExists(k.v, k.idx, k.k) {
				s.bad("reset-number", "(%q,%d,%d) still exists after a reset", k.v, k.idx, k.k)
			}
		}
		for _, sc := range old.scopes {
			if _, ok := s.QContext.ScopeConst(query.QConst{ID: sc.tgt}); ok {
				s.bad("reset-scope", "constant %q is still bound after a reset", sc.tgt)
			}
		}
		if s.QContext.PopScope() == nil {
			s.bad("reset-scope", "a scope is still open after a reset")
		}
	})
}

// wrapped notes the auxiliary variables of every sub-formula as it is made.
type wrapped struct {
	s *spy
	q logop.LogOpQ
}

func (w wrapped) Encoding(ctx query.QContext) (cnf.CNF, error) {
	f, err := w.q.Encoding(ctx)
	if err == nil {
		rt.Quiet(func() {
			a, b := f.Clauses()
			for _, cl := range [][]cnf.Clause{a, b} {
				for _, c := range cl {
					for _, l := range c {
						if l < 0 {
							l = -l
						}
						if _, ok := w.s.revn[l]; !ok {
							w.s.aux[l] = true
						}
					}
				}
			}
		})
	}
	return f, err
}

type scopeRun struct {
	w     *rt.World
	v     *Violation
	model *q.Model
	calls int
	encs  int
	fails int
	nums  int
}

func (r *scopeRun) fail(sig, f string, a ...any) {
	if r.v == nil {
		r.v = &Violation{sig, fmt.Sprintf(f, a...)}
	}
}

func (r *scopeRun) do(s *spy, o ScopeOp) {
	v := query.QVar(q.Raw(o.V))
	switch o.K {
	case "add":
		if d, ok := s.decl[v]; ok && d < len(s.scopes) {
			return // which declaration counts is not specified
		}
		s.AddVar(v)
	case "name":
		s.ScopeVar(v)
	case "push":
		s.AddScope(q.Raw(o.V))
	case "pop":
		s.PopScope()
	case "set":
		s.SetScope(o.I, q.Feats(o.Val))
	case "sweep":
		for i := 0; i < o.I; i++ {
			if s.SetScope(i, q.Feats(o.Val)) != nil {
				return
			}
			s.CNFVar(s.ScopeVar(v), 0, 0)
		}
	case "const":
		s.ScopeConst(query.QConst{ID: q.Raw(o.V), Val: q.Feats(o.Val)})
	case "num":
		s.CNFVar(s.ScopeVar(v), o.I, o.N)
	case "raw":
		s.CNFVar(v, o.I, o.N)
	case "bulk": // as many names as a large formula has
		for i := 0; i < o.N; i++ {
			s.CNFVar(v, i%o.I, i/o.I)
		}
	case "exists":
		s.CNFVarExists(v, o.I, o.N)
	case "top":
		s.TopV()
	case "update":
		s.UpdateTopV(s.TopV() + o.I)
	case "reset":
		s.Reset()
	case "encode":
		r.encs++
		n := 0
		h := &q.Hooks{
			Custom: func(string) logop.LogOpQ { return custom{o.Bad, o.At, &n} },
			Wrap:   func(x logop.LogOpQ) logop.LogOpQ { return wrapped{s, x} },
		}
		x := q.Build(o.Q, h)
		func() {
			defer func() {
				if e := recover(); e != nil {
					switch e.(type) {
					case rt.BudgetExceeded, rt.Deadlock:
						panic(e)
					}
					r.fails++
					if o.Bad != "panic" {
						r.fail("panic", "encoding %s: %v", o.Q, e)
					}
				}
			}()
			f, err := x.Encoding(s)
			if err != nil {
				r.fails++
				return
			}
			rt.Quiet(func() {
				if t := s.QContext.TopV(); f.TopV() > t {
					r.fail("top-too-small", "caller %d: the formula of %s uses variables up to %d, the context's top is %d", s.id, o.Q, f.TopV(), t)
				}
			})
		}()
	}
}

func execScope(c *Case) (*scopeRun, []rt.Switch) {
	w := rt.NewWorld()
	w.LogOn = LogOn
	w.MapSeed, w.TempSeed = c.MapSeed, c.TempSeed
	w.Budget = yieldBudget
	rt.W = w
	r := &scopeRun{w: w, model: c.Tree.Model()}
	n := 0
	for _, o := range c.Scope {
		if o.Client >= n {
			n = o.Client + 1
		}
	}
	var envs []*rt.Env
	var bodies []func()
	var spies []*spy
	for i := 0; i < n; i++ {
		i := i
		s := newSpy(r, i, query.BasicQContext(r.model))
		spies = append(spies, s)
		envs = append(envs, rt.NewEnv(i))
		bodies = append(bodies, func() {
			e := envs[i]
			defer func() {
				if e.Dead {
					return
				}
				if x := recover(); x != nil {
					r.fail("panic", "caller %d: %v", i, x)
				}
			}()
			for _, o := range c.Scope {
				if o.Client == i && r.v == nil {
					w.Event("%s", o)
					r.do(s, o)
				}
			}
		})
	}
	rec := w.RunThreads(c.Plan, envs, bodies)
	for _, s := range spies {
		r.nums += len(s.revn)
		// Names given out stay what they were.
		rt.Quiet(func() {
			for _, k := range s.keys() {
				n := s.nums[k]
				if got := s.QContext.CNFVar(k.v, k.idx, k.k); got != n {
					s.bad("number-unstable", "(%q,%d,%d) is %d at the end and was %d", k.v, k.idx, k.k, got, n)
				}
			}
		})
	}
	if r.v != nil {
		w.Event("violation %s: %s", r.v.Sig, r.v.Msg)
	}
	return r, rec
}
