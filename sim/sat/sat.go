// Package sat is the simulated SAT solver: a small randomised CDCL whose choices are
// all drawn from a seed, so that one seed gives one model. Models are verified against
// the formula; refutations are re-derived by reverse unit propagation.
package sat

import "vsim/rt"

type Status int

const (
	Unknown Status = iota
	Sat
	Unsat
)

// Mode selects how decisions are made: it determines which model is found.
type Mode int

const (
	ModeRandom Mode = iota // random variable, random phase
	ModeVSIDS              // activity, random phase
	ModeTrue               // random variable, true first
	ModeFalse              // random variable, false first
	ModeLow                // lowest variable, random phase
	ModeHigh               // highest variable, random phase
	ModeLowFalse
	NModes
)

type clause struct {
	lits  []int32
	learn bool
}

type Solver struct {
	n       int
	cls     []*clause
	watch   [][]*clause // literal index -> clauses watching it
	val     []int8      // var -> 0 unset, 1 true, -1 false
	level   []int32
	reason  []*clause
	trail   []int32
	lim     []int
	head    int
	act     []float64
	inc     float64
	phase   []int8
	rng     *rt.Rand
	mode    Mode
	seen    []bool
	order   []int32 // random order for the random modes
	ok      bool
	learnts [][]int32
	orig    [][]int32
	Confl   int
	heap    []int32
	hpos    []int32
	noProof bool
	used    []int32 // the variables that some clause has, ascending
}

func li(l int32) int {
	if l > 0 {
		return int(2 * l)
	}
	return int(-2*l + 1)
}

func New(n int, clauses [][]int, seed uint64, mode Mode) *Solver {
	s := &Solver{n: n, rng: rt.NewRand(seed), mode: mode, inc: 1, ok: true}
	s.watch = make([][]*clause, 2*n+2)
	s.val = make([]int8, n+1)
	s.level = make([]int32, n+1)
	s.reason = make([]*clause, n+1)
	s.act = make([]float64, n+1)
	s.phase = make([]int8, n+1)
	s.seen = make([]bool, n+1)
	s.hpos = make([]int32, n+1)
	for _, c := range clauses {
		for _, l := range c {
			s.seen[max(l, -l)] = true
		}
	}
	for v := 1; v <= n; v++ {
		// What a variable without clauses is.
		s.phase[v] = -1
		if mode == ModeTrue || mode != ModeFalse && mode != ModeLowFalse && s.rng.P(50) {
			s.phase[v] = 1
		}
		s.hpos[v] = -1
		if s.seen[v] {
			s.seen[v] = false
			s.used = append(s.used, int32(v))
			s.act[v] = float64(s.rng.N(1000)) / 1000
		}
	}
	for _, p := range s.rng.Perm(len(s.used)) {
		s.order = append(s.order, s.used[p])
	}
	for _, v := range s.used {
		s.heapInsert(v)
	}
	for _, c := range clauses {
		s.addClause(c)
	}
	return s
}

func (s *Solver) value(l int32) int8 {
	if l > 0 {
		return s.val[l]
	}
	return -s.val[-l]
}

func (s *Solver) addClause(c []int) {
	seen := map[int]bool{}
	var ls []int32
	for _, l := range c {
		if seen[-l] {
			return
		}
		if !seen[l] {
			seen[l] = true
			ls = append(ls, int32(l))
		}
	}
	s.orig = append(s.orig, ls)
	if !s.ok {
		return
	}
	// Level 0: drop false literals, skip satisfied clauses.
	var k []int32
	for _, l := range ls {
		switch s.value(l) {
		case 1:
			return
		case 0:
			k = append(k, l)
		}
	}
	switch len(k) {
	case 0:
		s.ok = false
	case 1:
		s.enqueue(k[0], nil)
		if s.propagate() != nil {
			s.ok = false
		}
	default:
		cl := &clause{lits: k}
		s.cls = append(s.cls, cl)
		s.attach(cl)
	}
}

func (s *Solver) attach(c *clause) {
	s.watch[li(c.lits[0])] = append(s.watch[li(c.lits[0])], c)
	s.watch[li(c.lits[1])] = append(s.watch[li(c.lits[1])], c)
}

func (s *Solver) enqueue(l int32, r *clause) {
	v := l
	if v < 0 {
		v = -v
		s.val[v] = -1
	} else {
		s.val[v] = 1
	}
	s.level[v] = int32(len(s.lim))
	s.reason[v] = r
	s.trail = append(s.trail, l)
}

func (s *Solver) propagate() *clause {
	for s.head < len(s.trail) {
		p := -s.trail[s.head] // became false
		s.head++
		ws := s.watch[li(p)]
		j := 0
		for i := 0; i < len(ws); i++ {
			c := ws[i]
			if c.lits[0] == p {
				c.lits[0], c.lits[1] = c.lits[1], c.lits[0]
			}
			if s.value(c.lits[0]) == 1 {
				ws[j] = c
				j++
				continue
			}
			found := false
			for k := 2; k < len(c.lits); k++ {
				if s.value(c.lits[k]) != -1 {
					c.lits[1], c.lits[k] = c.lits[k], c.lits[1]
					w := li(c.lits[1])
					s.watch[w] = append(s.watch[w], c)
					found = true
					break
				}
			}
			if found {
				continue
			}
			ws[j] = c
			j++
			if s.value(c.lits[0]) == -1 {
				for i++; i < len(ws); i++ {
					ws[j] = ws[i]
					j++
				}
				s.watch[li(p)] = ws[:j]
				return c
			}
			s.enqueue(c.lits[0], c)
		}
		s.watch[li(p)] = ws[:j]
	}
	return nil
}

func (s *Solver) bump(v int32) {
	s.act[v] += s.inc
	if s.act[v] > 1e100 {
		for i := range s.act {
			s.act[i] *= 1e-100
		}
		s.inc *= 1e-100
	}
	if s.hpos[v] >= 0 {
		s.heapUp(int(s.hpos[v]))
	}
}

func abs(l int32) int32 {
	if l < 0 {
		return -l
	}
	return l
}

func (s *Solver) analyze(c *clause) ([]int32, int) {
	learnt := []int32{0}
	cnt := 0
	var p int32
	idx := len(s.trail) - 1
	var touched []int32
	for {
		for _, q := range c.lits {
			if q == p {
				continue
			}
			v := abs(q)
			if !s.seen[v] && s.level[v] > 0 {
				s.seen[v] = true
				touched = append(touched, v)
				s.bump(v)
				if int(s.level[v]) == len(s.lim) {
					cnt++
				} else {
					learnt = append(learnt, q)
				}
			}
		}
		for !s.seen[abs(s.trail[idx])] {
			idx--
		}
		p = s.trail[idx]
		idx--
		c = s.reason[abs(p)]
		s.seen[abs(p)] = false
		cnt--
		if cnt == 0 {
			break
		}
	}
	learnt[0] = -p
	bt := 0
	if len(learnt) > 1 {
		m := 1
		for i := 2; i < len(learnt); i++ {
			if s.level[abs(learnt[i])] > s.level[abs(learnt[m])] {
				m = i
			}
		}
		learnt[1], learnt[m] = learnt[m], learnt[1]
		bt = int(s.level[abs(learnt[1])])
	}
	for _, v := range touched {
		s.seen[v] = false
	}
	s.inc *= 1.05
	return learnt, bt
}

func (s *Solver) backtrack(lv int) {
	if len(s.lim) <= lv {
		return
	}
	for i := len(s.trail) - 1; i >= s.lim[lv]; i-- {
		v := abs(s.trail[i])
		s.val[v] = 0
		s.reason[v] = nil
		if s.hpos[v] < 0 {
			s.heapInsert(v)
		}
	}
	s.trail = s.trail[:s.lim[lv]]
	s.lim = s.lim[:lv]
	s.head = len(s.trail)
}

func (s *Solver) pick() int32 {
	switch s.mode {
	case ModeVSIDS:
		for len(s.heap) > 0 {
			v := s.heapPop()
			if s.val[v] == 0 {
				return v
			}
		}
		return 0
	case ModeLow, ModeLowFalse:
		for _, v := range s.used {
			if s.val[v] == 0 {
				return v
			}
		}
		return 0
	case ModeHigh:
		for i := len(s.used) - 1; i >= 0; i-- {
			if v := s.used[i]; s.val[v] == 0 {
				return v
			}
		}
		return 0
	}
	if s.Confl > 200 { // fixed order is only for variety; do not thrash
		s.mode = ModeVSIDS
		return s.pick()
	}
	for _, v := range s.order {
		if s.val[v] == 0 {
			return v
		}
	}
	return 0
}

func (s *Solver) decide(v int32) int32 {
	t := false
	switch s.mode {
	case ModeTrue:
		t = true
	case ModeFalse, ModeLowFalse:
		t = false
	default:
		t = s.rng.P(50)
	}
	if t {
		return v
	}
	return -v
}

// Solve decides the formula under assumptions. budget bounds conflicts.
func (s *Solver) Solve(assume []int, budget int) Status {
	s.backtrack(0)
	if !s.ok {
		return Unsat
	}
	if s.propagate() != nil {
		s.ok = false
		return Unsat
	}
	restart := 100
	since := 0
	start := s.Confl
	if s.mode == ModeLow || s.mode == ModeHigh || s.mode == ModeLowFalse {
		restart = 1 << 30
	}
	for {
		c := s.propagate()
		if c != nil {
			s.Confl++
			since++
			if len(s.lim) == 0 {
				s.ok = false
				return Unsat
			}
			if s.Confl-start > budget {
				return Unknown
			}
			l, bt := s.analyze(c)
			s.backtrack(bt)
			if !s.noProof {
				s.learnts = append(s.learnts, append([]int32(nil), l...))
			}
			if len(l) == 1 {
				s.enqueue(l[0], nil)
			} else {
				cl := &clause{lits: l, learn: true}
				s.attach(cl)
				s.enqueue(l[0], cl)
			}
			if (s.mode == ModeLow || s.mode == ModeHigh || s.mode == ModeLowFalse) && s.Confl-start > 2000 {
				s.mode = ModeVSIDS
				restart = 100
			}
			continue
		}
		if since >= restart {
			since = 0
			restart += restart / 5
			s.backtrack(0)
			continue
		}
		// Assumptions first.
		var next int32
		done := true
		for len(s.lim) < len(assume) {
			a := int32(assume[len(s.lim)])
			if s.value(a) == 1 {
				s.lim = append(s.lim, len(s.trail))
				continue
			}
			if s.value(a) == -1 {
				return Unsat // under the assumptions
			}
			next = a
			done = false
			break
		}
		if done {
			v := s.pick()
			if v == 0 {
				return Sat
			}
			next = s.decide(v)
		}
		s.lim = append(s.lim, len(s.trail))
		s.enqueue(next, nil)
	}
}

// Model returns the current valuation; index 0 unused.
func (s *Solver) Model() []bool {
	m := make([]bool, s.n+1)
	for v := 1; v <= s.n; v++ {
		m[v] = s.val[v] == 1 || s.val[v] == 0 && s.phase[v] == 1
	}
	return m
}

// ------------------------------------------------------------------------ heap

func (s *Solver) less(a, b int32) bool { return s.act[a] > s.act[b] }
func (s *Solver) heapUp(i int) {
	x := s.heap[i]
	for i > 0 {
		p := (i - 1) / 2
		if !s.less(x, s.heap[p]) {
			break
		}
		s.heap[i] = s.heap[p]
		s.hpos[s.heap[i]] = int32(i)
		i = p
	}
	s.heap[i] = x
	s.hpos[x] = int32(i)
}
func (s *Solver) heapDown(i int) {
	x := s.heap[i]
	for {
		c := 2*i + 1
		if c >= len(s.heap) {
			break
		}
		if c+1 < len(s.heap) && s.less(s.heap[c+1], s.heap[c]) {
			c++
		}
		if !s.less(s.heap[c], x) {
			break
		}
		s.heap[i] = s.heap[c]
		s.hpos[s.heap[i]] = int32(i)
		i = c
	}
	s.heap[i] = x
	s.hpos[x] = int32(i)
}
func (s *Solver) heapInsert(v int32) {
	s.heap = append(s.heap, v)
	s.hpos[v] = int32(len(s.heap) - 1)
	s.heapUp(len(s.heap) - 1)
}
func (s *Solver) heapPop() int32 {
	v := s.heap[0]
	last := s.heap[len(s.heap)-1]
	s.heap = s.heap[:len(s.heap)-1]
	s.hpos[v] = -1
	if len(s.heap) > 0 {
		s.heap[0] = last
		s.hpos[last] = 0
		s.heapDown(0)
	}
	return v
}

// ------------------------------------------------------------------ verification

// CheckModel verifies a model against the clauses as parsed.
func CheckModel(clauses [][]int, m []bool) bool {
	for _, c := range clauses {
		ok := false
		for _, l := range c {
			if l > 0 && m[l] || l < 0 && !m[-l] {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// CheckRefutation re-derives an unconditional refutation by reverse unit propagation
// over the original clauses and the learned ones in order, with code of its own.
// Returns false only if a step does not follow.
func (s *Solver) CheckRefutation() bool {
	db := append([][]int32(nil), s.orig...)
	for _, l := range s.learnts {
		if !rup(s.n, db, l) {
			return false
		}
		db = append(db, l)
	}
	return rup(s.n, db, nil)
}

// Learned is the length of the refutation.
func (s *Solver) Learned() int { return len(s.learnts) }

func rup(n int, db [][]int32, c []int32) bool {
	val := make([]int8, n+1)
	set := func(l int32) {
		if l > 0 {
			val[l] = 1
		} else {
			val[-l] = -1
		}
	}
	get := func(l int32) int8 {
		if l > 0 {
			return val[l]
		}
		return -val[-l]
	}
	for _, l := range c {
		set(-l)
	}
	for changed := true; changed; {
		changed = false
		for _, cl := range db {
			un, cnt := int32(0), 0
			sat := false
			for _, l := range cl {
				switch get(l) {
				case 1:
					sat = true
				case 0:
					un = l
					cnt++
				}
				if sat || cnt > 1 {
					break
				}
			}
			if sat || cnt > 1 {
				continue
			}
			if cnt == 0 {
				return true
			}
			set(un)
			changed = true
		}
	}
	return false
}
