// Package rt is the runtime of the simulator: the world (disk, programs, callers),
// the cooperative scheduler, the fault plan and the event log. The instrumented code
// under test calls Y, KV and Go; simos, simexec and simtime are facades over it.
package rt

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync/atomic"
)

// ---------------------------------------------------------------- randomness

// Rand is a splitmix64 generator: small, seedable, identical everywhere.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability p percent.
func (r *Rand) P(p int) bool { return r.N(100) < p }

func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Mix derives an independent seed.
func Mix(parts ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		r := Rand{h ^ p*0x9e3779b97f4a7c15}
		h = r.U64()
	}
	return h
}

func HashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// --------------------------------------------------------------------- faults

// Fault makes the Nth (from 1) operation Op of a caller fail in the way Kind says.
type Fault struct {
	Client int    `json:"client"`
	Op     string `json:"op"`
	Nth    int    `json:"nth"`
	Kind   string `json:"kind"`
	Arg    int    `json:"arg"`
	Sticky bool   `json:"sticky,omitempty"`
}

func (f Fault) String() string {
	s := fmt.Sprintf("caller %d: %s #%d -> %s(%d)", f.Client, f.Op, f.Nth, f.Kind, f.Arg)
	if f.Sticky {
		s += " sticky"
	}
	return s
}

// Env is one simulated caller thread.
type Env struct {
	ID       int
	Count    map[string]int // operations so far, per kind
	Faults   []Fault
	Fired    []Fault
	Dead     bool   // crashed: nothing it does reaches the world any more
	CrashAt  uint64 // local yield count at which it crashes (0: never)
	Local    uint64
	Handles  int // open file handles
	Started  int // solver processes started
	Killable bool
	ChunkRng *Rand
	User     any
}

func NewEnv(id int) *Env {
	return &Env{ID: id, Count: map[string]int{}, ChunkRng: NewRand(Mix(uint64(id), 77))}
}

// Heal removes all faults that have not fired yet.
func (e *Env) Heal() { e.Faults = nil }

// Next counts an operation and returns the fault planned for it, if any.
func (e *Env) Next(op string) *Fault {
	e.Count[op]++
	n := e.Count[op]
	for i := range e.Faults {
		f := &e.Faults[i]
		if f.Op == op && (f.Nth == n || (f.Sticky && n > f.Nth)) {
			e.Fired = append(e.Fired, *f)
			if W != nil {
				W.Stats["fault:"+op+":"+f.Kind]++
			}
			return f
		}
	}
	return nil
}

// ---------------------------------------------------------------------- world

// Proc is a started program.
type Proc struct {
	Env   *Env
	Args  []string
	Stdin []byte
	Nth   int // number of this start among the caller's
	Fault *Fault
}

// Exit is how a program ended.
type Exit struct {
	Code   int
	Signal int
	Stdout []byte
	Stderr []byte
}

type World struct {
	FS       *FS
	Programs map[string]func(*Proc) Exit
	Log      []string
	LogOn    bool
	hash     uint64
	MapSeed  uint64 // 0: canonical order
	HostSeed uint64 // what the machine is like: its clock, name, processors; 0: the usual one
	mapN     uint64
	randN    uint64
	quiet    int
	Stats    map[string]int
	Yields   uint64
	Budget   uint64
	Vars     map[string]string // environment variables
	TempSeed uint64
	tempN    uint64
	cur      *Env
	sch      *Sched
	Now      int64 // simulated nanoseconds
	timers   []*Timer
	timerN   int
	selN     uint64
	chans    map[uintptr]*simchan
	Fatal    string // a goroutine of the code panicked: the process would be gone
}

// W is the current world (one run at a time per process). Before main it is the world
// in which the packages of the code under test are initialised.
var W *World

var boot *World

// Boot is what tells a process from others running the same program: what package
// initialisation finds (clock, process number, random seeds, order of maps) depends on
// it.
var Boot uint64

func init() {
	Boot, _ = strconv.ParseUint(os.Getenv("VSIM_BOOT"), 10, 64)
	W = NewWorld()
	W.MapSeed, W.HostSeed, W.TempSeed = Boot, Boot, Boot
}

// Booted ends initialisation. Files it made are in every later world.
func Booted() { boot, W = W, nil }

// Active is false when no world runs.
// Host draws a fact about the machine, 0 for the usual one.
func Host(fact uint64) uint64 {
	if W == nil || W.HostSeed == 0 {
		return 0
	}
	return Mix(W.HostSeed, fact) | 1<<40
}

func NewWorld() *World {
	w := &World{Programs: map[string]func(*Proc) Exit{}, Stats: map[string]int{}, Vars: map[string]string{"PATH": "/sim", "HOME": "/work"}, hash: 14695981039346656037, Budget: 1 << 34}
	w.FS = newFS()
	w.cur = NewEnv(0)
	if boot != nil {
		for p, ino := range boot.FS.Files {
			w.FS.Files[p] = &Inode{Data: append([]byte(nil), ino.Data...), Owner: -1, Mode: ino.Mode}
		}
		for p := range boot.FS.Dirs {
			w.FS.Dirs[p] = true
		}
	}
	return w
}

// Event appends to the event log (and its running hash). No randomness here.
func (w *World) Event(format string, a ...any) {
	id := -1
	if e := Cur(); e != nil {
		id = e.ID
	}
	s := fmt.Sprintf("c%d ", id) + fmt.Sprintf(format, a...)
	for i := 0; i < len(s); i++ {
		w.hash = (w.hash ^ uint64(s[i])) * 1099511628211
	}
	w.hash = (w.hash ^ '\n') * 1099511628211
	if w.LogOn {
		w.Log = append(w.Log, s)
	}
}

func (w *World) Hash() uint64 { return w.hash }

// TempSuffix returns the random part of a temporary name.
func (w *World) TempSuffix() string {
	w.tempN++
	return strconv.FormatUint(Mix(w.TempSeed, w.tempN)%10000000000, 10)
}

// SetCur sets the caller on whose behalf sequential code runs.
func (w *World) SetCur(e *Env) { w.cur = e }

// Cur returns the calling thread's Env.
func Cur() *Env {
	if W == nil {
		return nil
	}
	return W.cur
}

// ------------------------------------------------------------------- coverage

// Cov counts which instrumented sites were reached (process-wide).
var Cov []uint32

// ---------------------------------------------------------------------- yield

// BudgetExceeded is thrown when a run executes more statements than allowed.
type BudgetExceeded struct{ Yields uint64 }

// Overran is set when a run is cut off.
var Overran bool

// Y is called before every statement of the code under test.
func Y(site int) {
	if site < len(Cov) {
		Cov[site]++
	}
	w := W
	if w == nil {
		return
	}
	if w.quiet > 0 {
		return
	}
	w.Yields++
	if w.Yields&(1<<22-1) == 0 && w.Yields > 1<<25 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 3<<30 {
			w.Budget = w.Yields - 1
		}
	}
	if w.Yields > w.Budget {
		Overran = true
		if w.cur != nil && !w.cur.Dead {
			panic(BudgetExceeded{w.Yields})
		}
		return
	}
	if w.sch != nil {
		w.sch.tick(w)
	}
}

// ------------------------------------------------------------------ scheduler

// Switch is one recorded scheduling decision.
type Switch struct {
	At  uint64 `json:"at"`            // global yield count
	To  int    `json:"to"`            // caller that runs next
	End bool   `json:"end,omitempty"` // made because the running caller ended
}

// Plan decides the interleaving: either drawn from a seed or given explicitly.
type Plan struct {
	Explicit bool     `json:"explicit"`
	Seed     uint64   `json:"seed,omitempty"`
	Gap      int      `json:"gap,omitempty"` // mean statements between preemptions
	Switches []Switch `json:"switches,omitempty"`
}

type thread struct {
	env     *Env
	resume  chan struct{}
	done    bool
	aux     bool // a goroutine the code under test started
	exiting bool // its caller crashed: only its deferred calls still run
}

type Sched struct {
	plan   Plan
	rng    *Rand
	th     []*thread
	cur    int
	left   uint64
	next   int // index in plan.Switches
	Rec    []Switch
	finish chan struct{}

	blockAt uint64
	blocks  int

	mains    int   // callers that are not over
	auxGap   int   // mean statements between preemptions once there are goroutines
	auxRng   *Rand // decides for them where the plan has no preemptions
	draining bool  // the callers are over, goroutines of the code are left
	fired    int   // timers fired without progress
	firedAt  uint64
	stuck    bool // nobody can go on: the next caller to run is told
}

func (s *Sched) gap() uint64 {
	if s.plan.Gap <= 0 {
		if s.auxGap > 0 {
			return 1 + uint64(s.auxRng.N(2*s.auxGap))
		}
		return 1 << 62
	}
	return 1 + uint64(s.rng.N(2*s.plan.Gap))
}

// pick chooses among the threads that may run.
func (s *Sched) pick(r []int) int {
	if s.auxGap > 0 && s.plan.Gap <= 0 {
		return r[s.auxRng.N(len(r))]
	}
	return r[s.rng.N(len(r))]
}

func (s *Sched) runnable(except int) []int {
	var r []int
	for i, t := range s.th {
		if i != except && !t.done {
			r = append(r, i)
		}
	}
	return r
}

func (s *Sched) tick(w *World) {
	t := s.th[s.cur]
	if t.env.Dead {
		s.reap(t)
		return
	}
	t.env.Local++
	if t.env.CrashAt != 0 && t.env.Local >= t.env.CrashAt {
		t.env.Dead = true
		w.Stats["fault:crash"]++
		w.Event("crash at statement %d", t.env.Local)
		s.reap(t)
	}
	to := -1
	if s.plan.Explicit {
		for s.next < len(s.plan.Switches) {
			sw := s.plan.Switches[s.next]
			if sw.End || sw.At > w.Yields {
				break
			}
			s.next++
			if sw.At == w.Yields {
				to = sw.To
				break
			}
		}
	} else {
		s.left--
		if s.left == 0 {
			s.left = s.gap()
			r := s.runnable(s.cur)
			if len(r) > 0 {
				to = s.pick(r)
			}
		}
	}
	if to < 0 || to == s.cur || to >= len(s.th) || s.th[to].done {
		return
	}
	s.Rec = append(s.Rec, Switch{At: w.Yields, To: to})
	s.handoff(w, to)
	<-t.resume
	s.reap(t)
}

// reap ends a thread whose caller crashed.
func (s *Sched) reap(t *thread) {
	if t.env.Dead && !t.exiting {
		t.exiting = true
		runtime.Goexit()
	}
}

func (s *Sched) handoff(w *World, to int) {
	s.cur = to
	w.cur = s.th[to].env
	s.th[to].resume <- struct{}{}
}

// ended is called by a thread that is over; it passes control on.
func (s *Sched) ended(w *World, me int) {
	s.th[me].done = true
	if !s.th[me].aux {
		s.mains--
		s.draining = s.mains == 0
	}
	r := s.runnable(-1)
	if len(r) == 0 {
		close(s.finish)
		return
	}
	to := r[0]
	if s.plan.Explicit {
		// Skip decisions that can no longer apply, then take a recorded one.
		for k := s.next; k < len(s.plan.Switches); k++ {
			sw := s.plan.Switches[k]
			if sw.End {
				for _, x := range r {
					if x == sw.To {
						to = x
					}
				}
				s.next = k + 1
				break
			}
			if sw.At > w.Yields {
				break
			}
		}
	} else {
		to = s.pick(r)
		s.left = s.gap()
	}
	s.Rec = append(s.Rec, Switch{At: w.Yields, To: to, End: true})
	s.handoff(w, to)
}

// RunThreads runs the bodies as simulated callers, exactly one at a time, switching
// between them at yield points as the plan says. Returns the decisions taken.
func (w *World) RunThreads(plan Plan, envs []*Env, bodies []func()) []Switch {
	s := &Sched{plan: plan, rng: NewRand(plan.Seed), finish: make(chan struct{}), mains: len(bodies)}
	s.auxRng = NewRand(Mix(plan.Seed, w.MapSeed, w.TempSeed, 5))
	s.left = s.gap()
	for i := range bodies {
		s.th = append(s.th, &thread{env: envs[i], resume: make(chan struct{})})
	}
	saved := w.cur
	w.sch = s
	for i := range bodies {
		i := i
		go func() {
			<-s.th[i].resume
			defer s.ended(w, i)
			bodies[i]()
		}()
	}
	first := 0
	if !plan.Explicit && len(bodies) > 1 {
		first = s.rng.N(len(bodies))
	} else if plan.Explicit && len(plan.Switches) > 0 && plan.Switches[0].At == 0 {
		first = plan.Switches[0].To
		s.next = 1
		if first >= len(bodies) {
			first = 0
		}
	}
	s.Rec = append(s.Rec, Switch{At: 0, To: first})
	s.handoff(w, first)
	<-s.finish
	w.sch = nil
	w.cur = saved
	return s.Rec
}

// Deadlock is thrown when every caller waits for another one.
type Deadlock struct{}

// Block is called by a thread that cannot go on before something else happens: it
// passes control to the next thread in turn. When nobody can go on the clock moves to
// the next timer; without one the callers are stuck.
func Block() {
	w := W
	if w == nil || w.sch == nil {
		if w != nil && w.fireNext() {
			return
		}
		panic(Deadlock{})
	}
	s := w.sch
	me := s.cur
	t := s.th[me]
	s.reap(t)
	if w.Yields != s.blockAt {
		s.blockAt, s.blocks = w.Yields, 0
	}
	s.blocks++
	to := -1
	if s.blocks <= 3*len(s.th)+3 {
		for k := 1; k < len(s.th); k++ {
			if i := (me + k) % len(s.th); !s.th[i].done {
				to = i
				break
			}
		}
	}
	if to < 0 {
		if s.draining || w.Yields == s.firedAt {
			s.fired++
		} else {
			s.fired = 0
		}
		s.firedAt = w.Yields
		if s.fired < 200 && w.fireNext() {
			s.blocks = 0
			return
		}
		if !t.aux {
			panic(Deadlock{})
		}
		if s.draining {
			// What is left waits for ever.
			w.Stats["goroutines-left-blocked"]++
			close(s.finish)
			select {}
		}
		s.stuck = true
		for i, x := range s.th {
			if !x.aux && !x.done {
				to = i
				break
			}
		}
	}
	w.Stats["blocked"]++
	s.handoff(w, to)
	<-t.resume
	s.reap(t)
	if s.stuck && !t.aux {
		s.stuck = false
		panic(Deadlock{})
	}
}

// Quiet runs f without yield points: observations of the harness through the code
// under test are not part of the run.
func Quiet(f func()) {
	W.quiet++
	defer func() { W.quiet-- }()
	f()
}

// MapPerm is the order in which a map with n keys is visited.
func MapPerm(n int) []int {
	if W == nil || W.MapSeed == 0 || n < 2 {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		return p
	}
	W.mapN++
	W.Stats["map-order-permuted"]++
	return NewRand(Mix(W.MapSeed, W.mapN)).Perm(n)
}

// EnvRand is what a process-wide random generator yields.
func EnvRand() uint64 {
	if W == nil {
		return 1
	}
	W.randN++
	return Mix(W.MapSeed, W.TempSeed, W.randN, 99)
}

// ------------------------------------------------- goroutines of the code itself

// UsedGo records that the code under test started goroutines of its own.
var UsedGo atomic.Bool

// Go starts a goroutine of the code under test: one more thread of its caller, run by
// the same scheduler, preempted at the same yield points.
func Go(f func()) {
	w := W
	if w == nil || w.sch == nil {
		f()
		return
	}
	s := w.sch
	e := Cur()
	if e.Dead {
		return
	}
	UsedGo.Store(true)
	w.Stats["goroutines"]++
	t := &thread{env: e, resume: make(chan struct{}), aux: true}
	i := len(s.th)
	s.th = append(s.th, t)
	w.Event("go #%d", i)
	if s.auxGap == 0 {
		s.auxGap = 1 + s.auxRng.N(60)
	}
	if g := s.gap(); !s.plan.Explicit && g < s.left {
		s.left = g
	}
	go func() {
		<-t.resume
		defer s.ended(w, i)
		defer func() {
			if e.Dead {
				return
			}
			if x := recover(); x != nil {
				if _, ok := x.(BudgetExceeded); ok {
					return
				}
				w.Event("goroutine #%d panics: %v", i, x)
				if w.Fatal == "" {
					w.Fatal = fmt.Sprint(x)
				}
			}
		}()
		if !e.Dead {
			f()
		}
	}()
}

// Enter marks an operation on the world.
func Enter() func() { return func() {} }

// ---------------------------------------------------------------- map iteration

// Entry is one pending element of a map iteration.
type Entry[K comparable, V any] struct {
	m map[K]V
	K K
}

// Live is false for entries removed since the iteration began.
func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }
func (e Entry[K, V]) V() V       { return e.m[e.K] }

// KV replaces `range m`: the order is a function of the run's map seed.
func KV[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	es := make([]Entry[K, V], 0, len(m))
	for k := range m {
		es = append(es, Entry[K, V]{m, k})
	}
	keys := make(map[K]string, len(es))
	for _, e := range es {
		keys[e.K] = fmt.Sprintf("%#v", any(e.K))
	}
	sort.Slice(es, func(i, j int) bool { return keys[es[i].K] < keys[es[j].K] })
	if W != nil && W.MapSeed != 0 && len(es) > 1 {
		W.mapN++
		r := NewRand(Mix(W.MapSeed, W.mapN))
		for i := len(es) - 1; i > 0; i-- {
			j := r.N(i + 1)
			es[i], es[j] = es[j], es[i]
		}
		W.Stats["map-order-permuted"]++
	}
	return es
}
