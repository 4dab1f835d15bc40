// Package simsync replaces sync in the code under test: a caller that would block
// lets another caller run instead of blocking the only running thread. What a caller
// held when it crashed is free again: it stands for a process of its own.
package simsync

import (
	"fmt"
	"sort"
	"sync"

	"vsim/rt"
)

type Locker = sync.Locker

func wait() { rt.Block() }

func gone(e *rt.Env) bool { return e != nil && e.Dead }

type Mutex struct {
	mu    sync.Mutex
	held  bool
	owner *rt.Env
}

func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.held && !gone(m.owner) {
		return false
	}
	m.held, m.owner = true, rt.Cur()
	return true
}
func (m *Mutex) Lock() {
	if gone(rt.Cur()) {
		return
	}
	for !m.TryLock() {
		wait()
	}
}
func (m *Mutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if e := rt.Cur(); gone(e) {
		if m.owner == e {
			m.held, m.owner = false, nil
		}
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held, m.owner = false, nil
}

type RWMutex struct {
	mu      sync.Mutex
	held    bool
	owner   *rt.Env
	readers []*rt.Env
}

func (m *RWMutex) clear() {
	if m.held && gone(m.owner) {
		m.held = false
	}
	var r []*rt.Env
	for _, e := range m.readers {
		if !gone(e) {
			r = append(r, e)
		}
	}
	m.readers = r
}
func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.clear()
	if m.held || len(m.readers) > 0 {
		return false
	}
	m.held, m.owner = true, rt.Cur()
	return true
}
func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.clear()
	if m.held {
		return false
	}
	m.readers = append(m.readers, rt.Cur())
	return true
}
func (m *RWMutex) Lock() {
	if gone(rt.Cur()) {
		return
	}
	for !m.TryLock() {
		wait()
	}
}
func (m *RWMutex) RLock() {
	if gone(rt.Cur()) {
		return
	}
	for !m.TryRLock() {
		wait()
	}
}
func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if e := rt.Cur(); gone(e) {
		m.clear()
		return
	}
	if !m.held {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.held, m.owner = false, nil
}
func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	e := rt.Cur()
	if gone(e) {
		m.clear()
		return
	}
	if len(m.readers) == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	at := len(m.readers) - 1
	for i, x := range m.readers {
		if x == e {
			at = i
		}
	}
	m.readers = append(m.readers[:at:at], m.readers[at+1:]...)
}
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// WaitGroup: Wait lets the others run.
type WaitGroup struct {
	n int
}

func (g *WaitGroup) Add(d int) {
	if gone(rt.Cur()) {
		return
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	for g.n > 0 && !gone(rt.Cur()) {
		wait()
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go(func() {
		defer g.Done()
		f()
	})
}

// Cond wakes waiters in an order the run decides.
type Cond struct {
	L  Locker
	ws []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	if gone(rt.Cur()) {
		return
	}
	woken := new(bool)
	c.ws = append(c.ws, woken)
	c.L.Unlock()
	for !*woken && !gone(rt.Cur()) {
		wait()
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	if n := len(c.ws); n > 0 {
		*c.ws[0] = true // first come, first served, as in the real one
		c.ws = c.ws[1:]
	}
}
func (c *Cond) Broadcast() {
	for _, w := range c.ws {
		*w = true
	}
	c.ws = nil
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			if !gone(rt.Cur()) {
				o.done = true
			}
		}()
		f()
	}
}
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool hands out what was put last: the worst case for code that relies on fresh
// objects, and a deterministic one.
type Pool struct {
	New  func() any
	mu   sync.Mutex
	list []any
}

func (p *Pool) Get() any {
	p.mu.Lock()
	n := len(p.list)
	if n > 0 {
		x := p.list[n-1]
		p.list = p.list[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.list = append(p.list, x)
}

// Map iterates in an order the run decides.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, a, b any) bool  { return m.m.CompareAndSwap(k, a, b) }
func (m *Map) CompareAndDelete(k, a any) bool   { return m.m.CompareAndDelete(k, a) }
func (m *Map) Clear()                           { m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	var ks []any
	m.m.Range(func(k, _ any) bool { ks = append(ks, k); return true })
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprintf("%#v", ks[i]) < fmt.Sprintf("%#v", ks[j]) })
	for _, i := range rt.MapPerm(len(ks)) {
		if v, ok := m.m.Load(ks[i]); ok && !f(ks[i], v) {
			return
		}
	}
}

// VrtShim marks the simulated package.
const VrtShim = 0
