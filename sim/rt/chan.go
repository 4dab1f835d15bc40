package rt

import "reflect"

// Channels of the code under test. Its channel operations call Send, Recv, Recv2,
// Close, Len and Select, which keep the channel's contents here, so that blocking is
// the scheduler's business and the choice of a select the run's. A channel filled or
// closed by code that is not instrumented still works: what the real channel holds
// is received when nothing is here.

type simchan struct {
	keep   any // keeps the address taken
	buf    []any
	closed bool
	sendq  []*sender
	recvq  int // receivers waiting (a select with a send to an unbuffered channel needs one)
}

type sender struct {
	v     any
	taken bool
	gone  bool
}

func chanOf(c any, p uintptr) *simchan {
	w := W
	if w.chans == nil {
		w.chans = map[uintptr]*simchan{}
	}
	s := w.chans[p]
	if s == nil {
		s = &simchan{keep: c}
		w.chans[p] = s
	}
	return s
}

func ptr(c any) uintptr { return reflect.ValueOf(c).Pointer() }

func dead() bool {
	e := Cur()
	return e != nil && e.Dead
}

func (s *simchan) get() (any, bool) {
	if len(s.buf) > 0 {
		v := s.buf[0]
		s.buf = append([]any(nil), s.buf[1:]...)
		for len(s.sendq) > 0 {
			x := s.sendq[0]
			s.sendq = s.sendq[1:]
			if !x.gone {
				x.taken = true
				s.buf = append(s.buf, x.v)
				break
			}
		}
		return v, true
	}
	for len(s.sendq) > 0 {
		x := s.sendq[0]
		s.sendq = s.sendq[1:]
		if !x.gone {
			x.taken = true
			return x.v, true
		}
	}
	return nil, false
}

// tryRecv receives without waiting.
func tryRecv[T any](c <-chan T) (v T, ok, got bool) {
	if c == nil {
		return v, false, false
	}
	W.Due()
	s := chanOf(c, ptr(c))
	if x, have := s.get(); have {
		v, _ = x.(T)
		return v, true, true
	}
	select {
	case v, ok = <-c:
		return v, ok, true
	default:
	}
	return v, false, s.closed
}

func Recv2[T any](c <-chan T) (v T, ok bool) {
	if W == nil {
		v, ok = <-c
		return
	}
	waiting := false
	for !dead() {
		x, ok, got := tryRecv(c)
		if got {
			if waiting {
				chanOf(c, ptr(c)).recvq--
			}
			return x, ok
		}
		if c != nil && !waiting {
			waiting = true
			chanOf(c, ptr(c)).recvq++
		}
		Block()
	}
	return
}

func Recv[T any](c <-chan T) T { v, _ := Recv2(c); return v }

func Send[T any](c chan<- T) func(T) {
	return func(v T) {
		if W == nil {
			c <- v
			return
		}
		if dead() {
			return
		}
		if c == nil {
			for {
				Block()
			}
		}
		s := chanOf(c, ptr(c))
		if s.closed {
			panic("send on closed channel")
		}
		if len(s.buf) < cap(c) && len(s.sendq) == 0 {
			s.buf = append(s.buf, v)
			return
		}
		x := &sender{v: v}
		s.sendq = append(s.sendq, x)
		defer func() { x.gone = true }()
		for !x.taken && !dead() {
			if s.closed {
				panic("send on closed channel")
			}
			Block()
		}
	}
}

func Close[T any](c chan<- T) {
	if W == nil {
		close(c)
		return
	}
	if dead() {
		return
	}
	close(c) // panics as it should
	chanOf(c, ptr(c)).closed = true
}

func Len[T any](c <-chan T) int {
	if W == nil || c == nil {
		return len(c)
	}
	return len(chanOf(c, ptr(c)).buf) + len(c)
}

// Case is one case of a select.
type Case interface {
	try(wait bool) bool
	leave()
}

type RecvCase[T any] struct {
	V    T
	OK   bool
	c    <-chan T
	wait bool
}

func R[T any](c <-chan T) *RecvCase[T] { return &RecvCase[T]{c: c} }

func (r *RecvCase[T]) try(wait bool) bool {
	v, ok, got := tryRecv(r.c)
	if got {
		r.V, r.OK = v, ok
		return true
	}
	if wait && !r.wait && r.c != nil {
		r.wait = true
		chanOf(r.c, ptr(r.c)).recvq++
	}
	return false
}
func (r *RecvCase[T]) leave() {
	if r.wait {
		r.wait = false
		chanOf(r.c, ptr(r.c)).recvq--
	}
}

type SendCase[T any] struct {
	c chan<- T
	v T
}

func S[T any](c chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{c, v} }
}

func (x *SendCase[T]) try(bool) bool {
	if x.c == nil {
		return false
	}
	s := chanOf(x.c, ptr(x.c))
	if s.closed {
		panic("send on closed channel")
	}
	if len(s.buf)+len(s.sendq) < cap(x.c) {
		s.buf = append(s.buf, x.v)
		return true
	}
	if n := len(s.sendq); cap(x.c) == 0 && n < s.recvq {
		// A receiver waits: it will find the value when it runs.
		s.sendq = append(s.sendq, &sender{v: x.v})
		return true
	}
	return false
}
func (x *SendCase[T]) leave() {}

// Select chooses among the cases that can go on, or -1 for the default.
func Select(def bool, cs ...Case) int {
	defer func() {
		for _, c := range cs {
			c.leave()
		}
	}()
	for {
		order := make([]int, len(cs))
		for i := range order {
			order[i] = i
		}
		if W != nil && len(cs) > 1 {
			W.selN++
			order = NewRand(Mix(W.MapSeed, W.TempSeed, W.selN, 7)).Perm(len(cs))
		}
		for _, i := range order {
			if cs[i].try(!def) {
				return i
			}
		}
		if def || dead() {
			return -1
		}
		Block()
	}
}
