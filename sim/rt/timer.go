package rt

// Timer is an entry of the simulated clock.
type Timer struct {
	at   int64
	seq  int
	f    func()
	dead bool
}

// After arranges for f at d nanoseconds from now: at the latest when nothing else can
// happen, otherwise when the clock gets there and somebody looks.
func (w *World) After(d int64, f func()) *Timer {
	if d < 0 {
		d = 0
	}
	w.timerN++
	t := &Timer{at: w.Now + d, seq: w.timerN, f: f}
	w.timers = append(w.timers, t)
	return t
}

// Stop reports whether the timer was still pending.
func (t *Timer) Stop() bool {
	if t == nil || t.dead {
		return false
	}
	t.dead = true
	return true
}

func (w *World) first() *Timer {
	var b *Timer
	live := w.timers[:0]
	for _, t := range w.timers {
		if t.dead {
			continue
		}
		live = append(live, t)
		if b == nil || t.at < b.at || t.at == b.at && t.seq < b.seq {
			b = t
		}
	}
	w.timers = live
	return b
}

// Due fires the timers whose time has come.
func (w *World) Due() {
	for len(w.timers) > 0 {
		t := w.first()
		if t == nil || t.at > w.Now {
			return
		}
		t.dead = true
		t.f()
	}
}

// fireNext moves the clock to the next timer.
func (w *World) fireNext() bool {
	t := w.first()
	if t == nil {
		return false
	}
	if t.at > w.Now {
		w.Now = t.at
	}
	t.dead = true
	w.Event("timer at %d", t.at)
	t.f()
	return true
}

// Sleep lets d nanoseconds pass; other threads run meanwhile.
func (w *World) Sleep(d int64) {
	if e := Cur(); d <= 0 || e != nil && e.Dead {
		return
	}
	if w.sch == nil || len(w.sch.th) == 1 && len(w.timers) == 0 {
		w.Now += d
		return
	}
	over := false
	w.After(d, func() { over = true })
	for {
		if w.Due(); over {
			return
		}
		Block()
	}
}
