package rt

// The simulated clock.  A step takes StepNanos; when no task can run the clock
// jumps to the next timer.

const StepNanos = 1000

type Timer struct {
	at   int64
	seq  int64
	fire func()
	on   bool
}

// Nanos is the simulated time.
func Nanos() int64 {
	s := sim
	if s == nil {
		return 0
	}
	return s.Now()*StepNanos + s.jumped
}

// AddTimer arranges f (which must not block) to be called after d.
func AddTimer(d int64, f func()) *Timer {
	s := sim
	if d < 0 {
		d = 0
	}
	if s == nil || cur == nil {
		return &Timer{}
	}
	s.ntimer++
	tm := &Timer{at: Nanos() + d, seq: s.ntimer, fire: f, on: true}
	s.timers = append(s.timers, tm)
	return tm
}

// Stop reports whether the timer was pending.
func (tm *Timer) Stop() bool {
	was := tm.on
	tm.on = false
	return was
}

func (s *Sim) earliest() *Timer {
	var b *Timer
	k := 0
	for _, t := range s.timers {
		if !t.on {
			continue
		}
		s.timers[k] = t
		k++
		if b == nil || t.at < b.at || t.at == b.at && t.seq < b.seq {
			b = t
		}
	}
	s.timers = s.timers[:k]
	return b
}

func (s *Sim) fireDue(t *Task) {
	if len(s.timers) == 0 || s.grp != 0 {
		return
	}
	now := s.now(t)*StepNanos + s.jumped
	for {
		b := s.earliest()
		if b == nil || b.at > now {
			return
		}
		b.on = false
		b.fire()
	}
}

// jump advances the clock to the next timer.
func (s *Sim) jump() bool {
	if len(s.timers) == 0 || s.dying {
		return false
	}
	b := s.earliest()
	if b == nil {
		return false
	}
	if d := b.at - (s.steps*StepNanos + s.jumped); d > 0 {
		s.jumped += d
		s.St.Jumps++
	}
	b.on = false
	b.fire()
	return true
}

// Sleep parks the running task for d nanoseconds of simulated time.
func Sleep(d int64) {
	t := cur
	if t == nil || t.dying || t.unw {
		return
	}
	Y(0)
	if d <= 0 {
		Gosched()
		return
	}
	done := false
	s := sim
	AddTimer(d, func() { done = true; s.ready(t) })
	for !done && !t.dying {
		s.block(t)
	}
}

// TrySend puts v into a channel made by MakeChan if there is room (for timers).
func TrySend[T any](c chan T, v T) {
	s := sim
	if s == nil {
		return
	}
	sc := s.findCh(ptrOf(c))
	if sc != nil && !sc.closed {
		s.trySend(sc, v)
	}
}
