package vp

import (
	"runtime"
	"time"
)

// The native counterpart of the engine's modelled concurrency.  Threads are
// goroutines that pass a baton, and every scheduling decision is read from the
// record.  Nothing here synchronises as far as the race detector can see (no
// instrumented access, no synchronising call, no map and no append), so that a
// replay under the race detector sees only what the code under test does; the
// stand-ins in sshim do their synchronisation on the real primitives.

const most = 200

type thread struct {
	id   int
	s    *sched
	done bool
	rk   int // what it waits for
	mx   *Lock
	wg   *Group
	of   *thread
	turn bool
	fin  chan struct{}
}

const (
	rNone = iota
	rFree
	rNoWriter
	rZero
	rDone
	rAll
)

// Lock is the scheduler's view of a lock.
type Lock struct {
	locked  bool
	readers int
}

// Group is the scheduler's view of a wait group.
type Group struct{ n int }

// Timer is a modelled timer.
type Timer struct {
	f     func()
	d     time.Duration
	armed bool
	start *thread
}

type sched struct {
	explore, timersOn, abort, failed bool
	bound, used, n, nt, starts       int
	threads                          [most]*thread
	timers                           [most]*Timer
	pending                          interface{}
	cur                              *thread
}

var sc = newSched()

func newSched() *sched {
	s := &sched{n: 1}
	s.threads[0] = &thread{s: s}
	s.cur = s.threads[0]
	return s
}

// resetSched forgets the last run.
//
//go:norace
func resetSched() {
	sc.abort = true
	sc = newSched()
}

//go:norace
func (t *thread) ready() bool {
	switch t.rk {
	case rFree:
		return !t.mx.locked && t.mx.readers == 0
	case rNoWriter:
		return !t.mx.locked
	case rZero:
		return t.wg.n == 0
	case rDone:
		return t.of.done
	case rAll:
		for i := 1; i < t.s.n; i++ {
			if !t.s.threads[i].done {
				return false
			}
		}
	}
	return true
}

//go:norace
func nextSched() int {
	if pos >= len(vals) || vals[pos].K != "sched" {
		panic(Diverged{"a scheduling decision was not recorded"})
	}
	pos++
	return int(vals[pos-1].V)
}

// pick chooses the next thread to run, as the engine does.
//
//go:norace
func (s *sched) pick(cur *thread) *thread {
	for {
		var opts [most]*thread
		no := 0
		curOK := !cur.done && cur.ready()
		if curOK {
			opts[0] = cur
			no = 1
		}
		for i := 0; i < s.n; i++ {
			t := s.threads[i]
			if t != cur && !t.done && t.ready() {
				opts[no] = t
				no++
			}
		}
		var tm [most]*Timer
		nm := 0
		if s.timersOn {
			for i := 0; i < s.nt; i++ {
				if s.timers[i].armed {
					tm[nm] = s.timers[i]
					nm++
				}
			}
		}
		if no+nm == 0 {
			panic(Failure{"deadlock: no runnable thread"})
		}
		if !s.explore {
			if no > 0 {
				return opts[0]
			}
			s.fire(tm[0])
			continue
		}
		if curOK && s.used >= s.bound {
			return cur
		}
		k := nextSched()
		if k >= no+nm {
			panic(Diverged{"no such scheduling decision"})
		}
		if k < no {
			if curOK && opts[k] != cur {
				s.used++
			}
			return opts[k]
		}
		if curOK {
			s.used++
		}
		return s.fire(tm[k-no])
	}
}

//go:norace
func (s *sched) add() *thread {
	t := &thread{id: s.n, s: s, fin: make(chan struct{})}
	s.threads[s.n] = t
	s.n++
	return t
}

//go:norace
func (s *sched) fire(r *Timer) *thread {
	r.armed = false
	t := r.start
	t.id = s.n
	s.threads[s.n] = t
	s.n++
	return t
}

//go:norace
func (t *thread) await() {
	for n := 0; !t.turn; n++ {
		if t.s.abort {
			runtime.Goexit()
		}
		if n < 200 {
			runtime.Gosched()
		} else {
			time.Sleep(50 * time.Microsecond)
		}
	}
	t.turn = false
}

//go:norace
func (s *sched) switchTo(cur, n *thread) {
	if n == cur {
		return
	}
	s.cur = n
	n.turn = true
	cur.await()
	if cur.id == 0 && s.failed {
		panic(s.pending)
	}
}

//go:norace
func (t *thread) catch() {
	if r := recover(); r != nil && !t.s.failed {
		t.s.failed, t.s.pending = true, r
	}
}

//go:norace
func (t *thread) main(f func()) {
	t.await()
	t.call(f)
	close(t.fin)
	t.done = true
	if t.s.abort {
		return
	}
	n := t.s.threads[0]
	if !t.s.failed {
		if m := t.after(); m != nil {
			n = m
		}
	}
	t.s.cur = n
	n.turn = true
}

//go:norace
func (t *thread) call(f func()) {
	defer t.catch()
	f()
}

//go:norace
func (t *thread) after() *thread {
	defer t.catch()
	return t.s.pick(t)
}

// Point is where another thread may run.
//
//go:norace
func Point() {
	s := sc
	if !s.explore {
		return
	}
	cur := s.cur
	s.switchTo(cur, s.pick(cur))
}

//go:norace
func (s *sched) block(rk int, mx *Lock, wg *Group, of *thread) {
	t := s.cur
	t.rk, t.mx, t.wg, t.of = rk, mx, wg, of
	if !t.ready() {
		s.switchTo(t, s.pick(t))
	}
	t.rk = rNone
}

// Acquire takes a lock, for writing or reading.
//
//go:norace
func Acquire(l *Lock, write bool) {
	Point()
	if write {
		sc.block(rFree, l, nil, nil)
		l.locked = true
	} else {
		sc.block(rNoWriter, l, nil, nil)
		l.readers++
	}
}

// TryAcquire takes a lock for writing if it is free.
//
//go:norace
func TryAcquire(l *Lock) bool {
	Point()
	if l.locked || l.readers > 0 {
		return false
	}
	l.locked = true
	return true
}

// Release gives a lock back.
//
//go:norace
func Release(l *Lock, write bool) {
	if write {
		if !l.locked {
			panic(Failure{"unlock of unlocked mutex"})
		}
		l.locked = false
		return
	}
	if l.readers == 0 {
		panic(Failure{"RUnlock of unlocked RWMutex"})
	}
	l.readers--
}

// Await waits for a lock to be free without taking it.
//
//go:norace
func Await(l *Lock) {
	Point()
	sc.block(rFree, l, nil, nil)
}

// Hold marks a lock as held or not.
//
//go:norace
func Hold(l *Lock, b bool) { l.locked = b }

// GroupAdd changes a wait group.
//
//go:norace
func GroupAdd(g *Group, n int) {
	Point()
	g.n += n
}

// GroupWait waits for a wait group.
//
//go:norace
func GroupWait(g *Group) {
	Point()
	sc.block(rZero, nil, g, nil)
}

// Spawn starts a thread.
//
//go:norace
func Spawn(f func()) {
	t := sc.add()
	go t.main(f)
}

// StartTimer arms a timer.
//
//go:norace
func StartTimer(r *Timer, d time.Duration, f func(), again bool) {
	r.f, r.d, r.armed = f, d, true
	sc.starts++
	r.start = &thread{id: -1, s: sc, fin: make(chan struct{})}
	go r.start.main(f)
	if !again {
		sc.timers[sc.nt] = r
		sc.nt++
	}
}

// StopTimer disarms a timer.
//
//go:norace
func StopTimer(r *Timer) bool {
	Point()
	was := r.armed
	r.armed = false
	return was
}

// ResetTimer arms a timer again.
//
//go:norace
func ResetTimer(r *Timer, d time.Duration) bool {
	Point()
	was := r.armed
	StartTimer(r, d, r.f, true)
	return was
}

// Explore explores the schedules with at most bound preemptions; with timers,
// an armed timer may expire at any point.
//
//go:norace
func Explore(bound int, timers bool) {
	sc.bound, sc.timersOn, sc.explore = bound, timers, true
}

// StopExplore ends that.
//
//go:norace
func StopExplore() { sc.explore, sc.timersOn = false, false }

// Go starts a thread.
//
//go:norace
func Go(f func()) {
	Spawn(f)
	Point()
}

// WaitAll waits for all threads.
//
//go:norace
func WaitAll() {
	sc.block(rAll, nil, nil, nil)
	for i := 1; i < sc.n; i++ {
		<-sc.threads[i].fin
	}
}

// ArmedTimers is the number of armed timers.
//
//go:norace
func ArmedTimers() int {
	n := 0
	for i := 0; i < sc.nt; i++ {
		if sc.timers[i].armed {
			n++
		}
	}
	return n
}

// TimerStarts is how often timers have been armed.
//
//go:norace
func TimerStarts() int { return sc.starts }

// TimerDelay is how long after it was armed the k-th armed timer expires.
//
//go:norace
func TimerDelay(k int) time.Duration {
	for i := 0; i < sc.nt; i++ {
		if r := sc.timers[i]; r.armed {
			if k == 0 {
				return r.d
			}
			k--
		}
	}
	return 0
}

// FireTimer lets the k-th armed timer expire and waits for what it does.
//
//go:norace
func FireTimer(k int) bool {
	for i := 0; i < sc.nt; i++ {
		if r := sc.timers[i]; r.armed {
			if k == 0 {
				t := sc.fire(r)
				sc.block(rDone, nil, nil, t)
				<-t.fin
				return true
			}
			k--
		}
	}
	return false
}
