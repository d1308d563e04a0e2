package main

// Modelled concurrency: threads pass a baton; every scheduling decision is a
// recorded nondeterministic choice; vector clocks detect data races; a blocked
// configuration is a deadlock.

import (
	"fmt"
	"go/types"
)

type Thread struct {
	id     int
	top    *frame
	resume chan struct{}
	fn     *Closure
	args   []Value
	done   bool
	timer  bool
	ready  func() bool // nil = runnable
	vc     []int
	fresh  bool
}

type mutexState struct {
	locked  bool
	readers int
	vc      []int
}

type timerRec struct {
	fn    *Closure
	armed bool
	vc    []int
	seq   int
	d     Value
}

type shadow struct {
	wt, wc int
	r      map[int]int
}

type Sched struct {
	explore  bool
	timersOn bool
	bound    int
	used     int
	mutex    map[*Value]*mutexState
	timers   []*timerRec
	starts   int // how often timers were armed
	byPtr    map[*Value]*timerRec
	sh       map[*Value]*shadow
	wg       map[*Value]int64
	wgvc     map[*Value][]int
	avc      map[*Value][]int
	pending  interface{} // control panic raised on a non-main thread
	live     int
	now      int64
}

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	vc     []int
	id     Value
}

func (w *Worker) sched() *Sched {
	if w.sch == nil {
		w.sch = &Sched{mutex: map[*Value]*mutexState{}, byPtr: map[*Value]*timerRec{}, sh: map[*Value]*shadow{},
			wg: map[*Value]int64{}, wgvc: map[*Value][]int{}, avc: map[*Value][]int{}}
	}
	return w.sch
}

func (w *Worker) multi() bool { return w.sch != nil && len(w.threads) > 1 }

func join(a *[]int, b []int) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

func (t *Thread) clock() int {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	return t.vc[t.id]
}

func (t *Thread) tick() {
	t.clock()
	t.vc[t.id]++
}

func (t *Thread) saw(id, c int) bool {
	return id == t.id || (id < len(t.vc) && t.vc[id] >= c)
}

func (w *Worker) spawn(fn *Closure, args []Value) *Thread {
	s := w.sched()
	cur := w.cur
	if len(w.threads) == 1 {
		cur.tick()
	}
	t := &Thread{id: len(w.threads), resume: make(chan struct{}), fn: fn, args: args, fresh: true}
	t.vc = append([]int(nil), cur.vc...)
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id] = 1
	cur.tick()
	w.threads = append(w.threads, t)
	s.live++
	return t
}

func (w *Worker) threadMain(t *Thread) {
	<-t.resume
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(pathAbort); ok {
					return
				}
				if !w.aborting && w.sch.pending == nil {
					w.sch.pending = r
				}
			}
		}()
		if w.aborting {
			panic(pathAbort{})
		}
		w.callClosure(nil, t.fn, t.args)
	}()
	t.done = true
	w.sch.live--
	if w.aborting {
		w.threads[0].resume <- struct{}{}
		return
	}
	if w.sch.pending != nil {
		w.cur = w.threads[0]
		w.threads[0].resume <- struct{}{}
		return
	}
	// hand the baton on; errors surface on the main thread
	var n *Thread
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.sch.pending = r
			}
		}()
		t.tick()
		n = w.pick(t)
	}()
	if w.sch.pending != nil {
		n = w.threads[0]
	}
	w.wake(n)
}

func (w *Worker) wake(n *Thread) {
	w.cur = n
	if n.fresh {
		n.fresh = false
		go w.threadMain(n)
	}
	n.resume <- struct{}{}
}

// pick chooses the next thread to run.  cur may be blocked or finished.
func (w *Worker) pick(cur *Thread) *Thread {
	s := w.sch
	for {
		var opts []*Thread
		curOK := !cur.done && (cur.ready == nil || cur.ready())
		if curOK {
			opts = append(opts, cur)
		}
		for _, t := range w.threads {
			if t != cur && !t.done && (t.ready == nil || t.ready()) {
				opts = append(opts, t)
			}
		}
		var tm []*timerRec
		if s.timersOn {
			for _, r := range s.timers {
				if r.armed {
					tm = append(tm, r)
				}
			}
		}
		n := len(opts) + len(tm)
		if n == 0 {
			w.ensureModel()
			w.violation("deadlock: no runnable thread", nil)
		}
		if !s.explore {
			if len(opts) > 0 {
				return opts[0]
			}
			w.fire(tm[0], cur)
			continue
		}
		if curOK && s.used >= s.bound {
			return cur
		}
		k := w.choose(n)
		w.inputs = append(w.inputs, Input{Kind: "sched", Term: uint64(k)})
		if k < len(opts) {
			if curOK && opts[k] != cur {
				s.used++
			}
			return opts[k]
		}
		if curOK {
			s.used++
		}
		return w.fire(tm[k-len(opts)], cur)
	}
}

// fire expires a timer: its function becomes a runnable thread.
func (w *Worker) fire(r *timerRec, cur *Thread) *Thread {
	r.armed = false
	t := &Thread{id: len(w.threads), resume: make(chan struct{}), fn: r.fn, fresh: true, timer: true}
	t.vc = append([]int(nil), r.vc...)
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id] = 1
	w.threads = append(w.threads, t)
	w.sch.live++
	return t
}

// point is a scheduling point of the current thread.
func (w *Worker) point() {
	s := w.sch
	if s == nil || (!s.explore && w.cur.ready == nil) {
		return
	}
	cur := w.cur
	n := w.pick(cur)
	w.switchTo(cur, n)
}

func (w *Worker) switchTo(cur, n *Thread) {
	if n != cur {
		if cur.resume == nil {
			cur.resume = make(chan struct{})
		}
		w.wake(n)
		<-cur.resume
		if w.aborting {
			panic(pathAbort{})
		}
		if cur.id == 0 && w.sch.pending != nil {
			p := w.sch.pending
			panic(p)
		}
	}
}

// block suspends the current thread until ready() holds.
func (w *Worker) block(ready func() bool) {
	if ready() {
		return
	}
	w.sched()
	cur := w.cur
	cur.ready = ready
	n := w.pick(cur)
	w.switchTo(cur, n)
	cur.ready = nil
}

func (w *Worker) killThreads() {
	if w.sch == nil || len(w.threads) <= 1 {
		return
	}
	w.aborting = true
	main := w.threads[0]
	if main.resume == nil {
		main.resume = make(chan struct{})
	}
	for _, t := range w.threads[1:] {
		if t.done || t.fresh {
			t.done = true
			continue
		}
		t.resume <- struct{}{}
		<-main.resume
	}
}

func (w *Worker) finishMain() {}

// runToEnd runs one thread (and whatever it needs) until it has finished.
func (w *Worker) runToEnd(t *Thread) {
	w.block(func() bool { return t.done })
	join(&w.cur.vc, t.vc)
}

// ---- locks ----

func (w *Worker) mx(p Value) *mutexState {
	k, _ := p.(*Value)
	if k == nil {
		w.throw("invalid memory address or nil pointer dereference")
	}
	s := w.sched()
	m := s.mutex[k]
	if m == nil {
		m = &mutexState{}
		s.mutex[k] = m
	}
	return m
}

func (w *Worker) lock(p Value) {
	m := w.mx(p)
	w.point()
	w.block(func() bool { return !m.locked && m.readers == 0 })
	m.locked = true
	join(&w.cur.vc, m.vc)
}

func (w *Worker) unlock(p Value) {
	m := w.mx(p)
	if !m.locked {
		w.ensureModel()
		w.violation("unlock of unlocked mutex", nil)
	}
	m.locked = false
	join(&m.vc, w.cur.vc)
	w.cur.tick()
}

func (w *Worker) rlock(p Value) {
	m := w.mx(p)
	w.point()
	w.block(func() bool { return !m.locked })
	m.readers++
	join(&w.cur.vc, m.vc)
}

func (w *Worker) runlock(p Value) {
	m := w.mx(p)
	if m.readers == 0 {
		w.ensureModel()
		w.violation("RUnlock of unlocked RWMutex", nil)
	}
	m.readers--
	join(&m.vc, w.cur.vc)
	w.cur.tick()
}

// syncPoint is an acquire-release operation on an address (atomics).
func (w *Worker) syncPoint(p *Value) {
	if w.sch == nil {
		return
	}
	w.point()
	v := w.sch.avc[p]
	join(&w.cur.vc, v)
	nv := append([]int(nil), w.cur.vc...)
	w.sch.avc[p] = nv
	w.cur.tick()
}

// ---- races ----

func (w *Worker) raceR(p *Value) {
	if w.sch == nil || len(w.threads) <= 1 || p == nil {
		return
	}
	w.raceAcc(p, false)
}

func (w *Worker) raceW(p *Value) {
	if w.sch == nil || len(w.threads) <= 1 || p == nil {
		return
	}
	w.raceAcc(p, true)
}

func (w *Worker) raceAcc(p *Value, wr bool) {
	if a, ok := (*p).(Agg); ok {
		for i := range a {
			w.raceAcc(&a[i], wr)
		}
		return
	}
	t := w.cur
	s := w.sch.sh[p]
	if s == nil {
		s = &shadow{wt: -1}
		w.sch.sh[p] = s
	}
	if s.wt >= 0 && !t.saw(s.wt, s.wc) {
		w.raceFound(wr, "write")
	}
	if wr {
		for id, c := range s.r {
			if !t.saw(id, c) {
				w.raceFound(wr, "read")
			}
		}
		s.wt, s.wc = t.id, t.clock()
		s.r = nil
		return
	}
	if s.r == nil {
		s.r = map[int]int{}
	}
	s.r[t.id] = t.clock()
}

func (w *Worker) raceFound(wr bool, other string) {
	k := "read"
	if wr {
		k = "write"
	}
	w.ensureModel()
	w.violation(fmt.Sprintf("data race: unsynchronised %s after concurrent %s in %s", k, other, w.where()), nil)
}

// ---- channels (buffered and rendezvous) ----

func (w *Worker) chanSend(c *ChanV, v Value) {
	if c == nil {
		w.block(func() bool { return false })
	}
	w.sched()
	w.point()
	if c.closed {
		panic(&targetPanic{v: Iface{w.e.rtErrType, "send on closed channel"}, stack: w.where()})
	}
	n := c.cap
	if n == 0 {
		n = 1
	}
	w.block(func() bool { return len(c.buf) < n || c.closed })
	if c.closed {
		panic(&targetPanic{v: Iface{w.e.rtErrType, "send on closed channel"}, stack: w.where()})
	}
	c.buf = append(c.buf[:len(c.buf):len(c.buf)], v)
	join(&c.vc, w.cur.vc)
	w.cur.tick()
	if c.cap == 0 {
		w.block(func() bool { return len(c.buf) == 0 })
		join(&w.cur.vc, c.vc)
	}
}

func (w *Worker) chanRecv(c *ChanV, et types.Type) (Value, Value) {
	if c == nil {
		w.block(func() bool { return false })
	}
	w.sched()
	w.point()
	w.block(func() bool { return len(c.buf) > 0 || c.closed })
	join(&w.cur.vc, c.vc)
	if len(c.buf) == 0 {
		return zero(et), false
	}
	v := c.buf[0]
	c.buf = c.buf[1:]
	join(&c.vc, w.cur.vc)
	w.cur.tick()
	return v, true
}

func (w *Worker) chanClose(c *ChanV) {
	w.sched()
	w.point()
	if c.closed {
		panic(&targetPanic{v: Iface{w.e.rtErrType, "close of closed channel"}, stack: w.where()})
	}
	c.closed = true
	join(&c.vc, w.cur.vc)
	w.cur.tick()
}
