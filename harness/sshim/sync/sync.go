// Package sync stands for the standard package in replays of schedules.
package sync

import (
	"sync"

	"vph/vp"
)

// Mutex is scheduled by the record and locks a real mutex.
type Mutex struct {
	l vp.Lock
	m sync.Mutex
}

func (m *Mutex) Lock() {
	vp.Acquire(&m.l, true)
	m.m.Lock()
}

func (m *Mutex) TryLock() bool {
	if !vp.TryAcquire(&m.l) {
		return false
	}
	m.m.Lock()
	return true
}

func (m *Mutex) Unlock() {
	vp.Release(&m.l, true)
	m.m.Unlock()
}

// RWMutex is scheduled by the record and locks a real one.
type RWMutex struct {
	l vp.Lock
	m sync.RWMutex
}

func (m *RWMutex) Lock() {
	vp.Acquire(&m.l, true)
	m.m.Lock()
}

func (m *RWMutex) Unlock() {
	vp.Release(&m.l, true)
	m.m.Unlock()
}

func (m *RWMutex) RLock() {
	vp.Acquire(&m.l, false)
	m.m.RLock()
}

func (m *RWMutex) RUnlock() {
	vp.Release(&m.l, false)
	m.m.RUnlock()
}

// Once is scheduled by the record.
type Once struct {
	l vp.Lock
	m sync.Once
}

func (o *Once) Do(f func()) {
	vp.Await(&o.l)
	o.m.Do(func() {
		vp.Hold(&o.l, true)
		defer vp.Hold(&o.l, false)
		f()
	})
}

// WaitGroup is scheduled by the record.
type WaitGroup struct {
	g vp.Group
	m sync.WaitGroup
}

func (w *WaitGroup) Add(n int) {
	vp.GroupAdd(&w.g, n)
	w.m.Add(n)
}

func (w *WaitGroup) Done() {
	vp.GroupAdd(&w.g, -1)
	w.m.Done()
}

func (w *WaitGroup) Wait() {
	vp.GroupWait(&w.g)
	w.m.Wait()
}

func (m *RWMutex) TryLock() bool {
	if !vp.TryAcquire(&m.l) {
		return false
	}
	m.m.Lock()
	return true
}

// OnceFunc is scheduled by the record.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Map is scheduled by the record.
type Map struct{ m sync.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) { vp.Point(); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { vp.Point(); m.m.Store(k, v) }
func (m *Map) Delete(k interface{})                   { vp.Point(); m.m.Delete(k) }
func (m *Map) Clear()                                 { vp.Point(); m.m.Clear() }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	vp.Point()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	vp.Point()
	return m.m.LoadAndDelete(k)
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) { vp.Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, v interface{}) bool {
	vp.Point()
	return m.m.CompareAndSwap(k, o, v)
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	vp.Point()
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v interface{}) bool) { vp.Point(); m.m.Range(f) }

// Pool is scheduled by the record, and hands out what it was given last.
type Pool struct {
	m     sync.Mutex
	items []interface{}
	New   func() interface{}
}

func (p *Pool) Get() interface{} {
	vp.Point()
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x interface{}) {
	vp.Point()
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}
