package main

import "go/types"

// Stand-ins for the parts of sync and sync/atomic that keep values: sync.Map,
// sync.Pool and the rest of the methods of the atomic types. What they keep is
// held in the first field of the object itself, so that it survives between
// init and the path and is undone by the journal.

var anyType = types.NewInterfaceType(nil, nil)

// poolV is what a pool holds; it is not modified, but replaced.
type poolV struct{ items []Value }

func syncField(p Value) *Value {
	return &(*p.(*Value)).(Agg)[0]
}

func (w *Worker) syncMap(p Value) *MapV {
	f := syncField(p)
	w.syncPoint(f)
	m, ok := (*f).(*MapV)
	if !ok {
		m = newMap()
		w.set(f, m)
	}
	return m
}

func (w *Worker) syncMapGet(m *MapV, k Value) (Value, bool) {
	if e := w.mapFind(m, anyType, k); e != nil {
		return e.v, true
	}
	return Iface{}, false
}

func addSyncIntrinsics() {
	intrinsics["(*sync.Pool).Get"] = func(fr *frame, a []Value) Value {
		w := fr.w
		f := syncField(a[0])
		w.syncPoint(f)
		if p, ok := (*f).(*poolV); ok && len(p.items) > 0 {
			n := len(p.items) - 1
			w.set(f, &poolV{p.items[:n:n]})
			return p.items[n]
		}
		ag := (*a[0].(*Value)).(Agg)
		c, _ := ag[len(ag)-1].(*Closure)
		if c == nil {
			return Iface{}
		}
		return w.callClosure(fr, c, nil)
	}
	intrinsics["(*sync.Pool).Put"] = func(fr *frame, a []Value) Value {
		w := fr.w
		f := syncField(a[0])
		w.syncPoint(f)
		if x, ok := a[1].(Iface); ok && x.t == nil {
			return nil
		}
		p, ok := (*f).(*poolV)
		if !ok {
			p = &poolV{}
		}
		w.set(f, &poolV{append(p.items[:len(p.items):len(p.items)], a[1])})
		return nil
	}
	intrinsics["(*sync.Map).Load"] = func(fr *frame, a []Value) Value {
		v, ok := fr.w.syncMapGet(fr.w.syncMap(a[0]), a[1])
		return TupleV{v, ok}
	}
	intrinsics["(*sync.Map).Store"] = func(fr *frame, a []Value) Value {
		fr.w.mapSet(fr.w.syncMap(a[0]), anyType, a[1], a[2])
		return nil
	}
	intrinsics["(*sync.Map).Clear"] = func(fr *frame, a []Value) Value {
		fr.w.syncMap(a[0])
		fr.w.set(syncField(a[0]), newMap())
		return nil
	}
	intrinsics["(*sync.Map).LoadOrStore"] = func(fr *frame, a []Value) Value {
		m := fr.w.syncMap(a[0])
		if v, ok := fr.w.syncMapGet(m, a[1]); ok {
			return TupleV{v, true}
		}
		fr.w.mapSet(m, anyType, a[1], a[2])
		return TupleV{a[2], false}
	}
	intrinsics["(*sync.Map).LoadAndDelete"] = func(fr *frame, a []Value) Value {
		m := fr.w.syncMap(a[0])
		v, ok := fr.w.syncMapGet(m, a[1])
		fr.w.mapDelete(m, anyType, a[1])
		return TupleV{v, ok}
	}
	intrinsics["(*sync.Map).Delete"] = func(fr *frame, a []Value) Value {
		fr.w.mapDelete(fr.w.syncMap(a[0]), anyType, a[1])
		return nil
	}
	intrinsics["(*sync.Map).Swap"] = func(fr *frame, a []Value) Value {
		m := fr.w.syncMap(a[0])
		v, ok := fr.w.syncMapGet(m, a[1])
		fr.w.mapSet(m, anyType, a[1], a[2])
		return TupleV{v, ok}
	}
	intrinsics["(*sync.Map).CompareAndSwap"] = func(fr *frame, a []Value) Value {
		m := fr.w.syncMap(a[0])
		v, ok := fr.w.syncMapGet(m, a[1])
		if !ok || !fr.w.truth(fr.w.eq(anyType, v, a[2])) {
			return false
		}
		fr.w.mapSet(m, anyType, a[1], a[3])
		return true
	}
	intrinsics["(*sync.Map).CompareAndDelete"] = func(fr *frame, a []Value) Value {
		m := fr.w.syncMap(a[0])
		v, ok := fr.w.syncMapGet(m, a[1])
		if !ok || !fr.w.truth(fr.w.eq(anyType, v, a[2])) {
			return false
		}
		fr.w.mapDelete(m, anyType, a[1])
		return true
	}
	intrinsics["(*sync.Map).Range"] = func(fr *frame, a []Value) Value {
		w := fr.w
		m := w.syncMap(a[0])
		ents := append([]*MapEntry(nil), m.ents...)
		if w.mapOrd && len(ents) > 1 && w.choose(2) == 1 {
			for i, j := 0, len(ents)-1; i < j; i, j = i+1, j-1 {
				ents[i], ents[j] = ents[j], ents[i]
			}
		}
		for _, e := range ents {
			if e.dead {
				continue
			}
			if !w.truth(w.callClosure(fr, a[1].(*Closure), []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	}
	once := intrinsics["(*sync.Once).Do"]
	intrinsics["sync.OnceFunc"] = func(fr *frame, a []Value) Value {
		var o Value = Agg{uint64(0)}
		f := a[0]
		return &Closure{nat: func(nf *frame, _ []Value) Value { return once(nf, []Value{&o, f}) }}
	}
	intrinsics["(*sync.RWMutex).TryLock"] = intrinsics["(*sync.Mutex).TryLock"]
	intrinsics["(*sync.RWMutex).TryRLock"] = func(fr *frame, a []Value) Value {
		m := fr.w.mx(a[0])
		fr.w.point()
		if m.locked {
			return false
		}
		m.readers++
		join(&fr.w.cur.vc, m.vc)
		return true
	}
	last := func(v Value) *Value {
		ag := (*v.(*Value)).(Agg)
		return &ag[len(ag)-1]
	}
	bit := func(fr *frame, v Value) Value { return fr.w.ite(v, uint64(1), uint64(0), 32) }
	intrinsics["(*sync/atomic.Bool).Swap"] = func(fr *frame, a []Value) Value {
		p := last(a[0])
		fr.w.syncPoint(p)
		o := *p
		fr.w.set(p, bit(fr, a[1]))
		return fr.w.vnot(fr.w.scalarEq(o, uint64(0), 32))
	}
	intrinsics["(*sync/atomic.Bool).CompareAndSwap"] = func(fr *frame, a []Value) Value {
		p := last(a[0])
		fr.w.syncPoint(p)
		if !fr.w.truth(fr.w.scalarEq(*p, bit(fr, a[1]), 32)) {
			return false
		}
		fr.w.set(p, bit(fr, a[2]))
		return true
	}
	for _, k := range []string{"(*sync/atomic.Pointer[T])", "(*sync/atomic.Pointer)", "(*sync/atomic.Value)"} {
		intrinsics[k+".Swap"] = func(fr *frame, a []Value) Value {
			p := last(a[0])
			fr.w.syncPoint(p)
			o := *p
			fr.w.set(p, a[1])
			return o
		}
	}
	intrinsics["(*sync/atomic.Value).CompareAndSwap"] = func(fr *frame, a []Value) Value {
		p := last(a[0])
		fr.w.syncPoint(p)
		if !fr.w.truth(fr.w.eq(anyType, *p, a[1])) {
			return false
		}
		fr.w.set(p, a[2])
		return true
	}
}
