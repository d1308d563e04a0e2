package main

// Models of the harness API (vph/vp) and of the small part of the standard
// library that is not executed from source.

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{
		// ---- harness API ----
		"vph/vp.Byte": func(fr *frame, a []Value) Value { return fr.w.input("byte", 8, 0, 0) },
		"vph/vp.Bool": func(fr *frame, a []Value) Value { return fr.w.input("bool", 0, 0, 0) },
		"vph/vp.U16":  func(fr *frame, a []Value) Value { return fr.w.input("u16", 16, 0, 0) },
		"vph/vp.U32":  func(fr *frame, a []Value) Value { return fr.w.input("u32", 32, 0, 0) },
		"vph/vp.I64":  func(fr *frame, a []Value) Value { return fr.w.input("i64", 64, 0, 0) },
		"vph/vp.Int": func(fr *frame, a []Value) Value {
			w := fr.w
			lo, hi := int64(w.concretise(a[0])), int64(w.concretise(a[1]))
			if hi < lo {
				panic(pathEnd{"empty range"})
			}
			return w.rangeVar(lo, hi)
		},
		"vph/vp.Rune": func(fr *frame, a []Value) Value {
			w := fr.w
			t := w.newVar(21)
			w.inputs = append(w.inputs, Input{Kind: "rune", Term: t})
			v := w.b.ZExt(t, 32)
			ok := w.b.And(w.b.Ule(v, w.b.Const(32, 0x10ffff)),
				w.b.Not(w.b.And(w.b.Ule(w.b.Const(32, 0xd800), v), w.b.Ule(v, w.b.Const(32, 0xdfff)))))
			w.assume(norm(ok))
			return norm(v)
		},
		"vph/vp.Bytes": func(fr *frame, a []Value) Value {
			n := fr.w.concInt(a[0])
			r := make([]Value, n)
			for i := range r {
				r[i] = fr.w.input("byte", 8, 0, 0)
			}
			return r
		},
		"vph/vp.Str": func(fr *frame, a []Value) Value {
			n := fr.w.concInt(a[0])
			r := make([]Value, n)
			for i := range r {
				r[i] = fr.w.input("byte", 8, 0, 0)
			}
			return mkStr(r)
		},
		"vph/vp.Choose": func(fr *frame, a []Value) Value {
			k := fr.w.choose(fr.w.concInt(a[0]))
			fr.w.inputs = append(fr.w.inputs, Input{Kind: "choose", Term: uint64(k)})
			return uint64(k)
		},
		"vph/vp.Range": func(fr *frame, a []Value) Value {
			lo, hi := fr.w.concInt(a[0]), fr.w.concInt(a[1])
			k := fr.w.choose(hi - lo + 1)
			fr.w.inputs = append(fr.w.inputs, Input{Kind: "choose", Term: uint64(lo + k)})
			return uint64(lo + k)
		},
		"vph/vp.Conc": func(fr *frame, a []Value) Value { return fr.w.concretise(a[0]) },
		"vph/vp.Assume": func(fr *frame, a []Value) Value {
			fr.w.assume(a[0])
			return nil
		},
		"vph/vp.Assert": func(fr *frame, a []Value) Value {
			fr.w.assertProp(a[0], goStr(a[1]))
			return nil
		},
		"vph/vp.AssertK": func(fr *frame, a []Value) Value {
			fr.w.assertKnown(goStr(a[0]), a[1], a[2], goStr(a[3]))
			return nil
		},
		"vph/vp.Fail": func(fr *frame, a []Value) Value {
			fr.w.ensureModel()
			fr.w.assertProp(false, goStr(a[0]))
			return nil
		},
		"vph/vp.Cover": func(fr *frame, a []Value) Value {
			fr.w.covers[goStr(a[0])] = true
			return nil
		},
		"vph/vp.Param": func(fr *frame, a []Value) Value {
			n := goStr(a[0])
			q, t := a[1].(uint64), a[2].(uint64)
			v := q
			if fr.w.e.thorough {
				v = t
			}
			fr.w.e.noteParam(n, int64(v))
			return v
		},
		"vph/vp.And":     func(fr *frame, a []Value) Value { return fr.w.vand(a[0], a[1]) },
		"vph/vp.Or":      func(fr *frame, a []Value) Value { return fr.w.vor(a[0], a[1]) },
		"vph/vp.Not":     func(fr *frame, a []Value) Value { return fr.w.vnot(a[0]) },
		"vph/vp.Implies": func(fr *frame, a []Value) Value { return fr.w.vor(fr.w.vnot(a[0]), a[1]) },
		"vph/vp.EqBytes": func(fr *frame, a []Value) Value {
			return fr.w.strEq(&SStr{a[0].([]Value)}, &SStr{a[1].([]Value)})
		},
		"vph/vp.EqStr": func(fr *frame, a []Value) Value { return fr.w.strEq(a[0], a[1]) },
		"vph/vp.IteInt": func(fr *frame, a []Value) Value {
			return fr.w.ite(a[0], a[1], a[2], 64)
		},
		"vph/vp.IteByte": func(fr *frame, a []Value) Value {
			return fr.w.ite(a[0], a[1], a[2], 8)
		},
		"vph/vp.Observe": func(fr *frame, a []Value) Value {
			fr.w.obs = append(fr.w.obs, obsRec{goStr(a[0]), a[1], 64})
			return nil
		},
		"vph/vp.ObsBytes": func(fr *frame, a []Value) Value {
			fr.w.obs = append(fr.w.obs, obsRec{goStr(a[0]), append([]Value(nil), a[1].([]Value)...), 8})
			return nil
		},
		"vph/vp.ObsStr": func(fr *frame, a []Value) Value {
			fr.w.obs = append(fr.w.obs, obsRec{goStr(a[0]), strBytes(a[1]), 8})
			return nil
		},
		"vph/vp.Try":       intrTry,
		"vph/vp.MapOrders": func(fr *frame, a []Value) Value { fr.w.mapOrd = true; return nil },
		"vph/vp.IsReplay":  func(fr *frame, a []Value) Value { return false },
		"vph/vp.Explore": func(fr *frame, a []Value) Value {
			s := fr.w.sched()
			s.bound = fr.w.concInt(a[0])
			s.timersOn = a[1].(bool)
			s.explore = true
			return nil
		},
		"vph/vp.StopExplore": func(fr *frame, a []Value) Value {
			s := fr.w.sched()
			s.explore, s.timersOn = false, false
			return nil
		},
		"vph/vp.Go": func(fr *frame, a []Value) Value {
			fr.w.spawn(a[0].(*Closure), nil)
			fr.w.point()
			return nil
		},
		"vph/vp.WaitAll": func(fr *frame, a []Value) Value {
			w := fr.w
			w.block(func() bool {
				for _, t := range w.threads[1:] {
					if !t.done {
						return false
					}
				}
				return true
			})
			for _, t := range w.threads[1:] {
				join(&w.cur.vc, t.vc)
			}
			return nil
		},
		"vph/vp.ArmedTimers": func(fr *frame, a []Value) Value {
			n := 0
			for _, r := range fr.w.sched().timers {
				if r.armed {
					n++
				}
			}
			return uint64(n)
		},
		"vph/vp.TimerStarts": func(fr *frame, a []Value) Value { return uint64(fr.w.sched().starts) },
		"vph/vp.TimerDelay": func(fr *frame, a []Value) Value {
			k := fr.w.concInt(a[0])
			for _, r := range fr.w.sched().timers {
				if r.armed {
					if k == 0 {
						return r.d
					}
					k--
				}
			}
			return uint64(0)
		},
		"vph/vp.FireTimer": func(fr *frame, a []Value) Value {
			// run the k-th armed timer's callback to completion
			w := fr.w
			k := w.concInt(a[0])
			for _, r := range w.sched().timers {
				if r.armed {
					if k == 0 {
						t := w.fire(r, w.cur)
						w.runToEnd(t)
						return true
					}
					k--
				}
			}
			return false
		},

		// ---- sync ----
		"(*sync.Mutex).Lock":   func(fr *frame, a []Value) Value { fr.w.lock(a[0]); return nil },
		"(*sync.Mutex).Unlock": func(fr *frame, a []Value) Value { fr.w.unlock(a[0]); return nil },
		"(*sync.Mutex).TryLock": func(fr *frame, a []Value) Value {
			m := fr.w.mx(a[0])
			fr.w.point()
			if m.locked || m.readers > 0 {
				return false
			}
			m.locked = true
			join(&fr.w.cur.vc, m.vc)
			return true
		},
		"(*sync.RWMutex).Lock":    func(fr *frame, a []Value) Value { fr.w.lock(a[0]); return nil },
		"(*sync.RWMutex).Unlock":  func(fr *frame, a []Value) Value { fr.w.unlock(a[0]); return nil },
		"(*sync.RWMutex).RLock":   func(fr *frame, a []Value) Value { fr.w.rlock(a[0]); return nil },
		"(*sync.RWMutex).RUnlock": func(fr *frame, a []Value) Value { fr.w.runlock(a[0]); return nil },
		"(*sync.Once).Do": func(fr *frame, a []Value) Value {
			w := fr.w
			p := a[0].(*Value)
			m := w.mx(p)
			w.point()
			w.block(func() bool { return !m.locked })
			s := w.sch
			if _, done := s.wg[p]; done || isOnceDone(p) {
				join(&w.cur.vc, m.vc)
				return nil
			}
			m.locked = true
			defer func() {
				m.locked = false
			}()
			w.callClosure(fr, a[1].(*Closure), nil)
			s.wg[p] = 1
			markOnce(w, p)
			join(&m.vc, w.cur.vc)
			w.cur.tick()
			return nil
		},
		"(*sync.WaitGroup).Add": func(fr *frame, a []Value) Value {
			s := fr.w.sched()
			p := a[0].(*Value)
			fr.w.point()
			s.wg[p] += int64(fr.w.concretise(a[1]))
			v := s.wgvc[p]
			join(&v, fr.w.cur.vc)
			s.wgvc[p] = v
			fr.w.cur.tick()
			return nil
		},
		"(*sync.WaitGroup).Done": func(fr *frame, a []Value) Value {
			s := fr.w.sched()
			p := a[0].(*Value)
			fr.w.point()
			s.wg[p]--
			v := s.wgvc[p]
			join(&v, fr.w.cur.vc)
			s.wgvc[p] = v
			fr.w.cur.tick()
			return nil
		},
		"(*sync.WaitGroup).Wait": func(fr *frame, a []Value) Value {
			s := fr.w.sched()
			p := a[0].(*Value)
			fr.w.point()
			fr.w.block(func() bool { return s.wg[p] == 0 })
			join(&fr.w.cur.vc, s.wgvc[p])
			return nil
		},
		"(*sync.WaitGroup).Go": func(fr *frame, a []Value) Value {
			s := fr.w.sched()
			p := a[0].(*Value)
			w := fr.w
			s.wg[p]++
			f := a[1].(*Closure)
			w.spawn(&Closure{nat: func(nf *frame, _ []Value) Value {
				w.callClosure(nil, f, nil)
				s.wg[p]--
				v := s.wgvc[p]
				join(&v, w.cur.vc)
				s.wgvc[p] = v
				w.cur.tick()
				return nil
			}}, nil)
			return nil
		},
		"(*sync.Pool).Get": func(fr *frame, a []Value) Value {
			p := a[0].(*Value)
			ag := (*p).(Agg)
			f, _ := ag[len(ag)-1].(*Closure)
			if f == nil {
				return Iface{}
			}
			return fr.w.callClosure(fr, f, nil)
		},
		"(*sync.Pool).Put": func(fr *frame, a []Value) Value { return nil },

		// ---- time ----
		"time.AfterFunc": func(fr *frame, a []Value) Value {
			w := fr.w
			s := w.sched()
			w.cur.tick()
			r := &timerRec{fn: a[1].(*Closure), armed: true, vc: append([]int(nil), w.cur.vc...), seq: len(s.timers), d: a[0]}
			s.timers = append(s.timers, r)
			s.starts++
			p := new(Value)
			*p = zero(w.e.timerType)
			s.byPtr[p] = r
			return p
		},
		"(*time.Timer).Stop": func(fr *frame, a []Value) Value {
			w := fr.w
			p, _ := a[0].(*Value)
			if p == nil {
				w.throw("invalid memory address or nil pointer dereference")
			}
			w.point()
			r := w.sched().byPtr[p]
			if r == nil {
				return false
			}
			was := r.armed
			r.armed = false
			return was
		},
		"(*time.Timer).Reset": func(fr *frame, a []Value) Value {
			w := fr.w
			p, _ := a[0].(*Value)
			if p == nil {
				w.throw("invalid memory address or nil pointer dereference")
			}
			w.point()
			r := w.sched().byPtr[p]
			if r == nil {
				return false
			}
			was := r.armed
			r.armed, r.d = true, a[1]
			w.sched().starts++
			w.cur.tick()
			r.vc = append([]int(nil), w.cur.vc...)
			return was
		},
		"time.Sleep": func(fr *frame, a []Value) Value { fr.w.point(); return nil },
		"time.Now": func(fr *frame, a []Value) Value {
			return zero(fr.w.e.timeType)
		},
		"time.Since":       func(fr *frame, a []Value) Value { return fr.w.input("i64", 64, 0, 0) },
		"time.runtimeNano": func(fr *frame, a []Value) Value { return uint64(1) },
		"time.runtimeNow":  func(fr *frame, a []Value) Value { return TupleV{uint64(0), uint64(0), uint64(1)} },
		"time.now":         func(fr *frame, a []Value) Value { return TupleV{uint64(0), uint64(0), uint64(1)} },

		// ---- runtime and internals ----
		"internal/bytealg.IndexByte":       func(fr *frame, a []Value) Value { return fr.w.indexByte(a[0], a[1]) },
		"internal/bytealg.IndexByteString": func(fr *frame, a []Value) Value { return fr.w.indexByte(a[0], a[1]) },
		"internal/bytealg.Equal": func(fr *frame, a []Value) Value {
			return fr.w.strEq(&SStr{a[0].([]Value)}, &SStr{a[1].([]Value)})
		},
		"bytes.Equal": func(fr *frame, a []Value) Value {
			return fr.w.strEq(&SStr{a[0].([]Value)}, &SStr{a[1].([]Value)})
		},
		"internal/bytealg.Compare": intrCompare,
		"bytes.Compare":            intrCompare,
		"internal/bytealg.Count":   func(fr *frame, a []Value) Value { return fr.w.countByte(a[0], a[1]) },
		"internal/bytealg.CountString": func(fr *frame, a []Value) Value {
			return fr.w.countByte(a[0], a[1])
		},
		"internal/bytealg.MakeNoZero": func(fr *frame, a []Value) Value {
			n := fr.w.concInt(a[0])
			s := make([]Value, n, roundup(n, 1, 0))
			fillZero(s[:cap(s)], uint64(0))
			return s
		},
		"strings.Clone":                             func(fr *frame, a []Value) Value { return a[0] },
		"(*strings.Builder).copyCheck":              func(fr *frame, a []Value) Value { return nil },
		"internal/stringslite.Clone":                func(fr *frame, a []Value) Value { return a[0] },
		"internal/abi.NoEscape":                     func(fr *frame, a []Value) Value { return a[0] },
		"internal/abi.Escape":                       func(fr *frame, a []Value) Value { return a[0] },
		"runtime.KeepAlive":                         func(fr *frame, a []Value) Value { return nil },
		"runtime.SetFinalizer":                      func(fr *frame, a []Value) Value { return nil },
		"runtime.Gosched":                           func(fr *frame, a []Value) Value { fr.w.point(); return nil },
		"runtime.GC":                                func(fr *frame, a []Value) Value { return nil },
		"internal/race.Enabled":                     func(fr *frame, a []Value) Value { return false },
		"internal/godebug.New":                      func(fr *frame, a []Value) Value { return (*Value)(nil) },
		"(*internal/godebug.Setting).Value":         func(fr *frame, a []Value) Value { return "" },
		"(*internal/godebug.Setting).IncNonDefault": func(fr *frame, a []Value) Value { return nil },
		"math.Float64bits": func(fr *frame, a []Value) Value {
			if f, ok := a[0].(float64); ok {
				return math.Float64bits(f)
			}
			panic(engineError{"Float64bits of a symbolic float"})
		},
		"math.Float64frombits": func(fr *frame, a []Value) Value {
			return math.Float64frombits(fr.w.concretise(a[0]))
		},
		"math.Floor": concFloat(math.Floor),
		"math.Ceil":  concFloat(math.Ceil),
		"math.Trunc": concFloat(math.Trunc),
		"math.Sqrt":  concFloat(math.Sqrt),
		"math.Abs":   concFloat(math.Abs),

		// ---- errors ----
		"errors.Is": intrErrorsIs,
		"errors.As": intrErrorsAs,

		// ---- fmt ----
		"fmt.Sprintf": func(fr *frame, a []Value) Value { return mkStr(fr.sprintf(a[0], a[1].([]Value))) },
		"fmt.Sprint":  func(fr *frame, a []Value) Value { return mkStr(fr.sprint(a[0].([]Value), false)) },
		"fmt.Sprintln": func(fr *frame, a []Value) Value {
			return mkStr(fr.sprint(a[0].([]Value), true))
		},
		"fmt.Errorf": func(fr *frame, a []Value) Value {
			s := mkStr(fr.sprintf(a[0], a[1].([]Value)))
			var wrapped Value = Iface{}
			if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
				for _, x := range a[1].([]Value) {
					if i := x.(Iface); i.t != nil && fr.w.e.implements(i.t, fr.w.e.errIface) {
						wrapped = i
					}
				}
			}
			if wrapped.(Iface).t != nil && fr.w.e.wrapErrType != nil {
				p := new(Value)
				*p = Agg{s, wrapped}
				return Iface{types.NewPointer(fr.w.e.wrapErrType), p}
			}
			p := new(Value)
			*p = Agg{s}
			return Iface{types.NewPointer(fr.w.e.errStrType), p}
		},
		"fmt.Fprintf": func(fr *frame, a []Value) Value {
			b := fr.sprintf(a[1], a[2].([]Value))
			return fr.writeTo(a[0].(Iface), b)
		},
		"fmt.Fprintln": func(fr *frame, a []Value) Value {
			return fr.writeTo(a[0].(Iface), fr.sprint(a[1].([]Value), true))
		},
		"fmt.Fprint": func(fr *frame, a []Value) Value {
			return fr.writeTo(a[0].(Iface), fr.sprint(a[1].([]Value), false))
		},
		"fmt.Printf":  func(fr *frame, a []Value) Value { fr.sprintf(a[0], a[1].([]Value)); return TupleV{uint64(0), Iface{}} },
		"fmt.Println": func(fr *frame, a []Value) Value { return TupleV{uint64(0), Iface{}} },
		"fmt.Print":   func(fr *frame, a []Value) Value { return TupleV{uint64(0), Iface{}} },

		// ---- sort ----
		"sort.Slice":       intrSortSlice,
		"sort.SliceStable": intrSortSlice,
	}
	for _, k := range []struct {
		n string
		w uint8
		s bool
	}{{"Int32", 32, true}, {"Int64", 64, true}, {"Uint32", 32, false}, {"Uint64", 64, false}, {"Uintptr", 64, false}} {
		k := k
		add := func(fr *frame, p *Value, d Value) Value {
			w := fr.w
			w.syncPoint(p)
			n := norm(w.b.Add(w.term(*p, k.w), w.term(d, k.w)))
			w.set(p, n)
			return n
		}
		cas := func(fr *frame, p *Value, o, n Value) Value {
			w := fr.w
			w.syncPoint(p)
			if w.truth(w.scalarEq(*p, o, k.w)) {
				w.set(p, n)
				return true
			}
			return false
		}
		intrinsics["sync/atomic.Add"+k.n] = func(fr *frame, a []Value) Value { return add(fr, a[0].(*Value), a[1]) }
		intrinsics["sync/atomic.Load"+k.n] = func(fr *frame, a []Value) Value {
			fr.w.syncPoint(a[0].(*Value))
			return *a[0].(*Value)
		}
		intrinsics["sync/atomic.Store"+k.n] = func(fr *frame, a []Value) Value {
			fr.w.syncPoint(a[0].(*Value))
			fr.w.set(a[0].(*Value), a[1])
			return nil
		}
		intrinsics["sync/atomic.Swap"+k.n] = func(fr *frame, a []Value) Value {
			fr.w.syncPoint(a[0].(*Value))
			o := *a[0].(*Value)
			fr.w.set(a[0].(*Value), a[1])
			return o
		}
		intrinsics["sync/atomic.CompareAndSwap"+k.n] = func(fr *frame, a []Value) Value {
			return cas(fr, a[0].(*Value), a[1], a[2])
		}
		// methods of atomic.Int64 etc.: the value is the last field
		fld := func(v Value) *Value {
			ag := (*v.(*Value)).(Agg)
			return &ag[len(ag)-1]
		}
		intrinsics["(*sync/atomic."+k.n+").Add"] = func(fr *frame, a []Value) Value { return add(fr, fld(a[0]), a[1]) }
		intrinsics["(*sync/atomic."+k.n+").Load"] = func(fr *frame, a []Value) Value {
			fr.w.syncPoint(fld(a[0]))
			return *fld(a[0])
		}
		intrinsics["(*sync/atomic."+k.n+").Store"] = func(fr *frame, a []Value) Value {
			fr.w.syncPoint(fld(a[0]))
			fr.w.set(fld(a[0]), a[1])
			return nil
		}
		intrinsics["(*sync/atomic."+k.n+").Swap"] = func(fr *frame, a []Value) Value {
			fr.w.syncPoint(fld(a[0]))
			o := *fld(a[0])
			fr.w.set(fld(a[0]), a[1])
			return o
		}
		intrinsics["(*sync/atomic."+k.n+").CompareAndSwap"] = func(fr *frame, a []Value) Value {
			return cas(fr, fld(a[0]), a[1], a[2])
		}
	}
	intrinsics["(*sync/atomic.Bool).Load"] = func(fr *frame, a []Value) Value {
		ag := (*a[0].(*Value)).(Agg)
		p := &ag[len(ag)-1]
		fr.w.syncPoint(p)
		return fr.w.vnot(fr.w.scalarEq(*p, uint64(0), 32))
	}
	intrinsics["(*sync/atomic.Bool).Store"] = func(fr *frame, a []Value) Value {
		ag := (*a[0].(*Value)).(Agg)
		p := &ag[len(ag)-1]
		fr.w.syncPoint(p)
		fr.w.set(p, fr.w.ite(a[1], uint64(1), uint64(0), 32))
		return nil
	}
	for _, k := range []string{"(*sync/atomic.Pointer[T])", "(*sync/atomic.Pointer)", "(*sync/atomic.Value)"} {
		intrinsics[k+".Load"] = func(fr *frame, a []Value) Value {
			ag := (*a[0].(*Value)).(Agg)
			p := &ag[len(ag)-1]
			fr.w.syncPoint(p)
			return *p
		}
		intrinsics[k+".Store"] = func(fr *frame, a []Value) Value {
			ag := (*a[0].(*Value)).(Agg)
			p := &ag[len(ag)-1]
			fr.w.syncPoint(p)
			fr.w.set(p, a[1])
			return nil
		}
		intrinsics[k+".CompareAndSwap"] = func(fr *frame, a []Value) Value {
			ag := (*a[0].(*Value)).(Agg)
			p := &ag[len(ag)-1]
			fr.w.syncPoint(p)
			if *p == a[1] {
				fr.w.set(p, a[2])
				return true
			}
			return false
		}
	}
	addTimeIntrinsics()
	addSyncIntrinsics()
}

// Once completion persists in the object itself so that it survives between
// init and the path (and is undone by the journal).
func isOnceDone(p *Value) bool {
	ag, ok := (*p).(Agg)
	if !ok || len(ag) == 0 {
		return false
	}
	b, ok := ag[0].(bool)
	return ok && b
}

func markOnce(w *Worker, p *Value) {
	ag := (*p).(Agg)
	w.set(&ag[0], true)
}

func concFloat(f func(float64) float64) intrinsic {
	return func(fr *frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return f(x)
		}
		panic(engineError{"symbolic float"})
	}
}

func goStr(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SStr:
		return "<symbolic string>"
	}
	return fmt.Sprint(v)
}

func (w *Worker) input(kind string, width uint8, off int64, sgn uint8) Value {
	t := w.newVar(width)
	w.inputs = append(w.inputs, Input{Kind: kind, Term: t, Off: off, Sgn: sgn})
	return t
}

func (w *Worker) rangeVar(lo, hi int64) Value {
	if lo == hi {
		w.inputs = append(w.inputs, Input{Kind: "int", Term: uint64(0), Off: lo})
		return uint64(lo)
	}
	span := uint64(hi - lo)
	bits := uint8(0)
	for span>>bits != 0 {
		bits++
		if bits == 64 {
			break
		}
	}
	t := w.newVarMax(bits, span)
	w.inputs = append(w.inputs, Input{Kind: "int", Term: t, Off: lo})
	if span != mask(bits) {
		// built raw: the simplifier would drop what the variable's own bounds
		// imply, and the solver has to be told them
		w.assume(w.b.mk(ONot, 0, 0, w.b.mk(OUlt, 0, 0, w.b.Const(bits, span), t, nil), nil, nil))
	}
	v := w.b.ZExt(t, 64)
	if bits == 64 {
		v = t
	}
	return norm(w.b.Add(v, w.b.Const(64, uint64(lo))))
}

func (w *Worker) ite(c, x, y Value, width uint8) Value {
	if b, ok := c.(bool); ok {
		if b {
			return x
		}
		return y
	}
	return norm(w.b.Ite(c.(*Term), w.term(x, width), w.term(y, width)))
}

func intrTry(fr *frame, a []Value) Value {
	w := fr.w
	f := a[0].(*Closure)
	th := w.cur
	save := th.top
	msg := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				th.top = save
				msg = w.panicText(tp)
				if msg == "" {
					msg = "panic"
				}
			}
		}()
		w.callClosure(fr, f, nil)
	}()
	return msg
}

// assertKnown is an assertion with a declared known-finding region.
func (w *Worker) assertKnown(id string, region, cond Value, msg string) {
	if !w.e.known[id] {
		w.assertProp(cond, msg)
		return
	}
	// outside the region the property must hold
	w.assertProp(w.vor(region, cond), msg)
	// inside it, note whether the finding is still there
	if w.e.knownSeen(id) {
		return
	}
	bad := w.vand(region, w.vnot(cond))
	if b, ok := bad.(bool); ok && !b {
		return
	}
	if w.replaying() {
		return
	}
	w.ensureModel()
	var m *Model
	if b, ok := bad.(bool); ok && b {
		m = w.model
	} else if w.eval(bad.(*Term)) == 1 {
		m = w.model
	} else {
		var r Result
		r, m = w.s.Check(w.pc, bad.(*Term), true)
		if r != Sat {
			return
		}
	}
	w.e.noteKnown(id, msg, w.inputVals(m))
}

func (w *Worker) indexByte(s, c Value) Value {
	var b []Value
	switch x := s.(type) {
	case []Value:
		b = x
	default:
		b = strBytes(x)
	}
	// the first position, as one value rather than a path for each
	var r Value = mask(64)
	for i := len(b) - 1; i >= 0; i-- {
		switch e := w.scalarEq(b[i], c, 8).(type) {
		case bool:
			if e {
				r = uint64(i)
			}
		case *Term:
			r = norm(w.b.Ite(e, w.b.Const(64, uint64(i)), w.term(r, 64)))
		}
	}
	return r
}

func (w *Worker) countByte(s, c Value) Value {
	var b []Value
	switch x := s.(type) {
	case []Value:
		b = x
	default:
		b = strBytes(x)
	}
	var n Value = uint64(0)
	for _, x := range b {
		e := w.scalarEq(x, c, 8)
		n = norm(w.b.Add(w.term(n, 64), w.term(w.ite(e, uint64(1), uint64(0), 64), 64)))
	}
	return n
}

func intrCompare(fr *frame, a []Value) Value {
	w := fr.w
	x, y := &SStr{a[0].([]Value)}, &SStr{a[1].([]Value)}
	if w.truth(w.strEq(x, y)) {
		return uint64(0)
	}
	if w.truth(w.strLess(x, y)) {
		return mask(64)
	}
	return uint64(1)
}

func (fr *frame) callMethod(t types.Type, recv Value, name string, args ...Value) (Value, bool) {
	fn := fr.w.e.methodByName(t, name)
	if fn == nil {
		return nil, false
	}
	return fr.w.callClosure(fr, fn, append([]Value{copyVal(recv)}, args...)), true
}

func intrErrorsIs(fr *frame, a []Value) Value {
	w := fr.w
	err, target := a[0].(Iface), a[1].(Iface)
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	comparable := types.Comparable(target.t)
	for {
		if comparable && types.Identical(err.t, target.t) && w.truth(w.eq(err.t, err.v, target.v)) {
			return true
		}
		if r, ok := fr.callMethod(err.t, err.v, "Is", target); ok {
			if w.truth(r) {
				return true
			}
		}
		r, ok := fr.callMethod(err.t, err.v, "Unwrap")
		if !ok {
			return false
		}
		n, ok := r.(Iface)
		if !ok || n.t == nil {
			return false
		}
		err = n
	}
}

func intrErrorsAs(fr *frame, a []Value) Value {
	w := fr.w
	err, target := a[0].(Iface), a[1].(Iface)
	pt, ok := under(target.t).(*types.Pointer)
	if !ok {
		w.throw("errors: target must be a non-nil pointer")
	}
	for err.t != nil {
		et := pt.Elem()
		if it, isI := under(et).(*types.Interface); isI {
			if w.e.implements(err.t, it) {
				w.store(target.v, err)
				return true
			}
		} else if types.Identical(err.t, et) {
			w.store(target.v, err.v)
			return true
		}
		r, ok := fr.callMethod(err.t, err.v, "Unwrap")
		if !ok {
			return false
		}
		err, _ = r.(Iface)
	}
	return false
}

func intrSortSlice(fr *frame, a []Value) Value {
	w := fr.w
	s := a[0].(Iface).v.([]Value)
	less := a[1].(*Closure)
	// insertion sort through the caller's less function
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !w.truth(w.callClosure(fr, less, []Value{uint64(j), uint64(j - 1)})) {
				break
			}
			x, y := copyVal(s[j]), copyVal(s[j-1])
			w.storeTo(&s[j], y)
			w.storeTo(&s[j-1], x)
		}
	}
	return nil
}

func (fr *frame) writeTo(wr Iface, b []Value) Value {
	if wr.t == nil {
		return TupleV{uint64(len(b)), Iface{}}
	}
	r, ok := fr.callMethod(wr.t, wr.v, "Write", b)
	if !ok {
		panic(engineError{"Fprintf to " + wr.t.String()})
	}
	return r
}

// ---- formatting ----

func vb(s string) []Value {
	r := make([]Value, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = uint64(s[i])
	}
	return r
}

func (fr *frame) sprint(args []Value, ln bool) []Value {
	var out []Value
	prevStr := true
	for i, a := range args {
		x := a.(Iface)
		isS := x.t != nil && isString(x.t)
		if i > 0 && (ln || (!isS && !prevStr)) {
			out = append(out, uint64(' '))
		}
		prevStr = isS
		out = append(out, fr.fmtArg('v', fmtFlags{prec: -1}, x)...)
	}
	if ln {
		out = append(out, uint64('\n'))
	}
	return out
}

type fmtFlags struct {
	minus, plus, sharp, space, zero bool
	width, prec                     int
}

func (fr *frame) sprintf(fv Value, args []Value) []Value {
	w := fr.w
	f, ok := fv.(string)
	if !ok {
		// symbolic format strings are concretised byte by byte
		b := strBytes(fv)
		var sb strings.Builder
		for _, x := range b {
			sb.WriteByte(byte(w.concretise(x)))
		}
		f = sb.String()
	}
	var out []Value
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, uint64(f[i]))
			continue
		}
		i++
		fl := fmtFlags{prec: -1}
	flags:
		for ; i < len(f); i++ {
			switch f[i] {
			case '-':
				fl.minus = true
			case '+':
				fl.plus = true
			case '#':
				fl.sharp = true
			case ' ':
				fl.space = true
			case '0':
				fl.zero = true
			default:
				break flags
			}
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			fl.width = fl.width*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '*' {
			fl.width = w.concInt(args[ai].(Iface).v)
			ai++
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			fl.prec = 0
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				fl.prec = fl.prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) {
			out = append(out, vb("%!(NOVERB)")...)
			break
		}
		verb := rune(f[i])
		if verb == '%' {
			out = append(out, uint64('%'))
			continue
		}
		if ai >= len(args) {
			out = append(out, vb("%!"+string(verb)+"(MISSING)")...)
			continue
		}
		out = append(out, fr.fmtArg(verb, fl, args[ai].(Iface))...)
		ai++
	}
	if ai < len(args) {
		out = append(out, vb("%!(EXTRA)")...)
	}
	return out
}

func pad(b []Value, fl fmtFlags, n int) []Value {
	for n < fl.width {
		if fl.minus {
			b = append(b, uint64(' '))
		} else {
			b = append([]Value{uint64(' ')}, b...)
		}
		n++
	}
	return b
}

func (fr *frame) fmtArg(verb rune, fl fmtFlags, x Iface) []Value {
	w := fr.w
	if x.t == nil {
		return pad(vb("<nil>"), fl, 5)
	}
	if verb == 'T' {
		s := types.TypeString(x.t, func(p *types.Package) string { return p.Name() })
		return pad(vb(s), fl, len(s))
	}
	if verb == 'w' {
		verb = 'v'
	}
	if strings.ContainsRune("vsxXq", verb) && !fl.sharp {
		for _, m := range []string{"Error", "String"} {
			if m == "Error" && !w.e.implements(x.t, w.e.errIface) {
				continue
			}
			if m == "String" && !w.e.implements(x.t, w.e.strIface) {
				continue
			}
			if isNilPtr(x.v) {
				if _, isp := under(x.t).(*types.Pointer); isp {
					return pad(vb("<nil>"), fl, 5)
				}
			}
			s, ok := fr.callMethod(x.t, x.v, m)
			if ok {
				return fr.fmtString(verb, fl, s)
			}
		}
	}
	if isString(x.t) {
		return fr.fmtString(verb, fl, x.v)
	}
	if isBool(x.t) {
		if w.truth(x.v) {
			return pad(vb("true"), fl, 4)
		}
		return pad(vb("false"), fl, 5)
	}
	if wd, sg, ok := intInfo(x.t); ok {
		return fr.fmtInt(verb, fl, x.v, wd, sg)
	}
	if isFloat(x.t) {
		f, ok := x.v.(float64)
		if !ok {
			return vb("<float>")
		}
		s := ""
		if fl.prec >= 0 {
			s = fmt.Sprintf("%*.*"+string(verb), fl.width, fl.prec, f)
		} else {
			s = fmt.Sprintf("%*"+string(verb), fl.width, f)
		}
		return vb(s)
	}
	switch u := under(x.t).(type) {
	case *types.Slice:
		s := x.v.([]Value)
		ew, _, isInt := intInfo(u.Elem())
		if isInt && ew == 8 && strings.ContainsRune("sxXq", verb) {
			return fr.fmtString(verb, fl, mkStr(append([]Value(nil), s...)))
		}
		if fl.sharp {
			return vb(x.t.String() + "{...}")
		}
		out := []Value{uint64('[')}
		for i, e := range s {
			if i > 0 {
				out = append(out, uint64(' '))
			}
			out = append(out, fr.fmtArg(verb, fl, fr.elemIface(u.Elem(), e))...)
		}
		return append(out, uint64(']'))
	case *types.Array:
		out := []Value{uint64('[')}
		for i, e := range x.v.(Agg) {
			if i > 0 {
				out = append(out, uint64(' '))
			}
			out = append(out, fr.fmtArg(verb, fl, fr.elemIface(u.Elem(), e))...)
		}
		return append(out, uint64(']'))
	case *types.Struct:
		out := []Value{uint64('{')}
		for i, e := range x.v.(Agg) {
			if i > 0 {
				out = append(out, uint64(' '))
			}
			if fl.plus || fl.sharp {
				out = append(out, vb(u.Field(i).Name()+":")...)
			}
			out = append(out, fr.fmtArg(verb, fl, fr.elemIface(u.Field(i).Type(), e))...)
		}
		return append(out, uint64('}'))
	case *types.Pointer:
		if isNilPtr(x.v) {
			return vb("<nil>")
		}
		return vb("0xc000000000")
	}
	return vb("<" + x.t.String() + ">")
}

func (fr *frame) elemIface(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{t, v}
}

func (fr *frame) fmtString(verb rune, fl fmtFlags, s Value) []Value {
	switch verb {
	case 'x', 'X':
		var out []Value
		for _, c := range strBytes(s) {
			out = append(out, fr.hexDigit(c, 1, verb == 'X'), fr.hexDigit(c, 0, verb == 'X'))
		}
		return pad(out, fl, len(out))
	case 'q':
		if g, ok := s.(string); ok {
			q := strconv.Quote(g)
			return pad(vb(q), fl, len(q))
		}
		out := append([]Value{uint64('"')}, strBytes(s)...)
		return append(out, uint64('"'))
	case 'd', 'c', 'U':
		return vb("%!" + string(verb) + "(string)")
	}
	b := strBytes(s)
	n := len(b)
	if g, ok := s.(string); ok {
		if fl.prec >= 0 && fl.prec < len([]rune(g)) {
			g = string([]rune(g)[:fl.prec])
			b = vb(g)
		}
		n = len([]rune(g))
	}
	return pad(b, fl, n)
}

func (fr *frame) hexDigit(c Value, n uint64, up bool) Value {
	w := fr.w
	a := uint64('a' - 10)
	if up {
		a = 'A' - 10
	}
	if u, ok := c.(uint64); ok {
		d := u >> (4 * n) & 0xf
		if d < 10 {
			return '0' + d
		}
		return a + d
	}
	t := w.b.BAnd(w.b.LShr(c.(*Term), w.b.Const(c.(*Term).w, 4*n)), w.b.Const(c.(*Term).w, 0xf))
	if t.w != 8 {
		if t.w > 8 {
			t = w.b.Trunc(t, 8)
		}
	}
	return norm(w.b.Ite(w.b.Ult(t, w.b.Const(8, 10)), w.b.Add(t, w.b.Const(8, '0')), w.b.Add(t, w.b.Const(8, a))))
}

func (fr *frame) fmtInt(verb rune, fl fmtFlags, v Value, wd uint8, sg bool) []Value {
	w := fr.w
	if u, ok := v.(uint64); ok {
		spec := "%"
		if fl.minus {
			spec += "-"
		}
		if fl.plus {
			spec += "+"
		}
		if fl.sharp {
			spec += "#"
		}
		if fl.space {
			spec += " "
		}
		if fl.zero {
			spec += "0"
		}
		if fl.width > 0 {
			spec += strconv.Itoa(fl.width)
		}
		if fl.prec >= 0 {
			spec += "." + strconv.Itoa(fl.prec)
		}
		spec += string(verb)
		if sg {
			return vb(fmt.Sprintf(spec, sext(u, wd)))
		}
		return vb(fmt.Sprintf(spec, u))
	}
	t := v.(*Term)
	var out []Value
	neg := false
	if sg && w.branch(w.b.Slt(t, w.b.Const(wd, 0))) {
		neg = true
		t = w.b.Neg(t)
	}
	switch verb {
	case 'd', 'v', 's':
		// number of digits by forking
		n := 1
		p := uint64(10)
		if fl.zero && !fl.minus && !neg && !fl.plus && !sg {
			for n < fl.width && n < 19 {
				n++
				p *= 10
			}
		}
		for n < 20 {
			if p > mask(wd) || w.branch(w.b.Ult(t, w.b.Const(wd, p))) {
				break
			}
			n++
			if p > math.MaxUint64/10 {
				break
			}
			p *= 10
		}
		div := uint64(1)
		var ds []Value
		for i := 0; i < n; i++ {
			q := t
			if div > 1 {
				q = w.b.UDiv(t, w.b.Const(wd, div))
			}
			d := q
			if i < n-1 {
				d = w.b.URem(q, w.b.Const(wd, 10))
			}
			if d.w > 8 {
				d = w.b.Trunc(d, 8)
			}
			ds = append([]Value{norm(w.b.Add(d, w.b.Const(8, '0')))}, ds...)
			div *= 10
		}
		out = ds
	case 'x', 'X':
		n := 1
		if fl.zero && !fl.minus && !neg && !fl.plus && !fl.sharp && fl.width > 1 {
			n = min(fl.width, int(wd+3)/4)
		}
		for n < int(wd+3)/4 {
			if w.branch(w.b.Ult(t, w.b.Const(wd, uint64(1)<<(4*n)))) {
				break
			}
			n++
		}
		for i := n - 1; i >= 0; i-- {
			out = append(out, fr.hexDigit(t, uint64(i), verb == 'X'))
		}
	case 'c':
		x := t
		if wd < 32 {
			x = w.b.ZExt(t, 32)
		} else if wd > 32 {
			x = w.b.Trunc(t, 32)
		}
		return w.encodeRune(norm(x))
	default:
		// rarely needed: decide the value
		return fr.fmtInt(verb, fl, w.concretise(v), wd, sg)
	}
	if fl.prec >= 0 {
		for len(out) < fl.prec {
			out = append([]Value{uint64('0')}, out...)
		}
	} else if fl.zero && !fl.minus {
		wdt := fl.width
		if neg || fl.plus {
			wdt--
		}
		for len(out) < wdt {
			out = append([]Value{uint64('0')}, out...)
		}
	}
	if fl.sharp && (verb == 'x' || verb == 'X') {
		out = append(vb("0"+string(verb)), out...)
	}
	if neg {
		out = append([]Value{uint64('-')}, out...)
	} else if fl.plus {
		out = append([]Value{uint64('+')}, out...)
	}
	return pad(out, fl, len(out))
}

var _ = sort.Strings
var _ ssa.Value
