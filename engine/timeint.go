package main

// The calendar of package time.  time.Date and the accessors run from their
// source; where the solver would have to invert the calendar arithmetic, the
// documented contract is used instead: the accessors of the instant returned
// by Date for in-range fields in a fixed-offset location are those fields.

import "golang.org/x/tools/go/ssa"

type civKey struct {
	ext *Term
	loc interface{}
}

type civil [6]Value // year month day hour minute second

func (e *Engine) rawCode(fn *ssa.Function) *fnCode {
	e.codeMu.Lock()
	c := e.raws[fn]
	if c == nil {
		c = &fnCode{fn: fn, raw: true}
		if e.raws == nil {
			e.raws = map[*ssa.Function]*fnCode{}
		}
		e.raws[fn] = c
	}
	e.codeMu.Unlock()
	c.once.Do(func() { e.compile(c) })
	return c
}

func (fr *frame) callRaw(args []Value) Value {
	fn := fr.code.fn
	return fr.w.callClosure(fr.caller, &Closure{fn: fn, code: fr.w.e.rawCode(fn)}, args)
}

// fixedLoc reports whether a location has one offset for all time.
func fixedLoc(loc Value) bool {
	p, _ := loc.(*Value)
	if p == nil {
		return true
	}
	ag, ok := (*p).(Agg)
	if !ok || len(ag) < 3 {
		return false
	}
	if name, ok := ag[0].(string); ok && name == "UTC" {
		return true
	}
	z, ok := ag[1].([]Value)
	return ok && len(z) == 1
}

func addTimeIntrinsics() {
	intrinsics["time.Date"] = func(fr *frame, a []Value) Value {
		w := fr.w
		sym := false
		for _, v := range a[:6] {
			if _, ok := v.(*Term); ok {
				sym = true
			}
		}
		if lp, ok := a[7].(*Value); ok && lp != nil && !sym {
			if ag, ok := (*lp).(Agg); ok && len(ag) > 1 {
				if z, ok := ag[1].([]Value); ok && len(z) == 1 {
					if za, ok := z[0].(Agg); ok {
						if _, ok := za[1].(*Term); ok {
							sym = true
						}
					}
				}
			}
		}
		if !sym || !fixedLoc(a[7]) {
			return fr.callRaw(a)
		}
		in := func(v Value, lo, hi uint64) *Term {
			t := w.term(v, 64)
			return w.b.And(w.b.Sle(w.b.Const(64, lo), t), w.b.Sle(t, w.b.Const(64, hi)))
		}
		y, m, d := w.term(a[0], 64), w.term(a[1], 64), w.term(a[2], 64)
		c := func(n uint64) *Term { return w.b.Const(64, n) }
		isM := func(n uint64) *Term { return w.b.Eq(m, c(n)) }
		leap := w.b.F
		// days in month
		if d.umax > 28 {
			rem := func(n uint64) *Term { return w.b.Eq(w.b.URem(y, c(n)), c(0)) }
			leap = w.b.And(rem(4), w.b.Or(w.b.Not(rem(100)), rem(400)))
		}
		short := w.b.Or(w.b.Or(isM(4), isM(6)), w.b.Or(isM(9), isM(11)))
		dim := w.b.Ite(isM(2), w.b.Ite(leap, c(29), c(28)), w.b.Ite(short, c(30), c(31)))
		ok := w.b.And(in(a[0], 1, 9999), in(a[1], 1, 12))
		ok = w.b.And(ok, w.b.And(w.b.Sle(c(1), d), w.b.Sle(d, dim)))
		ok = w.b.And(ok, w.b.And(in(a[3], 0, 23), w.b.And(in(a[4], 0, 59), in(a[5], 0, 59))))
		ok = w.b.And(ok, in(a[6], 0, 999999999))
		good := w.truth(norm(ok))
		if !good {
			// normalisation of out-of-range fields is not followed: the
			// instant is arbitrary
			w.e.noteAbstract("time.Date of fields out of range: arbitrary instant")
			return Agg{uint64(0), w.newVar(64), a[7]}
		}
		r := fr.callRaw(a)
		if good {
			ag := r.(Agg)
			if ext, ok := ag[1].(*Term); ok {
				if w.civ == nil {
					w.civ = map[civKey]civil{}
				}
				w.civ[civKey{ext, ag[2]}] = civil{a[0], a[1], a[2], a[3], a[4], a[5]}
			}
		}
		return r
	}
	get := func(fr *frame, a []Value) (civil, bool) {
		ag := a[0].(Agg)
		ext, ok := ag[1].(*Term)
		if !ok || fr.w.civ == nil {
			return civil{}, false
		}
		c, ok := fr.w.civ[civKey{ext, ag[2]}]
		return c, ok
	}
	for i, n := range []string{"Year", "Month", "Day", "Hour", "Minute", "Second"} {
		i := i
		intrinsics["(time.Time)."+n] = func(fr *frame, a []Value) Value {
			if c, ok := get(fr, a); ok {
				return c[i]
			}
			return fr.callRaw(a)
		}
	}
	for n, o := range map[string]int{"Date": 0, "Clock": 3} {
		o := o
		intrinsics["(time.Time)."+n] = func(fr *frame, a []Value) Value {
			if c, ok := get(fr, a); ok {
				return TupleV{c[o], c[o+1], c[o+2]}
			}
			return fr.callRaw(a)
		}
	}
}
