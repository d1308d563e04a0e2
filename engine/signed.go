package main

// Signed ranges, and what they allow: comparisons that are decided, and exact
// division of signed sums by constants.

import "math/bits"

func minS(w uint8) int64 { return -1 << (w - 1) }
func maxS(w uint8) int64 { return 1<<(w-1) - 1 }

// addS and mulS report whether the result is within a width's signed range.
func addS(x, y int64, w uint8) (int64, bool) {
	s := x + y
	if (x > 0 && y > 0 && s <= 0) || (x < 0 && y < 0 && s >= 0) {
		return 0, false
	}
	return s, s >= minS(w) && s <= maxS(w)
}

func mulS(x, y int64, w uint8) (int64, bool) {
	neg := (x < 0) != (y < 0)
	ux, uy := uint64(x), uint64(y)
	if x < 0 {
		ux = -ux
	}
	if y < 0 {
		uy = -uy
	}
	h, l := bits.Mul64(ux, uy)
	if h != 0 || l > 1<<62 {
		return 0, false
	}
	p := int64(l)
	if neg {
		p = -p
	}
	return p, p >= minS(w) && p <= maxS(w)
}

// srng gives sound signed bounds for a bit-vector term.
func srng(t *Term) (int64, int64) {
	if t.sdone {
		return t.smin, t.smax
	}
	t.smin, t.smax = srng0(t)
	t.sdone = true
	return t.smin, t.smax
}

func srng0(t *Term) (int64, int64) {
	if t.w == 0 || t.fp {
		return -1 << 63, 1<<63 - 1
	}
	if t.op == OConst {
		v := sext(t.k, t.w)
		return v, v
	}
	lo, hi := minS(t.w), maxS(t.w)
	if nonneg(t) {
		lo, hi = int64(t.umin), int64(t.umax)
	} else if t.umin > uint64(hi) {
		lo, hi = sext(t.umin, t.w), sext(t.umax, t.w)
	}
	in := func(l, h int64) (int64, int64) {
		if l > lo {
			lo = l
		}
		if h < hi {
			hi = h
		}
		return lo, hi
	}
	switch t.op {
	case OIte:
		a, b := srng(t.b)
		c, d := srng(t.c)
		return in(min(a, c), max(b, d))
	case OAdd:
		a, b := srng(t.a)
		c, d := srng(t.b)
		l, ok1 := addS(a, c, t.w)
		h, ok2 := addS(b, d, t.w)
		if ok1 && ok2 {
			return in(l, h)
		}
	case OSub:
		a, b := srng(t.a)
		c, d := srng(t.b)
		if c > -1<<62 {
			l, ok1 := addS(a, -d, t.w)
			h, ok2 := addS(b, -c, t.w)
			if ok1 && ok2 {
				return in(l, h)
			}
		}
	case ONeg:
		a, b := srng(t.a)
		if a > minS(t.w) {
			return in(-b, -a)
		}
	case OMul, OShl:
		if c, ok := factor(t); ok {
			a, b := srng(t.a)
			l, ok1 := mulS(a, c, t.w)
			h, ok2 := mulS(b, c, t.w)
			if ok1 && ok2 {
				return in(min(l, h), max(l, h))
			}
		}
	case OSDiv:
		if t.b.isC() {
			if c := sext(t.b.k, t.w); c > 0 {
				a, b := srng(t.a)
				return in(a/c, b/c)
			}
		}
	case OSRem:
		if t.b.isC() {
			if c := sext(t.b.k, t.w); c > 0 {
				a, b := srng(t.a)
				l, h := -(c - 1), c-1
				if a >= 0 {
					l = 0
				}
				if b <= 0 {
					h = 0
				}
				return in(l, h)
			}
		}
	case OSExt:
		return in(srng(t.a))
	}
	return lo, hi
}

// factor is the constant a product or shift multiplies by.
func factor(t *Term) (int64, bool) {
	if t.b == nil || !t.b.isC() {
		return 0, false
	}
	switch t.op {
	case OMul:
		return sext(t.b.k, t.w), true
	case OShl:
		if t.b.k < uint64(t.w)-1 && t.b.k < 62 {
			return 1 << t.b.k, true
		}
	}
	return 0, false
}

// exactDiv gives x/d where every part of x is a multiple of d and nothing in
// it wraps, or nil.
func (b *Builder) exactDiv(x *Term, d int64, depth int) *Term {
	if depth > 20 {
		return nil
	}
	lo, hi := srng(x)
	_ = hi
	switch x.op {
	case OConst:
		if v := sext(x.k, x.w); v%d == 0 {
			return b.Const(x.w, uint64(v/d))
		}
	case OMul, OShl:
		c, ok := factor(x)
		if !ok || c%d != 0 {
			return nil
		}
		a, z := srng(x.a)
		_, ok1 := mulS(a, c, x.w)
		_, ok2 := mulS(z, c, x.w)
		if ok1 && ok2 {
			return b.Mul(x.a, b.Const(x.w, uint64(c/d)))
		}
	case OAdd, OSub:
		a, z := srng(x.a)
		c, e := srng(x.b)
		if x.op == OSub {
			if c <= -1<<62 || e >= 1<<62 {
				return nil
			}
			c, e = -e, -c
		}
		_, ok1 := addS(a, c, x.w)
		_, ok2 := addS(z, e, x.w)
		if !ok1 || !ok2 {
			return nil
		}
		p := b.exactDiv(x.a, d, depth+1)
		if p == nil {
			return nil
		}
		q := b.exactDiv(x.b, d, depth+1)
		if q == nil {
			return nil
		}
		if x.op == OSub {
			return b.Sub(p, q)
		}
		return b.Add(p, q)
	case ONeg:
		if l, _ := srng(x.a); l > minS(x.w) {
			if p := b.exactDiv(x.a, d, depth+1); p != nil {
				return b.Neg(p)
			}
		}
	case OIte:
		if p := b.exactDiv(x.b, d, depth+1); p != nil {
			if q := b.exactDiv(x.c, d, depth+1); q != nil {
				return b.Ite(x.a, p, q)
			}
		}
	case OZExt, OConcat:
		if lo >= 0 {
			if q, r := b.linDiv(x, uint64(d)); q != nil && r.isC() && r.k == 0 {
				return q
			}
		}
	}
	return nil
}
