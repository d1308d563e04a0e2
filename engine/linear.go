package main

// Division of linear sums by constants.  A term is flattened to
// sum(c_i*x_i)+k over the unsigned integers (only where no operation can wrap,
// by the ranges), and x/C, x%C are rewritten when the sum splits into a
// multiple of some g dividing C plus a rest smaller than g.

import "math/bits"

type linTerm struct {
	t *Term
	c uint64
}

type linear struct {
	ts []linTerm
	k  uint64
}

func (b *Builder) flatten(t *Term, c uint64, l *linear, depth int) bool {
	if h, _ := bits.Mul64(t.umax, c); h != 0 {
		return false
	}
	if len(l.ts) > 12 || depth > 40 {
		return false
	}
	switch t.op {
	case OConst:
		l.k += t.k * c
		return true
	case OAdd:
		if s, cy := bits.Add64(t.a.umax, t.b.umax, 0); cy == 0 && s <= mask(t.w) {
			return b.flatten(t.a, c, l, depth+1) && b.flatten(t.b, c, l, depth+1)
		}
	case OMul:
		if t.b != nil && t.b.isC() {
			if h, p := bits.Mul64(t.a.umax, t.b.k); h == 0 && p <= mask(t.w) {
				if h, p := bits.Mul64(c, t.b.k); h == 0 {
					return b.flatten(t.a, p, l, depth+1)
				}
			}
		}
	case OShl:
		if t.b.isC() && t.b.k < 63 {
			if h, p := bits.Mul64(t.a.umax, 1<<t.b.k); h == 0 && p <= mask(t.w) {
				if h, p := bits.Mul64(c, 1<<t.b.k); h == 0 {
					return b.flatten(t.a, p, l, depth+1)
				}
			}
		}
	case OZExt:
		return b.flatten(t.a, c, l, depth+1)
	case OConcat:
		if t.b.w < 63 {
			if h, p := bits.Mul64(c, 1<<t.b.w); h == 0 {
				return b.flatten(t.a, p, l, depth+1) && b.flatten(t.b, c, l, depth+1)
			}
		}
	}
	for i := range l.ts {
		if l.ts[i].t == t {
			l.ts[i].c += c
			return true
		}
	}
	l.ts = append(l.ts, linTerm{t, c})
	return true
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// linDiv rewrites x/y and x%y for a constant y, or returns nil.
func (b *Builder) linDiv(x *Term, y uint64) (q, r *Term) {
	switch x.op {
	case OAdd, OMul, OShl, OZExt, OConcat:
	default:
		return nil, nil
	}
	var l linear
	if !b.flatten(x, 1, &l, 0) || len(l.ts) == 0 {
		return nil, nil
	}
	// the whole sum must be the value of x: no wrap at 64 bits or at x's width
	var tot uint64
	add := func(v, c uint64) bool {
		h, p := bits.Mul64(v, c)
		if h != 0 {
			return false
		}
		var cy uint64
		tot, cy = bits.Add64(tot, p, 0)
		return cy == 0 && tot <= mask(x.w)
	}
	if !add(l.k, 1) {
		return nil, nil
	}
	for _, t := range l.ts {
		if !add(t.t.umax, t.c) {
			return nil, nil
		}
	}
	try := func(g uint64) bool {
		if g <= 1 {
			return false
		}
		rest := l.k % g
		hi := false
		for _, t := range l.ts {
			if t.c%g == 0 {
				hi = true
				continue
			}
			rest += t.t.umax * t.c
		}
		if !hi || rest >= g {
			return false
		}
		mk := func(t *Term, c uint64) *Term {
			if t.w < x.w {
				t = b.ZExt(t, x.w)
			} else if t.w > x.w {
				t = b.Trunc(t, x.w) // its range fits, or tot would not
			}
			return b.Mul(t, b.Const(x.w, c))
		}
		a := b.Const(x.w, l.k/g)
		lo := b.Const(x.w, l.k%g)
		for _, t := range l.ts {
			if t.c%g == 0 {
				a = b.Add(a, mk(t.t, t.c/g))
			} else {
				lo = b.Add(lo, mk(t.t, t.c))
			}
		}
		m := b.Const(x.w, y/g)
		q = b.UDiv(a, m)
		r = b.Add(b.Mul(b.URem(a, m), b.Const(x.w, g)), lo)
		return true
	}
	if try(y) {
		return
	}
	best := []uint64{}
	for _, t := range l.ts {
		if g := gcd(t.c, y); g > 1 && g < y {
			best = append(best, g)
		}
	}
	// larger first
	for i := range best {
		for j := i + 1; j < len(best); j++ {
			if best[j] > best[i] {
				best[i], best[j] = best[j], best[i]
			}
		}
	}
	for _, g := range best {
		if try(g) {
			return
		}
	}
	return nil, nil
}

// floatFloor: int(float(a) + float(r)/C) is a for 0 <= r < C when a is small
// enough that the sum cannot round up to a+1: half an ulp at a+1 is below
// 1/C - 2^-53 (the quotient is at most 1-1/C, rounded to within 2^-54).
func (b *Builder) floatFloor(x *Term) *Term {
	if x.op == OSToF && nonneg(x.a) && x.a.umax < 1<<52 {
		if x.a.w < 64 {
			return b.ZExt(x.a, 64)
		}
		return x.a
	}
	if x.op == OSToF {
		if lo, hi := srng(x.a); lo > -1<<52 && hi < 1<<52 {
			return b.SExt(x.a, 64)
		}
	}
	if x.op == OFAdd && x.a.op == OSToF && x.b.isC() && mathFrom(x.b.k) == 0 {
		return b.floatFloor(x.a)
	}
	if x.op != OFAdd || x.a.op != OSToF || x.b.op != OFDiv || x.b.a.op != OSToF || !x.b.b.isC() {
		return nil
	}
	a, r := x.a.a, x.b.a.a
	cf := mathFrom(x.b.b.k)
	if !(cf >= 2 && cf < 1e15 && cf == float64(uint64(cf))) || !nonneg(a) || !nonneg(r) || r.umax >= uint64(cf) || a.umax >= 1<<30 {
		return nil
	}
	ulp := 1.0
	for p := a.umax + 1; p > 1; p >>= 1 {
		ulp *= 2
	}
	ulp /= float64(1 << 52)
	if ulp/2 >= (1/cf)*0.999-1.2e-16 {
		return nil
	}
	if a.w < 64 {
		a = b.ZExt(a, 64)
	}
	return a
}

// linEq decides x == y when both are the same sum, cancelling what they share.
func (b *Builder) linEq(x, y *Term) bool {
	lin := func(t *Term) bool {
		switch t.op {
		case OAdd, OMul, OShl, OZExt:
			return true
		}
		return false
	}
	if x.w < 32 || !(lin(x) && lin(y)) {
		return false
	}
	var p, q linear
	if !b.flatten(x, 1, &p, 0) || !b.flatten(y, 1, &q, 0) || p.k != q.k || len(p.ts) != len(q.ts) {
		return false
	}
	// coefficients agree modulo 2^64, of which the width is a divisor
	m := map[*Term]uint64{}
	for _, t := range p.ts {
		m[t.t] = t.c
	}
	for _, t := range q.ts {
		if c, ok := m[t.t]; !ok || c != t.c {
			return false
		}
	}
	return true
}
