package main

// Hash-consed SMT terms: booleans (w==0), bit-vectors (w 1..64) and IEEE-754
// doubles (sort fp, w==64).  Every constructor folds constants and applies
// local, semantics-preserving rewrites; nothing else about the program is
// interpreted here.

import (
	"fmt"
	"math"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	ONeg
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OConcat
	OExtract // k = hi<<8|lo
	OZExt
	OSExt
	// floating point (double)
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OSToF // signed bv -> double
	OUToF
	OFToS // double -> signed bv64 (RTZ)
	OFToU
)

type Term struct {
	op         Op
	w          uint8
	fp         bool
	k          uint64
	a, b, c    *Term
	id         int32
	umin, umax uint64
	smin, smax int64
	sdone      bool
	egen       uint32
	eval       uint64
	emitted    bool
	name       string
}

type tkey struct {
	op      Op
	w       uint8
	fp      bool
	k       uint64
	a, b, c *Term
}

type Builder struct {
	tab  map[tkey]*Term
	n    int32
	vars map[string]*Term
	gen  uint32
	T, F *Term
}

func NewBuilder() *Builder {
	b := &Builder{tab: map[tkey]*Term{}, vars: map[string]*Term{}}
	b.T = b.mk(OConst, 0, 1, nil, nil, nil)
	b.F = b.mk(OConst, 0, 0, nil, nil, nil)
	return b
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (b *Builder) mk(op Op, w uint8, k uint64, x, y, z *Term) *Term {
	return b.mkf(op, w, false, k, x, y, z)
}

func (b *Builder) mkf(op Op, w uint8, fp bool, k uint64, x, y, z *Term) *Term {
	key := tkey{op, w, fp, k, x, y, z}
	if t, ok := b.tab[key]; ok {
		return t
	}
	b.n++
	t := &Term{op: op, w: w, fp: fp, k: k, a: x, b: y, c: z, id: b.n}
	t.umin, t.umax = b.rng(t)
	b.tab[key] = t
	return t
}

// rng computes sound unsigned bounds for a term.
func (b *Builder) rng(t *Term) (uint64, uint64) {
	m := mask(t.w)
	if t.w == 0 {
		if t.op == OConst {
			return t.k, t.k
		}
		return 0, 1
	}
	if t.fp {
		return 0, ^uint64(0)
	}
	switch t.op {
	case OConst:
		return t.k, t.k
	case OIte:
		lo, hi := t.b.umin, t.b.umax
		if t.c.umin < lo {
			lo = t.c.umin
		}
		if t.c.umax > hi {
			hi = t.c.umax
		}
		return lo, hi
	case OAdd:
		hi, c := bits.Add64(t.a.umax, t.b.umax, 0)
		if c == 0 && hi <= m {
			return t.a.umin + t.b.umin, hi
		}
	case OSub:
		if t.a.umin >= t.b.umax {
			return t.a.umin - t.b.umax, t.a.umax - t.b.umin
		}
	case OMul:
		h, hi := bits.Mul64(t.a.umax, t.b.umax)
		if h == 0 && hi <= m {
			return t.a.umin * t.b.umin, hi
		}
	case OUDiv:
		if t.b.umin > 0 {
			return t.a.umin / t.b.umax, t.a.umax / t.b.umin
		}
	case OURem:
		if t.b.umin > 0 {
			if t.a.umax < t.b.umin {
				return t.a.umin, t.a.umax
			}
			hi := t.b.umax - 1
			if t.a.umax < hi {
				hi = t.a.umax
			}
			return 0, hi
		}
	case OBAnd:
		hi := t.a.umax
		if t.b.umax < hi {
			hi = t.b.umax
		}
		return 0, hi
	case OBOr:
		lo := t.a.umin
		if t.b.umin > lo {
			lo = t.b.umin
		}
		n := bits.Len64(t.a.umax | t.b.umax)
		return lo, mask(uint8(n))
	case OBXor:
		n := bits.Len64(t.a.umax | t.b.umax)
		return 0, mask(uint8(n))
	case OZExt:
		return t.a.umin, t.a.umax
	case OSExt:
		if t.a.umax < uint64(1)<<(t.a.w-1) {
			return t.a.umin, t.a.umax
		}
	case OConcat:
		return t.a.umin<<t.b.w | t.b.umin&0, t.a.umax<<t.b.w | mask(t.b.w)
	case OExtract:
		lo := t.k & 0xff
		if lo == 0 && t.a.umax <= m {
			return t.a.umin, t.a.umax
		}
		h := t.a.umax >> lo
		if h <= m {
			return t.a.umin >> lo, h
		}
	case OLShr:
		if t.b.op == OConst && t.b.k < 64 {
			return t.a.umin >> t.b.k, t.a.umax >> t.b.k
		}
		return 0, t.a.umax
	case OShl:
		if t.b.op == OConst && t.b.k < 64 && bits.Len64(t.a.umax)+int(t.b.k) <= int(t.w) {
			return t.a.umin << t.b.k, t.a.umax << t.b.k
		}
	case OVar:
		// declared range travels in the path condition; bounds stay generic
	}
	return 0, m
}

func (b *Builder) Const(w uint8, v uint64) *Term {
	return b.mk(OConst, w, v&mask(w), nil, nil, nil)
}
func (b *Builder) Bool(v bool) *Term {
	if v {
		return b.T
	}
	return b.F
}
func (b *Builder) FConst(f float64) *Term {
	return b.mkf(OConst, 64, true, math.Float64bits(f), nil, nil, nil)
}

func (b *Builder) Var(name string, w uint8) *Term {
	if t, ok := b.vars[name]; ok {
		if t.w != w {
			panic("var width clash " + name)
		}
		return t
	}
	b.n++
	t := &Term{op: OVar, w: w, id: b.n, name: name, umin: 0, umax: mask(w)}
	if w == 0 {
		t.umax = 1
	}
	b.vars[name] = t
	return t
}

func (t *Term) isC() bool { return t.op == OConst }

func (b *Builder) Not(x *Term) *Term {
	if x.isC() {
		return b.Bool(x.k == 0)
	}
	if x.op == ONot {
		return x.a
	}
	return b.mk(ONot, 0, 0, x, nil, nil)
}

func (b *Builder) And(x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.isC() {
		if x.k == 0 {
			return x
		}
		return y
	}
	if y.isC() {
		if y.k == 0 {
			return y
		}
		return x
	}
	if (x.op == ONot && x.a == y) || (y.op == ONot && y.a == x) {
		return b.F
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OAnd, 0, 0, x, y, nil)
}

func (b *Builder) Or(x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.isC() {
		if x.k == 1 {
			return x
		}
		return y
	}
	if y.isC() {
		if y.k == 1 {
			return y
		}
		return x
	}
	if (x.op == ONot && x.a == y) || (y.op == ONot && y.a == x) {
		return b.T
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OOr, 0, 0, x, y, nil)
}

func (b *Builder) Ite(c, x, y *Term) *Term {
	if c.isC() {
		if c.k == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if c.op == ONot {
		return b.Ite(c.a, y, x)
	}
	if x.w == 0 {
		if x.isC() && y.isC() {
			if x.k == 1 {
				return c
			}
			return b.Not(c)
		}
		if x.isC() {
			if x.k == 1 {
				return b.Or(c, y)
			}
			return b.And(b.Not(c), y)
		}
		if y.isC() {
			if y.k == 1 {
				return b.Or(b.Not(c), x)
			}
			return b.And(c, x)
		}
	}
	if x.op == OIte && x.a == c {
		x = x.b
	}
	if y.op == OIte && y.a == c {
		y = y.c
	}
	if x == y {
		return x
	}
	return b.mkf(OIte, x.w, x.fp, 0, c, x, y)
}

func (b *Builder) Eq(x, y *Term) *Term {
	if x == y && !x.fp {
		return b.T
	}
	if x.isC() && y.isC() {
		return b.Bool(x.k == y.k)
	}
	if x.w == 0 {
		if x.isC() {
			x, y = y, x
		}
		if y.isC() {
			if y.k == 1 {
				return x
			}
			return b.Not(x)
		}
		if (x.op == ONot && x.a == y) || (y.op == ONot && y.a == x) {
			return b.F
		}
	} else {
		if x.umax < y.umin || y.umax < x.umin {
			return b.F
		}
		if x.isC() {
			x, y = y, x
		}
		if y.isC() {
			switch x.op {
			case OZExt, OSExt:
				iw := x.a.w
				t := y.k & mask(iw)
				var back uint64
				if x.op == OZExt {
					back = t
				} else {
					back = uint64(sext(t, iw)) & mask(x.w)
				}
				if back != y.k {
					return b.F
				}
				return b.Eq(x.a, b.Const(iw, t))
			case OAdd:
				if x.b.isC() {
					return b.Eq(x.a, b.Const(x.w, y.k-x.b.k))
				}
			case OConcat:
				return b.And(b.Eq(x.a, b.Const(x.a.w, y.k>>x.b.w)), b.Eq(x.b, b.Const(x.b.w, y.k)))
			case OIte:
				if x.b.isC() && x.c.isC() {
					e1, e2 := x.b.k == y.k, x.c.k == y.k
					switch {
					case e1 && e2:
						return b.T
					case e1:
						return x.a
					case e2:
						return b.Not(x.a)
					default:
						return b.F
					}
				}
				if x.b.isC() || x.c.isC() {
					return b.Ite(x.a, b.Eq(x.b, y), b.Eq(x.c, y))
				}
			case OBXor:
				if x.b.isC() {
					return b.Eq(x.a, b.Const(x.w, y.k^x.b.k))
				}
			case OBNot:
				return b.Eq(x.a, b.Const(x.w, ^y.k))
			}
		} else if x.op == OZExt && y.op == OZExt && x.a.w == y.a.w {
			return b.Eq(x.a, y.a)
		} else if x.op == OSExt && y.op == OSExt && x.a.w == y.a.w {
			return b.Eq(x.a, y.a)
		} else if b.linEq(x, y) {
			return b.T
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OEq, 0, 0, x, y, nil)
}

func (b *Builder) Ult(x, y *Term) *Term {
	if x == y {
		return b.F
	}
	if x.umax < y.umin {
		return b.T
	}
	if x.umin >= y.umax {
		return b.F
	}
	if x.isC() && y.isC() {
		return b.Bool(x.k < y.k)
	}
	if x.op == OZExt && y.op == OZExt && x.a.w == y.a.w {
		return b.Ult(x.a, y.a)
	}
	if x.op == OZExt && y.isC() { // y.k <= x.umax here
		return b.Ult(x.a, b.Const(x.a.w, y.k))
	}
	if y.op == OZExt && x.isC() {
		return b.Ult(b.Const(y.a.w, x.k), y.a)
	}
	if y.isC() && y.k == 1 {
		return b.Eq(x, b.Const(x.w, 0))
	}
	if x.isC() && x.k == mask(x.w)-1 {
		return b.Eq(y, b.Const(x.w, mask(x.w)))
	}
	if y.isC() && y.k == x.umin+1 {
		return b.Eq(x, b.Const(x.w, x.umin))
	}
	return b.mk(OUlt, 0, 0, x, y, nil)
}

func (b *Builder) Ule(x, y *Term) *Term { return b.Not(b.Ult(y, x)) }

func nonneg(x *Term) bool { return x.umax < uint64(1)<<(x.w-1) }

func (b *Builder) Slt(x, y *Term) *Term {
	if x == y {
		return b.F
	}
	if x.isC() && y.isC() {
		return b.Bool(sext(x.k, x.w) < sext(y.k, y.w))
	}
	nx, ny := nonneg(x), nonneg(y)
	if nx && ny {
		return b.Ult(x, y)
	}
	allneg := func(t *Term) bool { return t.umin >= uint64(1)<<(t.w-1) }
	if nx && allneg(y) {
		return b.F
	}
	if allneg(x) && ny {
		return b.T
	}
	xl, xh := srng(x)
	yl, yh := srng(y)
	if xh < yl {
		return b.T
	}
	if xl >= yh {
		return b.F
	}
	if x.op == OSExt && y.op == OSExt && x.a.w == y.a.w {
		return b.Slt(x.a, y.a)
	}
	if x.op == OSExt && y.isC() && uint64(sext(y.k&mask(x.a.w), x.a.w))&mask(x.w) == y.k {
		return b.Slt(x.a, b.Const(x.a.w, y.k))
	}
	if y.op == OSExt && x.isC() && uint64(sext(x.k&mask(y.a.w), y.a.w))&mask(y.w) == x.k {
		return b.Slt(b.Const(y.a.w, x.k), y.a)
	}
	return b.mk(OSlt, 0, 0, x, y, nil)
}
func (b *Builder) Sle(x, y *Term) *Term { return b.Not(b.Slt(y, x)) }

func (b *Builder) BNot(x *Term) *Term {
	if x.isC() {
		return b.Const(x.w, ^x.k)
	}
	if x.op == OBNot {
		return x.a
	}
	return b.mk(OBNot, x.w, 0, x, nil, nil)
}

func (b *Builder) Neg(x *Term) *Term {
	if x.isC() {
		return b.Const(x.w, -x.k)
	}
	if x.op == ONeg {
		return x.a
	}
	return b.mk(ONeg, x.w, 0, x, nil, nil)
}

func (b *Builder) Add(x, y *Term) *Term {
	if x.isC() {
		x, y = y, x
	}
	if y.isC() {
		if x.isC() {
			return b.Const(x.w, x.k+y.k)
		}
		if y.k == 0 {
			return x
		}
		if x.op == OAdd && x.b.isC() {
			return b.Add(x.a, b.Const(x.w, x.b.k+y.k))
		}
		if x.op == OIte && x.b.isC() && x.c.isC() {
			return b.Ite(x.a, b.Const(x.w, x.b.k+y.k), b.Const(x.w, x.c.k+y.k))
		}
		return b.mk(OAdd, x.w, 0, x, y, nil)
	}
	if x.op == OAdd && x.b.isC() {
		return b.Add(b.Add(x.a, y), x.b)
	}
	if y.op == OAdd && y.b.isC() {
		return b.Add(b.Add(x, y.a), y.b)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OAdd, x.w, 0, x, y, nil)
}

func (b *Builder) Sub(x, y *Term) *Term {
	if x == y {
		return b.Const(x.w, 0)
	}
	if y.isC() {
		return b.Add(x, b.Const(x.w, -y.k))
	}
	if x.op == OAdd && x.a == y {
		return x.b
	}
	if x.op == OAdd && x.b == y {
		return x.a
	}
	return b.mk(OSub, x.w, 0, x, y, nil)
}

func pow2(v uint64) (uint8, bool) {
	if v != 0 && v&(v-1) == 0 {
		return uint8(bits.TrailingZeros64(v)), true
	}
	return 0, false
}

func (b *Builder) Mul(x, y *Term) *Term {
	if x.isC() {
		x, y = y, x
	}
	if y.isC() {
		if x.isC() {
			return b.Const(x.w, x.k*y.k)
		}
		if y.k == 0 {
			return y
		}
		if y.k == 1 {
			return x
		}
		if s, ok := pow2(y.k); ok {
			return b.Shl(x, b.Const(x.w, uint64(s)))
		}
		if x.op == OMul && x.b.isC() {
			return b.Mul(x.a, b.Const(x.w, x.b.k*y.k))
		}
		// narrow
		if h, hi := bits.Mul64(x.umax, y.k); h == 0 {
			n := uint8(bits.Len64(hi))
			if n == 0 {
				n = 1
			}
			if n+2 < x.w && n < x.w {
				return b.ZExt(b.mk(OMul, n, 0, b.Trunc(x, n), b.Const(n, y.k), nil), x.w)
			}
		}
		return b.mk(OMul, x.w, 0, x, y, nil)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OMul, x.w, 0, x, y, nil)
}

func (b *Builder) Trunc(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	return b.Extract(x, w-1, 0)
}

func (b *Builder) divNarrow(op Op, x, y *Term) *Term {
	// y constant nonzero
	n := uint8(bits.Len64(x.umax))
	if l := uint8(bits.Len64(y.k)); l > n {
		n = l
	}
	if n < x.w {
		return b.ZExt(b.mk(op, n, 0, b.Trunc(x, n), b.Const(n, y.k), nil), x.w)
	}
	return b.mk(op, x.w, 0, x, y, nil)
}

// UDiv assumes y != 0 has been established by the caller.
func (b *Builder) UDiv(x, y *Term) *Term {
	if y.isC() && y.k != 0 {
		if x.isC() {
			return b.Const(x.w, x.k/y.k)
		}
		if y.k == 1 {
			return x
		}
		if s, ok := pow2(y.k); ok {
			return b.LShr(x, b.Const(x.w, uint64(s)))
		}
		if x.umax < y.k {
			return b.Const(x.w, 0)
		}
		// (x*(c*d))/d -> x*c when no overflow
		if x.op == OUDiv && x.b.isC() {
			if h, p := bits.Mul64(x.b.k, y.k); h == 0 && p <= mask(x.w) {
				return b.UDiv(x.a, b.Const(x.w, p))
			}
		}
		if q, _ := b.linDiv(x, y.k); q != nil {
			return q
		}
		return b.divNarrow(OUDiv, x, y)
	}
	return b.mk(OUDiv, x.w, 0, x, y, nil)
}

func (b *Builder) URem(x, y *Term) *Term {
	if y.isC() && y.k != 0 {
		if x.isC() {
			return b.Const(x.w, x.k%y.k)
		}
		if y.k == 1 {
			return b.Const(x.w, 0)
		}
		if _, ok := pow2(y.k); ok {
			return b.BAnd(x, b.Const(x.w, y.k-1))
		}
		if x.umax < y.k {
			return x
		}
		if _, r := b.linDiv(x, y.k); r != nil {
			return r
		}
		return b.divNarrow(OURem, x, y)
	}
	return b.mk(OURem, x.w, 0, x, y, nil)
}

func (b *Builder) SDiv(x, y *Term) *Term {
	if x.isC() && y.isC() && y.k != 0 {
		a, d := sext(x.k, x.w), sext(y.k, y.w)
		if d == -1 {
			return b.Const(x.w, uint64(-a))
		}
		return b.Const(x.w, uint64(a/d))
	}
	if nonneg(x) && nonneg(y) {
		return b.UDiv(x, y)
	}
	if y.isC() && y.k == 1 {
		return x
	}
	if y.isC() && sext(y.k, y.w) > 1 {
		d := sext(y.k, y.w)
		if lo, hi := srng(x); lo > -d && hi < d {
			return b.Const(x.w, 0)
		}
		if q := b.exactDiv(x, d, 0); q != nil {
			return q
		}
		// (a/c)/d is a/(c*d)
		if x.op == OSDiv && x.b.isC() {
			if c := sext(x.b.k, x.w); c > 0 {
				if p, ok := mulS(c, d, x.w); ok {
					return b.SDiv(x.a, b.Const(x.w, uint64(p)))
				}
			}
		}
	}
	return b.mk(OSDiv, x.w, 0, x, y, nil)
}

func (b *Builder) SRem(x, y *Term) *Term {
	if x.isC() && y.isC() && y.k != 0 {
		a, d := sext(x.k, x.w), sext(y.k, y.w)
		if d == -1 {
			return b.Const(x.w, 0)
		}
		return b.Const(x.w, uint64(a%d))
	}
	if nonneg(x) && nonneg(y) {
		return b.URem(x, y)
	}
	if y.isC() && sext(y.k, y.w) > 1 {
		d := sext(y.k, y.w)
		if lo, hi := srng(x); lo > -d && hi < d {
			return x
		}
		if b.exactDiv(x, d, 0) != nil {
			return b.Const(x.w, 0)
		}
	}
	return b.mk(OSRem, x.w, 0, x, y, nil)
}

// Shift operations have SMT-LIB semantics (count >= width gives 0 / sign fill).
func (b *Builder) Shl(x, s *Term) *Term {
	if s.isC() {
		if s.k >= uint64(x.w) {
			return b.Const(x.w, 0)
		}
		if s.k == 0 {
			return x
		}
		if x.isC() {
			return b.Const(x.w, x.k<<s.k)
		}
		n := uint8(s.k)
		return b.Concat(b.Extract(x, x.w-1-n, 0), b.Const(n, 0))
	}
	if x.isC() && x.k == 0 {
		return x
	}
	return b.mk(OShl, x.w, 0, x, s, nil)
}

func (b *Builder) LShr(x, s *Term) *Term {
	if s.isC() {
		if s.k >= uint64(x.w) {
			return b.Const(x.w, 0)
		}
		if s.k == 0 {
			return x
		}
		if x.isC() {
			return b.Const(x.w, x.k>>s.k)
		}
		return b.ZExt(b.Extract(x, x.w-1, uint8(s.k)), x.w)
	}
	if x.isC() && x.k == 0 {
		return x
	}
	return b.mk(OLShr, x.w, 0, x, s, nil)
}

func (b *Builder) AShr(x, s *Term) *Term {
	if nonneg(x) {
		return b.LShr(x, s)
	}
	if s.isC() {
		n := s.k
		if n >= uint64(x.w) {
			n = uint64(x.w) - 1
		}
		if n == 0 {
			return x
		}
		if x.isC() {
			return b.Const(x.w, uint64(sext(x.k, x.w)>>n))
		}
		return b.SExt(b.Extract(x, x.w-1, uint8(n)), x.w)
	}
	return b.mk(OAShr, x.w, 0, x, s, nil)
}

func lowMask(v uint64) (uint8, bool) {
	if v != 0 && v&(v+1) == 0 {
		return uint8(bits.Len64(v)), true
	}
	return 0, false
}

func (b *Builder) BAnd(x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.isC() {
		x, y = y, x
	}
	if y.isC() {
		if x.isC() {
			return b.Const(x.w, x.k&y.k)
		}
		if y.k == 0 {
			return y
		}
		if y.k == mask(x.w) {
			return x
		}
		if n, ok := lowMask(y.k); ok {
			if x.umax <= y.k {
				return x
			}
			return b.ZExt(b.Extract(x, n-1, 0), x.w)
		}
		// contiguous mask hi..lo
		lo := uint8(bits.TrailingZeros64(y.k))
		if n, ok := lowMask(y.k >> lo); ok {
			hi := lo + n - 1
			t := b.Concat(b.Extract(x, hi, lo), b.Const(lo, 0))
			return b.ZExt(t, x.w)
		}
		// general constant mask: split at top zero run
		top := uint8(bits.Len64(y.k))
		if top < x.w {
			return b.ZExt(b.BAnd(b.Extract(x, top-1, 0), b.Const(top, y.k)), x.w)
		}
		return b.mk(OBAnd, x.w, 0, x, y, nil)
	}
	if x.op == OZExt && y.op == OZExt && x.a.w == y.a.w {
		return b.ZExt(b.BAnd(x.a, y.a), x.w)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OBAnd, x.w, 0, x, y, nil)
}

func (b *Builder) BOr(x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.isC() {
		x, y = y, x
	}
	if y.isC() {
		if x.isC() {
			return b.Const(x.w, x.k|y.k)
		}
		if y.k == 0 {
			return x
		}
		if y.k == mask(x.w) {
			return y
		}
	}
	if x.op == OZExt && y.op == OZExt && x.a.w == y.a.w {
		return b.ZExt(b.BOr(x.a, y.a), x.w)
	}
	// disjoint concat merge: (hi . 0n) | zext(lo) with width(lo) <= n
	if r := b.orMerge(x, y); r != nil {
		return r
	}
	if r := b.orMerge(y, x); r != nil {
		return r
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OBOr, x.w, 0, x, y, nil)
}

func (b *Builder) orMerge(x, y *Term) *Term {
	if x.op == OConcat && x.b.isC() && x.b.k == 0 {
		n := x.b.w
		if bits.Len64(y.umax) <= int(n) {
			return b.Concat(x.a, b.Extract(y, n-1, 0))
		}
	}
	if x.op == OZExt && x.a.op == OConcat && x.a.b.isC() && x.a.b.k == 0 {
		n := x.a.b.w
		if bits.Len64(y.umax) <= int(n) {
			return b.ZExt(b.Concat(x.a.a, b.Extract(y, n-1, 0)), x.w)
		}
	}
	return nil
}

func (b *Builder) BXor(x, y *Term) *Term {
	if x == y {
		return b.Const(x.w, 0)
	}
	if x.isC() {
		x, y = y, x
	}
	if y.isC() {
		if x.isC() {
			return b.Const(x.w, x.k^y.k)
		}
		if y.k == 0 {
			return x
		}
		if y.k == mask(x.w) {
			return b.BNot(x)
		}
	}
	if x.id > y.id && !y.isC() {
		x, y = y, x
	}
	return b.mk(OBXor, x.w, 0, x, y, nil)
}

func (b *Builder) Concat(x, y *Term) *Term {
	if x.isC() && y.isC() {
		return b.Const(x.w+y.w, x.k<<y.w|y.k)
	}
	if x.isC() && x.k == 0 {
		return b.ZExt(y, x.w+y.w)
	}
	if x.op == OExtract && y.op == OExtract && x.a == y.a && x.k&0xff == (y.k>>8)+1 {
		return b.Extract(x.a, uint8(x.k>>8), uint8(y.k&0xff))
	}
	if x.op == OZExt {
		return b.ZExt(b.Concat(x.a, y), x.w+y.w)
	}
	if x.op == OConcat && y.isC() && x.b.isC() {
		return b.Concat(x.a, b.Const(x.b.w+y.w, x.b.k<<y.w|y.k))
	}
	// right-nested normal form
	if x.op == OConcat {
		return b.Concat(x.a, b.Concat(x.b, y))
	}
	if y.op == OConcat && x.op == OExtract && y.a.op == OExtract && x.a == y.a.a && x.k&0xff == (y.a.k>>8)+1 {
		return b.Concat(b.Extract(x.a, uint8(x.k>>8), uint8(y.a.k&0xff)), y.b)
	}
	return b.mk(OConcat, x.w+y.w, 0, x, y, nil)
}

func (b *Builder) Extract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == x.w {
		return x
	}
	switch x.op {
	case OConst:
		return b.Const(w, x.k>>lo)
	case OExtract:
		l0 := uint8(x.k & 0xff)
		return b.Extract(x.a, hi+l0, lo+l0)
	case OZExt:
		if lo >= x.a.w {
			return b.Const(w, 0)
		}
		if hi < x.a.w {
			return b.Extract(x.a, hi, lo)
		}
		return b.ZExt(b.Extract(x.a, x.a.w-1, lo), w)
	case OSExt:
		if hi < x.a.w {
			return b.Extract(x.a, hi, lo)
		}
		if lo < x.a.w {
			return b.SExt(b.Extract(x.a, x.a.w-1, lo), w)
		}
	case OConcat:
		if hi < x.b.w {
			return b.Extract(x.b, hi, lo)
		}
		if lo >= x.b.w {
			return b.Extract(x.a, hi-x.b.w, lo-x.b.w)
		}
		return b.Concat(b.Extract(x.a, hi-x.b.w, 0), b.Extract(x.b, x.b.w-1, lo))
	case OBAnd:
		return b.BAnd(b.Extract(x.a, hi, lo), b.Extract(x.b, hi, lo))
	case OBOr:
		return b.BOr(b.Extract(x.a, hi, lo), b.Extract(x.b, hi, lo))
	case OBXor:
		return b.BXor(b.Extract(x.a, hi, lo), b.Extract(x.b, hi, lo))
	case OBNot:
		return b.BNot(b.Extract(x.a, hi, lo))
	case OIte:
		if x.b.isC() || x.c.isC() {
			return b.Ite(x.a, b.Extract(x.b, hi, lo), b.Extract(x.c, hi, lo))
		}
	case OAdd:
		if lo == 0 {
			return b.Add(b.Extract(x.a, hi, 0), b.Extract(x.b, hi, 0))
		}
	case OSub:
		if lo == 0 {
			return b.Sub(b.Extract(x.a, hi, 0), b.Extract(x.b, hi, 0))
		}
	case OMul:
		if lo == 0 {
			return b.Mul(b.Extract(x.a, hi, 0), b.Extract(x.b, hi, 0))
		}
	}
	if lo > 0 && x.umax>>lo == 0 {
		return b.Const(w, 0)
	}
	return b.mk(OExtract, w, uint64(hi)<<8|uint64(lo), x, nil, nil)
}

func (b *Builder) ZExt(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if x.isC() {
		return b.Const(w, x.k)
	}
	if x.op == OZExt {
		return b.ZExt(x.a, w)
	}
	return b.mk(OZExt, w, 0, x, nil, nil)
}

func (b *Builder) SExt(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if x.isC() {
		return b.Const(w, uint64(sext(x.k, x.w)))
	}
	if nonneg(x) {
		return b.ZExt(x, w)
	}
	if x.op == OSExt {
		return b.SExt(x.a, w)
	}
	return b.mk(OSExt, w, 0, x, nil, nil)
}

func mathFrom(k uint64) float64 { return math.Float64frombits(k) }

func (b *Builder) FBin(op Op, x, y *Term) *Term {
	if op == OFToS {
		if r := b.floatFloor(x); r != nil {
			return r
		}
	}
	if y != nil && x.isC() && y.isC() {
		p, q := math.Float64frombits(x.k), math.Float64frombits(y.k)
		switch op {
		case OFAdd:
			return b.FConst(p + q)
		case OFSub:
			return b.FConst(p - q)
		case OFMul:
			return b.FConst(p * q)
		case OFDiv:
			return b.FConst(p / q)
		}
	}
	return b.mkf(op, 64, op != OFToS && op != OFToU, 0, x, y, nil)
}

func (b *Builder) FCmp(op Op, x, y *Term) *Term {
	return b.mkf(op, 0, false, 0, x, y, nil)
}

// ---- evaluation under a model ----

type Model struct {
	v map[*Term]uint64
}

func (b *Builder) NewEvalGen() uint32 { b.gen++; return b.gen }

func (b *Builder) Eval(t *Term, m *Model, gen uint32) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.egen == gen {
		return t.eval
	}
	var r uint64
	ev := func(x *Term) uint64 { return b.Eval(x, m, gen) }
	bb := func(c bool) uint64 {
		if c {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		r = m.v[t]
	case ONot:
		r = 1 - ev(t.a)
	case OAnd:
		r = ev(t.a)
		if r == 1 {
			r = ev(t.b)
		}
	case OOr:
		r = ev(t.a)
		if r == 0 {
			r = ev(t.b)
		}
	case OIte:
		if ev(t.a) == 1 {
			r = ev(t.b)
		} else {
			r = ev(t.c)
		}
	case OEq:
		if t.a.fp {
			r = bb(math.Float64frombits(ev(t.a)) == math.Float64frombits(ev(t.b)))
		} else {
			r = bb(ev(t.a) == ev(t.b))
		}
	case OUlt:
		r = bb(ev(t.a) < ev(t.b))
	case OUle:
		r = bb(ev(t.a) <= ev(t.b))
	case OSlt:
		r = bb(sext(ev(t.a), t.a.w) < sext(ev(t.b), t.a.w))
	case OSle:
		r = bb(sext(ev(t.a), t.a.w) <= sext(ev(t.b), t.a.w))
	case OBNot:
		r = ^ev(t.a)
	case ONeg:
		r = -ev(t.a)
	case OAdd:
		r = ev(t.a) + ev(t.b)
	case OSub:
		r = ev(t.a) - ev(t.b)
	case OMul:
		r = ev(t.a) * ev(t.b)
	case OUDiv:
		if d := ev(t.b); d == 0 {
			r = ^uint64(0)
		} else {
			r = ev(t.a) / d
		}
	case OURem:
		if d := ev(t.b); d == 0 {
			r = ev(t.a)
		} else {
			r = ev(t.a) % d
		}
	case OSDiv:
		x, d := sext(ev(t.a), t.w), sext(ev(t.b), t.w)
		switch {
		case d == 0 && x < 0:
			r = 1
		case d == 0:
			r = ^uint64(0)
		case d == -1:
			r = uint64(-x)
		default:
			r = uint64(x / d)
		}
	case OSRem:
		x, d := sext(ev(t.a), t.w), sext(ev(t.b), t.w)
		switch {
		case d == 0:
			r = uint64(x)
		case d == -1:
			r = 0
		default:
			r = uint64(x % d)
		}
	case OShl:
		if s := ev(t.b); s >= uint64(t.w) {
			r = 0
		} else {
			r = ev(t.a) << s
		}
	case OLShr:
		if s := ev(t.b); s >= uint64(t.w) {
			r = 0
		} else {
			r = ev(t.a) >> s
		}
	case OAShr:
		s := ev(t.b)
		if s >= uint64(t.w) {
			s = uint64(t.w) - 1
		}
		r = uint64(sext(ev(t.a), t.w) >> s)
	case OBAnd:
		r = ev(t.a) & ev(t.b)
	case OBOr:
		r = ev(t.a) | ev(t.b)
	case OBXor:
		r = ev(t.a) ^ ev(t.b)
	case OConcat:
		r = ev(t.a)<<t.b.w | ev(t.b)
	case OExtract:
		r = ev(t.a) >> (t.k & 0xff)
	case OZExt:
		r = ev(t.a)
	case OSExt:
		r = uint64(sext(ev(t.a), t.a.w))
	case OFAdd, OFSub, OFMul, OFDiv:
		p, q := math.Float64frombits(ev(t.a)), math.Float64frombits(ev(t.b))
		switch t.op {
		case OFAdd:
			p += q
		case OFSub:
			p -= q
		case OFMul:
			p *= q
		case OFDiv:
			p /= q
		}
		r = math.Float64bits(p)
	case OFNeg:
		r = math.Float64bits(-math.Float64frombits(ev(t.a)))
	case OFLt:
		r = bb(math.Float64frombits(ev(t.a)) < math.Float64frombits(ev(t.b)))
	case OFLe:
		r = bb(math.Float64frombits(ev(t.a)) <= math.Float64frombits(ev(t.b)))
	case OFEq:
		r = bb(math.Float64frombits(ev(t.a)) == math.Float64frombits(ev(t.b)))
	case OSToF:
		r = math.Float64bits(float64(sext(ev(t.a), t.a.w)))
	case OUToF:
		r = math.Float64bits(float64(ev(t.a)))
	case OFToS:
		r = uint64(int64(math.Float64frombits(ev(t.a))))
	case OFToU:
		r = uint64(math.Float64frombits(ev(t.a)))
	default:
		panic(fmt.Sprintf("eval op %d", t.op))
	}
	if t.w != 0 {
		r &= mask(t.w)
	}
	t.egen, t.eval = gen, r
	return r
}
