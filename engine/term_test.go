package main

// The term rewriter is trusted, so it is compared here with direct evaluation:
// random terms are built through the constructors, and their value and ranges
// under random assignments must be those of the operations themselves.

import (
	"math/rand"
	"testing"
)

type entry struct {
	t *Term
	v [6]uint64
}

func TestRewriter(t *testing.T) {
	for seed := int64(0); seed < 20000; seed++ {
		r := rand.New(rand.NewSource(seed))
		b := NewBuilder()
		var models [6]*Model
		for i := range models {
			models[i] = &Model{v: map[*Term]uint64{}}
		}
		consts := []uint64{0, 1, 2, 3, 4, 7, 8, 10, 15, 16, 60, 64, 100, 127, 128, 255, 900, 3600, 1000000000, 60000000000, ^uint64(0), ^uint64(8), 1 << 63, 1<<63 - 1}
		pool := map[uint8][]entry{}
		add := func(e entry) {
			for i := range models {
				gen := b.NewEvalGen()
				if got := b.Eval(e.t, models[i], gen) & mask(e.t.w|bw(e.t.w)); got != e.v[i] {
					t.Fatalf("seed %d: op %d w %d: %x, want %x", seed, e.t.op, e.t.w, got, e.v[i])
				}
				if e.t.w > 0 {
					if e.v[i] < e.t.umin || e.v[i] > e.t.umax {
						t.Fatalf("seed %d: op %d: %x outside [%x,%x]", seed, e.t.op, e.v[i], e.t.umin, e.t.umax)
					}
					lo, hi := srng(e.t)
					if s := sext(e.v[i], e.t.w); s < lo || s > hi {
						t.Fatalf("seed %d: op %d: %d outside [%d,%d]", seed, e.t.op, s, lo, hi)
					}
				}
			}
			pool[e.t.w] = append(pool[e.t.w], e)
		}
		widths := []uint8{8, 8, 16, 32, 64, 64}
		for i, w := range []uint8{8, 8, 8, 64, 64, 16, 32, 0, 64} {
			v := b.Var(string(rune('a'+i)), w)
			max := mask(w)
			if w == 0 {
				max = 1
			} else if r.Intn(2) == 0 {
				max = uint64(r.Intn(200)) & mask(w)
				v.umax = max
			}
			e := entry{t: v}
			for j := range models {
				x := r.Uint64()
				if r.Intn(3) == 0 {
					x = consts[r.Intn(len(consts))]
				}
				x &= mask(w | bw(w))
				if x > max {
					x %= max + 1
				}
				models[j].v[v] = x
				e.v[j] = x
			}
			add(e)
		}
		pick := func(w uint8) entry {
			if w > 0 && r.Intn(3) == 0 {
				k := consts[r.Intn(len(consts))] & mask(w)
				e := entry{t: b.Const(w, k)}
				for j := range e.v {
					e.v[j] = k
				}
				return e
			}
			p := pool[w]
			for len(p) == 0 {
				return entry{t: b.Const(w, 1), v: [6]uint64{1, 1, 1, 1, 1, 1}}
			}
			if r.Intn(2) == 0 && len(p) > 4 {
				p = p[len(p)-4:]
			}
			return p[r.Intn(len(p))]
		}
		for n := 0; n < 60; n++ {
			w := widths[r.Intn(len(widths))]
			x, y := pick(w), pick(w)
			c := pick(0)
			m := mask(w)
			var e entry
			each := func(f func(i int) uint64) {
				for i := range e.v {
					e.v[i] = f(i) & mask(e.t.w|bw(e.t.w))
				}
			}
			bo := func(v bool) uint64 {
				if v {
					return 1
				}
				return 0
			}
			switch r.Intn(27) {
			case 0:
				e.t = b.Add(x.t, y.t)
				each(func(i int) uint64 { return x.v[i] + y.v[i] })
			case 1:
				e.t = b.Sub(x.t, y.t)
				each(func(i int) uint64 { return x.v[i] - y.v[i] })
			case 2, 3:
				e.t = b.Mul(x.t, y.t)
				each(func(i int) uint64 { return x.v[i] * y.v[i] })
			case 4, 5, 6, 7, 8, 9:
				k := consts[1+r.Intn(len(consts)-6)] & m
				if k == 0 {
					continue
				}
				kt := b.Const(w, k)
				s := sext(k, w)
				switch r.Intn(4) {
				case 0:
					e.t = b.UDiv(x.t, kt)
					each(func(i int) uint64 { return x.v[i] / k })
				case 1:
					e.t = b.URem(x.t, kt)
					each(func(i int) uint64 { return x.v[i] % k })
				case 2:
					if s == -1 {
						continue
					}
					e.t = b.SDiv(x.t, kt)
					each(func(i int) uint64 { return uint64(sext(x.v[i], w) / s) })
				case 3:
					if s == -1 {
						continue
					}
					e.t = b.SRem(x.t, kt)
					each(func(i int) uint64 { return uint64(sext(x.v[i], w) % s) })
				}
			case 10:
				e.t = b.BAnd(x.t, y.t)
				each(func(i int) uint64 { return x.v[i] & y.v[i] })
			case 11:
				e.t = b.BOr(x.t, y.t)
				each(func(i int) uint64 { return x.v[i] | y.v[i] })
			case 12:
				e.t = b.BXor(x.t, y.t)
				each(func(i int) uint64 { return x.v[i] ^ y.v[i] })
			case 13, 14:
				k := uint64(r.Intn(int(w) + 2))
				kt := b.Const(w, k)
				switch r.Intn(3) {
				case 0:
					e.t = b.Shl(x.t, kt)
					each(func(i int) uint64 {
						if k >= uint64(w) {
							return 0
						}
						return x.v[i] << k
					})
				case 1:
					e.t = b.LShr(x.t, kt)
					each(func(i int) uint64 {
						if k >= uint64(w) {
							return 0
						}
						return x.v[i] >> k
					})
				case 2:
					e.t = b.AShr(x.t, kt)
					each(func(i int) uint64 {
						s := k
						if s >= uint64(w) {
							s = uint64(w) - 1
						}
						return uint64(sext(x.v[i], w) >> s)
					})
				}
			case 15:
				hi := uint8(r.Intn(int(w)))
				lo := uint8(r.Intn(int(hi) + 1))
				if n := hi - lo + 1; n != 8 && n != 16 && n != 32 {
					if w != 8 {
						hi = lo + 7
					} else {
						hi, lo = 7, 0
					}
					if hi >= w {
						hi, lo = 7, 0
					}
				}
				e.t = b.Extract(x.t, hi, lo)
				each(func(i int) uint64 { return x.v[i] >> lo })
			case 16:
				z := pick(w / 2)
				if w/2 < 8 {
					continue
				}
				z2 := pick(w / 2)
				e.t = b.Concat(z.t, z2.t)
				each(func(i int) uint64 { return z.v[i]<<(w/2) | z2.v[i] })
			case 17, 18:
				if w == 64 {
					w = 32
					x = pick(w)
				}
				nw := []uint8{16, 32, 64}[r.Intn(3)]
				if nw < w {
					nw = 64
				}
				if r.Intn(2) == 0 {
					e.t = b.ZExt(x.t, nw)
					each(func(i int) uint64 { return x.v[i] })
				} else {
					e.t = b.SExt(x.t, nw)
					each(func(i int) uint64 { return uint64(sext(x.v[i], w)) })
				}
			case 19, 20:
				e.t = b.Ite(c.t, x.t, y.t)
				each(func(i int) uint64 {
					if c.v[i] == 1 {
						return x.v[i]
					}
					return y.v[i]
				})
			case 21:
				e.t = b.Eq(x.t, y.t)
				each(func(i int) uint64 { return bo(x.v[i] == y.v[i]) })
			case 22:
				e.t = b.Ult(x.t, y.t)
				each(func(i int) uint64 { return bo(x.v[i] < y.v[i]) })
			case 23:
				e.t = b.Slt(x.t, y.t)
				each(func(i int) uint64 { return bo(sext(x.v[i], w) < sext(y.v[i], w)) })
			case 24:
				if r.Intn(2) == 0 {
					e.t = b.Neg(x.t)
					each(func(i int) uint64 { return -x.v[i] })
				} else {
					e.t = b.BNot(x.t)
					each(func(i int) uint64 { return ^x.v[i] })
				}
			case 25:
				d := pick(0)
				e.t = b.And(c.t, d.t)
				each(func(i int) uint64 { return c.v[i] & d.v[i] })
			case 26:
				d := pick(0)
				e.t = b.Or(b.Not(c.t), d.t)
				each(func(i int) uint64 { return 1 - c.v[i] | d.v[i] })
			}
			if e.t == nil {
				continue
			}
			add(e)
		}
	}
}

// bw makes one bit of a boolean.
func bw(w uint8) uint8 {
	if w == 0 {
		return 1
	}
	return 0
}
