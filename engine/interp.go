package main

// Compilation of go/ssa functions to closures and their execution.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	kind uint8 // 0 register, 1 constant, 2 global
	i    int
	v    Value
}

type frame struct {
	w         *Worker
	code      *fnCode
	caller    *frame
	th        *Thread
	regs      []Value
	block     int
	prev      int
	defers    *deferred
	result    Value
	panicking bool
	pv        *targetPanic
	depth     int
}

type deferred struct {
	fn   *Closure
	bi   *ssa.Builtin
	args []Value
	tail *deferred
}

type instr func(fr *frame)
type phiCode struct {
	dst   int
	edges []opnd // by predecessor position
}
type blockCode struct {
	phis  []phiCode
	preds map[int]int
	ins   []instr
	term  func(fr *frame) int // next block, or -1
}

type fnCode struct {
	fn       *ssa.Function
	once     sync.Once
	err      string
	nregs    int
	params   []int
	free     []int
	blocks   []*blockCode
	recoverB int
	hasDefer bool
	intr     intrinsic
	initOf   *ssa.Package
	raw      bool
	src      bool // belongs to the code under test
	nins     int
}

type intrinsic func(fr *frame, args []Value) Value

const maxDepth = 1500

func (fr *frame) get(o *opnd) Value {
	switch o.kind {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.v
	}
	if o.i < len(fr.w.globals) {
		if p := fr.w.globals[o.i]; p != nil {
			return p
		}
	}
	return fr.w.global(o.i)
}

// ---- compilation ----

type compiler struct {
	e    *Engine
	c    *fnCode
	fn   *ssa.Function
	regs map[ssa.Value]int
}

func (e *Engine) codeOf(fn *ssa.Function) *fnCode {
	e.codeMu.RLock()
	c := e.codes[fn]
	e.codeMu.RUnlock()
	if c == nil {
		e.codeMu.Lock()
		c = e.codes[fn]
		if c == nil {
			c = &fnCode{fn: fn}
			e.codes[fn] = c
		}
		e.codeMu.Unlock()
	}
	c.once.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				if ee, ok := r.(engineError); ok {
					c.err = ee.msg
					return
				}
				panic(r)
			}
		}()
		e.compile(c)
	})
	if c.err != "" {
		panic(engineError{"cannot encode " + fn.String() + ": " + c.err})
	}
	return c
}

func (e *Engine) compile(c *fnCode) {
	fn := c.fn
	c.src = e.isTarget(fn)
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f, ok := intrinsics[name]; ok && !c.raw {
		c.intr = f
		return
	}
	if fn.Synthetic == "package initializer" {
		c.initOf = fn.Pkg
	}
	if len(fn.Blocks) == 0 {
		panic(engineError{"no body and no model"})
	}
	if c.initOf == nil && e.forbidden(fn) {
		panic(engineError{"outside the modelled library"})
	}
	cc := &compiler{e: e, c: c, fn: fn, regs: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		c.params = append(c.params, cc.reg(p))
	}
	for _, p := range fn.FreeVars {
		c.free = append(c.free, cc.reg(p))
	}
	c.recoverB = -1
	if fn.Recover != nil {
		c.recoverB = fn.Recover.Index
	}
	for _, b := range fn.Blocks {
		bc := &blockCode{preds: map[int]int{}}
		for i, p := range b.Preds {
			bc.preds[p.Index] = i
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			c.nins++
			if p, ok := in.(*ssa.Phi); ok {
				pc := phiCode{dst: cc.reg(p)}
				for _, ed := range p.Edges {
					pc.edges = append(pc.edges, cc.opnd(ed))
				}
				bc.phis = append(bc.phis, pc)
				continue
			}
			if t := cc.terminator(in); t != nil {
				bc.term = t
				continue
			}
			bc.ins = append(bc.ins, cc.instr(in))
		}
		if bc.term == nil {
			bc.term = func(fr *frame) int { panic(engineError{"fell off block"}) }
		}
		c.blocks = append(c.blocks, bc)
	}
	c.nregs = len(cc.regs)
}

func (cc *compiler) reg(v ssa.Value) int {
	if i, ok := cc.regs[v]; ok {
		return i
	}
	i := len(cc.regs)
	cc.regs[v] = i
	return i
}

func (cc *compiler) opnd(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{kind: 1, v: constVal(v)}
	case *ssa.Global:
		return opnd{kind: 2, i: cc.e.globalIdx(v)}
	case *ssa.Function:
		return opnd{kind: 1, v: cc.e.closureOf(v)}
	case *ssa.Builtin:
		return opnd{kind: 1, v: v}
	}
	return opnd{kind: 0, i: cc.reg(v)}
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type()
	u, ok := under(t).(*types.Basic)
	if !ok {
		// constant of type parameter type etc.
		panic(engineError{"constant of type " + t.String()})
	}
	switch {
	case u.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case u.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case u.Info()&types.IsFloat != 0:
		f := c.Float64()
		if u.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case u.Info()&types.IsInteger != 0:
		w, sg, _ := intInfo(t)
		if sg {
			return uint64(c.Int64()) & mask(w)
		}
		return c.Uint64() & mask(w)
	case u.Info()&types.IsComplex != 0:
		return c.Complex128()
	}
	panic(engineError{"constant " + c.String()})
}

func (cc *compiler) terminator(in ssa.Instruction) func(fr *frame) int {
	switch in := in.(type) {
	case *ssa.Jump:
		n := in.Block().Succs[0].Index
		return func(fr *frame) int { return n }
	case *ssa.If:
		c := cc.opnd(in.Cond)
		t, f := in.Block().Succs[0].Index, in.Block().Succs[1].Index
		return func(fr *frame) int {
			v := fr.get(&c)
			b, ok := v.(bool)
			if !ok {
				b = fr.w.branch(v.(*Term))
			}
			if b {
				return t
			}
			return f
		}
	case *ssa.Return:
		rs := make([]opnd, len(in.Results))
		for i, r := range in.Results {
			rs[i] = cc.opnd(r)
		}
		switch len(rs) {
		case 0:
			return func(fr *frame) int { fr.result = nil; return -1 }
		case 1:
			r := rs[0]
			return func(fr *frame) int { fr.result = fr.get(&r); return -1 }
		}
		return func(fr *frame) int {
			t := make(TupleV, len(rs))
			for i := range rs {
				t[i] = fr.get(&rs[i])
			}
			fr.result = t
			return -1
		}
	case *ssa.Panic:
		x := cc.opnd(in.X)
		return func(fr *frame) int {
			panic(&targetPanic{v: fr.get(&x), stack: fr.w.where()})
		}
	}
	return nil
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (cc *compiler) instr(in ssa.Instruction) instr {
	switch in := in.(type) {
	case *ssa.Alloc:
		d := cc.reg(in)
		t := deref(in.Type())
		z := zero(t)
		if _, ok := z.(Agg); ok {
			return func(fr *frame) {
				p := new(Value)
				*p = copyVal(z)
				fr.regs[d] = p
			}
		}
		return func(fr *frame) {
			p := new(Value)
			*p = z
			fr.regs[d] = p
		}
	case *ssa.BinOp:
		d := cc.reg(in)
		x, y := cc.opnd(in.X), cc.opnd(in.Y)
		f := cc.binop(in)
		return func(fr *frame) { fr.regs[d] = f(fr.w, fr.get(&x), fr.get(&y)) }
	case *ssa.UnOp:
		return cc.unop(in)
	case *ssa.Call:
		d := cc.reg(in)
		prep := cc.callCommon(&in.Call)
		skipInit := false
		if f, ok := in.Call.Value.(*ssa.Function); ok && f.Synthetic == "package initializer" {
			skipInit = true // initialisers are run in order by initPackages
		}
		return func(fr *frame) {
			if skipInit {
				return
			}
			fn, bi, args := prep(fr)
			if bi != nil {
				fr.regs[d] = fr.w.builtin(fr, bi, args, &in.Call)
			} else {
				fr.regs[d] = fr.w.callClosure(fr, fn, args)
			}
		}
	case *ssa.Go:
		prep := cc.callCommon(&in.Call)
		return func(fr *frame) {
			fn, bi, args := prep(fr)
			if bi != nil {
				panic(engineError{"go builtin"})
			}
			fr.w.spawn(fn, args)
		}
	case *ssa.Defer:
		cc.c.hasDefer = true
		if in.DeferStack != nil {
			panic(engineError{"defer in range-over-func"})
		}
		prep := cc.callCommon(&in.Call)
		return func(fr *frame) {
			fn, bi, args := prep(fr)
			fr.defers = &deferred{fn, bi, args, fr.defers}
		}
	case *ssa.RunDefers:
		cc.c.hasDefer = true
		return func(fr *frame) { fr.runDefers() }
	case *ssa.ChangeInterface, *ssa.ChangeType:
		d := cc.reg(in.(ssa.Value))
		x := cc.opnd(*in.Operands(nil)[0])
		return func(fr *frame) { fr.regs[d] = fr.get(&x) }
	case *ssa.Convert:
		d := cc.reg(in)
		x := cc.opnd(in.X)
		f := convert(in.X.Type(), in.Type())
		return func(fr *frame) { fr.regs[d] = f(fr.w, fr.get(&x)) }
	case *ssa.SliceToArrayPointer:
		d := cc.reg(in)
		x := cc.opnd(in.X)
		n := int(under(deref(in.Type())).(*types.Array).Len())
		return func(fr *frame) {
			s := fr.get(&x).([]Value)
			if len(s) < n {
				fr.w.throw("cannot convert slice to array pointer: length too short")
			}
			p := new(Value)
			*p = Agg(s[:n:n])
			fr.regs[d] = p
		}
	case *ssa.MakeInterface:
		d := cc.reg(in)
		x := cc.opnd(in.X)
		t := in.X.Type()
		return func(fr *frame) { fr.regs[d] = Iface{t, fr.get(&x)} }
	case *ssa.Extract:
		d := cc.reg(in)
		x := cc.opnd(in.Tuple)
		i := in.Index
		return func(fr *frame) { fr.regs[d] = fr.get(&x).(TupleV)[i] }
	case *ssa.Field:
		d := cc.reg(in)
		x := cc.opnd(in.X)
		i := in.Field
		return func(fr *frame) { fr.regs[d] = fr.get(&x).(Agg)[i] }
	case *ssa.FieldAddr:
		d := cc.reg(in)
		x := cc.opnd(in.X)
		i := in.Field
		return func(fr *frame) {
			p, _ := fr.get(&x).(*Value)
			if p == nil {
				fr.w.throw("invalid memory address or nil pointer dereference")
			}
			a, ok := (*p).(Agg)
			if !ok {
				panic(engineError{"field of non-struct memory (unsafe?)"})
			}
			fr.regs[d] = &a[i]
		}
	case *ssa.Index:
		d := cc.reg(in)
		x, ix := cc.opnd(in.X), cc.opnd(in.Index)
		sg := idxSigned(in.Index.Type())
		if isString(in.X.Type()) {
			return func(fr *frame) { fr.regs[d] = fr.w.strIndex(fr.get(&x), fr.get(&ix), sg) }
		}
		et := under(in.X.Type()).(*types.Array).Elem()
		wd, sc := scalarWidth(et)
		return func(fr *frame) {
			a := fr.get(&x).(Agg)
			i := fr.get(&ix)
			fr.w.bounds(i, len(a), sg)
			if t, ok := i.(*Term); ok {
				if sc {
					fr.regs[d] = fr.w.mux(a, t, wd)
					return
				}
				i = fr.w.concretise(i)
			}
			fr.regs[d] = a[i.(uint64)]
		}
	case *ssa.IndexAddr:
		d := cc.reg(in)
		x, ix := cc.opnd(in.X), cc.opnd(in.Index)
		sg := idxSigned(in.Index.Type())
		var et types.Type
		ptr := false
		switch u := under(in.X.Type()).(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Pointer:
			et = under(u.Elem()).(*types.Array).Elem()
			ptr = true
		default:
			panic(engineError{"indexaddr " + in.X.Type().String()})
		}
		wd, sc := scalarWidth(et)
		return func(fr *frame) {
			var a []Value
			xv := fr.get(&x)
			if ptr {
				p, _ := xv.(*Value)
				if p == nil {
					fr.w.throw("invalid memory address or nil pointer dereference")
				}
				a = []Value((*p).(Agg))
			} else {
				a = xv.([]Value)
			}
			i := fr.get(&ix)
			fr.w.bounds(i, len(a), sg)
			if t, ok := i.(*Term); ok {
				if sc {
					fr.regs[d] = &SymPtr{a[:len(a):len(a)], t, wd}
					return
				}
				i = fr.w.concretise(i)
			}
			fr.regs[d] = &a[i.(uint64)]
		}
	case *ssa.Lookup:
		d := cc.reg(in)
		x, ix := cc.opnd(in.X), cc.opnd(in.Index)
		if isString(in.X.Type()) {
			sg := idxSigned(in.Index.Type())
			return func(fr *frame) { fr.regs[d] = fr.w.strIndex(fr.get(&x), fr.get(&ix), sg) }
		}
		mt := under(in.X.Type()).(*types.Map)
		commaOk := in.CommaOk
		return func(fr *frame) {
			m := fr.get(&x).(*MapV)
			v, ok := fr.w.mapLookup(m, mt, fr.get(&ix))
			if commaOk {
				fr.regs[d] = TupleV{v, ok}
			} else {
				fr.regs[d] = v
			}
		}
	case *ssa.MakeMap:
		d := cc.reg(in)
		return func(fr *frame) { fr.regs[d] = newMap() }
	case *ssa.MapUpdate:
		m, k, v := cc.opnd(in.Map), cc.opnd(in.Key), cc.opnd(in.Value)
		kt := under(in.Map.Type()).(*types.Map).Key()
		return func(fr *frame) {
			mv := fr.get(&m).(*MapV)
			if mv == nil {
				panic(&targetPanic{v: Iface{fr.w.e.rtErrType, "assignment to entry in nil map"}, stack: fr.w.where()})
			}
			fr.w.raceW(&mv.id)
			fr.w.mapSet(mv, kt, copyVal(fr.get(&k)), copyVal(fr.get(&v)))
		}
	case *ssa.MakeSlice:
		d := cc.reg(in)
		l, c := cc.opnd(in.Len), cc.opnd(in.Cap)
		z := zero(under(in.Type()).(*types.Slice).Elem())
		lw, lsg, _ := intInfo(in.Len.Type())
		cw, csg, _ := intInfo(in.Cap.Type())
		conv := func(v uint64, w uint8, sg bool) int64 {
			if sg {
				return sext(v, w)
			}
			return int64(v)
		}
		return func(fr *frame) {
			ln := conv(fr.w.concretise(fr.get(&l)), lw, lsg)
			cp := conv(fr.w.concretise(fr.get(&c)), cw, csg)
			if ln < 0 || ln > 1<<40 {
				fr.w.throw("makeslice: len out of range")
			}
			if cp < ln || cp > 1<<40 {
				fr.w.throw("makeslice: cap out of range")
			}
			if cp > 1<<24 {
				panic(engineError{"huge allocation"})
			}
			s := make([]Value, ln, cp)
			fillZero(s[:cp], z)
			fr.regs[d] = s
		}
	case *ssa.MakeChan:
		d := cc.reg(in)
		sz := cc.opnd(in.Size)
		return func(fr *frame) { fr.regs[d] = &ChanV{cap: fr.w.concInt(fr.get(&sz))} }
	case *ssa.Send:
		ch, x := cc.opnd(in.Chan), cc.opnd(in.X)
		return func(fr *frame) { fr.w.chanSend(fr.get(&ch).(*ChanV), copyVal(fr.get(&x))) }
	case *ssa.Select:
		panic(engineError{"select"})
	case *ssa.MakeClosure:
		d := cc.reg(in)
		fn := in.Fn.(*ssa.Function)
		bs := make([]opnd, len(in.Bindings))
		for i, b := range in.Bindings {
			bs[i] = cc.opnd(b)
		}
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = fr.get(&bs[i])
			}
			fr.regs[d] = &Closure{fn: fn, env: env}
		}
	case *ssa.Range:
		d := cc.reg(in)
		x := cc.opnd(in.X)
		if isString(in.X.Type()) {
			return func(fr *frame) { fr.regs[d] = &StrIter{s: fr.get(&x)} }
		}
		return func(fr *frame) {
			m := fr.get(&x).(*MapV)
			it := &MapIter{m: m}
			if m != nil {
				fr.w.raceR(&m.id)
				it.ents = append([]*MapEntry(nil), m.ents...)
				if fr.w.mapOrd && len(it.ents) > 1 && fr.code.src {
					n := len(it.ents)
					k := fr.w.choose(4)
					if k&1 == 1 {
						for i := 0; i < n/2; i++ {
							it.ents[i], it.ents[n-1-i] = it.ents[n-1-i], it.ents[i]
						}
					}
					if k&2 == 2 {
						it.ents = append(it.ents[n/2:n:n], it.ents[:n/2]...)
					}
				}
			}
			fr.regs[d] = it
		}
	case *ssa.Next:
		d := cc.reg(in)
		x := cc.opnd(in.Iter)
		if in.IsString {
			return func(fr *frame) { fr.regs[d] = fr.w.strNext(fr.get(&x).(*StrIter)) }
		}
		tt := in.Type().(*types.Tuple)
		zk, zv := Value(nil), Value(nil)
		if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zk = zero(tt.At(1).Type())
		}
		if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zv = zero(tt.At(2).Type())
		}
		return func(fr *frame) {
			it := fr.get(&x).(*MapIter)
			if it.m != nil {
				fr.w.raceR(&it.m.id)
			}
			for it.pos < len(it.ents) {
				e := it.ents[it.pos]
				it.pos++
				if !e.dead {
					fr.regs[d] = TupleV{true, copyVal(e.k), copyVal(e.v)}
					return
				}
			}
			fr.regs[d] = TupleV{false, zk, zv}
		}
	case *ssa.Slice:
		return cc.slice(in)
	case *ssa.Store:
		a, v := cc.opnd(in.Addr), cc.opnd(in.Val)
		return func(fr *frame) { fr.w.store(fr.get(&a), fr.get(&v)) }
	case *ssa.TypeAssert:
		d := cc.reg(in)
		x := cc.opnd(in.X)
		return func(fr *frame) { fr.regs[d] = fr.w.typeAssert(in, fr.get(&x).(Iface)) }
	case *ssa.MultiConvert:
		panic(engineError{"multiconvert"})
	}
	panic(engineError{fmt.Sprintf("instruction %T", in)})
}

func fillZero(s []Value, z Value) {
	if _, ok := z.(Agg); ok {
		for i := range s {
			s[i] = copyVal(z)
		}
		return
	}
	for i := range s {
		s[i] = z
	}
}

func idxSigned(t types.Type) uint8 {
	w, sg, _ := intInfo(t)
	if sg {
		return w
	}
	return w | 0x80
}

// bounds checks 0 <= i < n, forking to a run-time panic where i can be out of
// range.
func (w *Worker) bounds(i Value, n int, ws uint8) {
	wd := ws & 0x7f
	if u, ok := i.(uint64); ok {
		if ws&0x80 == 0 {
			s := sext(u, wd)
			if s < 0 || s >= int64(n) {
				w.throw(fmt.Sprintf("index out of range [%d] with length %d", s, n))
			}
		} else if u >= uint64(n) {
			w.throw(fmt.Sprintf("index out of range [%d] with length %d", u, n))
		}
		return
	}
	t := i.(*Term)
	if uint64(n) > mask(t.w) {
		if ws&0x80 != 0 {
			return
		}
		if w.branch(w.b.Slt(t, w.b.Const(t.w, 0))) {
			w.throw("index out of range [symbolic]")
		}
		return
	}
	if !w.branch(w.b.Ult(t, w.b.Const(t.w, uint64(n)))) {
		w.throw(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
}

func (w *Worker) strIndex(s, i Value, ws uint8) Value {
	n := strLen(s)
	w.bounds(i, n, ws)
	if t, ok := i.(*Term); ok {
		return w.mux(strBytes(s), t, 8)
	}
	return strAt(s, int(i.(uint64)))
}

// mux reads arr[idx]; idx is known to be in range.
func (w *Worker) mux(arr []Value, idx *Term, wd uint8) Value {
	n := len(arr)
	if n == 0 {
		panic(engineError{"mux of nothing"})
	}
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return w.term(arr[lo], wd)
		}
		// all equal?
		mid := lo + (hi-lo)/2
		// split on the highest power of two for bit-level tests
		p := 1
		for lo+p*2 < hi {
			p *= 2
		}
		mid = lo + p
		l, r := rec(lo, mid), rec(mid, hi)
		if l == r {
			return l
		}
		return w.b.Ite(w.b.Ult(idx, w.b.Const(idx.w, uint64(mid))), l, r)
	}
	// only the feasible range
	lo, hi := 0, n
	if idx.umin > 0 && idx.umin < uint64(n) {
		lo = int(idx.umin)
	}
	if idx.umax+1 < uint64(n) && idx.umax+1 != 0 {
		hi = int(idx.umax) + 1
	}
	if lo >= hi {
		lo, hi = 0, n
	}
	return norm(rec(lo, hi))
}

func (w *Worker) load(p Value) Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			w.throw("invalid memory address or nil pointer dereference")
		}
		w.raceR(p)
		if _, ok := (*p).(Agg); ok {
			return copyVal(*p)
		}
		return *p
	case *SymPtr:
		for i := range p.arr {
			w.raceR(&p.arr[i])
		}
		return w.mux(p.arr, p.idx, p.w)
	}
	panic(engineError{fmt.Sprintf("load via %T", p)})
}

func (w *Worker) store(p, v Value) {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			w.throw("invalid memory address or nil pointer dereference")
		}
		w.raceW(p)
		w.storeTo(p, v)
		return
	case *SymPtr:
		nv := w.term(v, p.w)
		for i := range p.arr {
			w.raceW(&p.arr[i])
			c := w.b.Eq(p.idx, w.b.Const(p.idx.w, uint64(i)))
			if c.op == OConst && c.k == 0 {
				continue
			}
			w.set(&p.arr[i], norm(w.b.Ite(c, nv, w.term(p.arr[i], p.w))))
		}
		return
	}
	panic(engineError{fmt.Sprintf("store via %T", p)})
}

func (cc *compiler) unop(in *ssa.UnOp) instr {
	d := cc.reg(in)
	x := cc.opnd(in.X)
	switch in.Op {
	case token.MUL:
		return func(fr *frame) { fr.regs[d] = fr.w.load(fr.get(&x)) }
	case token.NOT:
		return func(fr *frame) { fr.regs[d] = fr.w.vnot(fr.get(&x)) }
	case token.SUB:
		if isFloat(in.Type()) {
			return func(fr *frame) {
				v := fr.get(&x)
				if f, ok := v.(float64); ok {
					fr.regs[d] = -f
					return
				}
				fr.regs[d] = norm(fr.w.b.FBin(OFNeg, v.(*Term), nil))
			}
		}
		wd, _, ok := intInfo(in.Type())
		if !ok {
			panic(engineError{"neg " + in.Type().String()})
		}
		return func(fr *frame) {
			v := fr.get(&x)
			if u, ok := v.(uint64); ok {
				fr.regs[d] = (-u) & mask(wd)
				return
			}
			fr.regs[d] = norm(fr.w.b.Neg(v.(*Term)))
		}
	case token.XOR:
		wd, _, _ := intInfo(in.Type())
		return func(fr *frame) {
			v := fr.get(&x)
			if u, ok := v.(uint64); ok {
				fr.regs[d] = (^u) & mask(wd)
				return
			}
			fr.regs[d] = norm(fr.w.b.BNot(v.(*Term)))
		}
	case token.ARROW:
		commaOk := in.CommaOk
		et := under(in.X.Type()).(*types.Chan).Elem()
		return func(fr *frame) {
			v, ok := fr.w.chanRecv(fr.get(&x).(*ChanV), et)
			if commaOk {
				fr.regs[d] = TupleV{v, ok}
			} else {
				fr.regs[d] = v
			}
		}
	}
	panic(engineError{"unop " + in.Op.String()})
}

func (cc *compiler) binop(in *ssa.BinOp) func(w *Worker, x, y Value) Value {
	t := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		neg := in.Op == token.NEQ
		et := t
		// comparisons of interface with concrete are made uniform by ssa
		wd, sc := scalarWidth(t)
		if sc {
			return func(w *Worker, x, y Value) Value {
				r := w.scalarEq(x, y, wd)
				if neg {
					return w.vnot(r)
				}
				return r
			}
		}
		return func(w *Worker, x, y Value) Value {
			r := w.eq(et, x, y)
			if neg {
				return w.vnot(r)
			}
			return r
		}
	}
	if isString(t) {
		switch in.Op {
		case token.ADD:
			return func(w *Worker, x, y Value) Value { return strCat(x, y) }
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			op := in.Op
			return func(w *Worker, x, y Value) Value {
				switch op {
				case token.LSS:
					return w.strLess(x, y)
				case token.GTR:
					return w.strLess(y, x)
				case token.LEQ:
					return w.vnot(w.strLess(y, x))
				}
				return w.vnot(w.strLess(x, y))
			}
		}
	}
	if isFloat(t) {
		f32 := under(t).(*types.Basic).Kind() == types.Float32
		op := in.Op
		return func(w *Worker, x, y Value) Value {
			a, ok1 := x.(float64)
			b, ok2 := y.(float64)
			if ok1 && ok2 {
				var r float64
				switch op {
				case token.ADD:
					r = a + b
				case token.SUB:
					r = a - b
				case token.MUL:
					r = a * b
				case token.QUO:
					r = a / b
				case token.LSS:
					return a < b
				case token.LEQ:
					return a <= b
				case token.GTR:
					return a > b
				case token.GEQ:
					return a >= b
				}
				if f32 {
					r = float64(float32(r))
				}
				return r
			}
			if f32 {
				panic(engineError{"symbolic float32"})
			}
			p, q := w.fterm(x), w.fterm(y)
			switch op {
			case token.ADD:
				return norm(w.b.FBin(OFAdd, p, q))
			case token.SUB:
				return norm(w.b.FBin(OFSub, p, q))
			case token.MUL:
				return norm(w.b.FBin(OFMul, p, q))
			case token.QUO:
				return norm(w.b.FBin(OFDiv, p, q))
			case token.LSS:
				return norm(w.b.FCmp(OFLt, p, q))
			case token.LEQ:
				return norm(w.b.FCmp(OFLe, p, q))
			case token.GTR:
				return norm(w.b.FCmp(OFLt, q, p))
			case token.GEQ:
				return norm(w.b.FCmp(OFLe, q, p))
			}
			panic(engineError{"float op"})
		}
	}
	wd, sg, ok := intInfo(t)
	if !ok {
		if isBool(t) {
			switch in.Op {
			case token.AND, token.LAND:
				return func(w *Worker, x, y Value) Value { return w.vand(x, y) }
			case token.OR, token.LOR:
				return func(w *Worker, x, y Value) Value { return w.vor(x, y) }
			}
		}
		if isComplex(t) {
			return func(w *Worker, x, y Value) Value { panic(engineError{"complex arithmetic"}) }
		}
		panic(engineError{"binop on " + t.String()})
	}
	m := mask(wd)
	op := in.Op
	switch op {
	case token.ADD:
		return func(w *Worker, x, y Value) Value {
			a, ok1 := x.(uint64)
			b, ok2 := y.(uint64)
			if ok1 && ok2 {
				return (a + b) & m
			}
			return norm(w.b.Add(w.term(x, wd), w.term(y, wd)))
		}
	case token.SUB:
		return func(w *Worker, x, y Value) Value {
			a, ok1 := x.(uint64)
			b, ok2 := y.(uint64)
			if ok1 && ok2 {
				return (a - b) & m
			}
			return norm(w.b.Sub(w.term(x, wd), w.term(y, wd)))
		}
	case token.MUL:
		return func(w *Worker, x, y Value) Value {
			a, ok1 := x.(uint64)
			b, ok2 := y.(uint64)
			if ok1 && ok2 {
				return (a * b) & m
			}
			return norm(w.b.Mul(w.term(x, wd), w.term(y, wd)))
		}
	case token.QUO, token.REM:
		return func(w *Worker, x, y Value) Value {
			a, ok1 := x.(uint64)
			b, ok2 := y.(uint64)
			if ok2 {
				if b == 0 {
					w.throw("integer divide by zero")
				}
			} else if w.branch(w.b.Eq(y.(*Term), w.b.Const(wd, 0))) {
				w.throw("integer divide by zero")
			}
			if ok1 && ok2 {
				if sg {
					p, q := sext(a, wd), sext(b, wd)
					if op == token.QUO {
						if q == -1 {
							return uint64(-p) & m
						}
						return uint64(p/q) & m
					}
					if q == -1 {
						return uint64(0)
					}
					return uint64(p%q) & m
				}
				if op == token.QUO {
					return a / b
				}
				return a % b
			}
			p, q := w.term(x, wd), w.term(y, wd)
			switch {
			case sg && op == token.QUO:
				return norm(w.b.SDiv(p, q))
			case sg:
				return norm(w.b.SRem(p, q))
			case op == token.QUO:
				return norm(w.b.UDiv(p, q))
			}
			return norm(w.b.URem(p, q))
		}
	case token.AND:
		return func(w *Worker, x, y Value) Value {
			a, ok1 := x.(uint64)
			b, ok2 := y.(uint64)
			if ok1 && ok2 {
				return a & b
			}
			return norm(w.b.BAnd(w.term(x, wd), w.term(y, wd)))
		}
	case token.OR:
		return func(w *Worker, x, y Value) Value {
			a, ok1 := x.(uint64)
			b, ok2 := y.(uint64)
			if ok1 && ok2 {
				return a | b
			}
			return norm(w.b.BOr(w.term(x, wd), w.term(y, wd)))
		}
	case token.XOR:
		return func(w *Worker, x, y Value) Value {
			a, ok1 := x.(uint64)
			b, ok2 := y.(uint64)
			if ok1 && ok2 {
				return a ^ b
			}
			return norm(w.b.BXor(w.term(x, wd), w.term(y, wd)))
		}
	case token.AND_NOT:
		return func(w *Worker, x, y Value) Value {
			a, ok1 := x.(uint64)
			b, ok2 := y.(uint64)
			if ok1 && ok2 {
				return a &^ b
			}
			return norm(w.b.BAnd(w.term(x, wd), w.b.BNot(w.term(y, wd))))
		}
	case token.SHL, token.SHR:
		yw, ysg, _ := intInfo(in.Y.Type())
		return func(w *Worker, x, y Value) Value {
			if ysg {
				if b, ok := y.(uint64); ok {
					if sext(b, yw) < 0 {
						w.throw("negative shift amount")
					}
				} else if w.branch(w.b.Slt(y.(*Term), w.b.Const(yw, 0))) {
					w.throw("negative shift amount")
				}
			}
			a, ok1 := x.(uint64)
			b, ok2 := y.(uint64)
			if ok1 && ok2 {
				if op == token.SHL {
					if b >= uint64(wd) {
						return uint64(0)
					}
					return (a << b) & m
				}
				if sg {
					if b >= uint64(wd) {
						b = uint64(wd) - 1
					}
					return uint64(sext(a, wd)>>b) & m
				}
				if b >= uint64(wd) {
					return uint64(0)
				}
				return a >> b
			}
			var s *Term
			if ok2 {
				if b > uint64(wd) {
					b = uint64(wd)
				}
				s = w.b.Const(wd, b)
			} else {
				t := y.(*Term)
				switch {
				case t.w == wd:
					s = t
				case t.w < wd:
					s = w.b.ZExt(t, wd)
				default:
					s = w.b.Ite(w.b.Ult(t, w.b.Const(t.w, uint64(wd))), w.b.Trunc(t, wd), w.b.Const(wd, uint64(wd)))
				}
			}
			p := w.term(x, wd)
			switch {
			case op == token.SHL:
				return norm(w.b.Shl(p, s))
			case sg:
				return norm(w.b.AShr(p, s))
			}
			return norm(w.b.LShr(p, s))
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return func(w *Worker, x, y Value) Value {
			a, ok1 := x.(uint64)
			b, ok2 := y.(uint64)
			if ok1 && ok2 {
				if sg {
					p, q := sext(a, wd), sext(b, wd)
					switch op {
					case token.LSS:
						return p < q
					case token.LEQ:
						return p <= q
					case token.GTR:
						return p > q
					}
					return p >= q
				}
				switch op {
				case token.LSS:
					return a < b
				case token.LEQ:
					return a <= b
				case token.GTR:
					return a > b
				}
				return a >= b
			}
			p, q := w.term(x, wd), w.term(y, wd)
			if op == token.GTR || op == token.GEQ {
				p, q = q, p
			}
			strict := op == token.LSS || op == token.GTR
			switch {
			case sg && strict:
				return norm(w.b.Slt(p, q))
			case sg:
				return norm(w.b.Sle(p, q))
			case strict:
				return norm(w.b.Ult(p, q))
			}
			return norm(w.b.Ule(p, q))
		}
	}
	panic(engineError{"binop " + op.String()})
}

func (w *Worker) strLess(x, y Value) Value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		return a < b
	}
	nx, ny := strLen(x), strLen(y)
	n := nx
	if ny < n {
		n = ny
	}
	var r Value = nx < ny
	for i := n - 1; i >= 0; i-- {
		p, q := w.term(strAt(x, i), 8), w.term(strAt(y, i), 8)
		lt, eq := norm(w.b.Ult(p, q)), norm(w.b.Eq(p, q))
		r = w.vor(lt, w.vand(eq, r))
	}
	return r
}

// convert compiles a conversion.
func convert(from, to types.Type) func(w *Worker, v Value) Value {
	fu, tu := under(from), under(to)
	if fw, fs, ok := intInfo(from); ok {
		if tw, _, ok := intInfo(to); ok {
			return func(w *Worker, v Value) Value {
				if u, ok := v.(uint64); ok {
					if tw > fw && fs {
						return uint64(sext(u, fw)) & mask(tw)
					}
					return u & mask(tw)
				}
				t := v.(*Term)
				switch {
				case tw == fw:
					return t
				case tw < fw:
					return norm(w.b.Trunc(t, tw))
				case fs:
					return norm(w.b.SExt(t, tw))
				}
				return norm(w.b.ZExt(t, tw))
			}
		}
		if isString(to) {
			return func(w *Worker, v Value) Value {
				if u, ok := v.(uint64); ok {
					var r int64
					if fs {
						r = sext(u, fw)
					} else {
						r = int64(u)
					}
					if r < 0 || r > 0x10ffff {
						r = 0xfffd
					}
					return string(rune(r))
				}
				t := v.(*Term)
				if t.w < 32 {
					if fs {
						t = w.b.SExt(t, 32)
					} else {
						t = w.b.ZExt(t, 32)
					}
				} else if t.w > 32 {
					if w.branch(w.b.Ult(w.b.Const(t.w, 0x10ffff), t)) {
						return "\uFFFD"
					}
					t = w.b.Trunc(t, 32)
				}
				return mkStr(w.encodeRune(norm(t)))
			}
		}
		if isFloat(to) {
			f32 := tu.(*types.Basic).Kind() == types.Float32
			return func(w *Worker, v Value) Value {
				if u, ok := v.(uint64); ok {
					var f float64
					if fs {
						f = float64(sext(u, fw))
					} else {
						f = float64(u)
					}
					if f32 {
						f = float64(float32(f))
					}
					return f
				}
				if f32 {
					panic(engineError{"symbolic float32"})
				}
				op := OUToF
				if fs {
					op = OSToF
				}
				return norm(w.b.FBin(op, v.(*Term), nil))
			}
		}
		if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
			return func(w *Worker, v Value) Value { panic(engineError{"uintptr to unsafe.Pointer"}) }
		}
	}
	if isFloat(from) {
		if tw, ts, ok := intInfo(to); ok {
			return func(w *Worker, v Value) Value {
				if f, ok := v.(float64); ok {
					if ts {
						return uint64(int64(f)) & mask(tw)
					}
					if f < 0 {
						return uint64(int64(f)) & mask(tw)
					}
					return uint64(f) & mask(tw)
				}
				op := OFToS
				if !ts {
					op = OFToU
				}
				return norm(w.b.Trunc(w.b.FBin(op, v.(*Term), nil), tw))
			}
		}
		if isFloat(to) {
			f32 := tu.(*types.Basic).Kind() == types.Float32
			return func(w *Worker, v Value) Value {
				if f, ok := v.(float64); ok && f32 {
					return float64(float32(f))
				}
				return v
			}
		}
	}
	if isString(from) {
		if s, ok := tu.(*types.Slice); ok {
			ew, _, _ := intInfo(s.Elem())
			if ew == 8 {
				return func(w *Worker, v Value) Value {
					b := strBytes(v)
					r := make([]Value, len(b), roundup(len(b), 1, 1))
					copy(r, b)
					fillZero(r[len(b):cap(r)], uint64(0))
					return r
				}
			}
			return func(w *Worker, v Value) Value {
				var r []Value
				it := &StrIter{s: v}
				for {
					t := w.strNext(it)
					if t[0] == false {
						break
					}
					r = append(r, t[2])
				}
				if r == nil {
					r = []Value{}
				}
				n := len(r)
				rr := make([]Value, n, roundup(n, 4, n))
				copy(rr, r)
				fillZero(rr[n:cap(rr)], uint64(0))
				return rr
			}
		}
		if isString(to) {
			return func(w *Worker, v Value) Value { return v }
		}
	}
	if s, ok := fu.(*types.Slice); ok && isString(to) {
		ew, _, _ := intInfo(s.Elem())
		if ew == 8 {
			return func(w *Worker, v Value) Value {
				b := v.([]Value)
				for i := range b {
					w.raceR(&b[i])
				}
				return mkStr(append([]Value(nil), b...))
			}
		}
		return func(w *Worker, v Value) Value {
			var r []Value
			for _, x := range v.([]Value) {
				r = append(r, w.encodeRune(x)...)
			}
			return mkStr(r)
		}
	}
	if isComplex(from) && isComplex(to) {
		return func(w *Worker, v Value) Value { return v }
	}
	// pointer/unsafe conversions and identical underlying types
	_, fp := fu.(*types.Pointer)
	_, tp := tu.(*types.Pointer)
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	funs := fb != nil && fb.Kind() == types.UnsafePointer
	tuns := tb != nil && tb.Kind() == types.UnsafePointer
	if (fp || funs) && (tp || tuns) {
		return func(w *Worker, v Value) Value { return v }
	}
	if funs && tb != nil {
		return func(w *Worker, v Value) Value { panic(engineError{"unsafe.Pointer to integer"}) }
	}
	if types.Identical(fu, tu) {
		return func(w *Worker, v Value) Value { return v }
	}
	if _, ok := fu.(*types.Slice); ok {
		if at, ok := tu.(*types.Array); ok {
			n := int(at.Len())
			return func(w *Worker, v Value) Value {
				s := v.([]Value)
				if len(s) < n {
					w.throw("cannot convert slice to array: length too short")
				}
				return copyVal(Agg(s[:n]))
			}
		}
	}
	panic(engineError{fmt.Sprintf("conversion %v -> %v", from, to)})
}

// encodeRune gives the UTF-8 encoding of a 32-bit rune value.
func (w *Worker) encodeRune(v Value) []Value {
	if u, ok := v.(uint64); ok {
		s := string(rune(int32(u)))
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = uint64(s[i])
		}
		return r
	}
	t := v.(*Term)
	b := w.b
	c := func(k uint64) *Term { return b.Const(32, k) }
	byteOf := func(x *Term) Value { return norm(b.Trunc(x, 8)) }
	cont := func(sh uint64) Value {
		return byteOf(b.BOr(c(0x80), b.BAnd(b.LShr(t, c(sh)), c(0x3f))))
	}
	if w.branch(b.Ult(t, c(0x80))) {
		return []Value{byteOf(t)}
	}
	if w.branch(b.Ult(t, c(0x800))) {
		return []Value{byteOf(b.BOr(c(0xc0), b.LShr(t, c(6)))), cont(0)}
	}
	bad := b.Or(b.Ult(c(0x10ffff), t), b.And(b.Ule(c(0xd800), t), b.Ult(t, c(0xe000))))
	if w.branch(bad) {
		return []Value{uint64(0xef), uint64(0xbf), uint64(0xbd)}
	}
	if w.branch(b.Ult(t, c(0x10000))) {
		return []Value{byteOf(b.BOr(c(0xe0), b.LShr(t, c(12)))), cont(6), cont(0)}
	}
	return []Value{byteOf(b.BOr(c(0xf0), b.LShr(t, c(18)))), cont(12), cont(6), cont(0)}
}

// strNext advances a string iterator, decoding UTF-8.
func (w *Worker) strNext(it *StrIter) TupleV {
	n := strLen(it.s)
	if it.pos >= n {
		return TupleV{false, uint64(0), uint64(0)}
	}
	pos := it.pos
	r, sz := w.decodeRune(it.s, pos)
	it.pos += sz
	return TupleV{true, uint64(pos), r}
}

// decodeRune decodes one rune of s at pos with Go's utf8 rules.
func (w *Worker) decodeRune(s Value, pos int) (Value, int) {
	n := strLen(s)
	conc := true
	var buf [4]byte
	k := 0
	for ; k < 4 && pos+k < n; k++ {
		u, ok := strAt(s, pos+k).(uint64)
		if !ok {
			conc = false
			break
		}
		buf[k] = byte(u)
		if k == 0 && u < 0x80 {
			return u, 1
		}
	}
	if conc {
		for i, r := range string(buf[:k]) {
			_ = i
			l := len(string(r))
			if r == 0xfffd && !(k >= 3 && buf[0] == 0xef && buf[1] == 0xbf && buf[2] == 0xbd) {
				l = 1
			}
			return uint64(uint32(r)), l
		}
	}
	b := w.b
	at := func(i int) *Term { return w.term(strAt(s, pos+i), 8) }
	c := func(k uint64) *Term { return b.Const(8, k) }
	rng := func(x *Term, lo, hi uint64) *Term { return b.And(b.Ule(c(lo), x), b.Ule(x, c(hi))) }
	z := func(x *Term, m uint64, sh uint64) *Term {
		return b.Shl(b.ZExt(b.BAnd(x, c(m)), 32), b.Const(32, sh))
	}
	b0 := at(0)
	if w.branch(b.Ult(b0, c(0x80))) {
		return norm(b.ZExt(b0, 32)), 1
	}
	bad := uint64(0xfffd)
	if w.branch(b.Or(b.Ult(b0, c(0xc2)), b.Ult(c(0xf4), b0))) {
		return bad, 1
	}
	rem := n - pos
	if w.branch(b.Ult(b0, c(0xe0))) {
		if rem < 2 || !w.branch(rng(at(1), 0x80, 0xbf)) {
			return bad, 1
		}
		return norm(b.BOr(z(b0, 0x1f, 6), z(at(1), 0x3f, 0))), 2
	}
	if w.branch(b.Ult(b0, c(0xf0))) {
		if rem < 3 {
			return bad, 1
		}
		// second byte range depends on the first
		lo := b.Ite(b.Eq(b0, c(0xe0)), c(0xa0), c(0x80))
		hi := b.Ite(b.Eq(b0, c(0xed)), c(0x9f), c(0xbf))
		ok := b.And(b.And(b.Ule(lo, at(1)), b.Ule(at(1), hi)), rng(at(2), 0x80, 0xbf))
		if !w.branch(ok) {
			return bad, 1
		}
		return norm(b.BOr(b.BOr(z(b0, 0x0f, 12), z(at(1), 0x3f, 6)), z(at(2), 0x3f, 0))), 3
	}
	if rem < 4 {
		return bad, 1
	}
	lo := b.Ite(b.Eq(b0, c(0xf0)), c(0x90), c(0x80))
	hi := b.Ite(b.Eq(b0, c(0xf4)), c(0x8f), c(0xbf))
	ok := b.And(b.And(b.Ule(lo, at(1)), b.Ule(at(1), hi)), b.And(rng(at(2), 0x80, 0xbf), rng(at(3), 0x80, 0xbf)))
	if !w.branch(ok) {
		return bad, 1
	}
	return norm(b.BOr(b.BOr(z(b0, 0x07, 18), z(at(1), 0x3f, 12)), b.BOr(z(at(2), 0x3f, 6), z(at(3), 0x3f, 0)))), 4
}

func (cc *compiler) slice(in *ssa.Slice) instr {
	d := cc.reg(in)
	x := cc.opnd(in.X)
	var lo, hi, mx opnd
	if in.Low != nil {
		lo = cc.opnd(in.Low)
	}
	if in.High != nil {
		hi = cc.opnd(in.High)
	}
	if in.Max != nil {
		mx = cc.opnd(in.Max)
	}
	sx := func(fr *frame, o *opnd, t types.Type) int64 {
		wd, sg, _ := intInfo(t)
		u := fr.w.concretise(fr.get(o))
		if sg {
			return sext(u, wd)
		}
		if u > 1<<62 {
			return 1 << 62
		}
		return int64(u)
	}
	str := isString(in.X.Type())
	_, ptr := under(in.X.Type()).(*types.Pointer)
	return func(fr *frame) {
		xv := fr.get(&x)
		var l, h, m int64
		var ln, cp int64
		var arr []Value
		switch {
		case str:
			ln = int64(strLen(xv))
			cp = ln
		case ptr:
			p, _ := xv.(*Value)
			if p == nil {
				fr.w.throw("invalid memory address or nil pointer dereference")
			}
			arr = []Value((*p).(Agg))
			ln = int64(len(arr))
			cp = ln
		default:
			arr = xv.([]Value)
			ln, cp = int64(len(arr)), int64(cap(arr))
		}
		if in.Low != nil {
			l = sx(fr, &lo, in.Low.Type())
		}
		h = ln
		if in.High != nil {
			h = sx(fr, &hi, in.High.Type())
		}
		m = cp
		if in.Max != nil {
			m = sx(fr, &mx, in.Max.Type())
		}
		if l < 0 || h < l || m < h || m > cp {
			fr.w.throw(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cp))
		}
		if str {
			fr.regs[d] = strSlice(xv, int(l), int(h))
			return
		}
		if arr == nil {
			fr.regs[d] = arr
			return
		}
		fr.regs[d] = arr[l:h:m]
	}
}

func (w *Worker) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	var ok bool
	var v Value
	if it, isI := under(in.AssertedType).(*types.Interface); isI {
		ok = x.t != nil && w.e.implements(x.t, it)
		if ok {
			v = x
		} else {
			v = Iface{}
		}
	} else {
		ok = x.t != nil && w.e.identical(x.t, in.AssertedType)
		if ok {
			v = copyVal(x.v)
		} else {
			v = zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return TupleV{v, ok}
	}
	if !ok {
		panic(&targetPanic{v: Iface{w.e.rtErrType, fmt.Sprintf("interface conversion: %v is not %v", x.t, in.AssertedType)}, stack: w.where()})
	}
	return v
}

// callCommon prepares callee and arguments.
func (cc *compiler) callCommon(call *ssa.CallCommon) func(fr *frame) (*Closure, *ssa.Builtin, []Value) {
	args := make([]opnd, len(call.Args))
	for i, a := range call.Args {
		args[i] = cc.opnd(a)
	}
	if call.IsInvoke() {
		x := cc.opnd(call.Value)
		m := call.Method
		return func(fr *frame) (*Closure, *ssa.Builtin, []Value) {
			r := fr.get(&x).(Iface)
			if r.t == nil {
				fr.w.throw("invalid memory address or nil pointer dereference")
			}
			fn := fr.w.e.method(r.t, m)
			av := make([]Value, len(args)+1)
			av[0] = copyVal(r.v)
			for i := range args {
				av[i+1] = copyVal(fr.get(&args[i]))
			}
			return fn, nil, av
		}
	}
	if bi, ok := call.Value.(*ssa.Builtin); ok {
		return func(fr *frame) (*Closure, *ssa.Builtin, []Value) {
			av := make([]Value, len(args))
			for i := range args {
				av[i] = fr.get(&args[i])
			}
			return nil, bi, av
		}
	}
	f := cc.opnd(call.Value)
	return func(fr *frame) (*Closure, *ssa.Builtin, []Value) {
		fn, _ := fr.get(&f).(*Closure)
		av := make([]Value, len(args))
		for i := range args {
			v := fr.get(&args[i])
			if _, ok := v.(Agg); ok {
				v = copyVal(v)
			}
			av[i] = v
		}
		return fn, nil, av
	}
}

// callClosure runs a function to completion.
func (w *Worker) callClosure(caller *frame, c *Closure, args []Value) Value {
	if c == nil {
		w.throw("invalid memory address or nil pointer dereference")
	}
	if c.nat != nil {
		return c.nat(&frame{w: w, caller: caller, th: w.cur}, args)
	}
	code := c.code
	if code == nil {
		code = w.e.codeOf(c.fn)
		if len(c.env) == 0 {
			// closures from codeOf are cached per function, benign
		}
	}
	if code.src && !w.fnUsed[code] {
		w.fnUsed[code] = true
	}
	fr := &frame{w: w, code: code, caller: caller, th: w.cur}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if code.intr != nil {
		return code.intr(fr, args)
	}
	if fr.depth > maxDepth {
		w.ensureModel()
		w.stop("hang", "recursion deeper than the modelled stack", w.model)
	}
	fr.regs = make([]Value, code.nregs)
	for i, p := range code.params {
		fr.regs[p] = args[i]
	}
	for i, p := range code.free {
		fr.regs[p] = c.env[i]
	}
	th := w.cur
	save := th.top
	th.top = fr
	if code.hasDefer {
		fr.runWithDefers()
	} else {
		fr.exec(0)
	}
	th.top = save
	return fr.result
}

func (fr *frame) exec(start int) {
	w := fr.w
	code := fr.code
	cur := start
	fr.prev = -1
	var tmp [8]Value
	for cur >= 0 {
		bc := code.blocks[cur]
		if len(bc.phis) > 0 {
			e := bc.preds[fr.prev]
			vs := tmp[:0]
			for i := range bc.phis {
				vs = append(vs, fr.get(&bc.phis[i].edges[e]))
			}
			for i := range bc.phis {
				fr.regs[bc.phis[i].dst] = vs[i]
			}
		}
		w.steps += int64(len(bc.ins) + 1)
		if w.steps > w.e.maxSteps {
			w.ensureModel()
			w.stop("hang", "step limit exceeded in "+code.fn.String(), w.model)
		}
		for _, in := range bc.ins {
			in(fr)
		}
		fr.prev = cur
		cur = bc.term(fr)
	}
}

func (fr *frame) runWithDefers() {
	func() {
		done := false
		defer func() {
			if done {
				return
			}
			r := recover()
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r) // engine control flow
			}
			fr.panicking = true
			fr.pv = tp
			fr.th.top = fr
			fr.runDefers() // re-panics if not recovered
			// recovered
			if fr.code.recoverB >= 0 {
				fr.exec(fr.code.recoverB)
			} else {
				fr.result = zeroResult(fr.code.fn)
			}
		}()
		fr.exec(0)
		done = true
	}()
}

func zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	t := make(TupleV, r.Len())
	for i := range t {
		t[i] = zero(r.At(i).Type())
	}
	return t
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.pv)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(*targetPanic)
			if !is {
				panic(r)
			}
			fr.panicking = true
			fr.pv = tp
			fr.th.top = fr
		}
	}()
	if d.bi != nil {
		fr.w.builtin(fr, d.bi, d.args, nil)
	} else {
		fr.w.callClosure(fr, d.fn, d.args)
	}
	ok = true
}

// roundup models the allocator's size classes for append growth.
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n, elem, _ int) int {
	if elem == 0 {
		return n
	}
	sz := n * elem
	if sz == 0 {
		return 0
	}
	if sz <= 32768 {
		for _, c := range sizeClasses {
			if c >= sz {
				return c / elem
			}
		}
	}
	p := 8192
	return (sz + p - 1) / p * p / elem
}

func growCap(oldCap, newLen, elem int) int {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	r := roundup(nc, elem, 0)
	if r < newLen {
		r = newLen
	}
	return r
}

var stdSizes = types.SizesFor("gc", "amd64")

func (w *Worker) appendVals(s []Value, add []Value, et types.Type) []Value {
	n := len(s) + len(add)
	if len(add) == 0 {
		return s
	}
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			w.raceW(&r[len(s)+i])
			w.storeTo(&r[len(s)+i], v)
		}
		return r
	}
	nc := growCap(cap(s), n, int(stdSizes.Sizeof(et)))
	r := make([]Value, n, nc)
	for i := range s {
		w.raceR(&s[i])
		r[i] = copyVal(s[i])
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	if nc > n {
		fillZero(r[n:nc], zero(et))
	}
	return r
}

func (w *Worker) builtin(fr *frame, bi *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SStr:
			return uint64(strLen(x))
		case []Value:
			return uint64(len(x))
		case Agg:
			return uint64(len(x))
		case *MapV:
			if x == nil {
				return uint64(0)
			}
			w.raceR(&x.id)
			return uint64(x.n)
		case *Value:
			return uint64(len((*x).(Agg)))
		case *ChanV:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return uint64(cap(x))
		case Agg:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Agg)))
		case *ChanV:
			return uint64(x.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].([]Value)
		var add []Value
		switch y := args[1].(type) {
		case []Value:
			add = append([]Value(nil), y...)
			for i := range y {
				w.raceR(&y[i])
			}
		case string, *SStr:
			add = strBytes(y)
		}
		et := under(bi.Type().(*types.Signature).Params().At(0).Type()).(*types.Slice).Elem()
		return w.appendVals(s, add, et)
	case "copy":
		dst := args[0].([]Value)
		var src []Value
		switch y := args[1].(type) {
		case []Value:
			src = append([]Value(nil), y...)
			for i := 0; i < len(y) && i < len(dst); i++ {
				w.raceR(&y[i])
			}
		case string, *SStr:
			src = strBytes(y)
		}
		n := len(src)
		if len(dst) < n {
			n = len(dst)
		}
		for i := 0; i < n; i++ {
			w.raceW(&dst[i])
			w.storeTo(&dst[i], src[i])
		}
		return uint64(n)
	case "delete":
		m := args[0].(*MapV)
		if m != nil {
			w.raceW(&m.id)
			w.mapDelete(m, under(bi.Type().(*types.Signature).Params().At(0).Type()).(*types.Map).Key(), args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range append([]*MapEntry(nil), x.ents...) {
					w.mapDelete(x, under(bi.Type().(*types.Signature).Params().At(0).Type()).(*types.Map).Key(), e.k)
				}
			}
		case []Value:
			z := zero(under(bi.Type().(*types.Signature).Params().At(0).Type()).(*types.Slice).Elem())
			for i := range x {
				w.storeTo(&x[i], z)
			}
		}
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], stack: w.where()})
	case "recover":
		// fr is the frame of the deferred function
		c := fr.caller
		if c != nil && c.panicking {
			c.panicking = false
			p := c.pv.v
			c.pv = nil
			return p
		}
		return Iface{}
	case "min", "max":
		t := bi.Type().(*types.Signature).Params().At(0).Type()
		r := args[0]
		for _, y := range args[1:] {
			var lt Value
			wd, sg, ok := intInfo(t)
			switch {
			case ok && sg:
				lt = norm(w.b.Slt(w.term(y, wd), w.term(r, wd)))
			case ok:
				lt = norm(w.b.Ult(w.term(y, wd), w.term(r, wd)))
			case isString(t):
				lt = w.strLess(y, r)
			default:
				a, ok1 := y.(float64)
				b, ok2 := r.(float64)
				if !ok1 || !ok2 {
					panic(engineError{"symbolic float min/max"})
				}
				if bi.Name() == "min" {
					r = math.Min(a, b)
				} else {
					r = math.Max(a, b)
				}
				continue
			}
			if bi.Name() == "max" {
				var gt Value
				switch {
				case ok && sg:
					gt = norm(w.b.Slt(w.term(r, wd), w.term(y, wd)))
				case ok:
					gt = norm(w.b.Ult(w.term(r, wd), w.term(y, wd)))
				default:
					gt = w.strLess(r, y)
				}
				lt = gt
			}
			if c, isb := lt.(bool); isb {
				if c {
					r = y
				}
			} else if ok {
				r = norm(w.b.Ite(lt.(*Term), w.term(y, wd), w.term(r, wd)))
			} else if w.truth(lt) {
				r = y
			}
		}
		return r
	case "print", "println":
		return nil
	case "close":
		w.chanClose(args[0].(*ChanV))
		return nil
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			w.throw("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr,len)
		n := w.concInt(args[1])
		if n == 0 {
			return ""
		}
		if us, ok := args[0].(*unsafeSeq); ok {
			return mkStr(append([]Value(nil), us.b[:n]...))
		}
	case "StringData":
		return &unsafeSeq{strBytes(args[0])}
	case "SliceData":
		s := args[0].([]Value)
		return &unsafeSeq{s}
	case "Slice":
		n := w.concInt(args[1])
		if us, ok := args[0].(*unsafeSeq); ok {
			return us.b[:n:n]
		}
		if n == 0 {
			return []Value{}
		}
	}
	panic(engineError{fmt.Sprintf("builtin %s on %T", bi.Name(), args)})
}

type unsafeSeq struct{ b []Value }

// mapLookup implements m[k] and m[k],ok.
func (w *Worker) mapLookup(m *MapV, mt *types.Map, key Value) (Value, Value) {
	z := func() Value { return zero(mt.Elem()) }
	if m == nil {
		return z(), false
	}
	w.raceR(&m.id)
	if t, ok := key.(*Term); ok && m.nsym == 0 {
		if vw, ok := scalarWidth(mt.Elem()); ok {
			if tab := w.tabOf(m, t.w, vw); tab != nil {
				return w.tabLookup(tab, t)
			}
		}
	}
	e := w.mapFind(m, mt.Key(), key)
	if e == nil {
		return z(), false
	}
	return copyVal(e.v), true
}

func (w *Worker) tabOf(m *MapV, kw, vw uint8) *mapTab {
	if m.tab != nil {
		return m.tab
	}
	type kv struct{ k, v uint64 }
	var kvs []kv
	for _, e := range m.ents {
		k, ok := e.k.(uint64)
		if !ok {
			if bk, isb := e.k.(bool); isb {
				if bk {
					k = 1
				}
			} else {
				return nil
			}
		}
		var v uint64
		switch x := e.v.(type) {
		case uint64:
			v = x
		case bool:
			if x {
				v = 1
			}
		default:
			return nil
		}
		kvs = append(kvs, kv{k, v})
	}
	for i := 1; i < len(kvs); i++ {
		for j := i; j > 0 && kvs[j].k < kvs[j-1].k; j-- {
			kvs[j], kvs[j-1] = kvs[j-1], kvs[j]
		}
	}
	tab := &mapTab{w: kw, vw: vw}
	for _, x := range kvs {
		if n := len(tab.runs); n > 0 {
			r := &tab.runs[n-1]
			if x.k == r.hi+1 {
				single := r.lo == r.hi
				if (single || r.slope) && vw > 0 && x.v == (r.val+(x.k-r.lo))&mask(vw) && x.v > r.val {
					r.slope = true
					r.hi = x.k
					continue
				}
				if (single || !r.slope) && x.v == r.val {
					r.hi = x.k
					continue
				}
			}
		}
		tab.runs = append(tab.runs, mapRun{lo: x.k, hi: x.k, val: x.v})
	}
	m.tab = tab
	return tab
}

func (w *Worker) tabLookup(tab *mapTab, t *Term) (Value, Value) {
	b := w.b
	zv := b.Const(tab.vw, 0)
	if tab.vw == 0 {
		zv = b.F
	}
	resize := func(x *Term) *Term {
		switch {
		case x.w == tab.vw:
			return x
		case x.w > tab.vw:
			return b.Trunc(x, tab.vw)
		}
		return b.ZExt(x, tab.vw)
	}
	var rec func(lo, hi int) (*Term, *Term)
	rec = func(lo, hi int) (*Term, *Term) {
		if lo == hi {
			return zv, b.F
		}
		if hi-lo == 1 {
			r := tab.runs[lo]
			in := b.And(b.Ule(b.Const(t.w, r.lo), t), b.Ule(t, b.Const(t.w, r.hi)))
			if r.lo == r.hi {
				in = b.Eq(t, b.Const(t.w, r.lo))
			}
			var v *Term
			switch {
			case tab.vw == 0:
				v = b.Bool(r.val == 1)
			case r.slope:
				v = b.Add(resize(t), b.Const(tab.vw, r.val-r.lo))
			default:
				v = b.Const(tab.vw, r.val)
			}
			return b.Ite(in, v, zv), in
		}
		mid := (lo + hi) / 2
		c := b.Ult(t, b.Const(t.w, tab.runs[mid].lo))
		lv, lo2 := rec(lo, mid)
		rv, ro := rec(mid, hi)
		return b.Ite(c, lv, rv), b.Ite(c, lo2, ro)
	}
	v, ok := rec(0, len(tab.runs))
	return norm(v), norm(ok)
}
