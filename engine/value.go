package main

// Run-time values of the symbolic interpreter.
//
//   integers   uint64 (zero-extended bit pattern) or *Term (w>0)
//   booleans   bool or *Term (w==0)
//   floats     float64 or *Term (fp)
//   strings    string or *SStr (concrete length, symbolic bytes)
//   pointers   *Value, or *SymPtr for an element at a symbolic index
//   slices     []Value (Go slice: aliasing and capacity as in Go)
//   arrays and structs  Agg
//   maps *MapV, interfaces Iface, functions *Closure, tuples TupleV

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value = interface{}

type Agg []Value
type TupleV []Value

type SStr struct{ b []Value }

type SymPtr struct {
	arr []Value
	idx *Term
	w   uint8 // element width (0 = bool)
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	env  []Value
	code *fnCode
	nat  func(fr *frame, args []Value) Value // engine-supplied function
}

type MapEntry struct {
	k, v Value
	ck   string
	dead bool
}

type MapV struct {
	ents   []*MapEntry
	index  map[string]*MapEntry // concrete keys
	nsym   int                  // entries with symbolic keys
	n      int
	iterRd uint64
	// cached lookup plan for symbolic scalar keys
	ver int
	tab *mapTab
	id  Value // shadow slot for the race detector
}

type MapIter struct {
	m    *MapV
	ents []*MapEntry
	pos  int
}

type StrIter struct {
	s   Value
	pos int
}

type targetPanic struct {
	v     Value
	stack string
}

func isNilPtr(p Value) bool {
	switch p := p.(type) {
	case *Value:
		return p == nil
	case nil:
		return true
	}
	return false
}

func under(t types.Type) types.Type { return t.Underlying() }

// intInfo reports the width and signedness of an integer type.
func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isComplex(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}

// scalarWidth: 0 for bool, 1..64 for ints; ok=false otherwise.
func scalarWidth(t types.Type) (uint8, bool) {
	if isBool(t) {
		return 0, true
	}
	w, _, ok := intInfo(t)
	return w, ok
}

func zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return (*Value)(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsComplex != 0:
			return complex(0, 0)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Struct:
		a := make(Agg, u.NumFields())
		for i := range a {
			a[i] = zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		a := make(Agg, u.Len())
		if len(a) > 0 {
			z := zero(u.Elem())
			if _, isAgg := z.(Agg); isAgg {
				for i := range a {
					a[i] = zero(u.Elem())
				}
			} else {
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		a := make(TupleV, u.Len())
		for i := range a {
			a[i] = zero(u.At(i).Type())
		}
		return a
	}
	panic(engineError{fmt.Sprintf("zero value of %v", t)})
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	if a, ok := v.(Agg); ok {
		n := make(Agg, len(a))
		for i, x := range a {
			if _, isa := x.(Agg); isa {
				n[i] = copyVal(x)
			} else {
				n[i] = x
			}
		}
		return n
	}
	return v
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(engineError{fmt.Sprintf("strLen of %T", v)})
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SStr:
		return s.b[i]
	}
	panic(engineError{fmt.Sprintf("strAt of %T", v)})
}

func mkStr(b []Value) Value {
	all := true
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			all = false
			break
		}
	}
	if all {
		r := make([]byte, len(b))
		for i, x := range b {
			r[i] = byte(x.(uint64))
		}
		return string(r)
	}
	return &SStr{b}
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = uint64(s[i])
		}
		return r
	case *SStr:
		return append([]Value(nil), s.b...)
	}
	panic(engineError{fmt.Sprintf("strBytes of %T", v)})
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SStr:
		return mkStr(s.b[lo:hi])
	}
	panic(engineError{"strSlice"})
}

func strCat(x, y Value) Value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		return a + b
	}
	if ok1 && a == "" {
		return y
	}
	if ok2 && b == "" {
		return x
	}
	return mkStr(append(strBytes(x), strBytes(y)...))
}

// ---- lifting ----

func (w *Worker) term(v Value, width uint8) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case uint64:
		return w.b.Const(width, v)
	case bool:
		return w.b.Bool(v)
	case float64:
		return w.b.FConst(v)
	}
	panic(engineError{fmt.Sprintf("term of %T", v)})
}

func (w *Worker) fterm(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case float64:
		return w.b.FConst(v)
	}
	panic(engineError{fmt.Sprintf("fterm of %T", v)})
}

// norm turns constant terms back into concrete values.
func norm(t *Term) Value {
	if t.op == OConst {
		if t.w == 0 {
			return t.k == 1
		}
		if t.fp {
			return math.Float64frombits(t.k)
		}
		return t.k
	}
	return t
}

func (w *Worker) vnot(v Value) Value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return norm(w.b.Not(v.(*Term)))
}

func (w *Worker) vand(x, y Value) Value {
	if b, ok := x.(bool); ok {
		if !b {
			return false
		}
		return y
	}
	if b, ok := y.(bool); ok {
		if !b {
			return false
		}
		return x
	}
	return norm(w.b.And(x.(*Term), y.(*Term)))
}

func (w *Worker) vor(x, y Value) Value {
	return w.vnot(w.vand(w.vnot(x), w.vnot(y)))
}

// scalarEq compares two scalars of the given width.
func (w *Worker) scalarEq(x, y Value, width uint8) Value {
	switch a := x.(type) {
	case uint64:
		if b, ok := y.(uint64); ok {
			return a == b
		}
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
	}
	return norm(w.b.Eq(w.term(x, width), w.term(y, width)))
}

func (w *Worker) strEq(x, y Value) Value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		return a == b
	}
	n := strLen(x)
	if n != strLen(y) {
		return false
	}
	var r Value = true
	for i := 0; i < n; i++ {
		r = w.vand(r, w.scalarEq(strAt(x, i), strAt(y, i), 8))
		if r == false {
			return false
		}
	}
	return r
}

// eq implements == for values of static type t.
func (w *Worker) eq(t types.Type, x, y Value) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return w.strEq(x, y)
		case u.Info()&types.IsFloat != 0:
			a, ok1 := x.(float64)
			b, ok2 := y.(float64)
			if ok1 && ok2 {
				return a == b
			}
			return norm(w.b.FCmp(OFEq, w.fterm(x), w.fterm(y)))
		case u.Info()&types.IsComplex != 0:
			return x == y
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return w.ptrEq(x, y)
		}
		wd, ok := scalarWidth(t)
		if ok {
			return w.scalarEq(x, y, wd)
		}
	case *types.Pointer:
		return w.ptrEq(x, y)
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !types.Identical(a.t, b.t) {
			return false
		}
		if !types.Comparable(a.t) {
			w.throw("comparing uncomparable type " + a.t.String())
		}
		return w.eq(a.t, a.v, b.v)
	case *types.Struct:
		a, b := x.(Agg), y.(Agg)
		var r Value = true
		for i := range a {
			f := u.Field(i)
			if f.Name() == "_" {
				continue
			}
			r = w.vand(r, w.eq(f.Type(), a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		a, b := x.(Agg), y.(Agg)
		var r Value = true
		for i := range a {
			r = w.vand(r, w.eq(u.Elem(), a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Map:
		return x.(*MapV) == y.(*MapV)
	case *types.Chan:
		return x.(*ChanV) == y.(*ChanV)
	case *types.Slice:
		// only against nil
		a, b := x.([]Value), y.([]Value)
		if a != nil && b != nil {
			panic(engineError{"slice comparison"})
		}
		return a == nil && b == nil
	case *types.Signature:
		a, b := x.(*Closure), y.(*Closure)
		return a == b
	}
	panic(engineError{fmt.Sprintf("eq on %v (%T,%T)", t, x, y)})
}

func (w *Worker) ptrEq(x, y Value) Value {
	a, ok1 := x.(*Value)
	b, ok2 := y.(*Value)
	if ok1 && ok2 {
		return a == b
	}
	if s, ok := x.(*SymPtr); ok {
		if t, ok := y.(*SymPtr); ok && s == t {
			return true
		}
		if ok2 && b == nil {
			return false
		}
	}
	if s, ok := y.(*SymPtr); ok && s != nil {
		if ok1 && a == nil {
			return false
		}
	}
	panic(engineError{"comparison of symbolic pointers"})
}

// ---- maps ----

// canonKey renders a fully concrete key; ok=false if it contains symbols.
func canonKey(t types.Type, v Value, sb *strings.Builder) bool {
	switch v := v.(type) {
	case uint64:
		fmt.Fprintf(sb, "%d;", v)
		return true
	case bool:
		fmt.Fprintf(sb, "%t;", v)
		return true
	case float64:
		if v == 0 {
			v = 0
		}
		fmt.Fprintf(sb, "%v;", v)
		return true
	case string:
		fmt.Fprintf(sb, "%d:%s;", len(v), v)
		return true
	case Iface:
		if v.t == nil {
			sb.WriteString("nil;")
			return true
		}
		sb.WriteString(v.t.String())
		sb.WriteByte('/')
		return canonKey(v.t, v.v, sb)
	case Agg:
		sb.WriteByte('{')
		for _, x := range v {
			if !canonKey(nil, x, sb) {
				return false
			}
		}
		sb.WriteByte('}')
		return true
	case *Value:
		fmt.Fprintf(sb, "%p;", v)
		return true
	case *ChanV:
		fmt.Fprintf(sb, "%p;", v)
		return true
	}
	return false
}

func ckey(v Value) (string, bool) {
	var sb strings.Builder
	if !canonKey(nil, v, &sb) {
		return "", false
	}
	return sb.String(), true
}

func newMap() *MapV { return &MapV{index: map[string]*MapEntry{}} }

// find locates the entry equal to key, forking on undecided equalities.
func (w *Worker) mapFind(m *MapV, kt types.Type, key Value) *MapEntry {
	ck, ok := ckey(key)
	if ok {
		if e := m.index[ck]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if ok && e.ck != "" {
			continue
		}
		c := w.eq(kt, e.k, key)
		if w.truth(c) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapSet(m *MapV, kt types.Type, key, val Value) {
	e := w.mapFind(m, kt, key)
	m.ver++
	m.tab = nil
	if e != nil {
		old := e.v
		w.undo(func() { e.v = old; m.tab = nil })
		e.v = val
		return
	}
	ck, ok := ckey(key)
	ne := &MapEntry{k: key, v: val}
	oldEnts, oldN, oldSym := m.ents, m.n, m.nsym
	if ok {
		ne.ck = ck
		m.index[ck] = ne
	} else {
		m.nsym++
	}
	m.n++
	m.ents = append(m.ents[:len(m.ents):len(m.ents)+cap2(m)], ne)
	w.undo(func() {
		m.ents, m.n, m.nsym = oldEnts, oldN, oldSym
		if ok {
			delete(m.index, ck)
		}
		m.tab = nil
	})
}

// cap2 lets append reuse the spare capacity (the journal restores the header).
func cap2(m *MapV) int { return cap(m.ents) - len(m.ents) }

func (w *Worker) mapDelete(m *MapV, kt types.Type, key Value) {
	if m == nil {
		return
	}
	e := w.mapFind(m, kt, key)
	if e == nil {
		return
	}
	oldEnts, oldN, oldSym := m.ents, m.n, m.nsym
	ne := make([]*MapEntry, 0, len(m.ents))
	for _, x := range m.ents {
		if x != e {
			ne = append(ne, x)
		}
	}
	e.dead = true
	m.ents = ne
	m.n--
	if e.ck != "" {
		delete(m.index, e.ck)
	} else {
		m.nsym--
	}
	m.tab = nil
	w.undo(func() {
		m.ents, m.n, m.nsym = oldEnts, oldN, oldSym
		e.dead = false
		if e.ck != "" {
			m.index[e.ck] = e
		}
		m.tab = nil
	})
}

// mapTab is a sorted table for symbolic lookups in a map from concrete
// integers to concrete scalars.
type mapTab struct {
	w    uint8 // key width
	vw   uint8
	runs []mapRun
}

type mapRun struct {
	lo, hi uint64 // inclusive key range
	val    uint64
	slope  bool // value = val + (key-lo), otherwise constant val
}
