// Package atomic stands for the standard package in replays of schedules.
package atomic

import (
	"sync/atomic"

	"vph/vp"
)

func AddInt32(p *int32, d int32) int32  { vp.Point(); return atomic.AddInt32(p, d) }
func LoadInt32(p *int32) int32          { vp.Point(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { vp.Point(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { vp.Point(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	vp.Point()
	return atomic.CompareAndSwapInt32(p, o, v)
}

// Int32 is scheduled by the record.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Add(d int32) int32              { vp.Point(); return x.v.Add(d) }
func (x *Int32) Load() int32                    { vp.Point(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { vp.Point(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { vp.Point(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { vp.Point(); return x.v.CompareAndSwap(o, v) }

func AddInt64(p *int64, d int64) int64  { vp.Point(); return atomic.AddInt64(p, d) }
func LoadInt64(p *int64) int64          { vp.Point(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { vp.Point(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { vp.Point(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	vp.Point()
	return atomic.CompareAndSwapInt64(p, o, v)
}

// Int64 is scheduled by the record.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Add(d int64) int64              { vp.Point(); return x.v.Add(d) }
func (x *Int64) Load() int64                    { vp.Point(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { vp.Point(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { vp.Point(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { vp.Point(); return x.v.CompareAndSwap(o, v) }

func AddUint32(p *uint32, d uint32) uint32  { vp.Point(); return atomic.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32           { vp.Point(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { vp.Point(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { vp.Point(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	vp.Point()
	return atomic.CompareAndSwapUint32(p, o, v)
}

// Uint32 is scheduled by the record.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Add(d uint32) uint32             { vp.Point(); return x.v.Add(d) }
func (x *Uint32) Load() uint32                    { vp.Point(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { vp.Point(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { vp.Point(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { vp.Point(); return x.v.CompareAndSwap(o, v) }

func AddUint64(p *uint64, d uint64) uint64  { vp.Point(); return atomic.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64           { vp.Point(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { vp.Point(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { vp.Point(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	vp.Point()
	return atomic.CompareAndSwapUint64(p, o, v)
}

// Uint64 is scheduled by the record.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Add(d uint64) uint64             { vp.Point(); return x.v.Add(d) }
func (x *Uint64) Load() uint64                    { vp.Point(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { vp.Point(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { vp.Point(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { vp.Point(); return x.v.CompareAndSwap(o, v) }

// Bool is scheduled by the record.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool   { vp.Point(); return x.v.Load() }
func (x *Bool) Store(v bool) { vp.Point(); x.v.Store(v) }

// Value is scheduled by the record.
type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}   { vp.Point(); return x.v.Load() }
func (x *Value) Store(v interface{}) { vp.Point(); x.v.Store(v) }

// Pointer is scheduled by the record.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T   { vp.Point(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T) { vp.Point(); x.v.Store(v) }

func (x *Bool) Swap(v bool) bool              { vp.Point(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, v bool) bool { vp.Point(); return x.v.CompareAndSwap(o, v) }

func (x *Value) Swap(v interface{}) interface{}       { vp.Point(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, v interface{}) bool { vp.Point(); return x.v.CompareAndSwap(o, v) }

func (x *Pointer[T]) Swap(v *T) *T                { vp.Point(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool { vp.Point(); return x.v.CompareAndSwap(o, v) }
