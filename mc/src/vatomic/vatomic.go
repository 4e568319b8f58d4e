// Package vatomic stands in for sync/atomic: every operation is a scheduling
// point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"gRedis/zzverif/vrt"
)

func r(p unsafe.Pointer) { vrt.Atomic(p, false) }
func w(p unsafe.Pointer) { vrt.Atomic(p, true) }

func LoadInt32(p *int32) int32          { r(unsafe.Pointer(p)); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { w(unsafe.Pointer(p)); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32  { w(unsafe.Pointer(p)); return atomic.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32 { w(unsafe.Pointer(p)); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	w(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { r(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int32) Store(v int32)      { w(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Int32) Add(d int32) int32  { w(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32 { w(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	w(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func LoadInt64(p *int64) int64          { r(unsafe.Pointer(p)); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { w(unsafe.Pointer(p)); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64  { w(unsafe.Pointer(p)); return atomic.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64 { w(unsafe.Pointer(p)); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	w(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { r(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int64) Store(v int64)      { w(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Int64) Add(d int64) int64  { w(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64 { w(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	w(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func LoadUint32(p *uint32) uint32           { r(unsafe.Pointer(p)); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { w(unsafe.Pointer(p)); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { w(unsafe.Pointer(p)); return atomic.AddUint32(p, d) }
func SwapUint32(p *uint32, v uint32) uint32 { w(unsafe.Pointer(p)); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	w(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { r(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { w(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32  { w(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32 { w(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	w(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func LoadUint64(p *uint64) uint64           { r(unsafe.Pointer(p)); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { w(unsafe.Pointer(p)); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { w(unsafe.Pointer(p)); return atomic.AddUint64(p, d) }
func SwapUint64(p *uint64, v uint64) uint64 { w(unsafe.Pointer(p)); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	w(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { r(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { w(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64  { w(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64 { w(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	w(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func LoadUintptr(p *uintptr) uintptr           { r(unsafe.Pointer(p)); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)       { w(unsafe.Pointer(p)); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr { w(unsafe.Pointer(p)); return atomic.AddUintptr(p, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	w(unsafe.Pointer(p))
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	w(unsafe.Pointer(p))
	return atomic.CompareAndSwapUintptr(p, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { r(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { w(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uintptr) Add(d uintptr) uintptr  { w(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Uintptr) Swap(v uintptr) uintptr { w(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	w(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { r(unsafe.Pointer(x)); return x.v.Load() }
func (x *Bool) Store(v bool)                  { w(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { w(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { w(unsafe.Pointer(x)); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { r(unsafe.Pointer(x)); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { w(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { w(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	w(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { r(unsafe.Pointer(x)); return x.v.Load() }
func (x *Value) Store(v any)                  { w(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Value) Swap(v any) any               { w(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { w(unsafe.Pointer(x)); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	r(unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	w(unsafe.Pointer(p))
	atomic.StorePointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	w(unsafe.Pointer(p))
	return atomic.CompareAndSwapPointer(p, o, n)
}
