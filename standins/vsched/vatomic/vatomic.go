// Package vatomic takes the place of sync/atomic in instrumented code.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/vsched"
)

func AddInt32(a *int32, d int32) int32  { vsched.Point(); return atomic.AddInt32(a, d) }
func LoadInt32(a *int32) int32          { vsched.Point(); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, v int32)      { vsched.Point(); atomic.StoreInt32(a, v) }
func SwapInt32(a *int32, v int32) int32 { vsched.Point(); return atomic.SwapInt32(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool {
	vsched.Point()
	return atomic.CompareAndSwapInt32(a, o, n)
}

// Int32 is an atomic int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Add(d int32) int32              { vsched.Point(); return x.v.Add(d) }
func (x *Int32) Load() int32                    { vsched.Point(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { vsched.Point(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { vsched.Point(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }

func AddInt64(a *int64, d int64) int64  { vsched.Point(); return atomic.AddInt64(a, d) }
func LoadInt64(a *int64) int64          { vsched.Point(); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, v int64)      { vsched.Point(); atomic.StoreInt64(a, v) }
func SwapInt64(a *int64, v int64) int64 { vsched.Point(); return atomic.SwapInt64(a, v) }
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	vsched.Point()
	return atomic.CompareAndSwapInt64(a, o, n)
}

// Int64 is an atomic int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Add(d int64) int64              { vsched.Point(); return x.v.Add(d) }
func (x *Int64) Load() int64                    { vsched.Point(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { vsched.Point(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { vsched.Point(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }

func AddUint32(a *uint32, d uint32) uint32  { vsched.Point(); return atomic.AddUint32(a, d) }
func LoadUint32(a *uint32) uint32           { vsched.Point(); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)       { vsched.Point(); atomic.StoreUint32(a, v) }
func SwapUint32(a *uint32, v uint32) uint32 { vsched.Point(); return atomic.SwapUint32(a, v) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	vsched.Point()
	return atomic.CompareAndSwapUint32(a, o, n)
}

// Uint32 is an atomic uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Add(d uint32) uint32             { vsched.Point(); return x.v.Add(d) }
func (x *Uint32) Load() uint32                    { vsched.Point(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { vsched.Point(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { vsched.Point(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }

func AddUint64(a *uint64, d uint64) uint64  { vsched.Point(); return atomic.AddUint64(a, d) }
func LoadUint64(a *uint64) uint64           { vsched.Point(); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)       { vsched.Point(); atomic.StoreUint64(a, v) }
func SwapUint64(a *uint64, v uint64) uint64 { vsched.Point(); return atomic.SwapUint64(a, v) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	vsched.Point()
	return atomic.CompareAndSwapUint64(a, o, n)
}

// Uint64 is an atomic uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Add(d uint64) uint64             { vsched.Point(); return x.v.Add(d) }
func (x *Uint64) Load() uint64                    { vsched.Point(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { vsched.Point(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { vsched.Point(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }

func AddUintptr(a *uintptr, d uintptr) uintptr  { vsched.Point(); return atomic.AddUintptr(a, d) }
func LoadUintptr(a *uintptr) uintptr            { vsched.Point(); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)        { vsched.Point(); atomic.StoreUintptr(a, v) }
func SwapUintptr(a *uintptr, v uintptr) uintptr { vsched.Point(); return atomic.SwapUintptr(a, v) }
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	vsched.Point()
	return atomic.CompareAndSwapUintptr(a, o, n)
}

// Uintptr is an atomic uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Add(d uintptr) uintptr            { vsched.Point(); return x.v.Add(d) }
func (x *Uintptr) Load() uintptr                    { vsched.Point(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { vsched.Point(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { vsched.Point(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }

// Bool is atomic.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { vsched.Point(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { vsched.Point(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { vsched.Point(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }

// Pointer is atomic.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vsched.Point(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { vsched.Point(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { vsched.Point(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }

// Value is atomic.
type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { vsched.Point(); return x.v.Load() }
func (x *Value) Store(v any)                  { vsched.Point(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { vsched.Point(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { vsched.Point(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { vsched.Point(); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { vsched.Point(); atomic.StorePointer(a, v) }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vsched.Point()
	return atomic.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vsched.Point()
	return atomic.CompareAndSwapPointer(a, o, n)
}
