// Package vatomic is sync/atomic with a yield point before every operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verifhook"
)

var _ unsafe.Pointer

func LoadInt32(p *int32) int32          { verifhook.Y("atomic.Load"); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { verifhook.Y("atomic.Store"); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, v int32) int32  { verifhook.Y("atomic.Add"); return atomic.AddInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { verifhook.Y("atomic.Swap"); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	verifhook.Y("atomic.CAS")
	return atomic.CompareAndSwapInt32(p, o, n)
}

// Int32 is atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { verifhook.Y("atomic.Load"); return x.v.Load() }
func (x *Int32) Store(v int32)      { verifhook.Y("atomic.Store"); x.v.Store(v) }
func (x *Int32) Add(v int32) int32  { verifhook.Y("atomic.Add"); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32 { verifhook.Y("atomic.Swap"); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	verifhook.Y("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}

func LoadInt64(p *int64) int64          { verifhook.Y("atomic.Load"); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { verifhook.Y("atomic.Store"); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, v int64) int64  { verifhook.Y("atomic.Add"); return atomic.AddInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { verifhook.Y("atomic.Swap"); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	verifhook.Y("atomic.CAS")
	return atomic.CompareAndSwapInt64(p, o, n)
}

// Int64 is atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { verifhook.Y("atomic.Load"); return x.v.Load() }
func (x *Int64) Store(v int64)      { verifhook.Y("atomic.Store"); x.v.Store(v) }
func (x *Int64) Add(v int64) int64  { verifhook.Y("atomic.Add"); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64 { verifhook.Y("atomic.Swap"); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	verifhook.Y("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}

func LoadUint32(p *uint32) uint32          { verifhook.Y("atomic.Load"); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)      { verifhook.Y("atomic.Store"); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32 { verifhook.Y("atomic.Add"); return atomic.AddUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 {
	verifhook.Y("atomic.Swap")
	return atomic.SwapUint32(p, v)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	verifhook.Y("atomic.CAS")
	return atomic.CompareAndSwapUint32(p, o, n)
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { verifhook.Y("atomic.Load"); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { verifhook.Y("atomic.Store"); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32  { verifhook.Y("atomic.Add"); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32 { verifhook.Y("atomic.Swap"); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	verifhook.Y("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}

func LoadUint64(p *uint64) uint64          { verifhook.Y("atomic.Load"); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)      { verifhook.Y("atomic.Store"); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64 { verifhook.Y("atomic.Add"); return atomic.AddUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 {
	verifhook.Y("atomic.Swap")
	return atomic.SwapUint64(p, v)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	verifhook.Y("atomic.CAS")
	return atomic.CompareAndSwapUint64(p, o, n)
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { verifhook.Y("atomic.Load"); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { verifhook.Y("atomic.Store"); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64  { verifhook.Y("atomic.Add"); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64 { verifhook.Y("atomic.Swap"); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	verifhook.Y("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}

func LoadUintptr(p *uintptr) uintptr     { verifhook.Y("atomic.Load"); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) { verifhook.Y("atomic.Store"); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr {
	verifhook.Y("atomic.Add")
	return atomic.AddUintptr(p, v)
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	verifhook.Y("atomic.Swap")
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	verifhook.Y("atomic.CAS")
	return atomic.CompareAndSwapUintptr(p, o, n)
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { verifhook.Y("atomic.Load"); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { verifhook.Y("atomic.Store"); x.v.Store(v) }
func (x *Uintptr) Add(v uintptr) uintptr  { verifhook.Y("atomic.Add"); return x.v.Add(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { verifhook.Y("atomic.Swap"); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	verifhook.Y("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}

// Bool is atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { verifhook.Y("atomic.Load"); return x.v.Load() }
func (x *Bool) Store(v bool)     { verifhook.Y("atomic.Store"); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { verifhook.Y("atomic.Swap"); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	verifhook.Y("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}

// Value is atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any      { verifhook.Y("atomic.Load"); return x.v.Load() }
func (x *Value) Store(v any)    { verifhook.Y("atomic.Store"); x.v.Store(v) }
func (x *Value) Swap(v any) any { verifhook.Y("atomic.Swap"); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool {
	verifhook.Y("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { verifhook.Y("atomic.Load"); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { verifhook.Y("atomic.Store"); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { verifhook.Y("atomic.Swap"); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	verifhook.Y("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	verifhook.Y("atomic.Load")
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	verifhook.Y("atomic.Store")
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	verifhook.Y("atomic.Swap")
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	verifhook.Y("atomic.CAS")
	return atomic.CompareAndSwapPointer(p, o, n)
}
