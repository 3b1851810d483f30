// Package vatomic has the API of sync/atomic; every operation is a vsched
// scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/harness/vsched"
)

func LoadInt32(addr *int32) int32 { vsched.Yield(); return atomic.LoadInt32(addr) }

func StoreInt32(addr *int32, val int32) { vsched.Yield(); atomic.StoreInt32(addr, val) }

func SwapInt32(addr *int32, val int32) int32 { vsched.Yield(); return atomic.SwapInt32(addr, val) }

func CompareAndSwapInt32(addr *int32, old, new int32) bool {
	vsched.Yield()
	return atomic.CompareAndSwapInt32(addr, old, new)
}

func AddInt32(addr *int32, delta int32) int32 { vsched.Yield(); return atomic.AddInt32(addr, delta) }

func AndInt32(addr *int32, mask int32) int32 { vsched.Yield(); return atomic.AndInt32(addr, mask) }

func OrInt32(addr *int32, mask int32) int32 { vsched.Yield(); return atomic.OrInt32(addr, mask) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32 { vsched.Yield(); return x.v.Load() }

func (x *Int32) Store(val int32) { vsched.Yield(); x.v.Store(val) }

func (x *Int32) Swap(val int32) int32 { vsched.Yield(); return x.v.Swap(val) }

func (x *Int32) CompareAndSwap(old, new int32) bool {
	vsched.Yield()
	return x.v.CompareAndSwap(old, new)
}

func (x *Int32) Add(delta int32) int32 { vsched.Yield(); return x.v.Add(delta) }

func (x *Int32) And(mask int32) int32 { vsched.Yield(); return x.v.And(mask) }

func (x *Int32) Or(mask int32) int32 { vsched.Yield(); return x.v.Or(mask) }

func LoadInt64(addr *int64) int64 { vsched.Yield(); return atomic.LoadInt64(addr) }

func StoreInt64(addr *int64, val int64) { vsched.Yield(); atomic.StoreInt64(addr, val) }

func SwapInt64(addr *int64, val int64) int64 { vsched.Yield(); return atomic.SwapInt64(addr, val) }

func CompareAndSwapInt64(addr *int64, old, new int64) bool {
	vsched.Yield()
	return atomic.CompareAndSwapInt64(addr, old, new)
}

func AddInt64(addr *int64, delta int64) int64 { vsched.Yield(); return atomic.AddInt64(addr, delta) }

func AndInt64(addr *int64, mask int64) int64 { vsched.Yield(); return atomic.AndInt64(addr, mask) }

func OrInt64(addr *int64, mask int64) int64 { vsched.Yield(); return atomic.OrInt64(addr, mask) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64 { vsched.Yield(); return x.v.Load() }

func (x *Int64) Store(val int64) { vsched.Yield(); x.v.Store(val) }

func (x *Int64) Swap(val int64) int64 { vsched.Yield(); return x.v.Swap(val) }

func (x *Int64) CompareAndSwap(old, new int64) bool {
	vsched.Yield()
	return x.v.CompareAndSwap(old, new)
}

func (x *Int64) Add(delta int64) int64 { vsched.Yield(); return x.v.Add(delta) }

func (x *Int64) And(mask int64) int64 { vsched.Yield(); return x.v.And(mask) }

func (x *Int64) Or(mask int64) int64 { vsched.Yield(); return x.v.Or(mask) }

func LoadUint32(addr *uint32) uint32 { vsched.Yield(); return atomic.LoadUint32(addr) }

func StoreUint32(addr *uint32, val uint32) { vsched.Yield(); atomic.StoreUint32(addr, val) }

func SwapUint32(addr *uint32, val uint32) uint32 { vsched.Yield(); return atomic.SwapUint32(addr, val) }

func CompareAndSwapUint32(addr *uint32, old, new uint32) bool {
	vsched.Yield()
	return atomic.CompareAndSwapUint32(addr, old, new)
}

func AddUint32(addr *uint32, delta uint32) uint32 {
	vsched.Yield()
	return atomic.AddUint32(addr, delta)
}

func AndUint32(addr *uint32, mask uint32) uint32 { vsched.Yield(); return atomic.AndUint32(addr, mask) }

func OrUint32(addr *uint32, mask uint32) uint32 { vsched.Yield(); return atomic.OrUint32(addr, mask) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32 { vsched.Yield(); return x.v.Load() }

func (x *Uint32) Store(val uint32) { vsched.Yield(); x.v.Store(val) }

func (x *Uint32) Swap(val uint32) uint32 { vsched.Yield(); return x.v.Swap(val) }

func (x *Uint32) CompareAndSwap(old, new uint32) bool {
	vsched.Yield()
	return x.v.CompareAndSwap(old, new)
}

func (x *Uint32) Add(delta uint32) uint32 { vsched.Yield(); return x.v.Add(delta) }

func (x *Uint32) And(mask uint32) uint32 { vsched.Yield(); return x.v.And(mask) }

func (x *Uint32) Or(mask uint32) uint32 { vsched.Yield(); return x.v.Or(mask) }

func LoadUint64(addr *uint64) uint64 { vsched.Yield(); return atomic.LoadUint64(addr) }

func StoreUint64(addr *uint64, val uint64) { vsched.Yield(); atomic.StoreUint64(addr, val) }

func SwapUint64(addr *uint64, val uint64) uint64 { vsched.Yield(); return atomic.SwapUint64(addr, val) }

func CompareAndSwapUint64(addr *uint64, old, new uint64) bool {
	vsched.Yield()
	return atomic.CompareAndSwapUint64(addr, old, new)
}

func AddUint64(addr *uint64, delta uint64) uint64 {
	vsched.Yield()
	return atomic.AddUint64(addr, delta)
}

func AndUint64(addr *uint64, mask uint64) uint64 { vsched.Yield(); return atomic.AndUint64(addr, mask) }

func OrUint64(addr *uint64, mask uint64) uint64 { vsched.Yield(); return atomic.OrUint64(addr, mask) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64 { vsched.Yield(); return x.v.Load() }

func (x *Uint64) Store(val uint64) { vsched.Yield(); x.v.Store(val) }

func (x *Uint64) Swap(val uint64) uint64 { vsched.Yield(); return x.v.Swap(val) }

func (x *Uint64) CompareAndSwap(old, new uint64) bool {
	vsched.Yield()
	return x.v.CompareAndSwap(old, new)
}

func (x *Uint64) Add(delta uint64) uint64 { vsched.Yield(); return x.v.Add(delta) }

func (x *Uint64) And(mask uint64) uint64 { vsched.Yield(); return x.v.And(mask) }

func (x *Uint64) Or(mask uint64) uint64 { vsched.Yield(); return x.v.Or(mask) }

func LoadUintptr(addr *uintptr) uintptr { vsched.Yield(); return atomic.LoadUintptr(addr) }

func StoreUintptr(addr *uintptr, val uintptr) { vsched.Yield(); atomic.StoreUintptr(addr, val) }

func SwapUintptr(addr *uintptr, val uintptr) uintptr {
	vsched.Yield()
	return atomic.SwapUintptr(addr, val)
}

func CompareAndSwapUintptr(addr *uintptr, old, new uintptr) bool {
	vsched.Yield()
	return atomic.CompareAndSwapUintptr(addr, old, new)
}

func AddUintptr(addr *uintptr, delta uintptr) uintptr {
	vsched.Yield()
	return atomic.AddUintptr(addr, delta)
}

func AndUintptr(addr *uintptr, mask uintptr) uintptr {
	vsched.Yield()
	return atomic.AndUintptr(addr, mask)
}

func OrUintptr(addr *uintptr, mask uintptr) uintptr {
	vsched.Yield()
	return atomic.OrUintptr(addr, mask)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr { vsched.Yield(); return x.v.Load() }

func (x *Uintptr) Store(val uintptr) { vsched.Yield(); x.v.Store(val) }

func (x *Uintptr) Swap(val uintptr) uintptr { vsched.Yield(); return x.v.Swap(val) }

func (x *Uintptr) CompareAndSwap(old, new uintptr) bool {
	vsched.Yield()
	return x.v.CompareAndSwap(old, new)
}

func (x *Uintptr) Add(delta uintptr) uintptr { vsched.Yield(); return x.v.Add(delta) }

func (x *Uintptr) And(mask uintptr) uintptr { vsched.Yield(); return x.v.And(mask) }

func (x *Uintptr) Or(mask uintptr) uintptr { vsched.Yield(); return x.v.Or(mask) }

func LoadPointer(addr *unsafe.Pointer) unsafe.Pointer {
	vsched.Yield()
	return atomic.LoadPointer(addr)
}

func StorePointer(addr *unsafe.Pointer, val unsafe.Pointer) {
	vsched.Yield()
	atomic.StorePointer(addr, val)
}

func SwapPointer(addr *unsafe.Pointer, val unsafe.Pointer) unsafe.Pointer {
	vsched.Yield()
	return atomic.SwapPointer(addr, val)
}

func CompareAndSwapPointer(addr *unsafe.Pointer, old, new unsafe.Pointer) bool {
	vsched.Yield()
	return atomic.CompareAndSwapPointer(addr, old, new)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool { vsched.Yield(); return x.v.Load() }

func (x *Bool) Store(val bool) { vsched.Yield(); x.v.Store(val) }

func (x *Bool) Swap(val bool) bool { vsched.Yield(); return x.v.Swap(val) }

func (x *Bool) CompareAndSwap(old, new bool) bool {
	vsched.Yield()
	return x.v.CompareAndSwap(old, new)
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any { vsched.Yield(); return x.v.Load() }

func (x *Value) Store(val any) { vsched.Yield(); x.v.Store(val) }

func (x *Value) Swap(val any) any { vsched.Yield(); return x.v.Swap(val) }

func (x *Value) CompareAndSwap(old, new any) bool {
	vsched.Yield()
	return x.v.CompareAndSwap(old, new)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T { vsched.Yield(); return x.v.Load() }

func (x *Pointer[T]) Store(val *T) { vsched.Yield(); x.v.Store(val) }

func (x *Pointer[T]) Swap(val *T) *T { vsched.Yield(); return x.v.Swap(val) }

func (x *Pointer[T]) CompareAndSwap(old, new *T) bool {
	vsched.Yield()
	return x.v.CompareAndSwap(old, new)
}
