// Package vatomic stands in for package sync/atomic in the instrumented build: the same
// operations with a schedule point before and after each, so that two atomic operations in one
// statement can be separated too.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/gostdlib/concurrency/zzverif/vsched"
)

// Site is the site number used for atomic operations.
const Site = vsched.AtomicSite

func y() { vsched.Y(Site) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any      { y(); r := x.v.Load(); y(); return r }
func (x *Value) Store(v any)    { y(); x.v.Store(v); y() }
func (x *Value) Swap(v any) any { y(); r := x.v.Swap(v); y(); return r }
func (x *Value) CompareAndSwap(o, n any) bool {
	y()
	r := x.v.CompareAndSwap(o, n)
	y()
	return r
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { y(); r := x.v.Load(); y(); return r }
func (x *Bool) Store(v bool)     { y(); x.v.Store(v); y() }
func (x *Bool) Swap(v bool) bool { y(); r := x.v.Swap(v); y(); return r }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	y()
	r := x.v.CompareAndSwap(o, n)
	y()
	return r
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { y(); r := x.v.Load(); y(); return r }
func (x *Pointer[T]) Store(v *T)   { y(); x.v.Store(v); y() }
func (x *Pointer[T]) Swap(v *T) *T { y(); r := x.v.Swap(v); y(); return r }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	y()
	r := x.v.CompareAndSwap(o, n)
	y()
	return r
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { y(); r := x.v.Load(); y(); return r }
func (x *Int32) Store(v int32)      { y(); x.v.Store(v); y() }
func (x *Int32) Swap(v int32) int32 { y(); r := x.v.Swap(v); y(); return r }
func (x *Int32) Add(d int32) int32  { y(); r := x.v.Add(d); y(); return r }
func (x *Int32) And(m int32) int32  { y(); r := x.v.And(m); y(); return r }
func (x *Int32) Or(m int32) int32   { y(); r := x.v.Or(m); y(); return r }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	y()
	r := x.v.CompareAndSwap(o, n)
	y()
	return r
}

func LoadInt32(p *int32) int32          { y(); r := atomic.LoadInt32(p); y(); return r }
func StoreInt32(p *int32, v int32)      { y(); atomic.StoreInt32(p, v); y() }
func SwapInt32(p *int32, v int32) int32 { y(); r := atomic.SwapInt32(p, v); y(); return r }
func AddInt32(p *int32, d int32) int32  { y(); r := atomic.AddInt32(p, d); y(); return r }
func AndInt32(p *int32, m int32) int32  { y(); r := atomic.AndInt32(p, m); y(); return r }
func OrInt32(p *int32, m int32) int32   { y(); r := atomic.OrInt32(p, m); y(); return r }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	y()
	r := atomic.CompareAndSwapInt32(p, o, n)
	y()
	return r
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { y(); r := x.v.Load(); y(); return r }
func (x *Int64) Store(v int64)      { y(); x.v.Store(v); y() }
func (x *Int64) Swap(v int64) int64 { y(); r := x.v.Swap(v); y(); return r }
func (x *Int64) Add(d int64) int64  { y(); r := x.v.Add(d); y(); return r }
func (x *Int64) And(m int64) int64  { y(); r := x.v.And(m); y(); return r }
func (x *Int64) Or(m int64) int64   { y(); r := x.v.Or(m); y(); return r }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	y()
	r := x.v.CompareAndSwap(o, n)
	y()
	return r
}

func LoadInt64(p *int64) int64          { y(); r := atomic.LoadInt64(p); y(); return r }
func StoreInt64(p *int64, v int64)      { y(); atomic.StoreInt64(p, v); y() }
func SwapInt64(p *int64, v int64) int64 { y(); r := atomic.SwapInt64(p, v); y(); return r }
func AddInt64(p *int64, d int64) int64  { y(); r := atomic.AddInt64(p, d); y(); return r }
func AndInt64(p *int64, m int64) int64  { y(); r := atomic.AndInt64(p, m); y(); return r }
func OrInt64(p *int64, m int64) int64   { y(); r := atomic.OrInt64(p, m); y(); return r }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	y()
	r := atomic.CompareAndSwapInt64(p, o, n)
	y()
	return r
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { y(); r := x.v.Load(); y(); return r }
func (x *Uint32) Store(v uint32)       { y(); x.v.Store(v); y() }
func (x *Uint32) Swap(v uint32) uint32 { y(); r := x.v.Swap(v); y(); return r }
func (x *Uint32) Add(d uint32) uint32  { y(); r := x.v.Add(d); y(); return r }
func (x *Uint32) And(m uint32) uint32  { y(); r := x.v.And(m); y(); return r }
func (x *Uint32) Or(m uint32) uint32   { y(); r := x.v.Or(m); y(); return r }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	y()
	r := x.v.CompareAndSwap(o, n)
	y()
	return r
}

func LoadUint32(p *uint32) uint32           { y(); r := atomic.LoadUint32(p); y(); return r }
func StoreUint32(p *uint32, v uint32)       { y(); atomic.StoreUint32(p, v); y() }
func SwapUint32(p *uint32, v uint32) uint32 { y(); r := atomic.SwapUint32(p, v); y(); return r }
func AddUint32(p *uint32, d uint32) uint32  { y(); r := atomic.AddUint32(p, d); y(); return r }
func AndUint32(p *uint32, m uint32) uint32  { y(); r := atomic.AndUint32(p, m); y(); return r }
func OrUint32(p *uint32, m uint32) uint32   { y(); r := atomic.OrUint32(p, m); y(); return r }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	y()
	r := atomic.CompareAndSwapUint32(p, o, n)
	y()
	return r
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { y(); r := x.v.Load(); y(); return r }
func (x *Uint64) Store(v uint64)       { y(); x.v.Store(v); y() }
func (x *Uint64) Swap(v uint64) uint64 { y(); r := x.v.Swap(v); y(); return r }
func (x *Uint64) Add(d uint64) uint64  { y(); r := x.v.Add(d); y(); return r }
func (x *Uint64) And(m uint64) uint64  { y(); r := x.v.And(m); y(); return r }
func (x *Uint64) Or(m uint64) uint64   { y(); r := x.v.Or(m); y(); return r }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	y()
	r := x.v.CompareAndSwap(o, n)
	y()
	return r
}

func LoadUint64(p *uint64) uint64           { y(); r := atomic.LoadUint64(p); y(); return r }
func StoreUint64(p *uint64, v uint64)       { y(); atomic.StoreUint64(p, v); y() }
func SwapUint64(p *uint64, v uint64) uint64 { y(); r := atomic.SwapUint64(p, v); y(); return r }
func AddUint64(p *uint64, d uint64) uint64  { y(); r := atomic.AddUint64(p, d); y(); return r }
func AndUint64(p *uint64, m uint64) uint64  { y(); r := atomic.AndUint64(p, m); y(); return r }
func OrUint64(p *uint64, m uint64) uint64   { y(); r := atomic.OrUint64(p, m); y(); return r }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	y()
	r := atomic.CompareAndSwapUint64(p, o, n)
	y()
	return r
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { y(); r := x.v.Load(); y(); return r }
func (x *Uintptr) Store(v uintptr)        { y(); x.v.Store(v); y() }
func (x *Uintptr) Swap(v uintptr) uintptr { y(); r := x.v.Swap(v); y(); return r }
func (x *Uintptr) Add(d uintptr) uintptr  { y(); r := x.v.Add(d); y(); return r }
func (x *Uintptr) And(m uintptr) uintptr  { y(); r := x.v.And(m); y(); return r }
func (x *Uintptr) Or(m uintptr) uintptr   { y(); r := x.v.Or(m); y(); return r }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	y()
	r := x.v.CompareAndSwap(o, n)
	y()
	return r
}

func LoadUintptr(p *uintptr) uintptr            { y(); r := atomic.LoadUintptr(p); y(); return r }
func StoreUintptr(p *uintptr, v uintptr)        { y(); atomic.StoreUintptr(p, v); y() }
func SwapUintptr(p *uintptr, v uintptr) uintptr { y(); r := atomic.SwapUintptr(p, v); y(); return r }
func AddUintptr(p *uintptr, d uintptr) uintptr  { y(); r := atomic.AddUintptr(p, d); y(); return r }
func AndUintptr(p *uintptr, m uintptr) uintptr  { y(); r := atomic.AndUintptr(p, m); y(); return r }
func OrUintptr(p *uintptr, m uintptr) uintptr   { y(); r := atomic.OrUintptr(p, m); y(); return r }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	y()
	r := atomic.CompareAndSwapUintptr(p, o, n)
	y()
	return r
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { y(); r := atomic.LoadPointer(p); y(); return r }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { y(); atomic.StorePointer(p, v); y() }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	y()
	r := atomic.SwapPointer(p, v)
	y()
	return r
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	y()
	r := atomic.CompareAndSwapPointer(p, o, n)
	y()
	return r
}
