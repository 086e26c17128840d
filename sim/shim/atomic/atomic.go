// Package atomic is the simulated replacement for sync/atomic: every operation
// is a scheduling point followed by the real operation.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"zsim/rt"
)

// Value as in sync/atomic.
type Value struct{ v real.Value }

func (v *Value) Load() any                    { rt.Point(); return v.v.Load() }
func (v *Value) Store(x any)                  { rt.Point(); v.v.Store(x) }
func (v *Value) Swap(x any) any               { rt.Point(); return v.v.Swap(x) }
func (v *Value) CompareAndSwap(o, n any) bool { rt.Point(); return v.v.CompareAndSwap(o, n) }

// Bool as in sync/atomic.
type Bool struct{ v real.Bool }

func (v *Bool) Load() bool                    { rt.Point(); return v.v.Load() }
func (v *Bool) Store(x bool)                  { rt.Point(); v.v.Store(x) }
func (v *Bool) Swap(x bool) bool              { rt.Point(); return v.v.Swap(x) }
func (v *Bool) CompareAndSwap(o, n bool) bool { rt.Point(); return v.v.CompareAndSwap(o, n) }

// Pointer as in sync/atomic.
type Pointer[T any] struct{ v real.Pointer[T] }

func (v *Pointer[T]) Load() *T                    { rt.Point(); return v.v.Load() }
func (v *Pointer[T]) Store(x *T)                  { rt.Point(); v.v.Store(x) }
func (v *Pointer[T]) Swap(x *T) *T                { rt.Point(); return v.v.Swap(x) }
func (v *Pointer[T]) CompareAndSwap(o, n *T) bool { rt.Point(); return v.v.CompareAndSwap(o, n) }

// Int32 as in sync/atomic.
type Int32 struct{ v real.Int32 }

func (v *Int32) Load() int32                    { rt.Point(); return v.v.Load() }
func (v *Int32) Store(x int32)                  { rt.Point(); v.v.Store(x) }
func (v *Int32) Swap(x int32) int32             { rt.Point(); return v.v.Swap(x) }
func (v *Int32) CompareAndSwap(o, n int32) bool { rt.Point(); return v.v.CompareAndSwap(o, n) }
func (v *Int32) Add(d int32) int32              { rt.Point(); return v.v.Add(d) }
func (v *Int32) And(m int32) int32              { rt.Point(); return v.v.And(m) }
func (v *Int32) Or(m int32) int32               { rt.Point(); return v.v.Or(m) }

func LoadInt32(p *int32) int32          { rt.Point(); return real.LoadInt32(p) }
func StoreInt32(p *int32, x int32)      { rt.Point(); real.StoreInt32(p, x) }
func SwapInt32(p *int32, x int32) int32 { rt.Point(); return real.SwapInt32(p, x) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	rt.Point()
	return real.CompareAndSwapInt32(p, o, n)
}
func AddInt32(p *int32, d int32) int32 { rt.Point(); return real.AddInt32(p, d) }
func AndInt32(p *int32, m int32) int32 { rt.Point(); return real.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32  { rt.Point(); return real.OrInt32(p, m) }

// Int64 as in sync/atomic.
type Int64 struct{ v real.Int64 }

func (v *Int64) Load() int64                    { rt.Point(); return v.v.Load() }
func (v *Int64) Store(x int64)                  { rt.Point(); v.v.Store(x) }
func (v *Int64) Swap(x int64) int64             { rt.Point(); return v.v.Swap(x) }
func (v *Int64) CompareAndSwap(o, n int64) bool { rt.Point(); return v.v.CompareAndSwap(o, n) }
func (v *Int64) Add(d int64) int64              { rt.Point(); return v.v.Add(d) }
func (v *Int64) And(m int64) int64              { rt.Point(); return v.v.And(m) }
func (v *Int64) Or(m int64) int64               { rt.Point(); return v.v.Or(m) }

func LoadInt64(p *int64) int64          { rt.Point(); return real.LoadInt64(p) }
func StoreInt64(p *int64, x int64)      { rt.Point(); real.StoreInt64(p, x) }
func SwapInt64(p *int64, x int64) int64 { rt.Point(); return real.SwapInt64(p, x) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	rt.Point()
	return real.CompareAndSwapInt64(p, o, n)
}
func AddInt64(p *int64, d int64) int64 { rt.Point(); return real.AddInt64(p, d) }
func AndInt64(p *int64, m int64) int64 { rt.Point(); return real.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64  { rt.Point(); return real.OrInt64(p, m) }

// Uint32 as in sync/atomic.
type Uint32 struct{ v real.Uint32 }

func (v *Uint32) Load() uint32                    { rt.Point(); return v.v.Load() }
func (v *Uint32) Store(x uint32)                  { rt.Point(); v.v.Store(x) }
func (v *Uint32) Swap(x uint32) uint32            { rt.Point(); return v.v.Swap(x) }
func (v *Uint32) CompareAndSwap(o, n uint32) bool { rt.Point(); return v.v.CompareAndSwap(o, n) }
func (v *Uint32) Add(d uint32) uint32             { rt.Point(); return v.v.Add(d) }
func (v *Uint32) And(m uint32) uint32             { rt.Point(); return v.v.And(m) }
func (v *Uint32) Or(m uint32) uint32              { rt.Point(); return v.v.Or(m) }

func LoadUint32(p *uint32) uint32           { rt.Point(); return real.LoadUint32(p) }
func StoreUint32(p *uint32, x uint32)       { rt.Point(); real.StoreUint32(p, x) }
func SwapUint32(p *uint32, x uint32) uint32 { rt.Point(); return real.SwapUint32(p, x) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	rt.Point()
	return real.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, d uint32) uint32 { rt.Point(); return real.AddUint32(p, d) }
func AndUint32(p *uint32, m uint32) uint32 { rt.Point(); return real.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { rt.Point(); return real.OrUint32(p, m) }

// Uint64 as in sync/atomic.
type Uint64 struct{ v real.Uint64 }

func (v *Uint64) Load() uint64                    { rt.Point(); return v.v.Load() }
func (v *Uint64) Store(x uint64)                  { rt.Point(); v.v.Store(x) }
func (v *Uint64) Swap(x uint64) uint64            { rt.Point(); return v.v.Swap(x) }
func (v *Uint64) CompareAndSwap(o, n uint64) bool { rt.Point(); return v.v.CompareAndSwap(o, n) }
func (v *Uint64) Add(d uint64) uint64             { rt.Point(); return v.v.Add(d) }
func (v *Uint64) And(m uint64) uint64             { rt.Point(); return v.v.And(m) }
func (v *Uint64) Or(m uint64) uint64              { rt.Point(); return v.v.Or(m) }

func LoadUint64(p *uint64) uint64           { rt.Point(); return real.LoadUint64(p) }
func StoreUint64(p *uint64, x uint64)       { rt.Point(); real.StoreUint64(p, x) }
func SwapUint64(p *uint64, x uint64) uint64 { rt.Point(); return real.SwapUint64(p, x) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	rt.Point()
	return real.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, d uint64) uint64 { rt.Point(); return real.AddUint64(p, d) }
func AndUint64(p *uint64, m uint64) uint64 { rt.Point(); return real.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { rt.Point(); return real.OrUint64(p, m) }

// Uintptr as in sync/atomic.
type Uintptr struct{ v real.Uintptr }

func (v *Uintptr) Load() uintptr                    { rt.Point(); return v.v.Load() }
func (v *Uintptr) Store(x uintptr)                  { rt.Point(); v.v.Store(x) }
func (v *Uintptr) Swap(x uintptr) uintptr           { rt.Point(); return v.v.Swap(x) }
func (v *Uintptr) CompareAndSwap(o, n uintptr) bool { rt.Point(); return v.v.CompareAndSwap(o, n) }
func (v *Uintptr) Add(d uintptr) uintptr            { rt.Point(); return v.v.Add(d) }
func (v *Uintptr) And(m uintptr) uintptr            { rt.Point(); return v.v.And(m) }
func (v *Uintptr) Or(m uintptr) uintptr             { rt.Point(); return v.v.Or(m) }

func LoadUintptr(p *uintptr) uintptr            { rt.Point(); return real.LoadUintptr(p) }
func StoreUintptr(p *uintptr, x uintptr)        { rt.Point(); real.StoreUintptr(p, x) }
func SwapUintptr(p *uintptr, x uintptr) uintptr { rt.Point(); return real.SwapUintptr(p, x) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	rt.Point()
	return real.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, d uintptr) uintptr { rt.Point(); return real.AddUintptr(p, d) }
func AndUintptr(p *uintptr, m uintptr) uintptr { rt.Point(); return real.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { rt.Point(); return real.OrUintptr(p, m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { rt.Point(); return real.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, x unsafe.Pointer) { rt.Point(); real.StorePointer(p, x) }
func SwapPointer(p *unsafe.Pointer, x unsafe.Pointer) unsafe.Pointer {
	rt.Point()
	return real.SwapPointer(p, x)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	rt.Point()
	return real.CompareAndSwapPointer(p, o, n)
}
