//go:build go1.21

// Package datomic stands in for package sync/atomic in instrumented code: every operation is
// preceded by a scheduling point.
package datomic

import (
	real "sync/atomic"
	"unsafe"

	"github.com/kitex-contrib/xds/verifsim/det"
)

func pt() { det.AtomicPoint() }

type Value struct{ v real.Value }

func (v *Value) Load() any                    { pt(); return v.v.Load() }
func (v *Value) Store(x any)                  { pt(); v.v.Store(x) }
func (v *Value) Swap(x any) any               { pt(); return v.v.Swap(x) }
func (v *Value) CompareAndSwap(o, n any) bool { pt(); return v.v.CompareAndSwap(o, n) }

type Bool struct{ v real.Bool }

func (v *Bool) Load() bool                    { pt(); return v.v.Load() }
func (v *Bool) Store(x bool)                  { pt(); v.v.Store(x) }
func (v *Bool) Swap(x bool) bool              { pt(); return v.v.Swap(x) }
func (v *Bool) CompareAndSwap(o, n bool) bool { pt(); return v.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v real.Pointer[T] }

func (v *Pointer[T]) Load() *T                    { pt(); return v.v.Load() }
func (v *Pointer[T]) Store(x *T)                  { pt(); v.v.Store(x) }
func (v *Pointer[T]) Swap(x *T) *T                { pt(); return v.v.Swap(x) }
func (v *Pointer[T]) CompareAndSwap(o, n *T) bool { pt(); return v.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(); return real.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(); real.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt()
	return real.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt()
	return real.CompareAndSwapPointer(p, o, n)
}

type Int32 struct{ v real.Int32 }

func (v *Int32) Load() int32                    { pt(); return v.v.Load() }
func (v *Int32) Store(x int32)                  { pt(); v.v.Store(x) }
func (v *Int32) Swap(x int32) int32             { pt(); return v.v.Swap(x) }
func (v *Int32) Add(x int32) int32              { pt(); return v.v.Add(x) }
func (v *Int32) CompareAndSwap(o, n int32) bool { pt(); return v.v.CompareAndSwap(o, n) }

func LoadInt32(p *int32) int32                      { pt(); return real.LoadInt32(p) }
func StoreInt32(p *int32, v int32)                  { pt(); real.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32             { pt(); return real.SwapInt32(p, v) }
func AddInt32(p *int32, v int32) int32              { pt(); return real.AddInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { pt(); return real.CompareAndSwapInt32(p, o, n) }

type Int64 struct{ v real.Int64 }

func (v *Int64) Load() int64                    { pt(); return v.v.Load() }
func (v *Int64) Store(x int64)                  { pt(); v.v.Store(x) }
func (v *Int64) Swap(x int64) int64             { pt(); return v.v.Swap(x) }
func (v *Int64) Add(x int64) int64              { pt(); return v.v.Add(x) }
func (v *Int64) CompareAndSwap(o, n int64) bool { pt(); return v.v.CompareAndSwap(o, n) }

func LoadInt64(p *int64) int64                      { pt(); return real.LoadInt64(p) }
func StoreInt64(p *int64, v int64)                  { pt(); real.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64             { pt(); return real.SwapInt64(p, v) }
func AddInt64(p *int64, v int64) int64              { pt(); return real.AddInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { pt(); return real.CompareAndSwapInt64(p, o, n) }

type Uint32 struct{ v real.Uint32 }

func (v *Uint32) Load() uint32                    { pt(); return v.v.Load() }
func (v *Uint32) Store(x uint32)                  { pt(); v.v.Store(x) }
func (v *Uint32) Swap(x uint32) uint32            { pt(); return v.v.Swap(x) }
func (v *Uint32) Add(x uint32) uint32             { pt(); return v.v.Add(x) }
func (v *Uint32) CompareAndSwap(o, n uint32) bool { pt(); return v.v.CompareAndSwap(o, n) }

func LoadUint32(p *uint32) uint32           { pt(); return real.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { pt(); real.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { pt(); return real.SwapUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { pt(); return real.AddUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt()
	return real.CompareAndSwapUint32(p, o, n)
}

type Uint64 struct{ v real.Uint64 }

func (v *Uint64) Load() uint64                    { pt(); return v.v.Load() }
func (v *Uint64) Store(x uint64)                  { pt(); v.v.Store(x) }
func (v *Uint64) Swap(x uint64) uint64            { pt(); return v.v.Swap(x) }
func (v *Uint64) Add(x uint64) uint64             { pt(); return v.v.Add(x) }
func (v *Uint64) CompareAndSwap(o, n uint64) bool { pt(); return v.v.CompareAndSwap(o, n) }

func LoadUint64(p *uint64) uint64           { pt(); return real.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { pt(); real.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { pt(); return real.SwapUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { pt(); return real.AddUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt()
	return real.CompareAndSwapUint64(p, o, n)
}

type Uintptr struct{ v real.Uintptr }

func (v *Uintptr) Load() uintptr                    { pt(); return v.v.Load() }
func (v *Uintptr) Store(x uintptr)                  { pt(); v.v.Store(x) }
func (v *Uintptr) Swap(x uintptr) uintptr           { pt(); return v.v.Swap(x) }
func (v *Uintptr) Add(x uintptr) uintptr            { pt(); return v.v.Add(x) }
func (v *Uintptr) CompareAndSwap(o, n uintptr) bool { pt(); return v.v.CompareAndSwap(o, n) }

func LoadUintptr(p *uintptr) uintptr            { pt(); return real.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { pt(); real.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pt(); return real.SwapUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr  { pt(); return real.AddUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt()
	return real.CompareAndSwapUintptr(p, o, n)
}
