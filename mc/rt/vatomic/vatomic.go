// Package vatomic replaces sync/atomic in instrumented code.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/mc/rt/sched"
)

func w(p unsafe.Pointer) {
	if sched.On() {
		sched.Write(p)
	}
}
func r(p unsafe.Pointer) {
	if sched.On() {
		sched.Read(p)
	}
}

func AddInt32(p *int32, d int32) int32     { w(unsafe.Pointer(p)); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64     { w(unsafe.Pointer(p)); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32 { w(unsafe.Pointer(p)); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64 { w(unsafe.Pointer(p)); return atomic.AddUint64(p, d) }
func LoadInt32(p *int32) int32             { r(unsafe.Pointer(p)); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64             { r(unsafe.Pointer(p)); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32          { r(unsafe.Pointer(p)); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64          { r(unsafe.Pointer(p)); return atomic.LoadUint64(p) }
func StoreInt32(p *int32, v int32)         { w(unsafe.Pointer(p)); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)         { w(unsafe.Pointer(p)); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)      { w(unsafe.Pointer(p)); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)      { w(unsafe.Pointer(p)); atomic.StoreUint64(p, v) }
func SwapInt32(p *int32, v int32) int32    { w(unsafe.Pointer(p)); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64    { w(unsafe.Pointer(p)); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	w(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	w(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	w(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	w(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint64(p, o, n)
}

// Int32 is atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (a *Int32) Load() int32        { r(unsafe.Pointer(a)); return a.v.Load() }
func (a *Int32) Store(v int32)      { w(unsafe.Pointer(a)); a.v.Store(v) }
func (a *Int32) Add(d int32) int32  { w(unsafe.Pointer(a)); return a.v.Add(d) }
func (a *Int32) Swap(v int32) int32 { w(unsafe.Pointer(a)); return a.v.Swap(v) }
func (a *Int32) CompareAndSwap(o, n int32) bool {
	w(unsafe.Pointer(a))
	return a.v.CompareAndSwap(o, n)
}

// Int64 is atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (a *Int64) Load() int64        { r(unsafe.Pointer(a)); return a.v.Load() }
func (a *Int64) Store(v int64)      { w(unsafe.Pointer(a)); a.v.Store(v) }
func (a *Int64) Add(d int64) int64  { w(unsafe.Pointer(a)); return a.v.Add(d) }
func (a *Int64) Swap(v int64) int64 { w(unsafe.Pointer(a)); return a.v.Swap(v) }
func (a *Int64) CompareAndSwap(o, n int64) bool {
	w(unsafe.Pointer(a))
	return a.v.CompareAndSwap(o, n)
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (a *Uint32) Load() uint32        { r(unsafe.Pointer(a)); return a.v.Load() }
func (a *Uint32) Store(v uint32)      { w(unsafe.Pointer(a)); a.v.Store(v) }
func (a *Uint32) Add(d uint32) uint32 { w(unsafe.Pointer(a)); return a.v.Add(d) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool {
	w(unsafe.Pointer(a))
	return a.v.CompareAndSwap(o, n)
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (a *Uint64) Load() uint64        { r(unsafe.Pointer(a)); return a.v.Load() }
func (a *Uint64) Store(v uint64)      { w(unsafe.Pointer(a)); a.v.Store(v) }
func (a *Uint64) Add(d uint64) uint64 { w(unsafe.Pointer(a)); return a.v.Add(d) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool {
	w(unsafe.Pointer(a))
	return a.v.CompareAndSwap(o, n)
}

// Bool is atomic.Bool.
type Bool struct{ v atomic.Bool }

func (a *Bool) Load() bool                    { r(unsafe.Pointer(a)); return a.v.Load() }
func (a *Bool) Store(v bool)                  { w(unsafe.Pointer(a)); a.v.Store(v) }
func (a *Bool) Swap(v bool) bool              { w(unsafe.Pointer(a)); return a.v.Swap(v) }
func (a *Bool) CompareAndSwap(o, n bool) bool { w(unsafe.Pointer(a)); return a.v.CompareAndSwap(o, n) }

// Value is atomic.Value.
type Value struct{ v atomic.Value }

func (a *Value) Load() interface{}              { r(unsafe.Pointer(a)); return a.v.Load() }
func (a *Value) Swap(v interface{}) interface{} { w(unsafe.Pointer(a)); return a.v.Swap(v) }
func (a *Value) CompareAndSwap(o, n interface{}) bool {
	w(unsafe.Pointer(a))
	return a.v.CompareAndSwap(o, n)
}
func (a *Value) Store(v interface{}) { w(unsafe.Pointer(a)); a.v.Store(v) }

func SwapUint32(p *uint32, v uint32) uint32 { w(unsafe.Pointer(p)); return atomic.SwapUint32(p, v) }

func SwapUint64(p *uint64, v uint64) uint64 { w(unsafe.Pointer(p)); return atomic.SwapUint64(p, v) }

func SwapUintptr(p *uintptr, v uintptr) uintptr {
	w(unsafe.Pointer(p))
	return atomic.SwapUintptr(p, v)
}

func AddUintptr(p *uintptr, d uintptr) uintptr { w(unsafe.Pointer(p)); return atomic.AddUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr           { r(unsafe.Pointer(p)); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)       { w(unsafe.Pointer(p)); atomic.StoreUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	w(unsafe.Pointer(p))
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	r(unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	w(unsafe.Pointer(p))
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	w(unsafe.Pointer(p))
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	w(unsafe.Pointer(p))
	return atomic.CompareAndSwapPointer(p, o, n)
}
