// Package atomic replaces sync/atomic: each operation is a scheduling point.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"verifsim/rt"
)

func ptr[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }

func AddInt32(p *int32, d int32) int32 {
	rt.YS()
	rt.Atomic(ptr(p), 4, true)
	return real.AddInt32(p, d)
}
func AddInt64(p *int64, d int64) int64 {
	rt.YS()
	rt.Atomic(ptr(p), 8, true)
	return real.AddInt64(p, d)
}
func AddUint32(p *uint32, d uint32) uint32 {
	rt.YS()
	rt.Atomic(ptr(p), 4, true)
	return real.AddUint32(p, d)
}
func AddUint64(p *uint64, d uint64) uint64 {
	rt.YS()
	rt.Atomic(ptr(p), 8, true)
	return real.AddUint64(p, d)
}
func LoadInt32(p *int32) int32        { rt.YS(); rt.Atomic(ptr(p), 4, false); return *p }
func LoadInt64(p *int64) int64        { rt.YS(); rt.Atomic(ptr(p), 8, false); return *p }
func LoadUint32(p *uint32) uint32     { rt.YS(); rt.Atomic(ptr(p), 4, false); return *p }
func LoadUint64(p *uint64) uint64     { rt.YS(); rt.Atomic(ptr(p), 8, false); return *p }
func StoreInt32(p *int32, v int32)    { rt.YS(); rt.Atomic(ptr(p), 4, true); *p = v }
func StoreInt64(p *int64, v int64)    { rt.YS(); rt.Atomic(ptr(p), 8, true); *p = v }
func StoreUint32(p *uint32, v uint32) { rt.YS(); rt.Atomic(ptr(p), 4, true); *p = v }
func StoreUint64(p *uint64, v uint64) { rt.YS(); rt.Atomic(ptr(p), 8, true); *p = v }
func SwapInt32(p *int32, v int32) int32 {
	rt.YS()
	rt.Atomic(ptr(p), 4, true)
	o := *p
	*p = v
	return o
}
func SwapInt64(p *int64, v int64) int64 {
	rt.YS()
	rt.Atomic(ptr(p), 8, true)
	o := *p
	*p = v
	return o
}
func SwapUint32(p *uint32, v uint32) uint32 {
	rt.YS()
	rt.Atomic(ptr(p), 4, true)
	o := *p
	*p = v
	return o
}
func SwapUint64(p *uint64, v uint64) uint64 {
	rt.YS()
	rt.Atomic(ptr(p), 8, true)
	o := *p
	*p = v
	return o
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	rt.YS()
	rt.Atomic(ptr(p), 4, true)
	return real.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	rt.YS()
	rt.Atomic(ptr(p), 8, true)
	return real.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	rt.YS()
	rt.Atomic(ptr(p), 4, true)
	return real.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	rt.YS()
	rt.Atomic(ptr(p), 8, true)
	return real.CompareAndSwapUint64(p, o, n)
}

type Value struct{ v real.Value }

func (x *Value) Load() any      { rt.YS(); rt.Atomic(ptr(x), 1, true); return x.v.Load() }
func (x *Value) Store(v any)    { rt.YS(); rt.Atomic(ptr(x), 1, true); x.v.Store(v) }
func (x *Value) Swap(v any) any { rt.YS(); rt.Atomic(ptr(x), 1, true); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool {
	rt.YS()
	rt.Atomic(ptr(x), 1, true)
	return x.v.CompareAndSwap(o, n)
}

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64
}

type cell[T num] struct{ v T }

func (c *cell[T]) Load() T    { rt.YS(); rt.Atomic(ptr(c), 1, true); return c.v }
func (c *cell[T]) Store(v T)  { rt.YS(); rt.Atomic(ptr(c), 1, true); c.v = v }
func (c *cell[T]) Add(d T) T  { rt.YS(); rt.Atomic(ptr(c), 1, true); c.v += d; return c.v }
func (c *cell[T]) Swap(v T) T { rt.YS(); rt.Atomic(ptr(c), 1, true); o := c.v; c.v = v; return o }
func (c *cell[T]) CompareAndSwap(o, n T) bool {
	rt.YS()
	rt.Atomic(ptr(c), 1, true)
	if c.v == o {
		c.v = n
		return true
	}
	return false
}

type Int32 struct{ cell[int32] }
type Int64 struct{ cell[int64] }
type Uint32 struct{ cell[uint32] }
type Uint64 struct{ cell[uint64] }
type Bool struct{ v bool }

func (c *Bool) Load() bool       { rt.YS(); rt.Atomic(ptr(c), 1, true); return c.v }
func (c *Bool) Store(v bool)     { rt.YS(); rt.Atomic(ptr(c), 1, true); c.v = v }
func (c *Bool) Swap(v bool) bool { rt.YS(); rt.Atomic(ptr(c), 1, true); o := c.v; c.v = v; return o }
func (c *Bool) CompareAndSwap(o, n bool) bool {
	rt.YS()
	rt.Atomic(ptr(c), 1, true)
	if c.v == o {
		c.v = n
		return true
	}
	return false
}

type Uintptr struct{ v uintptr }

func (c *Uintptr) Load() uintptr         { rt.YS(); rt.Atomic(ptr(c), 1, true); return c.v }
func (c *Uintptr) Store(v uintptr)       { rt.YS(); rt.Atomic(ptr(c), 1, true); c.v = v }
func (c *Uintptr) Add(d uintptr) uintptr { rt.YS(); rt.Atomic(ptr(c), 1, true); c.v += d; return c.v }
func (c *Uintptr) Swap(v uintptr) uintptr {
	rt.YS()
	rt.Atomic(ptr(c), 1, true)
	o := c.v
	c.v = v
	return o
}
func (c *Uintptr) CompareAndSwap(o, n uintptr) bool {
	rt.YS()
	rt.Atomic(ptr(c), 1, true)
	if c.v == o {
		c.v = n
		return true
	}
	return false
}

type Pointer[T any] struct{ p *T }

func (c *Pointer[T]) Load() *T   { rt.YS(); rt.Atomic(ptr(c), 1, true); return c.p }
func (c *Pointer[T]) Store(v *T) { rt.YS(); rt.Atomic(ptr(c), 1, true); c.p = v }
func (c *Pointer[T]) Swap(v *T) *T {
	rt.YS()
	rt.Atomic(ptr(c), 1, true)
	o := c.p
	c.p = v
	return o
}
func (c *Pointer[T]) CompareAndSwap(o, n *T) bool {
	rt.YS()
	rt.Atomic(ptr(c), 1, true)
	if c.p == o {
		c.p = n
		return true
	}
	return false
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { rt.YS(); rt.Atomic(ptr(p), 8, false); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { rt.YS(); rt.Atomic(ptr(p), 8, true); *p = v }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	rt.YS()
	rt.Atomic(ptr(p), 8, true)
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	rt.YS()
	rt.Atomic(ptr(p), 8, true)
	if *p == o {
		*p = n
		return true
	}
	return false
}
