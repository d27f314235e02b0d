// Package atomic is the simulated stand-in for sync/atomic.
package atomic

import (
	"unsafe"
	"verifsim/sim"
)

func op() { sim.Op(-60) }

func AddInt32(p *int32, d int32) int32       { op(); *p += d; return *p }
func AddInt64(p *int64, d int64) int64       { op(); *p += d; return *p }
func AddUint32(p *uint32, d uint32) uint32   { op(); *p += d; return *p }
func AddUint64(p *uint64, d uint64) uint64   { op(); *p += d; return *p }
func AddUintptr(p *uintptr, d uintptr) uintptr { op(); *p += d; return *p }
func LoadInt32(p *int32) int32               { op(); return *p }
func LoadInt64(p *int64) int64               { op(); return *p }
func LoadUint32(p *uint32) uint32            { op(); return *p }
func LoadUint64(p *uint64) uint64            { op(); return *p }
func LoadUintptr(p *uintptr) uintptr         { op(); return *p }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { op(); return *p }
func StoreInt32(p *int32, v int32)           { op(); *p = v }
func StoreInt64(p *int64, v int64)           { op(); *p = v }
func StoreUint32(p *uint32, v uint32)        { op(); *p = v }
func StoreUint64(p *uint64, v uint64)        { op(); *p = v }
func StoreUintptr(p *uintptr, v uintptr)     { op(); *p = v }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { op(); *p = v }

func swap[T any](p *T, v T) T { op(); o := *p; *p = v; return o }
func cas[T comparable](p *T, o, n T) bool {
	op()
	if *p == o {
		*p = n
		return true
	}
	return false
}
func SwapInt32(p *int32, v int32) int32          { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64          { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32      { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64      { return swap(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr  { return swap(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool       { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool       { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool    { return cas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool    { return cas(p, o, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { return cas(p, o, n) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool { return cas(p, o, n) }
func AndInt32(p *int32, m int32) int32     { op(); o := *p; *p &= m; return o }
func OrInt32(p *int32, m int32) int32      { op(); o := *p; *p |= m; return o }
func AndUint32(p *uint32, m uint32) uint32 { op(); o := *p; *p &= m; return o }
func OrUint32(p *uint32, m uint32) uint32  { op(); o := *p; *p |= m; return o }
func AndInt64(p *int64, m int64) int64     { op(); o := *p; *p &= m; return o }
func OrInt64(p *int64, m int64) int64      { op(); o := *p; *p |= m; return o }
func AndUint64(p *uint64, m uint64) uint64 { op(); o := *p; *p &= m; return o }
func OrUint64(p *uint64, m uint64) uint64  { op(); o := *p; *p |= m; return o }

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}
type cell[T num] struct{ v T }

func (c *cell[T]) Load() T                     { op(); return c.v }
func (c *cell[T]) Store(v T)                   { op(); c.v = v }
func (c *cell[T]) Add(d T) T                   { op(); c.v += d; return c.v }
func (c *cell[T]) Swap(v T) T                  { return swap(&c.v, v) }
func (c *cell[T]) CompareAndSwap(o, n T) bool  { return cas(&c.v, o, n) }
func (c *cell[T]) And(m T) T                   { op(); o := c.v; c.v &= m; return o }
func (c *cell[T]) Or(m T) T                    { op(); o := c.v; c.v |= m; return o }

type Int32 struct{ cell[int32] }
type Int64 struct{ cell[int64] }
type Uint32 struct{ cell[uint32] }
type Uint64 struct{ cell[uint64] }
type Uintptr struct{ cell[uintptr] }

type Bool struct{ v bool }

func (c *Bool) Load() bool                    { op(); return c.v }
func (c *Bool) Store(v bool)                  { op(); c.v = v }
func (c *Bool) Swap(v bool) bool              { return swap(&c.v, v) }
func (c *Bool) CompareAndSwap(o, n bool) bool { return cas(&c.v, o, n) }

type Pointer[T any] struct{ v *T }

func (c *Pointer[T]) Load() *T                    { op(); return c.v }
func (c *Pointer[T]) Store(v *T)                  { op(); c.v = v }
func (c *Pointer[T]) Swap(v *T) *T                { return swap(&c.v, v) }
func (c *Pointer[T]) CompareAndSwap(o, n *T) bool { return cas(&c.v, o, n) }

type Value struct{ v interface{} }

func (c *Value) Load() interface{} { op(); return c.v }
func (c *Value) Store(v interface{}) {
	op()
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	c.v = v
}
func (c *Value) Swap(v interface{}) interface{}          { return swap(&c.v, v) }
func (c *Value) CompareAndSwap(o, n interface{}) bool    { return cas(&c.v, o, n) }
