// Package atomic stands in for sync/atomic under the explorer.
package atomic

import (
	"unsafe"

	"stompmc/mc"
)

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func load[T any](p *T) T {
	_ = *p
	mc.AddrAccess(p, false, "atomic")
	return *p
}

func store[T any](p *T, v T) {
	_ = *p
	mc.AddrAccess(p, true, "atomic")
	*p = v
}

func add[T integer](p *T, d T) T {
	_ = *p
	mc.AddrAccess(p, true, "atomic")
	*p += d
	return *p
}

func swap[T any](p *T, v T) T {
	_ = *p
	mc.AddrAccess(p, true, "atomic")
	old := *p
	*p = v
	return old
}

func cas[T comparable](p *T, old, v T) bool {
	_ = *p
	mc.AddrAccess(p, true, "atomic")
	if *p != old {
		return false
	}
	*p = v
	return true
}

func and[T integer](p *T, m T) T {
	mc.AddrAccess(p, true, "atomic")
	old := *p
	*p = old & m
	return old
}

func or[T integer](p *T, m T) T {
	mc.AddrAccess(p, true, "atomic")
	old := *p
	*p = old | m
	return old
}

type num[T integer] struct{ v T }

func (n *num[T]) Load() T                    { return load(&n.v) }
func (n *num[T]) Store(v T)                  { store(&n.v, v) }
func (n *num[T]) Add(d T) T                  { return add(&n.v, d) }
func (n *num[T]) Swap(v T) T                 { return swap(&n.v, v) }
func (n *num[T]) CompareAndSwap(o, v T) bool { return cas(&n.v, o, v) }
func (n *num[T]) And(m T) T                  { return and(&n.v, m) }
func (n *num[T]) Or(m T) T                   { return or(&n.v, m) }

type (
	Int32   struct{ num[int32] }
	Int64   struct{ num[int64] }
	Uint32  struct{ num[uint32] }
	Uint64  struct{ num[uint64] }
	Uintptr struct{ num[uintptr] }
)

type Bool struct{ v bool }

func (b *Bool) Load() bool                    { return load(&b.v) }
func (b *Bool) Store(v bool)                  { store(&b.v, v) }
func (b *Bool) Swap(v bool) bool              { return swap(&b.v, v) }
func (b *Bool) CompareAndSwap(o, v bool) bool { return cas(&b.v, o, v) }

type Pointer[T any] struct{ v *T }

func (p *Pointer[T]) Load() *T                    { return load(&p.v) }
func (p *Pointer[T]) Store(v *T)                  { store(&p.v, v) }
func (p *Pointer[T]) Swap(v *T) *T                { return swap(&p.v, v) }
func (p *Pointer[T]) CompareAndSwap(o, v *T) bool { return cas(&p.v, o, v) }

type Value struct{ v any }

func (p *Value) Load() any { return load(&p.v) }
func (p *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	store(&p.v, v)
}
func (p *Value) Swap(v any) any               { return swap(&p.v, v) }
func (p *Value) CompareAndSwap(o, v any) bool { return cas(&p.v, o, v) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { return load(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { store(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	return swap(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool { return cas(p, o, v) }

func LoadInt32(p *int32) int32                      { return load(p) }
func StoreInt32(p *int32, v int32)                  { store(p, v) }
func AddInt32(p *int32, d int32) int32              { return add(p, d) }
func SwapInt32(p *int32, v int32) int32             { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, v int32) bool { return cas(p, o, v) }
func AndInt32(p *int32, m int32) int32              { return and(p, m) }
func OrInt32(p *int32, m int32) int32               { return or(p, m) }

func LoadInt64(p *int64) int64                      { return load(p) }
func StoreInt64(p *int64, v int64)                  { store(p, v) }
func AddInt64(p *int64, d int64) int64              { return add(p, d) }
func SwapInt64(p *int64, v int64) int64             { return swap(p, v) }
func CompareAndSwapInt64(p *int64, o, v int64) bool { return cas(p, o, v) }
func AndInt64(p *int64, m int64) int64              { return and(p, m) }
func OrInt64(p *int64, m int64) int64               { return or(p, m) }

func LoadUint32(p *uint32) uint32                      { return load(p) }
func StoreUint32(p *uint32, v uint32)                  { store(p, v) }
func AddUint32(p *uint32, d uint32) uint32             { return add(p, d) }
func SwapUint32(p *uint32, v uint32) uint32            { return swap(p, v) }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool { return cas(p, o, v) }
func AndUint32(p *uint32, m uint32) uint32             { return and(p, m) }
func OrUint32(p *uint32, m uint32) uint32              { return or(p, m) }

func LoadUint64(p *uint64) uint64                      { return load(p) }
func StoreUint64(p *uint64, v uint64)                  { store(p, v) }
func AddUint64(p *uint64, d uint64) uint64             { return add(p, d) }
func SwapUint64(p *uint64, v uint64) uint64            { return swap(p, v) }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool { return cas(p, o, v) }
func AndUint64(p *uint64, m uint64) uint64             { return and(p, m) }
func OrUint64(p *uint64, m uint64) uint64              { return or(p, m) }

func LoadUintptr(p *uintptr) uintptr                      { return load(p) }
func StoreUintptr(p *uintptr, v uintptr)                  { store(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr            { return add(p, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr           { return swap(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool { return cas(p, o, v) }
func AndUintptr(p *uintptr, m uintptr) uintptr            { return and(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr             { return or(p, m) }
