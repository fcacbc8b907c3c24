// Package atomic replaces sync/atomic in the instrumented library.
package atomic

import (
	"sync/atomic"
	"unsafe"
	"verif/rsim"
)

func y[T any](p *T) {
	rsim.NAtomics++
	rsim.H()
	if rsim.RaceOn {
		rsim.AcqRel(unsafe.Pointer(p))
	}
}

// y64 is y for the functions on 64-bit words, which panic on 32-bit machines
// when the word is not aligned. (The types of this package have the sizes and
// alignments of the original ones.)
func y64[T any](p *T) {
	if unsafe.Sizeof(uintptr(0)) == 4 && uintptr(unsafe.Pointer(p))%8 != 0 {
		panic("unaligned 64-bit atomic operation")
	}
	y(p)
}

func AddInt32(p *int32, d int32) int32  { y(p); *p += d; return *p }
func LoadInt32(p *int32) int32          { y(p); return *p }
func StoreInt32(p *int32, v int32)      { y(p); *p = v }
func SwapInt32(p *int32, v int32) int32 { y(p); o := *p; *p = v; return o }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	y(p)
	if *p == o {
		*p = v
		return true
	}
	return false
}
func AndInt32(p *int32, m int32) int32 { y(p); o := *p; *p = o & m; return o }
func OrInt32(p *int32, m int32) int32  { y(p); o := *p; *p = o | m; return o }

type Int32 struct{ v int32 }

func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { return CompareAndSwapInt32(&x.v, o, v) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }

func AddInt64(p *int64, d int64) int64  { y64(p); *p += d; return *p }
func LoadInt64(p *int64) int64          { y64(p); return *p }
func StoreInt64(p *int64, v int64)      { y64(p); *p = v }
func SwapInt64(p *int64, v int64) int64 { y64(p); o := *p; *p = v; return o }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	y64(p)
	if *p == o {
		*p = v
		return true
	}
	return false
}
func AndInt64(p *int64, m int64) int64 { y64(p); o := *p; *p = o & m; return o }
func OrInt64(p *int64, m int64) int64  { y64(p); o := *p; *p = o | m; return o }

type Int64 struct {
	_ [0]atomic.Int64 // for the alignment
	v int64
}

func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { return CompareAndSwapInt64(&x.v, o, v) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }

func AddUint32(p *uint32, d uint32) uint32  { y(p); *p += d; return *p }
func LoadUint32(p *uint32) uint32           { y(p); return *p }
func StoreUint32(p *uint32, v uint32)       { y(p); *p = v }
func SwapUint32(p *uint32, v uint32) uint32 { y(p); o := *p; *p = v; return o }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	y(p)
	if *p == o {
		*p = v
		return true
	}
	return false
}
func AndUint32(p *uint32, m uint32) uint32 { y(p); o := *p; *p = o & m; return o }
func OrUint32(p *uint32, m uint32) uint32  { y(p); o := *p; *p = o | m; return o }

type Uint32 struct{ v uint32 }

func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { return CompareAndSwapUint32(&x.v, o, v) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }

func AddUint64(p *uint64, d uint64) uint64  { y64(p); *p += d; return *p }
func LoadUint64(p *uint64) uint64           { y64(p); return *p }
func StoreUint64(p *uint64, v uint64)       { y64(p); *p = v }
func SwapUint64(p *uint64, v uint64) uint64 { y64(p); o := *p; *p = v; return o }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	y64(p)
	if *p == o {
		*p = v
		return true
	}
	return false
}
func AndUint64(p *uint64, m uint64) uint64 { y64(p); o := *p; *p = o & m; return o }
func OrUint64(p *uint64, m uint64) uint64  { y64(p); o := *p; *p = o | m; return o }

type Uint64 struct {
	_ [0]atomic.Uint64 // for the alignment
	v uint64
}

func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { return CompareAndSwapUint64(&x.v, o, v) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }

func AddUintptr(p *uintptr, d uintptr) uintptr  { y(p); *p += d; return *p }
func LoadUintptr(p *uintptr) uintptr            { y(p); return *p }
func StoreUintptr(p *uintptr, v uintptr)        { y(p); *p = v }
func SwapUintptr(p *uintptr, v uintptr) uintptr { y(p); o := *p; *p = v; return o }
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	y(p)
	if *p == o {
		*p = v
		return true
	}
	return false
}
func AndUintptr(p *uintptr, m uintptr) uintptr { y(p); o := *p; *p = o & m; return o }
func OrUintptr(p *uintptr, m uintptr) uintptr  { y(p); o := *p; *p = o | m; return o }

type Uintptr struct{ v uintptr }

func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { return CompareAndSwapUintptr(&x.v, o, v) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { y(p); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { y(p); *p = v }

type Bool struct{ v bool }

func (x *Bool) Load() bool       { y(&x.v); return x.v }
func (x *Bool) Store(v bool)     { y(&x.v); x.v = v }
func (x *Bool) Swap(v bool) bool { y(&x.v); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, v bool) bool {
	y(&x.v)
	if x.v == o {
		x.v = v
		return true
	}
	return false
}

type Value struct{ v any }

func (x *Value) Load() any      { y(&x.v); return x.v }
func (x *Value) Store(v any)    { y(&x.v); x.v = v }
func (x *Value) Swap(v any) any { y(&x.v); o := x.v; x.v = v; return o }

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { y(&x.v); return x.v }
func (x *Pointer[T]) Store(v *T)   { y(&x.v); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { y(&x.v); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool {
	y(&x.v)
	if x.v == o {
		x.v = v
		return true
	}
	return false
}

func (x *Value) CompareAndSwap(o, v any) bool {
	y(&x.v)
	if x.v == o {
		x.v = v
		return true
	}
	return false
}

func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer { y(p); o := *p; *p = v; return o }
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	y(p)
	if *p == o {
		*p = v
		return true
	}
	return false
}
