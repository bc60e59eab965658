// Package vatomic replaces sync/atomic: the real operation after a choice point.
package vatomic

import (
	"sync/atomic"
	"unsafe"
	"vrt"
)

func y() {
	if vrt.Active() {
		vrt.W.Yield("atomic")
	}
}

func AddInt32(p *int32, d int32) int32 {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).AcqRel()
	vrt.AtomicW(unsafe.Pointer(p))
	return atomic.AddInt32(p, d)
}
func AddInt64(p *int64, d int64) int64 {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).AcqRel()
	vrt.AtomicW(unsafe.Pointer(p))
	return atomic.AddInt64(p, d)
}
func AddUint32(p *uint32, d uint32) uint32 {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).AcqRel()
	vrt.AtomicW(unsafe.Pointer(p))
	return atomic.AddUint32(p, d)
}
func AddUint64(p *uint64, d uint64) uint64 {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).AcqRel()
	vrt.AtomicW(unsafe.Pointer(p))
	return atomic.AddUint64(p, d)
}
func LoadInt32(p *int32) int32 {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).Acquire()
	vrt.AtomicR(unsafe.Pointer(p))
	return atomic.LoadInt32(p)
}
func LoadInt64(p *int64) int64 {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).Acquire()
	vrt.AtomicR(unsafe.Pointer(p))
	return atomic.LoadInt64(p)
}
func LoadUint32(p *uint32) uint32 {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).Acquire()
	vrt.AtomicR(unsafe.Pointer(p))
	return atomic.LoadUint32(p)
}
func LoadUint64(p *uint64) uint64 {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).Acquire()
	vrt.AtomicR(unsafe.Pointer(p))
	return atomic.LoadUint64(p)
}
func StoreInt32(p *int32, v int32) {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).Release()
	vrt.AtomicW(unsafe.Pointer(p))
	atomic.StoreInt32(p, v)
}
func StoreInt64(p *int64, v int64) {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).Release()
	vrt.AtomicW(unsafe.Pointer(p))
	atomic.StoreInt64(p, v)
}
func StoreUint32(p *uint32, v uint32) {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).Release()
	vrt.AtomicW(unsafe.Pointer(p))
	atomic.StoreUint32(p, v)
}
func StoreUint64(p *uint64, v uint64) {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).Release()
	vrt.AtomicW(unsafe.Pointer(p))
	atomic.StoreUint64(p, v)
}
func SwapInt32(p *int32, v int32) int32 {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).AcqRel()
	vrt.AtomicW(unsafe.Pointer(p))
	return atomic.SwapInt32(p, v)
}
func SwapInt64(p *int64, v int64) int64 {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).AcqRel()
	vrt.AtomicW(unsafe.Pointer(p))
	return atomic.SwapInt64(p, v)
}
func SwapUint32(p *uint32, v uint32) uint32 {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).AcqRel()
	vrt.AtomicW(unsafe.Pointer(p))
	return atomic.SwapUint32(p, v)
}
func SwapUint64(p *uint64, v uint64) uint64 {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).AcqRel()
	vrt.AtomicW(unsafe.Pointer(p))
	return atomic.SwapUint64(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).AcqRel()
	vrt.AtomicW(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).AcqRel()
	vrt.AtomicW(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).AcqRel()
	vrt.AtomicW(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).AcqRel()
	vrt.AtomicW(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint64(p, o, n)
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).Acquire()
	vrt.AtomicR(unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).Release()
	vrt.AtomicW(unsafe.Pointer(p))
	atomic.StorePointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	y()
	vrt.SyncAt(unsafe.Pointer(p)).AcqRel()
	vrt.AtomicW(unsafe.Pointer(p))
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Int32 struct {
	v  atomic.Int32
	hb vrt.SyncVar
}

func (x *Int32) Load() int32                    { y(); x.hb.Acquire(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { y(); x.hb.Release(); x.v.Store(v) }
func (x *Int32) Add(d int32) int32              { y(); x.hb.AcqRel(); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32             { y(); x.hb.AcqRel(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { y(); x.hb.AcqRel(); return x.v.CompareAndSwap(o, n) }

type Int64 struct {
	v  atomic.Int64
	hb vrt.SyncVar
}

func (x *Int64) Load() int64                    { y(); x.hb.Acquire(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { y(); x.hb.Release(); x.v.Store(v) }
func (x *Int64) Add(d int64) int64              { y(); x.hb.AcqRel(); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64             { y(); x.hb.AcqRel(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { y(); x.hb.AcqRel(); return x.v.CompareAndSwap(o, n) }

type Uint32 struct {
	v  atomic.Uint32
	hb vrt.SyncVar
}

func (x *Uint32) Load() uint32         { y(); x.hb.Acquire(); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { y(); x.hb.Release(); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32  { y(); x.hb.AcqRel(); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32 { y(); x.hb.AcqRel(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	y()
	x.hb.AcqRel()
	return x.v.CompareAndSwap(o, n)
}

type Uint64 struct {
	v  atomic.Uint64
	hb vrt.SyncVar
}

func (x *Uint64) Load() uint64         { y(); x.hb.Acquire(); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { y(); x.hb.Release(); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64  { y(); x.hb.AcqRel(); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64 { y(); x.hb.AcqRel(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	y()
	x.hb.AcqRel()
	return x.v.CompareAndSwap(o, n)
}

type Bool struct {
	v  atomic.Bool
	hb vrt.SyncVar
}

func (x *Bool) Load() bool                    { y(); x.hb.Acquire(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { y(); x.hb.Release(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { y(); x.hb.AcqRel(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { y(); x.hb.AcqRel(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct {
	v  atomic.Pointer[T]
	hb vrt.SyncVar
}

func (x *Pointer[T]) Load() *T     { y(); x.hb.Acquire(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { y(); x.hb.Release(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { y(); x.hb.AcqRel(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	y()
	x.hb.AcqRel()
	return x.v.CompareAndSwap(o, n)
}

type Value struct {
	v  atomic.Value
	hb vrt.SyncVar
}

func (x *Value) Load() interface{}              { y(); x.hb.Acquire(); return x.v.Load() }
func (x *Value) Store(v interface{})            { y(); x.hb.Release(); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{} { y(); x.hb.AcqRel(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool {
	y()
	x.hb.AcqRel()
	return x.v.CompareAndSwap(o, n)
}

func (x *Int32) And(m int32) int32 { y(); x.hb.AcqRel(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32  { y(); x.hb.AcqRel(); return x.v.Or(m) }

func (x *Int64) And(m int64) int64 { y(); x.hb.AcqRel(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64  { y(); x.hb.AcqRel(); return x.v.Or(m) }

func (x *Uint32) And(m uint32) uint32 { y(); x.hb.AcqRel(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32  { y(); x.hb.AcqRel(); return x.v.Or(m) }

func (x *Uint64) And(m uint64) uint64 { y(); x.hb.AcqRel(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64  { y(); x.hb.AcqRel(); return x.v.Or(m) }

type Uintptr struct {
	v  atomic.Uintptr
	hb vrt.SyncVar
}

func (x *Uintptr) Load() uintptr          { y(); x.hb.Acquire(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { y(); x.hb.Release(); x.v.Store(v) }
func (x *Uintptr) Add(d uintptr) uintptr  { y(); x.hb.AcqRel(); return x.v.Add(d) }
func (x *Uintptr) Swap(v uintptr) uintptr { y(); x.hb.AcqRel(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	y()
	x.hb.AcqRel()
	return x.v.CompareAndSwap(o, n)
}
