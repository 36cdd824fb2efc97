// Package vatomic stands in for package sync/atomic in the code under test.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/vsync"
)

type Bool struct {
	a vsync.Atomic
	v atomic.Bool
}

func (x *Bool) Load() bool                    { x.a.R(); return x.v.Load() }
func (x *Bool) Store(b bool)                  { x.a.W(); x.v.Store(b) }
func (x *Bool) Swap(b bool) bool              { x.a.W(); return x.v.Swap(b) }
func (x *Bool) CompareAndSwap(o, n bool) bool { x.a.W(); return x.v.CompareAndSwap(o, n) }

type Int32 struct {
	a vsync.Atomic
	v atomic.Int32
}

func (x *Int32) Load() int32                    { x.a.R(); return x.v.Load() }
func (x *Int32) Store(b int32)                  { x.a.W(); x.v.Store(b) }
func (x *Int32) Swap(b int32) int32             { x.a.W(); return x.v.Swap(b) }
func (x *Int32) CompareAndSwap(o, n int32) bool { x.a.W(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { x.a.W(); return x.v.Add(d) }
func (x *Int32) And(d int32) int32              { x.a.W(); return x.v.And(d) }
func (x *Int32) Or(d int32) int32               { x.a.W(); return x.v.Or(d) }

type Int64 struct {
	a vsync.Atomic
	v atomic.Int64
}

func (x *Int64) Load() int64                    { x.a.R(); return x.v.Load() }
func (x *Int64) Store(b int64)                  { x.a.W(); x.v.Store(b) }
func (x *Int64) Swap(b int64) int64             { x.a.W(); return x.v.Swap(b) }
func (x *Int64) CompareAndSwap(o, n int64) bool { x.a.W(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { x.a.W(); return x.v.Add(d) }
func (x *Int64) And(d int64) int64              { x.a.W(); return x.v.And(d) }
func (x *Int64) Or(d int64) int64               { x.a.W(); return x.v.Or(d) }

type Uint32 struct {
	a vsync.Atomic
	v atomic.Uint32
}

func (x *Uint32) Load() uint32                    { x.a.R(); return x.v.Load() }
func (x *Uint32) Store(b uint32)                  { x.a.W(); x.v.Store(b) }
func (x *Uint32) Swap(b uint32) uint32            { x.a.W(); return x.v.Swap(b) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { x.a.W(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { x.a.W(); return x.v.Add(d) }
func (x *Uint32) And(d uint32) uint32             { x.a.W(); return x.v.And(d) }
func (x *Uint32) Or(d uint32) uint32              { x.a.W(); return x.v.Or(d) }

type Uint64 struct {
	a vsync.Atomic
	v atomic.Uint64
}

func (x *Uint64) Load() uint64                    { x.a.R(); return x.v.Load() }
func (x *Uint64) Store(b uint64)                  { x.a.W(); x.v.Store(b) }
func (x *Uint64) Swap(b uint64) uint64            { x.a.W(); return x.v.Swap(b) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { x.a.W(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { x.a.W(); return x.v.Add(d) }
func (x *Uint64) And(d uint64) uint64             { x.a.W(); return x.v.And(d) }
func (x *Uint64) Or(d uint64) uint64              { x.a.W(); return x.v.Or(d) }

type Uintptr struct {
	a vsync.Atomic
	v atomic.Uintptr
}

func (x *Uintptr) Load() uintptr                    { x.a.R(); return x.v.Load() }
func (x *Uintptr) Store(b uintptr)                  { x.a.W(); x.v.Store(b) }
func (x *Uintptr) Swap(b uintptr) uintptr           { x.a.W(); return x.v.Swap(b) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { x.a.W(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { x.a.W(); return x.v.Add(d) }

type Pointer[T any] struct {
	a vsync.Atomic
	v atomic.Pointer[T]
}

func (x *Pointer[T]) Load() *T                    { x.a.R(); return x.v.Load() }
func (x *Pointer[T]) Store(b *T)                  { x.a.W(); x.v.Store(b) }
func (x *Pointer[T]) Swap(b *T) *T                { x.a.W(); return x.v.Swap(b) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { x.a.W(); return x.v.CompareAndSwap(o, n) }

type Value struct {
	a vsync.Atomic
	v atomic.Value
}

func (x *Value) Load() any                    { x.a.R(); return x.v.Load() }
func (x *Value) Store(b any)                  { x.a.W(); x.v.Store(b) }
func (x *Value) Swap(b any) any               { x.a.W(); return x.v.Swap(b) }
func (x *Value) CompareAndSwap(o, n any) bool { x.a.W(); return x.v.CompareAndSwap(o, n) }

func LoadInt32(p *int32) int32       { vsync.AtomicR(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64       { vsync.AtomicR(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32    { vsync.AtomicR(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64    { vsync.AtomicR(); return atomic.LoadUint64(p) }
func LoadUintptr(p *uintptr) uintptr { vsync.AtomicR(); return atomic.LoadUintptr(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vsync.AtomicR()
	return atomic.LoadPointer(p)
}
func StoreInt32(p *int32, v int32)                     { vsync.AtomicW(); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)                     { vsync.AtomicW(); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)                  { vsync.AtomicW(); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)                  { vsync.AtomicW(); atomic.StoreUint64(p, v) }
func StoreUintptr(p *uintptr, v uintptr)               { vsync.AtomicW(); atomic.StoreUintptr(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vsync.AtomicW(); atomic.StorePointer(p, v) }
func AddInt32(p *int32, v int32) int32                 { vsync.AtomicW(); return atomic.AddInt32(p, v) }
func AddInt64(p *int64, v int64) int64                 { vsync.AtomicW(); return atomic.AddInt64(p, v) }
func AddUint32(p *uint32, v uint32) uint32             { vsync.AtomicW(); return atomic.AddUint32(p, v) }
func AddUint64(p *uint64, v uint64) uint64             { vsync.AtomicW(); return atomic.AddUint64(p, v) }
func SwapInt32(p *int32, v int32) int32                { vsync.AtomicW(); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64                { vsync.AtomicW(); return atomic.SwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { vsync.AtomicW(); return atomic.SwapUint32(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { vsync.AtomicW(); return atomic.SwapUint64(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsync.AtomicW()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsync.AtomicW()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsync.AtomicW()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsync.AtomicW()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vsync.AtomicW()
	return atomic.CompareAndSwapPointer(p, o, n)
}
