package vsync

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

type Locker = sync.Locker

// patient takes a lock outside of a controlled execution. Nobody else is at work then, or for a moment only:
// a lock that stays taken was left so by what ran before.
func patient(try func() bool) {
	for k := 0; !try(); k++ {
		if k > 100 {
			time.Sleep(time.Millisecond)
		} else {
			runtime.Gosched()
		}
		if k > 4000 {
			panic("deadlock: a lock is never released")
		}
	}
}

// Mutex is a controlled sync.Mutex.
type Mutex struct {
	real sync.Mutex
	m    model
}

func (l *Mutex) Lock() {
	if pass(kLock, &l.m) == nil {
		patient(l.real.TryLock)
		return
	}
	l.real.Lock()
}

//go:norace
func (m *model) unlock() { m.w = 0 }

//go:norace
func (m *model) runlock() {
	if m.r > 0 {
		m.r--
	}
}

func (l *Mutex) Unlock() {
	if self() != nil {
		l.m.unlock()
	}
	l.real.Unlock()
}

//go:norace
func (m *model) free() bool { return m.w == 0 && m.r == 0 && m.pend == 0 }

//go:norace
func (m *model) noWriter() bool { return m.w == 0 && m.pend == 0 }

//go:norace
func (m *model) take() { m.w = 1 }

//go:norace
func (m *model) takeRead() { m.r++ }

func (l *Mutex) TryLock() bool {
	if pass(kWrite, &l.m) != nil {
		if !l.m.free() {
			return false
		}
		l.m.take()
	}
	return l.real.TryLock()
}

// RWMutex is a controlled sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	real sync.RWMutex
	m    model
}

func (l *RWMutex) Lock() {
	if pass(kAnn, &l.m) == nil {
		patient(l.real.TryLock)
		return
	}
	pass(kAcq, &l.m)
	l.real.Lock()
}

func (l *RWMutex) Unlock() {
	if self() != nil {
		l.m.unlock()
	}
	l.real.Unlock()
}

func (l *RWMutex) RLock() {
	if pass(kRLock, &l.m) == nil {
		patient(l.real.TryRLock)
		return
	}
	l.real.RLock()
}

func (l *RWMutex) RUnlock() {
	if self() != nil {
		l.m.runlock()
	}
	l.real.RUnlock()
}

func (l *RWMutex) TryLock() bool {
	if pass(kWrite, &l.m) != nil {
		if !l.m.free() {
			return false
		}
		l.m.take()
	}
	return l.real.TryLock()
}

func (l *RWMutex) TryRLock() bool {
	if pass(kWrite, &l.m) != nil {
		if !l.m.noWriter() {
			return false
		}
		l.m.takeRead()
	}
	return l.real.TryRLock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (l *RWMutex) RLocker() Locker { return (*rlocker)(l) }

// Once is a controlled sync.Once.
type Once struct {
	m    model
	mu   sync.Mutex
	done atomic.Uint32
}

func (o *Once) Do(f func()) {
	if pass(kOnce, &o.m) != nil {
		defer o.m.unlock()
		if o.done.Load() == 0 {
			defer o.done.Store(1)
			f()
		}
		return
	}
	if o.done.Load() == 1 {
		return
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var a T1
	var b T2
	g := OnceFunc(func() { a, b = f() })
	return func() (T1, T2) { g(); return a, b }
}

// WaitGroup is the real one: the goroutines it waits for are not under control.
type WaitGroup = sync.WaitGroup

// Cond is a controlled sync.Cond.
type Cond struct {
	L       Locker
	m       model
	waiters []*thread
	real    *sync.Cond
	mu      sync.Mutex
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) cond() *sync.Cond {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.real == nil {
		c.real = sync.NewCond(c.L)
	}
	return c.real
}

func (c *Cond) Wait() {
	t := self()
	if t == nil {
		c.cond().Wait()
		return
	}
	c.mu.Lock()
	c.waiters = append(c.waiters, t)
	c.mu.Unlock()
	c.L.Unlock()
	pass(kCond, &c.m)
	c.L.Lock()
}

//go:norace
func wake(t *thread) { t.woken = true }

func (c *Cond) Signal() {
	if self() == nil {
		c.cond().Signal()
		return
	}
	pass(kWrite, &c.m)
	c.mu.Lock()
	if len(c.waiters) > 0 {
		wake(c.waiters[0])
		c.waiters = c.waiters[1:]
	}
	c.mu.Unlock()
}

func (c *Cond) Broadcast() {
	if self() == nil {
		c.cond().Broadcast()
		return
	}
	pass(kWrite, &c.m)
	c.mu.Lock()
	for _, w := range c.waiters {
		wake(w)
	}
	c.waiters = nil
	c.mu.Unlock()
}

// Pool hands out what was put last.
type Pool struct {
	New func() any
	m   model
	mu  sync.Mutex
	s   []any
}

func (p *Pool) Get() any {
	pass(kWrite, &p.m)
	p.mu.Lock()
	if n := len(p.s); n > 0 {
		x := p.s[n-1]
		p.s = p.s[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	pass(kWrite, &p.m)
	p.mu.Lock()
	p.s = append(p.s, x)
	p.mu.Unlock()
}

// Map is a sync.Map whose operations are points and whose Range goes by sorted keys.
type Map struct {
	real sync.Map
	m    model
}

func (x *Map) Load(k any) (any, bool) { pass(kRead, &x.m); return x.real.Load(k) }
func (x *Map) Store(k, v any)         { pass(kWrite, &x.m); x.real.Store(k, v) }
func (x *Map) LoadOrStore(k, v any) (any, bool) {
	pass(kWrite, &x.m)
	return x.real.LoadOrStore(k, v)
}
func (x *Map) LoadAndDelete(k any) (any, bool) { pass(kWrite, &x.m); return x.real.LoadAndDelete(k) }
func (x *Map) Delete(k any)                    { pass(kWrite, &x.m); x.real.Delete(k) }
func (x *Map) Swap(k, v any) (any, bool)       { pass(kWrite, &x.m); return x.real.Swap(k, v) }
func (x *Map) Clear()                          { pass(kWrite, &x.m); x.real.Clear() }
func (x *Map) CompareAndSwap(k, o, n any) bool {
	pass(kWrite, &x.m)
	return x.real.CompareAndSwap(k, o, n)
}
func (x *Map) CompareAndDelete(k, o any) bool {
	pass(kWrite, &x.m)
	return x.real.CompareAndDelete(k, o)
}
func (x *Map) Range(f func(k, v any) bool) {
	pass(kRead, &x.m)
	var ks []any
	x.real.Range(func(k, v any) bool { ks = append(ks, k); return true })
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	for _, k := range ks {
		pass(kRead, &x.m)
		if v, ok := x.real.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Atomic is the point of an atomic operation.
type Atomic struct{ m model }

func (a *Atomic) R() { pass(kRead, &a.m) }
func (a *Atomic) W() { pass(kWrite, &a.m) }

// the plain atomic functions all share one object
var global Atomic

func AtomicR() { pass(kRead, &global.m) }
func AtomicW() { pass(kWrite, &global.m) }

var _ = runtime.Gosched
