// Package sync replaces the standard package in instrumented code.
package sync

import (
	real "sync"

	"github.com/sttp/goapi/vdrv/vsched"
)

// Locker is sync.Locker.
type Locker = real.Locker

// Mutex is a scheduled mutual exclusion lock.
type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	vsched.Op()
	vsched.Block("mutex", func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	vsched.Op()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if vsched.Aborted() {
		m.locked = false
		return
	}
	vsched.Op()
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
}

// RWMutex blocks new readers while a writer waits, like the standard one.
type RWMutex struct {
	readers int
	writer  bool
	waiting int
}

func (m *RWMutex) RLock() {
	vsched.Op()
	vsched.Block("rwmutex read lock", func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	vsched.Op()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if vsched.Aborted() {
		return
	}
	vsched.Op()
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

func (m *RWMutex) Lock() {
	vsched.Op()
	m.waiting++
	vsched.Block("rwmutex write lock", func() bool { return !m.writer && m.readers == 0 })
	m.waiting--
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	vsched.Op()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if vsched.Aborted() {
		return
	}
	vsched.Op()
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup waits for a collection of threads.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	vsched.Op()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vsched.Op()
	vsched.Block("waitgroup", func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	vsched.Op()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond is a condition variable.
type Cond struct {
	L   Locker
	gen []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	w := new(bool)
	c.gen = append(c.gen, w)
	c.L.Unlock()
	vsched.Block("cond", func() bool { return *w })
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsched.Op()
	if len(c.gen) > 0 {
		*c.gen[0] = true
		c.gen = c.gen[1:]
	}
}
func (c *Cond) Broadcast() {
	vsched.Op()
	for _, w := range c.gen {
		*w = true
	}
	c.gen = nil
}

// Map is a concurrent map whose operations are scheduling points.
type Map struct{ m real.Map }

func (m *Map) Load(k any) (any, bool)           { vsched.Op(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vsched.Op(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsched.Op(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vsched.Op(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vsched.Op(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vsched.Op(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vsched.Op(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vsched.Op(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { vsched.Op(); m.m.Range(f) }
func (m *Map) Clear()                           { vsched.Op(); m.m.Clear() }

// Pool hands out the most recently returned item first.
type Pool struct {
	items []any
	New   func() any
}

func (p *Pool) Get() any {
	vsched.Op()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	vsched.Op()
	if x != nil {
		p.items = append(p.items, x)
	}
}
