// Package simsync replaces package sync in instrumented code: blocking hands
// control to the simulator's scheduler, and sync.Pool is deterministic.
package simsync

import (
	"sync"
	"verifsim/simrt"
)

type Locker = sync.Locker

type Mutex struct{ held bool }

//go:norace
func (m *Mutex) Lock() {
	simrt.Y(0)
	for !(!m.held) {
		simrt.Block()
	}
	m.held = true
	acquire(m)
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Y(0)
	if m.held {
		return false
	}
	m.held = true
	acquire(m)
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	release(m)
	m.held = false
	simrt.Y(0)
}

type RWMutex struct {
	w bool
	r int
}

//go:norace
func (m *RWMutex) Lock() {
	simrt.Y(0)
	for !(!m.w && m.r == 0) {
		simrt.Block()
	}
	m.w = true
	acquire(m)
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Y(0)
	if m.w || m.r != 0 {
		return false
	}
	m.w = true
	acquire(m)
	return true
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Y(0)
	if m.w {
		return false
	}
	m.r++
	acquire(m)
	return true
}

//go:norace
func (m *RWMutex) Unlock() { release(m); m.w = false; simrt.Y(0) }

//go:norace
func (m *RWMutex) RLock() {
	simrt.Y(0)
	for !(!m.w) {
		simrt.Block()
	}
	m.r++
	acquire(m)
}

//go:norace
func (m *RWMutex) RUnlock() { release(m); m.r--; simrt.Y(0) }

//go:norace
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

//go:norace
func (r *rlocker) Lock() { (*RWMutex)(r).RLock() }

//go:norace
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue calls f once and returns what it returned.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var x T
	return func() T { o.Do(func() { x = f() }); return x }
}

// OnceValues calls f once and returns what it returned.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var x T
	var y U
	return func() (T, U) { o.Do(func() { x, y = f() }); return x, y }
}

// Cond is sync.Cond.
type Cond struct {
	L       Locker
	waiters []*bool
}

// NewCond returns a condition on l.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	woken := new(bool)
	c.waiters = append(c.waiters, woken)
	c.L.Unlock()
	for !*woken {
		simrt.Block()
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
	simrt.Y(0)
}

//go:norace
func (c *Cond) Broadcast() {
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
	simrt.Y(0)
}

type WaitGroup struct{ n int }

//go:norace
func (w *WaitGroup) Add(d int) { w.n += d }

//go:norace
func (w *WaitGroup) Done() { release(w); w.n--; simrt.Y(0) }

//go:norace
func (w *WaitGroup) Wait() {
	for !(w.n <= 0) {
		simrt.Block()
	}
	acquire(w)
}

// Pool hands out the most recently returned item, as the real one does on one
// processor.
type Pool struct {
	New   func() any
	items []any
}

//go:norace
func (p *Pool) Get() any {
	simrt.Y(0)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		acquire(p)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	release(p)
	p.items = append(p.items, x)
	simrt.Y(0)
}

// Map is sync.Map: it never blocks for long, so only a yield point is added.
type Map struct{ m sync.Map }

//go:norace
func (m *Map) Load(k any) (any, bool) { simrt.Y(0); return m.m.Load(k) }

//go:norace
func (m *Map) Store(k, v any) { simrt.Y(0); m.m.Store(k, v) }

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) { simrt.Y(0); return m.m.LoadOrStore(k, v) }

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) { simrt.Y(0); return m.m.LoadAndDelete(k) }

//go:norace
func (m *Map) Delete(k any) { simrt.Y(0); m.m.Delete(k) }

//go:norace
func (m *Map) Swap(k, v any) (any, bool) { simrt.Y(0); return m.m.Swap(k, v) }

//go:norace
func (m *Map) CompareAndSwap(k, a, b any) bool { simrt.Y(0); return m.m.CompareAndSwap(k, a, b) }

//go:norace
func (m *Map) CompareAndDelete(k, a any) bool { simrt.Y(0); return m.m.CompareAndDelete(k, a) }

//go:norace
func (m *Map) Clear() { simrt.Y(0); m.m.Clear() }

//go:norace
func (m *Map) Range(f func(k, v any) bool) { simrt.Y(0); m.m.Range(f) }
