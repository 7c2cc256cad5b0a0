// Package simsync replaces package sync in instrumented code.
// Inside a simulated run locks park threads in the simulator,
// outside of it they are plain flags (only one goroutine runs).
package simsync

import (
	"sync"
	"sync/atomic"

	"nimsim/simrt"
)

type (
	// Locker is sync.Locker.
	Locker = sync.Locker
	// Map is sync.Map, whose operations are atomic.
	Map = sync.Map
)

// Mutex is a simulated mutex.
type Mutex struct {
	held bool
	real sync.Mutex
	r    bool
}

// Lock locks the mutex.
func (m *Mutex) Lock() {
	simrt.H()
	if !simrt.Active() {
		if !m.real.TryLock() {
			simrt.Wedge()
			m.real.Lock()
		}
		m.r = true
		return
	}
	for m.held {
		simrt.Block(m)
	}
	m.held = true
	simrt.Acquire(&m.held)
}

// TryLock tries to lock the mutex.
func (m *Mutex) TryLock() bool {
	simrt.H()
	if !simrt.Active() {
		ok := m.real.TryLock()
		if ok {
			m.r = true
		}
		return ok
	}
	if m.held {
		return false
	}
	m.held = true
	simrt.Acquire(&m.held)
	return true
}

// Unlock unlocks the mutex.
func (m *Mutex) Unlock() {
	if m.r {
		m.r = false
		m.real.Unlock()
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.Release(&m.held)
	m.held = false
	simrt.Unblock(m)
	simrt.H()
}

// RWMutex is a simulated read-write mutex.
type RWMutex struct {
	writer  bool
	waiting int
	readers int
	real    sync.RWMutex
	realW   bool
	realR   int32
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	simrt.H()
	if !simrt.Active() {
		if !m.real.TryLock() {
			simrt.Wedge()
			m.real.Lock()
		}
		m.realW = true
		return
	}
	m.waiting++
	for m.writer || m.readers > 0 {
		simrt.Block(m)
	}
	m.waiting--
	m.writer = true
	simrt.Acquire(&m.writer)
	simrt.Acquire(&m.readers)
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	simrt.H()
	if !simrt.Active() {
		ok := m.real.TryLock()
		if ok {
			m.realW = true
		}
		return ok
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	simrt.Acquire(&m.writer)
	simrt.Acquire(&m.readers)
	return true
}

// Unlock unlocks a write lock.
func (m *RWMutex) Unlock() {
	if m.realW {
		m.realW = false
		m.real.Unlock()
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.Release(&m.writer)
	m.writer = false
	simrt.Unblock(m)
	simrt.H()
}

// RLock locks for reading. Waiting writers go first, as in package sync.
func (m *RWMutex) RLock() {
	simrt.H()
	if !simrt.Active() {
		if !m.real.TryRLock() {
			simrt.Wedge()
			m.real.RLock()
		}
		atomic.AddInt32(&m.realR, 1)
		return
	}
	for m.writer || m.waiting > 0 {
		simrt.Block(m)
	}
	m.readers++
	simrt.Acquire(&m.writer)
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	simrt.H()
	if !simrt.Active() {
		ok := m.real.TryRLock()
		if ok {
			atomic.AddInt32(&m.realR, 1)
		}
		return ok
	}
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	simrt.Acquire(&m.writer)
	return true
}

// RUnlock unlocks a read lock.
func (m *RWMutex) RUnlock() {
	if atomic.LoadInt32(&m.realR) > 0 {
		atomic.AddInt32(&m.realR, -1)
		m.real.RUnlock()
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.Release(&m.readers)
	m.readers--
	simrt.Unblock(m)
	simrt.H()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f on the first call.
func (o *Once) Do(f func()) {
	simrt.H()
	if o.done {
		simrt.Acquire(&o.done)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			simrt.Release(&o.done)
			o.done = true
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// WaitGroup is a simulated wait group.
type WaitGroup struct {
	n    int
	real sync.WaitGroup
}

// Add adds to the counter.
func (w *WaitGroup) Add(n int) {
	if !simrt.Active() {
		w.real.Add(n)
		return
	}
	if n < 0 {
		simrt.Release(&w.n)
	}
	w.n += n
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Unblock(w)
	}
	simrt.H()
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a new goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Wait waits for the counter to become zero.
func (w *WaitGroup) Wait() {
	if !simrt.Active() {
		w.real.Wait()
		return
	}
	simrt.H()
	for w.n > 0 {
		simrt.Block(w)
	}
	simrt.Acquire(&w.n)
}

// Cond is a simulated condition variable.
type Cond struct {
	L    Locker
	gens []*int
}

// NewCond creates a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	g := new(int)
	c.gens = append(c.gens, g)
	c.L.Unlock()
	for *g == 0 {
		if !simrt.Block(g) {
			panic("simsync: wait outside of a simulated thread")
		}
	}
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	if len(c.gens) > 0 {
		g := c.gens[0]
		c.gens = c.gens[1:]
		*g = 1
		simrt.Unblock(g)
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	for len(c.gens) > 0 {
		c.Signal()
	}
}

// Pool is a simulated pool: it hands back exactly what was put, last in first out.
type Pool struct {
	New   func() any
	items []any
}

// Get takes an item.
func (p *Pool) Get() any {
	simrt.H()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		simrt.Acquire(&p.items)
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	simrt.Release(&p.items)
	p.items = append(p.items, v)
	simrt.H()
}
