// Package sync stands in for the standard package of that name in the instrumented
// library: locks block in the simulated scheduler, so that a preempted task can hold a
// lock while others wait for it. Outside of a simulation they are the real ones.
package sync

import (
	"sync"
	"sync/atomic"

	"verif.local/sim/simrt"
)

type (
	// Locker is the real thing.
	Locker = sync.Locker
	// Map is the real thing.
	Map = sync.Map
	// WaitGroup is the real thing.
	WaitGroup = sync.WaitGroup
	// Cond is the real thing.
	Cond = sync.Cond
)

// NewCond is the real thing.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex is a mutual exclusion lock.
type Mutex struct {
	l  simrt.Lock
	mu sync.Mutex
}

// Lock locks m.
func (m *Mutex) Lock() {
	simrt.Point()
	m.l.Acquire(true)
	m.mu.Lock()
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	simrt.Point()
	if !m.mu.TryLock() {
		return false
	}
	if simrt.Cur() != nil {
		m.l.TryAcquire(true)
	}
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	m.l.Release(true)
	simrt.Point()
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	l  simrt.Lock
	mu sync.RWMutex
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	simrt.Point()
	m.l.Acquire(true)
	m.mu.Lock()
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	if !m.mu.TryLock() {
		return false
	}
	if simrt.Cur() != nil {
		m.l.TryAcquire(true)
	}
	return true
}

// Unlock unlocks m.
func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	m.l.Release(true)
	simrt.Point()
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	simrt.Point()
	m.l.Acquire(false)
	m.mu.RLock()
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	if !m.mu.TryRLock() {
		return false
	}
	if simrt.Cur() != nil {
		m.l.TryAcquire(false)
	}
	return true
}

// RUnlock unlocks m.
func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	m.l.Release(false)
	simrt.Point()
}

// RLocker returns a Locker of the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs a function once.
type Once struct {
	done atomic.Uint32
	m    Mutex
}

// Do calls f if it is the first call.
func (o *Once) Do(f func()) {
	simrt.Point()
	if o.done.Load() != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

// OnceFunc returns a function that invokes f once.
func OnceFunc(f func()) func() {
	var once Once
	var p any
	valid := false
	return func() {
		once.Do(func() {
			defer func() {
				if !valid {
					p = recover()
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

// OnceValue returns a function that invokes f once and returns its value.
func OnceValue[T any](f func() T) func() T {
	var v T
	once := OnceFunc(func() { v = f() })
	return func() T {
		once()
		return v
	}
}

// OnceValues returns a function that invokes f once and returns its values.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var v1 T1
	var v2 T2
	once := OnceFunc(func() { v1, v2 = f() })
	return func() (T1, T2) {
		once()
		return v1, v2
	}
}

// Pool is a pool that, unlike the real one, always gives back what was put last: the most
// adversarial of the allowed behaviours.
type Pool struct {
	New func() any

	mu    sync.Mutex
	items []*item
}

type item struct{ v any }

// Get takes an item from the pool.
func (p *Pool) Get() any {
	simrt.Point()
	if it := p.pop(); it != nil {
		acquire(it)
		return it.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put adds x to the pool.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	it := &item{x}
	release(it)
	p.push(it)
	simrt.Point()
}
