// Package vsync has the API of sync, cooperating with vsched.
package vsync

import (
	"sync"

	"verif.local/harness/vsched"
)

type Locker = sync.Locker

// Mutex is a sync.Mutex whose Lock is a scheduling point.
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.mu.Lock()
		return
	}
	vsched.Yield()
	vsched.Block(m, "Mutex.Lock", m.mu.TryLock)
}
func (m *Mutex) TryLock() bool { vsched.Yield(); return m.mu.TryLock() }
func (m *Mutex) Unlock() {
	if m.mu.TryLock() { // same as sync: fatal, but decidable here
		m.mu.Unlock()
		if vsched.Active() {
			panic("sync: unlock of unlocked mutex")
		}
	}
	m.mu.Unlock()
	vsched.Wake(m)
	vsched.Yield()
}

// RWMutex is a sync.RWMutex whose operations are scheduling points. A waiting
// writer blocks new readers, as in sync.
type RWMutex struct {
	mu      sync.RWMutex
	writers int
}

func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.mu.Lock()
		return
	}
	vsched.Yield()
	m.writers++
	defer func() { m.writers-- }()
	vsched.Block(m, "RWMutex.Lock", m.mu.TryLock)
}
func (m *RWMutex) TryLock() bool { vsched.Yield(); return m.mu.TryLock() }
func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	vsched.Wake(m)
	vsched.Yield()
}
func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.mu.RLock()
		return
	}
	vsched.Yield()
	vsched.Block(m, "RWMutex.RLock", m.TryRLockNow)
}

// TryRLockNow is TryRLock without being a scheduling point.
func (m *RWMutex) TryRLockNow() bool { return m.writers == 0 && m.mu.TryRLock() }
func (m *RWMutex) TryRLock() bool    { vsched.Yield(); return m.TryRLockNow() }
func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	vsched.Wake(m)
	vsched.Yield()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is a cooperative sync.WaitGroup.
type WaitGroup struct {
	mu sync.Mutex
	n  int
}

func (w *WaitGroup) Add(delta int) {
	vsched.Yield()
	w.mu.Lock()
	w.n += delta
	n := w.n
	w.mu.Unlock()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if n == 0 {
		vsched.Wake(w)
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vsched.Yield()
	vsched.Block(w, "WaitGroup.Wait", func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		return w.n == 0
	})
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is a cooperative sync.Once.
type Once struct {
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	return func() { once.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var once Once
	var v T
	return func() T {
		once.Do(func() { v = f() })
		return v
	}
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var once Once
	var v T
	var u U
	return func() (T, U) {
		once.Do(func() { v, u = f() })
		return v, u
	}
}

// Cond is a cooperative sync.Cond.
type Cond struct {
	L       Locker
	mu      sync.Mutex
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	woken := new(bool)
	c.mu.Lock()
	c.waiters = append(c.waiters, woken)
	c.mu.Unlock()
	c.L.Unlock()
	vsched.Block(c, "Cond.Wait", func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		return *woken
	})
	c.L.Lock()
}
func (c *Cond) wake(n int) {
	vsched.Yield()
	c.mu.Lock()
	for ; n != 0 && len(c.waiters) > 0; n-- {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
	c.mu.Unlock()
	vsched.Wake(c)
}
func (c *Cond) Signal()    { c.wake(1) }
func (c *Cond) Broadcast() { c.wake(-1) }

// Pool is a sync.Pool without surprises.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	vsched.Yield()
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	vsched.Yield()
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

// Map is a sync.Map whose operations are scheduling points.
type Map struct{ m sync.Map }

func (m *Map) Load(key any) (any, bool) { vsched.Yield(); return m.m.Load(key) }
func (m *Map) Store(key, value any)     { vsched.Yield(); m.m.Store(key, value) }
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	vsched.Yield()
	return m.m.LoadOrStore(key, value)
}
func (m *Map) LoadAndDelete(key any) (any, bool) { vsched.Yield(); return m.m.LoadAndDelete(key) }
func (m *Map) Delete(key any)                    { vsched.Yield(); m.m.Delete(key) }
func (m *Map) Swap(key, value any) (any, bool)   { vsched.Yield(); return m.m.Swap(key, value) }
func (m *Map) CompareAndSwap(key, old, new any) bool {
	vsched.Yield()
	return m.m.CompareAndSwap(key, old, new)
}
func (m *Map) CompareAndDelete(key, old any) bool {
	vsched.Yield()
	return m.m.CompareAndDelete(key, old)
}
func (m *Map) Range(f func(key, value any) bool) { vsched.Yield(); m.m.Range(f) }
func (m *Map) Clear()                            { vsched.Yield(); m.m.Clear() }
