// Package sync stands in for sync under the simulated scheduler.
package sync

import (
	"lhasim/vsim"
	"sync"
	"unsafe"
)

type Locker = sync.Locker
type Map = sync.Map

type Mutex struct{ _ [1]uint64 }

func (m *Mutex) Lock()         { vsim.Lock(unsafe.Pointer(m)) }
func (m *Mutex) Unlock()       { vsim.Unlock(unsafe.Pointer(m)) }
func (m *Mutex) TryLock() bool { return vsim.TryLock(unsafe.Pointer(m)) }

type RWMutex struct{ _ [1]uint64 }

func (m *RWMutex) Lock()          { vsim.Lock(unsafe.Pointer(m)) }
func (m *RWMutex) Unlock()        { vsim.Unlock(unsafe.Pointer(m)) }
func (m *RWMutex) TryLock() bool  { return vsim.TryLock(unsafe.Pointer(m)) }
func (m *RWMutex) RLock()         { vsim.RLock(unsafe.Pointer(m)) }
func (m *RWMutex) RUnlock()       { vsim.RUnlock(unsafe.Pointer(m)) }
func (m *RWMutex) TryRLock() bool { return vsim.TryRLock(unsafe.Pointer(m)) }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct{ n int }

func (g *WaitGroup) Add(d int) { g.n += d }
func (g *WaitGroup) Done()     { g.n-- }
func (g *WaitGroup) Wait()     { vsim.WaitFor(func() bool { return g.n <= 0 }) }
func (g *WaitGroup) Go(f func()) {
	g.n++
	vsim.Go(func() { defer g.Done(); f() })
}

type Cond struct {
	L   Locker
	seq int
	rel int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.seq++
	my := c.seq
	c.L.Unlock()
	vsim.WaitFor(func() bool { return c.rel >= my })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if c.rel < c.seq {
		c.rel++
	}
}
func (c *Cond) Broadcast() { c.rel = c.seq }

type Pool struct {
	New  func() any
	free []any
}

func (p *Pool) Get() any {
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) { p.free = append(p.free, x) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}
