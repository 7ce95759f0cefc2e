// Package simsync replaces "sync" in the instrumented library. Inside a
// simulation blocking is a scheduling decision; the real primitives underneath
// keep the happens-before edges the program itself creates.
package simsync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"SIMMODULE/zzverif/hook"
)

type (
	Map    = sync.Map
	Locker = sync.Locker
)

func held(ok bool) bool {
	if ok {
		hook.Held(1)
	}
	return ok
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	if !hook.Active() {
		m.m.Lock()
		return
	}
	hook.Yield()
	for !m.m.TryLock() {
		hook.Block(unsafe.Pointer(m))
	}
	hook.Held(1)
}
func (m *Mutex) TryLock() bool { return held(m.m.TryLock()) }
func (m *Mutex) Unlock() {
	m.m.Unlock()
	hook.Held(-1)
	hook.Unblock(unsafe.Pointer(m))
}

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	if !hook.Active() {
		m.m.Lock()
		return
	}
	hook.Yield()
	for !m.m.TryLock() {
		hook.Block(unsafe.Pointer(m))
	}
	hook.Held(1)
}
func (m *RWMutex) TryLock() bool { return held(m.m.TryLock()) }
func (m *RWMutex) Unlock() {
	m.m.Unlock()
	hook.Held(-1)
	hook.Unblock(unsafe.Pointer(m))
}
func (m *RWMutex) RLock() {
	if !hook.Active() {
		m.m.RLock()
		return
	}
	hook.Yield()
	for !m.m.TryRLock() {
		hook.Block(unsafe.Pointer(m))
	}
	hook.Held(1)
}
func (m *RWMutex) TryRLock() bool { return held(m.m.TryRLock()) }
func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	hook.Held(-1)
	hook.Unblock(unsafe.Pointer(m))
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() == 0 {
		o.m.Lock()
		defer o.m.Unlock()
		if o.done.Load() == 0 {
			defer o.done.Store(1)
			f()
		}
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

type WaitGroup struct {
	n  int64
	wg sync.WaitGroup
}

//go:norace
func (w *WaitGroup) Add(d int) {
	w.n += int64(d)
	w.wg.Add(d)
	if w.n == 0 {
		hook.Unblock(unsafe.Pointer(w))
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if hook.Active() {
		hook.Yield()
		for w.n > 0 {
			hook.Block(unsafe.Pointer(w))
		}
	}
	w.wg.Wait()
}

type Cond struct {
	L   Locker
	seq int64
	sig int64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	my := c.seq
	c.seq++
	c.L.Unlock()
	for c.sig <= my {
		hook.Block(unsafe.Pointer(c))
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if c.sig < c.seq {
		c.sig++
	}
	hook.Unblock(unsafe.Pointer(c))
}

//go:norace
func (c *Cond) Broadcast() {
	c.sig = c.seq
	hook.Unblock(unsafe.Pointer(c))
}

// Pool hands out any item it holds, or a new one, as the simulator decides.
type Pool struct {
	New   func() any
	items []*item
	gen   int
}

type item struct {
	v any
	b byte
}

//go:norace
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.fresh()
	it := &item{v: v}
	hook.RaceRelease(unsafe.Pointer(&it.b))
	if len(p.items) < 64 {
		p.items = append(p.items, it)
	}
}

//go:norace
func (p *Pool) Get() any {
	p.fresh()
	n := uint64(len(p.items))
	x := hook.Rnd()
	if n == 0 || x%8 == 7 {
		if p.New == nil {
			return nil
		}
		return p.New()
	}
	i := n - 1
	if x%2 == 1 {
		i = (x >> 8) % n
	}
	it := p.items[i]
	p.items[i] = p.items[n-1]
	p.items = p.items[:n-1]
	hook.RaceAcquire(unsafe.Pointer(&it.b))
	return it.v
}

// fresh lets go of what was put in before the pools were dropped.
//
//go:norace
func (p *Pool) fresh() {
	if g := hook.PoolGen; p.gen != g {
		p.gen, p.items = g, nil
	}
}
