// Package sync replaces the standard package in the instrumented library.
package sync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"verif/rsim"
)

// The types have the sizes of the original ones, modulo 8, because these
// determine the alignment of the fields next to them on 32-bit machines.
const (
	padM  = (8 + unsafe.Sizeof(sync.Mutex{})%8 - unsafe.Sizeof(rsim.RW{})%8) % 8
	padRW = (8 + unsafe.Sizeof(sync.RWMutex{})%8 - unsafe.Sizeof(rsim.RW{})%8) % 8
	padO  = (8 + unsafe.Sizeof(sync.Once{})%8 - unsafe.Sizeof(once{})%8) % 8
	padP  = (8 + unsafe.Sizeof(sync.Pool{})%8 - unsafe.Sizeof(pool{})%8) % 8
	padMp = (8 + unsafe.Sizeof(sync.Map{})%8 - unsafe.Sizeof(smap{})%8) % 8
	padC  = (8 + unsafe.Sizeof(sync.Cond{})%8 - unsafe.Sizeof(cond{})%8) % 8
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	_  [padM]byte
	rw rsim.RW
}

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

type RWMutex struct {
	_  [padRW]byte
	rw rsim.RW
}

func (m *RWMutex) Lock()           { m.rw.Lock() }
func (m *RWMutex) Unlock()         { m.rw.Unlock() }
func (m *RWMutex) TryLock() bool   { return m.rw.TryLock() }
func (m *RWMutex) RLock()          { m.rw.RLock() }
func (m *RWMutex) RUnlock()        { m.rw.RUnlock() }
func (m *RWMutex) TryRLock() bool  { return m.rw.TryRLock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	_ [padO]byte
	once
}

type once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type Pool struct {
	New func() any
	_   [padP]byte
	pool
}

type pool struct {
	f     func() any
	items []any
	sv    rsim.SyncVar
}

func (p *Pool) Get() any {
	rsim.H()
	if n := len(p.items); n > 0 {
		rsim.Acquire(&p.sv)
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	rsim.H()
	if x != nil {
		rsim.Release(&p.sv)
		p.items = append(p.items, x)
	}
}

type Map struct {
	_ [padMp]byte
	smap
}

type smap struct {
	m    map[any]any
	keys []any
	sv   rsim.SyncVar
}

func (m *Map) Load(k any) (any, bool) {
	rsim.H()
	rsim.Acquire(&m.sv)
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) set(k, v any) {
	rsim.Release(&m.sv)
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) Store(k, v any) { rsim.H(); m.set(k, v) }

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if x, ok := m.Load(k); ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	v, ok := m.Load(k)
	m.del(k)
	return v, ok
}

func (m *Map) Swap(k, v any) (any, bool) {
	o, ok := m.Load(k)
	m.set(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, o, v any) bool {
	if x, ok := m.Load(k); ok && x == o {
		m.set(k, v)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	if x, ok := m.Load(k); ok && x == o {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() { rsim.H(); rsim.Release(&m.sv); m.m, m.keys = nil, nil }

func (m *Map) del(k any) {
	rsim.Release(&m.sv)
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Delete(k any) { rsim.H(); m.del(k) }

func (m *Map) Range(f func(k, v any) bool) {
	rsim.H()
	rsim.Acquire(&m.sv)
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

type WaitGroup struct {
	_  [0]atomic.Int64 // for the alignment
	n  int
	sv rsim.SyncVar
}

func (w *WaitGroup) Add(d int) { rsim.H(); rsim.Release(&w.sv); w.n += d }
func (w *WaitGroup) Done()     { w.Add(-1) }
func (w *WaitGroup) Wait() {
	rsim.WaitFor("WaitGroup", func() bool { return w.n <= 0 })
	rsim.Acquire(&w.sv)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rsim.Spawn(func() { defer w.Done(); f() })
}

// Cond has the semantics of sync.Cond.
type Cond struct {
	L Locker
	_ [padC]byte
	cond
}

type cond struct {
	l   Locker
	gen int
	sig int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	g := c.gen
	c.gen++
	c.L.Unlock()
	rsim.WaitFor("Cond", func() bool { return c.sig > g })
	c.L.Lock()
}

func (c *Cond) Signal() {
	rsim.H()
	if c.sig < c.gen {
		c.sig++
	}
}

func (c *Cond) Broadcast() { rsim.H(); c.sig = c.gen }
