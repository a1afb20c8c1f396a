// Package simsync is what "sync" means in the code under test: the same API,
// with every lock, wait and map iteration under the simulator's control.
package simsync

import (
	"fmt"
	"sync"
	"unsafe"

	"a0sim/hb"
	"a0sim/sched"
)

type Locker = sync.Locker

type waiters struct{ q []*sched.Task }

func (w *waiters) wait(on string) {
	w.q = append(w.q, sched.Cur())
	sched.Block(on)
}

// all wakes every waiter: they compete again, and the scheduler decides.
func (w *waiters) all() {
	q := w.q
	w.q = nil
	for _, t := range q {
		sched.Wake(t)
	}
}

// Mutex is sync.Mutex.
type Mutex struct {
	held bool
	w    waiters
}

func (m *Mutex) Lock() {
	defer hb.Restore(hb.Quiet())
	sched.P(-1)
	for m.held {
		m.w.wait("mutex")
	}
	m.held = true
	hb.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	defer hb.Restore(hb.Quiet())
	sched.P(-1)
	if m.held {
		return false
	}
	m.held = true
	hb.Acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	defer hb.Restore(hb.Quiet())
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	hb.Release(unsafe.Pointer(m))
	m.w.all()
	sched.P(-2)
}

// RWMutex is sync.RWMutex, a waiting writer keeping new readers out.
type RWMutex struct {
	rs, ws  byte // what readers and writers wait for, to the race detector
	readers int
	writer  bool
	wwait   int
	w       waiters
}

func (m *RWMutex) Lock() {
	defer hb.Restore(hb.Quiet())
	sched.P(-3)
	m.wwait++
	for m.writer || m.readers > 0 {
		m.w.wait("rwmutex.Lock")
	}
	m.wwait--
	m.writer = true
	hb.Acquire(unsafe.Pointer(&m.rs))
	hb.Acquire(unsafe.Pointer(&m.ws))
}

func (m *RWMutex) TryLock() bool {
	defer hb.Restore(hb.Quiet())
	sched.P(-3)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	hb.Acquire(unsafe.Pointer(&m.rs))
	hb.Acquire(unsafe.Pointer(&m.ws))
	return true
}

func (m *RWMutex) Unlock() {
	defer hb.Restore(hb.Quiet())
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	hb.Release(unsafe.Pointer(&m.rs))
	m.w.all()
	sched.P(-4)
}

func (m *RWMutex) RLock() {
	defer hb.Restore(hb.Quiet())
	sched.P(-5)
	for m.writer || m.wwait > 0 {
		m.w.wait("rwmutex.RLock")
	}
	m.readers++
	hb.Acquire(unsafe.Pointer(&m.rs))
}

func (m *RWMutex) TryRLock() bool {
	defer hb.Restore(hb.Quiet())
	sched.P(-5)
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	hb.Acquire(unsafe.Pointer(&m.rs))
	return true
}

func (m *RWMutex) RUnlock() {
	defer hb.Restore(hb.Quiet())
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	hb.ReleaseMerge(unsafe.Pointer(&m.ws))
	m.w.all()
	sched.P(-6)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	defer hb.Restore(hb.Quiet())
	sched.P(-7)
	if o.done {
		hb.Acquire(unsafe.Pointer(&o.done))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			hb.Quiet()
			hb.Release(unsafe.Pointer(&o.done))
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p interface{}
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			f = nil
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	w waiters
}

func (g *WaitGroup) Add(d int) {
	defer hb.Restore(hb.Quiet())
	if d < 0 {
		hb.ReleaseMerge(unsafe.Pointer(g))
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.w.all()
	}
	sched.P(-8)
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	defer hb.Restore(hb.Quiet())
	sched.P(-9)
	for g.n > 0 {
		g.w.wait("waitgroup")
	}
	hb.Acquire(unsafe.Pointer(g))
}
func (g *WaitGroup) Go(f func()) {
	defer hb.Restore(hb.Quiet())
	g.Add(1)
	sched.Go(func() {
		defer g.Done()
		f()
	})
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	w waiters
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	defer hb.Restore(hb.Quiet())
	c.w.q = append(c.w.q, sched.Cur())
	t := sched.Cur()
	c.L.Unlock()
	for c.queued(t) {
		sched.Block("cond")
	}
	hb.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}
func (c *Cond) queued(t *sched.Task) bool {
	for _, x := range c.w.q {
		if x == t {
			return true
		}
	}
	return false
}
func (c *Cond) Signal() {
	defer hb.Restore(hb.Quiet())
	hb.ReleaseMerge(unsafe.Pointer(c))
	if len(c.w.q) > 0 {
		t := c.w.q[0]
		c.w.q = c.w.q[1:]
		sched.Wake(t)
	}
	sched.P(-10)
}
func (c *Cond) Broadcast() {
	defer hb.Restore(hb.Quiet())
	hb.ReleaseMerge(unsafe.Pointer(c))
	c.w.all()
	sched.P(-10)
}

// Pool is sync.Pool; whether an item is kept is up to the environment.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	defer hb.Restore(hb.Quiet())
	sched.P(-11)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		hb.Acquire(unsafe.Pointer(p))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	defer hb.Restore(hb.Quiet())
	if x != nil {
		hb.ReleaseMerge(unsafe.Pointer(p))
		p.items = append(p.items, x)
	}
	sched.P(-12)
}

// Map is sync.Map: every operation is atomic, Range visits in an order the
// environment picks and sees concurrent changes entry by entry. A write is
// ordered before the reads that see what it did.
type Map struct {
	m    map[any]*entry
	keys []any
}

type entry struct {
	v  any
	hb byte
}

func (m *Map) load(k any) (any, bool) {
	e := m.m[k]
	if e == nil {
		hb.Acquire(unsafe.Pointer(m))
		return nil, false
	}
	hb.Acquire(unsafe.Pointer(&e.hb))
	return e.v, true
}
func (m *Map) store(k, v any) {
	if m.m == nil {
		m.m = map[any]*entry{}
	}
	e := m.m[k]
	if e == nil {
		m.keys = append(m.keys, k)
		e = &entry{}
		m.m[k] = e
	}
	hb.ReleaseMerge(unsafe.Pointer(&e.hb))
	e.v = v
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		hb.ReleaseMerge(unsafe.Pointer(m))
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Load(k any) (any, bool) {
	defer hb.Restore(hb.Quiet())
	sched.P(-20)
	return m.load(k)
}
func (m *Map) Store(k, v any) {
	defer hb.Restore(hb.Quiet())
	sched.P(-21)
	m.store(k, v)
	sched.P(-22)
}
func (m *Map) Delete(k any) {
	defer hb.Restore(hb.Quiet())
	sched.P(-23)
	m.del(k)
	sched.P(-24)
}
func (m *Map) Clear() {
	defer hb.Restore(hb.Quiet())
	sched.P(-25)
	hb.ReleaseMerge(unsafe.Pointer(m))
	m.m = nil
	m.keys = nil
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	defer hb.Restore(hb.Quiet())
	sched.P(-26)
	if x, ok := m.load(k); ok {
		return x, true
	}
	m.store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	defer hb.Restore(hb.Quiet())
	sched.P(-27)
	v, ok := m.load(k)
	m.del(k)
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	defer hb.Restore(hb.Quiet())
	sched.P(-28)
	x, ok := m.load(k)
	m.store(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	defer hb.Restore(hb.Quiet())
	sched.P(-29)
	x, ok := m.load(k)
	if !ok || x != old {
		return false
	}
	m.store(k, new)
	return true
}
func (m *Map) CompareAndDelete(k, old any) bool {
	defer hb.Restore(hb.Quiet())
	sched.P(-30)
	x, ok := m.load(k)
	if !ok || x != old {
		return false
	}
	m.del(k)
	return true
}
func (m *Map) Range(f func(k, v any) bool) {
	defer hb.Restore(hb.Quiet())
	sched.P(-31)
	keys := append([]any(nil), m.keys...)
	if n := len(keys); n > 1 {
		if s := sched.Env("map-order", 1<<20); s != 0 {
			r := sched.NewRand(uint64(s))
			for i := n - 1; i > 0; i-- {
				j := r.Int(i + 1)
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	for _, k := range keys {
		sched.P(-32)
		v, ok := m.load(k)
		if !ok {
			continue
		}
		on := f(k, v)
		hb.Quiet()
		if !on {
			return
		}
	}
}

var _ = fmt.Sprint
