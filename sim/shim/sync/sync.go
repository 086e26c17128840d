// Package sync is the simulated replacement for the standard sync package.
// Blocking and wake-ups go through the simulator's kernel; happens-before edges
// are those the Go memory model promises and no more.
package sync

import (
	"unsafe"

	"zsim/rt"
)

// Locker as in sync.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a simulated mutual exclusion lock.
type Mutex struct {
	locked bool
	nwait  int
	hb     byte
}

//go:norace
func (m *Mutex) Lock() {
	rt.Point()
	for m.locked {
		m.nwait++
		rt.Park(unsafe.Pointer(m))
		m.nwait--
	}
	m.locked = true
	rt.Acquire(unsafe.Pointer(&m.hb))
}

//go:norace
func (m *Mutex) TryLock() bool {
	rt.Point()
	if m.locked {
		return false
	}
	m.locked = true
	rt.Acquire(unsafe.Pointer(&m.hb))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	rt.Point()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	rt.ReleaseMerge(unsafe.Pointer(&m.hb))
	m.locked = false
	if m.nwait > 0 {
		rt.Wake(unsafe.Pointer(m))
	}
}

// RWMutex is a simulated reader/writer lock; a waiting writer blocks new readers.
type RWMutex struct {
	w       bool
	r       int
	wwait   int
	nwait   int
	hbW     byte
	hbR     byte
	started byte
}

//go:norace
func (m *RWMutex) RLock() {
	rt.Point()
	for m.w || m.wwait > 0 {
		m.nwait++
		rt.Park(unsafe.Pointer(m))
		m.nwait--
	}
	m.r++
	rt.Acquire(unsafe.Pointer(&m.hbW))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	rt.Point()
	if m.w || m.wwait > 0 {
		return false
	}
	m.r++
	rt.Acquire(unsafe.Pointer(&m.hbW))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	rt.Point()
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rt.ReleaseMerge(unsafe.Pointer(&m.hbR))
	m.r--
	if m.r == 0 && m.nwait > 0 {
		rt.Wake(unsafe.Pointer(m))
	}
}

//go:norace
func (m *RWMutex) Lock() {
	rt.Point()
	for m.w || m.r > 0 {
		m.wwait++
		m.nwait++
		rt.Park(unsafe.Pointer(m))
		m.nwait--
		m.wwait--
	}
	m.w = true
	rt.Acquire(unsafe.Pointer(&m.hbW))
	rt.Acquire(unsafe.Pointer(&m.hbR))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	rt.Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	rt.Acquire(unsafe.Pointer(&m.hbW))
	rt.Acquire(unsafe.Pointer(&m.hbR))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	rt.Point()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rt.ReleaseMerge(unsafe.Pointer(&m.hbW))
	m.w = false
	if m.nwait > 0 {
		rt.Wake(unsafe.Pointer(m))
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker as in sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is a simulated wait group.
type WaitGroup struct {
	n     int
	nwait int
	hb    byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	rt.Point()
	if d < 0 {
		rt.ReleaseMerge(unsafe.Pointer(&w.hb))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 && w.nwait > 0 {
		rt.Wake(unsafe.Pointer(w))
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	rt.Point()
	woken := false
	for w.n > 0 && !woken {
		w.nwait++
		rt.Park(unsafe.Pointer(w))
		w.nwait--
		woken = true
	}
	rt.Acquire(unsafe.Pointer(&w.hb))
}

// Go as in sync.WaitGroup.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once as in sync.
type Once struct {
	done bool
	m    Mutex
	hb   byte
}

//go:norace
func (o *Once) Do(f func()) {
	rt.Point()
	if o.done {
		rt.Acquire(unsafe.Pointer(&o.hb))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		f()
	}
}

//go:norace
func (o *Once) finish() {
	rt.Release(unsafe.Pointer(&o.hb))
	o.done = true
}

// OnceFunc as in sync.
func OnceFunc(f func()) func() {
	var o Once
	var bad bool
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				if bad {
					p = recover()
					panic(p)
				}
			}()
			bad = true
			f()
			bad = false
		})
		if bad {
			panic(p)
		}
	}
}

// OnceValue as in sync.
func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

// OnceValues as in sync.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var a T1
	var b T2
	g := OnceFunc(func() { a, b = f() })
	return func() (T1, T2) { g(); return a, b }
}

type condWaiter struct {
	next *condWaiter
	done bool
	hb   byte
}

// Cond as in sync.
type Cond struct {
	L          Locker
	head, tail *condWaiter
}

// NewCond as in sync.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	w := &condWaiter{}
	if c.tail == nil {
		c.head, c.tail = w, w
	} else {
		c.tail.next = w
		c.tail = w
	}
	c.L.Unlock()
	for !w.done {
		rt.Park(unsafe.Pointer(w))
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	rt.Point()
	c.one()
}

//go:norace
func (c *Cond) one() bool {
	w := c.head
	if w == nil {
		return false
	}
	c.head = w.next
	if c.head == nil {
		c.tail = nil
	}
	w.done = true
	rt.Wake(unsafe.Pointer(w))
	return true
}

//go:norace
func (c *Cond) Broadcast() {
	rt.Point()
	for c.one() {
	}
}

type poolItem struct {
	next *poolItem
	v    any
	hb   byte
}

// Pool as in sync: Get may return any stored object or a new one, and stored
// objects may vanish; the run's PRNG decides.
type Pool struct {
	New  func() any
	n    int
	head *poolItem
	gen  int
}

// filled lists the pools that got something since the last DrainPools.
var filled []*Pool
var poolGen = 1

// ForgetPools stops listing pools; what they store stays.
func ForgetPools() { filled, poolGen = nil, poolGen+1 }

// DrainPools empties every pool filled since ForgetPools, as a garbage
// collection may.
func DrainPools() {
	for _, p := range filled {
		p.head, p.n = nil, 0
	}
	ForgetPools()
}

//go:norace
func (p *Pool) take() (any, bool) {
	if p.n == 0 {
		return nil, false
	}
	r := 0
	if rt.Active() {
		if rt.AuxIntn(8) == 0 {
			return nil, false
		}
		r = rt.AuxIntn(p.n)
	}
	pp := &p.head
	for i := 0; i < r; i++ {
		pp = &(*pp).next
	}
	it := *pp
	*pp = it.next
	p.n--
	rt.Acquire(unsafe.Pointer(&it.hb))
	return it.v, true
}

func (p *Pool) Get() any {
	rt.Point()
	if v, ok := p.take(); ok {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(v any) {
	rt.Point()
	if v == nil {
		return
	}
	if rt.Active() && rt.AuxIntn(16) == 0 {
		return // collected
	}
	it := &poolItem{v: v, next: p.head}
	rt.ReleaseMerge(unsafe.Pointer(&it.hb))
	p.head = it
	p.n++
	if p.gen != poolGen {
		p.gen = poolGen
		filled = append(filled, p)
	}
}

type mapEntry struct {
	next *mapEntry
	k, v any
	dead bool
	hb   byte
}

// Map as in sync, as a list.
type Map struct{ head *mapEntry }

//go:norace
func (m *Map) find(k any) *mapEntry {
	for e := m.head; e != nil; e = e.next {
		if !e.dead && e.k == k {
			return e
		}
	}
	return nil
}

//go:norace
func (m *Map) Load(k any) (any, bool) {
	rt.Point()
	if e := m.find(k); e != nil {
		rt.Acquire(unsafe.Pointer(&e.hb))
		return e.v, true
	}
	return nil, false
}

//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	rt.Point()
	if e := m.find(k); e != nil {
		old := e.v
		rt.Acquire(unsafe.Pointer(&e.hb))
		rt.ReleaseMerge(unsafe.Pointer(&e.hb))
		e.v = v
		return old, true
	}
	e := &mapEntry{k: k, v: v, next: m.head}
	rt.ReleaseMerge(unsafe.Pointer(&e.hb))
	m.head = e
	return nil, false
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	rt.Point()
	if e := m.find(k); e != nil {
		rt.Acquire(unsafe.Pointer(&e.hb))
		return e.v, true
	}
	e := &mapEntry{k: k, v: v, next: m.head}
	rt.ReleaseMerge(unsafe.Pointer(&e.hb))
	m.head = e
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	rt.Point()
	if e := m.find(k); e != nil {
		rt.Acquire(unsafe.Pointer(&e.hb))
		m.drop(e)
		return e.v, true
	}
	return nil, false
}

// drop unlinks an entry; a Range that stands on it goes on from there.
//
//go:norace
func (m *Map) drop(e *mapEntry) {
	e.dead = true
	for p := &m.head; *p != nil; p = &(*p).next {
		if *p == e {
			*p = e.next
			return
		}
	}
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:norace
func (m *Map) CompareAndSwap(k, old, new any) bool {
	rt.Point()
	if e := m.find(k); e != nil && e.v == old {
		rt.Acquire(unsafe.Pointer(&e.hb))
		rt.ReleaseMerge(unsafe.Pointer(&e.hb))
		e.v = new
		return true
	}
	return false
}

//go:norace
func (m *Map) CompareAndDelete(k, old any) bool {
	rt.Point()
	if e := m.find(k); e != nil && e.v == old {
		m.drop(e)
		return true
	}
	return false
}

//go:norace
func (m *Map) Range(f func(k, v any) bool) {
	rt.Point()
	for e := m.head; e != nil; e = e.next {
		if e.dead {
			continue
		}
		rt.Acquire(unsafe.Pointer(&e.hb))
		if !f(e.k, e.v) {
			return
		}
	}
}

//go:norace
func (m *Map) Clear() {
	rt.Point()
	m.head = nil
}
