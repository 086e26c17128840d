package rt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// Simulated channels. The program keeps real channels as identities (their
// type, nil-ness and capacity); the data flows through chanState. Waiters are
// served in FIFO order, as the Go runtime does.

type waiter struct {
	next *waiter
	g    *G
	sel  *selState // shared by all cases of one select
	idx  int
	val  any
	ok   bool
	a, b byte // happens-before anchors: a sender->receiver, b receiver->sender
}

type selState struct {
	done bool
	won  *waiter
	key  byte
}

type queue struct{ head, tail *waiter }

//go:norace
func (q *queue) push(w *waiter) {
	w.next = nil
	if q.tail == nil {
		q.head, q.tail = w, w
		return
	}
	q.tail.next = w
	q.tail = w
}

// pop returns the first waiter whose select is still undecided.
//
//go:norace
func (q *queue) pop() *waiter {
	for q.head != nil {
		w := q.head
		q.head = w.next
		if q.head == nil {
			q.tail = nil
		}
		if !w.sel.done {
			return w
		}
	}
	return nil
}

//go:norace
func (q *queue) empty() bool {
	for q.head != nil && q.head.sel.done {
		q.head = q.head.next
		if q.head == nil {
			q.tail = nil
		}
	}
	return q.head == nil
}

type bufNode struct {
	next *bufNode
	val  any
	a    byte
}

type slot struct{ b byte }

type chanState struct {
	pin     any
	capa    int
	n       int
	bufHead *bufNode
	bufTail *bufNode
	sendx   int
	recvx   int
	slots   []slot
	sendq   queue
	recvq   queue
	closed  bool
	csync   byte
}

// MkChan registers a channel made by the instrumented code.
//
//go:norace
func MkChan[T any](ch chan T) chan T {
	p := chanPtr(ch)
	st := &chanState{pin: ch, capa: cap(ch), slots: make([]slot, cap(ch)+1)}
	if k == nil {
		globalChans[p] = st
		globalPins = append(globalPins, ch)
		return ch
	}
	g := k.cur
	g.op = opRegChan
	g.argP = p
	g.retP = unsafe.Pointer(st)
	post(g)
	return ch
}

//go:norace
func chanPtr(ch any) unsafe.Pointer { return reflect.ValueOf(ch).UnsafePointer() }

//go:norace
func lookup(p unsafe.Pointer) *chanState {
	if k == nil {
		// while packages are initialised
		return globalChans[p]
	}
	g := k.cur
	g.op = opChan
	g.argP = p
	post(g)
	return (*chanState)(g.retP)
}

// Case is one communication of a select.
type Case struct {
	dir  int // 0 receive, 1 send
	p    unsafe.Pointer
	val  any
	real reflect.Value
	got  any
	ok   bool
}

// RCase is a typed receive case.
type RCase[T any] struct{ Case }

// SCase is a typed send case.
type SCase[T any] struct{ Case }

// Casep gives access to the untyped part.
type Casep interface{ base() *Case }

//go:norace
func (c *Case) base() *Case { return c }

//go:norace
func RecvCase[T any](ch <-chan T) *RCase[T] {
	c := &RCase[T]{}
	c.p = chanPtr(ch)
	c.real = reflect.ValueOf(ch)
	return c
}

//go:norace
func SendCase[T any](ch chan<- T) func(v T) *SCase[T] {
	return func(v T) *SCase[T] {
		c := &SCase[T]{}
		c.dir = 1
		c.p = chanPtr(ch)
		c.val = &v
		c.real = reflect.ValueOf(ch)
		return c
	}
}

// Val returns the received value.
//
//go:norace
func (c *RCase[T]) Val() T { v, _ := c.Val2(); return v }

// Val2 returns the received value and whether it came from a send.
//
//go:norace
func (c *RCase[T]) Val2() (T, bool) {
	if c.got == nil {
		var z T
		return z, c.ok
	}
	return *(c.got.(*T)), c.ok
}

// Select performs one of the cases and returns its index (-1: default).
//
//go:norace
func Select(hasDefault bool, cases ...Casep) int {
	Point()
	n := len(cases)
	start := AuxIntn(n)
	sts := make([]*chanState, n)
	foreign := false
	for i := 0; i < n; i++ {
		c := cases[i].base()
		if c.p == nil {
			continue
		}
		sts[i] = lookup(c.p)
		if sts[i] == nil {
			foreign = true
		}
	}
	for {
		for j := 0; j < n; j++ {
			i := (start + j) % n
			c := cases[i].base()
			if c.p == nil {
				continue
			}
			if sts[i] == nil {
				if foreignTry(c) {
					return i
				}
				continue
			}
			if c.dir == 1 {
				if trySend(sts[i], c.val) {
					return i
				}
			} else if v, ok, done := tryRecv(sts[i]); done {
				c.got, c.ok = v, ok
				return i
			}
		}
		if hasDefault {
			return -1
		}
		if !foreign {
			break
		}
		// a channel the simulator does not own: poll it in simulated time
		Sleep(1000)
		foreignPolls++
		if foreignPolls > 100000 {
			Fail("deadlock", "blocked on a channel made outside the simulated code")
		}
	}
	// block
	sel := &selState{}
	g := k.cur
	ws := make([]*waiter, n)
	for i := 0; i < n; i++ {
		c := cases[i].base()
		if c.p == nil {
			continue
		}
		w := &waiter{g: g, sel: sel, idx: i, val: c.val}
		ws[i] = w
		if c.dir == 1 {
			ReleaseMerge(unsafe.Pointer(&w.a))
			sts[i].sendq.push(w)
		} else {
			ReleaseMerge(unsafe.Pointer(&w.b))
			sts[i].recvq.push(w)
		}
	}
	for !sel.done {
		Park(unsafe.Pointer(&sel.key))
	}
	w := sel.won
	c := cases[w.idx].base()
	if c.dir == 1 {
		Acquire(unsafe.Pointer(&w.b))
		if !w.ok {
			panic("send on closed channel")
		}
	} else {
		Acquire(unsafe.Pointer(&w.a))
		c.got, c.ok = w.val, w.ok
	}
	return w.idx
}

var foreignPolls int

//go:norace
func foreignTry(c *Case) bool {
	if c.dir == 1 {
		return c.real.TrySend(reflect.ValueOf(c.val).Elem())
	}
	v, ok := c.real.TryRecv()
	if !v.IsValid() {
		return false
	}
	if ok {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		c.got = p.Interface()
	}
	c.ok = ok
	return true
}

//go:norace
func win(w *waiter) {
	w.sel.done = true
	w.sel.won = w
	Wake(unsafe.Pointer(&w.sel.key))
}

//go:norace
func trySend(st *chanState, v any) bool {
	if st.closed {
		panic("send on closed channel")
	}
	if w := st.recvq.pop(); w != nil {
		// hand over directly to a waiting receiver
		w.val, w.ok = v, true
		ReleaseMerge(unsafe.Pointer(&w.a))
		if st.capa == 0 {
			Acquire(unsafe.Pointer(&w.b))
		}
		win(w)
		return true
	}
	if st.n < st.capa {
		b := &bufNode{val: v}
		Acquire(unsafe.Pointer(&st.slots[st.sendx].b))
		ReleaseMerge(unsafe.Pointer(&b.a))
		st.sendx = (st.sendx + 1) % st.capa
		if st.bufTail == nil {
			st.bufHead, st.bufTail = b, b
		} else {
			st.bufTail.next = b
			st.bufTail = b
		}
		st.n++
		return true
	}
	return false
}

//go:norace
func tryRecv(st *chanState) (v any, ok, done bool) {
	if st.n > 0 {
		b := st.bufHead
		st.bufHead = b.next
		if st.bufHead == nil {
			st.bufTail = nil
		}
		st.n--
		Acquire(unsafe.Pointer(&b.a))
		ReleaseMerge(unsafe.Pointer(&st.slots[st.recvx].b))
		st.recvx = (st.recvx + 1) % st.capa
		if w := st.sendq.pop(); w != nil {
			// a blocked sender moves into the buffer
			nb := &bufNode{val: w.val}
			Acquire(unsafe.Pointer(&w.a))
			ReleaseMerge(unsafe.Pointer(&nb.a))
			ReleaseMerge(unsafe.Pointer(&w.b))
			st.sendx = (st.sendx + 1) % st.capa
			if st.bufTail == nil {
				st.bufHead, st.bufTail = nb, nb
			} else {
				st.bufTail.next = nb
				st.bufTail = nb
			}
			st.n++
			w.ok = true
			win(w)
		}
		return b.val, true, true
	}
	if w := st.sendq.pop(); w != nil {
		Acquire(unsafe.Pointer(&w.a))
		ReleaseMerge(unsafe.Pointer(&w.b))
		w.ok = true
		v = w.val
		win(w)
		return v, true, true
	}
	if st.closed {
		Acquire(unsafe.Pointer(&st.csync))
		return nil, false, true
	}
	return nil, false, false
}

// Send returns the function that sends on ch.
//
//go:norace
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

//go:norace
func send[T any](ch chan<- T, v T) {
	if ch == nil {
		BlockForever()
	}
	c := SendCase(ch)(v)
	Select(false, c)
}

//go:norace
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if ch == nil {
		BlockForever()
	}
	c := RecvCase(ch)
	Select(false, c)
	return c.Val2()
}

// BlockForever never returns.
//
//go:norace
func BlockForever() {
	var key byte
	for {
		Park(unsafe.Pointer(&key))
	}
}

//go:norace
func Close[T any](ch chan<- T) {
	if ch == nil {
		panic("close of nil channel")
	}
	Point()
	st := lookup(chanPtr(ch))
	if st == nil {
		close(ch)
		return
	}
	if st.closed {
		panic("close of closed channel")
	}
	st.closed = true
	ReleaseMerge(unsafe.Pointer(&st.csync))
	for {
		w := st.recvq.pop()
		if w == nil {
			break
		}
		w.val, w.ok = nil, false
		ReleaseMerge(unsafe.Pointer(&w.a))
		win(w)
	}
	for {
		w := st.sendq.pop()
		if w == nil {
			break
		}
		w.ok = false
		win(w)
	}
}

//go:norace
func Len[T any](ch <-chan T) int {
	if ch == nil {
		return 0
	}
	Point()
	st := lookup(chanPtr(ch))
	if st == nil {
		return len(ch)
	}
	return st.n
}

// ChanRange iterates over a channel.
type ChanRange[T any] struct{ ch <-chan T }

//go:norace
func RangeChan[T any](ch <-chan T) (*ChanRange[T], T) {
	var z T
	return &ChanRange[T]{ch}, z
}

//go:norace
func (r *ChanRange[T]) Next(v *T) bool {
	x, ok := Recv2(r.ch)
	if ok && v != nil {
		*v = x
	}
	return ok
}

// MapRange iterates over a map in an order drawn from the run's PRNG.
type MapRange[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func RangeMap[K comparable, V any](m map[K]V) (*MapRange[K, V], K, V) {
	var zk K
	var zv V
	r := &MapRange[K, V]{m: m}
	for kk := range m {
		r.keys = append(r.keys, kk)
	}
	sortKeys(r.keys)
	for i := len(r.keys) - 1; i > 0; i-- {
		j := AuxIntn(i + 1)
		r.keys[i], r.keys[j] = r.keys[j], r.keys[i]
	}
	return r, zk, zv
}

func sortKeys[K comparable](ks []K) {
	txt := make([]string, len(ks))
	for i := range ks {
		txt[i] = fmt.Sprintf("%v", ks[i])
	}
	// insertion sort keeps both slices in step
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && txt[j] < txt[j-1]; j-- {
			txt[j], txt[j-1] = txt[j-1], txt[j]
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
}

func (r *MapRange[K, V]) Next(kp *K, vp *V) bool {
	for r.i < len(r.keys) {
		key := r.keys[r.i]
		r.i++
		v, ok := r.m[key]
		if !ok {
			continue
		}
		if kp != nil {
			*kp = key
		}
		if vp != nil {
			*vp = v
		}
		return true
	}
	return false
}

// GoCall starts f(args...) with the arguments already evaluated.
func GoCall(f any, ellipsis bool, args ...any) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 && !ellipsis {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else {
			v := reflect.ValueOf(a)
			if v.Type() != pt && v.Type().ConvertibleTo(pt) && pt.Kind() != reflect.Interface {
				v = v.Convert(pt)
			}
			in[i] = v
		}
	}
	Go(func() {
		if ellipsis {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	})
}
