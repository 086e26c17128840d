// Package time is the simulated replacement for the standard time package: the
// clock is the simulator's, and timers fire in simulated time.
package time

import (
	real "time"

	"zsim/rt"
)

var epoch = real.Date(2020, 1, 1, 0, 0, 0, 0, real.UTC)

func Now() Time             { rt.Point(); return epoch.Add(Duration(rt.Now())) }
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration) {
	if d < 0 {
		d = 0
	}
	rt.Sleep(int64(d))
}

// Timer as in time.
type Timer struct {
	C   <-chan Time
	c   chan Time
	f   func()
	gen int
	on  bool
}

//go:norace
func (t *Timer) start(d Duration) {
	t.gen++
	t.on = true
	g := t.gen
	rt.GoDaemon(func() { t.fire(g, d) })
}

//go:norace
func (t *Timer) fire(g int, d Duration) {
	Sleep(d)
	if t.gen != g || !t.on {
		return
	}
	t.on = false
	if t.f != nil {
		t.f()
		return
	}
	rt.Select(true, rt.SendCase[Time](t.c)(Now()))
}

//go:norace
func (t *Timer) Stop() bool {
	rt.Point()
	was := t.on
	t.on = false
	t.gen++
	return was
}

//go:norace
func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

func NewTimer(d Duration) *Timer {
	c := rt.MkChan(make(chan Time, 1))
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker as in time.
type Ticker struct {
	C   <-chan Time
	c   chan Time
	gen int
}

//go:norace
func (t *Ticker) run(d Duration) {
	t.gen++
	g := t.gen
	rt.GoDaemon(func() {
		for {
			Sleep(d)
			if t.gen != g {
				return
			}
			rt.Select(true, rt.SendCase[Time](t.c)(Now()))
		}
	})
}

//go:norace
func (t *Ticker) Stop() { t.gen++ }

//go:norace
func (t *Ticker) Reset(d Duration) { t.run(d) }

func NewTicker(d Duration) *Ticker {
	c := rt.MkChan(make(chan Time, 1))
	t := &Ticker{C: c, c: c}
	t.run(d)
	return t
}

func Tick(d Duration) <-chan Time { return NewTicker(d).C }
