// Package time replaces the standard package: clock, sleeps and timers are simulated.
package time

import (
	real "time"

	"verifsim/rt"
)

func Now() real.Time {
	if rt.S == nil {
		return real.Unix(rt.Epoch, 0).UTC()
	}
	rt.YS()
	return wall()
}

func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }
func Sleep(d real.Duration)           { rt.Sleep(int64(d)) }

type Timer struct {
	C   <-chan real.Time
	c   chan real.Time
	f   func()
	off *bool
	on  bool
}

func (t *Timer) arm(d real.Duration) {
	if rt.Dead() {
		return
	}
	t.on = true
	t.off = rt.S.After(int64(d), func() {
		t.on = false
		if t.f != nil {
			rt.Go(t.f)
			return
		}
		rt.TrySend(t.c, wall())
	})
}

func NewTimer(d real.Duration) *Timer {
	rt.YS()
	t := &Timer{c: make(chan real.Time, 1)}
	t.C = t.c
	t.arm(d)
	return t
}

func AfterFunc(d real.Duration, f func()) *Timer {
	rt.YS()
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool {
	rt.YS()
	was := t.on
	if t.off != nil {
		*t.off = true
	}
	t.on = false
	return was
}

func (t *Timer) Reset(d real.Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

func After(d real.Duration) <-chan real.Time { return NewTimer(d).C }

type Ticker struct {
	C   <-chan real.Time
	c   chan real.Time
	d   real.Duration
	gen int
}

func (t *Ticker) arm(gen int) {
	if rt.Dead() {
		return
	}
	rt.S.After(int64(t.d), func() {
		if t.gen != gen {
			return
		}
		rt.S.Probe("tick")
		rt.TrySend(t.c, wall())
		t.arm(gen)
	})
}

func NewTicker(d real.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	rt.YS()
	t := &Ticker{c: make(chan real.Time, 1), d: d}
	t.C = t.c
	t.arm(0)
	return t
}

func (t *Ticker) Stop() { rt.YS(); t.gen++ }
func (t *Ticker) Reset(d real.Duration) {
	rt.YS()
	t.gen++
	t.d = d
	t.arm(t.gen)
}

func Tick(d real.Duration) <-chan real.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Deadline converts a wall time of the simulation to simulated nanoseconds.
// Deadline is the simulated time of an instant.
func Deadline(t real.Time) int64 {
	left := t.Sub(wall()).Nanoseconds()
	if d := left + rt.S.Now(); left < 0 || d > left {
		return d
	}
	return left
}

func wall() real.Time { return real.Unix(0, rt.S.Unix()).UTC() }
