package time

import (
	gotime "time"
	"unsafe"

	"verifsim/simrt"
)

type rep struct {
	wall uint64
	ext  int64
	loc  *gotime.Location
}

const (
	hasMonotonic   = 1 << 63
	unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
)

func mk(wall, mono int64) gotime.Time {
	sec := wall / 1e9
	ns := wall % 1e9
	t := gotime.Unix(sec, ns)
	r := (*rep)(unsafe.Pointer(&t))
	s := uint64(sec + unixToInternal - wallToInternal)
	if s>>33 == 0 {
		r.wall = hasMonotonic | s<<30 | uint64(ns)
		r.ext = mono + 1
	}
	return t
}

// Now carries the simulated wall clock and the simulated monotonic reading.
func Now() gotime.Time                           { return mk(simrt.Wall(), simrt.Now()) }
func Since(t gotime.Time) gotime.Duration        { return Now().Sub(t) }
func Until(t gotime.Time) gotime.Duration        { return t.Sub(Now()) }
func Sleep(d gotime.Duration)                    { simrt.Sleep(int64(d)) }
func After(d gotime.Duration) <-chan gotime.Time { return NewTimer(d).C }
func Tick(d gotime.Duration) <-chan gotime.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

type canceler interface{ Cancel() bool }

type Timer struct {
	C    <-chan gotime.Time
	c    chan gotime.Time
	f    func()
	ev   canceler
	on   bool
	proc int
}

func (t *Timer) arm(d gotime.Duration) {
	if d < 0 {
		d = 0
	}
	t.on = true
	proc := simrt.Cur().Proc
	t.ev = simrt.After(int64(d), func() {
		t.on = false
		if t.f != nil {
			simrt.Spawn(proc, "AfterFunc", t.f)
			return
		}
		simrt.TrySendNow(t.c, Now())
	})
}
func NewTimer(d gotime.Duration) *Timer {
	t := &Timer{c: make(chan gotime.Time, 1)}
	t.C = t.c
	t.arm(d)
	return t
}
func AfterFunc(d gotime.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}
func (t *Timer) Stop() bool {
	was := t.on
	if t.ev != nil {
		t.ev.Cancel()
	}
	t.on = false
	return was
}
func (t *Timer) Reset(d gotime.Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

type Ticker struct {
	C   <-chan gotime.Time
	c   chan gotime.Time
	gen int
	d   gotime.Duration
}

func NewTicker(d gotime.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan gotime.Time, 1), d: d}
	t.C = t.c
	t.arm()
	return t
}
func (t *Ticker) arm() {
	g := t.gen
	var f func()
	f = func() {
		if t.gen != g {
			return
		}
		simrt.TrySendNow(t.c, Now())
		simrt.After(int64(t.d), f)
	}
	simrt.After(int64(t.d), f)
}
func (t *Ticker) Stop() { t.gen++ }
func (t *Ticker) Reset(d gotime.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.gen++
	t.d = d
	t.arm()
}
