// Package simtime replaces package time: the clock is simulated. It advances by
// one millisecond per reading and, when every task waits, to the next timer.
package simtime

import (
	"time"

	"VERIFSIM/sim"
)

// Epoch is the time at which every run starts.
var Epoch = time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC)

var elapsed time.Duration

// SimReset sets the clock back to the epoch.
func SimReset() { elapsed = 0; pending = nil }

// Elapsed returns the simulated time passed.
func Elapsed() time.Duration { return elapsed }

// Advance moves the clock.
//
//go:norace
func Advance(d time.Duration) { elapsed += d }

//go:norace
func Now() time.Time { elapsed += time.Millisecond; return Epoch.Add(elapsed) }

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// alarm is something that happens at a certain time.
type alarm struct {
	next *alarm
	at   time.Duration
	fire func()
	on   bool
}

var pending *alarm

//go:norace
func (a *alarm) set(d time.Duration) {
	a.at = elapsed + max(d, 0)
	a.on = true
	p := &pending
	for *p != nil && (*p).at <= a.at {
		p = &(*p).next
	}
	a.next = *p
	*p = a
}

//go:norace
func (a *alarm) stop() bool {
	was := a.on
	a.on = false
	for p := &pending; *p != nil; p = &(*p).next {
		if *p == a {
			*p = a.next
			break
		}
	}
	return was
}

// idle lets time pass until the next alarm.
//
//go:norace
func idle() bool {
	a := pending
	if a == nil {
		return false
	}
	pending = a.next
	elapsed = max(elapsed, a.at)
	a.on = false
	a.fire()
	return true
}

func init() { sim.OnIdle(idle) }

//go:norace
func Sleep(d time.Duration) {
	if !sim.Tasking() {
		elapsed += max(d, 0)
		return
	}
	a := &alarm{fire: func() {}}
	a.set(d)
	for a.on {
		sim.Block()
	}
}

// Timer is a simulated timer.
type Timer struct {
	C <-chan time.Time
	a alarm
}

func (t *Timer) Stop() bool { return t.a.stop() }

func (t *Timer) Reset(d time.Duration) bool {
	was := t.a.stop()
	if t.C != nil {
		select {
		case <-t.C:
		default:
		}
	}
	t.a.set(d)
	return was
}

//go:norace
func now() time.Time { return Epoch.Add(elapsed) }

func offer(c chan time.Time) {
	select {
	case c <- now():
	default:
	}
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c}
	t.a.fire = func() { offer(c) }
	t.a.set(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{}
	t.a.fire = func() { sim.GoIdle(f) }
	t.a.set(d)
	return t
}

// Ticker is a simulated ticker.
type Ticker struct {
	C <-chan time.Time
	a alarm
	d time.Duration
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, d: d}
	t.a.fire = func() { offer(c); t.a.set(t.d) }
	t.a.set(d)
	return t
}

func (t *Ticker) Stop() { t.a.stop() }

func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.a.stop()
	t.d = d
	t.a.set(d)
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
