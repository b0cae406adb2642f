// Package time stands in for the standard package under the explorer: the
// clock is virtual.
package time

import (
	"time"

	"stompmc/mc"
)

func Now() Time { return mc.Epoch.Add(Duration(mc.ReadClock())) }

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { mc.Sleep(d) }

// Timer has the semantics of Go 1.23 and later: no stale value is received
// after Stop or Reset.
type Timer struct {
	C *mc.Chan[Time]
	f func()
	t *mc.Timer
}

func at(ns int64) Time { return mc.Epoch.Add(Duration(ns)) }

func (t *Timer) arm(d Duration) {
	if t.f != nil {
		ord := mc.Reserve()
		t.t = mc.AddTimer(int64(d), func(tag uint64) {
			mc.SpawnFromTimer("AfterFunc", t.f, tag, ord, t.t.VC())
		})
		return
	}
	t.t = mc.AddTimer(int64(d), func(tag uint64) {
		mc.Inject(t.C, at(mc.NowNS()), tag, t.t.VC())
	})
	mc.Feeds(t.t, t.C)
}

func NewTimer(d Duration) *Timer {
	t := &Timer{C: mc.TimerChan()}
	t.arm(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func After(d Duration) *mc.Chan[Time] { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	return t.t.Stop()
}

func (t *Timer) Reset(d Duration) bool {
	if t.t == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	was := t.t.Stop()
	t.arm(d)
	return was
}

type Ticker struct {
	C *mc.Chan[Time]
	t *mc.Timer
}

func (t *Ticker) arm(d Duration) {
	t.t = mc.AddTimer(int64(d), func(tag uint64) {
		mc.Inject(t.C, at(mc.NowNS()), tag, t.t.VC())
		t.t.Rearm(mc.NowNS() + int64(d))
	})
	mc.Feeds(t.t, t.C)
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: mc.TimerChan()}
	t.arm(d)
	return t
}

func (t *Ticker) Stop() {
	if t.t != nil {
		t.t.Stop()
	}
}

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.t.Stop()
	t.arm(d)
}

func Tick(d Duration) *mc.Chan[Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

var _ = time.Now
