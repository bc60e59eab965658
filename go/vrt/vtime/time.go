// Package vtime replaces the clock functions of time.
package vtime

import (
	"time"
	"vrt"
)

func Now() time.Time {
	if vrt.W == nil {
		return vrt.BaseTime
	}
	return vrt.W.Now()
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration) {
	if vrt.W != nil {
		vrt.W.Sleep(d)
	}
}

type Timer struct {
	C *vrt.Chan[time.Time]
	t *vrt.TimerHandle
	f func()
}

func NewTimer(d time.Duration) *Timer {
	c := vrt.MakeChan[time.Time](1)
	t := &Timer{C: c}
	t.t = vrt.StartTimer(d, 0, func(now time.Time) { c.TrySend(now) })
	return t
}
func After(d time.Duration) *vrt.Chan[time.Time] { return NewTimer(d).C }
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.t = vrt.StartTimer(d, 0, func(time.Time) { vrt.SpawnFromTimer(f) })
	return t
}
func (t *Timer) Stop() bool {
	a := t.t.Stop()
	if t.C != nil {
		t.C.Drain()
	}
	return a
}
func (t *Timer) Reset(d time.Duration) bool {
	a := t.t.Stop()
	if t.f != nil {
		f := t.f
		t.t = vrt.StartTimer(d, 0, func(time.Time) { vrt.SpawnFromTimer(f) })
		return a
	}
	// the module says go 1.16: Reset leaves a stale value in the channel
	c := t.C
	t.t = vrt.StartTimer(d, 0, func(now time.Time) { c.TrySend(now) })
	return a
}

type Ticker struct {
	C *vrt.Chan[time.Time]
	t *vrt.TimerHandle
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := vrt.MakeChan[time.Time](1)
	return &Ticker{C: c, t: vrt.StartTimer(d, d, func(now time.Time) { c.TrySend(now) })}
}
func Tick(d time.Duration) *vrt.Chan[time.Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
func (t *Ticker) Stop() { t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) {
	t.t.Stop()
	c := t.C
	t.t = vrt.StartTimer(d, d, func(now time.Time) { c.TrySend(now) })
}
