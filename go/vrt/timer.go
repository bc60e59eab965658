package vrt

import "time"

// TimerHandle controls a virtual timer.
type TimerHandle struct {
	t    *timer
	stop bool
}

// StartTimer calls f after d, and every period after that if period > 0.
func StartTimer(d, period time.Duration, f func(now time.Time)) *TimerHandle {
	h := &TimerHandle{}
	w := W
	if w == nil || w.aborting {
		return h
	}
	if d < 0 {
		d = 0
	}
	var vc vclock
	if hw, cv, _ := hb(); hw != nil {
		vc.join(*cv)
	}
	var arm func(when time.Time)
	arm = func(when time.Time) {
		h.t = w.addTimer(when, func() {
			if period > 0 && !h.stop {
				arm(when.Add(period))
			}
			f(w.now)
		})
		h.t.vc = vc
	}
	arm(w.now.Add(d))
	return h
}

// Stop stops the timer and reports whether it was still armed.
func (h *TimerHandle) Stop() bool {
	h.stop = true
	if h.t == nil || h.t.dead {
		return false
	}
	h.t.dead = true
	return true
}

// TrySend is a non-blocking send that is not a choice point.
func (c *Chan[T]) TrySend(v T) {
	if !c.closed && c.canSend() {
		c.doSend(v)
	}
}

// Drain empties the buffer.
func (c *Chan[T]) Drain() { c.buf = nil }

// SpawnFromTimer starts a thread from a timer.
func SpawnFromTimer(f func()) {
	if w := W; w != nil && !w.aborting {
		w.spawn("timer", false, f)
	}
}
