// Package vcontext replaces the parts of context that wait.
package vcontext

import (
	"context"
	"time"

	"vrt"
	"vrt/vtime"
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *vrt.Chan[struct{}]
	Err() error
	Value(key interface{}) interface{}
}

type (
	CancelFunc      func()
	CancelCauseFunc func(cause error)
)

type ctx struct {
	parent   Context
	c        *vrt.Chan[struct{}]
	err      error
	cause    error
	kids     []*ctx
	key      interface{}
	val      interface{}
	deadline time.Time
	timer    *vtime.Timer
	detached bool
}

func (c *ctx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	if c.parent != nil && !c.detached {
		return c.parent.Deadline()
	}
	return time.Time{}, false
}

func (c *ctx) Done() *vrt.Chan[struct{}] {
	if c.c == nil && c.parent != nil && !c.detached {
		return c.parent.Done()
	}
	return c.c
}

func (c *ctx) Err() error {
	if c.err != nil {
		return c.err
	}
	if c.c == nil && c.parent != nil && !c.detached {
		return c.parent.Err()
	}
	return nil
}

func (c *ctx) Value(k interface{}) interface{} {
	if c.key != nil && c.key == k {
		return c.val
	}
	if c.parent != nil {
		return c.parent.Value(k)
	}
	return nil
}

func Background() Context { return &ctx{} }
func TODO() Context       { return &ctx{} }

func WithValue(p Context, k, v interface{}) Context { return &ctx{parent: p, key: k, val: v} }

func WithoutCancel(p Context) Context { return &ctx{parent: p, detached: true} }

// source finds the context that p is cancelled with.
func source(p Context) *ctx {
	for q, ok := p.(*ctx); ok && q != nil && !q.detached; q, ok = q.parent.(*ctx) {
		if q.c != nil {
			return q
		}
	}
	return nil
}

func derive(p Context) *ctx {
	c := &ctx{parent: p, c: vrt.MakeChan[struct{}](0)}
	if q := source(p); q != nil {
		if q.err != nil {
			c.cancel(q.err, q.cause)
		} else {
			q.kids = append(q.kids, c)
		}
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := derive(p)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := derive(p)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadline(p Context, d time.Time) (Context, CancelFunc) {
	c := derive(p)
	if e, ok := p.Deadline(); !ok || d.Before(e) {
		c.deadline = d
		if c.err == nil {
			c.timer = vtime.AfterFunc(vtime.Until(d), func() { c.cancel(DeadlineExceeded, nil) })
		}
	}
	return c, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, vtime.Now().Add(d))
}

func Cause(p Context) error {
	if q := source(p); q != nil && q.err != nil {
		if q.cause != nil {
			return q.cause
		}
		return q.err
	}
	return p.Err()
}

// AfterFunc runs f in its own thread once p is done.
func AfterFunc(p Context, f func()) (stop func() bool) {
	c := derive(p)
	ran, stopped := false, false
	vrt.Go(func() {
		c.c.Recv()
		if !stopped {
			ran = true
			f()
		}
	})
	return func() bool {
		if ran || stopped {
			return false
		}
		stopped = true
		c.cancel(Canceled, nil)
		return true
	}
}

func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err, c.cause = err, cause
	if c.timer != nil {
		c.timer.Stop()
	}
	c.c.Close()
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
	c.kids = nil
}
