package vrt

import "runtime"

// Chan is the instrumented channel.
type Chan[T any] struct {
	buf    []T
	capn   int
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	snd    SyncVar
	rcv    SyncVar
}

// waiter is one blocked case of a thread.
type waiter struct {
	sel  *selState
	idx  int
	send func() interface{} // value to send, read at completion (unused; typed below)
	val  interface{}        // *T slot to send from / receive into
	okp  *bool
}

type selState struct {
	fired       int // index of the completed case, -1 while waiting
	closedPanic bool
}

// MakeChan makes a channel.
func MakeChan[T any](n int) *Chan[T] { return &Chan[T]{capn: n} }

// MakeChanI makes a channel with a size of any integer type.
func MakeChanI[T any, I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](n I) *Chan[T] {
	return &Chan[T]{capn: int(n)}
}

func dequeue(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.sel.fired < 0 {
			return x
		}
	}
	return nil
}

func peekq(q *[]*waiter) bool {
	for len(*q) > 0 {
		if (*q)[0].sel.fired < 0 {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func (c *Chan[T]) canSend() bool {
	if c == nil {
		return false
	}
	return c.closed || len(c.buf) < c.capn || peekq(&c.recvq)
}

func (c *Chan[T]) canRecv() bool {
	if c == nil {
		return false
	}
	return len(c.buf) > 0 || c.closed || peekq(&c.sendq)
}

func (c *Chan[T]) doSend(v T) {
	if c.closed {
		panic("send on closed channel")
	}
	c.rcv.Acquire()
	c.snd.Release()
	if r := dequeue(&c.recvq); r != nil {
		if p, ok := r.val.(*T); ok && p != nil {
			*p = v
		}
		if r.okp != nil {
			*r.okp = true
		}
		r.sel.fired = r.idx
		return
	}
	c.buf = append(c.buf, v)
}

func (c *Chan[T]) doRecv() (v T, ok bool) {
	c.snd.Acquire()
	c.rcv.Release()
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if s := dequeue(&c.sendq); s != nil {
			c.buf = append(c.buf, *(s.val.(*T)))
			s.sel.fired = s.idx
		}
		return v, true
	}
	if s := dequeue(&c.sendq); s != nil {
		v = *(s.val.(*T))
		s.sel.fired = s.idx
		return v, true
	}
	return v, false // closed
}

// Send is c <- v.
func (c *Chan[T]) Send(v T) {
	w := W
	if w == nil {
		if c.canSend() {
			c.doSend(v)
			return
		}
		panic("vrt: channel send would block outside a world")
	}
	if w.aborting {
		return
	}
	w.Yield("send")
	if c.canSend() {
		c.doSend(v)
		return
	}
	st := &selState{fired: -1}
	slot := v
	if c != nil {
		c.snd.Release()
		c.sendq = append(c.sendq, &waiter{sel: st, idx: 0, val: &slot})
	}
	w.Block("channel send", func() bool { return st.fired >= 0 })
	c.rcv.Acquire()
	if st.closedPanic {
		panic("send on closed channel")
	}
}

// Recv2 is v, ok := <-c.
func (c *Chan[T]) Recv2() (v T, ok bool) {
	w := W
	if w == nil {
		if c.canRecv() {
			return c.doRecv()
		}
		panic("vrt: channel receive would block outside a world")
	}
	if w.aborting {
		return
	}
	w.Yield("recv")
	if c.canRecv() {
		return c.doRecv()
	}
	st := &selState{fired: -1}
	if c != nil {
		c.rcv.Release()
		c.recvq = append(c.recvq, &waiter{sel: st, idx: 0, val: &v, okp: &ok})
	}
	w.Block("channel receive", func() bool { return st.fired >= 0 })
	c.snd.Acquire()
	return v, ok
}

// Recv is <-c.
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Close is close(c).
func (c *Chan[T]) Close() {
	w := W
	if w != nil {
		if w.aborting {
			return
		}
		w.Yield("close")
	}
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.snd.Release()
	c.closed = true
	for {
		r := dequeue(&c.recvq)
		if r == nil {
			break
		}
		if r.okp != nil {
			*r.okp = false
		}
		if p, ok := r.val.(*T); ok && p != nil {
			var z T
			*p = z
		}
		r.sel.fired = r.idx
	}
	for {
		s := dequeue(&c.sendq)
		if s == nil {
			break
		}
		s.sel.closedPanic = true
		s.sel.fired = s.idx
	}
}

// Len is len(c).
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// Cap is cap(c).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.capn
}

// Case of a select.
type Case interface {
	ready() bool
	run()
	enqueue(st *selState, idx int)
	woken()
}

// RecvCase is a receive case; V and Ok hold the result.
type RecvCase[T any] struct {
	c  *Chan[T]
	V  T
	Ok bool
}

// OnRecv makes a receive case.
func OnRecv[T any](c *Chan[T]) *RecvCase[T] { return &RecvCase[T]{c: c} }

func (r *RecvCase[T]) ready() bool { return r.c.canRecv() }
func (r *RecvCase[T]) run()        { r.V, r.Ok = r.c.doRecv() }
func (r *RecvCase[T]) enqueue(st *selState, idx int) {
	if r.c != nil {
		r.c.rcv.Release()
		r.c.recvq = append(r.c.recvq, &waiter{sel: st, idx: idx, val: &r.V, okp: &r.Ok})
	}
}

func (r *RecvCase[T]) woken() { r.c.snd.Acquire() }

// SendCase is a send case.
type SendCase[T any] struct {
	c *Chan[T]
	v T
}

// OnSend makes a send case.
func (c *Chan[T]) OnSend(v T) *SendCase[T] { return &SendCase[T]{c: c, v: v} }

func (s *SendCase[T]) ready() bool { return s.c.canSend() }
func (s *SendCase[T]) run()        { s.c.doSend(s.v) }
func (s *SendCase[T]) enqueue(st *selState, idx int) {
	if s.c != nil {
		s.c.snd.Release()
		s.c.sendq = append(s.c.sendq, &waiter{sel: st, idx: idx, val: &s.v})
	}
}

func (s *SendCase[T]) woken() { s.c.rcv.Acquire() }

// Select runs a select statement and returns the index of the case taken, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	w := W
	if w == nil || w.aborting {
		if w != nil {
			runtime.Goexit()
		}
		for i, c := range cases {
			if c.ready() {
				c.run()
				return i
			}
		}
		if hasDefault {
			return -1
		}
		panic("vrt: select would block outside a world")
	}
	if hasDefault {
		any := false
		for _, c := range cases {
			if c.ready() {
				any = true
				break
			}
		}
		if any {
			w.Yield("select")
		} else {
			w.YieldSpin("select")
		}
	} else {
		w.Yield("select")
	}
	var rdy []int
	for i, c := range cases {
		if c.ready() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := 0
		if len(rdy) > 1 && w.Opt.Sched && w.quiet == 0 {
			k = w.Chooser.Choose(len(rdy), 1, "select")
		}
		cases[rdy[k]].run()
		return rdy[k]
	}
	if hasDefault {
		return -1
	}
	st := &selState{fired: -1}
	for i, c := range cases {
		c.enqueue(st, i)
	}
	w.Block("select", func() bool { return st.fired >= 0 })
	if st.closedPanic {
		panic("send on closed channel")
	}
	if st.fired >= 0 {
		cases[st.fired].woken()
	}
	return st.fired
}
