// Package vnet replaces the functions of net that reach the network by an in-memory one.
package vnet

import (
	"errors"
	"io"
	"net"
	"time"

	"vrt"
)

type network struct{ ls map[string]*lsn }

func of(w *vrt.World) *network {
	return w.Local("net", func() interface{} { return &network{ls: map[string]*lsn{}} }).(*network)
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// lsn is a listener of the in-memory network.
type lsn struct {
	a      string
	q      []*End
	closed bool
}

var errClosed = errors.New("use of closed network connection")

func Listen(proto, a string) (net.Listener, error) {
	w := vrt.W
	if w == nil {
		return nil, errors.New("vnet: no world")
	}
	n := of(w)
	if l := n.ls[a]; l != nil && !l.closed {
		return nil, errors.New("listen " + a + ": address already in use")
	}
	l := &lsn{a: a}
	n.ls[a] = l
	return l, nil
}

func (l *lsn) Accept() (net.Conn, error) {
	w := vrt.W
	w.Block("accept", func() bool { return l.closed || len(l.q) > 0 })
	if len(l.q) > 0 {
		c := l.q[0]
		l.q = l.q[1:]
		return c, nil
	}
	return nil, &net.OpError{Op: "accept", Net: "tcp", Err: errClosed}
}

// Close refuses the connections that were not accepted.
func (l *lsn) Close() error {
	l.closed = true
	for _, c := range l.q {
		c.closed, c.in.closed, c.out.closed = true, true, true
	}
	l.q = nil
	return nil
}

func (l *lsn) Addr() net.Addr { return addr(l.a) }

// half is one direction of a connection.
type half struct {
	b      []byte
	closed bool
	// Max bounds the bytes on the way (unbounded if zero)
	max int
}

// End is one end of a connection.
type End struct {
	in, out *half
	peer    *End
	rd, wd  time.Time
	closed  bool
	// Chunk bounds what one Read returns
	Chunk int
}

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

func Dial(proto, a string) (net.Conn, error) {
	w := vrt.W
	if w == nil {
		return nil, errors.New("vnet: no world")
	}
	if proto == "udp" {
		u := UDP(w)
		if u.Dial != nil {
			w.Yield("dial")
			if err := u.Dial(a); err != nil {
				return nil, err
			}
		}
		u.Open++
		return &sink{u: u, a: a}, nil
	}
	w.Yield("dial")
	l := of(w).ls[a]
	if l == nil || l.closed {
		return nil, errors.New("dial " + a + ": connection refused")
	}
	p, q := &half{}, &half{}
	srv, cl := &End{in: p, out: q}, &End{in: q, out: p}
	srv.peer, cl.peer = cl, srv
	l.q = append(l.q, srv)
	return cl, nil
}

func DialTimeout(proto, a string, d time.Duration) (net.Conn, error) { return Dial(proto, a) }

func (c *End) Read(p []byte) (int, error) {
	w := vrt.W
	if w == nil {
		return 0, io.EOF
	}
	w.BlockUntil("read", c.rd, func() bool { return c.closed || c.in.closed || len(c.in.b) > 0 })
	switch {
	case c.closed:
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: errClosed}
	case len(c.in.b) > 0:
		n := len(p)
		if c.Chunk > 0 && n > c.Chunk {
			n = c.Chunk
		}
		n = copy(p[:n], c.in.b)
		c.in.b = c.in.b[n:]
		return n, nil
	case c.in.closed:
		return 0, io.EOF
	}
	return 0, &net.OpError{Op: "read", Net: "tcp", Err: timeoutError{}}
}

func (c *End) Write(p []byte) (int, error) {
	w := vrt.W
	if w == nil {
		return 0, errClosed
	}
	if c.out.max > 0 {
		w.BlockUntil("write", c.wd, func() bool { return c.closed || c.out.closed || len(c.out.b) < c.out.max })
		if !c.closed && !c.out.closed && len(c.out.b) >= c.out.max {
			return 0, &net.OpError{Op: "write", Net: "tcp", Err: timeoutError{}}
		}
	} else {
		w.Yield("write")
	}
	if c.closed {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: errClosed}
	}
	if c.out.closed {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: errors.New("broken pipe")}
	}
	c.out.b = append(c.out.b, p...)
	return len(p), nil
}

// Limit bounds the bytes the peer may have on the way to this end.
func (c *End) Limit(n int) { c.in.max = n }

// Peer is the other end.
func (c *End) Peer() *End { return c.peer }

// Drain takes the bytes that can be read at once.
func (c *End) Drain() []byte {
	b := c.in.b
	c.in.b = nil
	return b
}

// Pending is the number of bytes that can be read at once.
func (c *End) Pending() int { return len(c.in.b) }

func (c *End) Close() error {
	if c.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: errClosed}
	}
	c.closed = true
	c.out.closed = true
	c.in.closed = true
	if vrt.W != nil {
		vrt.W.Yield("close")
	}
	return nil
}

// CloseWrite lets the peer read what was written and then an end of file.
func (c *End) CloseWrite() error { c.out.closed = true; return nil }

func (c *End) LocalAddr() net.Addr                { return addr("local") }
func (c *End) RemoteAddr() net.Addr               { return addr("remote") }
func (c *End) SetDeadline(t time.Time) error      { c.rd, c.wd = t, t; return nil }
func (c *End) SetReadDeadline(t time.Time) error  { c.rd = t; return nil }
func (c *End) SetWriteDeadline(t time.Time) error { c.wd = t; return nil }

// Datagrams tells what becomes of datagrams: by default they are lost.
type Datagrams struct {
	Dial  func(addr string) error
	Write func(addr string, p []byte) error
	Open  int
}

// UDP returns the destination of the datagrams of a world.
func UDP(w *vrt.World) *Datagrams {
	return w.Local("udp", func() interface{} { return &Datagrams{} }).(*Datagrams)
}

// sink takes datagrams and never returns one.
type sink struct {
	u      *Datagrams
	a      string
	closed bool
}

func (s *sink) Read(p []byte) (int, error) {
	vrt.W.Block("read", func() bool { return s.closed })
	return 0, io.EOF
}

func (s *sink) Write(p []byte) (int, error) {
	if s.closed {
		return 0, errClosed
	}
	if s.u.Write != nil {
		vrt.W.Yield("send")
		if err := s.u.Write(s.a, append([]byte(nil), p...)); err != nil {
			return 0, err
		}
	}
	return len(p), nil
}

func (s *sink) Close() error {
	if s.closed {
		return errClosed
	}
	s.closed = true
	s.u.Open--
	return nil
}

func (s *sink) LocalAddr() net.Addr                { return addr("local") }
func (s *sink) RemoteAddr() net.Addr               { return addr("remote") }
func (s *sink) SetDeadline(t time.Time) error      { return nil }
func (s *sink) SetReadDeadline(t time.Time) error  { return nil }
func (s *sink) SetWriteDeadline(t time.Time) error { return nil }
