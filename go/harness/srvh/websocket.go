package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"io"
	"net"
	"net/http"
	"time"

	"github.com/unit-io/unitdb/server/common"
	lp "github.com/unit-io/unitdb/server/internal/net"
	"vrt/vexp"
)

// memConn is a connection whose input is given and whose output is kept.
type memConn struct {
	in     *bytes.Reader
	out    bytes.Buffer
	closed bool
}

func (c *memConn) Read(p []byte) (int, error)         { return c.in.Read(p) }
func (c *memConn) Write(p []byte) (int, error)        { return c.out.Write(p) }
func (c *memConn) Close() error                       { c.closed = true; return nil }
func (c *memConn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *memConn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *memConn) SetDeadline(t time.Time) error      { return nil }
func (c *memConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *memConn) SetWriteDeadline(t time.Time) error { return nil }

type hijacker struct {
	c *memConn
	h http.Header
}

func (h *hijacker) Header() http.Header         { return h.h }
func (h *hijacker) Write(p []byte) (int, error) { return h.c.Write(p) }
func (h *hijacker) WriteHeader(int)             {}
func (h *hijacker) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return h.c, bufio.NewReadWriter(bufio.NewReader(h.c), bufio.NewWriter(h.c)), nil
}

// upgrade gives the server's end of a websocket whose client sends the frames.
func upgrade(x *vexp.X, frames []byte) (*lp.Conn, *memConn) {
	mc := &memConn{in: bytes.NewReader(frames)}
	r, err := http.NewRequest("GET", "/", nil)
	if err != nil {
		x.Fail("request", "%v", err)
	}
	for k, v := range map[string]string{"Connection": "Upgrade", "Upgrade": "websocket", "Sec-WebSocket-Version": "13", "Sec-WebSocket-Key": "dGhlIHNhbXBsZSBub25jZQ=="} {
		r.Header.Set(k, v)
	}
	srv := lp.NewHttpServer()
	got := make(chan net.Conn, 1)
	srv.Handler = func(c net.Conn) { got <- c }
	done := make(chan bool)
	go func() {
		srv.HandleFunc(&hijacker{c: mc, h: http.Header{}}, r)
		close(done)
	}()
	<-done
	if !bytes.Contains(mc.out.Bytes(), []byte("101 Switching Protocols")) {
		x.Fail("upgrade", "the request to upgrade is answered by %q", mc.out.String())
	}
	c := <-got
	mc.out.Reset()
	return c.(*lp.Conn), mc
}

// frame is a frame of a client.
func frame(op byte, fin bool, data []byte) []byte {
	b := []byte{op, 0x80}
	if fin {
		b[0] |= 0x80
	}
	switch n := len(data); {
	case n < 126:
		b[1] |= byte(n)
	case n < 1<<16:
		b[1] |= 126
		b = binary.BigEndian.AppendUint16(b, uint16(n))
	default:
		b[1] |= 127
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	mask := []byte{3, 141, 59, 26}
	b = append(b, mask...)
	for i, c := range data {
		b = append(b, c^mask[i%4])
	}
	return b
}

// unframe takes the messages out of what a server wrote.
func unframe(b []byte) (data []byte, messages int, ok bool) {
	in := false
	for len(b) > 0 {
		if len(b) < 2 {
			return data, messages, false
		}
		op, fin, n := b[0]&15, b[0]&0x80 != 0, int(b[1])
		b = b[2:]
		switch {
		case n == 126 && len(b) >= 2:
			n = int(binary.BigEndian.Uint16(b))
			b = b[2:]
		case n == 127 && len(b) >= 8:
			n = int(binary.BigEndian.Uint64(b))
			b = b[8:]
		}
		if n > len(b) {
			return data, messages, false
		}
		switch {
		case op >= 8: // pong and the like
		case (op == 0) != in:
			return data, messages, false
		default:
			data = append(data, b[:n]...)
			in = !fin
			if fin {
				messages++
			}
		}
		b = b[n:]
	}
	return data, messages, !in
}

// websockets: every way the stream is cut into messages and frames and every sequence of read sizes gives the bytes in order.
func websockets(x *vexp.X) {
	n := depth(x, 6, 7)
	data := []byte("abcdefghi")[:n]
	mask := x.Pick(1<<(n-1), "messages")
	style := x.Pick(4, "frames")
	var frames []byte
	var pk [][]byte
	from := 0
	for i := 1; i <= n; i++ {
		if i < n && mask>>(i-1)&1 == 0 {
			continue
		}
		m := data[from:i]
		pk = append(pk, m)
		h := len(m) / 2
		switch style {
		case 0:
			frames = append(frames, frame(2, true, m)...)
		case 1: // two frames with a ping between
			frames = append(frames, frame(2, false, m[:h])...)
			frames = append(frames, frame(9, true, []byte("ping"))...)
			frames = append(frames, frame(0, true, m[h:])...)
		case 2: // an empty message before each
			frames = append(frames, frame(2, true, nil)...)
			frames = append(frames, frame(2, true, m)...)
		case 3: // a byte per frame
			for j := range m {
				op := byte(2)
				if j > 0 {
					op = 0
				}
				frames = append(frames, frame(op, j == len(m)-1, m[j:j+1])...)
			}
		}
		from = i
	}
	closing := x.Pick(2, "close") == 1
	if closing {
		frames = append(frames, frame(8, true, []byte{3, 232})...)
	}
	x.Key("messages %q, frames of style %d, close %v", pk, style, closing)
	sizes := []int{1, 2, 3, 5, 20}
	var rec func(read []int, left int)
	rec = func(read []int, left int) {
		if left == 0 {
			c, _ := upgrade(x, frames)
			var got []byte
			empty := 0
			for i := 0; len(got) < n; i++ {
				k := read[i%len(read)]
				p := make([]byte, k)
				m, err := c.Read(p)
				if err != nil || m > k || m < 0 {
					x.Fail("read", "reads of %v: read %d gives %d, %v", read, i, m, err)
				}
				if m == 0 {
					empty++
				}
				got = append(got, p[:m]...)
				if i > 100 {
					break
				}
			}
			if !bytes.Equal(got, data) || empty > n {
				x.Fail("bytes", "reads of %v give %q", read, got)
			}
			if m, err := c.Read(make([]byte, 4)); m != 0 || err == nil {
				x.Fail("end", "reads of %v: the end gives %d %v", read, m, err)
			}
			x.Count("streams", 1)
			return
		}
		for _, k := range sizes {
			rec(append(read[:len(read):len(read)], k), left-1)
		}
	}
	rec(nil, depth(x, 2, 3))
	for size := 0; size <= n+1; size++ {
		c, mc := upgrade(x, nil)
		if size > 0 {
			c.Encode = common.ChunkedEncoder(c.Encode, size)
		}
		from := 0
		for _, p := range pk {
			m, err := c.Write(p)
			if m != len(p) || err != nil {
				x.Fail("write", "chunks of %d: writing %q gives %d %v", size, p, m, err)
			}
			from += len(p)
			if out, _, ok := unframe(mc.out.Bytes()); !ok || !bytes.Equal(out, data[:from]) {
				x.Fail("written", "chunks of %d: after %q the client has %q (%v)", size, p, out, ok)
			}
		}
	}
	x.Distinct(x.GetKey())
}

// websocketSizes: messages of all sizes around the limits of the frames.
func websocketSizes(x *vexp.X) {
	sizes := []int{0, 1, 124, 125, 126, 127, 1023, 1024, 1025, 65534, 65535, 65536, 65537, 1 << 19}
	a := sizes[x.Pick(len(sizes), "size")]
	b := sizes[x.Pick(len(sizes), "size")]
	x.Key("messages of %d and %d bytes", a, b)
	data := make([]byte, a+b)
	for i := range data {
		data[i] = byte(i * 7 >> 3)
	}
	frames := append(frame(2, true, data[:a]), frame(2, true, data[a:])...)
	for _, rs := range []int{7, 1024, 1 << 20} {
		if rs == 7 && a+b > 5000 {
			continue
		}
		c, _ := upgrade(x, frames)
		got, err := io.ReadAll(sized{c, rs})
		if !bytes.Equal(got, data) {
			x.Fail("bytes", "reads of %d give %d bytes that differ, and then %v", rs, len(got), err)
		}
	}
	c, mc := upgrade(x, nil)
	for _, p := range [][]byte{data[:a], data[a:]} {
		if m, err := c.Write(p); m != len(p) || err != nil {
			x.Fail("write", "writing %d bytes gives %d %v", len(p), m, err)
		}
	}
	if out, _, ok := unframe(mc.out.Bytes()); !ok || !bytes.Equal(out, data) {
		x.Fail("written", "the client gets %d bytes that differ", len(out))
	}
	c.Close()
	if !mc.closed {
		x.Fail("close", "closing the connection does not close the stream")
	}
	x.Distinct(x.GetKey())
}

// sized reads at most n bytes at once.
type sized struct {
	r io.Reader
	n int
}

func (s sized) Read(p []byte) (int, error) {
	if len(p) > s.n {
		p = p[:s.n]
	}
	return s.r.Read(p)
}
