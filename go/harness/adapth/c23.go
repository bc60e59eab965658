package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/gorilla/websocket"
	"github.com/unit-io/unitdb/server/common"
	lp "github.com/unit-io/unitdb/server/internal/net"
	pbx "github.com/unit-io/unitdb/server/proto"
	"github.com/unit-io/unitdb/server/utp"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"vrt"
	"vrt/vexp"
	"vrt/vsync"
)

// C23: what several threads write to one adapter arrives as whole writes, and what several threads read are successive pieces.

func c23() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "adapter writers", Desc: "two or three threads write to one stream adapter, whole or in chunks, while it is closed", Quick: 3, Deep: 5, Weight: 1, Body: writers},
		{Name: "adapter readers", Desc: "two threads read from one stream adapter with all pairs of read sizes", Quick: 2, Deep: 4, Weight: 1, Body: readers},
		{Name: "adapter duplex", Desc: "a thread waits for data while others write to one stream adapter or close it: the data comes once they have written", Quick: 3, Deep: 5, Weight: 1, Body: duplex},
		{Name: "codec threads", Desc: "all pairs of messages encoded and decoded by two threads", Quick: 1, Deep: 2, Weight: 1, Body: codecThreads},
	}
}

// stream is a gRPC stream that notices calls which must not overlap.
type stream struct {
	w       *vrt.World
	in      [][]byte
	out     []byte
	sending bool
	recving bool
	closed  bool
	gate    func() bool // data comes once this holds
}

func (f *stream) Context() context.Context     { return context.Background() }
func (f *stream) SetHeader(metadata.MD) error  { return nil }
func (f *stream) SendHeader(metadata.MD) error { return nil }
func (f *stream) SetTrailer(metadata.MD)       {}
func (f *stream) SendMsg(m interface{}) error {
	if f.sending {
		f.w.Fail("overlap", "SendMsg is called while another call is in the stream")
	}
	if f.closed {
		return errors.New("the stream is closed")
	}
	f.sending = true
	f.w.Yield("send")
	b, err := proto.Marshal(m.(proto.Message))
	f.w.Yield("sent")
	f.sending = false
	if err != nil {
		return err
	}
	var p pbx.Packet
	if err := proto.Unmarshal(b, &p); err != nil {
		return err
	}
	f.out = append(f.out, p.Data...)
	return nil
}
func (f *stream) RecvMsg(m interface{}) error {
	if f.recving {
		f.w.Fail("overlap", "RecvMsg is called while another call is in the stream")
	}
	f.recving = true
	f.w.Yield("receive")
	if f.gate != nil {
		f.w.Block("waiting for data", f.gate)
	}
	defer func() { f.recving = false }()
	if len(f.in) == 0 {
		return io.EOF
	}
	b, err := proto.Marshal(&pbx.Packet{Data: f.in[0]})
	if err != nil {
		return err
	}
	f.in = f.in[1:]
	return proto.Unmarshal(b, m.(proto.Message))
}

// client is the end of the client of such a stream.
type client struct{ stream }

func (f *client) Header() (metadata.MD, error) { return nil, nil }
func (f *client) Trailer() metadata.MD         { return nil }
func (f *client) CloseSend() error {
	if f.sending {
		f.w.Fail("overlap", "CloseSend is called while SendMsg is in the stream")
	}
	f.closed = true
	return nil
}

var _ grpc.ClientStream = (*client)(nil)

// pipe is the connection under a websocket.
type pipe struct {
	w      *vrt.World
	in     *bytes.Reader
	out    bytes.Buffer
	closed bool
	gate   func() bool
}

func (c *pipe) Read(p []byte) (int, error) {
	if c.gate != nil {
		c.w.Block("waiting for data", c.gate)
	}
	if c.closed {
		return 0, errors.New("the connection is closed")
	}
	return c.in.Read(p)
}
func (c *pipe) Write(p []byte) (int, error) {
	if c.closed {
		return 0, errors.New("the connection is closed")
	}
	return c.out.Write(p)
}
func (c *pipe) Close() error                       { c.closed = true; return nil }
func (c *pipe) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *pipe) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *pipe) SetDeadline(t time.Time) error      { return nil }
func (c *pipe) SetReadDeadline(t time.Time) error  { return nil }
func (c *pipe) SetWriteDeadline(t time.Time) error { return nil }

type hijacker struct {
	c *pipe
	h http.Header
}

func (h *hijacker) Header() http.Header         { return h.h }
func (h *hijacker) Write(p []byte) (int, error) { return h.c.Write(p) }
func (h *hijacker) WriteHeader(int)             {}
func (h *hijacker) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return h.c, bufio.NewReadWriter(bufio.NewReader(h.c), bufio.NewWriter(h.c)), nil
}

func upgraded(w *vrt.World, frames []byte) (*lp.Conn, *pipe) {
	mc := &pipe{w: w, in: bytes.NewReader(frames)}
	r, err := http.NewRequest("GET", "/", nil)
	if err != nil {
		w.Fail("request", "%v", err)
	}
	for k, v := range map[string]string{"Connection": "Upgrade", "Upgrade": "websocket", "Sec-WebSocket-Version": "13", "Sec-WebSocket-Key": "dGhlIHNhbXBsZSBub25jZQ=="} {
		r.Header.Set(k, v)
	}
	u := websocket.Upgrader{ReadBufferSize: 1024, WriteBufferSize: 1024}
	ws, err := u.Upgrade(&hijacker{c: mc, h: http.Header{}}, r, nil)
	if err != nil {
		w.Fail("upgrade", "%v", err)
	}
	mc.out.Reset()
	return lp.WebSocketConn(ws), mc
}

func frame(data []byte) []byte {
	b := []byte{0x82, 0x80 | byte(len(data))}
	mask := []byte{3, 141, 59, 26}
	b = append(b, mask...)
	for i, c := range data {
		b = append(b, c^mask[i%4])
	}
	return b
}

// unframe takes the data out of what a server wrote.
func unframe(b []byte) (data []byte, ok bool) {
	for len(b) > 0 {
		if len(b) < 2 {
			return data, false
		}
		op, n := b[0]&15, int(b[1])
		b = b[2:]
		if n == 126 && len(b) >= 2 {
			n = int(binary.BigEndian.Uint16(b))
			b = b[2:]
		}
		if n > len(b) {
			return data, false
		}
		if op < 8 {
			data = append(data, b[:n]...)
		}
		b = b[n:]
	}
	return data, true
}

// writers: each write arrives whole and the writes of a thread in order; a write that fails because of closing may be cut.
func writers(x *vexp.X) {
	kind := x.Pick(4, "adapter") // stream of a server, of a client, two adapters on one stream, websocket
	chunk := x.Pick(3, "chunk")
	three := depth(x, 0, 1) == 1 && x.Pick(2, "threads") == 1
	closing := (kind == 1 || kind == 3) && x.Pick(2, "close") == 1
	x.Key("adapter %d chunk %d three %v close %v", kind, chunk, three, closing)
	var bad string
	x.World(vrt.Options{Sched: true}, func(w *vrt.World) {
		var conns [3]net.Conn
		var result func() ([]byte, bool)
		chunked := func(e common.Encoder) common.Encoder {
			if chunk > 0 {
				return common.ChunkedEncoder(e, chunk)
			}
			return e
		}
		switch kind {
		case 0, 1, 2:
			var s *stream
			var g grpc.Stream
			if kind == 1 {
				c := &client{stream{w: w}}
				s, g = &c.stream, c
			} else {
				s = &stream{w: w}
				g = s
			}
			c := lp.StreamConn(g)
			c.Encode = chunked(c.Encode)
			conns = [3]net.Conn{c, c, c}
			if kind == 2 {
				var l vsync.Mutex
				c.WriteLock = &l
				d := lp.StreamConn(g)
				d.Encode = chunked(d.Encode)
				d.WriteLock = &l
				conns[1] = d
			}
			result = func() ([]byte, bool) {
				if s.closed != closing {
					w.Fail("close", "closed is %v after closing %v", s.closed, closing)
				}
				return s.out, true
			}
		case 3:
			c, p := upgraded(w, nil)
			c.Encode = chunked(c.Encode)
			conns = [3]net.Conn{c, c, c}
			result = func() ([]byte, bool) { return unframe(p.out.Bytes()) }
		}
		texts := [][]string{{"abc", "de"}, {"ABC", "DE"}, {"123"}}
		if !three {
			texts = texts[:2]
		}
		failed := make([]int, 3) // writes that went through
		var ths []*vrt.Handle
		for i := range texts {
			i := i
			failed[i] = -1
			ths = append(ths, w.Go(fmt.Sprintf("writer%d", i), func() {
				for j, t := range texts[i] {
					n, err := conns[i].Write([]byte(t))
					if err != nil {
						failed[i] = j
						return
					}
					if n != len(t) {
						w.Fail("written", "writing %q gives %d", t, n)
					}
				}
			}))
		}
		if closing {
			ths = append(ths, w.Go("closer", func() {
				if err := conns[0].Close(); err != nil {
					w.Fail("close", "%v", err)
				}
			}))
		}
		w.Join(ths...)
		out, ok := result()
		if !ok {
			w.Fail("frames", "the frames are broken: %q", out)
		}
		for i, ts := range texts {
			for j, t := range ts {
				switch {
				case failed[i] >= 0 && j > failed[i]:
					if strings.ContainsAny(string(out), t) {
						w.Fail("after-failure", "%q arrives in %q", t, out)
					}
				case failed[i] == j:
					if !closing {
						w.Fail("write", "writing %q fails", t)
					}
				case kind == 2 && chunk > 0:
					// two adapters on one stream: chunks of theirs may alternate, each adapter's are in order
				case strings.Count(string(out), t) != 1:
					bad = fmt.Sprintf("%q was written whole; the other end has %q", t, out)
				}
			}
			if failed[i] < 0 {
				all := strings.Join(ts, "")
				got := strings.Map(func(r rune) rune {
					if strings.ContainsRune(all, r) {
						return r
					}
					return -1
				}, string(out))
				if got != all {
					bad = fmt.Sprintf("of %q the other end has %q", all, out)
				}
			}
		}
		if bad != "" {
			w.Fail("whole", "%s", bad)
		}
		x.Note("%s", out)
	})
	x.Distinct(x.GetKey())
}

// readers: every read gives a piece of the stream, no byte twice, none lost, each thread's pieces in order.
func readers(x *vexp.X) {
	kind := x.Pick(2, "adapter")
	data := "abcdefg"
	cuts := [][]string{{"abcdefg"}, {"abc", "defg"}, {"ab", "c", "defg"}, {"abcd", "efg"}}[x.Pick(4, "packets")]
	sizes := []int{1, 2, 3, 5}
	sz := [2]int{sizes[x.Pick(len(sizes), "size")], sizes[x.Pick(len(sizes), "size")]}
	x.Key("adapter %d packets %q sizes %v", kind, cuts, sz)
	x.World(vrt.Options{Sched: true}, func(w *vrt.World) {
		var c net.Conn
		if kind == 0 {
			s := &stream{w: w}
			for _, p := range cuts {
				s.in = append(s.in, []byte(p))
			}
			c = lp.StreamConn(s)
		} else {
			var fr []byte
			for _, p := range cuts {
				fr = append(fr, frame([]byte(p))...)
			}
			c, _ = upgraded(w, fr)
		}
		var got [2][]string
		var ths []*vrt.Handle
		for i := range got {
			i := i
			ths = append(ths, w.Go(fmt.Sprintf("reader%d", i), func() {
				for k := 0; k < 20; k++ {
					p := make([]byte, sz[i])
					n, err := c.Read(p)
					if n < 0 || n > len(p) {
						w.Fail("read", "reading %d bytes gives %d", len(p), n)
					}
					if n > 0 {
						got[i] = append(got[i], string(p[:n]))
					}
					if err != nil {
						return
					}
				}
			}))
		}
		w.Join(ths...)
		seen := make([]bool, len(data))
		for i := range got {
			last := -1
			for _, p := range got[i] {
				at := strings.Index(data, p)
				if at < 0 {
					w.Fail("piece", "a read of %d gives %q (reads: %q)", sz[i], p, got)
				}
				if at <= last {
					w.Fail("order", "%q is read after a later piece (reads: %q)", p, got)
				}
				last = at
				for k := at; k < at+len(p); k++ {
					if seen[k] {
						w.Fail("twice", "%q is read twice (reads: %q)", data[k:k+1], got)
					}
					seen[k] = true
				}
			}
		}
		for k, s := range seen {
			if !s {
				w.Fail("lost", "%q is not read (reads: %q)", data[k:k+1], got)
			}
		}
		x.Note("%q", got)
	})
	x.Distinct(x.GetKey())
}

// duplex: writing and closing do not wait for a read that waits for data.
func duplex(x *vexp.X) {
	kind := x.Pick(3, "adapter") // stream of a server, of a client, websocket
	closing := kind > 0 && x.Pick(2, "close") == 1
	chunk := x.Pick(3, "chunk")
	x.Key("adapter %d chunk %d close %v", kind, chunk, closing)
	x.World(vrt.Options{Sched: true}, func(w *vrt.World) {
		var c net.Conn
		written := 0
		switch kind {
		case 0, 1:
			var s *stream
			var g grpc.Stream
			if kind == 1 {
				c := &client{stream{w: w}}
				s, g = &c.stream, c
			} else {
				s = &stream{w: w}
				g = s
			}
			s.in = [][]byte{[]byte("reply")}
			s.gate = func() bool { written = len(s.out); return written == 7 || s.closed }
			a := lp.StreamConn(g)
			if chunk > 0 {
				a.Encode = common.ChunkedEncoder(a.Encode, chunk)
			}
			c = a
		case 2:
			a, p := upgraded(w, frame([]byte("reply")))
			p.gate = func() bool {
				d, _ := unframe(p.out.Bytes())
				written = len(d)
				return written == 7 || p.closed
			}
			if chunk > 0 {
				a.Encode = common.ChunkedEncoder(a.Encode, chunk)
			}
			c = a
		}
		ths := []*vrt.Handle{w.Go("reader", func() {
			got := ""
			for k := 0; k < 10 && len(got) < 5; k++ {
				p := make([]byte, 3)
				n, err := c.Read(p)
				got += string(p[:n])
				if err != nil {
					if !closing {
						w.Fail("read", "reading fails: %v", err)
					}
					return
				}
			}
			if got != "reply" {
				w.Fail("reply", "the reader gets %q", got)
			}
		})}
		for _, t := range []string{"abcd", "xyz"} {
			t := t
			ths = append(ths, w.Go("writer", func() {
				if n, err := c.Write([]byte(t)); (err != nil || n != len(t)) && !closing {
					w.Fail("write", "writing %q gives %d, %v", t, n, err)
				}
			}))
		}
		if closing {
			ths = append(ths, w.Go("closer", func() {
				if err := c.Close(); err != nil {
					w.Fail("close", "%v", err)
				}
			}))
		}
		w.Join(ths...)
	})
	x.Distinct(x.GetKey())
}

func messages() []lp.MessagePack {
	return []lp.MessagePack{
		&utp.Connect{Version: 1, InsecureFlag: true, ClientID: "abc", SessKey: 7, BatchDuration: 100},
		&utp.Publish{MessageID: 300, DeliveryMode: 1, Messages: []*utp.PublishMessage{{Topic: "k/a.b", Payload: []byte("hello"), Ttl: "1m"}}},
		&utp.Publish{MessageID: 1, Messages: []*utp.PublishMessage{{Topic: "t", Payload: bytes.Repeat([]byte{7}, 200)}, {Topic: "u"}}},
		&utp.Relay{MessageID: 2, RelayRequests: []*utp.RelayRequest{{Topic: "a", Last: "1h"}}},
		&utp.Subscribe{MessageID: 3, Subscriptions: []*utp.Subscription{{DeliveryMode: 2, Delay: 5, Topic: "a.*"}}},
		&utp.Unsubscribe{MessageID: 4, Subscriptions: []*utp.Subscription{{Topic: "a"}}},
		&utp.Pingreq{},
		&utp.ControlMessage{MessageID: 5, MessageType: utp.PUBLISH, FlowControl: utp.RECEIPT},
		&utp.ControlMessage{MessageType: utp.CONNECT, FlowControl: utp.ACKNOWLEDGE, Message: []byte{1, 2, 3}},
		&utp.Disconnect{MessageID: 9},
	}
}

// codecThreads: what a thread encodes or decodes does not depend on what another does.
func codecThreads(x *vexp.X) {
	all := messages()
	a := x.Pick(len(all), "message")
	b := a + x.Pick(len(all)-a, "message")
	ops := [2]int{x.Pick(2, "operation"), x.Pick(2, "operation")}
	x.Key("%T with %T, operations %v", all[a], all[b], ops)
	x.World(vrt.Options{Sched: true}, func(w *vrt.World) {
		pack := func(m lp.MessagePack) string {
			buf, err := m.ToBinary()
			if err != nil {
				w.Fail("encode", "%T: %v", m, err)
			}
			return buf.String()
		}
		ms := [2]lp.MessagePack{all[a], messages()[b]}
		var wire [2]string
		w.Quiet(func() { wire[0], wire[1] = pack(ms[0]), pack(ms[1]) })
		run := func(i int) {
			if ops[i] == 0 {
				if s := pack(ms[i]); s != wire[i] {
					w.Fail("encode", "%T is encoded as %q and not as %q", ms[i], s, wire[i])
				}
				return
			}
			q, err := lp.Read(strings.NewReader(wire[i]))
			if err != nil {
				w.Fail("decode", "%T: %v", ms[i], err)
			}
			if q.Type() != ms[i].Type() || pack(q) != wire[i] {
				w.Fail("decode", "%q is decoded as %+v", wire[i], q)
			}
		}
		w.Join(w.Go("a", func() { run(0) }), w.Go("b", func() { run(1) }))
	})
	x.Distinct(x.GetKey())
}
