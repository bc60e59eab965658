package main

import (
	"bytes"
	"errors"
	"fmt"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/hpack"
	"io"
	"net"
	"strings"
	"testing/iotest"
	"time"

	lp "github.com/unit-io/unitdb/server/internal/net"
	"github.com/unit-io/unitdb/server/internal/net/listener"
	"vrt"
	"vrt/vexp"
	"vrt/vnet"
)

// C34: connections reach the handler of their protocol with all their bytes

func c34() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "matchers", Desc: "all sets of up to three prefixes over two letters x all inputs, however they are split", Body: muxMatchers},
		{Name: "content types", Desc: "HTTP/2 requests with and without the content type, other frames before, header blocks split anywhere, cut off anywhere", Body: muxContent},
		{Name: "bytes", Desc: "all ways the first bytes of a connection are split and delayed, and all ways they are read", Weight: 2, Body: muxBytes},
		{Name: "clients", Desc: "several clients of several protocols, some silent, some leaving, arrive together", Quick: 3, Deep: 3, Weight: 2, Body: muxClients},
		{Name: "closing", Desc: "the listener is closed at any point while clients arrive", Quick: 3, Deep: 4, Weight: 2, Body: muxClosing},
		{Name: "accept errors", Desc: "all sequences of connections, passing and lasting errors of accept", Body: muxErrors},
	}
}

func wordsOver(letters string, min, max int) (out []string) {
	var rec func(s string)
	rec = func(s string) {
		if len(s) >= min {
			out = append(out, s)
		}
		if len(s) < max {
			for _, c := range letters {
				rec(s + string(c))
			}
		}
	}
	rec("")
	return out
}

// startsWithAny is the reference for matchers.
func startsWithAny(s string, prefixes []string) bool {
	for _, p := range prefixes {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func muxMatchers(x *vexp.X) {
	ws := wordsOver("ab", 1, 3)
	set := []string{ws[x.Pick(len(ws), "first")]}
	for i := 0; i < 2; i++ {
		k := x.Pick(len(ws)+1, "another")
		if k == len(ws) {
			break
		}
		set = append(set, ws[k])
	}
	x.Key("%q", set)
	for _, in := range wordsOver("abc", 0, depth(x, 4, 5)) {
		want := startsWithAny(in, set)
		for i, r := range []io.Reader{strings.NewReader(in), iotest.OneByteReader(strings.NewReader(in)), iotest.DataErrReader(strings.NewReader(in)), iotest.HalfReader(strings.NewReader(in))} {
			if got := listener.MatchWS(set...)(r); got != want {
				x.Fail("matcher", "%q matched against the prefixes %q gives %v (reader %d)", in, set, got, i)
			}
			x.Count("inputs", 1)
		}
	}
	if !listener.MatchAny()(strings.NewReader("")) {
		x.Fail("matcher", "MatchAny does not match")
	}
	x.Distinct(x.GetKey())
}

// muxContent: the matcher of the content type of HTTP/2 requests.
func muxContent(x *vexp.X) {
	const want = "application/grpc"
	value := []string{want, "application/grp", want + "+proto", "text/html", ""}[x.Pick(5, "value")]
	before, after := x.Pick(2, "before") == 1, x.Pick(2, "after") == 1
	other := x.Pick(4, "other frames")
	x.Key("content type %q, fields before %v after %v, other frames %d", value, before, after, other)
	var block bytes.Buffer
	enc := hpack.NewEncoder(&block)
	if before {
		enc.WriteField(hpack.HeaderField{Name: ":method", Value: "POST"})
		enc.WriteField(hpack.HeaderField{Name: "content-length", Value: want})
	}
	if value != "" {
		enc.WriteField(hpack.HeaderField{Name: "content-type", Value: value})
	}
	if after {
		enc.WriteField(hpack.HeaderField{Name: "te", Value: want})
	}
	if block.Len() == 0 {
		enc.WriteField(hpack.HeaderField{Name: ":method", Value: "GET"})
	}
	start := func() (*bytes.Buffer, *http2.Framer) {
		b := bytes.NewBufferString(http2.ClientPreface)
		f := http2.NewFramer(b, nil)
		if other&1 != 0 {
			f.WriteSettings()
		}
		if other&2 != 0 {
			f.WriteSettingsAck()
			f.WriteWindowUpdate(0, 100)
			f.WritePing(false, [8]byte{})
		}
		return b, f
	}
	try := func(in []byte, want_ bool, what string) {
		for i, r := range []io.Reader{bytes.NewReader(in), iotest.OneByteReader(bytes.NewReader(in)), iotest.DataErrReader(bytes.NewReader(in)), iotest.HalfReader(bytes.NewReader(in))} {
			if got := listener.MatchCT(want)(r); got != want_ {
				x.Fail("matcher", "the matcher of the content type %s gives %v for %s (reader %d)", want, got, what, i)
			}
			x.Count("inputs", 1)
		}
	}
	hit := value == want
	b, f := start()
	f.WriteHeaders(http2.HeadersFrameParam{StreamID: 1, BlockFragment: block.Bytes(), EndHeaders: true})
	whole := append([]byte(nil), b.Bytes()...)
	try(whole, hit, "the whole request")
	for k := range whole {
		try(whole[:k], false, fmt.Sprintf("its first %d of %d bytes", k, len(whole)))
	}
	f.WriteData(1, true, []byte("more"))
	try(b.Bytes(), hit, "the request with data")
	for k := 0; k < len(http2.ClientPreface); k++ {
		bad := append([]byte(nil), whole...)
		bad[k] ^= 1
		try(bad, false, fmt.Sprintf("the request with another byte %d of the preface", k))
	}
	for k := 1; k <= block.Len(); k++ { // the framer refuses an empty first part
		b, f := start()
		f.WriteHeaders(http2.HeadersFrameParam{StreamID: 1, BlockFragment: block.Bytes()[:k]})
		f.WriteContinuation(1, true, block.Bytes()[k:])
		try(b.Bytes(), hit, fmt.Sprintf("the request with its headers split after %d bytes", k))
		for j := k; j <= block.Len(); j += 1 + block.Len()/8 {
			b, f := start()
			f.WriteHeaders(http2.HeadersFrameParam{StreamID: 1, BlockFragment: block.Bytes()[:k]})
			f.WriteContinuation(1, false, block.Bytes()[k:j])
			f.WriteContinuation(1, true, block.Bytes()[j:])
			try(b.Bytes(), hit, fmt.Sprintf("the request with its headers split after %d and %d bytes", k, j))
		}
	}
	x.Distinct(x.GetKey())
}

// taken is a connection that was handed to the handler of a protocol.
type taken struct {
	proto int
	got   []byte
	err   error
	conn  net.Conn
	done  bool
}

// mux is a listener with handlers in a world.
type muxRig struct {
	x      *vexp.X
	w      *vrt.World
	l      *listener.Listener
	taken  []*taken
	served bool // Serve has returned
	ended  []bool
}

const muxTimeout = 120 * time.Second

// newMux registers protocols: nil prefixes match everything. reads gives the sizes of the reads of the handlers.
func newMux(x *vexp.X, w *vrt.World, protos [][]string, reads []int, accept bool) *muxRig {
	m := &muxRig{x: x, w: w, ended: make([]bool, len(protos))}
	l, err := listener.New("srv:2")
	if err != nil {
		x.Fail("listen", "%v", err)
	}
	m.l = l
	l.SetReadTimeout(muxTimeout)
	for i, ps := range protos {
		i := i
		p := listener.MatchAny()
		if ps != nil {
			p = listener.MatchWS(ps...)
		}
		ln := l.Proto(p)
		if !accept {
			m.ended[i] = true
			continue
		}
		w.GoLabel("accept", "srv", func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					m.ended[i] = true
					return
				}
				t := &taken{proto: i, conn: c}
				m.taken = append(m.taken, t)
				w.GoLabel("handler", "srv", func() {
					for k := 0; ; k++ {
						b := make([]byte, reads[k%len(reads)])
						n, err := c.Read(b)
						if n < 0 || n > len(b) {
							w.Fail("read", "a read of %d bytes returns %d", len(b), n)
						}
						t.got = append(t.got, b[:n]...)
						if n > 0 {
							// what the handler writes reaches the client
							if _, e := c.Write(b[:n]); e != nil && err == nil {
								err = e
							}
						}
						if err != nil {
							t.err = err
							break
						}
						if k > 1000 {
							w.Fail("read", "reading never ends")
						}
					}
					c.Close()
					t.done = true
				})
			}
		})
	}
	w.GoLabel("serve", "srv", func() {
		l.Serve()
		m.served = true
	})
	return m
}

func (m *muxRig) dial() *vnet.End {
	c, err := vnet.Dial("tcp", "srv:2")
	if err != nil {
		return nil
	}
	return c.(*vnet.End)
}

// wantProto is the protocol of a connection that sent these bytes, or -1.
func wantProto(protos [][]string, sent string) int {
	for i, ps := range protos {
		if ps == nil || startsWithAny(sent, ps) {
			return i
		}
	}
	return -1
}

var muxProtos = [][][]string{
	{{"GET"}, nil},
	{{"GET"}, {"PUT", "POST"}, nil},
	{{"PO"}, {"GET", "GE"}},
	{nil, {"GET"}},
}

func muxBytes(x *vexp.X) {
	protos := muxProtos[x.Pick(len(muxProtos), "protocols")]
	sends := []string{"GET / HTTP/1.1\r\n\r\n", "\x05\x08\x01\x18\x20connect", "GEX", "GE", "POST /", "PUTX", "P", ""}
	data := sends[x.Pick(len(sends), "bytes")]
	n := len(data) - 1
	if n > 4 {
		n = 4
	}
	mask := 0
	if n > 0 {
		mask = x.Pick(1<<n, "split")
	}
	wait := x.Pick(3, "pause") // none, short, longer than the sniffing may take
	if mask == 0 && wait > 0 {
		wait = 3 // before the first byte
	}
	reads := [][]int{{1}, {2, 5}, {3}, {64}}[x.Pick(4, "reads")]
	chunk := []int{0, 1, 2}[x.Pick(3, "chunk")]
	stays := x.Pick(2, "stays") == 1
	x.Key("protocols %q, %q split %b, pause %d, reads %v of %d, stays %v", protos, data, mask, wait, reads, chunk, stays)
	x.World(vrt.Options{Horizon: time.Hour}, func(w *vrt.World) {
		m := newMux(x, w, protos, reads, true)
		w.Sleep(time.Millisecond)
		c := m.dial()
		c.Peer().Chunk = chunk
		start := w.PeekNow()
		atDecision := "" // what had arrived when sniffing ends for want of bytes
		if wait == 3 {
			w.Sleep(200 * time.Second)
		}
		var part []byte
		refused := false
		for i := 0; i < len(data); i++ {
			part = append(part, data[i])
			if i == len(data)-1 || (i < 4 && mask>>i&1 == 1) {
				if _, err := c.Write(part); err != nil {
					refused = true
					break
				}
				if w.PeekNow().Sub(start) < muxTimeout {
					atDecision += string(part)
				}
				part = nil
				switch {
				case i == len(data)-1:
				case wait == 1:
					w.Sleep(time.Second)
				case wait == 2:
					w.Sleep(200 * time.Second)
				}
			}
		}
		if stays {
			w.Sleep(300 * time.Second)
		}
		want := wantProto(protos, atDecision)
		if refused && want >= 0 {
			w.Fail("refused", "the connection is closed although protocol %d matches", want)
		}
		if !refused {
			c.CloseWrite()
		}
		w.Sleep(300 * time.Second)
		if want < 0 {
			if len(m.taken) != 0 {
				w.Fail("protocol", "%q matches no protocol and is given to %d", atDecision, m.taken[0].proto)
			}
			if _, err := c.Read(make([]byte, 1)); err == nil || isTimeout(err) {
				w.Fail("open", "a connection that matches no protocol is not closed: %v", err)
			}
			return
		}
		if len(m.taken) != 1 {
			w.Fail("taken", "the connection is handed over %d times", len(m.taken))
		}
		t := m.taken[0]
		if t.proto != want {
			w.Fail("protocol", "%q is given to protocol %d, not %d", atDecision, t.proto, want)
		}
		if string(t.got) != data || t.err != io.EOF || !t.done {
			w.Fail("bytes", "%q was sent, the handler reads %q and then %v", data, t.got, t.err)
		}
		if back := c.Drain(); string(back) != data {
			w.Fail("echo", "the handler wrote %q, the client gets %q", data, back)
		}
	})
	x.Distinct(x.GetKey())
}

func isTimeout(err error) bool {
	ne, ok := err.(net.Error)
	return ok && ne.Timeout()
}

// kinds of clients: what they send and whether they leave
var muxKinds = []struct {
	name  string
	send  []string
	leave bool
}{
	{"http", []string{"GET /a"}, true},
	{"http slow", []string{"G", "ET /b"}, true},
	{"utp", []string{"\x05\x08\x01c", "onnect"}, true},
	{"silent", nil, false},
	{"leaves", []string{"GE"}, true},
	{"utp stays", []string{"\x05\x08\x01d"}, false},
}

func muxClients(x *vexp.X) {
	protos := muxProtos[0]
	n := depth(x, 2, 3)
	var ks []int
	x.Key("")
	for i := 0; i < n; i++ {
		lo := 0
		if i > 0 {
			lo = ks[i-1]
		}
		k := lo + x.Pick(len(muxKinds)-lo, "client")
		ks = append(ks, k)
		x.AddKey("%s; ", muxKinds[k].name)
	}
	x.World(vrt.Options{Horizon: time.Hour, Sched: true}, func(w *vrt.World) {
		m := newMux(x, w, protos, []int{4}, true)
		w.Sleep(time.Millisecond)
		ends := make([]*vnet.End, n)
		var hs []*vrt.Handle
		for i, k := range ks {
			i, k := i, muxKinds[k]
			hs = append(hs, w.Go("client", func() {
				c := m.dial()
				ends[i] = c
				for _, s := range k.send {
					c.Write([]byte(fmt.Sprint(s)))
				}
				if k.leave {
					c.CloseWrite()
				}
			}))
		}
		w.Join(hs...)
		w.SetQuiet(true)
		w.Sleep(10 * time.Second)
		var want, got []string
		for _, k := range ks {
			k := muxKinds[k]
			if k.send == nil {
				continue
			}
			s := strings.Join(k.send, "")
			want = append(want, fmt.Sprintf("%d %q %v", wantProto(protos, s), s, k.leave))
		}
		for _, t := range m.taken {
			got = append(got, fmt.Sprintf("%d %q %v", t.proto, t.got, t.done))
		}
		if g, e := sorted(got), sorted(want); !equal(g, e) {
			w.Fail("served", "ten seconds later these have been handled (protocol, bytes, over): %v, not %v", g, e)
		}
		for i, k := range ks {
			if s := strings.Join(muxKinds[k].send, ""); string(ends[i].Drain()) != s {
				w.Fail("echo", "the answer to %q does not arrive", s)
			}
		}
		w.Note(len(m.taken))
	})
	x.Distinct(x.GetKey())
}

func muxClosing(x *vexp.X) {
	protos := muxProtos[0]
	kinds := []int{0, 1, 2, 3, 4}
	a := x.Pick(len(kinds), "client")
	b := a + x.Pick(len(kinds)-a, "client")
	accept := x.Pick(2, "accepting") == 0
	x.Key("%s; %s; close; accepting %v", muxKinds[kinds[a]].name, muxKinds[kinds[b]].name, accept)
	x.World(vrt.Options{Horizon: time.Hour, Sched: true}, func(w *vrt.World) {
		m := newMux(x, w, protos, []int{4}, accept)
		w.Sleep(time.Millisecond)
		ends := make([]*vnet.End, 2)
		var hs []*vrt.Handle
		for i, k := range []int{kinds[a], kinds[b]} {
			i, k := i, muxKinds[k]
			hs = append(hs, w.Go("client", func() {
				c := m.dial()
				if c == nil {
					return
				}
				ends[i] = c
				for _, s := range k.send {
					if _, err := c.Write([]byte(s)); err != nil {
						return
					}
				}
				if k.leave {
					c.CloseWrite()
				}
			}))
		}
		hs = append(hs, w.Go("close", func() { m.l.Close() }))
		w.Join(hs...)
		w.SetQuiet(true)
		w.Sleep(300 * time.Second)
		for _, c := range ends {
			if c != nil {
				c.CloseWrite()
			}
		}
		w.Sleep(10 * time.Second)
		if !m.served {
			w.Fail("serve", "Serve does not return after the listener was closed and every client has sent its bytes")
		}
		for i, e := range m.ended {
			if !e {
				w.Fail("accept", "protocol %d still waits for connections after the listener was closed", i)
			}
		}
		for i, c := range ends {
			if c == nil {
				continue
			}
			back, err := readAll(c)
			if isTimeout(err) {
				w.Fail("open", "client %d is neither served nor closed after the listener was closed: %q, %v", i, back, err)
			}
			s := strings.Join(muxKinds[[]int{kinds[a], kinds[b]}[i]].send, "")
			if len(back) > 0 && string(back) != s {
				w.Fail("echo", "client %d sent %q and gets %q", i, s, back)
			}
		}
		seen := map[net.Conn]bool{}
		for _, t := range m.taken {
			if seen[t.conn] {
				w.Fail("taken", "a connection is handed over twice")
			}
			seen[t.conn] = true
			if !t.done || t.err != io.EOF {
				w.Fail("bytes", "a handler reads %q and then %v", t.got, t.err)
			}
			if want := wantProto(protos, string(t.got)); want != t.proto {
				w.Fail("protocol", "%q is given to protocol %d, not %d", t.got, t.proto, want)
			}
		}
	})
	x.Distinct(x.GetKey())
}

func readAll(c *vnet.End) (out []byte, err error) {
	c.SetReadDeadline(vrt.W.PeekNow().Add(time.Second))
	b := make([]byte, 64)
	for {
		n, err := c.Read(b)
		out = append(out, b[:n]...)
		if err != nil {
			return out, err
		}
	}
}

// scripted is a listener that gives connections and errors in the order of a script.
type scripted struct {
	script []int
	at     int
	conns  []net.Conn
	closed bool
}

type passing struct{}

func (passing) Error() string   { return "too many open files" }
func (passing) Timeout() bool   { return false }
func (passing) Temporary() bool { return true }

func (s *scripted) Accept() (net.Conn, error) {
	vrt.W.Yield("accept")
	if s.closed || s.at >= len(s.script) {
		return nil, errors.New("the listener is closed")
	}
	s.at++
	switch s.script[s.at-1] {
	case 0:
		a, _ := net.Pipe()
		s.conns = append(s.conns, a)
		return a, nil
	case 1:
		return nil, passing{}
	}
	return nil, errors.New("lasting")
}
func (s *scripted) Close() error   { s.closed = true; return nil }
func (s *scripted) Addr() net.Addr { return nil }

func muxErrors(x *vexp.X) {
	n := depth(x, 6, 9)
	s := &scripted{}
	x.Key("accept:")
	want := 0
	lasting := false
	for i := 0; i < n; i++ {
		k := x.Pick(4, "accept")
		if k == 3 {
			break
		}
		s.script = append(s.script, k)
		x.AddKey(" %s", []string{"connection", "passing error", "lasting error"}[k])
		if k == 0 && !lasting {
			want++
		}
		lasting = lasting || k == 2
	}
	x.World(vrt.Options{Horizon: time.Hour}, func(w *vrt.World) {
		srv := lp.NewTcpServer()
		handled := map[net.Conn]int{}
		srv.Handler = func(c net.Conn) {
			handled[c]++
		}
		over := false
		w.GoLabel("serve", "srv", func() {
			srv.Serve(s)
			over = true
		})
		for i := 0; i < 120 && !over; i++ {
			w.Sleep(time.Second)
		}
		if len(s.conns) != want {
			w.Fail("accepted", "%d connections are accepted, not %d", len(s.conns), want)
		}
		for _, c := range s.conns {
			if handled[c] != 1 {
				w.Fail("handled", "a connection is handled %d times", handled[c])
			}
		}
		if !over || !s.closed {
			w.Fail("end", "after a lasting error the server goes on (returned %v) or leaves its listener open (closed %v)", over, s.closed)
		}
	})
	x.Distinct(x.GetKey())
}
