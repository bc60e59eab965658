package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/unit-io/unitdb/server/common"
	lp "github.com/unit-io/unitdb/server/internal/net"
	pbx "github.com/unit-io/unitdb/server/proto"
	"github.com/unit-io/unitdb/server/utp"
	"google.golang.org/grpc/metadata"
	"vrt/vexp"
)

var (
	i32s  = []int32{0, 1, -1, 127, 128, 1<<31 - 1, -1 << 31}
	u16s  = []uint16{0, 1, 127, 128, 255, 256, 1<<15 - 1, 1 << 15, 1<<16 - 1}
	u8s   = []uint8{0, 1, 2, 127, 128, 255}
	texts = []string{"", "a", "unit8.b.b1", "key/a.b?ttl=1m", "...", "a.*.c", "é✓\x00\n", strings.Repeat("long.", 60), strings.Repeat("x", 70000)}
	blobs = [][]byte{nil, {0}, {0xff, 0xfe, 0x80}, []byte("payload"), bytes.Repeat([]byte{0x80}, 127), bytes.Repeat([]byte{1}, 128), bytes.Repeat([]byte("ab"), 8100), bytes.Repeat([]byte{9}, 300000)}
)

// norm makes nil and empty equal, as the wire format does.
func norm(p lp.MessagePack) lp.MessagePack {
	b := func(v []byte) []byte {
		if len(v) == 0 {
			return nil
		}
		return v
	}
	switch m := p.(type) {
	case *utp.Connect:
		q := *m
		q.Password = b(q.Password)
		return &q
	case *utp.Publish:
		q := *m
		q.IsForwarded = false
		q.Messages = nil
		for _, e := range m.Messages {
			f := *e
			f.Payload = b(f.Payload)
			q.Messages = append(q.Messages, &f)
		}
		return &q
	case *utp.Relay:
		q := *m
		q.IsForwarded = false
		if len(q.RelayRequests) == 0 {
			q.RelayRequests = nil
		}
		return &q
	case *utp.Subscribe:
		q := *m
		q.IsForwarded = false
		if len(q.Subscriptions) == 0 {
			q.Subscriptions = nil
		}
		return &q
	case *utp.Unsubscribe:
		q := *m
		q.IsForwarded = false
		if len(q.Subscriptions) == 0 {
			q.Subscriptions = nil
		}
		return &q
	case *utp.ControlMessage:
		q := *m
		q.Message = b(q.Message)
		return &q
	}
	return p
}

func show(p lp.MessagePack) string {
	s := fmt.Sprintf("%T", p)
	switch m := p.(type) {
	case *utp.Publish:
		s += fmt.Sprintf("{%d %d", m.MessageID, m.DeliveryMode)
		for _, e := range m.Messages {
			s += fmt.Sprintf(" (%.20q %.20q(%d) %q)", e.Topic, e.Payload, len(e.Payload), e.Ttl)
		}
		return s + "}"
	case *utp.Subscribe:
		s += fmt.Sprintf("{%d", m.MessageID)
		for _, e := range m.Subscriptions {
			s += fmt.Sprintf(" (%d %d %.20q)", e.DeliveryMode, e.Delay, e.Topic)
		}
		return s + "}"
	case *utp.Unsubscribe:
		s += fmt.Sprintf("{%d", m.MessageID)
		for _, e := range m.Subscriptions {
			s += fmt.Sprintf(" (%d %d %.20q)", e.DeliveryMode, e.Delay, e.Topic)
		}
		return s + "}"
	case *utp.Relay:
		s += fmt.Sprintf("{%d", m.MessageID)
		for _, e := range m.RelayRequests {
			s += fmt.Sprintf(" (%.20q %.20q)", e.Topic, e.Last)
		}
		return s + "}"
	}
	t := fmt.Sprintf("%+v", p)
	if len(t) > 200 {
		t = t[:200]
	}
	return s + t
}

// chunks is a reader that gives at most n bytes a time.
type chunks struct {
	b []byte
	n int
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := c.n
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.b)
	c.b = c.b[n:]
	return n, nil
}

func encode(x *vexp.X, p lp.MessagePack) []byte {
	buf, err := p.ToBinary()
	if err != nil {
		x.Fail("encode", "%s: %v", show(p), err)
	}
	return append([]byte(nil), buf.Bytes()...)
}

func roundTrip(x *vexp.X, p lp.MessagePack) {
	x.Count("messages", 1)
	b := encode(x, p)
	sizes := []int{1 << 30, 1}
	if len(b) > 2000 {
		sizes = []int{1 << 30, 1021}
	}
	for _, n := range sizes {
		r := &chunks{b: append(append([]byte(nil), b...), 0x55), n: n}
		q, err := lp.Read(r)
		if err != nil {
			x.Fail("decode", "%s: %v", show(p), err)
		}
		if !reflect.DeepEqual(norm(p), norm(q)) {
			x.Fail("differs", "%s is decoded as %s", show(p), show(q))
		}
		if len(r.b) != 1 {
			x.Fail("length", "%s: %d bytes follow the message instead of one", show(p), len(r.b))
		}
		if p.Type() != q.Type() || p.Info() != q.Info() {
			x.Fail("info", "%s: type %v %v info %v %v", show(p), p.Type(), q.Type(), p.Info(), q.Info())
		}
	}
	if p.Type() == utp.PUBLISH || p.Type() == utp.FLOWCONTROL || p.Type() == utp.DISCONNECT {
		e, err := lp.Encode(p)
		if err != nil || !bytes.Equal(e.Bytes(), b) {
			x.Fail("encode", "%s: Encode gives other bytes (%v)", show(p), err)
		}
	}
}

func codecConnect(x *vexp.X) {
	m := &utp.Connect{}
	// every pair of fields takes all boundary values, the others stay at distinct defaults
	f := []func(i int) int{
		func(i int) int { m.Version = i32s[i%len(i32s)]; return len(i32s) },
		func(i int) int { m.InsecureFlag = i%2 == 1; return 2 },
		func(i int) int { m.ClientID = texts[i%len(texts)]; return len(texts) },
		func(i int) int { m.KeepAlive = i32s[i%len(i32s)]; return len(i32s) },
		func(i int) int { m.CleanSessFlag = i%2 == 1; return 2 },
		func(i int) int { m.SessKey = i32s[i%len(i32s)]; return len(i32s) },
		func(i int) int { m.Username = texts[i%len(texts)]; return len(texts) },
		func(i int) int { m.Password = blobs[i%len(blobs)]; return len(blobs) },
		func(i int) int { m.BatchDuration = i32s[i%len(i32s)]; return len(i32s) },
		func(i int) int { m.BatchByteThreshold = i32s[i%len(i32s)]; return len(i32s) },
		func(i int) int { m.BatchCountThreshold = i32s[i%len(i32s)]; return len(i32s) },
	}
	a, b := x.Pick(len(f), "field"), x.Pick(len(f), "field")
	x.Key("connect, fields %d and %d", a, b)
	for i := 0; i < f[a](0); i++ {
		for j := 0; j < f[b](0); j++ {
			*m = utp.Connect{Version: 1, ClientID: "id", KeepAlive: 2, SessKey: 3, Username: "u", Password: []byte("p"), BatchDuration: 4, BatchByteThreshold: 5, BatchCountThreshold: 6}
			f[a](i)
			f[b](j)
			roundTrip(x, m)
			x.Distinct(a, b, i, j)
		}
	}
}

func codecPublish(x *vexp.X) {
	n := x.Pick(4, "entries")
	id := u16s[x.Pick(len(u16s), "id")]
	mode := u8s[x.Pick(len(u8s), "mode")]
	x.Key("publish, %d entries, id %d, mode %d", n, id, mode)
	for i := range texts {
		for j := range blobs {
			for _, ttl := range []string{"", "1m"} {
				m := &utp.Publish{MessageID: id, DeliveryMode: mode}
				for k := 0; k < n; k++ {
					m.Messages = append(m.Messages, &utp.PublishMessage{Topic: texts[(i+k)%len(texts)], Payload: blobs[(j+2*k)%len(blobs)], Ttl: ttl})
				}
				roundTrip(x, m)
				x.Distinct(n, id, mode, i, j, ttl)
				if n == 0 {
					return
				}
			}
		}
	}
}

func codecRest(x *vexp.X) {
	id := u16s[x.Pick(len(u16s), "id")]
	n := x.Pick(4, "entries")
	x.Key("subscribe, unsubscribe, relay, control; %d entries, id %d", n, id)
	roundTrip(x, &utp.Pingreq{})
	roundTrip(x, &utp.Disconnect{MessageID: id})
	for _, t := range []utp.MessageType{utp.CONNECT, utp.PUBLISH, utp.RELAY, utp.SUBSCRIBE, utp.UNSUBSCRIBE} {
		for _, b := range blobs {
			roundTrip(x, &utp.ControlMessage{MessageID: id, MessageType: t, FlowControl: utp.ACKNOWLEDGE, Message: b})
		}
	}
	for _, c := range []utp.FlowControl{utp.NOTIFY, utp.RECEIVE, utp.RECEIPT, utp.COMPLETE} {
		for _, b := range blobs {
			roundTrip(x, &utp.ControlMessage{MessageID: id, MessageType: utp.PUBLISH, FlowControl: c, Message: b})
		}
	}
	for _, r := range u8s {
		for _, e := range i32s {
			for _, c := range i32s {
				a := utp.ConnectAcknowledge{ReturnCode: r, Epoch: e, ConnID: c}
				buf, err := a.ToBinary()
				if err != nil {
					x.Fail("encode", "%+v: %v", a, err)
				}
				// it travels inside a control message
				m := &utp.ControlMessage{MessageType: utp.CONNECT, FlowControl: utp.ACKNOWLEDGE, Message: buf.Bytes()}
				q, err := lp.Read(bytes.NewReader(encode(x, m)))
				if err != nil {
					x.Fail("decode", "%+v: %v", a, err)
				}
				var b utp.ConnectAcknowledge
				b.FromBinary(utp.FixedHeader{}, q.(*utp.ControlMessage).Message)
				if a != b {
					x.Fail("differs", "%+v is decoded as %+v", a, b)
				}
			}
		}
	}
	for i := range texts {
		for _, d := range i32s {
			s := &utp.Subscribe{MessageID: id}
			u := &utp.Unsubscribe{MessageID: id}
			r := &utp.Relay{MessageID: id}
			for k := 0; k < n; k++ {
				e := &utp.Subscription{DeliveryMode: u8s[(i+k)%len(u8s)], Delay: d + int32(k), Topic: texts[(i+k)%len(texts)]}
				s.Subscriptions = append(s.Subscriptions, e)
				u.Subscriptions = append(u.Subscriptions, e)
				r.RelayRequests = append(r.RelayRequests, &utp.RelayRequest{Topic: texts[(i+k)%len(texts)], Last: texts[(i+2*k+1)%len(texts)]})
			}
			roundTrip(x, s)
			roundTrip(x, u)
			roundTrip(x, r)
			x.Distinct(n, id, i, d)
		}
	}
}

func samples() []lp.MessagePack {
	return []lp.MessagePack{
		&utp.Connect{Version: 1, InsecureFlag: true, ClientID: "abc", SessKey: 7, BatchDuration: 100},
		&utp.Publish{MessageID: 300, DeliveryMode: 1, Messages: []*utp.PublishMessage{{Topic: "k/a.b", Payload: []byte("hello"), Ttl: "1m"}}},
		&utp.Publish{},
		&utp.Publish{MessageID: 1, Messages: []*utp.PublishMessage{{Topic: "t", Payload: bytes.Repeat([]byte{7}, 200)}, {Topic: "u"}}},
		&utp.Relay{MessageID: 2, RelayRequests: []*utp.RelayRequest{{Topic: "a", Last: "1h"}}},
		&utp.Subscribe{MessageID: 3, Subscriptions: []*utp.Subscription{{DeliveryMode: 2, Delay: 5, Topic: "a.*"}}},
		&utp.Unsubscribe{MessageID: 4, Subscriptions: []*utp.Subscription{{Topic: "a"}}},
		&utp.Pingreq{},
		&utp.ControlMessage{MessageID: 5, MessageType: utp.PUBLISH, FlowControl: utp.RECEIPT},
		&utp.ControlMessage{MessageType: utp.CONNECT, FlowControl: utp.ACKNOWLEDGE, Message: []byte{1, 2, 3}},
		&utp.Disconnect{MessageID: 9},
	}
}

// streams: sequences of messages in one stream, read whole and split in two at every place.
func streams(x *vexp.X) {
	all := samples()
	n := 2 + x.Pick(depth(x, 1, 2), "messages")
	var ms []lp.MessagePack
	var data []byte
	x.Key("stream:")
	for i := 0; i < n; i++ {
		p := all[x.Pick(len(all), "message")]
		x.AddKey("%T", p)
		ms = append(ms, p)
		data = append(data, encode(x, p)...)
	}
	for cut := 0; cut < len(data); cut++ {
		var r io.Reader = io.MultiReader(bytes.NewReader(data[:cut]), bytes.NewReader(data[cut:]))
		for i, p := range ms {
			q, err := lp.Read(r)
			if err != nil {
				x.Fail("decode", "message %d (%s), stream split at %d: %v", i, show(p), cut, err)
			}
			if !reflect.DeepEqual(norm(p), norm(q)) {
				x.Fail("differs", "message %d, stream split at %d: %s is decoded as %s", i, cut, show(p), show(q))
			}
		}
		if _, err := lp.Read(r); err != io.EOF {
			x.Fail("end", "reading after the last message gives %v", err)
		}
		x.Count("streams", 1)
	}
	x.Distinct(x.GetKey())
}

type fakeStream struct {
	in   [][]byte
	out  []byte
	sent int
}

func (f *fakeStream) Context() context.Context     { return context.Background() }
func (f *fakeStream) SetHeader(metadata.MD) error  { return nil }
func (f *fakeStream) SendHeader(metadata.MD) error { return nil }
func (f *fakeStream) SetTrailer(metadata.MD)       {}
func (f *fakeStream) SendMsg(m interface{}) error {
	// the message goes over the wire
	b, err := proto.Marshal(m.(proto.Message))
	if err != nil {
		return err
	}
	var p pbx.Packet
	if err := proto.Unmarshal(b, &p); err != nil {
		return err
	}
	f.out = append(f.out, p.Data...)
	f.sent++
	return nil
}
func (f *fakeStream) RecvMsg(m interface{}) error {
	if len(f.in) == 0 {
		return io.EOF
	}
	b, err := proto.Marshal(&pbx.Packet{Data: f.in[0]})
	if err != nil {
		return err
	}
	f.in = f.in[1:]
	return proto.Unmarshal(b, m.(proto.Message))
}

// adapter: every way the stream is cut into packets and every sequence of read sizes gives the bytes in order.
func adapter(x *vexp.X) {
	n := depth(x, 7, 9)
	data := []byte("abcdefghi")[:n]
	mask := x.Pick(1<<(n-1), "packets")
	var pk [][]byte
	from := 0
	for i := 1; i <= n; i++ {
		if i == n || mask>>(i-1)&1 == 1 {
			pk = append(pk, data[from:i])
			from = i
		}
	}
	x.Key("packets %q", pk)
	sizes := []int{1, 2, 3, 5, 20}
	var rec func(read []int, left int)
	rec = func(read []int, left int) {
		if left == 0 || len(read) == 4 {
			fs := &fakeStream{in: append([][]byte(nil), pk...)}
			c := lp.StreamConn(fs)
			var got []byte
			for i := 0; len(got) < n; i++ {
				k := read[i%len(read)]
				p := make([]byte, k)
				m, err := c.Read(p)
				if err != nil || m > k || m < 0 {
					x.Fail("read", "reads of %v: read %d gives %d, %v", read, i, m, err)
				}
				got = append(got, p[:m]...)
				if i > 100 {
					break
				}
			}
			if !bytes.Equal(got, data) {
				x.Fail("bytes", "reads of %v give %q", read, got)
			}
			if m, err := c.Read(make([]byte, 4)); m != 0 || err != io.EOF {
				x.Fail("end", "reads of %v: the end gives %d %v", read, m, err)
			}
			x.Count("streams", 1)
			return
		}
		for _, k := range sizes {
			rec(append(read[:len(read):len(read)], k), left-1)
		}
	}
	rec(nil, 4)
	// writing, whole and in chunks
	for size := 0; size <= n+1; size++ {
		fs := &fakeStream{}
		c := lp.StreamConn(fs)
		if size > 0 {
			c.Encode = common.ChunkedEncoder(c.Encode, size)
		}
		from := 0
		for _, p := range pk {
			m, err := c.Write(p)
			if m != len(p) || err != nil {
				x.Fail("write", "chunks of %d: writing %q gives %d %v", size, p, m, err)
			}
			from += len(p)
			if !bytes.Equal(fs.out, data[:from]) {
				x.Fail("written", "chunks of %d: after %q the stream has %q", size, p, fs.out)
			}
		}
	}
	x.Distinct(mask)
}

func c23() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "connect", Desc: "connect requests with all boundary values of every pair of fields", Body: codecConnect},
		{Name: "publish", Desc: "publications with boundary values of every field", Body: codecPublish},
		{Name: "others", Desc: "all other messages with boundary values of every field", Body: codecRest},
		{Name: "streams", Desc: "all sequences of messages in one stream split at every place", Body: streams},
		{Name: "adapter", Desc: "all ways the stream adapter's data is cut into packets, reads and chunks", Body: adapter},
		{Name: "websocket", Desc: "all ways a websocket's data is cut into messages, frames, reads and chunks", Body: websockets},
		{Name: "websocket sizes", Desc: "pairs of websocket messages of sizes around the limits of the frames", Body: websocketSizes},
	}
}
