package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/unit-io/unitdb/server/utp"
	"vrt"
	"vrt/vexp"
)

func c24() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "orders", Desc: "all sequences of valid, odd and malformed messages on one connection, while others are served", Weight: 4, Body: orders},
		{Name: "bytes", Desc: "every alteration and truncation of one byte of a whole session", Weight: 4, Body: sessionBytes},
		{Name: "stuck", Desc: "a client that does not read what it is sent", Weight: 1, Body: stuck},
		{Name: "leaving", Desc: "a client leaves at every point while messages are on their way to it", Quick: 1, Deep: 2, Weight: 3, Body: leaving},
	}
}

type packer interface {
	ToBinary() (bytes.Buffer, error)
}

func pack(ms ...packer) []byte {
	var out []byte
	for _, m := range ms {
		b, err := m.ToBinary()
		if err != nil {
			panic(err)
		}
		out = append(out, b.Bytes()...)
	}
	return out
}

func ctl(t utp.MessageType, f utp.FlowControl, id uint16) *utp.ControlMessage {
	return &utp.ControlMessage{MessageType: t, FlowControl: f, MessageID: id}
}

// atoms a client may send; con is its CONNECT.
func atoms(con *utp.Connect) (names []string, raw [][]byte) {
	add := func(n string, b []byte) { names, raw = append(names, n), append(raw, b) }
	sub := func(t ...string) *utp.Subscribe {
		m := &utp.Subscribe{MessageID: 5}
		for _, t := range t {
			m.Subscriptions = append(m.Subscriptions, &utp.Subscription{Topic: t, DeliveryMode: 1})
		}
		return m
	}
	pub := func(mode uint8, t ...string) *utp.Publish {
		m := &utp.Publish{MessageID: 5, DeliveryMode: mode}
		for _, t := range t {
			m.Messages = append(m.Messages, &utp.PublishMessage{Topic: t, Payload: []byte("p")})
		}
		return m
	}
	add("connect", pack(con))
	bad := *con
	bad.ClientID = "nobody"
	add("connect with a bad id", pack(&bad))
	bad.ClientID = ""
	add("connect without id", pack(&bad))
	secure := *con
	secure.InsecureFlag = false
	secure.BatchDuration, secure.BatchByteThreshold, secure.BatchCountThreshold = 0, 0, 0
	add("connect with keys, no batches", pack(&secure))
	neg := *con
	neg.BatchDuration, neg.BatchByteThreshold, neg.BatchCountThreshold, neg.KeepAlive = -5, -1, -1, -1
	add("connect with negative limits", pack(&neg))
	add("subscribe", pack(sub("x.y")))
	add("subscribe to many", pack(sub("x.y", "", "...", "x.y", "k/x.y", "/", "a..b")))
	add("subscribe to nothing", pack(sub()))
	add("unsubscribe", pack(&utp.Unsubscribe{MessageID: 5, Subscriptions: []*utp.Subscription{{Topic: "x.y"}, {Topic: "never"}}}))
	for m := uint8(0); m < 4; m++ {
		add(fmt.Sprintf("publish/%d", m), pack(pub(m, "x.y")))
	}
	add("publish many", pack(pub(0, "x.y", "", "...", "*", "unitdb/", "unitdb/keygen", "k/", "/")))
	add("publish without message", pack(pub(1)))
	add("special requests", pack(pub(0, "unitdb/clientid"), pub(0, "unitdb/keygen"), pub(0, "unitdb/none"), pub(0, "unitdb/")))
	add("empty payload", pack(&utp.Publish{MessageID: 6, DeliveryMode: 1, Messages: []*utp.PublishMessage{{Topic: "x.y"}}}))
	add("bad ttl", pack(&utp.Publish{MessageID: 6, Messages: []*utp.PublishMessage{{Topic: "x.y?ttl=9x", Payload: []byte("p"), Ttl: "-3q"}}}))
	add("relay", pack(&utp.Relay{MessageID: 6, RelayRequests: []*utp.RelayRequest{{Topic: "x.y", Last: "1h"}, {Topic: "x.y", Last: "soon"}, {Topic: "", Last: ""}}}))
	add("ping", pack(&utp.Pingreq{}))
	add("disconnect", pack(&utp.Disconnect{}))
	for _, f := range []utp.FlowControl{utp.ACKNOWLEDGE, utp.NOTIFY, utp.RECEIVE, utp.RECEIPT, utp.COMPLETE} {
		add(fmt.Sprintf("control %d", f), pack(ctl(utp.PUBLISH, f, 1)))
	}
	add("control of connect", pack(ctl(utp.CONNECT, utp.ACKNOWLEDGE, 0)))
	add("zero", []byte{0})
	add("ff", bytes.Repeat([]byte{0xff}, 12))
	add("half a message", pack(pub(1, "x.y"))[:7])
	return names, raw
}

// others set up clients that must be served whatever another client does.
func others(x *vexp.X, w *vrt.World) *parties {
	p := newParties(x, w, "pub", "a")
	p.doSub("a", "x.y", 0, 0)
	return p
}

// served checks that they are served, and a newcomer too.
func served(p *parties) {
	p.doPub("pub", "x.y", 0, 300*time.Millisecond)
	p.contract["new"] = 0x70000
	p.join("new", 55)
	p.doSub("new", "x...", 1, 0)
	p.doPub("a", "x.y", 1, 300*time.Millisecond)
	p.doRelay("new", "x.y")
}

func attacker(p *parties) (*Client, *utp.Connect) {
	c := p.s.dial("attacker")
	return c, &utp.Connect{Version: 1, ClientID: p.s.newID(nil, 0x90000).Encode(p.s.mac), InsecureFlag: true, CleanSessFlag: true, SessKey: 8,
		BatchDuration: 100, BatchByteThreshold: 1 << 16, BatchCountThreshold: 100}
}

func orders(x *vexp.X) {
	n := depth(x, 2, 3)
	first := x.Pick(2, "connected first")
	if first == 1 {
		x.AddKey("connected:")
	}
	var seq []int
	names, _ := atoms(&utp.Connect{})
	for i := 0; i < n; i++ {
		k := x.Pick(len(names), "message")
		seq = append(seq, k)
		x.AddKey("%s,", names[k])
	}
	x.World(opts, func(w *vrt.World) {
		p := others(x, w)
		c, con := attacker(p)
		_, raw := atoms(con)
		if first == 1 {
			c.raw(raw[0])
			w.Sleep(20 * time.Millisecond)
		}
		for _, k := range seq {
			c.raw(raw[k])
			w.Sleep(20 * time.Millisecond)
		}
		w.Sleep(200 * time.Millisecond)
		w.Note(len(c.got), c.eof)
		c.conn.Close()
		w.Sleep(100 * time.Millisecond)
		served(p)
		x.Count("messages", int64(n))
	})
}

func sessionBytes(x *vexp.X) {
	// the session: connect, subscribe, publish, relay, receipt, unsubscribe
	session := func(con *utp.Connect) []byte {
		return pack(con,
			&utp.Subscribe{MessageID: 300, Subscriptions: []*utp.Subscription{{Topic: "x.y", DeliveryMode: 1}}},
			&utp.Publish{MessageID: 2, DeliveryMode: 1, Messages: []*utp.PublishMessage{{Topic: "x.y", Payload: []byte("pp"), Ttl: "1m"}}},
			&utp.Relay{MessageID: 3, RelayRequests: []*utp.RelayRequest{{Topic: "x.y", Last: "1h"}}},
			ctl(utp.PUBLISH, utp.RECEIPT, 1),
			&utp.Unsubscribe{MessageID: 5, Subscriptions: []*utp.Subscription{{Topic: "x.y"}}},
			&utp.Disconnect{})
	}
	l := len(session(&utp.Connect{Version: 1, ClientID: strings.Repeat("A", 52), InsecureFlag: true, CleanSessFlag: true, SessKey: 8, BatchDuration: 100, BatchByteThreshold: 1 << 16, BatchCountThreshold: 100}))
	i := x.Pick(l, "position")
	vals := []int{-1, 0, 1, 2, 0x7f, 0x80, 0xff, -2, -3}
	if x.Tier == "thorough" {
		for v := 3; v < 0xff; v++ {
			vals = append(vals, v)
		}
	}
	v := vals[x.Pick(len(vals), "value")]
	x.Key("byte %d %d", i, v)
	x.World(opts, func(w *vrt.World) {
		p := others(x, w)
		c, con := attacker(p)
		b := session(con)
		if i >= len(b) {
			return
		}
		switch v {
		case -1:
			b = b[:i]
		case -2:
			b = append(append(append([]byte(nil), b[:i]...), 7), b[i:]...)
		case -3:
			b = append(append([]byte(nil), b[:i]...), b[i+1:]...)
		default:
			b[i] = byte(v)
		}
		c.raw(b)
		w.Sleep(300 * time.Millisecond)
		if v == -1 {
			c.conn.CloseWrite()
		}
		w.Note(len(c.got), c.eof)
		c.conn.Close()
		w.Sleep(100 * time.Millisecond)
		served(p)
		x.Count("altered sessions", 1)
	})
}

// stuck: a client does not read. Others are served, at the latest when it is given up.
func stuck(x *vexp.X) {
	mode := uint8(x.Pick(3, "mode"))
	same := x.Pick(2, "contract") == 1
	limit := []int{1, 100, 1000}[x.Pick(3, "buffer")]
	burst := []int{1, 5, 40}[x.Pick(3, "messages")]
	x.Key("mode %d, same contract %v, buffer %d, %d messages", mode, same, limit, burst)
	o := opts
	o.Horizon = 2 * time.Hour
	o.MaxSteps = 30_000_000
	x.World(o, func(w *vrt.World) {
		p := newParties(x, w, "pub", "a")
		c, con := attacker(p)
		if same {
			con.ClientID = p.s.newID(nil, 0x70000).Encode(p.s.mac)
		}
		con.SessKey = 99
		c.connect(con)
		c.subscribe(4, "x.y", mode, 0)
		w.Sleep(300 * time.Millisecond)
		c.paused = true
		c.conn.Limit(limit)
		p.doSub("a", "x.y", 0, 0)
		p.markAll()
		var want []string
		for i := 0; i < burst; i++ {
			p.n++
			p.pub.publish(p.next(), "x.y", fmt.Sprintf("m%d", p.n), mode)
			p.stored[0x70000] = map[string][]string{"x.y": append(p.stored[0x70000]["x.y"], fmt.Sprintf("x.y=m%d", p.n))}
			if !same {
				c.publish(7, "x.y", "to itself", mode)
			}
			want = append(want, fmt.Sprintf("x.y=m%d", p.n))
		}
		w.Sleep(10 * time.Minute)
		if same {
			p.check("messages sent while another subscriber does not read", map[string][]string{"a": want})
		} else if got := sorted(p.subs["a"].published()); !equal(got, sorted(want)) {
			w.Fail("delivery", "a got %q instead of %q while a client of another contract does not read", got, want)
		}
		// the idle clients of this test have been given up by now as well
		for _, n := range []string{"pub", "a"} {
			p.subs[n].conn.Close()
			p.join(n, 77)
		}
		p.pub = p.subs["pub"]
		p.doSub("a", "x.y", 0, 0)
		served(p)
	})
}

// leaving: a subscriber's connection ends while a message is on its way to it.
func leaving(x *vexp.X) {
	what := x.Pick(5, "what")
	x.Key("%s", []string{"express", "reliable", "batch", "relay", "disconnect twice"}[what])
	o := opts
	o.Sched = true
	x.World(o, func(w *vrt.World) {
		w.SetQuiet(true)
		p := others(x, w)
		p.doPub("pub", "x.y", 0, 300*time.Millisecond)
		c, con := attacker(p)
		con.ClientID = p.s.newID(nil, 0x70000).Encode(p.s.mac)
		con.BatchDuration = 1
		c.connect(con)
		mode := uint8(0)
		if what == 1 {
			mode = 1
		}
		if what == 2 {
			mode = 2
		}
		c.subscribe(4, "x.y", mode, 0)
		w.Sleep(300 * time.Millisecond)
		p.markAll()
		w.SetQuiet(false)
		switch what {
		case 3:
			c.relay(9, "x.y", "1h")
		case 4:
			c.send(&utp.Disconnect{})
			c.send(&utp.Disconnect{})
		default:
			p.pub.publish(101, "x.y", "m", mode)
		}
		c.conn.Close()
		w.Sleep(10 * time.Millisecond)
		w.SetQuiet(true)
		w.Sleep(time.Second)
		if what < 3 {
			if got := p.subs["a"].published(); len(got) != 1 {
				w.Fail("delivery", "the other subscriber got %q", got)
			}
			p.stored[0x70000]["x.y"] = append(p.stored[0x70000]["x.y"], "x.y=m")
		}
		served(p)
	})
}
