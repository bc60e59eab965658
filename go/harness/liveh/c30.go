package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/unit-io/unitdb/server/utp"
	"vrt"
	"vrt/vexp"
)

func c30() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "matrix", Desc: "one subscription, one publication: all patterns, topics, delivery modes, delays and contracts", Weight: 2, Body: matrix},
		{Name: "histories", Desc: "subscriptions come and go, clients leave and return, messages of all kinds are published", Weight: 5, Body: histories},
		{Name: "requests", Desc: "several subscriptions, topics and messages in one request, same topic more than once", Weight: 2, Body: requests},
		{Name: "batches", Desc: "batched and delayed delivery with small batch limits", Weight: 2, Body: batches},
		{Name: "relays", Desc: "messages of several times to live and ages, asked for over several ranges of time", Body: relays},
		{Name: "threads", Desc: "publications concurrent with each other and with subscribing, unsubscribing and leaving", Quick: 1, Deep: 2, Weight: 4, Body: threads},
	}
}

const settle = 5 * time.Second

var opts = vrt.Options{Horizon: time.Hour}

// parties of a test with their subscriptions.
type parties struct {
	s        *Server
	x        *vexp.X
	w        *vrt.World
	pub      *Client
	subs     map[string]*Client
	contract map[string]uint32
	count    map[string]map[string]int // client -> topic -> subscriptions
	stored   map[uint32]map[string][]string
	id       uint16
	n        int
}

func newParties(x *vexp.X, w *vrt.World, names ...string) *parties {
	p := &parties{s: boot(x, w), x: x, w: w, subs: map[string]*Client{}, contract: map[string]uint32{}, count: map[string]map[string]int{}, stored: map[uint32]map[string][]string{}}
	for i, n := range names {
		c := uint32(0x70000)
		if strings.HasPrefix(n, "foreign") {
			c = 0x90000
		}
		p.contract[n] = c
		p.join(n, int32(i+1))
	}
	p.pub = p.subs[names[0]]
	return p
}

func (p *parties) join(n string, sess int32) {
	c := p.s.join(n, p.s.newID(nil, p.contract[n]).Encode(p.s.mac), true, true, sess)
	c.auto = true
	p.subs[n] = c
	p.count[n] = map[string]int{}
}

func (p *parties) next() uint16 { p.id++; return p.id }

func (p *parties) markAll() {
	for _, c := range p.subs {
		if c != nil {
			c.mark()
		}
	}
}

// expect what everybody gets for messages published by a client: once per matching subscription.
func (p *parties) expect(from, topic, payload string) map[string][]string {
	out := map[string][]string{}
	for n, c := range p.subs {
		if c == nil || p.contract[n] != p.contract[from] {
			continue
		}
		for pat, k := range p.count[n] {
			if k > 0 && matches(pat, topic) {
				out[n] = append(out[n], topic+"="+payload)
			}
		}
	}
	return out
}

func (p *parties) check(what string, want map[string][]string) {
	for n, c := range p.subs {
		if c == nil {
			continue
		}
		got := sorted(c.published())
		if !equal(got, sorted(want[n])) {
			p.w.Fail("delivery", "%s: %s got %q instead of %q (%s)", what, n, got, sorted(want[n]), showAll(c.got[c.next:]))
		}
		p.w.Note(n, len(got))
	}
}

// doSub, doUnsub, doPub, doRelay: one request, its acknowledgement and its effects.
func (p *parties) doSub(n, topic string, mode uint8, delay int32) {
	p.markAll()
	id := p.next()
	p.subs[n].subscribe(id, topic, mode, delay)
	p.w.Sleep(time.Second)
	p.ack(n, "subscribe "+topic, utp.SUBSCRIBE, id)
	p.count[n][topic]++
	p.check(n+" subscribes", nil)
}

func (p *parties) doUnsub(n, topic string) {
	p.markAll()
	id := p.next()
	p.subs[n].unsubscribe(id, topic)
	p.w.Sleep(time.Second)
	p.ack(n, "unsubscribe "+topic, utp.UNSUBSCRIBE, id)
	if p.count[n][topic] > 0 {
		p.count[n][topic]--
	}
	p.check(n+" unsubscribes", nil)
}

func (p *parties) ack(n, what string, t utp.MessageType, id uint16) {
	if k := p.subs[n].count(isAck(t, id)); k != 1 {
		p.w.Fail("ack", "%s: %s is acknowledged %d times (%s) eof %v at %v %v", n, what, k, showAll(p.subs[n].got[p.subs[n].next:]), p.subs[n].eof, p.w.PeekNow().Sub(vrt.BaseTime), p.w.Threads())
	}
}

func (p *parties) doPub(n, topic string, mode uint8, wait time.Duration) {
	p.markAll()
	id := p.next()
	p.n++
	payload := fmt.Sprintf("m%d", p.n)
	p.subs[n].publish(id, topic, payload, mode)
	p.w.Sleep(wait)
	p.ack(n, "publish "+topic, utp.PUBLISH, id)
	p.check(fmt.Sprintf("%s publishes %s mode %d", n, topic, mode), p.expect(n, topic, payload))
	c := p.contract[n]
	if p.stored[c] == nil {
		p.stored[c] = map[string][]string{}
	}
	p.stored[c][topic] = append(p.stored[c][topic], topic+"="+payload)
}

func (p *parties) doRelay(n, topic string) {
	p.markAll()
	id := p.next()
	p.subs[n].relay(id, topic, "1h")
	p.w.Sleep(settle)
	p.ack(n, "relay "+topic, utp.RELAY, id)
	p.check(n+" asks for the messages of "+topic, map[string][]string{n: p.stored[p.contract[n]][topic]})
}

func (p *parties) drop(n string) {
	p.subs[n].conn.Close()
	p.subs[n] = nil
	p.count[n] = nil
	p.markAll()
	p.w.Sleep(settle)
	p.check(n+" leaves", nil)
}

var patterns = []string{"x.y", "x.*", "*.y", "*.*", "x...", "...", "x", "*", "x.y.*", "x.y...", "y.x", "x.z", "x.*.z"}
var plainTopics = []string{"x.y", "x", "y", "x.z", "x.y.z", "w.y"}

// matrix: one subscriber.
func matrix(x *vexp.X) {
	pat := patterns[x.Pick(len(patterns), "pattern")]
	sm := uint8(x.Pick(3, "subscriber mode"))
	pm := uint8(x.Pick(3, "publisher mode"))
	delay := []int32{0, 1500}[x.Pick(2, "delay")]
	x.Key("subscription %s mode %d delay %d, published with mode %d", pat, sm, delay, pm)
	x.World(opts, func(w *vrt.World) {
		p := newParties(x, w, "pub", "a", "foreign")
		p.doSub("a", pat, sm, delay)
		p.doSub("foreign", pat, sm, delay)
		for _, t := range plainTopics {
			p.doPub("pub", t, pm, settle)
		}
		for _, t := range plainTopics[:2] {
			p.doPub("foreign", t, pm, settle)
		}
		for _, t := range plainTopics[:3] {
			p.doRelay("a", t)
			p.doRelay("foreign", t)
		}
		p.doUnsub("a", pat)
		for _, t := range plainTopics[:2] {
			p.doPub("pub", t, pm, settle)
		}
		x.Count("publications", 10)
	})
}

type hop struct {
	name string
	f    func(p *parties) bool
}

func hops() []hop {
	sub := func(n, t string, m uint8) hop {
		return hop{fmt.Sprintf("%s+%s/%d", n, t, m), func(p *parties) bool {
			if p.subs[n] == nil {
				return false
			}
			p.doSub(n, t, m, 0)
			return true
		}}
	}
	unsub := func(n, t string) hop {
		return hop{fmt.Sprintf("%s-%s", n, t), func(p *parties) bool {
			if p.subs[n] == nil {
				return false
			}
			p.doUnsub(n, t)
			return true
		}}
	}
	return []hop{
		sub("a", "x.y", 0), sub("a", "x.*", 1), sub("b", "x.y", 1), sub("b", "x.y", 2), sub("foreign", "x.y", 0),
		unsub("a", "x.y"), unsub("a", "x.*"), unsub("b", "x.y"),
		{"pub/0", func(p *parties) bool { p.doPub("pub", "x.y", 0, settle); return true }},
		{"pub/1", func(p *parties) bool { p.doPub("pub", "x.y", 1, settle); return true }},
		{"foreign pub/1", func(p *parties) bool { p.doPub("foreign", "x.y", 1, settle); return true }},
		{"a leaves", func(p *parties) bool {
			if p.subs["a"] == nil {
				return false
			}
			p.drop("a")
			return true
		}},
		{"b returns", func(p *parties) bool {
			if p.subs["b"] != nil {
				p.drop("b")
			}
			p.join("b", 3)
			return true
		}},
		{"relay", func(p *parties) bool { p.doRelay("b", "x.y"); return true }},
	}
}

func histories(x *vexp.X) {
	n := depth(x, 3, 4)
	hs := hops()
	var ops []hop
	for i := 0; i < n; i++ {
		h := hs[x.Pick(len(hs), "op")]
		ops = append(ops, h)
		x.AddKey("%s", h.name)
	}
	x.World(opts, func(w *vrt.World) {
		p := newParties(x, w, "pub", "a", "b", "foreign")
		for _, o := range ops {
			if !o.f(p) {
				return
			}
			x.Count("operations", 1)
		}
		p.doPub("pub", "x.y", 0, settle)
		p.doPub("pub", "x.y", 1, settle)
	})
}

// relays: which of the stored messages are returned later.
func relays(x *vexp.X) {
	n := depth(x, 3, 4)
	var ops []string
	for i := 0; i < n; i++ {
		o := []string{"publish", "publish for 20s", "publish for 3m", "wait 12s", "wait 70s"}[x.Pick(5, "op")]
		ops = append(ops, o)
		x.AddKey("%s", o)
	}
	x.World(opts, func(w *vrt.World) {
		p := newParties(x, w, "pub", "a", "foreign")
		type message struct {
			text string
			at   time.Time
			ttl  time.Duration
		}
		var all []message
		wait := func(d time.Duration) {
			for d > 0 {
				step := d
				if step > 40*time.Second {
					step = 40 * time.Second
				}
				w.Sleep(step)
				d -= step
				for _, c := range p.subs {
					c.send(&utp.Pingreq{})
				}
			}
			w.Sleep(time.Second)
		}
		for i, o := range append(ops, "publish") {
			switch {
			case strings.HasPrefix(o, "wait"):
				d, _ := time.ParseDuration(o[5:])
				wait(d)
			default:
				m := message{text: fmt.Sprintf("m%d", i), at: w.PeekNow()}
				ttl := ""
				if i := strings.Index(o, "for "); i >= 0 {
					ttl = o[i+4:]
					m.ttl, _ = time.ParseDuration(ttl)
				}
				id := p.next()
				p.markAll()
				p.pub.send(&utp.Publish{MessageID: id, DeliveryMode: uint8(i % 2), Messages: []*utp.PublishMessage{{Topic: "x.y", Payload: []byte(m.text), Ttl: ttl}}})
				w.Sleep(time.Second)
				p.ack("pub", "publish", utp.PUBLISH, id)
				all = append(all, m)
			}
		}
		for _, last := range []time.Duration{30 * time.Second, 2 * time.Minute, time.Hour} {
			for _, who := range []string{"a", "foreign"} {
				near := func(a, b time.Duration) bool { return a-b < 4*time.Second && b-a < 4*time.Second }
				var want []string
				open := false
				for _, m := range all {
					age := w.PeekNow().Sub(m.at)
					if near(age, last) || m.ttl > 0 && near(age, m.ttl) {
						open = true // at the edge it may be returned or not
					}
					if who == "a" && age < last && (m.ttl == 0 || age < m.ttl) {
						want = append(want, "x.y="+m.text)
					}
				}
				p.markAll()
				id := p.next()
				p.subs[who].relay(id, "x.y", last.String())
				w.Sleep(2 * time.Second)
				p.ack(who, "relay", utp.RELAY, id)
				if !open || who == "foreign" {
					x.Count("relays", 1)
					p.check(fmt.Sprintf("%s asks for the messages of the last %v", who, last), map[string][]string{who: want})
				}
			}
		}
	})
}

// requests: one request with several parts.
func requests(x *vexp.X) {
	two := []string{"x.y", "x.*", "y", "..."}
	s1, s2 := two[x.Pick(len(two), "first")], two[x.Pick(len(two), "second")]
	pm := uint8(x.Pick(3, "publisher mode"))
	t := []string{"x.y", "y", "z.z"}
	t1, t2, t3 := t[x.Pick(3, "topic 1")], t[x.Pick(3, "topic 2")], t[x.Pick(depth(x, 1, 3), "topic 3")]
	un := x.Pick(4, "unsubscribe")
	x.Key("subscribe to %s and %s at once, publish to %s, %s, %s at once mode %d, unsubscribe %d", s1, s2, t1, t2, t3, pm, un)
	x.World(opts, func(w *vrt.World) {
		p := newParties(x, w, "pub", "a", "foreign")
		a := p.subs["a"]
		id := p.next()
		a.send(&utp.Subscribe{MessageID: id, Subscriptions: []*utp.Subscription{{Topic: s1, DeliveryMode: 1}, {Topic: s2, DeliveryMode: 0}}})
		w.Sleep(time.Second)
		p.ack("a", "subscribe", utp.SUBSCRIBE, id)
		p.count["a"][s1]++
		p.count["a"][s2]++
		pubAll := func() {
			p.markAll()
			id := p.next()
			m := &utp.Publish{MessageID: id, DeliveryMode: pm}
			want := map[string][]string{}
			for _, t := range []string{t1, t2, t3} {
				p.n++
				pl := fmt.Sprintf("m%d", p.n)
				m.Messages = append(m.Messages, &utp.PublishMessage{Topic: t, Payload: []byte(pl)})
				for n, l := range p.expect("pub", t, pl) {
					want[n] = append(want[n], l...)
				}
			}
			p.pub.send(m)
			w.Sleep(settle)
			p.ack("pub", "publish", utp.PUBLISH, id)
			p.check("three publications", want)
		}
		pubAll()
		p.markAll()
		id = p.next()
		var l []*utp.Subscription
		if un&1 != 0 {
			l = append(l, &utp.Subscription{Topic: s1})
			p.count["a"][s1]--
		}
		if un&2 != 0 {
			l = append(l, &utp.Subscription{Topic: s2})
			p.count["a"][s2]--
		}
		a.send(&utp.Unsubscribe{MessageID: id, Subscriptions: l})
		w.Sleep(time.Second)
		p.ack("a", "unsubscribe", utp.UNSUBSCRIBE, id)
		pubAll()
		x.Count("publications", 6)
	})
}

// batches: more messages than fit in a batch.
func batches(x *vexp.X) {
	limit := int32(1 + x.Pick(3, "messages per batch"))
	bytes := []int32{1 << 16, 5, 40}[x.Pick(3, "bytes per batch")]
	n := 1 + x.Pick(6, "messages")
	pm := []uint8{0, 2}[x.Pick(2, "publisher mode")]
	dur := []int32{100, 300}[x.Pick(2, "batch duration")]
	delay := []int32{0, 250}[x.Pick(2, "delay")]
	gap := []time.Duration{0, 70 * time.Millisecond, 3 * time.Second}[x.Pick(3, "gap")]
	x.Key("limits %d messages, %d bytes, %d ms, delay %d; %d messages mode %d every %v", limit, bytes, dur, delay, n, pm, gap)
	x.World(opts, func(w *vrt.World) {
		p := newParties(x, w, "pub")
		c := p.s.dial("a")
		a := c.connect(&utp.Connect{ClientID: p.s.newID(nil, 0x70000).Encode(p.s.mac), InsecureFlag: true, CleanSessFlag: true, SessKey: 9,
			BatchDuration: dur, BatchByteThreshold: bytes, BatchCountThreshold: limit})
		if a == nil || a.ReturnCode != utp.Accepted {
			w.Fail("connect", "not accepted: %v", a)
		}
		c.mark()
		c.auto = true
		p.subs["a"], p.contract["a"], p.count["a"] = c, 0x70000, map[string]int{}
		sm := uint8(0)
		if delay == 0 {
			sm = 2
		}
		p.doSub("a", "x.y", sm, delay)
		p.markAll()
		want := map[string][]string{}
		for i := 0; i < n; i++ {
			p.n++
			p.pub.publish(p.next(), "x.y", fmt.Sprintf("message %d", p.n), pm)
			want["a"] = append(want["a"], fmt.Sprintf("x.y=message %d", p.n))
			w.Sleep(gap)
		}
		w.Sleep(30 * time.Second)
		p.check("batched messages", want)
	})
}

// threads: everything at once.
func threads(x *vexp.X) {
	modes := [][2]uint8{{0, 0}, {1, 1}, {1, 0}, {2, 2}}
	m := modes[x.Pick(depth(x, 2, 4), "modes")]
	other := x.Pick(5, "other")
	x.Key("published with mode %d to a subscription of mode %d while %s", m[0], m[1], []string{"another client publishes", "another client subscribes", "another client unsubscribes", "another client leaves", "the subscriber subscribes to something else"}[other])
	o := opts
	o.Sched = true
	x.World(o, func(w *vrt.World) {
		w.SetQuiet(true)
		p := newParties(x, w, "pub", "a", "b")
		a, b := p.subs["a"], p.subs["b"]
		p.doSub("a", "x.y", m[1], 0)
		if other == 2 || other == 3 {
			p.doSub("b", "x.y", m[1], 0)
		}
		p.markAll()
		w.SetQuiet(false)
		p.pub.publish(101, "x.y", "one", m[0])
		switch other {
		case 0:
			b.publish(101, "x.y", "two", m[0])
		case 1:
			b.subscribe(101, "x.*", m[1], 0)
		case 2:
			b.unsubscribe(101, "x.y")
		case 3:
			b.conn.Close()
		case 4:
			a.subscribe(101, "x.z", m[1], 0)
		}
		w.Sleep(20 * time.Millisecond)
		w.SetQuiet(true)
		w.Sleep(settle)
		want := []string{"x.y=one"}
		if other == 0 {
			want = append(want, "x.y=two")
		}
		if got := sorted(a.published()); !equal(got, want) {
			w.Fail("delivery", "the subscriber got %q instead of %q (%s)", got, want, showAll(a.got[a.next:]))
		}
		p.ack("pub", "publish", utp.PUBLISH, 101)
		if other == 0 {
			p.ack("b", "publish", utp.PUBLISH, 101)
		} else if got := b.published(); len(got) > 1 || len(got) == 1 && got[0] != "x.y=one" {
			w.Fail("delivery", "the other client got %q", got)
		} else {
			w.Note("other", len(got))
		}
		p.markAll()
		p.n = 9
		want = []string{"x.y=m10"}
		p.pub.publish(102, "x.y", "m10", m[0])
		w.Sleep(settle)
		for _, c := range []*Client{a, b} {
			wn := want
			if c == b && other != 1 {
				wn = nil
			}
			if got := c.published(); !equal(got, wn) {
				w.Fail("delivery-later", "%s got %q instead of %q", c.name, got, wn)
			}
		}
	})
}
