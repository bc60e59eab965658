package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/unit-io/unitdb/server/internal/message/security"
	"github.com/unit-io/unitdb/server/utp"
	"vrt"
	"vrt/vexp"
)

func c25() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "live requests", Desc: "every key against every request of a connected client", Weight: 3, Body: liveRequests},
		{Name: "live mixed", Desc: "requests with an allowed and a refused part", Weight: 1, Body: liveMixed},
		{Name: "live keygen", Desc: "keys asked for from the server", Weight: 1, Body: liveKeygen},
	}
}

const (
	longA = "groups.private.673651407196578720"
	longB = "groups.private.673651407196578721"
	longW = "groups.private.*"
)

type keyKind struct {
	name string
	make func(s *Server) string
	// what it grants on a topic
	read, write func(topic string) bool
}

func none(string) bool { return false }

func only(ts ...string) func(string) bool {
	return func(t string) bool {
		for _, q := range ts {
			if q == t || q == "..." {
				return true
			}
		}
		return false
	}
}

func keyKinds() []keyKind {
	var out []keyKind
	for _, t := range []string{longA, longB, longW, "..."} {
		t := t
		w := only(t)
		if strings.ContainsAny(t, "*") || strings.HasSuffix(t, "...") {
			w = none // a key for a wildcard is not one to publish with
		}
		for _, a := range []struct {
			n    string
			bits uint32
			r, w bool
		}{{"none", 0, false, false}, {"read", security.AllowRead, true, false}, {"write", security.AllowWrite, false, true}, {"both", security.AllowReadWrite, true, true}, {"admin", security.AllowAdmin, false, false}} {
			a := a
			k := keyKind{name: a.n + " key for " + t, make: func(s *Server) string { return s.key(0x70000, t, a.bits) }, read: none, write: none}
			if a.r {
				k.read = only(t)
			}
			if a.w {
				k.write = w
			}
			out = append(out, k)
		}
	}
	out = append(out,
		keyKind{"key of another contract", func(s *Server) string { return s.key(0x90000, longA, security.AllowReadWrite) }, none, none},
		keyKind{"no key", func(s *Server) string { return "" }, none, none},
		keyKind{"garbage", func(s *Server) string { return "AAAAAAAAAAAAAAAA" }, none, none},
		keyKind{"short garbage", func(s *Server) string { return "k" }, none, none},
		keyKind{"long garbage", func(s *Server) string { return strings.Repeat("Zz9", 20) }, none, none},
	)
	return out
}

func withKey(key, topic string) string {
	if key == "" {
		return topic
	}
	return key + "/" + topic
}

// guarded is a client whose requests need keys, next to one that observes.
type guarded struct {
	*parties
	g   *Client
	obs *Client
}

func newGuarded(x *vexp.X, w *vrt.World) *guarded {
	p := newParties(x, w, "pub", "obs")
	p.contract["g"] = 0x70000
	g := p.s.join("g", p.s.newID(nil, 0x70000).Encode(p.s.mac), false, true, 44)
	g.auto = true
	return &guarded{p, g, p.subs["obs"]}
}

func (p *guarded) marks() { p.markAll(); p.g.mark() }

// errors for a request.
func (p *guarded) errors(id uint16) int {
	n := 0
	for _, s := range p.g.published() {
		if !strings.HasPrefix(s, "unitdb/error/=") {
			continue
		}
		var e struct{ Status, ID int }
		if err := json.Unmarshal([]byte(strings.TrimPrefix(s, "unitdb/error/=")), &e); err != nil || e.Status < 400 {
			p.w.Fail("error-reply", "%s: %v", s, err)
		}
		if e.ID == int(id) {
			n++
		} else {
			p.w.Fail("error-reply", "the error reply is for request %d instead of %d: %s", e.ID, id, s)
		}
	}
	return n
}

// messages got apart from error replies.
func plain(c *Client) []string {
	var out []string
	for _, s := range c.published() {
		if !strings.HasPrefix(s, "unitdb/error/=") {
			out = append(out, s)
		}
	}
	return sorted(out)
}

func (p *guarded) verdict(what string, id uint16, refused int) {
	if n := p.errors(id); n != refused {
		p.w.Fail("verdict", "%s: %d error replies instead of %d: %s", what, n, refused, showAll(p.g.got[p.g.next:]))
	}
	p.x.Count("requests", 1)
}

func (p *guarded) expectPlain(what string, c *Client, want ...string) {
	if got := plain(c); !equal(got, sorted(want)) {
		p.w.Fail("effect", "%s: %s got %q instead of %q", what, c.name, got, want)
	}
}

func b2i(b bool) int {
	if b {
		return 0
	}
	return 1
}

func liveRequests(x *vexp.X) {
	ks := keyKinds()
	k := ks[x.Pick(len(ks), "key")]
	topic := []string{longA, longB, longW, "groups.private...", "..."}[x.Pick(5, "topic")]
	x.Key("%s, requests for %s", k.name, topic)
	x.World(opts, func(w *vrt.World) {
		p := newGuarded(x, w)
		key := k.make(p.s)
		text := withKey(key, topic)
		settle := 300 * time.Millisecond
		p.obs.subscribe(1, longA, 0, 0)
		p.obs.subscribe(2, longB, 0, 0)
		w.Sleep(settle)
		var stored []string
		reach := []string{} // plain topics the requested one stands for
		for _, t := range []string{longA, longB} {
			if matches(topic, t) {
				reach = append(reach, t)
			}
		}
		// subscribe
		p.marks()
		p.g.subscribe(10, text, 0, 0)
		w.Sleep(settle)
		p.verdict("subscribe", 10, b2i(k.read(topic)))
		subscribed := k.read(topic)
		spread := func(what string) {
			for _, t := range reach {
				p.marks()
				p.n++
				pl := fmt.Sprintf("m%d", p.n)
				p.pub.publish(20, t, pl, 0)
				w.Sleep(settle)
				stored = append(stored, t+"="+pl)
				if subscribed {
					p.expectPlain(what, p.g, t+"="+pl)
				} else {
					p.expectPlain(what, p.g)
				}
			}
		}
		spread("after the subscription")
		// publish
		p.marks()
		p.g.publish(11, text, "own", 0)
		w.Sleep(settle)
		p.verdict("publish", 11, b2i(k.write(topic)))
		if k.write(topic) {
			p.expectPlain("publish", p.obs, topic+"=own")
			stored = append(stored, topic+"=own")
		} else {
			p.expectPlain("publish", p.obs)
		}
		// relay
		if topic == longA || topic == longB {
			p.marks()
			p.g.relay(12, text, "1h")
			p.obs.relay(12, topic, "1h")
			w.Sleep(5 * time.Second)
			p.verdict("relay", 12, b2i(k.read(topic)))
			if k.read(topic) {
				p.expectPlain("relay", p.g, stored...)
			} else {
				p.expectPlain("relay", p.g)
			}
			p.expectPlain("relay", p.obs, stored...)
		}
		// unsubscribe
		p.marks()
		p.g.unsubscribe(13, text)
		w.Sleep(settle)
		p.verdict("unsubscribe", 13, b2i(k.read(topic)))
		subscribed = false
		spread("after unsubscribing")
		// unsubscribe with this key from what was subscribed to with a good one
		good := p.s.key(0x70000, topic, security.AllowRead)
		p.marks()
		p.g.subscribe(14, withKey(good, topic), 0, 0)
		w.Sleep(settle)
		p.verdict("subscribe with a good key", 14, 0)
		p.marks()
		p.g.unsubscribe(15, text)
		w.Sleep(settle)
		p.verdict("unsubscribe", 15, b2i(k.read(topic)))
		subscribed = !k.read(topic)
		spread("after unsubscribing from a good subscription")
		w.Note(k.name, topic)
	})
}

// liveMixed: parts of one request stand on their own.
func liveMixed(x *vexp.X) {
	kinds := []string{"allowed", "refused", "garbage", "other permission"}
	a, b := x.Pick(4, "first part"), x.Pick(4, "second part")
	op := x.Pick(4, "request")
	x.Key("%s: %s part, then %s part", []string{"subscribe", "unsubscribe", "publish", "relay"}[op], kinds[a], kinds[b])
	x.World(opts, func(w *vrt.World) {
		p := newGuarded(x, w)
		access, other := security.AllowRead, security.AllowWrite
		if op == 2 {
			access, other = other, access
		}
		part := func(k int, topic string) string {
			switch k {
			case 0:
				return p.s.key(0x70000, topic, uint32(access)) + "/" + topic
			case 1:
				return p.s.key(0x70000, "groups.other.673651407196578720", uint32(access)) + "/" + topic
			case 2:
				return "AAAAAAAAAAAAAAAA/" + topic
			}
			return p.s.key(0x70000, topic, uint32(other)) + "/" + topic
		}
		settle := 300 * time.Millisecond
		t1, t2 := part(a, longA), part(b, longB)
		refused := b2i(a == 0) + b2i(b == 0)
		if op == 1 {
			for i, t := range []string{longA, longB} {
				p.g.subscribe(uint16(40+i), p.s.key(0x70000, t, security.AllowRead)+"/"+t, 0, 0)
			}
			w.Sleep(settle)
		}
		p.obs.subscribe(1, longA, 0, 0)
		p.obs.subscribe(2, longB, 0, 0)
		p.pub.publish(1, longA, "before", 0)
		w.Sleep(settle)
		p.marks()
		subs := []*utp.Subscription{{Topic: t1}, {Topic: t2}}
		switch op {
		case 0:
			p.g.send(&utp.Subscribe{MessageID: 50, Subscriptions: subs})
		case 1:
			p.g.send(&utp.Unsubscribe{MessageID: 50, Subscriptions: subs})
		case 2:
			p.g.send(&utp.Publish{MessageID: 50, Messages: []*utp.PublishMessage{{Topic: t1, Payload: []byte("1")}, {Topic: t2, Payload: []byte("2")}}})
		case 3:
			p.g.send(&utp.Relay{MessageID: 50, RelayRequests: []*utp.RelayRequest{{Topic: t1, Last: "1h"}, {Topic: t2, Last: "1h"}}})
		}
		w.Sleep(5 * time.Second)
		if op == 2 {
			// what follows a refused message of a publication may be dropped with it
			got := plain(p.obs)
			for _, s := range got {
				if !(s == longA+"=1" && a == 0 || s == longB+"=2" && b == 0) {
					w.Fail("effect", "published: %q", got)
				}
			}
			if a == 0 && (len(got) < 1 || b == 0 && len(got) < 2) {
				w.Fail("effect", "published: %q", got)
			}
			if n := p.errors(50); n < 1 && refused > 0 || n > refused {
				w.Fail("verdict", "%d error replies for %d refused parts", n, refused)
			}
			return
		}
		p.verdict(x.GetKey(), 50, refused)
		if op == 3 {
			if a == 0 {
				p.expectPlain("relay", p.g, longA+"=before")
			} else {
				p.expectPlain("relay", p.g)
			}
			return
		}
		p.marks()
		p.pub.publish(2, longA, "later", 0)
		p.pub.publish(3, longB, "later", 0)
		w.Sleep(settle)
		var want []string
		if (a == 0) == (op == 0) {
			want = append(want, longA+"=later")
		}
		if (b == 0) == (op == 0) {
			want = append(want, longB+"=later")
		}
		p.expectPlain("later", p.g, want...)
	})
}

// liveKeygen: keys made by the server on request grant what was asked for.
func liveKeygen(x *vexp.X) {
	types := []string{"r", "w", "rw", "", "x"}
	ty := types[x.Pick(len(types), "type")]
	topic := []string{longA, longB, longW}[x.Pick(3, "topic")]
	two := x.Pick(2, "two keys at once") == 1
	x.Key("key of type %q for %s", ty, topic)
	x.World(opts, func(w *vrt.World) {
		p := newGuarded(x, w)
		settle := 300 * time.Millisecond
		reqs := []map[string]string{{"topic": topic, "type": ty}}
		if two {
			reqs = append([]map[string]string{{"topic": "other.topic", "type": "rw"}}, reqs...)
		}
		b, _ := json.Marshal(reqs)
		p.marks()
		p.g.publish(30, "unitdb/keygen", string(b), 0)
		w.Sleep(settle)
		got := p.g.published()
		if len(got) != 1 || !strings.HasPrefix(got[0], "unitdb/keygen=") {
			w.Fail("keygen", "the answer is %q", got)
		}
		var resp []struct {
			Status     int
			Key, Topic string
		}
		if err := json.Unmarshal([]byte(strings.TrimPrefix(got[0], "unitdb/keygen=")), &resp); err != nil || len(resp) != len(reqs) {
			w.Fail("keygen", "%q: %v", got[0], err)
		}
		r := resp[len(resp)-1]
		if r.Status != 200 || r.Topic != topic {
			w.Fail("keygen", "%q", got[0])
		}
		read, write := strings.Contains(ty, "r"), strings.Contains(ty, "w") && topic != longW
		p.obs.subscribe(1, longA, 0, 0)
		p.obs.subscribe(2, longB, 0, 0)
		w.Sleep(settle)
		for _, t := range []string{longA, longB, longW} {
			ok := t == topic
			p.marks()
			p.g.subscribe(31, r.Key+"/"+t, 0, 0)
			w.Sleep(settle)
			p.verdict("subscribe", 31, b2i(ok && read))
			p.marks()
			p.g.publish(32, r.Key+"/"+t, "own", 0)
			w.Sleep(settle)
			p.verdict("publish", 32, b2i(ok && write))
			if ok && write {
				p.expectPlain("publish", p.obs, t+"=own")
			} else {
				p.expectPlain("publish", p.obs)
			}
		}
		w.Note(ty, topic)
	})
}
