package main

import (
	"encoding/json"
	"strings"
	"time"

	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
	"github.com/unit-io/unitdb/server/internal/pkg/uid"
	"github.com/unit-io/unitdb/server/utp"
	"vrt"
	"vrt/vexp"
)

func c32() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "live altered", Desc: "connecting with every alteration of an identifier, known to the server before or not", Weight: 3, Body: liveAltered},
		{Name: "live sequences", Desc: "sequences of connections with identifiers of several contracts, refused ones and those given in answer", Weight: 3, Body: liveSequences},
	}
}

// try connects with an identifier; given is the identifier the server sends to a client it refuses.
func (s *Server) try(name, id string, sess int32) (c *Client, accepted bool, given string) {
	c = s.dial(name)
	c.send(&utp.Connect{Version: 1, ClientID: id, InsecureFlag: true, CleanSessFlag: true, SessKey: sess, BatchDuration: 100, BatchByteThreshold: 1 << 16, BatchCountThreshold: 100})
	s.w.Sleep(300 * time.Millisecond)
	for _, m := range c.got {
		switch m := m.(type) {
		case *utp.ControlMessage:
			if m.MessageType == utp.CONNECT && m.FlowControl == utp.ACKNOWLEDGE {
				a := &utp.ConnectAcknowledge{}
				a.FromBinary(utp.FixedHeader{}, m.Message)
				accepted = a.ReturnCode == utp.Accepted
			}
		case *utp.Publish:
			for _, q := range m.Messages {
				if q.Topic == "unitdb/clientid/" {
					given = string(q.Payload)
				}
			}
		}
	}
	return c, accepted, given
}

// contractOf finds the contract a client acts in, among the listeners' ones.
type listeners struct {
	s  *Server
	cs map[uint32]*Client
	n  int32
}

func newListeners(s *Server, contracts ...uint32) *listeners {
	l := &listeners{s: s, cs: map[uint32]*Client{}}
	for i, c := range contracts {
		k := s.join("listener", s.newID(nil, c).Encode(s.mac), true, true, int32(i+1))
		k.subscribe(1, "who", 0, 0)
		l.cs[c] = k
	}
	s.w.Sleep(300 * time.Millisecond)
	return l
}

// hear lets a client publish and tells which listeners got it.
func (l *listeners) hear(c *Client) (out []uint32) {
	for _, k := range l.cs {
		k.mark()
	}
	c.publish(9, "who", "me", 0)
	l.s.w.Sleep(300 * time.Millisecond)
	for ct, k := range l.cs {
		switch n := len(k.published()); {
		case n > 1:
			l.s.w.Fail("delivery", "one message arrives %d times", n)
		case n == 1:
			out = append(out, ct)
		}
	}
	return out
}

func oneOf(out []uint32, c uint32) bool { return len(out) == 1 && out[0] == c }

const (
	ctA = 0x70000
	ctB = 0x90000
)

func liveAltered(x *vexp.X) {
	known := x.Pick(2, "known before") == 1
	kind := x.Pick(4, "kind")
	pos := x.Pick(52, "position")
	ch := byte(0)
	switch kind {
	case 0:
		ch = "A7Q0a-"[x.Pick(6, "character")]
	case 3:
		if pos > 0 {
			return
		}
	}
	x.Key("known before %v, %s at %d %q", known, []string{"altered", "cut", "lengthened", "other key"}[kind], pos, ch)
	x.World(opts, func(w *vrt.World) {
		s := boot(x, w)
		l := newListeners(s, ctA, ctB)
		id := s.newID(nil, ctA)
		id.SetEpoch(id.Epoch() - 500)
		text := id.Encode(s.mac)
		if known {
			c, ok, _ := s.try("first", text, 5)
			if !ok || !oneOf(l.hear(c), ctA) {
				w.Fail("valid", "the identifier is not accepted or has another contract")
			}
			c.conn.Close()
		}
		b := []byte(text)
		switch kind {
		case 0:
			if b[pos] == ch {
				return
			}
			b[pos] = ch
		case 1:
			b = b[:pos]
		case 2:
			b = append(append(append([]byte(nil), b[:pos]...), 'A'), b[pos:]...)
		case 3:
			m2, _ := crypto.New([]byte("5BWm1vZletvrCDGWsF6mex8oBSd59m6I"))
			b = []byte(id.Encode(m2))
		}
		same := false
		if got, err := uid.Decode(append([]byte(nil), b...), s.mac); err == nil && string(got) == string(id) {
			same = true
		}
		c, ok, given := s.try("client", string(b), 6)
		out := l.hear(c)
		w.Note(kind, same, ok, given != "")
		switch {
		case same && (!ok || !oneOf(out, ctA)):
			w.Fail("valid", "the same identity, written in another way, is not accepted")
		case same:
		case ok || len(out) > 0:
			w.Fail("accepted", "%q is accepted (%v), with the contract of %x", b, ok, out)
		case given == "":
			w.Fail("given", "%q is refused without an identifier in answer: %s", b, showAll(c.got))
		default:
			s.fresh(l, given)
		}
		x.Count("connections", 1)
	})
}

// fresh checks an identifier given by the server to a client it refused.
func (s *Server) fresh(l *listeners, given string) uint32 {
	got, err := uid.Decode([]byte(given), s.mac)
	if err != nil {
		s.w.Fail("given", "the identifier given, %q, is not valid: %v", given, err)
	}
	ct := got.Contract()
	if l.cs[ct] != nil {
		s.w.Fail("given", "the identifier given is one of contract %x, which is in use", ct)
	}
	c, ok, _ := s.try("with the id given", given, 7)
	if !ok {
		s.w.Fail("given", "the identifier given is not accepted")
	}
	if out := l.hear(c); len(out) > 0 {
		s.w.Fail("given", "a client with the identifier given is heard by clients of %x", out)
	}
	// two clients with it are in the same contract
	d, ok, _ := s.try("again with the id given", given, 8)
	d.subscribe(1, "who", 0, 0)
	s.w.Sleep(300 * time.Millisecond)
	d.mark()
	l.hear(c)
	if !ok || len(d.published()) != 1 {
		s.w.Fail("given", "two clients with the identifier given are not in the same contract")
	}
	c.conn.Close()
	d.conn.Close()
	s.w.Sleep(100 * time.Millisecond)
	return ct
}

// liveSequences: connections one after another.
func liveSequences(x *vexp.X) {
	n := depth(x, 4, 5)
	names := []string{"A", "B", "primary A", "garbage", "empty", "other key", "given", "ask"}
	var seq []int
	for i := 0; i < n; i++ {
		k := x.Pick(len(names), "client")
		seq = append(seq, k)
		x.AddKey("%s,", names[k])
	}
	x.World(opts, func(w *vrt.World) {
		s := boot(x, w)
		l := newListeners(s, ctA, ctB)
		mk := func(ct, perm uint32, m *crypto.MAC) string {
			id := s.newID(nil, ct)
			id.SetEpoch(id.Epoch() - 100*(perm+1))
			id.SetPermissions(perm)
			return id.Encode(m)
		}
		m2, _ := crypto.New([]byte("5BWm1vZletvrCDGWsF6mex8oBSd59m6I"))
		ids := []string{mk(ctA, 0, s.mac), mk(ctB, 0, s.mac), mk(ctA, uid.AllowMaster, s.mac), strings.Repeat("GARBAGE", 8), "", mk(ctA, 0, m2)}
		given, givenCt := "", uint32(0)
		var last *Client
		lastPrimary, lastCt := false, uint32(0)
		for i, k := range seq {
			switch {
			case k < 3:
				c, ok, _ := s.try(names[k], ids[k], int32(20+i))
				want := uint32(ctA)
				if k == 1 {
					want = ctB
				}
				if !ok || !oneOf(l.hear(c), want) {
					w.Fail("valid", "identifier %s is not accepted or gets another contract", names[k])
				}
				last, lastPrimary, lastCt = c, k == 2, want
			case k < 6:
				c, ok, g := s.try(names[k], ids[k], int32(20+i))
				if ok || len(l.hear(c)) > 0 || g == "" {
					w.Fail("accepted", "identifier %s is accepted, or refused without an answer: %s", names[k], showAll(c.got))
				}
				ct := s.fresh(l, g)
				if givenCt == ct {
					w.Fail("given", "two identifiers given have the same contract")
				}
				given, givenCt = g, ct
				x.Count("refused", 1)
			case k == 6:
				if given == "" {
					return
				}
				c, ok, _ := s.try("given", given, int32(20+i))
				if !ok || len(l.hear(c)) > 0 {
					w.Fail("given", "the identifier given is not accepted later")
				}
				last, lastPrimary, lastCt = c, true, givenCt
			case k == 7:
				if last == nil {
					return
				}
				last.mark()
				last.publish(3, "unitdb/clientid", "", 0)
				w.Sleep(300 * time.Millisecond)
				got := last.published()
				if len(got) != 1 || !strings.HasPrefix(got[0], "unitdb/clientid=") {
					w.Fail("secondary", "asked for an identifier, the answer is %q", got)
				}
				var r struct {
					Status int
					Key    string
				}
				if err := json.Unmarshal([]byte(strings.TrimPrefix(got[0], "unitdb/clientid=")), &r); err != nil {
					w.Fail("secondary", "%q: %v", got[0], err)
				}
				if (r.Status == 200) != lastPrimary {
					w.Fail("secondary", "a client with a primary identifier (%v) is answered %q", lastPrimary, got[0])
				}
				if r.Status != 200 {
					break
				}
				id, err := uid.Decode([]byte(r.Key), s.mac)
				if err != nil || id.Contract() != lastCt || id.IsPrimary() {
					w.Fail("secondary", "the secondary identifier is %x (%v), contract %x", []byte(id), err, lastCt)
				}
				for j := 0; j < 2; j++ {
					c, ok, _ := s.try("secondary", r.Key, int32(40+i+j))
					out := l.hear(c)
					if !ok || l.cs[lastCt] != nil && !oneOf(out, lastCt) || l.cs[lastCt] == nil && len(out) > 0 {
						w.Fail("secondary", "the secondary identifier is not accepted or gets contract %x", out)
					}
					c.conn.Close()
				}
				x.Count("secondary identifiers", 1)
			}
			w.Note(k)
		}
	})
}
