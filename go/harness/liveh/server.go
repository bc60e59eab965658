package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/unit-io/unitdb/server/internal"
	"github.com/unit-io/unitdb/server/internal/config"
	"github.com/unit-io/unitdb/server/internal/message/security"
	lp "github.com/unit-io/unitdb/server/internal/net"
	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
	"github.com/unit-io/unitdb/server/internal/pkg/uid"
	"github.com/unit-io/unitdb/server/utp"
	"vrt"
	"vrt/vexp"
	"vrt/vnet"
)

const encKey = "4BWm1vZletvrCDGWsF6mex8oBSd59m6I"

// Server is a running server in a world.
type Server struct {
	x   *vexp.X
	w   *vrt.World
	mac *crypto.MAC
	svc interface{ Close() }
}

// boot starts the server and returns when it listens.
func boot(x *vexp.X, w *vrt.World) *Server {
	s := &Server{x: x, w: w}
	var err error
	if s.mac, err = crypto.New([]byte(encKey)); err != nil {
		x.Fail("mac", "%v", err)
	}
	cfg := &config.Config{
		Listen: "srv:1", DBPath: "/srv",
		EncryptionConfig: json.RawMessage(`{"key":"` + encKey + `"}`),
		StoreConfig:      json.RawMessage(`{"reset":false,"adapters":{"unitdb":{"mem_size":1073741824}}}`),
	}
	svc, err := internal.NewService(cfg)
	if err != nil {
		x.Fail("service", "the server does not start: %v", err)
	}
	internal.Globals.Service = svc
	s.svc = svc
	w.GoLabel("listen", "srv", func() { svc.Listen() })
	w.Sleep(10 * time.Millisecond)
	return s
}

// newID makes the identifier of a client of a contract.
func (s *Server) newID(secondaryOf uid.ID, contract uint32) uid.ID {
	id := uid.ID(make([]byte, 12))
	id.SetEpoch(uint32(s.w.PeekNow().Unix()))
	id.SetContract(contract)
	return id
}

// Client of the server.
type Client struct {
	s    *Server
	name string
	conn *vnet.End
	got  []lp.MessagePack
	next int // messages before this one have been looked at
	eof  bool
	// paused: it does not read any more
	paused bool
	// auto answers every notification: asks for the message and confirms it
	auto   bool
	asked  map[uint16]bool
	topics []string // what it is subscribed to, for the reference model
}

// dial opens a connection and starts collecting what arrives.
func (s *Server) dial(name string) *Client {
	c := &Client{s: s, name: name, asked: map[uint16]bool{}}
	nc, err := vnet.Dial("tcp", "srv:1")
	if err != nil {
		s.w.Fail("dial", "%s: the server does not accept connections: %v", name, err)
	}
	c.conn = nc.(*vnet.End)
	s.w.GoLabel("client "+name, "client", func() {
		r := bufio.NewReader(c.conn)
		for {
			s.w.Block("paused", func() bool { return !c.paused })
			m, err := lp.Read(r)
			if err != nil {
				c.eof = true
				return
			}
			c.got = append(c.got, m)
			if !c.auto {
				continue
			}
			switch m := m.(type) {
			case *utp.ControlMessage:
				if m.FlowControl == utp.NOTIFY {
					c.asked[m.MessageID] = true
					c.control(utp.RECEIVE, m.MessageID)
				}
			case *utp.Publish:
				if c.asked[m.MessageID] {
					delete(c.asked, m.MessageID)
					c.control(utp.RECEIPT, m.MessageID)
				}
			}
		}
	})
	return c
}

// raw sends bytes.
func (c *Client) raw(b []byte) bool {
	_, err := c.conn.Write(b)
	return err == nil
}

// send sends a message.
func (c *Client) send(m interface {
	ToBinary() (bytes.Buffer, error)
}) bool {
	b, err := m.ToBinary()
	if err != nil {
		c.s.w.Fail("encode", "%s: %v", c.name, err)
	}
	return c.raw(b.Bytes())
}

// control sends a control message about a publication.
func (c *Client) control(f utp.FlowControl, id uint16) {
	c.send(&utp.ControlMessage{MessageType: utp.PUBLISH, FlowControl: f, MessageID: id})
}

// count of the messages since the mark for which f holds.
func (c *Client) count(f func(m lp.MessagePack) bool) int {
	n := 0
	for _, m := range c.got[c.next:] {
		if f(m) {
			n++
		}
	}
	return n
}

// wait for messages to arrive: until f holds of the messages not looked at yet, or for d.
func (c *Client) wait(d time.Duration, f func(m lp.MessagePack) bool) lp.MessagePack {
	w := c.s.w
	deadline := w.PeekNow().Add(d)
	i := c.next
	var hit lp.MessagePack
	w.BlockUntil("wait", deadline, func() bool {
		for hit == nil && i < len(c.got) {
			m := c.got[i]
			i++
			if f(m) {
				hit = m
			}
		}
		return hit != nil || c.eof
	})
	return hit
}

func isAck(t utp.MessageType, id uint16) func(lp.MessagePack) bool {
	return func(m lp.MessagePack) bool {
		k, ok := m.(*utp.ControlMessage)
		return ok && k.MessageType == t && k.FlowControl == utp.ACKNOWLEDGE && k.MessageID == id
	}
}

// connect sends CONNECT and waits for the answer.
func (c *Client) connect(con *utp.Connect) *utp.ConnectAcknowledge {
	if con.BatchDuration == 0 {
		con.BatchDuration, con.BatchByteThreshold, con.BatchCountThreshold = 100, 1<<16, 100
	}
	con.Version = 1
	c.send(con)
	m := c.wait(20*time.Second, isAck(utp.CONNECT, 0))
	if m == nil {
		return nil
	}
	a := &utp.ConnectAcknowledge{}
	a.FromBinary(utp.FixedHeader{}, m.(*utp.ControlMessage).Message)
	return a
}

// join connects and insists on being accepted.
func (s *Server) join(name, id string, insecure, clean bool, sessKey int32) *Client {
	c := s.dial(name)
	a := c.connect(&utp.Connect{ClientID: id, InsecureFlag: insecure, CleanSessFlag: clean, SessKey: sessKey})
	if a == nil || a.ReturnCode != utp.Accepted {
		s.w.Fail("connect", "%s: the connection is not accepted: %v", name, a)
	}
	c.mark()
	return c
}

func (c *Client) mark() { c.next = len(c.got) }

// show describes a message.
func show(m lp.MessagePack) string {
	switch m := m.(type) {
	case *utp.ControlMessage:
		return fmt.Sprintf("control(type %d flow %d id %d)", m.MessageType, m.FlowControl, m.MessageID)
	case *utp.Publish:
		var p []string
		for _, q := range m.Messages {
			p = append(p, fmt.Sprintf("%s=%.60q", q.Topic, q.Payload))
		}
		return fmt.Sprintf("publish(id %d mode %d %s)", m.MessageID, m.DeliveryMode, strings.Join(p, ", "))
	}
	return fmt.Sprintf("%T", m)
}

func showAll(ms []lp.MessagePack) string {
	var p []string
	for _, m := range ms {
		p = append(p, show(m))
	}
	return strings.Join(p, "; ")
}

// published lists topic=payload of everything published to the client since the mark, in order of arrival.
func (c *Client) published() []string {
	var out []string
	for _, m := range c.got[c.next:] {
		if p, ok := m.(*utp.Publish); ok {
			for _, q := range p.Messages {
				out = append(out, q.Topic+"="+string(q.Payload))
			}
		}
	}
	return out
}

func sorted(in []string) []string {
	out := append([]string(nil), in...)
	sort.Strings(out)
	return out
}

// key makes a security key.
func (s *Server) key(contract uint32, topic string, access uint32) string {
	k, err := security.GenerateKey(contract, topic, access)
	if err != nil {
		s.w.Fail("key", "%v", err)
	}
	return k
}

func (c *Client) subscribe(id uint16, topic string, mode uint8, delay int32) {
	c.send(&utp.Subscribe{MessageID: id, Subscriptions: []*utp.Subscription{{Topic: topic, DeliveryMode: mode, Delay: delay}}})
}

func (c *Client) unsubscribe(id uint16, topic string) {
	c.send(&utp.Unsubscribe{MessageID: id, Subscriptions: []*utp.Subscription{{Topic: topic}}})
}

func (c *Client) publish(id uint16, topic, payload string, mode uint8) {
	c.send(&utp.Publish{MessageID: id, DeliveryMode: mode, Messages: []*utp.PublishMessage{{Topic: topic, Payload: []byte(payload)}}})
}

func (c *Client) relay(id uint16, topic, last string) {
	c.send(&utp.Relay{MessageID: id, RelayRequests: []*utp.RelayRequest{{Topic: topic, Last: last}}})
}

// matches: '*' stands for one level, a trailing '...' for one or more levels.
func matches(pattern, topic string) bool {
	multi := false
	if strings.HasSuffix(pattern, "...") {
		multi = true
		pattern = strings.TrimRight(pattern, ".")
	}
	var ps []string
	if pattern != "" {
		ps = strings.Split(pattern, ".")
	}
	ts := strings.Split(topic, ".")
	if multi && len(ts) <= len(ps) || !multi && len(ts) != len(ps) {
		return false
	}
	for i, p := range ps {
		if p != "*" && p != ts[i] {
			return false
		}
	}
	return true
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
