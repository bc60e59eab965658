package main

import (
	"strings"
	"time"

	"github.com/unit-io/unitdb/server/internal"
	"vrt"
	"vrt/vexp"
)

func c35() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "server", Desc: "connections, subscriptions and messages counted by the server after every request of every history", Weight: 3, Body: serverStats},
		{Name: "server-threads", Desc: "the same after two clients did something at the same time", Quick: 1, Deep: 2, Weight: 3, Body: serverStatThreads},
	}
}

func (s *Server) varz() *internal.Varz {
	v, err := s.svc.(interface {
		Varz() (*internal.Varz, error)
	}).Varz()
	if err != nil {
		s.w.Fail("varz", "Varz: %v", err)
	}
	return v
}

// stats compares the statistics of the server with the parties.
func (p *parties) stats(msgs, bytes int64) {
	conns, subs := int64(0), int64(0)
	for n, c := range p.subs {
		if c == nil {
			continue
		}
		conns++
		for _, k := range p.count[n] {
			if k > 0 {
				subs++
			}
		}
	}
	v := p.s.varz()
	if v.Connections != conns || v.Subscriptions != subs || msgs >= 0 && (v.InMsgs != msgs || v.InBytes != bytes) {
		p.w.Fail("statistics", "the statistics say %d connections %d subscriptions %d messages %d bytes; it is %d %d %d %d", v.Connections, v.Subscriptions, v.InMsgs, v.InBytes, conns, subs, msgs, bytes)
	}
	if v.Now.Before(v.Start) || v.Now.After(p.w.PeekNow()) {
		p.w.Fail("statistics", "the statistics say started %v, now %v", v.Start, v.Now)
	}
}

func serverStats(x *vexp.X) {
	hs := append(hops(), hop{"knock", func(p *parties) bool {
		c := p.s.dial("knock")
		p.w.Sleep(time.Second)
		c.conn.Close()
		p.w.Sleep(settle)
		return true
	}}, hop{"garbage", func(p *parties) bool {
		c := p.s.dial("garbage")
		c.raw([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})
		c.conn.Close()
		p.w.Sleep(settle)
		return true
	}}, hop{"b+[2]", func(p *parties) bool {
		p.doSub("b", "p.q", 0, 0)
		p.doSub("b", "p.q", 0, 0)
		return true
	}})
	var ops []hop
	for i, n := 0, depth(x, 3, 4); i < n; i++ {
		h := hs[x.Pick(len(hs), "op")]
		ops = append(ops, h)
		x.AddKey("%s", h.name)
	}
	x.World(opts, func(w *vrt.World) {
		p := newParties(x, w, "pub", "a", "b", "foreign")
		var msgs, bytes int64
		p.stats(0, 0)
		for _, o := range ops {
			n := p.n
			if !o.f(p) {
				return
			}
			if p.n > n {
				msgs++
				bytes += int64(len("m1"))
			}
			p.stats(msgs, bytes)
		}
	})
	x.Distinct(x.GetKey())
}

func serverStatThreads(x *vexp.X) {
	progs := []string{"sub", "sub unsub", "sub leave", "leave", "pub", "sub pub", "leave join"}
	pairs := [][2]int{{2, 3}, {0, 0}, {1, 3}, {4, 2}, {6, 5}, {2, 2}, {1, 1}, {4, 4}, {6, 0}}
	pair := pairs[x.Pick(depth(x, 4, len(pairs)), "programs")]
	i, j := pair[0], pair[1]
	x.Key("%s | %s", progs[i], progs[j])
	o := opts
	o.Sched = true
	x.World(o, func(w *vrt.World) {
		var p *parties
		w.Quiet(func() { p = newParties(x, w, "pub", "a", "b") })
		var hs []*vrt.Handle
		var msgs int64
		for k, prog := range []string{progs[i], progs[j]} {
			n := []string{"a", "b"}[k]
			fs := strings.Fields(prog)
			hs = append(hs, w.Go(n, func() {
				for q, o := range fs {
					id := uint16(10*k + q + 1)
					switch o {
					case "sub":
						p.subs[n].subscribe(id, "x.y", 0, 0)
						p.count[n]["x.y"]++
					case "unsub":
						p.subs[n].unsubscribe(id, "x.y")
						p.count[n]["x.y"]--
					case "pub":
						p.subs[n].publish(id, "x.y", "m1", 0)
						msgs++
					case "leave":
						p.subs[n].conn.Close()
						p.subs[n] = nil
					case "join":
						p.join(n, int32(7+k))
					}
				}
			}))
		}
		w.Join(hs...)
		w.Sleep(20 * time.Millisecond)
		w.SetQuiet(true)
		w.Sleep(20 * time.Second)
		p.stats(msgs, 2*msgs)
	})
	x.Distinct(x.GetKey())
}
