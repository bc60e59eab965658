package main

import (
	"time"

	"github.com/unit-io/unitdb"
	"vrt"
	"vrt/vexp"
)

func (s *sess) putTTL(topic string, ttl time.Duration, how int) {
	m := s.add(topic, 0)
	m.ttl = ttl
	m.id = s.db.NewID()
	e := unitdb.NewEntry([]byte(topic), []byte(m.payload)).WithID(append([]byte(nil), m.id...))
	sec := int(ttl / time.Second)
	switch how {
	case 0:
		e = e.WithTTL(ttl.String())
	case 1:
		e = e.WithTTL(itoa(sec))
	case 2:
		e.Topic = []byte(topic + "?ttl=" + ttl.String())
	case 3:
		e.Topic = []byte(topic + "?ttl=" + itoa(sec))
	}
	s.err("put", s.db.PutEntry(e), "PutEntry")
	s.ack(m)
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + itoa(n%10)
}

func init() {
	allOps["ttl5s"] = func(s *sess) { s.putTTL(s.topics[0], 5*time.Second, s.n%4) }
	allOps["ttl90s"] = func(s *sess) { s.putTTL(s.topics[0], 90*time.Second, (s.n+1)%4) }
	allOps["ttl5sB"] = func(s *sess) { s.putTTL(s.topics[1], 5*time.Second, (s.n+2)%4) }
	allOps["wait7s"] = func(s *sess) { s.tick(7 * time.Second) }
	allOps["wait2m"] = func(s *sess) { s.tick(2 * time.Minute) }
	allOps["wait61s"] = func(s *sess) { s.tick(61 * time.Second) }
	allOps["batchTTL"] = func(s *sess) {
		var ms []*msg
		err := s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
			for i := 0; i < 3; i++ {
				m := s.add(s.topics[0], 0)
				if i != 1 {
					m.ttl = 5 * time.Second
				}
				ms = append(ms, m)
				if err := b.PutEntry(s.entry(m)); err != nil {
					return err
				}
			}
			return nil
		})
		s.err("batch", err, "Batch")
		for _, m := range ms {
			s.ack(m)
		}
	}
	allOps["crash"] = func(s *sess) {}
}

func ttlBody(ops []string, quick, deep int, expirer bool, limits []int, topics ...string) func(x *vexp.X) {
	return func(x *vexp.X) {
		each := flag(x, "query-each")
		bg := flag(x, "bg")
		h := pickOps(x, ops, depth(x, quick, deep))
		end := x.Pick(3, "end")
		x.AddKey("end%d", end)
		s := newSess(x, topics...)
		if !bg {
			s.opts = append(s.opts, noBackground())
		}
		if expirer {
			s.opts = append(s.opts, unitdb.WithBackgroundKeyExpiry())
		}
		s.in(vrt.Options{}, func() {
			s.open()
			for i, o := range h {
				s.do(o)
				if each && i < len(h)-1 {
					s.checkAll(limits...)
				}
			}
			s.checkAll(limits...)
			switch end {
			case 0:
				s.reopen()
				s.checkAll(limits...)
				s.tick(7 * time.Second)
				s.checkAll(limits...)
				s.tick(2 * time.Minute)
				s.checkAll(limits...)
				s.tick(2 * time.Minute)
				s.checkAll(limits...)
			case 1:
				s.tick(logTime)
				return // dies
			case 2:
				s.tick(7 * time.Second)
				s.checkAll(limits...)
				s.synced()
				s.checkAll(limits...)
				s.tick(125 * time.Second)
				s.checkAll(limits...)
				s.reopen()
				s.checkAll(limits...)
			}
			s.db.Close()
		})
		if end == 1 {
			s.clock += 3 * time.Second
			s.in(vrt.Options{}, func() {
				s.open()
				s.checkAll(limits...)
				s.tick(7 * time.Second)
				s.checkAll(limits...)
				s.synced()
				s.tick(125 * time.Second)
				s.checkAll(limits...)
				s.reopen()
				s.checkAll(limits...)
				s.db.Close()
			})
		}
		x.Distinct(x.GetKey())
	}
}

// lastBody: time range queries.
func lastBody(ops []string, quick, deep int, topics ...string) func(x *vexp.X) {
	return func(x *vexp.X) {
		bg := flag(x, "bg")
		h := pickOps(x, ops, depth(x, quick, deep))
		s := newSess(x, topics...)
		if !bg {
			s.opts = append(s.opts, noBackground())
		}
		check := func() {
			for _, t := range topics {
				for _, d := range []time.Duration{4 * time.Second, 30 * time.Second, 10 * time.Minute} {
					for _, how := range []int{0, 1} {
						for _, l := range []int{0, 1, 4} {
							var q *unitdb.Query
							if how == 0 {
								q = unitdb.NewQuery([]byte(t)).WithLast(d.String())
							} else {
								q = unitdb.NewQuery([]byte(t + "?last=" + d.String()))
							}
							got, err := s.query(q, l)
							if err != nil {
								s.w.Fail("get-error", "Get(%s, last %v): %v", t, d, err)
							}
							now := s.w.PeekNow()
							boundary := false
							want := s.want(func(m *msg) bool {
								age := now.Sub(m.storedAt)
								if m.topic == t && age > d-time.Second-time.Millisecond && age < d+time.Second+time.Millisecond {
									boundary = true
								}
								return m.topic == t && age <= d
							}, l)
							if !boundary && !equal(got, want) {
								s.w.Fail("last", "Get(%s, last %v, limit %d) = %s, want %s", t, d, l, short(got), short(want))
							}
						}
					}
				}
				// ?last=N asks for the N newest
				got, err := s.query(unitdb.NewQuery([]byte(t+"?last=2")), 0)
				want := s.want(func(m *msg) bool { return m.topic == t }, 2)
				if err != nil || !equal(got, want) {
					s.w.Fail("last-count", "Get(%s?last=2) = %s %v, want %s", t, short(got), err, short(want))
				}
			}
		}
		s.in(vrt.Options{}, func() {
			s.open()
			for _, o := range h {
				s.do(o)
				check()
			}
			s.synced()
			s.tick(2500 * time.Millisecond)
			check()
			s.reopen()
			s.tick(25 * time.Second)
			check()
			s.db.Close()
		})
		x.Distinct(x.GetKey())
	}
}

func c08() []vexp.Scenario {
	ops := []string{"ttl5s", "putA", "ttl90s", "wait7s", "ticksync", "batchTTL"}
	return []vexp.Scenario{
		{Name: "histories", Desc: "messages with and without time-to-live (all four notations, and in batches), waits, syncs; reopen, crash or more waits", Weight: 3,
			Body: ttlBody(ops, 3, 5, false, []int{0, 1, 2}, "a.b")},
		{Name: "expirer", Desc: "the same with the background expirer, two topics", Weight: 3,
			Body: ttlBody([]string{"ttl5s", "putA", "ttl5sB", "wait2m", "ticksync"}, 3, 5, true, []int{0, 1}, "a.b", "a.c")},
		{Name: "limit", Desc: "expired messages in front of live ones", Weight: 1,
			Body: ttlBody([]string{"put5A", "ttl5s", "wait7s", "ticksync"}, 3, 5, true, []int{1, 3, 6}, "a.b")},
		{Name: "last", Desc: "time-range queries over messages of different ages in memory and on disk", Weight: 2,
			Body: lastBody([]string{"putA", "putB", "put5A", "wait7s", "wait61s", "ticksync"}, 3, 5, "a.b", "a.c")},
	}
}
