package main

import (
	"time"

	"github.com/unit-io/unitdb"
	"vrt"
	"vrt/vexp"
)

// countBody compares the count after every point at which everything is synced.
func countBody(ops []string, quick, deep int, opt vrt.Options, expirer bool, topics ...string) func(x *vexp.X) {
	return func(x *vexp.X) {
		h := pickOps(x, ops, depth(x, quick, deep))
		bg := flag(x, "bg")
		s := newSess(x, topics...)
		if !bg {
			s.opts = append(s.opts, noBackground())
		}
		if expirer {
			s.opts = append(s.opts, unitdb.WithBackgroundKeyExpiry())
		}
		count := func() {
			if expirer {
				// messages past their time may or may not be reclaimed yet
				lo, hi := uint64(0), uint64(0)
				for _, m := range s.model {
					if m.deleted() {
						continue
					}
					hi++
					if s.expired(m) < 0 {
						lo++
					}
				}
				if c := s.db.Count(); c < lo || c > hi {
					s.w.Fail("count", "Count() = %d, want %d (or up to %d with expired ones not reclaimed)", c, lo, hi)
				}
				return
			}
			s.checkCount()
		}
		crashed := false
		i := 0
		for i < len(h) || crashed {
			if crashed {
				s.atCrash(len(s.fs.Ops))
			}
			again := crashed
			crashed = false
			s.in(opt, func() {
				s.open()
				if again {
					s.settle()
					count() // recovery has synced everything
				}
				for ; i < len(h); i++ {
					if h[i] == "crash" {
						i++
						crashed = true
						return
					}
					s.do(h[i])
					if c := s.db.Count(); c > uint64(s.n) {
						s.w.Fail("underflow", "Count() = %d though only %d messages were ever stored", c, s.n)
					}
				}
				s.synced()
				count()
				s.reopen()
				count()
				s.put(topics[0])
				s.synced()
				count()
				if expirer {
					s.tick(5 * time.Minute)
					count()
					s.synced()
					count()
				}
				if l := s.withID(true); len(l) > 0 {
					s.del(l[0])
					count()
					s.del(l[0])
					count()
				}
				s.db.Close()
			})
		}
		x.Distinct(x.GetKey())
	}
}

func countCrash(ops []string, quick, deep int, topics ...string) func(x *vexp.X) {
	return func(x *vexp.X) {
		h := pickOps(x, ops, depth(x, quick, deep))
		s := newSess(x, topics...)
		s.opts = append(s.opts, noBackground())
		from := 0
		s.in(vrt.Options{}, func() {
			s.open()
			for i, o := range h {
				if i == len(h)-1 {
					from = len(s.fs.Ops)
				}
				s.do(o)
			}
		})
		key := x.GetKey()
		s.crashes(from, true, func(c *sess, k, torn int) {
			x.Key("%s; %s", key, s.at(k, torn))
			x.Count("crash_points", 1)
			c.in(vrt.Options{}, func() {
				c.open()
				c.settle()
				c.checkCount()
				c.do("put2IDA")
				c.synced()
				c.checkCount()
				c.do("delNew")
				c.checkCount()
				c.reopen()
				c.checkCount()
				c.db.Close()
			})
		})
		x.Distinct(key)
	}
}

func c14() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "histories", Desc: "puts, batches, single, repeated, unknown and batched deletes, syncs, reopens and crashes", Weight: 4,
			Body: countBody([]string{"put2IDA", "batchIDA", "delOld", "delAgain", "batchDel", "ticksync", "reopen", "crash"}, 4, 6, vrt.Options{}, false, "a.b", "a.c")},
		{Name: "deletes", Desc: "deletes of messages in memory, logged and on disk", Weight: 2,
			Body: countBody([]string{"put2IDA", "delNew", "delUnknown", "batchOnlyDel", "tick", "ticksync"}, 5, 7, vrt.Options{MapDesc: true}, false, "a.b", "a.c")},
		{Name: "expirer", Desc: "messages reclaimed by the expirer", Weight: 3,
			Body: countBody([]string{"ttl5s", "putIDA", "wait2m", "ticksync", "delOld", "crash"}, 3, 4, vrt.Options{}, true, "a.b", "a.c")},
		{Name: "crash-points", Desc: "a crash at every mutation of the last operation", Weight: 3,
			Body: countCrash([]string{"put2IDA", "delOld", "ticksync", "batchDel", "reopen"}, 5, 6, "a.b", "a.c")},
	}
}
