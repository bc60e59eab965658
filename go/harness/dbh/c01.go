package main

import (
	"time"

	"vrt"
	"vrt/vexp"
)

// history explores every history of the given length; the model is compared after the last operation, or after each.
func history(ops []string, quick, deep int, limits []int, opt vrt.Options, topics ...string) func(x *vexp.X) {
	return func(x *vexp.X) {
		n := depth(x, quick, deep)
		each := flag(x, "query-each")
		bg := flag(x, "bg")
		h := pickOps(x, ops, n)
		s := newSess(x, topics...)
		if !bg {
			s.opts = append(s.opts, noBackground())
		}
		s.in(opt, func() {
			s.open()
			for i, o := range h {
				s.do(o)
				if each && i < len(h)-1 {
					s.checkAll(limits...)
				}
			}
			s.checkAll(limits...)
			x.Distinct(x.GetKey())
			s.db.Close()
		})
	}
}

// bulk explores histories of bulk operations with limits around the block sizes.
func bulk(ops []string, quick, deep int, limits []int, topics ...string) func(x *vexp.X) {
	return func(x *vexp.X) {
		h := pickOps(x, ops, depth(x, quick, deep))
		s := newSess(x, topics...)
		s.opts = append(s.opts, noBackground())
		s.in(vrt.Options{}, func() {
			s.open()
			for _, o := range h {
				s.do(o)
			}
			s.checkAll(limits...)
			x.Distinct(x.GetKey())
			s.reopen()
			s.checkAll(0, 5)
			s.db.Close()
		})
	}
}

// patternHistory: several stored patterns match a query, with deletes and small limits.
func patternHistory(quick, deep int) func(x *vexp.X) {
	return func(x *vexp.X) {
		h := pickOps(x, []string{"put3A", "put3W", "putM", "del3New", "ticksync"}, depth(x, quick, deep))
		s := newSess(x, "a.b", "a.*", "a...")
		s.opts = append(s.opts, noBackground())
		check := func(when string) {
			for _, t := range []string{"a.b", "a.c", "a.b.c"} {
				for _, l := range []int{0, 1, 2, 4} {
					got := s.get(t, l)
					want := s.want(func(m *msg) bool { return matches(m.topic, t) }, l)
					if !equal(got, want) {
						s.w.Fail("query", "%s: Get(%s, limit %d) = %s, want %s", when, t, l, short(got), short(want))
					}
				}
			}
		}
		s.in(vrt.Options{}, func() {
			s.open()
			for _, o := range h {
				switch o {
				case "put3A", "put3W":
					for i := 0; i < 3; i++ {
						if o == "put3A" {
							s.putID(s.topics[0])
						} else {
							s.putID(s.topics[1])
						}
					}
				case "putM":
					s.putID(s.topics[2])
				case "del3New":
					l := s.withID(true)
					for i := 0; i < 3 && i < len(l); i++ {
						s.del(l[len(l)-1-i])
					}
				default:
					s.do(o)
				}
			}
			check("at the end")
			s.synced()
			check("synced")
			s.reopen()
			check("reopened")
			s.db.Close()
		})
		x.Distinct(x.GetKey())
	}
}

func c01() []vexp.Scenario {
	base := []string{"putA", "ticksync", "tick", "putB", "batchAAB", "put5A"}
	return []vexp.Scenario{
		{Name: "histories", Desc: "all sequences of put/batch/tick/sync over two topics; queries with limits 1, 2, 4 and default", Weight: 3,
			Body: history(base, 5, 7, []int{0, 1, 2, 4}, vrt.Options{}, "a.b", "a.c")},
		{Name: "nested-topics", Desc: "the same over a topic, its parent and its child", Weight: 2,
			Body: history([]string{"putA", "putB", "putC", "ticksync", "batchABAB"}, 5, 7, []int{0, 1, 3}, vrt.Options{MapDesc: true}, "a.b", "a", "a.b.c")},
		{Name: "long", Desc: "longer sequences of put/sync over one topic, crossing several window and index blocks", Weight: 2,
			Body: history([]string{"put5A", "ticksync", "tick"}, 7, 10, []int{0, 1, 5, 11}, vrt.Options{}, "a.b")},
		{Name: "patterns", Desc: "several stored patterns match one query, with deletes and small limits, crossing window blocks", Weight: 2,
			Body: patternHistory(6, 7)},
		{Name: "skips", Desc: "identifiers reserved and not used leave gaps of whole index blocks between messages written in one sync", Weight: 1,
			Body: bulk([]string{"put5A", "skip9", "ticksync", "putB", "batchAAB"}, 5, 7, []int{0, 1, 5, 11}, "a.b", "a.c")},
		{Name: "second-boundary", Desc: "puts, batches and syncs just before and after the full second, where the time block changes", Weight: 2,
			Body: history([]string{"putA", "batchA", "before", "after", "wait", "sync"}, 5, 7, []int{0, 1, 2}, vrt.Options{}, "a.b")},
		{Name: "late-ids", Desc: "messages put long after their identifiers were obtained", Weight: 2,
			Body: history([]string{"reserve", "putHeld", "putA", "ticksync", "put5A"}, 5, 7, []int{0, 1, 2, 5}, vrt.Options{}, "a.b")},
		{Name: "round-robin", Desc: "base histories under a round-robin schedule", Weight: 1,
			Body: history([]string{"putA", "ticksync", "wait", "putB", "batchAAB"}, 5, 7, []int{0, 2}, vrt.Options{SchedPolicy: 1, NowStep: 50 * time.Microsecond}, "a.b", "a.c")},
		{Name: "real-blocks", Desc: "shipped block sizes: bulk puts crossing blocks, limits around the boundaries", Weight: 1,
			Body: bulk([]string{"put340A", "put260B", "ticksync", "putA"}, 4, 5, []int{0, 1, 334, 336, 341}, "a.b", "a.c")},
	}
}
