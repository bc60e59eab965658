package main

import (
	"vrt"
	"vrt/vexp"
)

func deletes(ops []string, quick, deep int, opt vrt.Options, topics ...string) func(x *vexp.X) {
	return func(x *vexp.X) {
		n := depth(x, quick, deep)
		bg := flag(x, "bg")
		h := pickOps(x, ops, n)
		s := newSess(x, topics...)
		if !bg {
			s.opts = append(s.opts, noBackground())
		}
		s.in(opt, func() {
			s.open()
			for _, o := range h {
				s.do(o)
				s.checkAll(0, 1)
			}
			s.synced()
			s.checkAll(0, 2)
			s.reopen()
			s.checkAll(0, 1)
			for _, m := range s.withID(false) {
				s.del(m)
			}
			s.checkAll(0)
			s.put(topics[0])
			s.synced()
			s.checkAll(0, 2)
			s.db.Close()
		})
		x.Distinct(x.GetKey())
	}
}

// crashEnd: after the history everything is logged, then the process dies; also without a final flush.
func crashEnd(ops []string, quick, deep int, opt vrt.Options, topics ...string) func(x *vexp.X) {
	return func(x *vexp.X) {
		h := pickOps(x, ops, depth(x, quick, deep))
		s := newSess(x, topics...)
		s.opts = append(s.opts, noBackground())
		s.in(opt, func() {
			s.open()
			for _, o := range h {
				if o == "crash" {
					break
				}
				s.do(o)
			}
			s.tick(logTime)
		})
		for i, o := range h {
			if o != "crash" {
				continue
			}
			rest := h[i+1:]
			s.atCrash(len(s.fs.Ops))
			s.in(opt, func() {
				s.open()
				s.settle()
				for _, o := range rest {
					if o == "crash" {
						break
					}
					s.do(o)
				}
				s.tick(logTime)
			})
		}
		s.atCrash(len(s.fs.Ops))
		s.in(opt, func() {
			s.open()
			s.settle()
			s.checkAll(0, 1)
			s.checkCount()
			s.put(topics[0])
			s.reopen()
			s.checkAll(0, 1)
			s.checkCount()
			s.db.Close()
		})
		x.Distinct(x.GetKey())
	}
}

func c04() []vexp.Scenario {
	ops := []string{"put2IDA", "batchIDA", "delOld", "delNew", "ticksync", "reopen"}
	return []vexp.Scenario{
		{Name: "histories", Desc: "all histories of puts, deletes (in memory, logged, synced, repeated, unknown), syncs, reopens", Weight: 3,
			Body: deletes([]string{"put2IDA", "putIDB", "delOld", "delNew", "ticksync", "tick", "reopen", "delUnknown"}, 4, 6, vrt.Options{}, "a.b", "a.c")},
		{Name: "batches", Desc: "deletes in batches", Weight: 2,
			Body: deletes([]string{"put2IDA", "batchIDA", "delNew", "batchDel", "batchOnlyDel", "delAgain", "ticksync", "reopen"}, 4, 6, vrt.Options{MapDesc: true}, "a.b", "a.c")},
		{Name: "blocks", Desc: "deletes crossing window and index blocks", Weight: 1,
			Body: deletes([]string{"put2IDA", "delOld", "delNew", "ticksync"}, 6, 9, vrt.Options{}, "a.b")},
		{Name: "second-boundary", Desc: "puts, deletes and batches just before and after the full second, where the time block changes", Weight: 2,
			Body: deletes([]string{"putIDA", "batchIDA", "delOld", "delNew", "before", "after", "sync"}, 4, 6, vrt.Options{}, "a.b", "a.c")},
		{Name: "crash", Desc: "histories with crashes after the delete is logged", Weight: 2,
			Body: crashEnd(append(append([]string{}, ops...), "crash"), 4, 6, vrt.Options{}, "a.b", "a.c")},
		{Name: "crash-points", Desc: "a crash at every mutation of the last operation", Weight: 2,
			Body: crashHistory([]string{"put2IDA", "batchIDA", "delOld", "ticksync", "batchDel", "tick"}, 4, 5, true, false, nil, vrt.Options{}, nil, "a.b", "a.c")},
	}
}
