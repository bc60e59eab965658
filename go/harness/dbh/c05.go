package main

import (
	"errors"

	"github.com/unit-io/unitdb"
	"vrt"
	"vrt/vexp"
)

var errFn = errors.New("refused by the batch function")

// failingBatch runs a batch whose function fails after n operations.
func (s *sess) failingBatch(n int, write bool) {
	dels := s.withID(true)
	err := s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
		for i := 0; i < n; i++ {
			if err := b.Put([]byte(s.topics[i%len(s.topics)]), []byte("never visible")); err != nil {
				s.w.Fail("batch-put", "Put in batch: %v", err)
			}
		}
		if len(dels) > 0 {
			if err := b.Delete(append([]byte(nil), dels[0].id...), []byte(dels[0].topic)); err != nil {
				s.w.Fail("batch-delete", "Delete in batch: %v", err)
			}
		}
		if write {
			if err := b.Write(); err != nil {
				s.w.Fail("batch-write", "Write in batch: %v", err)
			}
		}
		return errFn
	})
	if err != errFn {
		s.w.Fail("batch-error", "Batch returned %v, want the error of its function", err)
	}
}

// writtenBatch runs a batch that writes in two parts.
func (s *sess) writtenBatch() {
	s.groups++
	var ms []*msg
	err := s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
		for i := 0; i < 4; i++ {
			m := s.add(s.topics[i%len(s.topics)], 0)
			m.group = s.groups
			ms = append(ms, m)
			if err := b.Put([]byte(m.topic), []byte(m.payload)); err != nil {
				return err
			}
			if i == 1 {
				if err := b.Write(); err != nil {
					return err
				}
			}
		}
		return nil
	})
	if s.err("batch", err, "Batch") {
		return
	}
	for _, m := range ms {
		s.ack(m)
		m.dur = len(s.fs.Ops)
	}
}

// refusedBatch runs a batch in which one put is invalid and its error is returned.
func (s *sess) refusedBatch() {
	err := s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
		if err := b.Put([]byte(s.topics[0]), []byte("never visible")); err != nil {
			s.w.Fail("batch-put", "Put in batch: %v", err)
		}
		return b.Put([]byte(s.topics[0]), nil)
	})
	if err == nil {
		s.w.Fail("batch-error", "Batch succeeded though a put of an empty payload was refused")
	}
}

func init() {
	allOps["batchFail0"] = func(s *sess) { s.failingBatch(0, false) }
	allOps["batchFail2"] = func(s *sess) { s.failingBatch(2, false) }
	allOps["batchFailW"] = func(s *sess) { s.failingBatch(3, true) }
	allOps["batchTwo"] = func(s *sess) { s.writtenBatch() }
	allOps["batchRefused"] = func(s *sess) { s.refusedBatch() }
}

// groupsWhole checks that each batch is there entirely or not at all.
func groupsWhole(c *sess, uncertain, unlogged map[*msg]bool) {
	type st struct{ in, out int }
	g := map[int]*st{}
	at := func(n int) *st {
		if g[n] == nil {
			g[n] = &st{}
		}
		return g[n]
	}
	for m := range uncertain {
		if m.group > 0 && m.delStart < 0 {
			if m.deleted() {
				at(m.group).out++
			} else {
				at(m.group).in++
			}
		}
		if m.delGroup > 0 && !unlogged[m] {
			if m.deleted() {
				at(m.delGroup).in++
			} else {
				at(m.delGroup).out++
			}
		}
	}
	for n, s := range g {
		if s.in > 0 && s.out > 0 {
			c.w.Fail("torn-batch", "after the crash batch %d is applied in part: %d operations are, %d are not", n, s.in, s.out)
		}
	}
}

func batchCrash(ops, last []string, quick, deep int, tears bool, opt vrt.Options, topics ...string) func(x *vexp.X) {
	return func(x *vexp.X) {
		h := pickOps(x, ops, x.Pick(depth(x, quick, deep)+1, "length"))
		h = append(h, last[x.Pick(len(last), "last")])
		x.AddKey("%s", h[len(h)-1])
		s := newSess(x, topics...)
		s.opts = append(s.opts, noBackground())
		from := 0
		s.in(opt, func() {
			s.open()
			for i, o := range h {
				if i == len(h)-1 {
					from = len(s.fs.Ops)
				}
				s.do(o)
			}
			s.tick(logTime)
			s.sync()
		})
		key := x.GetKey()
		s.crashes(from, tears, func(c *sess, k, torn int) {
			x.Key("%s; %s", key, s.at(k, torn))
			x.Count("crash_points", 1)
			un, unlogged := map[*msg]bool{}, map[*msg]bool{}
			for _, m := range c.model {
				if m.maybe {
					un[m] = true
					unlogged[m] = m.unlogged
				}
			}
			c.in(opt, func() {
				c.open()
				c.settle()
				groupsWhole(c, un, unlogged)
				c.checkAll(1, 3)
				c.do("batchAAB")
				c.reopen()
				c.checkAll(0, 2)
				c.db.Close()
			})
		})
		x.Distinct(key)
	}
}

func c05() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "histories", Desc: "batches that succeed, fail in their function (before and after writing), or are refused, among other operations", Weight: 2,
			Body: history([]string{"putIDA", "batchAAB", "batchFail2", "batchFailW", "batchTwo", "batchDel", "ticksync", "reopen"}, 4, 5, []int{0, 1, 3}, vrt.Options{}, "a.b", "a.c")},
		{Name: "refused", Desc: "batches refused or failing among background work", Weight: 1,
			Body: history([]string{"batchRefused", "batchFail0", "batchFail2", "batchABAB", "tick", "reopen"}, 4, 5, []int{0, 2}, vrt.Options{SchedPolicy: 1}, "a.b", "a.c")},
		{Name: "crash-points", Desc: "a crash at every mutation, torn writes included, from the start of a batch until it is synced", Weight: 4,
			Body: batchCrash([]string{"putIDA", "putB", "ticksync", "tick", "batchAAB"}, []string{"batchAAB", "batchTwo", "batchDel", "batchOnlyDel"}, 3, 5, true, vrt.Options{}, "a.b", "a.c")},
	}
}
