package main

import (
	"fmt"

	"github.com/unit-io/unitdb"
	"vrt"
	"vrt/vexp"
)

func init() {
	sizes := []int{12, 40, 90, 160}
	for i, l := range sizes {
		l := l
		allOps[fmt.Sprintf("put#%d", i)] = func(s *sess) { s.putSized(l) }
	}
	allOps["delMid"] = func(s *sess) {
		if l := s.withID(true); len(l) > 0 {
			s.del(l[len(l)/2])
		}
	}
	allOps["del2Old"] = func(s *sess) {
		l := s.withID(true)
		for i := 0; i < 2 && i < len(l); i++ {
			s.del(l[i])
		}
	}
	allOps["batchSized"] = func(s *sess) {
		s.groups++
		var ms []*msg
		err := s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
			for _, l := range []int{90, 12} {
				m := s.sized(l)
				m.group = s.groups
				ms = append(ms, m)
				if err := b.PutEntry(s.entry(m)); err != nil {
					return err
				}
			}
			return nil
		})
		if s.err("batch", err, "Batch") {
			return
		}
		for _, m := range ms {
			s.ack(m)
			m.dur = len(s.fs.Ops)
		}
	}
}

func (s *sess) sized(l int) *msg {
	m := s.add(s.topics[s.n%len(s.topics)], 0)
	m.payload = secret(l, s.n)
	m.id = s.db.NewID()
	return m
}

func (s *sess) putSized(l int) {
	m := s.sized(l)
	if !s.err("put", s.db.PutEntry(s.entry(m)), "PutEntry(%d bytes)", l) {
		s.ack(m)
	}
}

// seeded starts with some synced messages of different sizes.
func (s *sess) seedSized() {
	for _, l := range []int{40, 160, 12, 90, 40} {
		s.putSized(l)
	}
	s.synced()
}

func spaceBody(ops []string, quick, deep int, free int64, opt vrt.Options, topics ...string) func(x *vexp.X) {
	return func(x *vexp.X) {
		h := pickOps(x, ops, depth(x, quick, deep))
		s := newSess(x, topics...)
		s.opts = append(s.opts, noBackground(), unitdb.WithFreeBlockSize(free))
		s.in(opt, func() {
			s.open()
			s.seedSized()
			for _, o := range h {
				s.do(o)
			}
			s.synced()
			s.checkAll(0)
			// use up what is free
			for _, l := range []int{12, 12, 40, 12, 90} {
				s.putSized(l)
			}
			s.synced()
			s.checkAll(0)
			s.reopen()
			for _, l := range []int{40, 160} {
				s.putSized(l)
			}
			s.synced()
			s.checkAll(0)
			s.checkCount()
			s.db.Close()
		})
		x.Distinct(x.GetKey())
	}
}

func spaceCrash(ops []string, quick, deep int, free int64, tears bool, topics ...string) func(x *vexp.X) {
	return func(x *vexp.X) {
		n := depth(x, quick, deep)
		h := pickOps(x, ops, n)
		s := newSess(x, topics...)
		s.opts = append(s.opts, noBackground(), unitdb.WithFreeBlockSize(free))
		from := 0
		s.in(vrt.Options{}, func() {
			s.open()
			s.seedSized()
			for i, o := range h {
				if i == len(h)-1 {
					from = len(s.fs.Ops)
				}
				s.do(o)
			}
		})
		key := x.GetKey()
		s.crashes(from, tears, func(c *sess, k, torn int) {
			x.Key("%s; %s", key, s.at(k, torn))
			x.Count("crash_points", 1)
			c.in(vrt.Options{}, func() {
				c.open()
				c.settle()
				c.do("del2Old")
				for _, l := range []int{12, 40, 90, 160} {
					c.putSized(l)
				}
				c.synced()
				c.checkAll(0)
				c.reopen()
				c.putSized(40)
				c.synced()
				c.checkAll(0)
				c.checkCount()
				c.db.Close()
			})
		})
		x.Distinct(key)
	}
}

// steady: storing and deleting the same amount over and over does not grow the files.
func steady(x *vexp.X) {
	const big = 100000
	n := 1 + x.Pick(4, "messages")
	order := x.Pick(3, "order")
	how := x.Pick(3, "between")
	split := x.Pick(2, "split")
	x.Key("%d messages, delete order %d, between %d, split %d", n, order, how, split)
	s := newSess(x, "a.b")
	s.opts = append(s.opts, noBackground(), unitdb.WithFreeBlockSize(1))
	sizes := []int64{}
	s.in(vrt.Options{}, func() {
		s.open()
		for cycle := 0; cycle < 6; cycle++ {
			for i := 0; i < n; i++ {
				s.putSized(big)
				if split == 1 {
					s.synced()
				}
			}
			s.synced()
			s.checkAll(0)
			sz, err := s.db.FileSize()
			if err != nil {
				s.w.Fail("file-size", "FileSize: %v", err)
			}
			sizes = append(sizes, sz)
			l := s.withID(true)
			for i := range l {
				switch order {
				case 0:
					s.del(l[i])
				case 1:
					s.del(l[len(l)-1-i])
				case 2:
					s.del(l[(i+len(l)/2)%len(l)])
				}
			}
			switch how {
			case 1:
				s.reopen()
			case 2:
				s.synced()
			}
		}
		s.db.Close()
	})
	if grown := sizes[len(sizes)-1] - sizes[1]; grown >= big {
		x.Fail("leak", "storing and deleting %d messages of %d bytes repeatedly grows the files: sizes %v", n, big, sizes)
	}
	x.Note(sizes)
}

func c10() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "reuse", Desc: "histories of puts of four sizes, deletes, syncs and reopens after which all free space is used up", Weight: 4,
			Body: spaceBody([]string{"put#0", "put#2", "delOld", "delMid", "delNew", "ticksync", "reopen"}, 5, 7, 1, vrt.Options{}, "a.b", "a.c")},
		{Name: "sizes", Desc: "more sizes and batches, one topic", Weight: 3,
			Body: spaceBody([]string{"put#1", "put#3", "batchSized", "del2Old", "ticksync", "delNew"}, 5, 7, 1, vrt.Options{MapDesc: true}, "a.b")},
		{Name: "threshold", Desc: "a threshold below which free space is not reused", Weight: 1,
			Body: spaceBody([]string{"put#0", "del2Old", "delNew", "ticksync", "reopen"}, 5, 7, 150, vrt.Options{}, "a.b", "a.c")},
		{Name: "crash", Desc: "a crash at every mutation while space is freed and reused", Weight: 3,
			Body: spaceCrash([]string{"put#0", "del2Old", "delMid", "ticksync", "batchSized"}, 4, 5, 1, true, "a.b", "a.c")},
		{Name: "crash-reopened", Desc: "the same after the free space was written down by closing and read by opening", Weight: 2,
			Body: spaceCrash([]string{"del2Old", "reopen", "put#1", "put#2", "ticksync"}, 4, 5, 1, false, "a.b", "a.c")},
		{Name: "steady", Desc: "free space is conserved: repeated store/delete cycles do not grow the files", Weight: 1, Body: steady},
	}
}
