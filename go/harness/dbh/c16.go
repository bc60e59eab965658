package main

import (
	"bytes"
	"strings"
	"sync"
	"time"

	"github.com/unit-io/unitdb"
	"vrt"
	"vrt/vexp"
)

type badReq struct {
	name string
	fn   func(s *sess) error
}

func long(n int) []byte { return bytes.Repeat([]byte("t"), n) }

// badTopics cannot be stored under.
func badTopics() map[string][]byte {
	return map[string][]byte{
		"empty":   nil,
		"65537":   long(65537),
		"1e6":     long(1000000),
		"dot":     []byte("."),
		"deep100": []byte(strings.Repeat("a.", 99) + "a"),
		"deep300": []byte(strings.Repeat("a.", 299) + "a"),
	}
}

var hugeOnce sync.Once
var huge []byte

// tooLarge is one byte more than a payload may have; its pages are never touched.
func tooLarge() []byte {
	hugeOnce.Do(func() { huge = make([]byte, 1<<30+1) })
	return huge
}

func batchOf(s *sess, fn func(b *unitdb.Batch) error) error {
	return s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
		if err := b.Put([]byte(s.topics[0]), []byte("in-bad-batch")); err != nil {
			s.w.Fail("batch", "good put refused: %v", err)
		}
		return fn(b)
	})
}

// requests lists invalid requests. Each must be refused.
func requests(x *vexp.X) []badReq {
	id := func(s *sess) []byte {
		if l := s.withID(true); len(l) > 0 {
			return append([]byte(nil), l[0].id...)
		}
		return s.db.NewID()
	}
	out := []badReq{
		{"put-empty-payload", func(s *sess) error { return s.db.Put([]byte("a.b"), nil) }},
		{"put-empty-payload2", func(s *sess) error { return s.db.Put([]byte("a.b"), []byte{}) }},
		{"batch-empty-payload", func(s *sess) error {
			return batchOf(s, func(b *unitdb.Batch) error { return b.Put([]byte("a.b"), nil) })
		}},
		{"batch-empty-payload2", func(s *sess) error {
			return batchOf(s, func(b *unitdb.Batch) error { return b.Put([]byte("a.b"), []byte{}) })
		}},
		{"batch-entry-empty-payload", func(s *sess) error {
			return batchOf(s, func(b *unitdb.Batch) error { return b.PutEntry(unitdb.NewEntry([]byte("a.b"), []byte{})) })
		}},
		{"entry-empty-payload", func(s *sess) error { return s.db.PutEntry(unitdb.NewEntry([]byte("a.b"), nil).WithPayload([]byte{})) }},
		{"put-short-id", func(s *sess) error {
			return s.db.PutEntry(unitdb.NewEntry([]byte("a.b"), []byte("x")).WithID([]byte{1, 2, 3}))
		}},
		{"put-long-id", func(s *sess) error {
			return s.db.PutEntry(unitdb.NewEntry([]byte("a.b"), []byte("x")).WithID(long(40)))
		}},
		{"del-no-id", func(s *sess) error { return s.db.Delete(nil, []byte("a.b")) }},
		{"del-empty-id", func(s *sess) error { return s.db.Delete([]byte{}, []byte("a.b")) }},
		{"del-short-id", func(s *sess) error { return s.db.Delete(id(s)[:3], []byte("a.b")) }},
		{"del-one-byte-id", func(s *sess) error { return s.db.Delete(id(s)[:1], []byte("a.b")) }},
		{"del-no-topic", func(s *sess) error { return s.db.Delete(id(s), nil) }},
		{"del-long-topic", func(s *sess) error { return s.db.Delete(id(s), long(65537)) }},
		{"batch-del-no-id", func(s *sess) error {
			return batchOf(s, func(b *unitdb.Batch) error { return b.Delete(nil, []byte("a.b")) })
		}},
		{"batch-del-short-id", func(s *sess) error {
			return batchOf(s, func(b *unitdb.Batch) error { return b.Delete(id(s)[:3], []byte("a.b")) })
		}},
		{"batch-del-no-topic", func(s *sess) error {
			return batchOf(s, func(b *unitdb.Batch) error { return b.Delete(id(s), nil) })
		}},
	}
	out = append(out,
		badReq{"batch-del-long-topic", func(s *sess) error {
			return batchOf(s, func(b *unitdb.Batch) error { return b.Delete(id(s), long(65537)) })
		}},
		badReq{"put-huge-payload", func(s *sess) error { return s.db.Put([]byte("a.b"), tooLarge()) }},
		badReq{"batch-huge-payload", func(s *sess) error {
			return batchOf(s, func(b *unitdb.Batch) error { return b.Put([]byte("a.b"), tooLarge()) })
		}},
	)
	names := []string{"empty", "65537", "1e6", "dot", "deep100", "deep300"}
	bad := badTopics()
	for _, n := range names {
		n, t := n, bad[n]
		out = append(out,
			badReq{"put-topic-" + n, func(s *sess) error { return s.db.Put(t, []byte("x")) }},
			badReq{"batch-topic-" + n, func(s *sess) error {
				return batchOf(s, func(b *unitdb.Batch) error { return b.Put(t, []byte("x")) })
			}},
		)
		out = append(out, badReq{"get-topic-" + n, func(s *sess) error { _, err := s.db.Get(unitdb.NewQuery(t)); return err }})
	}
	_ = x
	return out
}

// invalid makes an invalid request at every point of every history; it must be refused and change nothing.
func invalid(x *vexp.X) {
	reqs := requests(x)
	n := depth(x, 3, 4)
	h := pickOps(x, []string{"putA", "putIDA", "ticksync", "batchAAB"}, n)
	at := x.Pick(n+1, "at")
	s := newSess(x, "a.b", "a.c")
	s.opts = append(s.opts, noBackground())
	key := x.GetKey()
	s.in(vrt.Options{}, func() {
		s.open()
		for i := 0; i <= n; i++ {
			if i == at {
				for _, r := range reqs {
					x.Key("%s; %s at %d", key, r.name, at)
					c0 := s.db.Count()
					err := r.fn(s)
					x.Count("invalid_requests", 1)
					if err == nil {
						s.w.Fail("accepted-"+r.name, "%s was not refused", r.name)
					}
					if c := s.db.Count(); c != c0 {
						s.w.Fail("changed", "Count() changed from %d to %d by %s", c0, c, r.name)
					}
				}
				s.checkAll(0, 1)
			}
			if i < n {
				s.do(h[i])
			}
		}
		s.checkAll(0, 2)
		s.synced()
		s.checkAll(0, 2)
		s.checkCount()
		s.reopen()
		s.checkAll(0, 2)
		s.checkCount()
		s.close()
	})
	x.Distinct(key)
}

// immutable: deletes are refused on a database that was not opened mutable.
func immutable(x *vexp.X) {
	h := pickOps(x, []string{"putA", "putIDA", "ticksync", "batchIDA", "reopen", "delete", "batchDelete"}, depth(x, 4, 6))
	s := newSess(x, "a.b", "a.c")
	s.opts = []unitdb.Options{noBackground()}
	s.in(vrt.Options{}, func() {
		s.open()
		for _, o := range append(h, "delete", "batchDelete") {
			l := s.withID(true)
			switch o {
			case "delete":
				if len(l) > 0 {
					if err := s.db.Delete(append([]byte(nil), l[0].id...), []byte(l[0].topic)); err == nil {
						s.w.Fail("deleted", "delete on an immutable database was not refused")
					}
				}
			case "batchDelete":
				if len(l) > 0 {
					err := batchOf(s, func(b *unitdb.Batch) error { return b.Delete(append([]byte(nil), l[0].id...), []byte(l[0].topic)) })
					if err == nil {
						s.w.Fail("deleted", "delete in a batch on an immutable database was not refused")
					}
				}
			default:
				s.do(o)
			}
		}
		s.checkAll(0, 2)
		s.reopen()
		s.checkAll(0, 2)
		s.synced()
		s.checkCount()
		s.close()
	})
	x.Distinct(x.GetKey())
}

// limits: number of messages x default and maximum limits x requested limit.
func limits(x *vexp.X) {
	def := []int{0, 1, 2, 3, 1000}[x.Pick(5, "default")]
	max := []int{0, 1, 2, 4, 100000}[x.Pick(5, "max")]
	stage := x.Pick(3, "stage")
	x.Key("default %d, max %d, stage %d", def, max, stage)
	s := newSess(x, "a.b", "a.c")
	s.opts = append(s.opts, noBackground())
	if def > 0 {
		s.opts = append(s.opts, unitdb.WithDefaultQueryLimit(def))
	} else {
		def = 1000
	}
	if max > 0 {
		s.opts = append(s.opts, unitdb.WithMaxQueryLimit(max))
	} else {
		max = 100000
	}
	s.in(vrt.Options{}, func() {
		s.open()
		for n := 0; n <= 6; n++ {
			for _, l := range []int{-1000000, -1, 0, 1, 2, 3, 4, 5, 6, 100, 1 << 40} {
				eff := l
				if eff <= 0 {
					eff = def
				}
				if eff > max {
					eff = max
				}
				q := unitdb.NewQuery([]byte("a.b")).WithLimit(l)
				items, err := s.db.Get(q)
				if err != nil {
					s.w.Fail("get", "Get with limit %d: %v", l, err)
				}
				var got []string
				for _, it := range items {
					got = append(got, string(it))
				}
				want := s.want(func(m *msg) bool { return m.topic == "a.b" }, eff)
				if !equal(got, want) {
					s.w.Fail("limit", "%d messages, default %d, max %d: Get with limit %d = %s, want %s", n, def, max, l, short(got), short(want))
				}
				x.Count("queries", 1)
			}
			s.put("a.b")
			if stage == 1 {
				s.synced()
			}
			if stage == 2 {
				s.reopen()
			}
		}
		s.close()
	})
	x.Distinct(x.GetKey())
}

// hostile: topics of all short strings over a small alphabet; nothing crashes and nothing else changes.
func hostile(x *vexp.X) {
	alpha := "a.*?=:"
	n := 1 + x.Pick(depth(x, 4, 5), "length")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(alpha[x.Pick(len(alpha), "char")])
	}
	t := b.String()
	x.Key("topic %q", t)
	s := newSess(x, "k.k", "k.l")
	s.opts = append(s.opts, noBackground())
	s.in(vrt.Options{}, func() {
		s.open()
		m := s.putID("k.k")
		s.put("k.l")
		r := 0
		if s.db.Put([]byte(t), []byte("hostile")) == nil {
			r |= 1
		}
		if _, err := s.db.Get(unitdb.NewQuery([]byte(t))); err == nil {
			r |= 2
		}
		if s.db.Delete(s.db.NewID(), []byte(t)) == nil {
			r |= 4
		}
		if s.db.PutEntry(unitdb.NewEntry([]byte(t), []byte("hostile2")).WithTTL("1x").WithContract(3)) == nil {
			r |= 8
		}
		if s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error { return b.Put([]byte(t), []byte("hostile3")) }) == nil {
			r |= 16
		}
		if s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error { return b.Delete(s.db.NewID(), []byte(t)) }) == nil {
			r |= 32
		}
		_ = m
		// wildcards over the first level may match the topics of the model
		if !strings.Contains(t, "*") && !strings.Contains(t, "...") {
			s.checkAll(0)
		}
		s.synced()
		s.reopen()
		if !strings.Contains(t, "*") && !strings.Contains(t, "...") {
			s.checkAll(0)
		}
		s.db.Get(unitdb.NewQuery([]byte(t)))
		s.close()
		x.Count("topics", 1)
		x.Distinct("accepted " + string(rune('0'+r)))
	})
}

func c16() []vexp.Scenario {
	_ = time.Second
	return []vexp.Scenario{
		{Name: "invalid", Desc: "every invalid request at every point of every history", Weight: 3, Body: invalid},
		{Name: "immutable", Desc: "deletes on an immutable database in every history", Weight: 2, Body: immutable},
		{Name: "limits", Desc: "0..6 messages x default limit x maximum limit x requested limit, in memory, synced and reopened", Weight: 1, Body: limits},
		{Name: "hostile", Desc: "all topics over a small alphabet up to a length", Weight: 2, Body: hostile},
	}
}
