package main

import (
	"encoding/binary"

	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/message"
	"vrt"
	"vrt/vexp"
)

// ids collects identifiers and fails on a repetition.
type ids struct {
	seq map[uint64]string
}

func (d *ids) add(w *vrt.World, id []byte, who string) uint64 {
	if len(id) != 16 {
		w.Fail("id-length", "NewID returned %d bytes", len(id))
	}
	q := message.ID(id).Sequence()
	if o, ok := d.seq[q]; ok {
		w.Fail("id-reused", "identifier %x (sequence %d, %s) was generated before (%s)", id, q, who, o)
	}
	d.seq[q] = who
	return q
}

// idBody: identifiers that were used for a stored and surviving message, or generated in the same process, never come again.
func idBody(ops []string, quick, deep int, opt vrt.Options) func(x *vexp.X) {
	return func(x *vexp.X) {
		n := depth(x, quick, deep)
		h := pickOps(x, ops, n)
		bg := flag(x, "bg")
		s := newSess(x, "a.b", "a.c")
		if !bg {
			s.opts = append(s.opts, noBackground())
		}
		seen := &ids{seq: map[uint64]string{}}
		var spare [][]byte // generated but not used yet
		used := uint64(0)
		crash := false
		i := 0
		for i < len(h) || crash {
			if crash {
				s.atCrash(len(s.fs.Ops))
			}
			again := crash
			crash = false
			made := false // an identifier was generated since the crash
			s.in(opt, func() {
				s.open()
				if again {
					s.settle()
					// identifiers of messages that did not survive may come again
					keep := map[uint64]string{}
					for _, m := range s.model {
						if m.id != nil && !m.deleted() {
							keep[message.ID(m.id).Sequence()] = "survived " + m.payload
						}
					}
					seen.seq = keep
				}
				for ; i < len(h); i++ {
					made = made || h[i] == "newID" || h[i] == "putB"
					switch h[i] {
					case "newID":
						id := s.db.NewID()
						seen.add(s.w, id, "NewID")
						spare = append(spare, id)
					case "putSpare":
						// the oldest identifier generated and not used, perhaps before a crash
						if len(spare) == 0 {
							break
						}
						id := spare[0]
						spare = spare[1:]
						q := message.ID(id).Sequence()
						if q <= used {
							break // the order of the answers is that of the identifiers
						}
						used = q
						if made && seen.seq[q] == "" {
							break // it was lost in the crash, and another message may have it now
						}
						m := s.add("a.b", 0)
						m.id = id
						seen.seq[q] = "used for " + m.payload
						s.err("put", s.db.PutEntry(s.entry(m)), "PutEntry")
						s.ack(m)
					case "putID":
						m := s.add("a.b", 0)
						m.id = s.db.NewID()
						seen.add(s.w, m.id, "NewID, "+m.payload)
						s.err("put", s.db.PutEntry(s.entry(m)), "PutEntry")
						s.ack(m)
					case "batchID":
						err := s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
							for _, t := range []string{"a.b", "a.c"} {
								m := s.add(t, 0)
								m.group = 1
								m.id = s.db.NewID()
								seen.add(s.w, m.id, "NewID, "+m.payload)
								if err := b.PutEntry(s.entry(m)); err != nil {
									return err
								}
								s.ack(m)
							}
							return nil
						})
						s.err("batch", err, "Batch")
						for _, m := range s.model {
							if m.group == 1 && m.dur < 0 {
								m.dur = len(s.fs.Ops)
							}
						}
					case "crash":
						i++
						crash = true
						return
					default:
						s.do(h[i])
					}
				}
				s.checkAll(0)
				for k := 0; k < 3; k++ {
					seen.add(s.w, s.db.NewID(), "NewID at the end")
				}
				s.putID("a.b")
				s.synced()
				s.checkAll(0)
				s.reopen()
				for k := 0; k < 2; k++ {
					seen.add(s.w, s.db.NewID(), "NewID after reopening")
				}
				s.put("a.c")
				s.put("a.c")
				s.checkAll(0)
				s.synced()
				s.checkAll(0)
				s.checkCount()
				s.db.Close()
			})
		}
		x.Distinct(x.GetKey())
	}
}

// idThreads: identifiers generated by concurrent threads are distinct.
func idThreads(x *vexp.X) {
	s := newSess(x, "a.b")
	s.opts = append(s.opts, noBackground())
	s.in(vrt.Options{Sched: true}, func() {
		w := s.w
		w.Quiet(func() { s.open() })
		seen := &ids{seq: map[uint64]string{}}
		got := make([][]byte, 6)
		put := make([]error, 2)
		a := w.Go("a", func() {
			for i := 0; i < 2; i++ {
				got[i] = s.db.NewID()
			}
		})
		b := w.Go("b", func() {
			got[2] = s.db.NewID()
			put[0] = s.db.Put([]byte("a.b"), []byte("p1"))
			got[3] = s.db.NewID()
		})
		c := w.Go("c", func() {
			put[1] = s.db.Put([]byte("a.b"), []byte("p2"))
			got[4] = s.db.NewID()
		})
		w.Join(a, b, c)
		w.Quiet(func() {
			got[5] = s.db.NewID()
			for i, id := range got {
				seen.add(w, id, string(rune('0'+i)))
			}
			for _, e := range put {
				if e != nil {
					w.Fail("put", "Put: %v", e)
				}
			}
			if items := s.get("a.b", 0); len(items) != 2 || items[0] == items[1] {
				w.Fail("lost", "two concurrent puts, query returns %s", short(items))
			}
			for _, id := range got {
				x.Note(message.ID(id).Sequence())
			}
			s.db.Close()
		})
	})
}

// idAhead: a message with an identifier generated elsewhere is stored while others are generated.
func idAhead(x *vexp.X) {
	ahead := 1 + uint64(x.Pick(5, "sequence"))
	x.Key("stored with sequence %d", ahead)
	s := newSess(x, "a.b")
	s.opts = append(s.opts, noBackground())
	s.in(vrt.Options{Sched: true}, func() {
		w := s.w
		w.Quiet(func() { s.open() })
		seen := &ids{seq: map[uint64]string{}}
		got := make([][]byte, 6)
		var put error
		stored := false
		a := w.Go("a", func() {
			for i := 0; i < 3; i++ {
				after := stored
				got[i] = s.db.NewID()
				if q := message.ID(got[i]).Sequence(); after && q <= ahead {
					w.Fail("id-reused", "NewID gives sequence %d after a message with sequence %d was stored", q, ahead)
				}
			}
		})
		b := w.Go("b", func() {
			put = s.db.PutEntry(unitdb.NewEntry([]byte("a.b"), []byte("p1")).WithID(message.NewID(ahead)))
			stored = true
			got[3] = s.db.NewID()
		})
		w.Join(a, b)
		w.Quiet(func() {
			got[4], got[5] = s.db.NewID(), s.db.NewID()
			for i, id := range got {
				q := seen.add(w, id, string(rune('0'+i)))
				if i >= 3 && q <= ahead {
					w.Fail("id-reused", "NewID gives sequence %d after a message with sequence %d was stored", q, ahead)
				}
				x.Note(q)
			}
			if put != nil {
				w.Fail("put", "PutEntry: %v", put)
			}
			s.db.Close()
		})
	})
}

// idCodec: an identifier encodes its sequence and contract.
func idCodec(x *vexp.X) {
	seqs := []uint64{0, 1, 2, 127, 128, 255, 256, 65535, 65536, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	cons := []uint32{0, 1, 255, 256, 65535, 65536, message.MasterContract, message.MasterContract + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	q, c := seqs[x.Pick(len(seqs), "sequence")], cons[x.Pick(len(cons), "contract")]
	x.Key("sequence %d contract %d", q, c)
	x.World(vrt.Options{}, func(w *vrt.World) {
		id := message.NewID(q)
		if id.Sequence() != q {
			w.Fail("sequence", "NewID(%d).Sequence() = %d", q, id.Sequence())
		}
		if !id.EvalPrefix(message.MasterContract, 0) {
			w.Fail("contract", "a new identifier is not under the master contract")
		}
		before := append(message.ID(nil), id...)
		id.SetContract(c)
		if id.Sequence() != q {
			w.Fail("sequence", "after SetContract(%d) the sequence %d became %d", c, q, id.Sequence())
		}
		for _, o := range cons {
			if id.EvalPrefix(o, 0) != (o == c) {
				w.Fail("contract", "an identifier of contract %d matches contract %d: %v", c, o, id.EvalPrefix(o, 0))
			}
		}
		now := w.PeekNow().Unix()
		if !id.EvalPrefix(c, now-2) || id.EvalPrefix(c, now+2) {
			w.Fail("time", "identifier of now: since 2 s ago %v, since 2 s ahead %v", id.EvalPrefix(c, now-2), id.EvalPrefix(c, now+2))
		}
		p := id.Prefix()
		if len(p) != 8 || binary.LittleEndian.Uint32(p[4:]) != c {
			w.Fail("prefix", "Prefix() = %x", p)
		}
		if len(before) != id.Size() {
			w.Fail("size", "length %d, Size() %d", len(before), id.Size())
		}
	})
	x.Distinct(x.GetKey())
}

func c13() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "histories", Desc: "identifiers generated explicitly, in batches and for messages without one, across syncs, reopens and crashes", Weight: 4,
			Body: idBody([]string{"newID", "putID", "putA", "batchID", "ticksync", "tick", "reopen", "crash"}, 4, 6, vrt.Options{})},
		{Name: "kept", Desc: "identifiers are generated and used later, also after reopening and crashing", Weight: 2,
			Body: idBody([]string{"newID", "putSpare", "putB", "ticksync", "reopen", "crash"}, 5, 6, vrt.Options{})},
		{Name: "deletes", Desc: "the same with deletes of the newest messages before restart", Weight: 2,
			Body: idBody([]string{"putIDA", "putB", "delNew", "ticksync", "reopen", "crash"}, 5, 6, vrt.Options{MapDesc: true})},
		{Name: "threads", Desc: "three threads generating identifiers and storing", Quick: 2, Deep: 3, Weight: 2, Body: idThreads},
		{Name: "ahead", Desc: "a message with an identifier generated elsewhere is stored while identifiers are generated", Quick: 3, Deep: 4, Weight: 1, Body: idAhead},
		{Name: "codec", Desc: "sequence and contract of an identifier at boundary values", Weight: 1, Body: idCodec},
	}
}
