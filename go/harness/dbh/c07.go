package main

import (
	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/message"
	"vrt"
	"vrt/vexp"
)

var contracts = []uint32{0, 7, 9, message.MasterContract}

func norm(c uint32) uint32 {
	if c == 0 {
		return message.MasterContract
	}
	return c
}

func contractsBody(set []string, quick, deep int) func(x *vexp.X) {
	return func(x *vexp.X) {
		n := depth(x, quick, deep)
		s := newSess(x)
		s.opts = append(s.opts, noBackground())
		type step struct {
			op       int
			topic    string
			contract uint32
		}
		var h []step
		names := []string{"put", "batch-option", "batch-entry", "delete", "sync", "reopen", "batch-delete"}
		for i := 0; i < n; i++ {
			st := step{op: x.Pick(len(names), "op")}
			if st.op < 3 {
				st.topic = set[x.Pick(len(set), "topic")]
				st.contract = contracts[x.Pick(3, "contract")]
				x.AddKey("%s(%s,%d)", names[st.op], st.topic, st.contract)
			} else {
				x.AddKey("%s", names[st.op])
			}
			h = append(h, st)
		}
		check := func() {
			for _, c := range contracts {
				for _, t := range []string{"a", "a.b", "a.b.c"} {
					for _, l := range []int{0, 1} {
						got, err := s.query(unitdb.NewQuery([]byte(t)).WithContract(c), l)
						if err != nil {
							s.w.Fail("get-error", "Get(%s, contract %d): %v", t, c, err)
						}
						want := s.want(func(m *msg) bool { return norm(m.contract) == norm(c) && matches(m.topic, t) }, l)
						if !equal(got, want) {
							s.w.Fail("isolation", "Get(%s, contract %d, limit %d) = %s, want %s", t, c, l, short(got), short(want))
						}
					}
				}
			}
		}
		s.in(vrt.Options{}, func() {
			s.open()
			for _, st := range h {
				switch names[st.op] {
				case "put":
					m := s.add(st.topic, st.contract)
					m.id = s.db.NewID()
					s.err("put", s.db.PutEntry(s.entry(m)), "PutEntry")
					s.ack(m)
				case "batch-option", "batch-entry":
					m := s.add(st.topic, st.contract)
					err := s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
						if names[st.op] == "batch-option" {
							if st.contract != 0 {
								b.SetOptions(unitdb.WithBatchContract(st.contract))
							}
							return b.Put([]byte(m.topic), []byte(m.payload))
						}
						b.SetOptions(unitdb.WithBatchContract(9))
						if m.contract == 0 {
							m.contract = 9 // the batch's contract applies to entries without their own
						}
						m.id = s.db.NewID()
						return b.PutEntry(s.entry(m))
					})
					s.err("batch", err, "Batch")
					s.ack(m)
				case "delete":
					if l := s.withID(true); len(l) > 0 {
						s.del(l[len(l)-1])
					}
				case "batch-delete":
					// the contract of the batch applies to deletes without their own
					if l := s.withID(true); len(l) > 0 {
						m := l[0]
						m.delStart = len(s.fs.Ops)
						err := s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
							b.SetOptions(unitdb.WithBatchContract(norm(m.contract)))
							return b.Delete(append([]byte(nil), m.id...), []byte(m.topic))
						})
						if !s.err("batch", err, "Batch") {
							m.delAcked = true
						}
					}
				case "sync":
					s.synced()
				case "reopen":
					s.reopen()
				}
			}
			check()
			s.synced()
			check()
			s.reopen()
			check()
			s.db.Close()
			x.Distinct(x.GetKey())
		})
	}
}

func c07() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "plain", Desc: "puts, batches and deletes under three contracts, one topic; every query contract", Weight: 2, Body: contractsBody([]string{"a.b"}, 4, 5)},
		{Name: "wildcards", Desc: "the same over plain and wildcard topics", Weight: 2, Body: contractsBody([]string{"a.b", "a.*", "a...", "*.b"}, 3, 4)},
	}
}
