package main

import (
	"encoding/json"
	"errors"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"time"

	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/memdb"
	"vrt"
	"vrt/vexp"
)

func c35() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "store", Desc: "the statistics of the store after every operation of every history", Weight: 6, Body: storeStats},
		{Name: "store-threads", Desc: "the same after two or three threads", Quick: 1, Deep: 2, Weight: 1, Body: storeStatThreads},
		{Name: "memdb", Desc: "the statistics of the in-memory store after every operation of every history", Weight: 2, Body: memStats},
	}
}

// tally is what the statistics of a store have to say.
type tally struct {
	puts, dels, gets, bytes, leases, synced, recovered int64
	onDisk                                             map[*msg]bool
	opened, ready                                      time.Time // when Open began and returned
}

type page struct {
	head http.Header
	body []byte
}

func (p *page) Header() http.Header         { return p.head }
func (p *page) Write(b []byte) (int, error) { p.body = append(p.body, b...); return len(b), nil }
func (p *page) WriteHeader(int)             {}

func (t *tally) check(s *sess, disk bool) {
	v, err := s.db.Varz()
	if err != nil {
		s.w.Fail("varz", "Varz: %v", err)
	}
	type fig struct {
		name      string
		got, want int64
	}
	figs := []fig{{"puts", v.Puts, t.puts}, {"dels", v.Dels, t.dels}, {"gets", v.Gets, t.gets}, {"messages out", v.OutMsgs, t.gets}, {"bytes out", v.OutBytes, t.bytes},
		{"leases", v.Leases, t.leases}, {"recovered", v.Recovers, t.recovered}, {"count", v.Count, int64(s.db.Count())}}
	if disk {
		figs = append(figs, fig{"syncs", v.Syncs, t.synced}, fig{"messages in", v.InMsgs, t.synced})
	}
	for _, f := range figs {
		if f.got != f.want {
			s.w.Fail("statistics", "the statistics say %d %s, it is %d", f.got, f.name, f.want)
		}
	}
	if v.Seq < int64(s.n) {
		s.w.Fail("statistics", "the statistics say sequence %d after %d messages", v.Seq, s.n)
	}
	if v.Start.Before(t.opened) || v.Start.After(t.ready) || v.Now.Before(v.Start) || v.Now.After(s.w.PeekNow()) {
		s.w.Fail("statistics", "the statistics say opened %v, now %v; it was opened %v", v.Start, v.Now, t.opened)
	}
	if up, err := time.ParseDuration(v.Uptime); err != nil || up > s.w.PeekNow().Sub(t.opened) || up < v.Now.Sub(v.Start)-time.Second {
		s.w.Fail("statistics", "the statistics say up for %s, opened %v ago", v.Uptime, s.w.PeekNow().Sub(t.opened))
	}
}

// served: what the page says is what Varz says.
func (t *tally) served(s *sess) {
	v, _ := s.db.Varz()
	for _, cb := range []string{"", "f"} {
		p := &page{head: http.Header{}}
		s.db.HandleVarz(p, &http.Request{URL: &url.URL{RawQuery: "callback=" + cb}})
		body := string(p.body)
		if cb != "" {
			if !strings.HasPrefix(body, cb+"(") || !strings.HasSuffix(body, ")") {
				s.w.Fail("page", "the page for a callback is %.80q", body)
			}
			body = body[len(cb)+1 : len(body)-1]
		}
		var g unitdb.Varz
		if err := json.Unmarshal([]byte(body), &g); err != nil {
			s.w.Fail("page", "the page is no JSON: %v", err)
		}
		g.Now, g.Uptime, g.Start = v.Now, v.Uptime, v.Start
		if !reflect.DeepEqual(&g, v) {
			s.w.Fail("page", "the page says %+v, Varz %+v", g, *v)
		}
	}
}

func (t *tally) settle(s *sess, recovered bool) {
	for _, m := range s.model {
		if !m.deleted() && !t.onDisk[m] {
			t.onDisk[m] = true
			t.synced++
			if recovered {
				t.recovered++
			}
		}
	}
}

func (t *tally) open(s *sess) {
	at := s.w.PeekNow()
	s.open()
	*t = tally{onDisk: t.onDisk, opened: at, ready: s.w.PeekNow()}
	t.settle(s, true)
}

// step does one operation and counts what it does.
func (t *tally) step(s *sess, o string) {
	n, dels := len(s.model), 0
	for _, m := range s.model {
		if m.delAcked {
			dels++
		}
	}
	query := func(limit int) {
		got := s.get("a.b", limit)
		t.gets += int64(len(got))
		for _, p := range got {
			t.bytes += int64(len(p))
		}
	}
	switch o {
	case "get":
		query(0)
	case "get1":
		query(1)
	case "refused":
		if s.db.Put(nil, []byte("x")) == nil || s.db.Put([]byte("a.b"), nil) == nil || s.db.Delete(nil, []byte("a.b")) == nil {
			s.w.Fail("refused", "an invalid request is accepted")
		}
	case "failing":
		err := s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
			b.Put([]byte("a.b"), []byte("never"))
			return errors.New("no")
		})
		if err == nil {
			s.w.Fail("batch", "a failing batch is accepted")
		}
	case "reopen":
		s.close()
		t.open(s)
		return
	case "ticksync":
		s.do(o)
		t.settle(s, false)
	default:
		s.do(o)
	}
	for _, m := range s.model[n:] {
		t.puts++
		if m.id != nil {
			t.leases++
		}
	}
	for _, m := range s.model {
		if m.delAcked {
			dels--
		}
	}
	t.dels -= int64(dels)
}

func storeStats(x *vexp.X) {
	h := pickOps(x, []string{"putA", "putIDA", "batchIDA", "batchDel", "delOld", "get", "get1", "refused", "failing", "ticksync", "reopen"}, depth(x, 5, 6))
	s := newSess(x, "a.b", "c")
	s.opts = append(s.opts, noBackground())
	s.in(vrt.Options{}, func() {
		t := &tally{onDisk: map[*msg]bool{}}
		t.open(s)
		t.check(s, true)
		for _, o := range h {
			t.step(s, o)
			t.check(s, true)
		}
		t.served(s)
		t.step(s, "get")
		t.step(s, "ticksync")
		t.check(s, true)
		s.close()
	})
	x.Distinct(x.GetKey())
}

func storeStatThreads(x *vexp.X) {
	progs := []string{"put put", "putID", "batch", "get", "del", "sync", "lease lease"}
	var ps []string
	for i, n := 0, 2+x.Pick(depth(x, 1, 2), "more threads"); i < n; i++ {
		ps = append(ps, progs[x.Pick(len(progs), "thread")])
	}
	x.Key("%s", strings.Join(ps, " | "))
	s := newSess(x, "a.b")
	s.opts = append(s.opts, noBackground())
	s.in(vrt.Options{Sched: true}, func() {
		var puts, dels, gets, bytes, leases, stored int64
		var ids [][]byte
		s.w.Quiet(func() {
			s.open()
			for range ps {
				id := s.db.NewID()
				ids = append(ids, id)
				s.err("put", s.db.PutEntry(unitdb.NewEntry([]byte("a.b"), []byte("first")).WithID(append([]byte(nil), id...))), "PutEntry")
				puts++
				leases++
				stored++
			}
			s.tick(logTime)
		})
		var hs []*vrt.Handle
		for i, p := range ps {
			i := i
			fs := strings.Fields(p)
			hs = append(hs, s.w.Go(p, func() {
				for _, o := range fs {
					switch o {
					case "put":
						s.err("put", s.db.Put([]byte("a.b"), []byte("more")), "Put")
						puts++
						stored++
					case "putID":
						id := s.db.NewID()
						s.err("put", s.db.PutEntry(unitdb.NewEntry([]byte("a.b"), []byte("more")).WithID(id)), "PutEntry")
						leases++
						puts++
						stored++
					case "batch":
						s.err("batch", s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
							b.Put([]byte("a.b"), []byte("one"))
							return b.Put([]byte("a.b"), []byte("two"))
						}), "Batch")
						puts += 2
						stored += 2
					case "get":
						got, err := s.db.Get(unitdb.NewQuery([]byte("a.b")))
						s.err("get", err, "Get")
						gets += int64(len(got))
						for _, g := range got {
							bytes += int64(len(g))
						}
					case "del":
						s.err("delete", s.db.Delete(append([]byte(nil), ids[i]...), []byte("a.b")), "Delete")
						dels++
						stored--
					case "sync":
						s.sync()
					case "lease":
						s.db.NewID()
						leases++
					}
				}
			}))
		}
		s.w.Join(hs...)
		s.w.SetQuiet(true)
		v, _ := s.db.Varz()
		if v.Puts != puts || v.Dels != dels || v.Gets != gets || v.OutMsgs != gets || v.OutBytes != bytes || v.Leases != leases {
			s.w.Fail("lost-count", "the statistics say puts %d dels %d gets %d out %d bytes %d leases %d; it is %d %d %d %d %d %d", v.Puts, v.Dels, v.Gets, v.OutMsgs, v.OutBytes, v.Leases, puts, dels, gets, gets, bytes, leases)
		}
		s.synced()
		if v, _ := s.db.Varz(); v.Count != stored {
			s.w.Fail("lost-count", "the statistics say %d messages, there are %d", v.Count, stored)
		}
		s.w.Note(gets, bytes)
		s.close()
	})
	x.Distinct(x.GetKey())
}

func memStats(x *vexp.X) {
	h := pickOps(x, []string{"put", "batch", "get", "miss", "del", "delmiss", "tick", "free", "reopen"}, depth(x, 5, 6))
	fs := vrt.NewFS()
	x.World(vrt.Options{FS: fs}, func(w *vrt.World) {
		var db *memdb.DB
		var puts, gets, dels, recovered int64
		live := map[uint64]int64{} // key -> its time block
		key := uint64(0)
		open := func() {
			var err error
			if db, err = memdb.Open(memdb.WithLogFilePath("/mem")); err != nil {
				w.Fail("open", "%v", err)
			}
		}
		ok := func(err error, what string) {
			if err != nil {
				w.Fail("error", "%s: %v", what, err)
			}
		}
		first := func() uint64 {
			for k := uint64(1); k <= key; k++ {
				if _, in := live[k]; in {
					return k
				}
			}
			return 0
		}
		open()
		for _, o := range h {
			switch o {
			case "put":
				key++
				tid, err := db.Put(key, []byte("value"))
				ok(err, "Put")
				live[key] = tid
				puts++
			case "batch":
				var tid int64
				ok(db.Batch(func(b *memdb.Batch, done *vrt.Chan[struct{}]) error {
					tid = b.TimeID()
					for i := 0; i < 2; i++ {
						key++
						if err := b.Put(key, []byte("value")); err != nil {
							return err
						}
						live[key] = tid
						puts++
					}
					return nil
				}), "Batch")
			case "get":
				if k := first(); k != 0 {
					_, err := db.Get(k)
					ok(err, "Get")
					_, err = db.Lookup(live[k], k)
					ok(err, "Lookup")
					gets += 2
				}
			case "miss":
				if _, err := db.Get(1000); err == nil {
					w.Fail("get", "a key never stored is found")
				}
			case "del":
				if k := first(); k != 0 {
					ok(db.Delete(k), "Delete")
					delete(live, k)
					dels++
				}
			case "delmiss":
				if db.Delete(1000) == nil {
					w.Fail("delete", "a key never stored is deleted")
				}
			case "tick":
				w.Sleep(2100 * time.Millisecond)
			case "free":
				// free the block of the first key once it is over
				if k := first(); k != 0 {
					w.Sleep(2100 * time.Millisecond)
					tid := live[k]
					ok(db.Free(tid), "Free")
					for j, t := range live {
						if t == tid {
							delete(live, j)
						}
					}
				}
			case "reopen":
				ok(db.Close(), "Close")
				open()
				puts, gets, dels, recovered = int64(len(live)), 0, -1, int64(len(live))
				for _, k := range db.Keys() {
					if _, in := live[k]; !in {
						w.Fail("keys", "key %d is there after reopening", k)
					}
				}
				// the time blocks are other ones now
				live2 := map[uint64]int64{}
				db.All(func(tid int64, keys []uint64) (bool, error) {
					for _, k := range keys {
						live2[k] = tid
					}
					return false, nil
				})
				if len(live2) != len(live) {
					w.Fail("keys", "%d keys are there after reopening, want %d", len(live2), len(live))
				}
				live = live2
			}
			v, err := db.Varz()
			ok(err, "Varz")
			if dels < 0 {
				// what was deleted is replayed too
				if v.Puts < puts || v.Recovers < recovered || v.Recovers != v.Puts {
					w.Fail("statistics", "after reopening the statistics say puts %d recovered %d; there are %d keys", v.Puts, v.Recovers, puts)
				}
				puts, dels, recovered = v.Puts, v.Dels, v.Recovers
			}
			if v.Puts != puts || v.Gets != gets || v.Dels != dels || v.Recovers != recovered {
				w.Fail("statistics", "after %s the statistics say puts %d gets %d dels %d recovered %d; it is %d %d %d %d", o, v.Puts, v.Gets, v.Dels, v.Recovers, puts, gets, dels, recovered)
			}
		}
		w.Note(puts, gets, dels, recovered)
		ok(db.Close(), "Close")
	})
	x.Distinct(x.GetKey())
}
