package main

import (
	"fmt"

	"github.com/unit-io/unitdb"
	"vrt"
	"vrt/vexp"
)

// owners explores sequences of opening and closing the same directory twice, and of the owner dying.
func owners(x *vexp.X) {
	n := depth(x, 6, 8)
	h := pickOps(x, []string{"open0", "open1", "close0", "close1", "put", "kill"}, n)
	s := newSess(x, "a.b")
	var dbs [2]*unitdb.DB
	var isOpen [2]bool
	stored := 0
	acks := 0
	for i := 0; i < len(h); {
		s.in(vrt.Options{}, func() {
			for ; i < len(h); i++ {
				o := h[i]
				switch o {
				case "kill":
					i++
					dbs, isOpen = [2]*unitdb.DB{}, [2]bool{}
					s.w.SetQuiet(true)
					return
				case "open0", "open1":
					k := int(o[4] - '0')
					db, err := unitdb.Open(dir, s.opts...)
					other := isOpen[0] || isOpen[1]
					if other && err == nil {
						s.w.Fail("two-owners", "a second Open succeeded while the database is open")
					}
					if !other && err != nil {
						s.w.Fail("open-refused", "Open failed although nobody has the database open: %v", err)
					}
					if err == nil {
						dbs[k], isOpen[k] = db, true
					}
				case "close0", "close1":
					k := int(o[5] - '0')
					if dbs[k] == nil {
						continue
					}
					err := dbs[k].Close()
					if isOpen[k] && err != nil {
						s.w.Fail("close", "Close: %v", err)
					}
					if !isOpen[k] && err == nil {
						s.w.Fail("second-close", "a second Close reported success")
					}
					if isOpen[k] {
						stored = acks
					}
					isOpen[k] = false
				case "put":
					for k := range dbs {
						if dbs[k] == nil {
							continue
						}
						err := dbs[k].Put([]byte("a.b"), []byte(fmt.Sprintf("m%04d", i)))
						if isOpen[k] && err != nil {
							s.w.Fail("put", "Put on the open database: %v", err)
						}
						if !isOpen[k] && err == nil {
							s.w.Fail("closed-put", "Put on the closed database reported success")
						}
						if err == nil {
							acks++
						}
					}
				}
			}
		})
		acks = stored
	}
	s.in(vrt.Options{}, func() {
		if s.open() {
			if l := s.get("a.b", 1000); len(l) < stored {
				s.w.Fail("lost", "%s after %d messages were stored and the database closed", short(l), stored)
			}
			s.close()
		}
	})
	x.Distinct(x.GetKey())
}

// afterClose lists calls on a closed database; each must return an error, and return.
var afterClose = []struct {
	name string
	fn   func(db *unitdb.DB, id []byte) error
}{
	{"Put", func(db *unitdb.DB, id []byte) error { return db.Put([]byte("a.b"), []byte("late")) }},
	{"PutEntry", func(db *unitdb.DB, id []byte) error {
		return db.PutEntry(unitdb.NewEntry([]byte("a.b"), []byte("late")).WithID(append([]byte(nil), id...)))
	}},
	{"Get", func(db *unitdb.DB, id []byte) error {
		_, err := db.Get(unitdb.NewQuery([]byte("a.b")))
		return err
	}},
	{"Delete", func(db *unitdb.DB, id []byte) error { return db.Delete(append([]byte(nil), id...), []byte("a.b")) }},
	{"DeleteEntry", func(db *unitdb.DB, id []byte) error {
		return db.DeleteEntry(unitdb.NewEntry([]byte("a.b"), nil).WithID(append([]byte(nil), id...)))
	}},
	{"Batch", func(db *unitdb.DB, id []byte) error {
		return db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error { return b.Put([]byte("a.b"), []byte("late")) })
	}},
	{"Sync", func(db *unitdb.DB, id []byte) error { return db.Sync() }},
	{"Close", func(db *unitdb.DB, id []byte) error { return db.Close() }},
}

// closed calls every operation after Close of every history.
func closed(x *vexp.X) {
	n := depth(x, 3, 5)
	bg := flag(x, "bg")
	h := pickOps(x, []string{"putA", "putIDA", "ticksync", "tick", "batchAAB", "delOld", "reopen"}, n)
	first := x.Pick(len(afterClose), "call")
	second := x.Pick(len(afterClose), "call")
	x.AddKey("then %s, %s", afterClose[first].name, afterClose[second].name)
	s := newSess(x, "a.b", "a.c")
	if !bg {
		s.opts = append(s.opts, noBackground())
	}
	s.in(vrt.Options{}, func() {
		s.open()
		for _, o := range h {
			s.do(o)
		}
		id := s.db.NewID()
		if l := s.withID(true); len(l) > 0 {
			id = l[0].id
		}
		s.close()
		old := s.db
		for _, i := range []int{first, second} {
			c := afterClose[i]
			if err := c.fn(old, id); err == nil {
				s.w.Fail("closed-"+c.name, "%s on the closed database reported success", c.name)
			}
		}
		// calls without an error result only have to return
		old.Count()
		old.FileSize()
		old.NewContract()
		s.tick(logTime * 3)
		// and the owner that comes next is not disturbed
		s.open()
		if err := afterClose[first].fn(old, id); err == nil {
			s.w.Fail("closed-"+afterClose[first].name, "%s on the closed database reported success after it was opened again", afterClose[first].name)
		}
		s.checkAll(0, 1)
		s.put("a.b")
		s.synced()
		s.checkAll(0, 1)
		s.checkCount()
		s.close()
	})
	x.Distinct(x.GetKey())
}

// closing runs Close against other calls under every schedule within the bound.
func closing(pre []string, calls []string, opt vrt.Options) func(x *vexp.X) {
	return func(x *vexp.X) {
		p := pre[x.Pick(len(pre), "preset")]
		call := calls[x.Pick(len(calls), "call")]
		x.Key("%s: Close and %s", p, call)
		s := newSess(x, "a.b", "a.c")
		opt.Sched = true
		s.in(opt, func() {
			c := newConc(s)
			w := s.w
			w.SetQuiet(true)
			s.open()
			presets[p](c)
			w.SetQuiet(false)
			var must, may []string
			first := c.target(0)
			h1 := w.Go("closer", func() {
				err := s.db.Close()
				if call != "close" {
					c.fail("Close", err)
				} else if err == nil {
					must = append(must, "closed")
				}
			})
			gone := ""
			h2 := w.Go("client", func() {
				switch call {
				case "put":
					may = append(may, "x1")
					if s.db.Put([]byte("a.b"), []byte("x1")) == nil {
						must = append(must, "x1")
					}
				case "batch":
					may = append(may, "x1", "x2")
					err := s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
						if err := b.Put([]byte("a.b"), []byte("x1")); err != nil {
							return err
						}
						return b.Put([]byte("a.b"), []byte("x2"))
					})
					if err == nil {
						must = append(must, "x1", "x2")
					}
				case "delete":
					if first != nil {
						gone = first.payload
						if s.db.Delete(append([]byte(nil), first.id...), []byte("a.b")) == nil {
							must = append(must, "-"+gone)
						}
					}
				case "query":
					s.db.Get(unitdb.NewQuery([]byte("a.b")))
				case "sync":
					s.db.Sync()
				case "close":
					if s.db.Close() == nil {
						must = append(must, "closed")
					}
				case "open":
					if db, err := unitdb.Open(dir, s.opts...); err == nil {
						c.fail("Close", db.Close())
					}
				}
			})
			w.Join(h1, h2)
			w.SetQuiet(true)
			if call == "close" && len(must) != 1 {
				w.Fail("second-close", "%d of two calls of Close reported success", len(must))
			}
			s.open()
			got, err := s.query(unitdb.NewQuery([]byte("a.b")), 1000)
			c.fail("Get", err)
			in := map[string]int{}
			for _, g := range got {
				in[g]++
				if in[g] > 1 {
					w.Fail("twice", "%s after Close and reopen", short(got))
				}
				if c.by[g] == nil && !contains(may, g) {
					w.Fail("unexpected", "%s after Close and reopen", short(got))
				}
			}
			for _, m := range c.msgs {
				if m.topic == "a.b" && in[m.payload] == 0 && m.payload != gone {
					w.Fail("lost", "%s lacks %s, stored before Close", short(got), m.payload)
				}
			}
			for _, m := range must {
				if m[0] == 'x' && in[m] == 0 {
					w.Fail("lost", "%s lacks %s, whose put racing with Close reported success", short(got), m)
				}
				if m[0] == '-' && in[m[1:]] != 0 {
					w.Fail("undeleted", "%s has %s, whose delete racing with Close reported success", short(got), m[1:])
				}
			}
			if call == "batch" && in["x1"] != in["x2"] {
				w.Fail("half", "%s has half of the batch", short(got))
			}
			s.db.Close()
			w.Note(short(got))
		})
	}
}

// opening lets several threads open the database at once.
func opening(x *vexp.X) {
	threads := 2 + x.Pick(2, "threads")
	old := x.Pick(2, "existing") == 1
	x.Key("%d threads, existing %v", threads, old)
	s := newSess(x, "a.b", "a.c")
	s.in(vrt.Options{Sched: true}, func() {
		w := s.w
		w.SetQuiet(true)
		if old {
			s.open()
			s.put("a.b")
			s.close()
		}
		w.SetQuiet(false)
		held, wins := 0, 0
		var hs []*vrt.Handle
		for i := 0; i < threads; i++ {
			hs = append(hs, w.Go("opener", func() {
				db, err := unitdb.Open(dir, s.opts...)
				if err != nil {
					return
				}
				held++
				wins++
				if held > 1 {
					w.Fail("two-owners", "two calls of Open succeeded at once")
				}
				_, err = db.Get(unitdb.NewQuery([]byte("a.b")))
				s.err("get", err, "Get")
				held--
				s.err("close", db.Close(), "Close")
			}))
		}
		w.Join(hs...)
		w.SetQuiet(true)
		if wins == 0 {
			w.Fail("open-refused", "no call of Open succeeded")
		}
		w.Note(string(rune('0' + wins)))
		s.open()
		s.checkAll(0)
		s.close()
	})
}

func contains(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

// failedOpen lets every file operation of Open fail; the directory must stay usable.
func failedOpen(x *vexp.X) {
	n := x.Pick(depth(x, 3, 5)+1, "length")
	h := pickOps(x, []string{"putA", "ticksync", "batchAAB", "tick", "put5A"}, n)
	crash := flag(x, "crash")
	long := []int{1, 3, 1000000}[x.Pick(3, "faults")]
	x.AddKey("%d faults", long)
	s := newSess(x, "a.b", "a.c")
	s.in(vrt.Options{}, func() {
		if n == 0 {
			return // the first Open of all fails
		}
		s.open()
		for _, o := range h {
			s.do(o)
		}
		if !crash {
			s.close()
		}
	})
	if crash {
		s.atCrash(len(s.fs.Ops))
	}
	base := s.clone(s.fs.Clone())
	calls := 0
	probe := base.clone(base.fs.Clone())
	probe.in(vrt.Options{}, func() {
		from := probe.fs.Calls
		probe.open()
		calls = probe.fs.Calls - from
	})
	key := x.GetKey()
	for k := 1; k <= calls; k++ {
		c := base.clone(base.fs.Clone())
		c.in(vrt.Options{}, func() {
			c.fs.FaultAt = c.fs.Calls + k
			c.fs.FaultN = long
			c.faulty = true
			ok := c.open()
			x.Key("%s; fault at call %d of Open: %v", key, k, c.fs.Faulted)
			c.faulty = false
			c.fs.FaultAt = 0
			x.Count("faults", 1)
			if !ok {
				if !c.open() {
					return
				}
			}
			c.settle()
			c.put("a.b")
			c.synced()
			c.checkAll(0, 2)
			c.close()
			c.open()
			c.checkAll(0, 2)
			c.close()
		})
	}
	x.Distinct(key)
}

func c12() []vexp.Scenario {
	calls := []string{"put", "batch", "delete", "query", "sync", "close", "open"}
	return []vexp.Scenario{
		{Name: "owners", Desc: "all sequences of opening, closing and killing two owners of one directory", Weight: 2, Body: owners},
		{Name: "closed", Desc: "every pair of calls after Close of every history", Weight: 2, Body: closed},
		{Name: "closing", Desc: "Close against one other call under every schedule within the bound", Quick: 1, Deep: 2, Weight: 4,
			Body: closing([]string{"empty", "memory", "logged", "both"}, calls, vrt.Options{TimeChoice: true})},
		{Name: "closing-deep", Desc: "the same with more deviations and quiet timers", Quick: 2, Deep: 3, Weight: 3,
			Body: closing([]string{"memory", "logged"}, calls, vrt.Options{})},
		{Name: "opening", Desc: "two or three threads open the directory at once", Quick: 2, Deep: 3, Weight: 2, Body: opening},
		{Name: "failed-open", Desc: "every file operation of Open fails once, three times or for good, on every kind of directory", Weight: 3, Body: failedOpen},
	}
}
