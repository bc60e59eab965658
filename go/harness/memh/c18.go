package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/unit-io/unitdb/memdb"
	"vrt"
	"vrt/vexp"
)

// rec is an entry of the model; times are numbers of file system mutations made, -1: not happened.
type rec struct {
	key                uint64
	val                string
	tid                int64
	group              int
	start, dur         int
	delStart, delDur   int
	freeStart, freeDur int
	aborted            bool
}

func (r *rec) gone() bool { return r.aborted || r.delStart >= 0 || r.freeStart >= 0 }

// cmem drives the block store for crashes; every put uses a new key.
type cmem struct {
	x      *vexp.X
	w      *vrt.World
	fs     *vrt.FS
	base   *vrt.FS
	db     *memdb.DB
	recs   []*rec
	n      int
	groups int
	clock  time.Duration
	size   func(n int) int
}

func newCmem(x *vexp.X) *cmem { return &cmem{x: x, fs: vrt.NewFS(), base: vrt.NewFS()} }

func (m *cmem) in(opt vrt.Options, body func()) {
	opt.FS, opt.Start = m.fs, m.clock
	r := m.x.World(opt, func(w *vrt.World) {
		m.w = w
		body()
	})
	m.clock = r.World.PeekNow().Sub(vrt.BaseTime) + time.Second
}

func (m *cmem) ok(err error, format string, args ...interface{}) {
	if err != nil {
		m.w.Fail("error", "%s: %v", fmt.Sprintf(format, args...), err)
	}
}

func (m *cmem) at() int { return len(m.fs.Ops) }

func (m *cmem) open() {
	db, err := memdb.Open(memdb.WithLogFilePath(mdir))
	m.ok(err, "Open")
	m.db = db
}

func (m *cmem) add() *rec {
	m.n++
	l := 6
	if m.size != nil {
		l = m.size(m.n)
	}
	r := &rec{key: uint64(m.n), val: string(fill(fmt.Sprintf("v%04d-", m.n), l)), start: m.at(), dur: -1, delStart: -1, delDur: -1, freeStart: -1, freeDur: -1}
	m.recs = append(m.recs, r)
	return r
}

func (m *cmem) put() {
	r := m.add()
	tid, err := m.db.Put(r.key, []byte(r.val))
	m.ok(err, "Put")
	r.tid = tid
}

func (m *cmem) batch(n int, managed, commit bool) {
	m.groups++
	var rs []*rec
	fill := func(b *memdb.Batch) error {
		for i := 0; i < n; i++ {
			r := m.add()
			r.group, r.tid, r.aborted = m.groups, b.TimeID(), !commit
			rs = append(rs, r)
			if err := b.Put(r.key, []byte(r.val)); err != nil {
				return err
			}
		}
		return nil
	}
	if managed {
		m.ok(m.db.Batch(func(b *memdb.Batch, done *vrt.Chan[struct{}]) error { return fill(b) }), "Batch")
	} else {
		b := m.db.NewBatch()
		m.ok(fill(b), "Batch.Put")
		m.ok(b.Write(), "Batch.Write")
		m.w.Sleep(logTick)
		if !commit {
			m.ok(b.Abort(), "Abort")
			return
		}
		m.ok(b.Commit(), "Commit")
	}
	for _, r := range rs {
		r.dur = m.at()
	}
}

func (m *cmem) live() []*rec {
	var out []*rec
	for _, r := range m.recs {
		if !r.gone() {
			out = append(out, r)
		}
	}
	return out
}

func (m *cmem) del(newest bool) {
	l := m.live()
	if len(l) == 0 {
		return
	}
	r := l[0]
	if newest {
		r = l[len(l)-1]
	}
	r.delStart = m.at()
	m.ok(m.db.Delete(r.key), "Delete(%d)", r.key)
}

func (m *cmem) free(tid int64) {
	s := m.at()
	var rs []*rec
	for _, r := range m.recs {
		if r.tid == tid && !r.aborted && r.freeStart < 0 {
			r.freeStart = s
			rs = append(rs, r)
		}
	}
	m.ok(m.db.Free(tid), "Free(%d)", tid)
	for _, r := range rs {
		r.freeDur = m.at()
	}
}

func (m *cmem) freeOld(newest bool) {
	l := m.live()
	if len(l) == 0 {
		return
	}
	r := l[0]
	for _, q := range l {
		if (q.tid < r.tid) != newest {
			r = q
		}
	}
	m.free(r.tid)
}

func (m *cmem) flushed() {
	for _, r := range m.recs {
		if r.dur < 0 && !r.aborted {
			r.dur = m.at()
		}
		if r.delStart >= 0 && r.delDur < 0 {
			r.delDur = m.at()
		}
	}
}

// drain frees every block given by the iterator, as the store does when it has synced them.
func (m *cmem) drain() {
	var tids []int64
	m.ok(m.db.BlockIterator(func(tid int64, keys []uint64) (bool, error) {
		tids = append(tids, tid)
		m.free(tid)
		return false, nil
	}), "BlockIterator")
}

func (m *cmem) do(op string) {
	switch op {
	case "put":
		m.put()
	case "batch":
		m.batch(2, true, true)
	case "ubatch":
		m.batch(2, false, true)
	case "abort":
		m.batch(2, false, false)
	case "delold":
		m.del(false)
	case "delnew":
		m.del(true)
	case "freeold":
		m.freeOld(false)
	case "freenew":
		m.freeOld(true)
	case "tick":
		m.w.Sleep(logTick)
		m.flushed()
	case "roll":
		m.w.Sleep(blockTick)
		m.flushed()
	case "before":
		until(m.w, 995*time.Millisecond)
	case "after":
		until(m.w, 1005*time.Millisecond)
	case "drain":
		m.w.Sleep(blockTick)
		m.flushed()
		m.drain()
	case "reopen":
		m.ok(m.db.Close(), "Close")
		m.flushed()
		m.open()
		m.settle(true)
	default:
		panic(op)
	}
}

// settle compares what a store just opened holds with what may be there, and takes it over.
func (m *cmem) settle(clean bool) {
	got := map[uint64]string{}
	tids := map[uint64]int64{}
	m.ok(m.db.All(func(tid int64, keys []uint64) (bool, error) {
		for _, k := range keys {
			v, err := m.db.Lookup(tid, k)
			m.ok(err, "Lookup(%d, %d) of a key given by All", tid, k)
			if _, dup := got[k]; dup {
				m.w.Fail("twice", "key %d is recovered twice", k)
			}
			got[k], tids[k] = string(v), tid
		}
		return false, nil
	}), "All")
	groups := map[int][2]int{}
	var keep []*rec
	for _, r := range m.recs {
		v, in := got[r.key]
		if in {
			delete(got, r.key)
			switch {
			case v != r.val:
				m.w.Fail("value", "key %d is recovered as %.20q, want %.20q", r.key, v, r.val)
			case r.aborted:
				m.w.Fail("aborted", "key %d of an aborted batch is recovered", r.key)
			case r.delDur >= 0:
				m.w.Fail("undeleted", "key %d is recovered although its delete was logged", r.key)
			case r.freeDur >= 0:
				m.w.Fail("unfreed", "key %d is recovered although its block was freed", r.key)
			}
			r.tid = tids[r.key]
			if !clean {
				r.dur, r.delStart, r.freeStart = m.at(), -1, -1
			}
			d, err := m.db.Get(r.key)
			if err != nil || string(d) != r.val {
				m.w.Fail("get", "Get(%d) = %.20q, %v after recovery, want %.20q", r.key, d, err, r.val)
			}
			keep = append(keep, r)
		} else if r.dur >= 0 && !r.gone() {
			m.w.Fail("lost", "key %d was logged and is not recovered", r.key)
		}
		if r.group != 0 && !r.gone() {
			g := groups[r.group]
			if in {
				g[0]++
			} else {
				g[1]++
			}
			groups[r.group] = g
		}
	}
	for g, c := range groups {
		if c[0] > 0 && c[1] > 0 {
			m.w.Fail("torn-batch", "%d entries of batch %d are recovered and %d are not", c[0], g, c[1])
		}
	}
	for k, v := range got {
		m.w.Fail("unexpected", "key %d (%.20q) is recovered and was never stored", k, v)
	}
	if !clean {
		m.recs = keep
	}
	m.same()
}

// same compares listing and count with the model.
func (m *cmem) same() {
	var want []uint64
	for _, r := range m.live() {
		want = append(want, r.key)
		d, err := m.db.Get(r.key)
		if err != nil || string(d) != r.val {
			m.w.Fail("get", "Get(%d) = %.20q, %v, want %.20q", r.key, d, err, r.val)
		}
	}
	if g := ks(m.db.Keys()); g != ks(want) {
		m.w.Fail("keys", "Keys() = %s, want %s", g, ks(want))
	}
	if n := m.db.Size(); n != int64(len(want)) {
		m.w.Fail("size", "Size() = %d, want %d", n, len(want))
	}
}

// atCrash turns the model into what may be there when the process died after k mutations.
func (m *cmem) atCrash(k int) {
	var out []*rec
	after := func(t *int) {
		if *t > k {
			*t = -1
		} else if *t > 0 {
			*t = 0
		}
	}
	for _, r := range m.recs {
		if r.start > k {
			continue
		}
		r.start = 0
		after(&r.dur)
		after(&r.delStart)
		after(&r.delDur)
		after(&r.freeStart)
		after(&r.freeDur)
		out = append(out, r)
	}
	m.recs = out
}

func (m *cmem) clone(fs *vrt.FS) *cmem {
	c := *m
	c.fs, c.base, c.db = fs, fs.Clone(), nil
	c.recs = nil
	for _, r := range m.recs {
		q := *r
		c.recs = append(c.recs, &q)
	}
	return &c
}

func (m *cmem) crashes(from int, tears bool, fn func(c *cmem, where string)) {
	ops := m.fs.Ops
	fs := m.base.Clone()
	for k := 0; k <= len(ops); k++ {
		o := "end"
		if k < len(ops) {
			o = ops[k].String()
		}
		if k >= from {
			c := m.clone(fs.Clone())
			c.atCrash(k)
			fn(c, fmt.Sprintf("crash before mutation %d (%s)", k, o))
			if tears && k < len(ops) {
				for _, t := range fs.Tears(ops[k]) {
					g := fs.Clone()
					g.Apply(ops[k], t)
					c := m.clone(g)
					c.atCrash(k)
					fn(c, fmt.Sprintf("crash in mutation %d (%s), torn at %d", k, o, t))
				}
			}
		}
		if k < len(ops) {
			fs.Apply(ops[k], -1)
		}
	}
}

// after opens the store after a crash and goes on.
func (m *cmem) after(opt vrt.Options) {
	m.in(opt, func() {
		m.open()
		m.settle(false)
		for _, o := range []string{"put", "batch", "delold", "tick", "put", "reopen", "put", "roll", "delnew"} {
			m.do(o)
			m.same()
		}
		m.do("drain")
		m.do("reopen")
		if l := m.live(); len(l) != 0 {
			sort.Slice(l, func(i, j int) bool { return l[i].key < l[j].key })
			m.w.Fail("unfreed", "key %d remains after all blocks were freed", l[0].key)
		}
		m.ok(m.db.Close(), "Close")
	})
}

func memCrash(ops []string, quick, deep int, tears, nested bool, size func(n int) int, opt vrt.Options) func(x *vexp.X) {
	return func(x *vexp.X) {
		h := pickOps(x, ops, 1+x.Pick(depth(x, quick, deep), "length"))
		m := newCmem(x)
		m.size = size
		from := 0
		m.in(opt, func() {
			m.open()
			for i, o := range h {
				if i == len(h)-1 && i > 0 {
					from = m.at()
				}
				m.do(o)
				m.same()
			}
		})
		key := x.GetKey()
		m.crashes(from, tears, func(c *cmem, where string) {
			x.Key("%s; %s", key, where)
			x.Count("crash_points", 1)
			if nested {
				d := c.clone(c.fs.Clone())
				d.in(opt, func() {
					d.open()
					d.settle(false)
				})
				c.fs.Ops = d.fs.Ops
				c.clock = d.clock
				c.crashes(1, tears, func(e *cmem, where2 string) {
					x.Key("%s; %s; in recovery: %s", key, where, where2)
					x.Count("nested_crash_points", 1)
					e.after(opt)
				})
				return
			}
			c.after(opt)
		})
		x.Distinct(key)
	}
}

// overwrites: one key that is stored and deleted again and again; the state recovered is that after some
// prefix of the operations which has everything that was logged.
func overwrites(quick, deep int) func(x *vexp.X) {
	return func(x *vexp.X) {
		h := pickOps(x, []string{"put", "del", "tick", "roll", "reopen"}, 1+x.Pick(depth(x, quick, deep), "length"))
		m := newCmem(x)
		type ev struct {
			start, dur int
			val        string // "" deleted
		}
		var evs []*ev
		m.in(vrt.Options{}, func() {
			m.open()
			m.put() // another key, so that the first block is not emptied
			for _, o := range h {
				e := &ev{start: m.at(), dur: -1}
				switch o {
				case "put":
					m.n++
					e.val = fmt.Sprintf("v%04d", m.n)
					evs = append(evs, e)
					_, err := m.db.Put(77, []byte(e.val))
					m.ok(err, "Put")
					continue
				case "del":
					if len(evs) == 0 || evs[len(evs)-1].val == "" {
						continue
					}
					evs = append(evs, e)
					m.ok(m.db.Delete(77), "Delete")
					continue
				case "tick":
					m.w.Sleep(logTick)
				case "roll":
					m.w.Sleep(blockTick)
				case "reopen":
					m.ok(m.db.Close(), "Close")
					m.open()
				}
				for _, e := range evs {
					if e.dur < 0 {
						e.dur = m.at()
					}
				}
				d, err := m.db.Get(77)
				want := ""
				if len(evs) > 0 {
					want = evs[len(evs)-1].val
				}
				if (err == nil) != (want != "") || string(d) != want {
					m.w.Fail("get", "Get = %q, %v, want %q", d, err, want)
				}
			}
		})
		key := x.GetKey()
		fs := m.base.Clone()
		for k := 0; k <= len(m.fs.Ops); k++ {
			x.Key("%s; crash before mutation %d", key, k)
			x.Count("crash_points", 1)
			may := map[string]bool{"": true}
			for _, e := range evs {
				if e.start > k {
					break
				}
				if e.dur >= 0 && e.dur <= k {
					may = map[string]bool{}
				}
				may[e.val] = true
			}
			c := m.clone(fs.Clone())
			c.in(vrt.Options{}, func() {
				c.open()
				d, err := c.db.Get(77)
				if err != nil {
					d = nil
				}
				if !may[string(d)] {
					// the newest value was logged, its delete was not, and an older value comes back
					stale, pending, newest := false, false, ""
					for _, e := range evs {
						if e.start > k {
							break
						}
						if e.dur >= 0 && e.dur <= k {
							newest = e.val
							pending = false
							stale = stale || e.val == string(d)
						} else if e.val == "" {
							pending = true
						}
					}
					if stale && pending && newest != "" && newest != string(d) {
						c.w.Fail("stale-after-unlogged-delete", "Get = %q, %v after recovery, allowed %v", d, err, may)
					}
					c.w.Fail("prefix", "Get = %q, %v after recovery, allowed %v", d, err, may)
				}
				_, err2 := c.db.Put(77, []byte("new"))
				c.ok(err2, "Put")
				c.ok(c.db.Close(), "Close")
				c.open()
				if d, err := c.db.Get(77); err != nil || string(d) != "new" {
					c.w.Fail("get", "Get = %q, %v, want \"new\"", d, err)
				}
				c.ok(c.db.Delete(77), "Delete")
				c.ok(c.db.Close(), "Close")
				c.open()
				if d, err := c.db.Get(77); err == nil {
					c.w.Fail("undeleted", "Get = %q after the key was deleted", d)
				}
				c.ok(c.db.Close(), "Close")
			})
			if k < len(m.fs.Ops) {
				fs.Apply(m.fs.Ops[k], -1)
			}
		}
		x.Distinct(key)
	}
}

// restored: a key deleted from one block, stored again in a later one, and both later blocks freed.
func restored(x *vexp.X) {
	x.Key("put 1 and 2, roll, delete 1, roll, put 1, roll, free the second block, free the third block, reopen")
	m := newCmem(x)
	m.in(vrt.Options{}, func() {
		m.open()
		put := func(k uint64, v string) int64 {
			t, err := m.db.Put(k, []byte(v))
			m.ok(err, "Put")
			return t
		}
		put(1, "old")
		put(2, "x")
		m.w.Sleep(blockTick)
		m.ok(m.db.Delete(1), "Delete")
		t2 := put(3, "y")
		m.w.Sleep(blockTick)
		t3 := put(1, "new")
		m.w.Sleep(blockTick)
		m.ok(m.db.Free(t2), "Free")
		m.ok(m.db.Free(t3), "Free")
		m.ok(m.db.Close(), "Close")
		m.open()
		if d, err := m.db.Get(1); err == nil {
			m.w.Fail("undeleted", "Get(1) = %q after reopening: the value was deleted and the one stored later was freed", d)
		}
		m.ok(m.db.Close(), "Close")
	})
}

func c18() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "crash-points", Desc: "a crash before every file system mutation, and every torn write, of the last operation of every history", Weight: 4,
			Body: memCrash([]string{"put", "batch", "delold", "tick", "roll", "drain", "ubatch", "abort", "reopen"}, 4, 5, true, false, nil, vrt.Options{})},
		{Name: "crash-frees", Desc: "crashes around deletes and freeing of single blocks", Weight: 3,
			Body: memCrash([]string{"put", "delold", "delnew", "roll", "freeold", "freenew"}, 5, 7, false, false, nil, vrt.Options{MapDesc: true})},
		{Name: "crash-in-recovery", Desc: "a second crash at every mutation of the recovery", Weight: 2,
			Body: memCrash([]string{"put", "batch", "delold", "roll"}, 5, 6, false, true, nil, vrt.Options{})},
		{Name: "second-boundary", Desc: "crashes of histories just before and after the full second, where the time block changes", Weight: 2,
			Body: memCrash([]string{"put", "batch", "delold", "before", "after", "freeold"}, 4, 6, false, false, nil, vrt.Options{})},
		{Name: "overwrites", Desc: "one key stored and deleted again and again", Weight: 2, Body: overwrites(5, 7)},
		{Name: "restored", Desc: "a key stored again after a delete", Body: restored},
		{Name: "sizes", Desc: "crashes with data of very different sizes", Weight: 1,
			Body: memCrash([]string{"put", "batch", "tick", "delold"}, 4, 5, true, false, func(n int) int { return []int{6, 700, 20000}[n%3] }, vrt.Options{})},
	}
}
