package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/unit-io/unitdb/memdb"
	"vrt"
	"vrt/vexp"
)

// crec is an entry of a concurrent run; times are positions in the sequence of calls and returns, -1: not happened.
type crec struct {
	key                uint64
	val                string
	tid                int64
	batch              bool
	dels               int
	putStart, putEnd   int
	delStart, delEnd   int
	freeStart, freeEnd int
}

// conc runs client threads against the block store; every put uses a new key.
type conc struct {
	x      *vexp.X
	w      *vrt.World
	db     *memdb.DB
	t, n   int
	recs   []*crec
	closeS int
	closed bool
}

func (c *conc) now() int { c.t++; return c.t }

func (c *conc) bad(what string, err error) bool {
	if err == nil {
		return false
	}
	if c.closeS == 0 {
		c.w.Fail("error", "%s: %v", what, err)
	}
	return true
}

func (c *conc) add() *crec {
	c.n++
	r := &crec{key: uint64(c.n), val: fmt.Sprintf("v%03d", c.n), putStart: c.now(), putEnd: -1, delStart: -1, delEnd: -1, freeStart: -1, freeEnd: -1}
	c.recs = append(c.recs, r)
	return r
}

func (c *conc) put() *crec {
	r := c.add()
	tid, err := c.db.Put(r.key, []byte(r.val))
	if !c.bad("Put", err) {
		r.tid = tid
		r.putEnd = c.now()
		// freed while it was being put
		for _, q := range c.recs {
			if q != r && q.tid == tid && q.freeStart >= 0 {
				r.freeStart = q.freeStart
			}
		}
	}
	return r
}

func (c *conc) batch(n int) {
	var rs []*crec
	err := c.db.Batch(func(b *memdb.Batch, done *vrt.Chan[struct{}]) error {
		for i := 0; i < n; i++ {
			r := c.add()
			r.batch, r.tid = true, b.TimeID()
			rs = append(rs, r)
			if err := b.Put(r.key, []byte(r.val)); err != nil {
				return err
			}
		}
		return nil
	})
	if c.bad("Batch", err) {
		return
	}
	for _, r := range rs {
		r.putEnd = c.now()
	}
}

func (c *conc) pick(i int) *crec {
	for _, r := range c.recs {
		if r.putEnd >= 0 {
			if i == 0 {
				return r
			}
			i--
		}
	}
	return nil
}

func (c *conc) del(i int) {
	r := c.pick(i)
	if r == nil {
		return
	}
	r.dels++
	if r.delStart < 0 {
		r.delStart = c.now()
	}
	err := c.db.Delete(r.key)
	if err != nil {
		if r.dels == 1 && r.freeStart < 0 && c.closeS == 0 {
			c.w.Fail("error", "Delete(%d): %v", r.key, err)
		}
		return
	}
	if r.delEnd < 0 {
		r.delEnd = c.now()
	}
}

func (c *conc) free(tid int64) {
	s := c.now()
	for _, r := range c.recs {
		if r.tid == tid && r.freeStart < 0 {
			r.freeStart = s
		}
	}
	if c.bad("Free", c.db.Free(tid)) {
		return
	}
	e := c.now()
	for _, r := range c.recs {
		if r.tid == tid && r.freeEnd < 0 && r.putEnd >= 0 && r.putEnd < s {
			r.freeEnd = e
		}
	}
}

func (c *conc) drain() {
	c.bad("BlockIterator", c.db.BlockIterator(func(tid int64, keys []uint64) (bool, error) {
		for _, k := range keys {
			var r *crec
			for _, q := range c.recs {
				if q.key == k {
					r = q
				}
			}
			if r == nil {
				c.w.Fail("foreign", "BlockIterator gives key %d which was never stored", k)
			}
			r.tid = tid
			d, err := c.db.Lookup(tid, k)
			if err == nil && string(d) != r.val {
				c.w.Fail("value", "Lookup(%d) = %q, want %q", k, d, r.val)
			}
			if err != nil && r.delStart < 0 && r.freeStart < 0 && c.closeS == 0 {
				c.w.Fail("lost", "Lookup(%d): %v for a key the iterator gave", k, err)
			}
		}
		// all entries of the block whose put has returned are given
		in := map[uint64]bool{}
		for _, k := range keys {
			in[k] = true
		}
		for _, q := range c.recs {
			if q.tid == tid && q.putEnd >= 0 && q.delStart < 0 && q.freeStart < 0 && !in[q.key] {
				c.w.Fail("iterator-lost", "BlockIterator gives %v of block %d which lacks key %d whose put had returned", keys, tid, q.key)
			}
		}
		c.free(tid)
		return false, nil
	}))
}

func (c *conc) get(r *crec) {
	if r == nil {
		return
	}
	s := c.now()
	d, err := c.db.Get(r.key)
	e := c.now()
	c.w.Note(r.key, err == nil)
	c.judge(r, err == nil, string(d), s, e, "Get")
}

func (c *conc) judge(r *crec, found bool, d string, s, e int, what string) {
	if found {
		switch {
		case d != r.val:
			c.w.Fail("value", "%s(%d) = %q, want %q", what, r.key, d, r.val)
		case r.delEnd >= 0 && r.delEnd < s:
			c.w.Fail("undeleted", "%s(%d) = %q after the key was deleted", what, r.key, d)
		case r.freeEnd >= 0 && r.freeEnd < s:
			c.w.Fail("unfreed", "%s(%d) = %q after its block was freed", what, r.key, d)
		}
		return
	}
	if r.putEnd >= 0 && r.putEnd < s && (r.delStart < 0 || r.delStart > e) && (r.freeStart < 0 || r.freeStart > e) && c.closeS == 0 {
		c.w.Fail("lost", "%s(%d) finds nothing although its put had returned", what, r.key)
	}
}

func (c *conc) list() {
	s := c.now()
	keys := c.db.Keys()
	e := c.now()
	c.w.Note(ks(keys))
	in := map[uint64]bool{}
	for _, k := range keys {
		if in[k] {
			c.w.Fail("twice", "Keys() = %v has %d twice", keys, k)
		}
		in[k] = true
	}
	for _, r := range c.recs {
		c.judge(r, in[r.key], r.val, s, e, "Keys")
	}
	c.db.Size()
}

func (c *conc) all() {
	s := c.now()
	for _, r := range append([]*crec(nil), c.recs...) {
		c.get(r)
	}
	c.list()
	n := int64(0)
	for _, r := range c.recs {
		if r.delStart < 0 && r.freeStart < 0 && r.putEnd >= 0 && r.putEnd < s {
			n++
		}
	}
	if got := c.db.Size(); got < n {
		c.w.Fail("size", "Size() = %d, at least %d keys are stored", got, n)
	}
}

func (c *conc) do(op string) {
	switch op {
	case "put":
		c.put()
	case "batch":
		c.batch(2)
	case "get0":
		c.get(c.pick(0))
	case "get1":
		c.get(c.pick(1))
	case "getnew":
		if n := len(c.recs); n > 0 {
			c.get(c.recs[n-1])
		}
	case "del0":
		c.del(0)
	case "del1":
		c.del(1)
	case "keys":
		c.list()
	case "drain":
		c.drain()
	case "free0":
		if r := c.pick(0); r != nil {
			c.free(r.tid)
		}
	case "freelast":
		var l *crec
		for _, r := range c.recs {
			if r.putEnd >= 0 {
				l = r
			}
		}
		if l != nil {
			c.free(l.tid)
		}
	case "tick":
		c.w.Sleep(logTick)
	case "roll":
		c.w.Sleep(blockTick)
	case "close":
		c.closeS = c.now()
		if err := c.db.Close(); err != nil {
			c.w.Fail("close", "Close: %v", err)
		}
		c.closed = true
	default:
		panic(op)
	}
}

var mpresets = map[string][]string{
	"empty":  nil,
	"memory": {"put", "put"},
	"logged": {"put", "put", "tick"},
	"old":    {"put", "put", "batch", "roll"},
	"mixed":  {"put", "put", "roll", "put", "tick", "put"},
}

func memProgs(pre, first, second, third []string, opt vrt.Options) func(x *vexp.X) {
	return memHeld(pre, first, second, third, 0, opt)
}

// memHeld holds, if hold is not 0, the first thread or a thread of the store once, for longer than the others need, at
// any of its first steps.
func memHeld(pre, first, second, third []string, hold int, opt vrt.Options) func(x *vexp.X) {
	return func(x *vexp.X) {
		p := pre[x.Pick(len(pre), "preset")]
		progs := [][]string{strings.Fields(first[x.Pick(len(first), "thread")]), strings.Fields(second[x.Pick(len(second), "thread")])}
		if third != nil {
			progs = append(progs, strings.Fields(third[x.Pick(len(third), "thread")]))
		}
		x.Key("%s: %v", p, progs)
		opt := opt
		if opt.Hold = ""; hold > 0 {
			opt.Hold = []string{"client0", "code0", "code1", "code2"}[x.Pick(4, "who")]
			n := hold
			if x.Tier == "thorough" {
				n *= 2
			}
			if opt.Hold != "client0" {
				n /= 4
			}
			opt.HoldAt, opt.HoldFor = 1+x.Pick(n, "step"), 10*time.Second
			x.Key("%s: %v, %s is held at its step %d", p, progs, opt.Hold, opt.HoldAt)
		}
		opt.Sched = hold == 0
		opt.FS = vrt.NewFS()
		x.World(opt, func(w *vrt.World) {
			c := &conc{x: x, w: w}
			w.SetQuiet(true)
			open := func() {
				db, err := memdb.Open(memdb.WithLogFilePath(mdir))
				c.bad("Open", err)
				c.db = db
			}
			open()
			for _, o := range mpresets[p] {
				c.do(o)
			}
			w.SetQuiet(false)
			var hs []*vrt.Handle
			for i, pr := range progs {
				pr := pr
				hs = append(hs, w.Go(fmt.Sprintf("client%d", i), func() {
					for _, o := range pr {
						c.do(o)
					}
				}))
			}
			w.Join(hs...)
			w.SetQuiet(true)
			before := c.closeS
			c.closeS = 0
			if !c.closed {
				c.all()
				w.Sleep(blockTick)
				c.all()
				if err := c.db.Close(); err != nil {
					w.Fail("close", "Close: %v", err)
				}
			} else {
				// what was put, deleted or freed while the store was being closed may be there or not
				for _, r := range c.recs {
					if r.putEnd < 0 || r.putEnd > before {
						r.putEnd = -1
					}
					if r.delEnd > before {
						r.delEnd = -1
					}
					if r.freeEnd > before {
						r.freeEnd = -1
					}
				}
			}
			open()
			c.all()
			// everything left can be iterated and freed, and then nothing is left
			w.Sleep(blockTick)
			c.drain()
			for _, r := range c.recs {
				if r.putEnd < 0 {
					r.putEnd, r.delEnd = c.now(), c.now()
				} else if r.delEnd < 0 && r.freeEnd < 0 {
					r.freeEnd = c.now()
				}
				if r.freeStart < 0 {
					r.freeStart = 0
				}
			}
			c.all()
			if err := c.db.Close(); err != nil {
				w.Fail("close", "Close: %v", err)
			}
			open()
			if k := c.db.Keys(); len(k) != 0 {
				w.Fail("unfreed", "keys %v remain after everything was freed", k)
			}
			if err := c.db.Close(); err != nil {
				w.Fail("close", "Close: %v", err)
			}
		})
	}
}

func c19() []vexp.Scenario {
	all := []string{"put get0", "put getnew", "batch", "del0", "del1 keys", "keys", "drain", "free0", "get0 get1"}
	tc := vrt.Options{TimeChoice: true}
	return []vexp.Scenario{
		{Name: "pairs", Desc: "every pair of thread programs from every preset; the log timer may fire at any point", Quick: 1, Deep: 2, Weight: 5,
			Body: memProgs([]string{"memory", "logged", "old", "mixed"}, all, all, nil, tc)},
		{Name: "deep", Desc: "two threads, more deviations", Quick: 2, Deep: 3, Weight: 8,
			Body: memProgs([]string{"mixed"}, []string{"put", "batch", "del0"}, []string{"drain", "freelast", "get0", "del1"}, nil, vrt.Options{})},
		{Name: "deep-memory", Desc: "the same with nothing written to the log yet", Quick: 2, Deep: 3, Weight: 4,
			Body: memProgs([]string{"memory"}, []string{"put", "batch"}, []string{"freelast", "get0", "batch"}, nil, vrt.Options{})},
		{Name: "close", Desc: "closing against every other call", Quick: 1, Deep: 2, Weight: 2,
			Body: memProgs([]string{"empty", "memory", "mixed"}, []string{"close"}, []string{"put get0", "put put", "batch", "del0", "keys", "drain", "free0"}, nil, tc)},
		{Name: "triples", Desc: "three threads", Quick: 1, Deep: 1, Weight: 2,
			Body: memProgs([]string{"mixed"}, []string{"put", "batch"}, []string{"drain", "del0", "freelast"}, []string{"put", "get1", "keys", "del1"}, tc)},
		{Name: "held", Desc: "one thread, or a thread of the store, is held at any of its steps while the other runs all of a program", Weight: 2,
			Body: memHeld([]string{"memory", "old", "mixed"}, []string{"put get0", "put getnew", "batch", "del0", "keys", "drain", "free0", "get0 get1", "roll drain", "close"},
				[]string{"roll drain get0", "put roll drain", "del0 roll keys", "batch free0 get1", "put tick put getnew", "del1 roll drain keys"}, nil, 80, vrt.Options{})},
		{Name: "stalls", Desc: "threads that stall for longer than a time block between any two steps", Quick: 1, Deep: 2, Weight: 2,
			Body: memProgs([]string{"mixed"}, []string{"put", "batch", "del0"}, []string{"put getnew", "roll drain", "drain get0"}, nil, vrt.Options{Stalls: []time.Duration{1500 * time.Millisecond}})},
	}
}
