package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/unit-io/unitdb"
	"vrt"
	"vrt/vexp"
)

// cmsg is a message of a concurrent run; times are positions in the log of calls and returns.
type cmsg struct {
	topic, payload   string
	id               []byte
	putStart, putEnd int
	delStart, delEnd int
	batch            bool
}

// conc runs client threads against the store and judges every query by what had returned before it began.
type conc struct {
	*sess
	t    int
	n    int
	msgs []*cmsg
	by   map[string]*cmsg
	ops  map[string]func()
}

func newConc(s *sess) *conc {
	c := &conc{sess: s, by: map[string]*cmsg{}}
	return c
}

func (c *conc) now() int { c.t++; return c.t }

func (c *conc) newMsg(topic string) *cmsg {
	c.n++
	m := &cmsg{topic: topic, payload: fmt.Sprintf("c%03d", c.n), putStart: c.now(), putEnd: -1, delStart: -1, delEnd: -1}
	c.msgs = append(c.msgs, m)
	c.by[m.payload] = m
	return m
}

func (c *conc) fail(what string, err error) {
	if err != nil {
		c.w.Fail("error", "%s: %v", what, err)
	}
}

func (c *conc) cput(topic string) *cmsg {
	m := c.newMsg(topic)
	c.fail("Put", c.db.Put([]byte(topic), []byte(m.payload)))
	m.putEnd = c.now()
	return m
}

func (c *conc) cputID(topic string) *cmsg {
	m := c.newMsg(topic)
	m.id = c.db.NewID()
	c.fail("PutEntry", c.db.PutEntry(unitdb.NewEntry([]byte(topic), []byte(m.payload)).WithID(append([]byte(nil), m.id...))))
	m.putEnd = c.now()
	return m
}

func (c *conc) cbatch(topics ...string) {
	var ms []*cmsg
	c.fail("Batch", c.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
		for _, t := range topics {
			m := c.newMsg(t)
			m.batch = true
			ms = append(ms, m)
			if err := b.Put([]byte(t), []byte(m.payload)); err != nil {
				return err
			}
		}
		return nil
	}))
	for _, m := range ms {
		m.putEnd = c.now()
	}
}

func (c *conc) cdel(m *cmsg) {
	if m == nil {
		return
	}
	if m.delStart < 0 {
		m.delStart = c.now()
	}
	c.fail("Delete", c.db.Delete(append([]byte(nil), m.id...), []byte(m.topic)))
	if m.delEnd < 0 {
		m.delEnd = c.now()
	}
}

// target: the i-th message with an identifier whose put has returned.
func (c *conc) target(i int) *cmsg {
	for _, m := range c.msgs {
		if m.id != nil && m.putEnd >= 0 {
			if i == 0 {
				return m
			}
			i--
		}
	}
	return nil
}

func (c *conc) cquery(topic string, limit int) {
	qs := c.now()
	got, err := c.query(unitdb.NewQuery([]byte(topic)), limit)
	c.fail("Get", err)
	qe := c.now()
	c.judge(topic, limit, got, qs, qe)
	c.w.Note(strings.Join(got, ","))
}

func (c *conc) judge(topic string, limit int, got []string, qs, qe int) {
	pos := map[*cmsg]int{}
	for i, p := range got {
		m := c.by[p]
		switch {
		case m == nil || m.topic != topic:
			c.w.Fail("foreign", "Get(%s) = %s has %q which was not stored there", topic, short(got), p)
		case m.putStart > qe:
			c.w.Fail("foreign", "Get(%s) = %s has %q before it was stored", topic, short(got), p)
		case m.delEnd >= 0 && m.delEnd < qs:
			c.w.Fail("undeleted", "Get(%s) = %s has %q which was deleted before", topic, short(got), p)
		}
		if _, dup := pos[m]; dup {
			c.w.Fail("twice", "Get(%s) = %s has %q twice", topic, short(got), p)
		}
		pos[m] = i
	}
	if limit > 0 && len(got) > limit {
		c.w.Fail("limit", "Get(%s, limit %d) = %s", topic, limit, short(got))
	}
	for _, b := range c.msgs {
		if b.topic != topic || b.batch {
			continue
		}
		must := b.putEnd >= 0 && b.putEnd < qs && (b.delStart < 0 || b.delStart > qe)
		pb, in := pos[b]
		if must && !in && (limit <= 0 || len(got) < limit) {
			c.w.Fail("lost", "Get(%s, limit %d) = %s lacks %q whose put had returned", topic, limit, short(got), b.payload)
		}
		for a, pa := range pos {
			if a.batch || a.putEnd < 0 || a.putEnd > b.putStart {
				continue
			}
			if in && pa < pb {
				c.w.Fail("order", "Get(%s) = %s returns the older %q before %q", topic, short(got), a.payload, b.payload)
			}
			if must && !in {
				c.w.Fail("lost", "Get(%s, limit %d) = %s has %q but not the newer %q", topic, limit, short(got), a.payload, b.payload)
			}
		}
	}
	for _, b := range c.msgs {
		if b.topic == topic && b.batch && b.putEnd >= 0 && b.putEnd < qs {
			if _, in := pos[b]; !in && limit <= 0 {
				c.w.Fail("lost", "Get(%s) = %s lacks %q whose batch had returned", topic, short(got), b.payload)
			}
		}
	}
}

// quiesced compares everything when no other client runs.
func (c *conc) quiesced() {
	for _, t := range c.topics {
		c.cquery(t, 0)
		c.cquery(t, 2)
	}
}

func (c *conc) liveCount() uint64 {
	n := uint64(0)
	for _, m := range c.msgs {
		if m.delEnd < 0 {
			n++
		}
	}
	return n
}

func (c *conc) do(op string) {
	a, b := c.topics[0], c.topics[1]
	switch op {
	case "put":
		c.cput(a)
	case "putB":
		c.cput(b)
	case "putID":
		c.cputID(a)
	case "batch":
		c.cbatch(a, b)
	case "query":
		c.cquery(a, 0)
	case "queryB":
		c.cquery(b, 0)
	case "query1":
		c.cquery(a, 1)
	case "sync":
		c.fail("Sync", c.db.Sync())
	case "del0":
		c.cdel(c.target(0))
	case "del1":
		c.cdel(c.target(1))
	case "count":
		c.db.Count()
		if _, err := c.db.FileSize(); err != nil {
			c.fail("FileSize", err)
		}
	case "tick":
		c.w.Sleep(logTime)
	default:
		panic(op)
	}
}

// presets of the store before the threads start.
var presets = map[string]func(c *conc){
	"empty":  func(c *conc) {},
	"memory": func(c *conc) { c.cputID(c.topics[0]); c.cput(c.topics[0]) },
	"logged": func(c *conc) {
		c.cputID(c.topics[0])
		c.cputID(c.topics[0])
		c.cput(c.topics[1])
		c.w.Sleep(logTime)
	},
	"disk": func(c *conc) {
		c.cputID(c.topics[0])
		c.cputID(c.topics[0])
		c.cput(c.topics[0])
		c.w.Sleep(logTime)
		c.fail("Sync", c.db.Sync())
	},
	// the topic is packed into the first message only, the others leave space for others of their size
	"later": func(c *conc) {
		c.cput(c.topics[0])
		c.w.Sleep(logTime)
		c.fail("Sync", c.db.Sync())
		c.cputID(c.topics[0])
		c.cputID(c.topics[0])
		c.cput(c.topics[0])
		c.w.Sleep(logTime)
		c.fail("Sync", c.db.Sync())
	},
	"both": func(c *conc) {
		c.cputID(c.topics[0])
		c.cput(c.topics[0])
		c.cput(c.topics[0])
		c.w.Sleep(logTime)
		c.fail("Sync", c.db.Sync())
		c.cputID(c.topics[0])
		c.w.Sleep(logTime)
	},
}

// programs runs every combination of thread programs from every preset.
func programs(pre []string, first, second, third []string, opt vrt.Options, opts ...unitdb.Options) func(x *vexp.X) {
	return func(x *vexp.X) {
		p := pre[x.Pick(len(pre), "preset")]
		progs := [][]string{strings.Fields(first[x.Pick(len(first), "thread")]), strings.Fields(second[x.Pick(len(second), "thread")])}
		if third != nil {
			progs = append(progs, strings.Fields(third[x.Pick(len(third), "thread")]))
		}
		x.Key("%s: %v", p, progs)
		runProgs(x, p, progs, opt, opts...)
	}
}

func runProgs(x *vexp.X, p string, progs [][]string, opt vrt.Options, opts ...unitdb.Options) {
	s := newSess(x, "a.b", "a.c")
	s.opts = append(s.opts, opts...)
	opt.Sched = opt.Hold == ""
	s.in(opt, func() {
		c := newConc(s)
		w := s.w
		w.SetQuiet(true)
		s.open()
		presets[p](c)
		w.SetQuiet(false)
		var hs []*vrt.Handle
		for i, pr := range progs {
			pr := pr
			hs = append(hs, w.Go(fmt.Sprintf("client%d", i), func() {
				for _, o := range pr {
					c.do(o)
				}
			}))
		}
		w.Join(hs...)
		w.SetQuiet(true)
		c.quiesced()
		w.Sleep(logTime)
		c.fail("Sync", c.db.Sync())
		c.quiesced()
		if n := c.db.Count(); n != c.liveCount() {
			w.Fail("count", "Count() = %d after everything is synced, want %d", n, c.liveCount())
		}
		s.reopen()
		c.quiesced()
		if n := c.db.Count(); n != c.liveCount() {
			w.Fail("count", "Count() = %d after reopening, want %d", n, c.liveCount())
		}
		c.fail("Close", c.db.Close())
	})
}

// held runs two threads; the first, or a thread of the store, is held once, for longer than the second needs, at any of its steps.
func held(pre, first, second []string, quick, deep int, opts ...unitdb.Options) func(x *vexp.X) {
	return func(x *vexp.X) {
		p := pre[x.Pick(len(pre), "preset")]
		progs := [][]string{strings.Fields(first[x.Pick(len(first), "thread")]), strings.Fields(second[x.Pick(len(second), "thread")])}
		who := []string{"client0", "code0", "code1", "code2"}[x.Pick(4, "who")]
		n := depth(x, quick, deep)
		if who != "client0" {
			n /= 4
		}
		at := 1 + x.Pick(n, "step")
		x.Key("%s: %v, %s is held at its step %d", p, progs, who, at)
		runProgs(x, p, progs, vrt.Options{Hold: who, HoldAt: at, HoldFor: 10 * time.Second}, opts...)
	}
}

func c11() []vexp.Scenario {
	all := []string{"put", "putB", "batch", "putID del0", "del0", "sync", "query query1", "put query", "count"}
	heavy := []string{"sync", "put sync", "del0 sync"}
	tc := vrt.Options{TimeChoice: true}
	return []vexp.Scenario{
		{Name: "pairs", Desc: "every pair of thread programs from every preset; log writer and syncer timers may fire at any point", Quick: 1, Deep: 1, Weight: 4,
			Body: programs([]string{"empty", "memory", "logged", "disk", "both"}, all, all, nil, tc)},
		{Name: "sync", Desc: "syncs against writers, readers and deleters", Quick: 1, Deep: 2, Weight: 4,
			Body: programs([]string{"logged", "both"}, heavy, []string{"query query1", "put query", "batch query", "del0 query", "del1", "put put"}, nil, vrt.Options{}, noBackground())},
		{Name: "deep", Desc: "sync against one other call, more deviations", Quick: 2, Deep: 3, Weight: 4,
			Body: programs([]string{"logged", "both"}, []string{"sync"}, []string{"query", "put", "batch", "del0"}, nil, vrt.Options{}, noBackground())},
		{Name: "triples", Desc: "three threads", Quick: 1, Deep: 1, Weight: 3,
			Body: programs([]string{"logged"}, []string{"sync", "put"}, []string{"put query", "batch", "query"}, []string{"del0", "put", "query1", "sync"}, tc)},
		{Name: "held", Desc: "one thread, or a thread of the store, is held at any of its steps while the other runs all of a program", Weight: 3,
			Body: held([]string{"later", "both", "logged"}, []string{"query", "query1", "put", "putID del0", "batch", "del0", "del1", "sync", "tick sync"},
				[]string{"del1 put tick sync", "del0 put tick sync", "del1 batch sync", "del0 del1 put put tick sync", "put tick sync query", "batch sync query del0", "tick sync put query"},
				120, 300, noBackground(), unitdb.WithFreeBlockSize(1))},
		{Name: "stalls", Desc: "threads that stall for longer than a time block between any two steps", Quick: 1, Deep: 2, Weight: 3,
			Body: programs([]string{"empty", "both"}, []string{"put", "batch", "del0", "query"}, []string{"put query", "sync", "tick sync query"}, nil, vrt.Options{Stalls: []time.Duration{1500 * time.Millisecond}})},
	}
}
