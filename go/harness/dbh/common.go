// Package main explores the store through its exported API.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/unit-io/unitdb"
	"vrt"
	"vrt/vexp"
)

const dir = "/db"

// logTime is (more than) the time after which a stored message is in the log and its time block may be synced.
const logTime = 1100 * time.Millisecond

type batchFn = func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error

// msg is a message of the reference model.
type msg struct {
	n        int // order of its ID
	topic    string
	payload  string
	contract uint32
	storedAt time.Time     // virtual time of the call
	ttl      time.Duration // 0: never expires
	id       []byte
	group    int // batch it belongs to, 0: none

	// life in terms of the number of file system mutations made before
	start int  // when its put began
	dur   int  // when it was known to be in the log, -1: not yet
	acked bool // its put returned without an error

	delStart int // when its (first) delete began, -1: never
	delDur   int // when its delete was known to be logged, -1: not yet
	delAcked bool
	delGroup int

	unlogged bool // after a crash: nothing but luck kept it

	maybe bool // present or absent, to be settled by the next full query
}

// deleted: a delete returned success.
func (m *msg) deleted() bool { return m.delAcked }

// sess drives one database against the reference model.
type sess struct {
	x        *vexp.X
	w        *vrt.World
	fs       *vrt.FS
	db       *unitdb.DB
	opts     []unitdb.Options
	model    []*msg
	topics   []string
	n        int
	groups   int
	size     func(n int) int // payload length of the n-th message, nil: short
	patience int             // how often to sync again before the count has to be right
	held     []*msg          // not put yet
	faulty   bool            // errors of operations are recorded, not failures
	lastE    error
	clock    time.Duration // virtual time since the base at which the next world starts
	base     *vrt.FS       // file system before the first recorded mutation
}

func newSess(x *vexp.X, topics ...string) *sess {
	return &sess{x: x, fs: vrt.NewFS(), base: vrt.NewFS(), topics: topics, opts: []unitdb.Options{unitdb.WithMutable()}}
}

func noBackground() unitdb.Options { return unitdb.WithMaxSyncDuration(1000*time.Hour, 1) }

// in runs body in a world on the file system of the session.
func (s *sess) in(opt vrt.Options, body func()) {
	opt.FS = s.fs
	opt.Start = s.clock
	r := s.x.World(opt, func(w *vrt.World) {
		s.w = w
		body()
	})
	s.clock = r.World.PeekNow().Sub(vrt.BaseTime) + time.Second
}

// clone copies the session for a branch that continues from another file system.
func (s *sess) clone(fs *vrt.FS) *sess {
	c := *s
	c.fs = fs
	c.base = fs.Clone()
	c.db = nil
	c.model = make([]*msg, len(s.model))
	for i, m := range s.model {
		k := *m
		c.model[i] = &k
	}
	return &c
}

func (s *sess) err(rule string, err error, format string, args ...interface{}) bool {
	s.lastE = err
	if err == nil {
		return false
	}
	if !s.faulty {
		s.w.Fail(rule, "%s: %v", fmt.Sprintf(format, args...), err)
	}
	return true
}

func (s *sess) open() bool {
	db, err := unitdb.Open(dir, s.opts...)
	if s.err("open", err, "Open") {
		return false
	}
	s.db = db
	return true
}

func (s *sess) close() bool {
	err := s.db.Close()
	if s.err("close", err, "Close") {
		return false
	}
	s.flushed()
	return true
}

func (s *sess) reopen() {
	if s.close() {
		s.open()
	}
}

// flushed: everything acknowledged so far is in the log.
func (s *sess) flushed() {
	for _, m := range s.model {
		if m.acked && m.dur < 0 {
			m.dur = len(s.fs.Ops)
		}
		if m.delAcked && m.delDur < 0 {
			m.delDur = len(s.fs.Ops)
		}
	}
}

func (s *sess) payload(n int) string {
	p := fmt.Sprintf("m%04d", n)
	if s.size == nil {
		return p
	}
	l := s.size(n)
	if l < len(p) {
		return p[len(p)-l:]
	}
	b := make([]byte, 0, l)
	b = append(b, p...)
	for i := uint64(1); len(b) < l; i++ {
		x := (i + uint64(n)*7919) * 0x9e3779b97f4a7c15
		b = append(b, byte(x>>56), byte(x>>40), byte(x>>32))
	}
	return string(b[:l])
}

func (s *sess) add(topic string, contract uint32) *msg {
	s.n++
	m := &msg{n: s.n, topic: topic, payload: s.payload(s.n), contract: contract, storedAt: s.w.PeekNow(), start: len(s.fs.Ops), dur: -1, delStart: -1, delDur: -1, maybe: true}
	s.model = append(s.model, m)
	return m
}

func (s *sess) ack(m *msg) { m.acked, m.maybe = true, false }

// put stores one message under topic.
func (s *sess) put(topic string) *msg {
	m := s.add(topic, 0)
	if !s.err("put", s.db.Put([]byte(topic), []byte(m.payload)), "Put(%s)", topic) {
		s.ack(m)
	}
	return m
}

func (s *sess) entry(m *msg) *unitdb.Entry {
	e := unitdb.NewEntry([]byte(m.topic), []byte(m.payload))
	if m.id != nil {
		e = e.WithID(append([]byte(nil), m.id...))
	}
	if m.contract != 0 {
		e = e.WithContract(m.contract)
	}
	if m.ttl != 0 {
		e = e.WithTTL(m.ttl.String())
	}
	return e
}

// putID stores one message with an ID obtained from NewID.
func (s *sess) putID(topic string) *msg {
	m := s.add(topic, 0)
	m.id = s.db.NewID()
	if !s.err("put", s.db.PutEntry(s.entry(m)), "PutEntry(%s)", topic) {
		s.ack(m)
	}
	return m
}

// del deletes a message.
func (s *sess) del(m *msg) {
	if m.delStart < 0 {
		m.delStart = len(s.fs.Ops)
	}
	e := unitdb.NewEntry([]byte(m.topic), nil).WithID(append([]byte(nil), m.id...))
	if m.contract != 0 {
		e = e.WithContract(m.contract)
	}
	if !s.err("delete", s.db.DeleteEntry(e), "Delete(%s of %s)", m.payload, m.topic) {
		m.delAcked = true
		m.maybe = false
	} else if s.faulty {
		m.maybe = true
	}
}

// withID lists the messages that have an ID, oldest first.
func (s *sess) withID(live bool) []*msg {
	var out []*msg
	for _, m := range s.model {
		if m.id != nil && !m.maybe && m.acked && m.deleted() != live {
			out = append(out, m)
		}
	}
	return out
}

// batch stores one message under each of the topics in one batch.
func (s *sess) batch(topics ...string) {
	s.batchDel(nil, topics...)
}

// batchDel stores one message under each of the topics, and deletes messages, in one batch.
func (s *sess) batchDel(dels []*msg, topics ...string) {
	s.groups++
	g := s.groups
	var ms []*msg
	for _, m := range dels {
		if m.delStart < 0 {
			m.delStart = len(s.fs.Ops)
			m.delGroup = g
		}
	}
	err := s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
		for _, t := range topics {
			m := s.add(t, 0)
			m.group = g
			ms = append(ms, m)
			if err := b.Put([]byte(t), []byte(m.payload)); err != nil {
				return err
			}
		}
		for _, m := range dels {
			if err := b.Delete(append([]byte(nil), m.id...), []byte(m.topic)); err != nil {
				return err
			}
		}
		return nil
	})
	if s.err("batch", err, "Batch") {
		for _, m := range dels {
			m.maybe = true
		}
		return
	}
	for _, m := range ms {
		s.ack(m)
		m.dur = len(s.fs.Ops)
	}
	for _, m := range dels {
		m.delAcked, m.maybe = true, false
		m.delDur = len(s.fs.Ops)
	}
}

// batchIDs stores messages with IDs in one batch.
func (s *sess) batchIDs(topics ...string) {
	s.groups++
	var ms []*msg
	err := s.db.Batch(func(b *unitdb.Batch, done *vrt.Chan[struct{}]) error {
		for _, t := range topics {
			m := s.add(t, 0)
			m.group = s.groups
			m.id = s.db.NewID()
			ms = append(ms, m)
			if err := b.PutEntry(s.entry(m)); err != nil {
				return err
			}
		}
		return nil
	})
	if s.err("batch", err, "Batch") {
		return
	}
	for _, m := range ms {
		s.ack(m)
		m.dur = len(s.fs.Ops)
	}
}

// until sleeps until the next time that is d past a full second.
func (s *sess) until(d time.Duration) {
	now := s.w.PeekNow()
	t := now.Truncate(time.Second).Add(d)
	for !t.After(now) {
		t = t.Add(time.Second)
	}
	s.w.Sleep(t.Sub(now))
}

func (s *sess) sync() { s.err("sync", s.db.Sync(), "Sync") }

func (s *sess) tick(d time.Duration) {
	s.w.Sleep(d)
	if d >= logTime && !s.faulty {
		s.flushed()
	}
}

// expired: +1 yes, 0 at the boundary, -1 no
func (s *sess) expired(m *msg) int {
	if m.ttl == 0 {
		return -1
	}
	d := s.w.PeekNow().Sub(m.storedAt) - m.ttl
	switch {
	case d < -1001*time.Millisecond:
		return -1
	case d > time.Millisecond:
		return 1
	}
	return 0
}

// want lists the payloads a query must return, newest first.
func (s *sess) want(match func(m *msg) bool, limit int) []string {
	if limit <= 0 {
		limit = 1000 // default limit
	}
	var out []string
	for i := len(s.model) - 1; i >= 0; i-- {
		m := s.model[i]
		if m.deleted() || m.maybe && !m.acked || !match(m) || s.expired(m) >= 0 {
			continue
		}
		if limit > 0 && len(out) == limit {
			break
		}
		out = append(out, m.payload)
	}
	return out
}

func (s *sess) query(q *unitdb.Query, limit int) ([]string, error) {
	if limit > 0 {
		q = q.WithLimit(limit)
	}
	items, err := s.db.Get(q)
	out := make([]string, len(items))
	for i, it := range items {
		out[i] = string(it)
	}
	s.x.Count("queries", 1)
	return out, err
}

func nq(topic string) *unitdb.Query { return unitdb.NewQuery([]byte(topic)) }

func (s *sess) get(topic string, limit int) []string {
	out, err := s.query(unitdb.NewQuery([]byte(topic)), limit)
	if err != nil {
		s.w.Fail("get-error", "Get(%s, limit %d): %v", topic, limit, err)
	}
	return out
}

func short(l []string) string {
	var o []string
	for i, p := range l {
		if i == 24 {
			break
		}
		if len(p) > 16 {
			p = p[:16] + ".."
		}
		o = append(o, p)
	}
	if len(l) > 24 {
		return fmt.Sprintf("[%s ... (%d items)]", strings.Join(o, " "), len(l))
	}
	return "[" + strings.Join(o, " ") + "]"
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// check compares a query on an exact topic with the model.
func (s *sess) check(topic string, limit int) {
	got := s.get(topic, limit)
	want := s.want(func(m *msg) bool { return m.topic == topic }, limit)
	if !equal(got, want) {
		s.w.Fail("query", "Get(%s, limit %d) = %s, want %s", topic, limit, short(got), short(want))
	}
}

// checkAll compares queries on all topics with the model.
func (s *sess) checkAll(limits ...int) {
	for _, t := range s.topics {
		for _, l := range limits {
			s.check(t, l)
		}
	}
}

// atCrash turns the model into what may be there after the process died when k mutations of the file system were made.
func (s *sess) atCrash(k int) {
	var out []*msg
	for _, m := range s.model {
		if m.start > k {
			continue
		}
		if m.dur < 0 || m.dur > k {
			m.maybe, m.unlogged = true, true
			m.acked = false
		}
		if m.delStart >= 0 {
			switch {
			case m.delStart > k:
				m.delStart, m.delDur, m.delAcked = -1, -1, false
			case m.delDur < 0 || m.delDur > k:
				m.maybe = true
				m.delAcked = false
			}
		}
		m.start = 0
		if m.dur > 0 {
			m.dur = 0
		}
		if m.delStart > 0 {
			m.delStart = 0
		}
		if m.delDur > 0 {
			m.delDur = 0
		}
		out = append(out, m)
	}
	s.model = out
}

// crashes runs fn on a copy of the session for every crash point from the given number of mutations on.
func (s *sess) crashes(from int, tears bool, fn func(c *sess, k, torn int)) {
	ops := s.fs.Ops
	fs := s.base.Clone()
	for k := 0; k <= len(ops); k++ {
		if k >= from {
			c := s.clone(fs.Clone())
			c.atCrash(k)
			fn(c, k, -1)
			if tears && k < len(ops) {
				for _, t := range fs.Tears(ops[k]) {
					g := fs.Clone()
					g.Apply(ops[k], t)
					c := s.clone(g)
					c.atCrash(k)
					fn(c, k, t)
				}
			}
		}
		if k < len(ops) {
			fs.Apply(ops[k], -1)
		}
	}
}

// at describes a crash point.
func (s *sess) at(k, torn int) string {
	o := "end"
	if k < len(s.fs.Ops) {
		o = s.fs.Ops[k].String()
	}
	if torn >= 0 {
		return fmt.Sprintf("crash before mutation %d (%s), torn at %d", k, o, torn)
	}
	return fmt.Sprintf("crash before mutation %d (%s)", k, o)
}

// settle queries every topic and fixes what is uncertain in the model accordingly.
func (s *sess) settle() {
	for _, t := range s.topics {
		got := s.get(t, 100000)
		i := 0
		for j := len(s.model) - 1; j >= 0; j-- {
			m := s.model[j]
			if m.topic != t || m.deleted() || s.expired(m) > 0 {
				continue
			}
			hit := i < len(got) && got[i] == m.payload
			if hit {
				i++
			}
			if m.maybe || s.expired(m) == 0 {
				m.maybe = false
				if hit {
					m.acked, m.unlogged = true, false
					if m.dur < 0 {
						m.dur = len(s.fs.Ops)
					}
					m.delStart = -1
				} else {
					m.acked, m.delAcked = true, true
					if m.unlogged {
						m.id = nil // it never was; its identifier may be given to another message
					}
				}
				continue
			}
			if !hit {
				s.w.Fail("lost", "Get(%s) = %s lacks %s (acknowledged and logged)", t, short(got), m.payload)
			}
		}
		if i != len(got) {
			s.w.Fail("unexpected", "Get(%s) = %s has %q which was never stored, was deleted, is returned twice or is out of order; model %s", t, short(got), got[i], s.dump(t))
		}
	}
}

func (s *sess) dump(t string) string {
	var o []string
	for _, m := range s.model {
		if m.topic == t {
			st := m.payload
			if len(st) > 16 {
				st = st[:16]
			}
			if m.deleted() {
				st += "(deleted)"
			}
			if m.maybe {
				st += "(maybe)"
			}
			o = append(o, st)
		}
	}
	return strings.Join(o, " ")
}

// live counts the messages of the model.
func (s *sess) live() uint64 {
	n := uint64(0)
	for _, m := range s.model {
		if !m.deleted() {
			n++
		}
	}
	return n
}

// synced makes everything synced.
func (s *sess) synced() {
	s.tick(logTime)
	s.sync()
}

// checkCount compares the count with the model once everything is synced.
func (s *sess) checkCount() {
	for i := 0; i < s.patience && s.db.Count() != s.live(); i++ {
		s.synced()
	}
	if c, want := s.db.Count(), s.live(); c != want {
		s.w.Fail("count", "Count() = %d, want %d", c, want)
	}
}

// op is one step of a history.
type op struct {
	name string
	fn   func(s *sess)
}

var allOps = map[string]func(s *sess){
	"putA":       func(s *sess) { s.put(s.topics[0]) },
	"putB":       func(s *sess) { s.put(s.topics[1]) },
	"putC":       func(s *sess) { s.put(s.topics[2]) },
	"tick30":     func(s *sess) { s.tick(30 * time.Second) },
	"tick30sync": func(s *sess) { s.tick(30 * time.Second); s.sync() },
	// an identifier is obtained now, its message is put later
	"reserve": func(s *sess) {
		m := s.add(s.topics[0], 0)
		m.id = s.db.NewID()
		s.held = append(s.held, m)
	},
	"putHeld": func(s *sess) {
		if len(s.held) == 0 {
			return
		}
		m := s.held[0]
		s.held = s.held[1:]
		if !s.err("put", s.db.PutEntry(s.entry(m)), "PutEntry(%s)", m.topic) {
			s.ack(m)
		}
	},
	// 5 ms before and after the next full second
	"before": func(s *sess) { s.until(995 * time.Millisecond) },
	"after":  func(s *sess) { s.until(1005 * time.Millisecond) },
	"putIDA": func(s *sess) { s.putID(s.topics[0]) },
	"putIDB": func(s *sess) { s.putID(s.topics[1]) },
	"put2IDA": func(s *sess) {
		s.putID(s.topics[0])
		s.putID(s.topics[0])
	},
	"put5A": func(s *sess) {
		for i := 0; i < 5; i++ {
			s.put(s.topics[0])
		}
	},
	"skip9": func(s *sess) {
		for i := 0; i < 9; i++ {
			s.db.NewID()
		}
	},
	"put340A": func(s *sess) {
		for i := 0; i < 340; i++ {
			s.put(s.topics[0])
		}
	},
	"put260B": func(s *sess) {
		for i := 0; i < 260; i++ {
			s.put(s.topics[1])
		}
	},
	"batchAAB":  func(s *sess) { s.batch(s.topics[0], s.topics[0], s.topics[1]) },
	"batchABAB": func(s *sess) { s.batch(s.topics[0], s.topics[1], s.topics[0], s.topics[1]) },
	"batchA":    func(s *sess) { s.batch(s.topics[0]) },
	"batchDel": func(s *sess) {
		if l := s.withID(true); len(l) > 0 {
			s.batchDel(l[:1], s.topics[0], s.topics[1])
		} else {
			s.batchDel(nil, s.topics[0], s.topics[1])
		}
	},
	"batchIDA": func(s *sess) { s.batchIDs(s.topics[0], s.topics[0], s.topics[1]) },
	"batchOnlyDel": func(s *sess) {
		if l := s.withID(true); len(l) > 0 {
			s.batchDel(l)
		}
	},
	"delOld": func(s *sess) {
		if l := s.withID(true); len(l) > 0 {
			s.del(l[0])
		}
	},
	"delNew": func(s *sess) {
		if l := s.withID(true); len(l) > 0 {
			s.del(l[len(l)-1])
		}
	},
	"delAgain": func(s *sess) {
		if l := s.withID(false); len(l) > 0 {
			s.del(l[0])
		}
	},
	"delUnknown": func(s *sess) {
		s.err("delete", s.db.Delete(s.db.NewID(), []byte(s.topics[0])), "Delete(unknown)")
	},
	"sync":     func(s *sess) { s.sync() },
	"tick":     func(s *sess) { s.tick(logTime) },
	"ticksync": func(s *sess) { s.tick(logTime); s.sync() },
	"wait":     func(s *sess) { s.tick(20 * time.Millisecond) },
	"reopen":   func(s *sess) { s.reopen() },
}

// pickOps picks a history of exactly n operations.
func pickOps(x *vexp.X, alphabet []string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		o := alphabet[x.Pick(len(alphabet), "op")]
		out = append(out, o)
		x.AddKey("%s", o)
	}
	return out
}

func (s *sess) do(name string) {
	fn := allOps[name]
	if fn == nil {
		panic(name)
	}
	fn(s)
}

// flag picks a boolean of the scenario.
func flag(x *vexp.X, name string) bool {
	if x.Pick(2, name) == 1 {
		x.AddKey("%s", name)
		return true
	}
	return false
}

func depth(x *vexp.X, quick, deep int) int {
	if x.Tier == "thorough" {
		return deep
	}
	return quick
}
