package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/unit-io/unitdb/memdb"
	"vrt"
	"vrt/vexp"
)

const mdir = "/mem"

// logTick is more than the time after which an entry is in the log, blockTick more than the life of a current time block.
const (
	logTick   = 40 * time.Millisecond
	blockTick = 2100 * time.Millisecond
)

// mem drives one in-memory block store against a map of time blocks.
type mem struct {
	x      *vexp.X
	w      *vrt.World
	fs     *vrt.FS
	db     *memdb.DB
	blocks map[int64]map[uint64]string
	n      int
	clock  time.Duration
	size   func(n int) int
	opts   []memdb.Options
	slow   time.Duration   // added to the time after which entries are in the log and time blocks over
	held   [][2][]byte     // returned data and what it was
	gone   []int64         // freed time IDs
	keys   []uint64        // keys ever used
	mixed  map[uint64]bool // keys stored by a batch; which of several stored values is the newest is open after recovery
}

func newMem(x *vexp.X) *mem {
	return &mem{x: x, fs: vrt.NewFS(), blocks: map[int64]map[uint64]string{}, mixed: map[uint64]bool{}}
}

func (m *mem) in(opt vrt.Options, body func()) {
	opt.FS, opt.Start = m.fs, m.clock
	r := m.x.World(opt, func(w *vrt.World) {
		m.w = w
		body()
	})
	m.clock = r.World.PeekNow().Sub(vrt.BaseTime) + time.Second
}

func (m *mem) ok(err error, format string, args ...interface{}) {
	if err != nil {
		m.w.Fail("error", "%s: %v", fmt.Sprintf(format, args...), err)
	}
}

func (m *mem) open() {
	db, err := memdb.Open(append([]memdb.Options{memdb.WithLogFilePath(mdir)}, m.opts...)...)
	m.ok(err, "Open")
	m.db = db
}

func (m *mem) data() string {
	m.n++
	l := 6
	if m.size != nil {
		l = m.size(m.n)
	}
	if l == 0 {
		return ""
	}
	return string(fill(fmt.Sprintf("v%04d-", m.n), l))
}

func (m *mem) set(tid int64, key uint64, val string) {
	if m.blocks[tid] == nil {
		m.blocks[tid] = map[uint64]string{}
	}
	m.blocks[tid][key] = val
	for _, k := range m.keys {
		if k == key {
			return
		}
	}
	m.keys = append(m.keys, key)
}

func scribble(b []byte) {
	for i := range b {
		b[i] = 'X'
	}
}

func (m *mem) put(key uint64) {
	v := m.data()
	buf := []byte(v)
	tid, err := m.db.Put(key, buf)
	m.ok(err, "Put(%d)", key)
	scribble(buf)
	m.set(tid, key, v)
}

func (m *mem) batch(keys ...uint64) {
	var tid int64
	var vals []string
	m.ok(m.db.Batch(func(b *memdb.Batch, done *vrt.Chan[struct{}]) error {
		tid = b.TimeID()
		for _, k := range keys {
			v := m.data()
			buf := []byte(v)
			vals = append(vals, v)
			if err := b.Put(k, buf); err != nil {
				return err
			}
			scribble(buf)
		}
		return nil
	}), "Batch(%v)", keys)
	for i, k := range keys {
		m.mixed[k] = true
		m.set(tid, k, vals[i])
	}
}

// ubatch commits or aborts an unmanaged batch.
func (m *mem) ubatch(commit bool, keys ...uint64) {
	b := m.db.NewBatch()
	tid := b.TimeID()
	var vals []string
	for _, k := range keys {
		v := m.data()
		vals = append(vals, v)
		m.ok(b.Put(k, []byte(v)), "Batch.Put(%d)", k)
	}
	m.ok(b.Write(), "Batch.Write")
	if !commit {
		m.ok(b.Abort(), "Batch.Abort")
		m.gone = append(m.gone, tid)
		return
	}
	m.ok(b.Commit(), "Batch.Commit")
	for i, k := range keys {
		m.mixed[k] = true
		m.set(tid, k, vals[i])
	}
}

func (m *mem) failBatch(keys ...uint64) {
	e := fmt.Errorf("no")
	err := m.db.Batch(func(b *memdb.Batch, done *vrt.Chan[struct{}]) error {
		m.gone = append(m.gone, b.TimeID())
		for _, k := range keys {
			m.ok(b.Put(k, []byte(m.data())), "Batch.Put(%d)", k)
		}
		return e
	})
	if err != e {
		m.w.Fail("batch-error", "Batch whose function failed returned %v", err)
	}
}

func (m *mem) has(key uint64) bool {
	for _, b := range m.blocks {
		if _, ok := b[key]; ok {
			return true
		}
	}
	return false
}

func (m *mem) del(key uint64) {
	err := m.db.Delete(key)
	if m.has(key) {
		m.ok(err, "Delete(%d)", key)
	} else if err == nil {
		m.w.Fail("delete-missing", "Delete(%d) of a key that is not stored succeeded", key)
	}
	for tid, b := range m.blocks {
		delete(b, key)
		if len(b) == 0 {
			delete(m.blocks, tid)
		}
	}
}

func (m *mem) tids() []int64 {
	var out []int64
	for t := range m.blocks {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (m *mem) free(newest bool) {
	ts := m.tids()
	if len(ts) == 0 {
		return
	}
	t := ts[0]
	if newest {
		t = ts[len(ts)-1]
	}
	m.ok(m.db.Free(t), "Free(%d)", t)
	delete(m.blocks, t)
	m.gone = append(m.gone, t)
}

// learn takes over the blocks of a store just opened, whose content must be that of the model.
func (m *mem) learn() {
	want := map[uint64]string{}
	any := map[uint64]map[string]bool{}
	for _, t := range m.tids() {
		for k, v := range m.blocks[t] {
			want[k] = v
			if any[k] == nil {
				any[k] = map[string]bool{}
			}
			any[k][v] = true
		}
	}
	got := map[int64]map[uint64]string{}
	seen := map[uint64]bool{}
	last := int64(-1)
	m.ok(m.db.All(func(tid int64, keys []uint64) (bool, error) {
		if tid <= last {
			m.w.Fail("all-order", "All gives block %d after %d", tid, last)
		}
		last = tid
		got[tid] = map[uint64]string{}
		for _, k := range keys {
			v, err := m.db.Lookup(tid, k)
			m.ok(err, "Lookup(%d, %d) of a key given by All", tid, k)
			got[tid][k] = string(v)
			seen[k] = true
		}
		return false, nil
	}), "All")
	for k := range want {
		if !seen[k] {
			m.w.Fail("lost", "key %d is not recovered; model %v", k, m.blocks)
		}
	}
	for k := range seen {
		if _, ok := want[k]; !ok {
			m.w.Fail("unexpected", "key %d is recovered although it is not stored; model %v", k, m.blocks)
		}
	}
	m.blocks = got
	for k, v := range want {
		d, err := m.db.Get(k)
		m.ok(err, "Get(%d) after recovery", k)
		if string(d) != v && !(m.mixed[k] && any[k][string(d)]) {
			m.w.Fail("value", "Get(%d) = %.20q after recovery, want %.20q", k, d, v)
		}
	}
}

func (m *mem) reopen() {
	m.ok(m.db.Close(), "Close")
	m.open()
	m.learn()
}

// iterate checks the iteration over all blocks; everything but the current block must be given.
func (m *mem) iterate(free bool) {
	m.w.Sleep(blockTick + m.slow)
	got := map[int64]string{}
	last := int64(-1)
	var first int64
	m.ok(m.db.BlockIterator(func(tid int64, keys []uint64) (bool, error) {
		if tid <= last {
			m.w.Fail("iterator-order", "BlockIterator gives block %d after %d", tid, last)
		}
		if last == -1 {
			first = tid
		}
		last = tid
		got[tid] = ks(keys)
		return false, nil
	}), "BlockIterator")
	want := map[int64]string{}
	for t, b := range m.blocks {
		var l []uint64
		for k := range b {
			l = append(l, k)
		}
		want[t] = ks(l)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		m.w.Fail("iterator", "BlockIterator gives %v, want %v", got, want)
	}
	if free && last != -1 {
		m.ok(m.db.Free(first), "Free(%d)", first)
		delete(m.blocks, first)
		m.gone = append(m.gone, first)
	}
}

func ks(l []uint64) string {
	l = append([]uint64(nil), l...)
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return fmt.Sprint(l)
}

// check compares everything with the model.
func (m *mem) check() {
	for _, k := range append([]uint64{999}, m.keys...) {
		var want *string
		for _, t := range m.tids() {
			if v, ok := m.blocks[t][k]; ok {
				v := v
				want = &v
			}
		}
		got, err := m.db.Get(k)
		switch {
		case want == nil && err == nil:
			m.w.Fail("get", "Get(%d) = %.20q of a key that is not stored; model %v", k, got, m.blocks)
		case want != nil && err != nil:
			m.w.Fail("get", "Get(%d): %v, want %.20q", k, err, *want)
		case want != nil && string(got) != *want:
			m.w.Fail("get", "Get(%d) = %.20q, want %.20q", k, got, *want)
		}
		if want != nil {
			if len(m.held) < 6 {
				m.held = append(m.held, [2][]byte{got, []byte(*want)})
			} else {
				scribble(got)
				if again, err := m.db.Get(k); err != nil || string(again) != *want {
					m.w.Fail("alias", "Get(%d) = %.20q (%v) after the data returned before was overwritten, want %.20q", k, again, err, *want)
				}
			}
		}
		for _, t := range m.tids() {
			v, ok := m.blocks[t][k]
			d, err := m.db.Lookup(t, k)
			if ok != (err == nil) || ok && string(d) != v {
				m.w.Fail("lookup", "Lookup(%d, %d) = %.20q, %v; model %v", t, k, d, err, m.blocks)
			}
		}
		for _, t := range m.gone {
			if m.blocks[t] != nil {
				continue
			}
			if d, err := m.db.Lookup(t, k); err == nil {
				m.w.Fail("lookup", "Lookup(%d, %d) = %.20q in a time block that was freed", t, k, d)
			}
		}
	}
	for _, h := range m.held {
		if string(h[0]) != string(h[1]) {
			m.w.Fail("alias", "data returned earlier changed from %.20q to %.20q", h[1], h[0])
		}
	}
	var all []uint64
	for _, b := range m.blocks {
		for k := range b {
			all = append(all, k)
		}
	}
	if got, want := ks(m.db.Keys()), ks(all); got != want {
		m.w.Fail("keys", "Keys() = %s, want %s", got, want)
	}
	if got := m.db.Size(); got != int64(len(all)) {
		m.w.Fail("size", "Size() = %d, want %d; model %v", got, len(all), m.blocks)
	}
	m.x.Count("comparisons", 1)
}

// until sleeps until the next time that is d past a full second.
func until(w *vrt.World, d time.Duration) {
	now := w.PeekNow()
	t := now.Truncate(time.Second).Add(d)
	for !t.After(now) {
		t = t.Add(time.Second)
	}
	w.Sleep(t.Sub(now))
}

func (m *mem) do(op string) {
	switch op {
	case "put1":
		m.put(1)
	case "put2":
		m.put(2)
	case "put3":
		m.put(1 << 40)
	case "del1":
		m.del(1)
	case "del2":
		m.del(2)
	case "batch12":
		m.batch(1, 2)
	case "batch34":
		m.batch(3, 4, 3)
	case "ubatch":
		m.ubatch(true, 2, 5)
	case "abort":
		m.ubatch(false, 1, 6)
	case "failbatch":
		m.failBatch(2, 6)
	case "freeold":
		m.free(false)
	case "freenew":
		m.free(true)
	case "tick":
		m.w.Sleep(logTick)
	case "roll":
		m.w.Sleep(blockTick + m.slow)
	case "before":
		until(m.w, 995*time.Millisecond)
	case "after":
		until(m.w, 1005*time.Millisecond)
	case "reset":
		m.reset()
	case "iter":
		m.iterate(false)
	case "iterfree":
		m.iterate(true)
	case "reopen":
		m.reopen()
	default:
		panic(op)
	}
}

// reset reopens the store with the option to drop what was logged.
func (m *mem) reset() {
	m.ok(m.db.Close(), "Close")
	opts := m.opts
	m.opts = append(append([]memdb.Options(nil), opts...), memdb.WithLogReset())
	m.open()
	m.opts = opts
	for _, t := range m.tids() {
		m.gone = append(m.gone, t)
	}
	m.blocks = map[int64]map[uint64]string{}
	m.learn()
}

// memConfigs are options under which every guarantee holds as well as under the defaults.
var memConfigs = []struct {
	name string
	slow time.Duration
	opts []memdb.Options
}{
	{"memory of 512 bytes", 8 * time.Second, []memdb.Options{memdb.WithMemdbSize(512)}},
	{"log buffers of 512 bytes", 8 * time.Second, []memdb.Options{memdb.WithBufferSize(512)}},
	{"512 bytes for both", 8 * time.Second, []memdb.Options{memdb.WithBufferSize(512), memdb.WithMemdbSize(512)}},
	{"log written every millisecond", 0, []memdb.Options{memdb.WithLogInterval(time.Millisecond)}},
	{"log written every two seconds", 4 * time.Second, []memdb.Options{memdb.WithLogInterval(2 * time.Second)}},
	{"time blocks of 10 ms", 0, []memdb.Options{memdb.WithTimeBlockInterval(10 * time.Millisecond)}},
	{"time blocks of seven seconds", 14 * time.Second, []memdb.Options{memdb.WithTimeBlockInterval(7 * time.Second)}},
}

func memOptions(ops []string, quick, deep int) func(x *vexp.X) {
	return func(x *vexp.X) {
		c := memConfigs[x.Pick(len(memConfigs), "options")]
		x.AddKey(c.name)
		memHistoryOpts(ops, quick, deep, func(n int) int { return []int{6, 300}[n%2] }, vrt.Options{}, c.opts, c.slow)(x)
	}
}

func memHistory(ops []string, quick, deep int, size func(n int) int, opt vrt.Options) func(x *vexp.X) {
	return memHistoryOpts(ops, quick, deep, size, opt, nil, 0)
}

func memHistoryOpts(ops []string, quick, deep int, size func(n int) int, opt vrt.Options, opts []memdb.Options, slow time.Duration) func(x *vexp.X) {
	return func(x *vexp.X) {
		h := pickOps(x, ops, 1+x.Pick(depth(x, quick, deep), "length"))
		m := newMem(x)
		m.size, m.opts, m.slow = size, opts, slow
		m.in(opt, func() {
			m.open()
			for _, o := range h {
				m.do(o)
				m.check()
			}
			m.iterate(false)
			m.check()
			m.reopen()
			m.check()
			m.ok(m.db.Close(), "Close")
			if _, err := m.db.Get(1); err == nil {
				m.w.Fail("closed", "Get on a closed store succeeded")
			}
			if _, err := m.db.Put(1, []byte("x")); err == nil {
				m.w.Fail("closed", "Put on a closed store succeeded")
			}
			if err := m.db.Close(); err == nil {
				m.w.Fail("closed", "second Close succeeded")
			}
		})
		x.Distinct(x.GetKey())
	}
}

// manyKeys stores every key of a structured set and reads all back, so that every shard is used.
func manyKeys(x *vexp.X) {
	shift := []uint{0, 8, 31, 32, 56}[x.Pick(5, "shift")]
	x.Key("keys << %d", shift)
	m := newMem(x)
	m.in(vrt.Options{}, func() {
		m.open()
		for i := uint64(0); i < 60; i++ {
			m.put(i << shift)
			if i%20 == 19 {
				m.w.Sleep(blockTick)
			}
		}
		m.put(^uint64(0))
		m.check()
		for i := uint64(0); i < 60; i += 3 {
			m.del(i << shift)
		}
		m.check()
		m.reopen()
		m.check()
		m.iterate(true)
		m.check()
		m.ok(m.db.Close(), "Close")
	})
}

func c17() []vexp.Scenario {
	all := []string{"put1", "put2", "del1", "batch12", "ubatch", "abort", "freeold", "tick", "roll", "iterfree"}
	return []vexp.Scenario{
		{Name: "all", Desc: "all histories over every operation", Weight: 3, Body: memHistory(all, 4, 6, nil, vrt.Options{})},
		{Name: "deletes", Desc: "deletes of keys in several time blocks, and freeing", Weight: 3, Body: memHistory([]string{"put1", "put2", "del1", "roll", "freeold", "freenew"}, 6, 7, nil, vrt.Options{})},
		{Name: "batches", Desc: "batches that share keys with single puts", Weight: 2, Body: memHistory([]string{"batch12", "batch34", "failbatch", "put1", "del2", "roll", "freenew"}, 4, 6, nil, vrt.Options{MapDesc: true})},
		{Name: "reopens", Desc: "histories with reopenings and iteration", Weight: 2, Body: memHistory([]string{"put1", "put2", "del1", "ubatch", "reopen", "roll", "iter"}, 4, 6, nil, vrt.Options{})},
		{Name: "second-boundary", Desc: "histories just before and after the full second, where the time block changes", Weight: 2, Body: memHistory([]string{"put1", "batch12", "del1", "before", "after", "freeold", "reopen"}, 5, 6, nil, vrt.Options{})},
		{Name: "options", Desc: "histories under other options: memory sizes, log intervals, time block durations", Weight: 2, Body: memOptions([]string{"put1", "put2", "del1", "ubatch", "roll", "iterfree", "reopen"}, 3, 5)},
		{Name: "log-reset", Desc: "histories in which the store is reopened with the option to drop what was logged", Weight: 1, Body: memHistory([]string{"put1", "ubatch", "reset", "del1", "roll", "reopen"}, 4, 6, nil, vrt.Options{})},
		{Name: "sizes", Desc: "data of very different sizes, empty included", Weight: 1, Body: memHistory([]string{"put1", "put2", "batch12", "del1", "tick", "roll"}, 4, 5, func(n int) int { return []int{0, 1, 70000, 13}[n%4] }, vrt.Options{})},
		{Name: "keys", Desc: "every shard and key shape", Body: manyKeys},
	}
}
