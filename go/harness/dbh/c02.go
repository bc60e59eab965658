package main

import (
	"time"

	"github.com/unit-io/unitdb"
	"vrt"
	"vrt/vexp"
)

// reopens explores histories followed by a clean close and reopen, new messages and another reopen.
func reopens(ops []string, quick, deep int, size func(n int) int, opt vrt.Options, extra []unitdb.Options, topics ...string) func(x *vexp.X) {
	return func(x *vexp.X) {
		n := depth(x, quick, deep)
		separate := flag(x, "new-process")
		h := pickOps(x, ops, n)
		s := newSess(x, topics...)
		s.size = size
		if len(extra) > 0 {
			s.patience = 60 // little memory slows the store down
		}
		s.opts = append(s.opts, extra...)
		last := []string{"putA", "batchAAB", "put5A"}[x.Pick(3, "after")]
		s.in(opt, func() {
			s.open()
			for _, o := range h {
				s.do(o)
			}
			if separate {
				s.close()
				return
			}
			s.reopen()
			rest(s, last)
		})
		if separate {
			s.in(opt, func() {
				s.open()
				rest(s, last)
			})
		}
		x.Distinct(x.GetKey(), last)
	}
}

// clockBack: the store is closed (or its process dies once everything is logged) and opened again by a process whose clock is behind.
func clockBack(ops []string, quick, deep int, topics ...string) func(x *vexp.X) {
	return func(x *vexp.X) {
		back := []time.Duration{time.Second, time.Minute, 3 * time.Hour}[x.Pick(3, "back")]
		dies := flag(x, "dies")
		x.AddKey("clock back by %v", back)
		h := pickOps(x, ops, depth(x, quick, deep))
		last := []string{"putA", "batchAAB", "put5A"}[x.Pick(3, "after")]
		s := newSess(x, topics...)
		s.clock = 4 * time.Hour
		s.in(vrt.Options{}, func() {
			s.open()
			for _, o := range h {
				s.do(o)
			}
			if dies {
				s.tick(logTime)
			} else {
				s.close()
			}
		})
		s.clock -= back
		s.in(vrt.Options{}, func() {
			// nothing is written to the files, and counted, before the clock has caught up
			s.open()
			s.checkAll(0, 2)
			s.do(last)
			s.checkAll(0, 2)
			s.synced()
			s.checkAll(0, 3)
			s.reopen()
			s.checkAll(0, 1)
			s.db.Close()
		})
		s.clock += back
		s.in(vrt.Options{}, func() {
			s.open()
			rest(s, last)
		})
		x.Distinct(x.GetKey(), last)
	}
}

func rest(s *sess, last string) {
	s.checkAll(0, 2)
	s.do(last)
	s.checkAll(0, 2)
	s.synced()
	s.checkAll(0, 3)
	s.checkCount()
	s.reopen()
	s.checkAll(0, 1)
	s.checkCount()
	s.db.Close()
}

// configurations are options under which every guarantee holds as well as under the defaults.
var configurations = []struct {
	name string
	opts []unitdb.Options
}{
	{"no background sync (0)", []unitdb.Options{unitdb.WithMaxSyncDuration(time.Second, 0)}},
	{"sync interval -1", []unitdb.Options{unitdb.WithMaxSyncDuration(time.Second, -1)}},
	{"sync every 10ms", []unitdb.Options{unitdb.WithMaxSyncDuration(time.Millisecond, 10)}},
	{"sync every 3 hours", []unitdb.Options{unitdb.WithMaxSyncDuration(time.Hour, 3)}},
	{"buffers of 1 KB", []unitdb.Options{unitdb.WithBufferSize(1 << 10)}},
	{"memory store of 1 KB", []unitdb.Options{unitdb.WithMemdbSize(1 << 10)}},
	{"1 KB for both, free blocks reused at once", []unitdb.Options{unitdb.WithBufferSize(1 << 10), unitdb.WithMemdbSize(1 << 10), unitdb.WithFreeBlockSize(1)}},
	{"free blocks never reused", []unitdb.Options{unitdb.WithFreeBlockSize(1 << 40)}},
	{"encryption with a key", []unitdb.Options{unitdb.WithEncryption(), unitdb.WithEncryptionKey([]byte("0123456789abcdef0123456789abcdef"))}},
	{"background expiry", []unitdb.Options{unitdb.WithBackgroundKeyExpiry()}},
	{"batch write interval", []unitdb.Options{unitdb.WithBatchWriteInterval(time.Millisecond)}},
}

// underOptions explores the histories under every configuration; the store is reopened under the same one.
func underOptions(ops []string, quick, deep int) func(x *vexp.X) {
	return func(x *vexp.X) {
		c := configurations[x.Pick(len(configurations), "options")]
		x.AddKey(c.name)
		reopens(ops, quick, deep, func(n int) int { return []int{5, 700}[n%2] }, vrt.Options{}, c.opts, "a.b", "a.c")(x)
	}
}

func c02() []vexp.Scenario {
	nb := []unitdb.Options{noBackground()}
	return []vexp.Scenario{
		{Name: "histories", Desc: "all histories, close, reopen (same or new process), more messages, reopen", Weight: 3,
			Body: reopens([]string{"putA", "ticksync", "tick", "putB", "batchAAB", "put5A", "reopen"}, 4, 6, nil, vrt.Options{}, nil, "a.b", "a.c")},
		{Name: "deletes", Desc: "the same with deletes", Weight: 2,
			Body: reopens([]string{"put2IDA", "putIDB", "delOld", "delNew", "ticksync", "reopen"}, 5, 6, nil, vrt.Options{}, nb, "a.b", "a.c")},
		{Name: "sizes", Desc: "messages of very different sizes", Weight: 1,
			Body: reopens([]string{"putA", "putB", "ticksync", "batchABAB"}, 4, 6, func(n int) int { return []int{1, 511, 4097, 70000}[n%4] }, vrt.Options{MapDesc: true}, nb, "a.b", "d")},
		{Name: "options", Desc: "histories with deletes under other options: sync intervals, memory sizes, reuse thresholds, encryption, expiry", Weight: 2,
			Body: underOptions([]string{"putIDA", "putB", "delOld", "ticksync", "tick", "reopen", "batchABAB"}, 3, 4)},
		{Name: "clock-back", Desc: "the process that opens the store again has a clock that is behind", Weight: 1,
			Body: clockBack([]string{"putA", "ticksync", "batchAAB", "putIDA", "delOld"}, 3, 5, "a.b", "a.c")},
		{Name: "immediate-close", Desc: "close and reopen directly after each write, at every clock rate", Weight: 1,
			Body: reopens([]string{"putA", "reopen", "batchABAB", "wait"}, 5, 7, nil, vrt.Options{SchedPolicy: 1, NowStep: 10 * time.Microsecond}, nil, "a.b", "x.y.z")},
	}
}
