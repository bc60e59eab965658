package main

import (
	"github.com/unit-io/unitdb"
	"vrt"
	"vrt/vexp"
)

// after runs a crash branch: reopen, compare, write more, reopen, compare.
func after(c *sess, more bool, opt vrt.Options) {
	c.in(opt, func() {
		c.open()
		c.settle()
		c.checkAll(1, 3)
		if !more {
			return
		}
		c.do("batchAAB")
		c.put(c.topics[0])
		c.checkAll(0, 2)
		c.synced()
		c.checkAll(0, 2)
		c.checkCount()
		c.reopen()
		c.checkAll(0, 2)
		c.checkCount()
		c.db.Close()
	})
}

// crashHistory explores a crash at every point of the last operation of every history.
func crashHistory(ops []string, quick, deep int, tears, nested bool, size func(n int) int, opt vrt.Options, prop func(c *sess), topics ...string) func(x *vexp.X) {
	return crashHistoryOpts(ops, quick, deep, tears, nested, size, opt, prop, nil, topics...)
}

func crashHistoryOpts(ops []string, quick, deep int, tears, nested bool, size func(n int) int, opt vrt.Options, prop func(c *sess), extra []unitdb.Options, topics ...string) func(x *vexp.X) {
	return func(x *vexp.X) {
		n := 1 + x.Pick(depth(x, quick, deep), "length")
		bg := extra != nil || flag(x, "bg")
		h := pickOps(x, ops, n)
		s := newSess(x, topics...)
		s.size = size
		if !bg {
			s.opts = append(s.opts, noBackground())
		}
		if extra != nil {
			s.opts = append(s.opts, extra...)
			s.patience = 60
		}
		from := 0
		s.in(opt, func() {
			s.open()
			if n == 1 && !bg {
				from = 0
			}
			for i, o := range h {
				if i == len(h)-1 && (n > 1 || bg) {
					from = len(s.fs.Ops)
				}
				s.do(o)
			}
		})
		key := x.GetKey()
		s.crashes(from, tears, func(c *sess, k, torn int) {
			x.Key("%s; %s", key, s.at(k, torn))
			x.Count("crash_points", 1)
			c0 := c.clone(c.fs.Clone())
			if nested {
				end := 0
				c.in(opt, func() {
					c.open()
					end = len(c.fs.Ops)
				})
				c0.fs.Ops = c.fs.Ops[:end]
				c0.clock = c.clock
				c0.crashes(1, tears, func(d *sess, k2, torn2 int) {
					x.Key("%s; %s; in recovery: %s", key, s.at(k, torn), c0.at(k2, torn2))
					x.Count("nested_crash_points", 1)
					after(d, true, opt)
				})
				return
			}
			after(c, true, opt)
			if prop != nil {
				prop(c)
			}
		})
		x.Distinct(key)
	}
}

// crashOptions explores crashes under every configuration. With little memory messages may take seconds to reach the log.
func crashOptions(quick, deep int) func(x *vexp.X) {
	return func(x *vexp.X) {
		c := configurations[x.Pick(len(configurations), "options")]
		x.AddKey(c.name)
		crashHistoryOpts([]string{"putA", "tick30sync", "tick30", "batchAAB"}, quick, deep, false, false, func(n int) int { return []int{5, 700}[n%2] }, vrt.Options{}, nil, c.opts, "a.b", "a.c")(x)
	}
}

func c03() []vexp.Scenario {
	ops := []string{"putA", "batchAAB", "tick", "ticksync", "putB", "reopen"}
	return []vexp.Scenario{
		{Name: "crash-points", Desc: "a crash before every file system mutation, and every torn write, of the last operation of every history", Weight: 4,
			Body: crashHistory(ops, 4, 6, true, false, nil, vrt.Options{}, nil, "a.b", "a.c")},
		{Name: "crash-long", Desc: "crashes of syncs that extend existing window and index blocks", Weight: 2,
			Body: crashHistory([]string{"put5A", "ticksync"}, 6, 9, true, false, nil, vrt.Options{MapDesc: true}, nil, "a.b", "a.c")},
		{Name: "crash-deletes", Desc: "crashes around deletes", Weight: 2,
			Body: crashHistory([]string{"put2IDA", "delOld", "ticksync", "tick"}, 5, 7, true, false, nil, vrt.Options{}, nil, "a.b", "a.c")},
		{Name: "crash-in-recovery", Desc: "a second crash at every mutation of the recovery from every crash of every history", Weight: 3,
			Body: crashHistory([]string{"put5A", "ticksync", "batchAAB", "tick"}, 3, 5, false, true, nil, vrt.Options{}, nil, "a.b", "a.c")},
		{Name: "second-boundary", Desc: "crashes of histories just before and after the full second, where the time block changes", Weight: 2,
			Body: crashHistory([]string{"putA", "batchA", "before", "after", "sync"}, 4, 6, false, false, nil, vrt.Options{}, nil, "a.b", "a.c")},
		{Name: "crash-options", Desc: "crashes under other options: sync intervals, memory sizes, reuse thresholds, encryption, expiry", Weight: 2,
			Body: crashOptions(3, 5)},
		{Name: "crash-sizes", Desc: "crashes with messages of very different sizes", Weight: 1,
			Body: crashHistory([]string{"putA", "ticksync", "batchAAB"}, 4, 7, true, false, func(n int) int { return []int{1, 600, 9000}[n%3] }, vrt.Options{}, nil, "a.b", "a.c")},
	}
}
