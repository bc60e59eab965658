package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/unit-io/unitdb/wal"
	"vrt"
	"vrt/vexp"
)

const wdir = "/wal"

// wlog is a log of the model; times are numbers of file system mutations made, -1: not happened.
type wlog struct {
	id             int64
	recs           []string
	start, dur     int
	relStart, relD int
	maybe          bool // after an I/O error: there or not
	damaged        bool
}

type walm struct {
	x     *vexp.X
	w     *vrt.World
	fs    *vrt.FS
	base  *vrt.FS
	l     *wal.WAL
	logs  []*wlog
	n     int
	clock time.Duration
	flaky bool
}

func newWalm(x *vexp.X) *walm { return &walm{x: x, fs: vrt.NewFS(), base: vrt.NewFS()} }

func (m *walm) in(opt vrt.Options, body func()) {
	opt.FS, opt.Start = m.fs, m.clock
	r := m.x.World(opt, func(w *vrt.World) {
		m.w = w
		body()
	})
	m.clock = r.World.PeekNow().Sub(vrt.BaseTime) + time.Second
}

func (m *walm) at() int { return len(m.fs.Ops) }

func (m *walm) err(what string, err error) bool {
	if err != nil && !m.flaky {
		m.w.Fail("error", "%s: %v", what, err)
	}
	return err != nil
}

func (m *walm) open(reset bool) bool {
	s := m.at()
	l, err := wal.New(wal.Options{Path: wdir, BufferSize: 1 << 20, Reset: reset})
	if m.err("New", err) {
		return false
	}
	m.l = l
	if reset {
		for _, g := range m.logs {
			if g.relStart < 0 {
				g.relStart, g.relD = s, m.at()
				if m.flaky {
					g.maybe = true
				}
			}
		}
	}
	return true
}

// record sizes: one byte, a typical one, one larger than a page and one that looks like a header.
func (m *walm) data(kind int) string {
	m.n++
	switch kind {
	case 0:
		return string(rune('a' + m.n%26))
	case 1:
		return fmt.Sprintf("record-%04d", m.n)
	case 2:
		return string(fill(fmt.Sprintf("big-%04d", m.n), 9000))
	}
	return "\x01\x00\x12\x00\x00\x00" + fmt.Sprint(m.n)
}

func (m *walm) write(kinds ...int) {
	g := &wlog{id: m.w.PeekNow().UnixNano() + int64(len(m.logs)), start: m.at(), dur: -1, relStart: -1, relD: -1}
	lw, err := m.l.NewWriter()
	if m.err("NewWriter", err) {
		return
	}
	for _, k := range kinds {
		d := m.data(k)
		g.recs = append(g.recs, d)
		buf := []byte(d)
		if m.err("Append", lw.Append(buf).Recv()) {
			return
		}
		scribble(buf)
	}
	m.logs = append(m.logs, g)
	if m.err("SignalInitWrite", lw.SignalInitWrite(g.id).Recv()) {
		g.maybe = true
		return
	}
	g.dur = m.at()
}

func (m *walm) live() []*wlog {
	var out []*wlog
	for _, g := range m.logs {
		if g.relStart < 0 && len(g.recs) > 0 && !g.maybe {
			out = append(out, g)
		}
	}
	return out
}

func (m *walm) apply(newest bool) {
	l := m.live()
	if len(l) == 0 {
		return
	}
	g := l[0]
	if newest {
		g = l[len(l)-1]
	}
	g.relStart = m.at()
	if m.err("SignalLogApplied", m.l.SignalLogApplied(g.id)) {
		g.maybe, g.relStart = true, -1
		return
	}
	g.relD = m.at()
}

func (m *walm) close() { m.err("Close", m.l.Close()) }

// replay reads all logs of a WAL just opened and compares; when take is true uncertain logs are settled.
func (m *walm) replay(take bool) bool {
	type rd struct {
		id   int64
		recs []string
	}
	var got []rd
	r, err := m.l.NewReader()
	if m.err("NewReader", err) {
		return false
	}
	err = r.Iterator(func(id int64) (bool, error) {
		n := r.Count()
		g := rd{id: id}
		for i := uint32(0); i < n; i++ {
			d, ok, err := r.Next()
			if err != nil {
				return false, err
			}
			if !ok {
				m.w.Fail("short", "log %d has %d records, %d were announced", id, i, n)
			}
			g.recs = append(g.recs, string(d))
		}
		if _, ok, _ := r.Next(); ok {
			m.w.Fail("more", "log %d has more than the %d records announced", id, n)
		}
		if n > 0 {
			got = append(got, g)
		}
		return false, nil
	})
	if m.err("Iterator", err) {
		return false
	}
	i := 0
	var keep []*wlog
	for _, g := range m.logs {
		hit := i < len(got) && got[i].id == g.id
		if hit {
			if fmt.Sprint(got[i].recs) != fmt.Sprint(g.recs) && !g.damaged {
				m.w.Fail("content", "log %d is replayed as %.60q, want %.60q", g.id, got[i].recs, g.recs)
			}
			if g.relD >= 0 && !g.maybe {
				m.w.Fail("applied", "log %d is replayed although it was signalled applied", g.id)
			}
			i++
			if take {
				g.dur, g.maybe, g.relStart, g.relD = m.at(), false, -1, -1
			}
			keep = append(keep, g)
			continue
		}
		if g.dur >= 0 && g.relStart < 0 && !g.maybe && !g.damaged && len(g.recs) > 0 {
			m.w.Fail("lost", "log %d is not replayed in its place; got %v", g.id, ids(got, func(r rd) int64 { return r.id }))
		}
		if !take {
			keep = append(keep, g)
		}
	}
	if i < len(got) {
		m.w.Fail("unexpected", "log %d is replayed and was never written, or is out of order; got %v", got[i].id, ids(got, func(r rd) int64 { return r.id }))
	}
	m.logs = keep
	m.x.Count("replays", 1)
	return true
}

func ids[T any](l []T, f func(T) int64) string {
	var o []string
	for _, v := range l {
		o = append(o, fmt.Sprint(f(v)))
	}
	return strings.Join(o, " ")
}

func (m *walm) do(op string) {
	switch op {
	case "write":
		m.write(1)
	case "write3":
		m.write(0, 1, 3)
	case "writebig":
		m.write(2, 1)
	case "writeempty":
		m.write()
	case "apply":
		m.apply(false)
	case "applynew":
		m.apply(true)
	case "applyunknown":
		m.err("SignalLogApplied", m.l.SignalLogApplied(12345))
	case "reset":
		s := m.at()
		m.l.Reset()
		for _, g := range m.logs {
			if g.relStart < 0 {
				g.relStart, g.relD = s, m.at()
				if m.flaky {
					g.maybe = true
				}
			}
		}
	case "tick":
		m.w.Sleep(time.Second)
	case "reopen":
		m.close()
		if m.open(false) {
			m.replay(false)
		}
	case "reopenreset":
		m.close()
		if m.open(true) {
			m.replay(false)
		}
	default:
		panic(op)
	}
}

func (m *walm) clone(fs *vrt.FS) *walm {
	c := *m
	c.fs, c.base, c.l, c.logs = fs, fs.Clone(), nil, nil
	for _, g := range m.logs {
		q := *g
		c.logs = append(c.logs, &q)
	}
	return &c
}

func (m *walm) atCrash(k int) {
	var out []*wlog
	after := func(t *int) {
		if *t > k {
			*t = -1
		} else if *t > 0 {
			*t = 0
		}
	}
	for _, g := range m.logs {
		if g.start > k {
			continue
		}
		g.start = 0
		after(&g.dur)
		after(&g.relStart)
		after(&g.relD)
		out = append(out, g)
	}
	m.logs = out
}

// after goes on after a crash.
func (m *walm) after() {
	m.in(vrt.Options{}, func() {
		m.open(false)
		m.replay(true)
		m.do("write3")
		m.do("apply")
		m.do("write")
		m.do("reopen")
		m.do("reset")
		m.do("reopen")
		m.close()
	})
}

func walHistory(ops []string, quick, deep int, crash bool) func(x *vexp.X) {
	return func(x *vexp.X) {
		h := pickOps(x, ops, 1+x.Pick(depth(x, quick, deep), "length"))
		m := newWalm(x)
		from := 0
		m.in(vrt.Options{}, func() {
			m.open(false)
			for i, o := range h {
				if i == len(h)-1 && i > 0 {
					from = m.at()
				}
				m.do(o)
			}
			if !crash {
				m.do("reopen")
				m.do("reopen")
				m.close()
			}
		})
		key := x.GetKey()
		x.Distinct(key)
		if !crash {
			return
		}
		fs := m.base.Clone()
		ops := m.fs.Ops
		for k := 0; k <= len(ops); k++ {
			if k >= from {
				x.Key("%s; crash before mutation %d", key, k)
				x.Count("crash_points", 1)
				c := m.clone(fs.Clone())
				c.atCrash(k)
				c.after()
				if k < len(ops) {
					for _, t := range fs.Tears(ops[k]) {
						x.Key("%s; crash in mutation %d (%s) torn at %d", key, k, ops[k], t)
						x.Count("crash_points", 1)
						g := fs.Clone()
						g.Apply(ops[k], t)
						c := m.clone(g)
						c.atCrash(k)
						c.after()
					}
				}
			}
			if k < len(ops) {
				fs.Apply(ops[k], -1)
			}
		}
	}
}

// walFaults fails every file operation of the last operation of every history.
func walFaults(ops []string, quick, deep int) func(x *vexp.X) {
	return func(x *vexp.X) {
		h := pickOps(x, ops, 1+x.Pick(depth(x, quick, deep), "length"))
		short := x.Pick(2, "partial write") == 1
		key := x.GetKey()
		for at, n := 0, 1; at < n; at++ {
			m := newWalm(x)
			x.Key("%s; file operation %d of the last one fails (partial %v)", key, at, short)
			x.Count("faults", 1)
			m.in(vrt.Options{}, func() {
				m.open(false)
				for i, o := range h {
					if i == len(h)-1 {
						m.flaky = true
						start := m.fs.Calls
						m.fs.FaultAt, m.fs.FaultN, m.fs.Short = start+at+1, 1, short
						m.do(o)
						n = m.fs.Calls - start
						m.fs.FaultAt = 0
						m.flaky = false
						continue
					}
					m.do(o)
				}
			})
			c := m.clone(m.fs.Clone())
			c.after()
		}
		x.Distinct(key, short)
	}
}

// damage truncates or alters one log file in every way; the others are replayed.
func damage(x *vexp.X) {
	m := newWalm(x)
	m.in(vrt.Options{}, func() {
		m.open(false)
		m.do("write3")
		m.do("write")
		m.do("write3")
		m.close()
	})
	which := x.Pick(3, "file")
	var files []string
	for _, f := range m.fs.Files() {
		if strings.HasSuffix(f, ".log") {
			files = append(files, f)
		}
	}
	f := files[which]
	data := m.fs.Content(f)
	try := func(what string, d []byte) {
		x.Key("log %d %s", which, what)
		x.Count("damaged_files", 1)
		c := m.clone(m.fs.Clone())
		c.fs.SetContent(f, d)
		c.logs[which].damaged = true
		c.in(vrt.Options{}, func() {
			c.open(false)
			var got []int64
			r, err := c.l.NewReader()
			c.err("NewReader", err)
			err = r.Iterator(func(id int64) (bool, error) {
				for i := r.Count(); i > 0; i-- {
					d, ok, err := r.Next()
					if err != nil || !ok {
						return false, nil
					}
					_ = d
				}
				got = append(got, id)
				return false, nil
			})
			c.err("Iterator", err)
			in := map[int64]bool{}
			for _, id := range got {
				in[id] = true
			}
			for i, g := range c.logs {
				if i != which && !in[g.id] {
					c.w.Fail("lost", "log %d is not replayed because log %d is damaged", i, which)
				}
			}
			c.close()
			c.open(false)
			c.close()
		})
		x.Distinct(which, what)
	}
	for n := 0; n < len(data); n++ {
		try(fmt.Sprintf("truncated to %d bytes", n), data[:n])
	}
	for i := range data {
		for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff, data[i] + 1} {
			if v == data[i] {
				continue
			}
			d := append([]byte(nil), data...)
			d[i] = v
			try(fmt.Sprintf("byte %d set to %d", i, v), d)
		}
	}
	try("extended", append(append([]byte(nil), data...), 1, 2, 3))
	// a foreign file does no harm
	x.Key("foreign files")
	c := m.clone(m.fs.Clone())
	for _, n := range []string{"x.log", "readme", "5.tmp", ".log", "12.log.bak"} {
		c.fs.SetContent(wdir+"/"+n, []byte("foreign"))
	}
	c.after()
}

// twoWriters: concurrent writers, appliers and a closer.
func twoWriters(x *vexp.X) {
	progs := []string{"write", "write3 apply", "apply", "apply write"}
	a, b := progs[x.Pick(4, "thread")], progs[x.Pick(4, "thread")]
	x.Key("%s | %s", a, b)
	m := newWalm(x)
	m.in(vrt.Options{Sched: true}, func() {
		w := m.w
		w.SetQuiet(true)
		m.open(false)
		m.do("write")
		m.do("write3")
		w.SetQuiet(false)
		var hs []*vrt.Handle
		for i, p := range []string{a, b} {
			i, p := i, p
			hs = append(hs, w.Go(fmt.Sprint("client", i), func() {
				for _, o := range strings.Fields(p) {
					if o == "apply" {
						// each thread applies its own log
						g := m.logs[i]
						if g.relStart < 0 {
							g.relStart = m.at()
							m.err("SignalLogApplied", m.l.SignalLogApplied(g.id))
							g.relD = m.at()
						}
						continue
					}
					m.do(o)
				}
			}))
		}
		w.Join(hs...)
		w.SetQuiet(true)
		m.close()
		m.open(false)
		// the order of logs written at the same time is open
		want := map[int64]*wlog{}
		for _, g := range m.logs {
			if g.relStart < 0 {
				want[g.id] = g
			}
		}
		r, err := m.l.NewReader()
		m.err("NewReader", err)
		m.err("Iterator", r.Iterator(func(id int64) (bool, error) {
			g := want[id]
			if g == nil {
				w.Fail("unexpected", "log %d is replayed", id)
			}
			delete(want, id)
			var recs []string
			for i := r.Count(); i > 0; i-- {
				d, _, err := r.Next()
				m.err("Next", err)
				recs = append(recs, string(d))
			}
			if fmt.Sprint(recs) != fmt.Sprint(g.recs) {
				w.Fail("content", "log %d is replayed as %.60q, want %.60q", id, recs, g.recs)
			}
			return false, nil
		}))
		for id := range want {
			w.Fail("lost", "log %d is not replayed", id)
		}
		for _, g := range m.logs {
			w.Note(g.start, g.dur, g.relStart, g.relD)
		}
		m.close()
	})
}

func c20() []vexp.Scenario {
	all := []string{"write", "write3", "writebig", "writeempty", "apply", "applynew", "applyunknown", "reset", "tick", "reopen", "reopenreset"}
	return []vexp.Scenario{
		{Name: "histories", Desc: "all histories", Weight: 2, Body: walHistory(all, 4, 5, false)},
		{Name: "crash-points", Desc: "a crash before every file system mutation, and every torn write, of the last operation of every history", Weight: 3, Body: walHistory([]string{"write", "write3", "apply", "applynew", "reset", "reopen", "reopenreset"}, 4, 5, true)},
		{Name: "faults", Desc: "every file operation of the last operation of every history fails", Weight: 2, Body: walFaults([]string{"write3", "write", "apply", "reset", "reopen", "reopenreset"}, 4, 5)},
		{Name: "damage", Desc: "every truncation and many alterations of every log file", Body: damage},
		{Name: "threads", Desc: "two threads that write and apply", Quick: 2, Deep: 3, Body: twoWriters},
	}
}
