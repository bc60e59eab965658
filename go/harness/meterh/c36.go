package main

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/unit-io/unitdb/server/internal/pkg/stats"
	"vrt"
	"vrt/vexp"
	"vrt/vnet"
)

// C36: every reported metric reaches the collector once, whole, in order and in time.

func c36() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "format", Desc: "all kinds of metrics with all combinations of prefix, own and default tags, and tag formats", Quick: 0, Deep: 0, Weight: 1, Body: statsFormat},
		{Name: "reports", Desc: "all histories of reporting metrics of several sizes, bursts, waiting, a collector that is slow, refuses packets or cannot be found, and stopping", Quick: 0, Deep: 0, Weight: 4, Body: statsReports},
		{Name: "report-threads", Desc: "threads report metrics while the reporter is flushed or stopped", Quick: 2, Deep: 4, Weight: 3, Body: statsThreads},
	}
}

const (
	flushEvery = 100 * time.Millisecond
	retryAfter = 300 * time.Millisecond
)

// collector is the other end.
type collector struct {
	w       *vrt.World
	max     int
	packets []string
	lines   []string
	cut     []string // lines of packets that were refused
	refused int
	lost    int  // packets said to be lost
	broken  bool // writes fail
	nowhere bool // the address cannot be resolved
	slow    time.Duration
	longest int
}

func (c *collector) Printf(f string, a ...interface{}) {
	if strings.Contains(f, "lost") {
		n, _ := a[0].(int64)
		c.lost += int(n)
	}
}

func newCollector(w *vrt.World, max int) *collector {
	c := &collector{w: w, max: max}
	u := vnet.UDP(w)
	u.Dial = func(a string) error {
		if a != "collector:1" {
			w.Fail("address", "the packets go to %s", a)
		}
		if c.nowhere {
			return errors.New("no such host")
		}
		return nil
	}
	u.Write = func(a string, p []byte) error {
		if c.slow > 0 {
			w.Sleep(c.slow)
		}
		ls := strings.Split(string(p), "\n")
		if c.broken {
			c.refused++
			c.cut = append(c.cut, ls...)
			return errors.New("connection refused")
		}
		if len(p) > max && len(ls) > 1 {
			w.Fail("size", "a packet of %d bytes with %d metrics, at most %d are allowed", len(p), len(ls), max)
		}
		c.packets = append(c.packets, string(p))
		c.lines = append(c.lines, ls...)
		return nil
	}
	return c
}

func (c *collector) open(opts ...stats.Option) *stats.Stats {
	os := []stats.Option{stats.MaxPacketSize(c.max), stats.FlushInterval(flushEvery), stats.RetryTimeout(retryAfter), stats.ReportInterval(time.Second), stats.Logger(c)}
	return stats.New(&stats.Config{Addr: "collector:1", Size: 50}, append(os, opts...)...)
}

// pass lets time pass in small steps (a thread that polls may let a timer fire first).
func pass(w *vrt.World, d time.Duration) {
	for i := 0; i < 10; i++ {
		w.Sleep(d / 10)
	}
}

// check compares what arrived with what was reported: in order, nothing twice or altered; gone says how many runs of metrics may miss.
func (c *collector) check(reported []string, gone int, when string) (missing int) {
	i, runs := 0, 0
	miss := false
	skip := func() {
		missing++
		if !miss {
			runs++
		}
		miss = true
	}
	for _, l := range c.lines {
		for i < len(reported) && reported[i] != l {
			skip()
			i++
		}
		if i == len(reported) {
			c.w.Fail("metric", "%s %.60q arrives: it was not reported, or before others, or it arrived before; reported %.300q, arrived %.300q", when, l, reported, c.lines)
		}
		miss = false
		i++
	}
	for ; i < len(reported); i++ {
		skip()
	}
	if runs > gone {
		c.w.Fail("lost", "%s: reported %.300q, arrived %.300q; %d packets are said to be lost, %d were refused", when, reported, c.lines, c.lost, c.refused)
	}
	return missing
}

// line is the text of a metric.
func line(kind, prefix, stat string, val interface{}, influx bool, tags []string) string {
	sep, first, kv := ",", ",", "="
	if !influx {
		first, kv = "|#", ":"
	}
	t := ""
	for i, g := range tags {
		if i == 0 {
			t += first
		} else {
			t += sep
		}
		p := strings.SplitN(g, " ", 2)
		t += p[0] + kv + p[1]
	}
	name, suffix := t, ""
	if !influx {
		name, suffix = "", t
	}
	switch kind {
	case "incr", "decr":
		return fmt.Sprintf("%s%s%s:%d|c%s", prefix, stat, name, val, suffix)
	case "timing":
		return fmt.Sprintf("%s%s%s:%d|ms%s", prefix, stat, name, val, suffix)
	case "set":
		return fmt.Sprintf("%s%s%s:%s|s%s", prefix, stat, name, val, suffix)
	}
	return fmt.Sprintf("%s%s %s%s%d%s", prefix, name, stat, kv, val, suffix)
}

func statsFormat(x *vexp.X) {
	influx := x.Pick(2, "format") == 0
	prefix := []string{"", "p.", "trace"}[x.Pick(3, "prefix")]
	def, own := x.Pick(3, "default tags"), x.Pick(3, "own tags")
	kind := []string{"incr", "decr", "timing", "set", "precise"}[x.Pick(5, "kind")]
	vals := []int64{1, 0, -1, 42, math.MaxInt64, math.MinInt64 + 1}
	val := vals[x.Pick(len(vals), "value")]
	if kind == "precise" { // to the precision of a float
		if val > 1<<53 {
			val = 1 << 53
		}
		if val < -(1 << 53) {
			val = -(1 << 53)
		}
	}
	x.Key("%v %s %d %d %s %d", influx, prefix, def, own, kind, val)
	x.World(vrt.Options{Horizon: time.Hour}, func(w *vrt.World) {
		c := newCollector(w, 1400)
		var texts []string
		mk := func(n int, a string) (ts []stats.Tag) {
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("%s%d", a, i)
				switch (i + n) % 3 {
				case 0:
					ts = append(ts, stats.StringTag(k, "v"+a))
					texts = append(texts, k+" v"+a)
				case 1:
					ts = append(ts, stats.IntTag(k, -7))
					texts = append(texts, k+" -7")
				default:
					ts = append(ts, stats.Int64Tag(k, math.MaxInt64))
					texts = append(texts, k+" 9223372036854775807")
				}
			}
			return ts
		}
		style := stats.TagFormatInfluxDB
		if !influx {
			style = stats.TagFormatDatadog
		}
		s := c.open(stats.MetricPrefix(prefix), stats.TagStyle(style), stats.DefaultTags(mk(def, "d")...))
		tags := mk(own, "o")
		want := []string{}
		for i := 0; i < 2; i++ { // twice: the tags do not change
			var v interface{} = val
			switch kind {
			case "incr":
				s.Incr("st", val, tags...)
			case "decr":
				s.Decr("st", val, tags...)
				v = -val
			case "timing":
				s.Timing("st", val, tags...)
			case "set":
				v = fmt.Sprint("x", val)
				s.SetAdd("st", v.(string), tags...)
			default:
				s.PrecisionTiming("st", time.Duration(val), tags...)
			}
			if (kind == "incr" || kind == "decr") && val == 0 {
				continue
			}
			want = append(want, line(kind, prefix, "st", v, influx, texts))
		}
		pass(w, 2*flushEvery)
		c.check(want, 0, "after flushing")
		s.Unregister()
		c.check(want, 0, "after stopping")
		w.Note(want)
	})
	x.Distinct(x.GetKey())
}

func statsReports(x *vexp.X) {
	cfg := x.Pick(4, "settings")
	flush := cfg != 3
	reconnect := []time.Duration{0, 250 * time.Millisecond, 0, 0}[cfg]
	pool := []int{1, 1, 0, 2}[cfg]
	const queue = 3
	x.Key("settings %d:", cfg)
	x.World(vrt.Options{Horizon: time.Hour}, func(w *vrt.World) {
		c := newCollector(w, 24)
		if x.Pick(2, "found") == 1 {
			c.nowhere = true
			x.AddKey("nowhere")
		}
		opts := []stats.Option{stats.MetricPrefix("p"), stats.BufPoolCapacity(pool), stats.SendQueueCapacity(queue), stats.ReconnectInterval(reconnect)}
		if !flush {
			opts = append(opts, stats.FlushInterval(0))
		}
		s := c.open(opts...)
		w.Sleep(7 * time.Millisecond)
		var reported []string
		n, stopped, bursts, big := 0, false, 0, 0
		report := func(pad int) {
			n++
			st := fmt.Sprintf("m%d%s", n, strings.Repeat("x", pad))
			l := ""
			switch n % 4 {
			case 1:
				s.Incr(st, int64(n))
				l = fmt.Sprintf("p%s:%d|c", st, n)
			case 2:
				s.Timing(st, int64(n))
				l = fmt.Sprintf("p%s:%d|ms", st, n)
			case 3:
				s.SetAdd(st, fmt.Sprint(n))
				l = fmt.Sprintf("p%s:%d|s", st, n)
			default:
				s.PrecisionTiming(st, time.Duration(n))
				l = fmt.Sprintf("p %s=%d", st, n)
			}
			if !stopped {
				reported = append(reported, l)
			}
		}
		trouble := false // packets may be lost
		sick := func() {
			if c.broken || c.nowhere || c.slow > 0 {
				trouble = true
			}
		}
		ops := []string{"short", "long", "huge", "burst", "wait", "break", "nowhere", "slow", "well", "stop"}
		d := depth(x, 5, 6)
		if cfg > 0 {
			d--
		}
		for i := 0; i < d; i++ {
			o := ops[x.Pick(len(ops), "op")]
			x.AddKey("%s", o)
			sick()
			switch o {
			case "short":
				report(0)
			case "long":
				report(12)
			case "huge":
				report(40)
				big++
			case "burst":
				for k := 0; k < 5; k++ {
					report(10)
				}
				bursts++
			case "wait":
				pass(w, flushEvery+10*time.Millisecond)
			case "break":
				c.broken = true
			case "nowhere":
				c.nowhere, c.broken = true, true
			case "slow":
				c.slow = 130 * time.Millisecond
			case "well":
				c.broken, c.nowhere, c.slow = false, false, 0
				w.Sleep(retryAfter + 5*time.Millisecond)
			case "stop":
				at := w.PeekNow()
				s.Unregister()
				if took := w.PeekNow().Sub(at); took > 2*time.Second {
					w.Fail("stop", "stopping takes %v", took)
				}
				stopped = true
				if !trouble && !c.broken && !c.nowhere && bursts == 0 && big == 0 {
					c.check(reported, 0, "after stopping")
				}
				if u := vnet.UDP(w); u.Open != 0 {
					w.Fail("stop", "%d sockets are open after stopping", u.Open)
				}
			}
			sick()
			pass(w, 3*time.Millisecond)
			if o == "wait" && flush && !trouble && bursts == 0 && big == 0 {
				c.check(reported, 0, "after waiting")
			}
		}
		wasNowhere := c.nowhere
		c.broken, c.nowhere, c.slow = false, false, 0
		at := w.PeekNow()
		if !stopped {
			if wasNowhere || trouble {
				w.Sleep(2 * retryAfter)
			}
			reported0 := len(reported)
			report(0)
			if flush {
				pass(w, flushEvery+200*time.Millisecond)
			} else {
				report(12) // fills the packet
				pass(w, 10*time.Millisecond)
			}
			if len(c.lines) == 0 || !contains(c.lines, reported[reported0]) {
				w.Fail("late", "a metric reported to a collector that works again has not arrived after %v; reported %.300q, arrived %.300q", w.PeekNow().Sub(at), reported, c.lines)
			}
			at = w.PeekNow()
		}
		w.Sleep(1100 * time.Millisecond) // the losses are said every second
		s.Unregister()
		if took := w.PeekNow().Sub(at); took > 1100*time.Millisecond+2*time.Second {
			w.Fail("stop", "stopping takes %v", took)
		}
		if !stopped || !trouble {
			missing := c.check(reported, c.lost+c.refused, "in the end")
			if !trouble && bursts == 0 && big == 0 && (missing > 0 || c.lost > 0) {
				w.Fail("lost", "%d metrics are lost, %d packets are said to be lost, though the collector worked", missing, c.lost)
			}
			if c.lost > missing+big {
				w.Fail("lost", "%d packets are said to be lost, %d metrics are", c.lost, missing)
			}
		} else {
			c.check(reported, len(reported), "in the end")
		}
		if u := vnet.UDP(w); u.Open != 0 {
			w.Fail("stop", "%d sockets are open after stopping", u.Open)
		}
		// a reporter that is stopped takes metrics without doing anything
		k := len(c.lines)
		for i := 0; i < 4; i++ {
			s.Timing(strings.Repeat("y", 20), 1)
		}
		s.Unregister()
		w.Sleep(time.Second)
		if len(c.lines) != k {
			w.Fail("stop", "metrics arrive after stopping")
		}
		w.Note(c.packets, c.lost)
	})
	x.Distinct(x.GetKey())
}

func contains(ls []string, l string) bool {
	for _, m := range ls {
		if m == l {
			return true
		}
	}
	return false
}

func statsThreads(x *vexp.X) {
	progs := []string{"a", "a b", "A a", "wait a", "stop", "wait stop", "A stop a"}
	pool, shift := 1+x.Pick(2, "pool"), x.Pick(4, "kinds")
	var ps []string
	last := 0
	for i, n := 0, 2+x.Pick(depth(x, 1, 2), "more threads"); i < n; i++ {
		last = last + x.Pick(len(progs)-last, "thread")
		ps = append(ps, progs[last])
	}
	x.Key("pool %d kinds %d %s", pool, shift, strings.Join(ps, " | "))
	x.World(vrt.Options{Sched: true, Horizon: time.Hour}, func(w *vrt.World) {
		c := newCollector(w, 30)
		s := c.open(stats.BufPoolCapacity(pool), stats.SendQueueCapacity(20))
		w.Sleep(90 * time.Millisecond)
		type rep struct {
			line   string
			thread int
			sure   bool // reported before anybody began to stop
		}
		var reps []rep
		stopping := false
		var hs []*vrt.Handle
		for i, p := range ps {
			i := i
			fs := strings.Fields(p)
			hs = append(hs, w.Go(fmt.Sprintf("t%d", i), func() {
				for k, o := range fs {
					switch o {
					case "wait":
						w.Sleep(10 * time.Millisecond) // now the flusher runs
					case "stop":
						stopping = true
						s.Unregister()
					default:
						st := fmt.Sprintf("t%dk%d", i, k)
						if o == "A" {
							st += strings.Repeat("x", 18)
						}
						l := ""
						switch (i + k + shift) % 4 {
						case 0:
							s.Incr(st, 7)
							l = st + ":7|c"
						case 1:
							s.Timing(st, 7)
							l = st + ":7|ms"
						case 2:
							s.PrecisionTiming(st, 7)
							l = " " + st + "=7"
						default:
							s.SetAdd(st, "7")
							l = st + ":7|s"
						}
						reps = append(reps, rep{l, i, !stopping})
					}
				}
			}))
		}
		w.Join(hs...)
		pass(w, 2*flushEvery)
		if !stopping {
			for _, r := range reps {
				if !contains(c.lines, r.line) {
					w.Fail("late", "%q has not arrived; arrived %q", r.line, c.lines)
				}
			}
		}
		s.Unregister()
		seen := map[string]bool{}
		pos := map[int]int{}
		for _, l := range c.lines {
			if seen[l] {
				w.Fail("metric", "%q arrives twice", l)
			}
			seen[l] = true
			at := -1
			for j, r := range reps {
				if r.line == l {
					at = j
					if j < pos[r.thread] {
						w.Fail("metric", "%q arrives after metrics its thread reported later", l)
					}
					pos[r.thread] = j
				}
			}
			if at < 0 {
				w.Fail("metric", "%q arrives and was not reported", l)
			}
		}
		for _, r := range reps {
			if r.sure && !seen[r.line] {
				w.Fail("lost", "%q has not arrived; arrived %q", r.line, c.lines)
			}
		}
		if u := vnet.UDP(w); u.Open != 0 {
			w.Fail("stop", "%d sockets are open after stopping", u.Open)
		}
		w.Note(len(c.packets), c.lines)
	})
}
