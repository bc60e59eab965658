package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	rm "github.com/unit-io/unitdb/metrics"
	sm "github.com/unit-io/unitdb/server/internal/pkg/metrics"
	"vrt"
	"vrt/vexp"
)

type counter interface {
	Reset()
	Count() int64
	Dec(int64)
	Inc(int64)
}

type gauge interface {
	Update(int64)
	Value() int64
}

type series interface {
	Cumulative() time.Duration
	HMean() time.Duration
	Avg() time.Duration
	P50() time.Duration
	P75() time.Duration
	P95() time.Duration
	P99() time.Duration
	P999() time.Duration
	Long5p() time.Duration
	Short5p() time.Duration
	Max() time.Duration
	Min() time.Duration
	StdDev() time.Duration
	Range() time.Duration
	AddTime(time.Duration)
}

type registry interface {
	GetOrRegister(string, interface{}) interface{}
	Unregister(string)
	UnregisterAll()
}

// lib is one of the two statistics packages.
type lib struct {
	name        string
	newCounter  func() counter
	snapCounter func(counter) counter
	newGauge    func() gauge
	snapGauge   func(gauge) gauge
	// kinds of series of at most n samples (the time series keeps 50)
	newSample    func(n int) series
	newHistogram func(n int) series
	newSeries    func() series
	snap         func(series) series
	reset        func(series)
	newRegistry  func() registry
	regCounter   func(string, registry) counter
}

var libs = []lib{
	{
		name:         "store",
		newCounter:   func() counter { return rm.NewCounter() },
		snapCounter:  func(c counter) counter { return c.(rm.Counter).Snapshot() },
		newGauge:     func() gauge { return rm.NewGauge() },
		snapGauge:    func(g gauge) gauge { return g.(rm.Gauge).Snapshot() },
		newSample:    func(n int) series { return rm.NewSample(&rm.Config{Size: n}) },
		newHistogram: func(n int) series { return rm.NewHistogram(rm.NewSample(&rm.Config{Size: n})) },
		newSeries:    func() series { return rm.NewTimeSeries() },
		snap: func(s series) series {
			switch s := s.(type) {
			case rm.TimeSeries:
				return s.Snapshot()
			case rm.Histogram:
				return s.Snapshot()
			case rm.Sample:
				return s.Snapshot()
			}
			panic("kind")
		},
		reset:       func(s series) { s.(interface{ Reset() }).Reset() },
		newRegistry: func() registry { return rm.NewMetrics() },
		regCounter:  func(n string, r registry) counter { return rm.GetOrRegisterCounter(n, r.(rm.Metrics)) },
	},
	{
		name:         "server",
		newCounter:   func() counter { return sm.NewCounter() },
		snapCounter:  func(c counter) counter { return c.(sm.Counter).Snapshot() },
		newGauge:     func() gauge { return sm.NewGauge() },
		snapGauge:    func(g gauge) gauge { return g.(sm.Gauge).Snapshot() },
		newSample:    func(n int) series { return sm.NewSample(&sm.Config{Size: n}) },
		newHistogram: func(n int) series { return sm.NewHistogram(sm.NewSample(&sm.Config{Size: n})) },
		newSeries:    func() series { return sm.NewTimeSeries() },
		snap: func(s series) series {
			switch s := s.(type) {
			case sm.TimeSeries:
				return s.Snapshot()
			case sm.Histogram:
				return s.Snapshot()
			case sm.Sample:
				return s.Snapshot()
			}
			panic("kind")
		},
		reset:       func(s series) { s.(interface{ Reset() }).Reset() },
		newRegistry: func() registry { return sm.NewMetrics() },
		regCounter:  func(n string, r registry) counter { return sm.GetOrRegisterCounter(n, r.(sm.Metrics)) },
	},
}

func c35() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "counters", Desc: "all sequences of increments, decrements, resets and snapshots of a counter, updates of a gauge, registrations and removals in a registry", Weight: 1, Body: counters},
		{Name: "samples", Desc: "all sequences of durations and resets of every kind of series, its figures compared with those of the latest samples, live and in snapshots", Weight: 3, Body: samples},
		{Name: "meter-threads", Desc: "two or three threads counting, timing, registering and taking snapshots", Quick: 2, Deep: 4, Weight: 2, Body: meterThreads},
	}
}

func pickLib(x *vexp.X) lib {
	l := libs[x.Pick(len(libs), "package")]
	x.Key("%s", l.name)
	return l
}

func counters(x *vexp.X) {
	l := pickLib(x)
	all := []string{"inc1", "inc5", "dec1", "dec3", "reset", "snap", "gauge", "reg", "regfunc", "unreg", "unregall"}
	var h []string
	for i, n := 0, 1+x.Pick(depth(x, 5, 6), "length"); i < n; i++ {
		o := all[x.Pick(len(all), "op")]
		h = append(h, o)
		x.AddKey("%s", o)
	}
	x.World(vrt.Options{}, func(w *vrt.World) {
		c, g, r := l.newCounter(), l.newGauge(), l.newRegistry()
		var n, v int64
		var snaps []counter
		var at []int64
		var reg counter // registered under "a"
		for i, o := range h {
			switch o {
			case "inc1":
				c.Inc(1)
				n++
			case "inc5":
				c.Inc(5)
				n += 5
			case "dec1":
				c.Dec(1)
				n--
			case "dec3":
				c.Dec(3)
				n -= 3
			case "reset":
				c.Reset()
				n = 0
			case "snap":
				snaps, at = append(snaps, l.snapCounter(c)), append(at, n)
			case "gauge":
				v = int64(i*7 - 3)
				s := l.snapGauge(g)
				old := g.Value()
				g.Update(v)
				if s.Value() != old {
					w.Fail("snapshot", "the snapshot of a gauge goes from %d to %d", old, s.Value())
				}
			case "reg", "regfunc":
				var got counter
				if o == "reg" {
					got = l.regCounter("a", r)
				} else {
					mine := l.newCounter()
					got = r.GetOrRegister("a", mine).(counter)
					if reg == nil && got != mine {
						w.Fail("registry", "a free name is answered with something else than what is registered")
					}
				}
				if reg != nil && got != reg {
					w.Fail("registry", "the same name gives another counter")
				}
				reg = got
				if other := l.regCounter("b", r); other == reg {
					w.Fail("registry", "two names share a counter")
				}
			case "unreg":
				r.Unregister("a")
				reg = nil
			case "unregall":
				r.UnregisterAll()
				reg = nil
			}
			if c.Count() != n {
				w.Fail("counter", "Count() = %d, want %d", c.Count(), n)
			}
			if g.Value() != v {
				w.Fail("gauge", "Value() = %d, want %d", g.Value(), v)
			}
			for j, s := range snaps {
				if s.Count() != at[j] {
					w.Fail("snapshot", "a snapshot taken at %d says %d", at[j], s.Count())
				}
			}
		}
		w.Note(n, v)
	})
	x.Distinct(x.GetKey())
}

// figures of a set of samples, by definition.
func figures(name string, fail func(rule, format string, args ...interface{}), s series, samples []time.Duration) {
	if len(samples) == 0 {
		// nothing is known, nothing may crash
		for i, f := range []func() time.Duration{s.Cumulative, s.HMean, s.Avg, s.P50, s.P75, s.P95, s.P99, s.P999, s.Long5p, s.Short5p, s.Max, s.Min, s.StdDev, s.Range} {
			if v := f(); v != 0 {
				fail("empty", "%s: figure %d of no samples is %v", name, i, v)
			}
		}
		return
	}
	ts := append([]time.Duration(nil), samples...)
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	n := len(ts)
	var sum time.Duration
	inv := 0.0
	for _, t := range ts {
		sum += t
		inv += 1 / float64(t)
	}
	mean := float64(sum) / float64(n)
	sq := 0.0
	for _, t := range ts {
		sq += (float64(t) - mean) * (float64(t) - mean)
	}
	near := func(what string, got time.Duration, want float64) {
		if math.Abs(float64(got)-want) > 2 {
			fail("figure", "%s: %s of %v is %v, want %v", name, what, samples, got, time.Duration(want))
		}
	}
	near("the sum", s.Cumulative(), float64(sum))
	near("the average", s.Avg(), mean)
	near("the harmonic mean", s.HMean(), float64(n)/inv)
	near("the standard deviation", s.StdDev(), math.Sqrt(sq/float64(n)))
	near("the least", s.Min(), float64(ts[0]))
	near("the greatest", s.Max(), float64(ts[n-1]))
	near("the range", s.Range(), float64(ts[n-1]-ts[0]))
	if n <= 20 {
		near("the mean of the longest twentieth", s.Long5p(), float64(ts[n-1]))
		near("the mean of the shortest twentieth", s.Short5p(), float64(ts[0]))
	}
	// a percentile is a sample with about that part of the samples below it: at most one rank from the exact one
	last := time.Duration(0)
	for _, q := range []struct {
		p float64
		v time.Duration
	}{{.5, s.P50()}, {.75, s.P75()}, {.95, s.P95()}, {.99, s.P99()}, {.999, s.P999()}} {
		at := q.p * float64(n)
		lo, hi := int(math.Floor(at))-1, int(math.Ceil(at))
		if lo < 0 {
			lo = 0
		}
		if hi > n-1 {
			hi = n - 1
		}
		ok := false
		for i := lo; i <= hi; i++ {
			ok = ok || ts[i] == q.v
		}
		if !ok || q.v < last {
			fail("percentile", "%s: the %g quantile of %v is %v", name, q.p, samples, q.v)
		}
		last = q.v
	}
}

func latest(ts []time.Duration, n int) []time.Duration {
	if len(ts) > n {
		return ts[len(ts)-n:]
	}
	return ts
}

func samples(x *vexp.X) {
	l := pickLib(x)
	kind := []string{"sample", "histogram", "series"}[x.Pick(3, "kind")]
	x.AddKey("%s", kind)
	size := 50
	var s series
	if kind != "series" {
		size = 1 + x.Pick(4, "size")
		x.AddKey("%d", size)
	}
	vals := []time.Duration{time.Millisecond, 2 * time.Millisecond, 7 * time.Millisecond}
	fillUp := 0
	if kind == "series" {
		fillUp = []int{0, 18, 47, 49}[x.Pick(4, "before")]
		x.AddKey("after %d", fillUp)
	}
	var h []string
	n := x.Pick(depth(x, 6, 7), "length")
	for i := 0; i < n; i++ {
		c := 3
		if kind != "series" {
			c = 4
		}
		o := []string{"1", "2", "7", "reset"}[x.Pick(c, "op")]
		h = append(h, o)
		x.AddKey("%s", o)
	}
	x.World(vrt.Options{}, func(w *vrt.World) {
		switch kind {
		case "sample":
			s = l.newSample(size)
		case "histogram":
			s = l.newHistogram(size)
		case "series":
			s = l.newSeries()
		}
		var all []time.Duration
		type snap struct {
			s  series
			of []time.Duration
		}
		var snaps []snap
		see := func() {
			of := append([]time.Duration(nil), latest(all, size)...)
			figures("a "+kind, w.Fail, s, of)
			sn := snap{l.snap(s), of}
			figures("a snapshot of a "+kind, w.Fail, sn.s, of)
			snaps = append(snaps, sn)
		}
		for i := 0; i < fillUp; i++ {
			t := time.Duration(1+(i*37)%41) * time.Millisecond
			s.AddTime(t)
			all = append(all, t)
		}
		see()
		for _, o := range h {
			switch o {
			case "reset":
				l.reset(s)
				all = nil
			default:
				t := vals[strings.Index("127", o)]
				s.AddTime(t)
				all = append(all, t)
			}
			see()
		}
		for i, sn := range snaps {
			figures(fmt.Sprintf("an older snapshot of a %s (%d)", kind, i), w.Fail, sn.s, sn.of)
		}
		w.Note(int64(s.Cumulative()))
	})
	x.Distinct(x.GetKey())
}

func meterThreads(x *vexp.X) {
	l := pickLib(x)
	progs := []string{"inc inc", "inc dec5", "reg", "time time", "snap", "time snap"}
	var ps []string
	for i, n := 0, 2+x.Pick(depth(x, 1, 2), "more threads"); i < n; i++ {
		ps = append(ps, progs[x.Pick(len(progs), "thread")])
	}
	x.Key("%s %s", l.name, strings.Join(ps, " | "))
	x.World(vrt.Options{Sched: true}, func(w *vrt.World) {
		c, s, r := l.newCounter(), l.newHistogram(8), l.newRegistry()
		var n int64
		var times []time.Duration
		s.AddTime(time.Millisecond)
		times = append(times, time.Millisecond)
		var regs []counter
		var hs []*vrt.Handle
		for i, p := range ps {
			i := i
			fs := strings.Fields(p)
			hs = append(hs, w.Go(fmt.Sprintf("t%d", i), func() {
				for k, o := range fs {
					switch o {
					case "inc":
						c.Inc(1)
						n++
					case "dec5":
						c.Dec(5)
						n -= 5
					case "time":
						t := time.Duration(10*(i+1)+k) * time.Millisecond
						s.AddTime(t)
						times = append(times, t)
					case "reg":
						got := l.regCounter("a", r)
						got.Inc(1)
						regs = append(regs, got)
					case "snap":
						sn := l.snap(s)
						if a, b := sn.Min(), sn.Max(); a > b || b > time.Second {
							w.Fail("snapshot", "a snapshot has the least %v and the greatest %v", a, b)
						}
						if a, b := sn.Cumulative(), sn.Cumulative(); a != b {
							w.Fail("snapshot", "a snapshot changes from %v to %v", a, b)
						}
					}
				}
			}))
		}
		w.Join(hs...)
		if c.Count() != n {
			w.Fail("lost-count", "Count() = %d after threads counted to %d", c.Count(), n)
		}
		for _, k := range regs {
			if k != regs[0] || k.Count() != int64(len(regs)) {
				w.Fail("lost-count", "counters registered under one name count %d after %d increments", k.Count(), len(regs))
			}
		}
		figures("a histogram", w.Fail, l.snap(s), times)
		w.Note(c.Count(), int64(s.Cumulative()))
	})
	x.Distinct(x.GetKey())
}
