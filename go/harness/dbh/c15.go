package main

import (
	"fmt"
	"syscall"

	"github.com/unit-io/unitdb"
	"vrt"
	"vrt/vexp"
)

// tolerant compares every topic with the model while some outcomes are open: nothing certain is missing, nothing foreign, twice or out of order is there.
func (s *sess) tolerant(when string) {
	for _, t := range s.topics {
		got := s.get(t, 100000)
		i := 0
		for j := len(s.model) - 1; j >= 0; j-- {
			m := s.model[j]
			if m.topic != t || m.deleted() {
				continue
			}
			if i < len(got) && got[i] == m.payload {
				i++
				continue
			}
			if !m.maybe {
				s.w.Fail("lost", "%s: Get(%s) = %s lacks %s", when, t, short(got), m.payload)
			}
		}
		if i != len(got) {
			s.w.Fail("unexpected", "%s: Get(%s) = %s has %q which was never stored, was deleted, is returned twice or is out of order; model %s", when, t, short(got), got[i], s.dump(t))
		}
	}
}

// probe is a query made while operations fail: an error is fine, a wrong answer is not.
func (s *sess) probe() {
	for _, t := range s.topics {
		items, err := s.query(nq(t), 100000)
		if err != nil {
			continue
		}
		i := 0
		for j := len(s.model) - 1; j >= 0; j-- {
			m := s.model[j]
			if m.topic != t || m.deleted() {
				continue
			}
			if i < len(items) && items[i] == m.payload {
				i++
				continue
			}
			if !m.maybe {
				s.w.Fail("lost-while-failing", "Get(%s) = %s without an error lacks %s", t, short(items), m.payload)
			}
		}
		if i != len(items) {
			s.w.Fail("unexpected-while-failing", "Get(%s) = %s without an error; model %s", t, short(items), s.dump(t))
		}
	}
}

// faultCase runs a history whose last nf operations run with the fault switched on at the k-th file operation from there (k = 0: none).
// It returns the number of file operations in the window.
func faultCase(x *vexp.X, h []string, nf int, bg bool, k, n int, errno error, shortw bool, end string, size func(n int) int, free int64) int {
	s := newSess(x, "a.b", "a.c")
	s.size = size
	if free > 0 {
		s.opts = append(s.opts, unitdb.WithFreeBlockSize(free))
	}
	if !bg {
		s.opts = append(s.opts, noBackground())
	}
	calls := 0
	alive := true
	s.in(vrt.Options{}, func() {
		s.open()
		if free > 0 {
			s.seedSized()
			s.do("del2Old")
			s.do("delMid")
			s.synced()
		}
		for i, o := range h {
			if i == len(h)-nf {
				calls = s.fs.Calls
				if k > 0 {
					s.faulty = true
					s.fs.FaultAt, s.fs.FaultN, s.fs.FaultErr, s.fs.Short = s.fs.Calls+k, n, errno, shortw
				}
			}
			if !alive {
				continue
			}
			switch o {
			case "query":
				s.probe()
			case "reopen":
				s.close()
				if s.faulty && s.lastE != nil {
					// not everything may have been logged
					s.atCrash(len(s.fs.Ops))
				}
				for j := 0; j < 3; j++ {
					if alive = s.open(); alive {
						break
					}
				}
			default:
				s.do(o)
			}
		}
		calls = s.fs.Calls - calls
		x.AddKey("%v", s.fs.Faulted)
		if k == 0 {
			return
		}
		s.faulty = false
		s.fs.FaultAt, s.fs.FaultN, s.fs.Short = 0, 0, false
		if !alive {
			s.open()
		}
		if end == "crash" {
			return
		}
		s.tolerant("after the fault")
		s.put("a.b")
		s.put("a.c")
		s.tolerant("after the fault and another put")
		if free > 0 {
			for _, l := range []int{12, 40, 12, 90} {
				s.putSized(l)
			}
		}
		if end == "sync" {
			s.tick(logTime)
			s.tolerant("after logging")
			s.sync()
			s.tolerant("after syncing")
			s.put("a.b")
		}
		if end == "close" {
			s.close()
			return
		}
		if end == "late" {
			s.tick(2 * logTime)
		}
	})
	if k == 0 {
		return calls
	}
	if end != "close" {
		s.atCrash(len(s.fs.Ops))
	} else {
		for _, m := range s.model {
			m.start = 0
		}
	}
	s.in(vrt.Options{}, func() {
		s.open()
		s.settle()
		s.checkAll(1, 3)
		s.put("a.b")
		if free > 0 {
			for _, l := range []int{12, 40, 12, 90, 160} {
				s.putSized(l)
			}
		}
		s.synced()
		s.checkAll(0, 2)
		s.checkCount()
		s.reopen()
		s.checkAll(0, 2)
		s.checkCount()
		s.close()
	})
	return calls
}

func faults(ops []string, quick, deep, nfMax int, bgs bool, size func(n int) int, free int64) func(x *vexp.X) {
	return func(x *vexp.X) {
		n := 1 + x.Pick(depth(x, quick, deep), "length")
		bg := bgs && flag(x, "bg")
		h := pickOps(x, ops, n)
		nf := 1
		if n > 1 && nfMax > 1 {
			nf += x.Pick(nfMax, "window")
			if nf > n {
				nf = n
			}
		}
		mode := x.Pick(3, "mode")
		end := []string{"sync", "crash", "close", "late"}[x.Pick(4, "end")]
		fn := []int{1, 3, 1 << 30}[mode]
		x.AddKey("last %d under %d faults; %s", nf, fn, end)
		key := x.GetKey()
		total := faultCase(x, h, nf, bg, 0, 0, nil, false, end, size, free)
		for k := 1; k <= total; k++ {
			for _, sh := range []bool{false, true} {
				if sh && mode == 1 {
					continue
				}
				errno := error(syscall.EIO)
				if sh {
					errno = syscall.ENOSPC
				}
				x.Key("%s; at call %d, short %v", key, k, sh)
				x.Count("faults", 1)
				faultCase(x, h, nf, bg, k, fn, errno, sh, end, size, free)
			}
		}
		x.Count("fault_histories", 1)
		x.Distinct(fmt.Sprint(key, total))
	}
}

func c15() []vexp.Scenario {
	sizes := func(n int) int { return []int{5, 700, 9000}[n%3] }
	return []vexp.Scenario{
		{Name: "writing", Desc: "every file operation of the last one or two of puts, batches, log writes and syncs fails once, three times or for good until the window ends; full and short writes", Weight: 4,
			Body: faults([]string{"putA", "ticksync", "batchAAB", "tick", "query"}, 3, 5, 2, false, nil, 0)},
		{Name: "existing", Desc: "the same with several blocks already written", Weight: 3,
			Body: faults([]string{"put5A", "ticksync", "query"}, 4, 6, 2, true, nil, 0)},
		{Name: "deletes", Desc: "failures around deletes", Weight: 3,
			Body: faults([]string{"putIDA", "ticksync", "delOld", "batchDel", "tick"}, 3, 5, 2, false, nil, 0)},
		{Name: "reopens", Desc: "failures while closing and opening", Weight: 3,
			Body: faults([]string{"putA", "ticksync", "reopen", "batchAAB"}, 3, 5, 2, true, nil, 0)},
		{Name: "sizes", Desc: "failures with messages of very different sizes", Weight: 2,
			Body: faults([]string{"putA", "ticksync", "batchAAB"}, 3, 5, 1, true, sizes, 0)},
		{Name: "reuse", Desc: "failures while freed space is taken and given back; what is free is used up afterwards", Weight: 2,
			Body: faults([]string{"put#0", "put#2", "del2Old", "batchSized", "ticksync"}, 2, 4, 2, false, nil, 16)},
	}
}
