package main

import (
	"fmt"
	"strings"

	"github.com/unit-io/unitdb/server/internal/message"
	"github.com/unit-io/unitdb/server/utp"
	"vrt"
	"vrt/vexp"
)

// numbers is the model of the allocation of message numbers.
type numbers struct {
	fail    func(rule, format string, args ...interface{})
	ids     message.MessageIds
	given   map[message.MID]bool // since the last reset
	resumed map[message.MID]bool
	typ     map[message.MID]utp.MessageType
	last    message.MID
}

func (n *numbers) next(t utp.MessageType) message.MID {
	id := n.ids.NextID(t)
	if id <= 0 {
		n.fail("range", "message number %d is given", id)
	}
	if n.given[id] {
		n.fail("twice", "message number %d is given twice", id)
	}
	if n.resumed[id] {
		n.fail("resumed", "message number %d is given although it was resumed", id)
	}
	n.given[id] = true
	n.typ[id] = t
	n.last = id
	return id
}

func (n *numbers) check() {
	for id := message.MID(0); id < 40; id++ {
		if got := n.ids.GetType(id); got != n.typ[id] {
			n.fail("type", "number %d has type %d, it was given for %d", id, got, n.typ[id])
		}
	}
}

func (n *numbers) do(op string) {
	switch op {
	case "next":
		n.next(utp.PUBLISH)
	case "nextsub":
		n.next(utp.SUBSCRIBE)
	case "resume1", "resume2", "resume3", "resume4":
		id := message.MID(op[6] - '0')
		if n.given[id] {
			return
		}
		n.ids.ResumeID(id)
		n.resumed[id] = true
	case "free":
		if n.last > 0 {
			n.ids.FreeID(n.last)
			delete(n.typ, n.last)
		}
	case "freeother":
		n.ids.FreeID(1)
		delete(n.typ, 1)
	case "reset":
		n.ids.Reset()
		n.given = map[message.MID]bool{}
		n.last = 0
	}
	n.check()
}

func newNumbers(fail func(rule, format string, args ...interface{})) *numbers {
	return &numbers{fail: fail, ids: message.NewMessageIds(), given: map[message.MID]bool{}, resumed: map[message.MID]bool{}, typ: map[message.MID]utp.MessageType{}}
}

func numberHistories(x *vexp.X) {
	all := []string{"next", "nextsub", "resume1", "resume2", "resume3", "resume4", "free", "freeother", "reset"}
	h := pickOps(x, all, 1+x.Pick(depth(x, 6, 7), "length"))
	x.World(vrt.Options{}, func(w *vrt.World) {
		n := newNumbers(w.Fail)
		for _, o := range h {
			n.do(o)
		}
		for i := 0; i < 12; i++ {
			n.next(utp.RELAY)
		}
		n.check()
		w.Note(n.last)
	})
	x.Distinct(x.GetKey())
}

// numberRun: long runs with numbers resumed in the middle.
func numberRun(x *vexp.X) {
	at := []int{1, 2, 255, 256, 32767, 65534, 65535, 65536}[x.Pick(8, "first resumed")]
	cnt := 1 + x.Pick(4, "resumed")
	x.Key("%d numbers from %d resumed", cnt, at)
	x.World(vrt.Options{}, func(w *vrt.World) {
		n := newNumbers(w.Fail)
		for i := 0; i < cnt; i++ {
			n.ids.ResumeID(message.MID(at + i))
			n.resumed[message.MID(at+i)] = true
		}
		for i := 0; i < 66000; i++ {
			n.next(utp.PUBLISH)
		}
	})
	x.Distinct(x.GetKey())
}

func numberThreads(x *vexp.X) {
	progs := []string{"next next", "next free next", "resume2 next", "resume1 next", "next type", "next resume3 next"}
	var ps []string
	for i := 0; i < 2; i++ {
		ps = append(ps, progs[x.Pick(len(progs), "thread")])
	}
	if x.Tier == "thorough" {
		ps = append(ps, "next")
	}
	x.Key("%s", strings.Join(ps, " | "))
	x.World(vrt.Options{Sched: true}, func(w *vrt.World) {
		ids := message.NewMessageIds()
		given := map[message.MID]int{}
		resumed := map[message.MID]bool{} // before anything else of the kind ran
		var hs []*vrt.Handle
		for t, p := range ps {
			t, p := t, p
			hs = append(hs, w.Go(fmt.Sprint("client", t), func() {
				var last message.MID
				for _, o := range strings.Fields(p) {
					switch o {
					case "next":
						before := map[message.MID]bool{}
						for id := range resumed {
							before[id] = true
						}
						id := ids.NextID(utp.PUBLISH)
						if id <= 0 {
							w.Fail("range", "message number %d is given", id)
						}
						if before[id] {
							w.Fail("resumed", "message number %d is given although it was resumed", id)
						}
						given[id]++
						if given[id] > 1 {
							w.Fail("twice", "message number %d is given twice", id)
						}
						last = id
						if ids.GetType(id) != utp.PUBLISH {
							w.Fail("type", "number %d has type %d", id, ids.GetType(id))
						}
						w.Note(t, id)
					case "free":
						ids.FreeID(last)
						if g := ids.GetType(last); g != 0 {
							w.Fail("freed", "number %d has type %d after it was freed", last, g)
						}
					case "type":
						if ids.GetType(last) != utp.PUBLISH {
							w.Fail("type", "number %d has type %d", last, ids.GetType(last))
						}
					default:
						id := message.MID(o[6] - '0')
						ids.ResumeID(id)
						resumed[id] = true
					}
				}
			}))
		}
		w.Join(hs...)
	})
}

func c28() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "histories", Desc: "all histories of giving, resuming, freeing and resetting", Weight: 2, Body: numberHistories},
		{Name: "runs", Desc: "long runs past numbers that were resumed", Body: numberRun},
		{Name: "threads", Desc: "two or three threads, before every statement", Quick: 3, Deep: 4, Body: numberThreads},
	}
}

// subscriptions

type statModel struct {
	topic string
	id    string
	n     int
}

func statCheck(fail func(rule, format string, args ...interface{}), s *message.Stats, m map[string]*statModel) {
	all := s.All()
	if len(all) != len(m) {
		fail("all", "%d subscriptions are listed, %d exist", len(all), len(m))
	}
	seen := map[string]bool{}
	for _, st := range all {
		ok := false
		for k, e := range m {
			if e.topic == st.Topic && e.id == string(st.ID) && e.n == st.Counter && !seen[k] {
				seen[k], ok = true, true
				break
			}
		}
		if !ok {
			fail("all", "subscription %q %q counted %d times is listed and does not exist", st.Topic, st.ID, st.Counter)
		}
	}
	for _, k := range []string{"k1", "k2", "", "k3"} {
		if s.Exist(k) != (m[k] != nil) {
			fail("exist", "Exist(%q) is %v", k, s.Exist(k))
		}
	}
}

func statHistories(x *vexp.X) {
	all := []string{"sub k1", "sub k2", "sub ", "unsub k1", "unsub k2", "unsub ", "unsub k3"}
	h := pickOps(x, all, 1+x.Pick(depth(x, 6, 7), "length"))
	x.World(vrt.Options{}, func(w *vrt.World) {
		s := message.NewStats()
		m := map[string]*statModel{}
		for i, o := range h {
			k := o[strings.Index(o, " ")+1:]
			if strings.HasPrefix(o, "sub") {
				id := []byte(fmt.Sprint("id", i))
				first := s.Increment("topic/"+k, k, id)
				if m[k] == nil {
					m[k] = &statModel{topic: "topic/" + k, id: string(id)}
				}
				m[k].n++
				if first != (m[k].n == 1) {
					w.Fail("first", "subscription %d of %q: first is %v", m[k].n, k, first)
				}
			} else {
				last, id := s.Decrement("topic/"+k, k)
				want, wid := false, ""
				if e := m[k]; e != nil {
					e.n--
					if e.n == 0 {
						want, wid = true, e.id
						delete(m, k)
					}
				}
				if last != want || want && string(id) != wid {
					w.Fail("last", "unsubscribe of %q: last is %v (%q), want %v (%q)", k, last, id, want, wid)
				}
			}
			statCheck(w.Fail, s, m)
		}
	})
	x.Distinct(x.GetKey())
}

func statThreads(x *vexp.X) {
	progs := []string{"+k1 -k1", "+k1 +k1", "-k1 +k1", "+k2 -k1", "+k1 all", "exist -k1 +k2"}
	start := x.Pick(3, "subscribed before")
	var ps []string
	for i := 0; i < 2; i++ {
		ps = append(ps, progs[x.Pick(len(progs), "thread")])
	}
	if x.Tier == "thorough" {
		ps = append(ps, "+k1 -k2")
	}
	x.Key("%d before; %s", start, strings.Join(ps, " | "))
	x.World(vrt.Options{Sched: true}, func(w *vrt.World) {
		w.SetQuiet(true)
		s := message.NewStats()
		for i := 0; i < start; i++ {
			s.Increment("topic/k1", "k1", []byte("id"))
		}
		w.SetQuiet(false)
		firsts, lasts, plus := map[string]int{}, map[string]int{}, map[string]int{}
		minus := map[string]int{}
		if start > 0 {
			firsts["k1"] = 1
		}
		plus["k1"] = start
		var hs []*vrt.Handle
		for t, p := range ps {
			t, p := t, p
			hs = append(hs, w.Go(fmt.Sprint("client", t), func() {
				for _, o := range strings.Fields(p) {
					switch {
					case o == "all":
						for _, st := range s.All() {
							if st.Counter < 1 || st.Topic != "topic/k1" && st.Topic != "topic/k2" {
								w.Fail("all", "subscription %q is listed with count %d", st.Topic, st.Counter)
							}
						}
					case o == "exist":
						s.Exist("k1")
					case o[0] == '+':
						if s.Increment("topic/"+o[1:], o[1:], []byte("id")) {
							firsts[o[1:]]++
							w.Note(t, o)
						}
						plus[o[1:]]++
					default:
						if last, id := s.Decrement("topic/"+o[1:], o[1:]); last {
							lasts[o[1:]]++
							w.Note(t, o)
							if string(id) != "id" {
								w.Fail("id", "the last unsubscribe gives %q", id)
							}
						}
						minus[o[1:]]++
					}
				}
			}))
		}
		w.Join(hs...)
		w.SetQuiet(true)
		total := map[string]int{}
		for _, st := range s.All() {
			total[strings.TrimPrefix(st.Topic, "topic/")] = st.Counter
		}
		for _, k := range []string{"k1", "k2"} {
			exists := total[k] > 0
			if s.Exist(k) != exists {
				w.Fail("exist", "Exist(%q) is %v, its count is %d", k, s.Exist(k), total[k])
			}
			if d := firsts[k] - lasts[k]; d != 0 && d != 1 || (d == 1) != exists {
				w.Fail("transitions", "%q was first subscribed %d times and last unsubscribed %d times, subscribed: %v", k, firsts[k], lasts[k], exists)
			}
			// unsubscribes of something not subscribed do not count
			if total[k] < plus[k]-minus[k] || total[k] > plus[k] {
				w.Fail("count", "%q counts %d after %d subscribes and %d unsubscribes", k, total[k], plus[k], minus[k])
			}
			if minus[k] == 0 && total[k] != plus[k] {
				w.Fail("count", "%q counts %d after %d subscribes", k, total[k], plus[k])
			}
		}
	})
}

func c29() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "histories", Desc: "all histories of subscribing and unsubscribing", Weight: 2, Body: statHistories},
		{Name: "threads", Desc: "two or three threads, before every statement", Quick: 3, Deep: 4, Body: statThreads},
	}
}
