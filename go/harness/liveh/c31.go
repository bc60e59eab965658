package main

import (
	"fmt"
	"sort"
	"time"

	lp "github.com/unit-io/unitdb/server/internal/net"
	"github.com/unit-io/unitdb/server/utp"
	"vrt"
	"vrt/vexp"
)

func c31() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "histories", Desc: "messages are published, fetched and receipted, the client leaves and returns, the server restarts and crashes", Weight: 5, Body: relHistories},
		{Name: "crash", Desc: "the server crashes at every point of a history, with torn writes", Weight: 3, Body: relCrash},
		{Name: "threads", Desc: "publications, receipts and leaving at the same time", Quick: 1, Deep: 2, Weight: 2, Body: relThreads},
	}
}

const (
	relContract = 0x70000
	relKey      = 77
)

// rel is the reference model of a session of reliable messages.
type rel struct {
	x       *vexp.X
	w       *vrt.World
	s       *Server
	sm      uint8
	byID    bool // the client connects without a session key first
	told    int32
	id      string
	pub     [2]*Client
	c       *Client
	fetched map[string]bool
	pending map[string]uint16 // payload -> number it was announced with
	order   []string
	done    map[string]bool
	express map[string]bool
	n       int
}

func newRel(x *vexp.X, sm uint8, byID bool) *rel {
	return &rel{x: x, sm: sm, byID: byID, fetched: map[string]bool{}, pending: map[string]uint16{}, done: map[string]bool{}, express: map[string]bool{}}
}

// start boots a server for the session; the client is not connected.
func (r *rel) start(w *vrt.World) {
	r.w = w
	r.s = boot(r.x, w)
	r.c = nil
	for i := range r.pub {
		r.pub[i] = r.s.join(fmt.Sprintf("publisher %d", i), r.s.newID(nil, relContract).Encode(r.s.mac), true, true, int32(i+1))
	}
	if r.id == "" {
		id := r.s.newID(nil, relContract)
		id.SetEpoch(id.Epoch() - 1000)
		r.id = id.Encode(r.s.mac)
	}
}

func (r *rel) fail(rule, f string, a ...interface{}) { r.w.Fail(rule, f, a...) }

// notified lists the numbers announced to the client since the mark.
func notified(c *Client) []uint16 {
	var out []uint16
	for _, m := range c.got[c.next:] {
		if k, ok := m.(*utp.ControlMessage); ok && k.FlowControl == utp.NOTIFY {
			out = append(out, k.MessageID)
		}
	}
	return out
}

// fetch asks for an announced message.
func (r *rel) fetch(c *Client, id uint16) (payload string, ok bool) {
	c.mark()
	c.control(utp.RECEIVE, id)
	m := c.wait(5*time.Second, func(m lp.MessagePack) bool {
		p, ok := m.(*utp.Publish)
		return ok && p.MessageID == id
	})
	if m == nil {
		return "", false
	}
	p := m.(*utp.Publish)
	if len(p.Messages) != 1 || p.Messages[0].Topic != "x.y" && p.Messages[0].Topic != "unitdb/error/" {
		r.fail("content", "message %d: %s", id, show(p))
	}
	return string(p.Messages[0].Payload), true
}

func (r *rel) subscribe() {
	r.c.mark()
	r.c.subscribe(3, "x.y", r.sm, 0)
	if r.c.wait(5*time.Second, isAck(utp.SUBSCRIBE, 3)) == nil {
		r.fail("ack", "the subscription is not acknowledged: %s", showAll(r.c.got[r.c.next:]))
	}
}

func (r *rel) publish(from int, mode uint8) {
	r.n++
	pl := fmt.Sprintf("m%d", r.n)
	r.pub[from].mark()
	if r.c != nil {
		r.c.mark()
	}
	r.pub[from].publish(7, "x.y", pl, mode)
	r.w.Sleep(300 * time.Millisecond)
	if r.pub[from].count(isAck(utp.PUBLISH, 7)) != 1 {
		r.fail("ack", "the publication is not acknowledged once: %s", showAll(r.pub[from].got[r.pub[from].next:]))
	}
	if mode == 0 {
		r.express[pl] = true
	}
	if r.c == nil {
		return
	}
	ids := notified(r.c)
	if mode == 0 {
		if len(ids) != 0 {
			r.fail("notify", "an express message is announced: %s", showAll(r.c.got[r.c.next:]))
		}
		return
	}
	if len(ids) != 1 {
		r.fail("notify", "%s is announced %d times: %s", pl, len(ids), showAll(r.c.got[r.c.next:]))
	}
	for q, id := range r.pending {
		if id == ids[0] {
			r.fail("id", "%s is announced with number %d, which %s already has", pl, id, q)
		}
	}
	r.pending[pl] = ids[0]
	r.order = append(r.order, pl)
}

func (r *rel) get() {
	for _, pl := range r.order {
		got, ok := r.fetch(r.c, r.pending[pl])
		if !ok || got != pl {
			r.fail("content", "message %d was announced for %s; asked for, it is %q (%v): %s", r.pending[pl], pl, got, ok, showAll(r.c.got[r.c.next:]))
		}
	}
}

func (r *rel) receipt(i int) bool {
	if len(r.order) == 0 {
		return false
	}
	if i < 0 {
		i = len(r.order) - 1
	}
	pl := r.order[i]
	got, ok := r.fetch(r.c, r.pending[pl])
	if !ok || got != pl {
		r.fail("content", "message %d was announced for %s; asked for, it is %q (%v): %s", r.pending[pl], pl, got, ok, showAll(r.c.got[r.c.next:]))
	}
	r.sendReceipt(pl)
	return true
}

func (r *rel) sendReceipt(pl string) {
	id := r.pending[pl]
	r.c.mark()
	r.c.control(utp.RECEIPT, id)
	m := r.c.wait(5*time.Second, func(m lp.MessagePack) bool {
		k, ok := m.(*utp.ControlMessage)
		return ok && k.FlowControl == utp.COMPLETE && k.MessageID == id
	})
	if m == nil {
		r.fail("complete", "the receipt of message %d is not completed: %s", id, showAll(r.c.got[r.c.next:]))
	}
	r.forget(pl)
}

func (r *rel) forget(pl string) {
	delete(r.pending, pl)
	r.done[pl] = true
	for i, p := range r.order {
		if p == pl {
			r.order = append(append([]string(nil), r.order[:i]...), r.order[i+1:]...)
			break
		}
	}
}

func (r *rel) leave(polite bool) {
	if polite {
		r.c.send(&utp.Disconnect{})
		r.w.Sleep(100 * time.Millisecond)
	}
	r.c.conn.Close()
	r.w.Sleep(200 * time.Millisecond)
	r.c = nil
}

// dialKeep connects to the session again and returns what is announced: number -> payload.
func (r *rel) reconnect(name string, contract uint32, key int32, clean bool) (*Client, map[uint16]string) {
	cid := r.id
	if contract != relContract || key != r.sessKey() {
		cid = r.s.newID(nil, contract).Encode(r.s.mac)
	}
	c := r.s.dial(name)
	a := c.connect(&utp.Connect{ClientID: cid, InsecureFlag: true, CleanSessFlag: clean, SessKey: key})
	if a == nil || a.ReturnCode != utp.Accepted {
		r.fail("connect", "%s: not accepted: %v", name, a)
	}
	if key == 0 && r.byID && r.told == 0 {
		r.told = a.Epoch
	}
	c.next = 0
	r.w.Sleep(300 * time.Millisecond)
	ids := notified(c)
	out := map[uint16]string{}
	for _, id := range ids {
		pl, ok := r.fetch(c, id)
		if !ok {
			r.fail("content", "%s: message %d is announced and cannot be fetched: %s", name, id, showAll(c.got))
		}
		if _, ok := out[id]; ok {
			r.fail("notify", "%s: message %d is announced twice: %s", name, id, showAll(c.got))
		}
		out[id] = pl
	}
	return c, out
}

// sessKey is the session key the client asked for, or if it did not ask for any, the one it was told.
func (r *rel) sessKey() int32 {
	if r.byID {
		return r.told
	}
	return relKey
}

// back returns to the session and checks what is announced.
func (r *rel) back(clean bool) {
	if r.c != nil {
		r.leave(false)
	}
	c, got := r.reconnect("client", relContract, r.sessKey(), clean)
	r.c = c
	if clean {
		for _, pl := range r.order {
			r.done[pl] = true
		}
		r.order, r.pending = nil, map[string]uint16{}
	}
	seen := map[string]bool{}
	for id, pl := range got {
		switch {
		case r.done[pl]:
			r.fail("again", "%s is announced again, with number %d, though it was receipted or dropped", pl, id)
		case r.express[pl]:
		default:
			if _, ok := r.pending[pl]; !ok {
				r.fail("again", "%q is announced, with number %d; it was never announced before", pl, id)
			}
			if seen[pl] {
				r.fail("notify", "%s is announced twice", pl)
			}
			seen[pl] = true
			r.pending[pl] = id
		}
	}
	for _, pl := range r.order {
		if !seen[pl] {
			r.fail("lost", "%s was not receipted; it is not announced again on return: %v", pl, got)
		}
	}
	r.subscribe()
}

// strangers must not be told of the session's messages.
func (r *rel) strangers() {
	for _, q := range []struct {
		contract uint32
		key      int32
	}{{relContract, relKey + 1}, {0x90000, relKey}, {relContract, 0}} {
		if q.contract == relContract && q.key == r.sessKey() {
			continue
		}
		c, got := r.reconnect("stranger", q.contract, q.key, false)
		if len(got) > 0 {
			r.fail("stranger", "a client of contract %x with session key %d is told of %v", q.contract, q.key, got)
		}
		c.conn.Close()
		r.w.Sleep(100 * time.Millisecond)
	}
}

type relop struct {
	name string
	f    func(r *rel) bool // false: not applicable
}

func conn(f func(r *rel) bool) func(r *rel) bool {
	return func(r *rel) bool { return r.c != nil && f(r) }
}

var relops = []relop{
	{"publish/1", func(r *rel) bool { r.publish(0, 1); return true }},
	{"other publish/2", func(r *rel) bool { r.publish(1, 2); return true }},
	{"publish/0", func(r *rel) bool { r.publish(0, 0); return true }},
	{"fetch", conn(func(r *rel) bool { r.get(); return len(r.order) > 0 })},
	{"receipt first", conn(func(r *rel) bool { return r.receipt(0) })},
	{"receipt last", conn(func(r *rel) bool { return len(r.order) > 1 && r.receipt(-1) })},
	{"connection cut", conn(func(r *rel) bool { r.leave(false); return true })},
	{"disconnect", conn(func(r *rel) bool { r.leave(true); return true })},
	{"return", func(r *rel) bool { r.back(false); return true }},
	{"return clean", func(r *rel) bool { r.back(true); return true }},
	{"strangers", func(r *rel) bool { r.strangers(); return true }},
	{"crash", nil},
	{"restart", nil},
}

func relHistories(x *vexp.X) {
	n := depth(x, 3, 4)
	sm := uint8(1 + x.Pick(2, "subscriber mode"))
	byID := x.Pick(2, "session") == 1
	if byID {
		n--
	}
	x.Key("mode %d", sm)
	if byID {
		x.AddKey("without session key")
	}
	var ops []relop
	for i := 0; i < n; i++ {
		o := relops[x.Pick(len(relops), "op")]
		ops = append(ops, o)
		x.AddKey("%s,", o.name)
	}
	r := newRel(x, sm, byID)
	fs := vrt.NewFS()
	fs.NoRecord = true
	start := time.Duration(0)
	first := true
	for len(ops) > 0 || first {
		o := opts
		o.FS, o.Start = fs, start
		stop := false
		x.World(o, func(w *vrt.World) {
			r.start(w)
			r.back(!first)
			first = false
			r.publish(0, 1)
			for len(ops) > 0 {
				o := ops[0]
				ops = ops[1:]
				x.Count("operations", 1)
				if o.f == nil {
					w.Sleep(time.Second)
					if o.name == "restart" {
						r.s.svc.Close() // as on a signal; the process ends right after
					}
					stop = true
					break
				}
				if !o.f(r) {
					ops = nil
					return
				}
			}
			if !stop {
				r.finish()
			}
			start += w.PeekNow().Sub(vrt.BaseTime) - start + time.Minute
		})
		if stop && len(ops) == 0 {
			ops = []relop{{"end", func(r *rel) bool { return true }}}
		}
		fs = fs.Clone()
		fs.NoRecord = true
	}
}

// finish checks that everything pending is announced, and nothing any more once it is receipted.
func (r *rel) finish() {
	r.back(false)
	r.w.Note("pending", r.sm, r.order)
	for len(r.order) > 0 {
		r.receipt(0)
	}
	r.back(false)
	r.x.Count("sessions resumed", 2)
}

// relCrash: crash points.
func relCrash(x *vexp.X) {
	plans := [][]int{
		{0, 0, 4, 1, 8, 4},
		{0, 6, 8, 5, 0, 4},
		{1, 0, 9, 0, 7, 8},
		{2, 0, 4, 0, 8, 0},
	}
	pi := x.Pick(len(plans), "plan")
	plan := plans[pi]
	r := newRel(x, 1, false)
	type mark struct {
		ops           int
		pending, done []string
	}
	var marks []mark
	snap := func() {
		var d []string
		for p := range r.done {
			d = append(d, p)
		}
		sort.Strings(d)
		marks = append(marks, mark{len(r.w.FS.Ops), append([]string(nil), r.order...), d})
	}
	fs := vrt.NewFS()
	o := opts
	o.FS = fs
	var end time.Duration
	x.World(o, func(w *vrt.World) {
		r.start(w)
		r.back(true)
		w.Sleep(time.Second)
		snap()
		for _, k := range plan {
			relops[k].f(r)
			w.Sleep(time.Second)
			snap()
		}
		end = w.PeekNow().Sub(vrt.BaseTime)
	})
	ops := fs.Ops
	from := marks[0].ops
	n := from + x.Pick(len(ops)-from+1, "crash point")
	torn := -1
	if n < len(ops) {
		pre := vrt.Rebuild(ops, n, -1)
		if t := pre.Tears(ops[n]); len(t) > 0 {
			if i := x.Pick(len(t)+1, "torn"); i > 0 {
				torn = t[i-1]
			}
		}
	}
	k := 0
	for k+1 < len(marks) && marks[k+1].ops <= n {
		k++
	}
	x.Key("plan %d, crash after %d of %d file operations (torn %d), in step %d", pi, n-from, len(ops)-from, torn, k)
	all := map[string]bool{}
	for p := range r.done {
		all[p] = true
	}
	for p := range r.pending {
		all[p] = true
	}
	for p := range r.express {
		all[p] = true
	}
	// what must be announced: pending before and after the step the crash is in; what must not: done before it
	must, mustNot := map[string]bool{}, map[string]bool{}
	for _, p := range marks[k].pending {
		must[p] = true
	}
	for _, p := range marks[k].done {
		mustNot[p] = true
	}
	if k+1 < len(marks) {
		for _, p := range marks[k+1].done {
			delete(must, p)
		}
	}
	q := newRel(x, 1, false)
	q.id = r.id
	o = opts
	o.FS = vrt.Rebuild(ops, n, torn)
	o.FS.NoRecord = true
	o.Start = end + time.Minute
	x.World(o, func(w *vrt.World) {
		q.start(w)
		c, got := q.reconnect("client", relContract, relKey, false)
		q.c = c
		seen := map[string]bool{}
		for _, pl := range got {
			if !all[pl] {
				q.fail("content", "%q is announced; nobody published it", pl)
			}
			if seen[pl] {
				q.fail("notify", "%s is announced twice", pl)
			}
			seen[pl] = true
			if mustNot[pl] && !r.express[pl] {
				q.fail("again", "%s is announced again though it was receipted before the crash", pl)
			}
		}
		for pl := range must {
			if !seen[pl] {
				q.fail("lost", "%s was announced and not receipted before the crash; it is not announced again: %v", pl, got)
			}
		}
		x.Count("crash points", 1)
		var names []string
		for pl := range seen {
			names = append(names, pl)
		}
		sort.Strings(names)
		w.Note("plan", pi, "step", k, names)
		// the session goes on
		for id, pl := range got {
			q.pending[pl] = id
			q.order = append(q.order, pl)
		}
		sort.Strings(q.order)
		q.n = 100
		q.subscribe()
		q.publish(0, 1)
		if len(q.order) > 1 {
			q.receipt(0)
		}
		q.finish()
	})
}

// relThreads: a publication, a receipt and the end of the connection at the same time.
func relThreads(x *vexp.X) {
	what := x.Pick(4, "what")
	x.Key("%s", []string{"two publications", "publication and receipt", "publication and connection cut", "receipt and connection cut"}[what])
	o := opts
	o.Sched = true
	x.World(o, func(w *vrt.World) {
		w.SetQuiet(true)
		r := newRel(x, 1, false)
		r.start(w)
		r.back(true)
		r.publish(0, 1)
		r.get()
		r.c.mark()
		r.pub[0].mark()
		r.pub[1].mark()
		w.SetQuiet(false)
		published := 0
		if what != 3 {
			r.pub[0].publish(7, "x.y", "t1", 1)
			published++
		}
		if what == 0 {
			r.pub[1].publish(7, "x.y", "t2", 1)
			published++
		}
		if what == 1 || what == 3 {
			r.c.control(utp.RECEIPT, r.pending["m1"])
		}
		if what >= 2 {
			r.c.conn.Close()
		}
		w.Sleep(20 * time.Millisecond)
		w.SetQuiet(true)
		w.Sleep(5 * time.Second)
		ids := notified(r.c)
		if what < 2 && len(ids) != published {
			r.fail("notify", "%d messages are announced %d times: %s", published, len(ids), showAll(r.c.got[r.c.next:]))
		}
		for i, id := range ids {
			for _, o := range ids[:i] {
				if o == id {
					r.fail("id", "two messages are announced with number %d", id)
				}
			}
			if id == r.pending["m1"] {
				r.fail("id", "a message is announced with number %d, which another has", id)
			}
		}
		completed := r.c.count(func(m lp.MessagePack) bool {
			k, ok := m.(*utp.ControlMessage)
			return ok && k.FlowControl == utp.COMPLETE
		})
		if what == 1 && completed != 1 {
			r.fail("complete", "the receipt is completed %d times", completed)
		}
		if what < 2 {
			r.c.conn.Close()
			w.Sleep(time.Second)
		}
		c, got := r.reconnect("client", relContract, relKey, false)
		r.c = c
		seen := map[string]int{}
		for _, pl := range got {
			seen[pl]++
			if seen[pl] > 1 || pl != "m1" && pl != "t1" && pl != "t2" {
				r.fail("content", "announced on return: %v", got)
			}
		}
		w.Note(what, len(ids), completed, seen["m1"], seen["t1"], seen["t2"])
		if completed > 0 && seen["m1"] > 0 {
			r.fail("again", "m1 is announced again though it was receipted: %v", got)
		}
		if completed == 0 && (what == 0 || what == 2) && seen["m1"] == 0 {
			r.fail("lost", "m1 is not announced again: %v", got)
		}
		if what < 2 && seen["t1"] == 0 || what == 0 && seen["t2"] == 0 || len(ids) > len(got) && what != 1 && what != 3 {
			r.fail("lost", "announced before: %v, on return: %v", ids, got)
		}
	})
}
