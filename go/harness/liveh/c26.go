package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/unit-io/unitdb/server/internal"
	rh "github.com/unit-io/unitdb/server/internal/pkg/hash"
	"vrt"
	"vrt/vexp"
	"vrt/vrpc"
)

func c26() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "messages", Desc: "every call and reply of the first elections is carried, lost or late", Quick: 2, Deep: 3, Weight: 4, Body: elMessages},
		{Name: "partitions", Desc: "all sequences of broken and restored links", Weight: 3, Body: elPartitions},
		{Name: "schedules", Desc: "threads of the three nodes interleave, timers fire at any point", Quick: 1, Deep: 2, Weight: 3, Body: elSchedules},
		{Name: "disruption", Desc: "a node cut off starts elections and comes back with a higher term, with calls lost or late", Quick: 1, Deep: 2, Weight: 3, Body: elDisruption},
		{Name: "sizes", Desc: "clusters of four and five nodes (thorough: six) cut in two in every way, twice, before and after the first election", Weight: 3, Body: func(x *vexp.X) { elSizes(x, false) }},
		{Name: "answers", Desc: "all sequences of pings and vote requests of several terms to one node", Body: func(x *vexp.X) { elAnswers(x, false) }},
	}
}

// rig is a cluster in a world with the monitor of its elections.
type rig struct {
	x      *vexp.X
	w      *vrt.World
	n      *vrpc.Net
	names  []string
	cl     map[string]*internal.Cluster
	down   map[string]bool // "a b": the link is broken
	voted  map[string]map[int]string
	won    map[string]map[int]map[string]bool
	leader map[int]string
	// highest term a node voted in, and since when
	promised map[string]int
	since    map[string]time.Time
	// pings sent with a term below one the node was pinged with
	stale    map[string]int
	pinged   map[string]int
	lastPing map[string]time.Time // "leader to": last ping executed
	lastSig  map[string]string    // leader -> signature in its last ping
	lastTerm map[string]int
	lastNode map[string][]string
	lastFrom time.Time
	lastLead string
	fate     func(from, to string, reply bool) vrpc.Fate
	hb       time.Duration
}

func link(a, b string) string {
	if a > b {
		a, b = b, a
	}
	return a + " " + b
}

// newRig makes a cluster; heartbeats in milliseconds per node.
func newRig(x *vexp.X, w *vrt.World, hb []int, orders [][]int, voteAfter, failAfter int) *rig {
	r := &rig{x: x, w: w, n: vrpc.Of(w), cl: map[string]*internal.Cluster{}, down: map[string]bool{}, voted: map[string]map[int]string{}, won: map[string]map[int]map[string]bool{},
		leader: map[int]string{}, promised: map[string]int{}, since: map[string]time.Time{}, stale: map[string]int{}, pinged: map[string]int{}, lastPing: map[string]time.Time{},
		lastSig: map[string]string{}, lastTerm: map[string]int{}, lastNode: map[string][]string{}}
	for i := range hb {
		r.names = append(r.names, fmt.Sprintf("node%d", i+1))
		if d := time.Duration(hb[i]) * time.Millisecond * 5 / 4; d > r.hb {
			r.hb = d
		}
	}
	r.n.Up = func(a, b string) bool { return !r.down[link(a, b)] }
	r.n.Fate = r.carried
	r.n.Seen = r.seen
	connCache()
	for i, name := range r.names {
		var nodes []string
		for j := range r.names {
			k := j
			if orders != nil {
				k = orders[i][j]
			}
			nodes = append(nodes, fmt.Sprintf(`{"name":"%s","addr":"%s:1"}`, r.names[k], r.names[k]))
		}
		cfg := fmt.Sprintf(`{"nodes":[%s],"Failover":{"enabled":%v,"heartbeat":%d,"vote_after":%d,"node_fail_after":%d}}`, strings.Join(nodes, ","), voteAfter > 0, hb[i], voteAfter, failAfter)
		internal.Globals.Cluster = nil
		self := name
		id := internal.ClusterInit(json.RawMessage(cfg), &self)
		if id != i+1 {
			w.Fail("worker", "%s has number %d, want %d", name, id, i+1)
		}
		r.cl[name] = internal.Globals.Cluster
	}
	return r
}

// connCache makes the table of connections the calls look into.
func connCache() {
	c := internal.NewConnCache()
	g := reflect.ValueOf(&internal.Globals).Elem()
	for g.Kind() == reflect.Ptr {
		g = g.Elem()
	}
	for i := 0; i < g.NumField(); i++ {
		if f := g.Field(i); f.Type() == reflect.TypeOf(c) {
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(c))
		}
	}
}

// start starts a node.
func (r *rig) start(name string) {
	h := false
	r.w.GoLabel("start "+name, name, func() { r.cl[name].Start(); h = true })
	r.w.Block("start", func() bool { return h })
}

func (r *rig) vote(node string, term int, for_ string) {
	if r.voted[node] == nil {
		r.voted[node] = map[int]string{}
	}
	if was, ok := r.voted[node][term]; ok && was != for_ {
		r.w.Fail("two-votes", "%s voted for %s and for %s in term %d", node, was, for_, term)
	}
	r.voted[node][term] = for_
	if term > r.promised[node] {
		r.promised[node] = term
		r.since[node] = r.w.PeekNow()
	}
}

// carried is told of every message when it is sent.
func (r *rig) carried(from, to, method string, args, reply interface{}, isReply bool) vrpc.Fate {
	switch a := args.(type) {
	case *internal.ClusterVoteRequest:
		if !isReply {
			r.x.Count("vote requests", 1)
			if a.Node != from {
				r.w.Fail("candidate", "%s asks for votes for %s", from, a.Node)
			}
			r.vote(from, a.Term, from)
		} else if reply.(*internal.ClusterVoteResponse).Result {
			r.x.Count("votes", 1)
			r.vote(to, a.Term, a.Node)
		}
	case *internal.ClusterPing:
		if isReply {
			break
		}
		r.x.Count("pings", 1)
		if a.Leader != from {
			r.w.Fail("leader", "%s claims that %s leads", from, a.Leader)
		}
		if was, ok := r.leader[a.Term]; !ok {
			n := 1 + len(r.won[from][a.Term])
			if n <= len(r.names)/2 {
				r.w.Fail("majority", "%s leads term %d with %d of %d votes", from, a.Term, n, len(r.names))
			}
			r.leader[a.Term] = from
			r.x.Count("leaders", 1)
		} else if was != from {
			r.w.Fail("two-leaders", "%s and %s both lead term %d", was, from, a.Term)
		}
		if a.Term < r.promised[from] && r.w.PeekNow().Sub(r.since[from]) > r.hb {
			r.w.Fail("leads-on", "%s leads term %d after voting in term %d", from, a.Term, r.promised[from])
		}
		if a.Term < r.pinged[from] {
			if r.stale[from]++; r.stale[from] > 10 {
				r.w.Fail("leads-on", "%s leads term %d after being pinged in term %d", from, a.Term, r.pinged[from])
			}
		}
		r.lastSig[from] = a.Signature
		r.lastTerm[from] = a.Term
		r.lastNode[from] = append([]string(nil), a.Nodes...)
		r.lastFrom, r.lastLead = r.w.PeekNow(), from
	}
	if r.fate == nil {
		return vrpc.Deliver
	}
	return r.fate(from, to, isReply)
}

// seen is told of every message when it arrives.
func (r *rig) seen(from, to, method string, args, reply interface{}, isReply bool) {
	switch a := args.(type) {
	case *internal.ClusterVoteRequest:
		if isReply && reply.(*internal.ClusterVoteResponse).Result {
			if r.won[from] == nil {
				r.won[from] = map[int]map[string]bool{}
			}
			if r.won[from][a.Term] == nil {
				r.won[from][a.Term] = map[string]bool{}
			}
			r.won[from][a.Term][to] = true
		}
	case *internal.ClusterPing:
		if isReply {
			return
		}
		if a.Term > r.pinged[to] {
			r.pinged[to] = a.Term
		}
		r.lastPing[from+" "+to] = r.w.PeekNow()
	}
}

// agrees tells whether a node has the given ring.
func (r *rig) agrees(name, sig string) bool {
	rejected := false
	internal.Globals.Cluster = r.cl[name]
	r.cl[name].Master(&internal.ClusterReq{Node: "nobody", Signature: sig, Conn: &internal.ClusterSess{ConnID: 1}}, &rejected)
	return !rejected
}

// settled checks that the connected nodes follow one leader with one ring.
func (r *rig) settled(live ...string) {
	last := r.w.PeekNow().Add(-4 * r.hb)
	lead := ""
	for _, n := range live {
		for _, m := range live {
			if n != m && r.lastPing[n+" "+m].After(last) {
				if lead != "" && lead != n {
					r.w.Fail("settle", "%s and %s both lead although nothing is lost any more", lead, n)
				}
				lead = n
			}
		}
	}
	if lead == "" {
		r.w.Fail("settle", "no node leads although %v have been connected for long (terms voted in: %v)", live, r.promised)
	}
	for _, n := range live {
		if n != lead && !r.lastPing[lead+" "+n].After(last) {
			r.w.Fail("settle", "%s leads but does not ping %s", lead, n)
		}
	}
	for _, n := range live {
		if !r.agrees(n, r.lastSig[lead]) {
			r.w.Fail("ring", "%s has another ring than the leader %s, whose members are %v", n, lead, r.lastNode[lead])
		}
	}
	got := append([]string(nil), r.lastNode[lead]...)
	sort.Strings(got)
	want := append([]string(nil), live...)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		r.w.Fail("ring", "the leader's ring has %v instead of %v", got, want)
	}
	r.w.Note(lead, r.lastTerm[lead])
}

var beats = [][]int{{100, 120, 140}, {140, 100, 120}, {100, 100, 103}, {120, 120, 100}}

func in(s string, l []string) bool {
	for _, t := range l {
		if s == t {
			return true
		}
	}
	return false
}

// elRun runs a cluster: phase is called when all nodes have been started. When it names nodes, these are
// connected from then on and the others are cut off, and they have to agree in the end.
func elRun(x *vexp.X, opt vrt.Options, hb []int, setup func(r *rig), phase func(r *rig) (live []string)) {
	x.World(opt, func(w *vrt.World) {
		w.SetQuiet(true)
		r := newRig(x, w, hb, nil, 4, 3)
		if setup != nil {
			setup(r)
		}
		for _, n := range r.names {
			r.start(n)
		}
		w.SetQuiet(false)
		live := phase(r)
		w.SetQuiet(true)
		r.fate = nil
		if live == nil {
			w.Sleep(3 * time.Second)
			w.Note(r.lastLead, r.lastTerm[r.lastLead])
			return
		}
		r.down = map[string]bool{}
		for _, n := range r.names {
			if !in(n, live) {
				for _, m := range live {
					r.down[link(n, m)] = true
				}
			}
		}
		w.Sleep(15 * time.Second)
		r.settled(live...)
	})
}

func elOpts(x *vexp.X, nb, ns int) ([]int, vrt.Options) {
	b := beats[x.Pick(depth(x, nb, len(beats)), "heartbeats")]
	o := vrt.Options{Horizon: time.Hour, Seed: int64(1 + x.Pick(depth(x, ns, 2), "random"))}
	x.Key("heartbeats %v seed %d", b, o.Seed)
	return b, o
}

// withFates makes every message a choice.
func (r *rig) withFates(max int, between func(from, to string) bool) {
	i := 0
	r.fate = func(from, to string, reply bool) vrpc.Fate {
		if between != nil && !between(from, to) {
			return vrpc.Deliver
		}
		if i++; i > max {
			return vrpc.Deliver
		}
		what := "call"
		if reply {
			what = "reply"
		}
		switch c := r.x.PickCost(4, 1, "message"); c {
		case 1:
			r.x.AddKey("[%s %d %s-%s lost]", what, i, from, to)
			return vrpc.Lose
		case 2, 3:
			d := []time.Duration{70 * time.Millisecond, 650 * time.Millisecond}[c-2]
			r.x.AddKey("[%s %d %s-%s %v late]", what, i, from, to, d)
			r.n.DelayFor(r.w, d)
			return vrpc.Delay
		}
		return vrpc.Deliver
	}
}

func elMessages(x *vexp.X) {
	hb, o := elOpts(x, 3, 1)
	elRun(x, o, hb, func(r *rig) { r.withFates(depth(x, 36, 60), nil) }, func(r *rig) []string {
		r.w.Sleep(2500 * time.Millisecond)
		return nil
	})
}

// partition goes through a sequence of broken links.
func (r *rig) partition(n int) {
	for i := 0; i < n; i++ {
		c := r.x.Pick(8, "links")
		r.down = map[string]bool{}
		for b, l := range []string{link(r.names[0], r.names[1]), link(r.names[0], r.names[2]), link(r.names[1], r.names[2])} {
			if c&(1<<b) != 0 {
				r.down[l] = true
			}
		}
		d := []time.Duration{300 * time.Millisecond, 1500 * time.Millisecond}[r.x.Pick(2, "duration")]
		r.x.AddKey("%03b for %v", c, d)
		r.w.Sleep(d)
	}
}

func elPartitions(x *vexp.X) {
	hb, o := elOpts(x, 3, 1)
	elRun(x, o, hb, nil, func(r *rig) []string {
		r.partition(depth(x, 3, 4))
		return nil
	})
}

func elSchedules(x *vexp.X) {
	hb, o := elOpts(x, 4, 2)
	o.Sched, o.TimeChoice = true, true
	elRun(x, o, hb, nil, func(r *rig) []string {
		r.w.SetQuiet(true)
		r.w.Sleep(300 * time.Millisecond)
		r.w.SetQuiet(false)
		r.w.Sleep(900 * time.Millisecond)
		return nil
	})
}

// elSizes cuts clusters of several sizes in two in every way, one after the other.
func elSizes(x *vexp.X, settle bool) {
	n := 4 + x.Pick(depth(x, 2, 3), "nodes")
	few := 2
	if settle {
		few = 1
	}
	hb := [][]int{{100, 120, 140, 110, 130, 150}, {140, 100, 130, 120, 110, 105}}[x.Pick(depth(x, few, 2), "heartbeats")][:n]
	seed := 1 + x.Pick(depth(x, few, 3), "random")
	early := x.Pick(2, "when")
	x.Key("heartbeats %v seed %d, cut %s:", hb, seed, []string{"from the start", "later"}[early])
	elRun(x, vrt.Options{Horizon: time.Hour, Seed: int64(seed)}, hb, func(r *rig) {
		if early == 0 {
			r.split(x.Pick(1<<(n-1), "cut"))
		}
	}, func(r *rig) []string {
		var big []string
		if early == 1 {
			r.first()
			big = r.split(x.Pick(1<<(n-1), "cut"))
		}
		r.w.Sleep(1500 * time.Millisecond)
		big = r.split(x.Pick(1<<(n-1), "cut again"))
		r.w.Sleep(1500 * time.Millisecond)
		if !settle {
			return nil
		}
		if len(big) > n/2 && x.Pick(2, "healed") == 0 {
			return big
		}
		x.AddKey("healed")
		return r.names
	})
}

// elAnswers sends one node all sequences of pings and vote requests; its own elections are far away.
func elAnswers(x *vexp.X, rings bool) {
	n := depth(x, 4, 5)
	x.World(vrt.Options{Horizon: time.Hour, Seed: 1}, func(w *vrt.World) {
		r := newRig(x, w, []int{100000, 100000, 100000, 100000}, nil, 4, 3)
		for i, a := range r.names {
			for _, b := range r.names[i+1:] {
				r.down[link(a, b)] = true
			}
		}
		r.start("node1")
		c := r.cl["node1"]
		// the ring names the leader of each term with the node itself, and so tells whom the node follows
		leads := map[int]string{2: "node2", 4: "node3", 6: "node4"}
		follows, pinged := 0, 0
		for i := 0; i < n; i++ {
			e := x.Pick(9, "event")
			if e < 3 {
				t := 2 + 2*e
				x.AddKey("ping %d", t)
				for j := 0; j < 3; j++ {
					no := false
					if err := c.Ping(&internal.ClusterPing{Leader: leads[t], Term: t, Signature: "of " + leads[t], Nodes: []string{leads[t], "node1"}}, &no); err != nil {
						w.Fail("worker", "ping: %v", err)
					}
					w.Sleep(time.Millisecond)
				}
				if t >= pinged {
					pinged = t
					if t >= r.promised["node1"] {
						follows = t
					}
				}
			} else {
				t := e - 2
				x.AddKey("vote %d", t)
				who := []string{"node2", "node3"}[i%2]
				if who == "node2" && leads[t] != "" {
					who = leads[t]
				}
				var resp internal.ClusterVoteResponse
				if err := c.Vote(&internal.ClusterVoteRequest{Node: who, Term: t}, &resp); err != nil {
					w.Fail("worker", "vote: %v", err)
				}
				x.Count("votes", 1)
				if resp.Result {
					if t < pinged && !rings {
						w.Fail("old-vote", "node1 votes in term %d after it was pinged in term %d", t, pinged)
					}
					if t < r.promised["node1"] && !rings {
						w.Fail("old-vote", "node1 votes in term %d after it voted in term %d", t, r.promised["node1"])
					}
					r.vote("node1", t, who)
				}
			}
			if rings && follows > 0 {
				x.Count("rings compared", 1)
				got := map[string]bool{}
				for k := 0; k < 100; k++ {
					got[ringOf(c).Get(fmt.Sprint(k))] = true
				}
				if len(got) != 2 || !got["node1"] || !got[leads[follows]] {
					w.Fail("follows", "node1 has a ring of %v although it was last pinged by %s, the leader of the highest term %d", got, leads[follows], follows)
				}
			}
		}
		w.Note(follows, pinged, r.promised["node1"])
	})
}

// split cuts the nodes in two and returns the larger part.
func (r *rig) split(c int) []string {
	var a, b []string
	for i, n := range r.names {
		if c&(1<<i) != 0 {
			a = append(a, n)
		} else {
			b = append(b, n)
		}
	}
	r.down = map[string]bool{}
	for _, n := range a {
		for _, m := range b {
			r.down[link(n, m)] = true
		}
	}
	r.x.AddKey("%v|%v", a, b)
	if len(a) > len(b) {
		return a
	}
	return b
}

// first waits for the first leader.
func (r *rig) first() string {
	for i := 0; i < 4 && r.lastLead == ""; i++ {
		r.w.Sleep(1200 * time.Millisecond)
	}
	if r.lastLead == "" {
		r.w.Fail("settle", "no leader although nothing has been lost")
	}
	return r.lastLead
}

// cutOff isolates a node.
func (r *rig) cutOff(who string) {
	for _, n := range r.names {
		if n != who {
			r.down[link(n, who)] = true
		}
	}
}

func elDisruption(x *vexp.X) {
	hb, o := elOpts(x, 4, 2)
	elRun(x, o, hb, nil, func(r *rig) []string {
		lead := r.first()
		who := r.names[x.Pick(3, "cut off")]
		r.cutOff(who)
		x.AddKey("%s cut off while %s leads", who, lead)
		r.w.Sleep([]time.Duration{900 * time.Millisecond, 2 * time.Second}[x.Pick(2, "duration")])
		r.down = map[string]bool{}
		r.withFates(depth(x, 40, 60), nil)
		r.w.Sleep(2500 * time.Millisecond)
		return nil
	})
}

// C33: what a cluster comes to when failures cease

func c33() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "healed", Desc: "all sequences of broken and restored links, then all links work", Weight: 3, Body: foHealed},
		{Name: "survivors", Desc: "nodes die and come back in every order; the connected ones agree", Weight: 3, Body: foSurvivors},
		{Name: "chain", Desc: "two nodes do not reach each other; the third follows the later leader", Body: foChain},
		{Name: "losses", Desc: "calls and replies are lost or late before everything works again", Quick: 1, Deep: 2, Weight: 3, Body: foLosses},
		{Name: "sizes", Desc: "clusters of four and five nodes (thorough: six) cut in two in every way, twice; the larger part, or all, come to agree", Weight: 3, Body: func(x *vexp.X) { elSizes(x, true) }},
		{Name: "follower", Desc: "all sequences of pings of several leaders and vote requests to one node", Body: func(x *vexp.X) { elAnswers(x, true) }},
	}
}

func c27() []vexp.Scenario {
	return []vexp.Scenario{
		{Name: "nodes", Desc: "the nodes of a running cluster agree on the owner of every contract whatever the order of their configuration", Body: foOwners},
	}
}

// ringOf is the ring of a node.
func ringOf(c *internal.Cluster) *rh.Ring {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf((*rh.Ring)(nil)) {
			return *(**rh.Ring)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	return nil
}

func foHealed(x *vexp.X) {
	hb, o := elOpts(x, 2, 1)
	elRun(x, o, hb, nil, func(r *rig) []string {
		r.partition(depth(x, 3, 4))
		return r.names
	})
}

func foSurvivors(x *vexp.X) {
	hb, o := elOpts(x, 3, 1)
	elRun(x, o, hb, nil, func(r *rig) []string {
		r.first()
		n := depth(x, 3, 4)
		var live []string
		for i := 0; i < n; i++ {
			c := x.Pick(4, "dead")
			live = nil
			r.down = map[string]bool{}
			for j, m := range r.names {
				if j+1 == c {
					r.cutOff(m)
				} else {
					live = append(live, m)
				}
			}
			d := []time.Duration{200 * time.Millisecond, 600 * time.Millisecond, 3 * time.Second}[x.Pick(3, "duration")]
			x.AddKey("%v connected for %v", live, d)
			r.w.Sleep(d)
		}
		return live
	})
}

func foChain(x *vexp.X) {
	b := beats[x.Pick(len(beats), "heartbeats")]
	o := vrt.Options{Horizon: time.Hour, Seed: int64(1 + x.Pick(depth(x, 3, 10), "random"))}
	cut := x.Pick(3, "link")
	from := x.Pick(2, "from")
	x.Key("heartbeats %v seed %d: link %d broken %s", b, o.Seed, cut, []string{"from the start", "later"}[from])
	x.World(o, func(w *vrt.World) {
		r := newRig(x, w, b, nil, 4, 3)
		l := []string{link(r.names[0], r.names[1]), link(r.names[0], r.names[2]), link(r.names[1], r.names[2])}[cut]
		mid := r.names[2-cut]
		r.down[l] = from == 0
		for _, n := range r.names {
			r.start(n)
		}
		if from == 1 {
			r.first()
			w.Sleep(500 * time.Millisecond)
			r.down[l] = true
		}
		// the third node may follow the leader of the highest term it was pinged in, and no other
		was, since := "", 0
		for i := 0; i < 200; i++ {
			w.Sleep(70 * time.Millisecond)
			t := r.pinged[mid]
			lead := r.leader[t]
			if l := fmt.Sprint(lead, t, r.lastSig[lead]); l != was {
				was, since = l, i
			}
			if i < since+30 || lead == "" || lead == mid || r.lastLeadOf(mid) != lead || !r.lastPing[lead+" "+mid].After(w.PeekNow().Add(-3*r.hb)) {
				continue
			}
			x.Count("rings compared", 1)
			if !r.agrees(mid, r.lastSig[lead]) {
				w.Fail("follows", "%s has another ring than %s, the leader of term %d it was last pinged in, whose members are %v", mid, lead, r.pinged[mid], r.lastNode[lead])
			}
		}
		w.Note(r.pinged[mid], r.leader[r.pinged[mid]])
	})
}

// lastLeadOf is the leader of the highest term the node voted in or was pinged in.
func (r *rig) lastLeadOf(n string) string {
	t := r.pinged[n]
	if r.promised[n] > t {
		t = r.promised[n]
	}
	return r.leader[t]
}

func foLosses(x *vexp.X) {
	hb, o := elOpts(x, 4, 1)
	elRun(x, o, hb, func(r *rig) { r.withFates(depth(x, 60, 60), nil) }, func(r *rig) []string {
		r.w.Sleep(3 * time.Second)
		return r.names
	})
}

func foOwners(x *vexp.X) {
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	failover := x.Pick(2, "failover")
	var orders [][]int
	for i := 0; i < 3; i++ {
		orders = append(orders, perms[x.Pick(len(perms), "order")])
	}
	x.Key("configured in the orders %v, failover %v", orders, failover == 1)
	x.World(vrt.Options{Horizon: time.Hour}, func(w *vrt.World) {
		r := newRig(x, w, []int{100, 110, 120}, orders, 4*failover, 3)
		for _, n := range r.names {
			r.start(n)
		}
		w.Sleep(50 * time.Millisecond)
		for _, n := range r.names {
			for _, m := range r.names {
				if !r.agrees(n, ringOf(r.cl[m]).Signature()) {
					w.Fail("ring", "%s and %s have different rings", n, m)
				}
			}
		}
		for i := 0; i < 300; i++ {
			key := fmt.Sprint(uint32(i) * 2654435761)
			owners := 0
			for _, n := range r.names {
				if ringOf(r.cl[n]).Get(key) == n {
					owners++
				}
			}
			if owners != 1 {
				w.Fail("owners", "contract %s has %d owners", key, owners)
			}
			x.Count("contracts", 1)
		}
		if failover == 1 {
			w.Sleep(10 * time.Second)
			r.settled(r.names...)
		}
	})
	x.Distinct(x.GetKey())
}
