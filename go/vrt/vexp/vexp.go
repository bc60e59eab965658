// Package vexp explores every execution of a harness body within a bound on the number of deviations from
// the default schedule, by depth-first search over the recorded choices, spread over worker processes.
package vexp

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"vrt"
)

// Scenario is one bounded space of executions.
type Scenario struct {
	Name   string
	Desc   string
	Quick  int // deviation bound per tier; <0: not run in that tier
	Deep   int
	Weight int // share of the time budget, default 1
	Body   func(x *X)
}

// Failure found in one execution.
type Failure struct {
	Scenario string    `json:"scenario"`
	Rule     string    `json:"rule"`
	Key      string    `json:"key"`
	Detail   string    `json:"detail"`
	Stack    string    `json:"stack,omitempty"`
	Devs     []vrt.Dev `json:"devs"`
	Sites    []int32   `json:"sites,omitempty"` // places in the code that were choice points
	Replays  int       `json:"replays"`         // times it failed the same way when replayed
	Log      []string  `json:"log,omitempty"`
}

// X is the context of one execution.
type X struct {
	Ch      *vrt.Chooser
	fail    *Failure
	key     string
	steps   int64
	worlds  int64
	hash    uint64
	counts  map[string]int64
	hashes  []uint64
	LogOn   bool
	Tier    string
	log     []string
	samples []string
}

type stop struct{}

// Pick is a harness choice among n alternatives; all are explored.
func (x *X) Pick(n int, what string) int {
	if n <= 1 {
		return 0
	}
	return x.Ch.Choose(n, 0, what)
}

// PickCost is a choice whose non-default alternatives count against the bound.
func (x *X) PickCost(n, cost int, what string) int {
	if n <= 1 {
		return 0
	}
	return x.Ch.Choose(n, cost, what)
}

// Key describes the history explored so far; it identifies a failure.
func (x *X) Key(format string, args ...interface{}) { x.key = fmt.Sprintf(format, args...) }

// AddKey extends the key.
func (x *X) AddKey(format string, args ...interface{}) {
	if x.key != "" {
		x.key += " "
	}
	x.key += fmt.Sprintf(format, args...)
}

// GetKey returns the key.
func (x *X) GetKey() string { return x.key }

// Count adds to a named counter of the evidence.
func (x *X) Count(name string, n int64) { x.counts[name] += n }

// Note mixes a value into the outcome hash of the execution.
func (x *X) Note(vals ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, vals...)
	x.hash = x.hash*1099511628211 ^ h.Sum64()
}

// Distinct records an explored case as a distinct outcome of its own.
func (x *X) Distinct(vals ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, vals...)
	x.hashes = append(x.hashes, h.Sum64())
}

// Fail ends the execution with a failure.
func (x *X) Fail(rule, format string, args ...interface{}) {
	x.fail = &Failure{Rule: rule, Detail: fmt.Sprintf(format, args...), Key: x.key}
	panic(stop{})
}

// Try runs a world and returns its failure instead of ending the execution.
func (x *X) Try(opt vrt.Options, body func(w *vrt.World)) vrt.Result {
	x.worlds++
	var wp *vrt.World
	r := vrt.RunWorld(opt, x.Ch, func(w *vrt.World) {
		wp = w
		w.LogOn = x.LogOn
		body(w)
	})
	x.steps += int64(r.Steps)
	x.hash = x.hash*1099511628211 ^ r.Hash
	if x.LogOn && wp != nil {
		x.log = append(x.log, wp.Log...)
		x.log = append(x.log, "-- end of world --")
	}
	return r
}

// World runs a world and ends the execution when it fails.
func (x *X) World(opt vrt.Options, body func(w *vrt.World)) vrt.Result {
	r := x.Try(opt, body)
	if r.Failure != nil {
		x.fail = &Failure{Rule: r.Failure.Rule, Detail: r.Failure.Detail, Stack: r.Failure.Stack, Key: x.key}
		panic(stop{})
	}
	return r
}

// Stats of explored executions.
type Stats struct {
	Execs    int64            `json:"executions"`
	Worlds   int64            `json:"worlds"`
	Steps    int64            `json:"steps"`
	Choices  int64            `json:"choice_points"`
	Diverged int64            `json:"diverged"`
	Counts   map[string]int64 `json:"counts,omitempty"`
}

func (s *Stats) add(o *Stats) {
	s.Execs += o.Execs
	s.Worlds += o.Worlds
	s.Steps += o.Steps
	s.Choices += o.Choices
	s.Diverged += o.Diverged
	for k, v := range o.Counts {
		if s.Counts == nil {
			s.Counts = map[string]int64{}
		}
		s.Counts[k] += v
	}
}

type task struct {
	Scenario int
	Bound    int
	Items    [][]vrt.Dev
	Slice    time.Duration
	Sites    []int32 // places that are choice points
	Detect   bool    // look for unordered accesses
	One      bool    // run exactly the first item, do not expand
	Log      bool
}

type reply struct {
	Rest     [][]vrt.Dev
	Stats    Stats
	Hashes   []uint64
	Fails    []Failure
	Samples  []string
	Diverged string
	Log      []string
	Races    []int32
}

// ScenarioResult summarises a scenario.
type ScenarioResult struct {
	Name      string   `json:"name"`
	Desc      string   `json:"desc,omitempty"`
	Bound     int      `json:"bound"` // deviation bound explored completely, -1 if none
	Asked     int      `json:"bound_asked"`
	Exhausted bool     `json:"exhausted"`
	Stats     Stats    `json:"stats"`
	Distinct  int      `json:"distinct_outcomes"`
	Racy      []string `json:"racy,omitempty"` // places with unordered accesses, made choice points
	Wall      float64  `json:"wall_s"`
}

// Result of a run.
type Result struct {
	Prop      string           `json:"property"`
	Tier      string           `json:"tier"`
	Scenarios []ScenarioResult `json:"scenarios"`
	Total     Stats            `json:"total"`
	Distinct  int              `json:"distinct_outcomes"`
	Samples   []string         `json:"samples"`
	Failures  []Failure        `json:"failures"`
	Notes     []string         `json:"notes,omitempty"`
	Exhausted bool             `json:"exhausted"`
	Wall      float64          `json:"wall_s"`
}

func runOne(sc *Scenario, devs []vrt.Dev, tier string, log bool) (x *X) {
	x = &X{Ch: vrt.NewChooser(devs), counts: map[string]int64{}, LogOn: log, Tier: tier}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); !ok {
				x.fail = &Failure{Rule: "harness-panic", Detail: fmt.Sprint(r), Stack: string(debug.Stack()), Key: x.key}
			}
		}
		if x.fail != nil {
			x.fail.Scenario = sc.Name
			x.fail.Devs = append([]vrt.Dev(nil), devs...)
		}
	}()
	sc.Body(x)
	return x
}

var det = os.Getenv("VERIF_DET")

// determinism runs an execution twice and writes down where the logs differ (for debugging the harness).
func determinism(sc *Scenario, it []vrt.Dev, tier string) {
	a, b := runOne(sc, it, tier, true), runOne(sc, it, tier, true)
	for i := range a.log {
		if i >= len(b.log) || a.log[i] != b.log[i] {
			f, err := os.OpenFile(det, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o600)
			if err != nil {
				return
			}
			from := i - 5
			if from < 0 {
				from = 0
			}
			to := func(l []string) []string {
				if i+5 < len(l) {
					return l[:i+5]
				}
				return l
			}
			fmt.Fprintf(f, "%v %s at %d of %d/%d\n--- first\n%s\n--- second\n%s\n\n", it, a.key, i, len(a.log), len(b.log), strings.Join(to(a.log)[from:], "\n"), strings.Join(to(b.log)[from:], "\n"))
			f.Close()
			return
		}
	}
}

func worker(scs []Scenario, tier string) {
	runtime.GOMAXPROCS(1)
	if f := os.Getenv("VERIF_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			time.AfterFunc(20*time.Second, pprof.StopCPUProfile)
		}
	}
	debug.SetGCPercent(400)
	in := gob.NewDecoder(os.Stdin)
	out := gob.NewEncoder(os.NewFile(3, "reply"))
	seen := map[uint64]bool{}
	for {
		var t task
		if err := in.Decode(&t); err != nil {
			return
		}
		var r reply
		r.Stats.Counts = map[string]int64{}
		sc := &scs[t.Scenario]
		vrt.SetRacy(t.Sites, t.Detect)
		stack := t.Items
		t0 := time.Now()
		for len(stack) > 0 {
			it := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			x := runOne(sc, it, tier, t.Log)
			if det != "" {
				determinism(sc, it, tier)
			}
			r.Stats.Execs++
			r.Stats.Worlds += x.worlds
			r.Stats.Steps += x.steps
			r.Stats.Choices += int64(len(x.Ch.Trace))
			for k, v := range x.counts {
				r.Stats.Counts[k] += v
			}
			if len(r.Samples) < 3 {
				s := x.key
				if s == "" {
					s = fmt.Sprint(it)
				}
				r.Samples = append(r.Samples, sc.Name+": "+s)
			}
			if x.fail != nil {
				x.fail.Sites = t.Sites
				r.Fails = append(r.Fails, *x.fail)
			}
			if t.Log {
				r.Log = x.log
			}
			if x.Ch.Diverged != "" || !x.Ch.Done() && x.fail == nil {
				r.Stats.Diverged++
				r.Diverged = x.Ch.Diverged
				if r.Diverged == "" {
					r.Diverged = "execution ended before its deviations"
				}
			} else {
				for _, h := range append(x.hashes, x.hash) {
					if !seen[h] {
						if len(seen) > 2_000_000 {
							seen = map[uint64]bool{}
						}
						seen[h] = true
						r.Hashes = append(r.Hashes, h)
					}
				}
			}
			if t.One {
				stack = nil
				break
			}
			if x.Ch.Diverged == "" {
				start, spent := 0, 0
				if len(it) > 0 {
					start = int(it[len(it)-1].I) + 1
				}
				for _, d := range it {
					spent += int(d.K)
				}
				for i := start; i < len(x.Ch.Trace); i++ {
					c := x.Ch.Trace[i]
					if spent+int(c.Cost) > t.Bound {
						continue
					}
					for a := int32(1); a < c.N; a++ {
						nd := make([]vrt.Dev, len(it)+1)
						copy(nd, it)
						nd[len(it)] = vrt.Dev{I: int32(i), C: a, N: c.N, K: c.Cost}
						stack = append(stack, nd)
					}
				}
			}
			if len(r.Fails) >= 5 || time.Since(t0) > t.Slice {
				break
			}
		}
		r.Rest = stack
		r.Races = vrt.TakeRaces()
		if err := out.Encode(&r); err != nil {
			return
		}
	}
}

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	enc    *gob.Encoder
	dec    *gob.Decoder
	rp     *os.File
	stderr *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 64<<10 {
		t.b = t.b[:64<<10] // keep the head: the panic message comes first
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func startProc(args []string) *proc {
	cmd := exec.Command(os.Args[0], append([]string{"-worker"}, args...)...)
	rp, wp, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	p := &proc{cmd: cmd, in: in, rp: rp, stderr: &tail{}}
	cmd.Stderr = p.stderr
	if os.Getenv("VEXP_STDERR") != "" {
		cmd.Stderr = os.Stderr
	}
	cmd.ExtraFiles = []*os.File{wp}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	wp.Close()
	p.enc = gob.NewEncoder(in)
	p.dec = gob.NewDecoder(rp)
	return p
}

func (p *proc) close() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
	p.rp.Close()
}

// do sends a task; died says that the worker ended or hung.
func (p *proc) do(t task, limit time.Duration) (r reply, died string) {
	if err := p.enc.Encode(&t); err != nil {
		p.cmd.Wait()
		return r, "worker ended: " + p.stderr.String()
	}
	tm := time.AfterFunc(limit, func() { p.cmd.Process.Kill() })
	t0 := time.Now()
	if err := p.dec.Decode(&r); err != nil {
		tm.Stop()
		p.cmd.Wait()
		if time.Since(t0) >= limit {
			return r, "stuck"
		}
		return r, "worker ended: " + p.stderr.String()
	}
	tm.Stop()
	return r, ""
}

type explorer struct {
	scs     []Scenario
	args    []string
	nw      int
	procs   []*proc
	limit   time.Duration
	fails   map[string]Failure
	order   []string
	notes   []string
	samples []string
	stuck   bool
	sites   map[int32]bool // places found to race in the scenario
	points  []int32        // places that are choice points
	detect  bool
}

func sig(f *Failure) string { return f.Scenario + "|" + f.Rule + "|" + f.Key }

// explore runs one scenario at one bound until done or deadline.
func (e *explorer) explore(si, bound int, deadline time.Time, distinct map[uint64]bool, maxFails int) (st Stats, done bool) {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := [][]vrt.Dev{{}}
	busy := 0
	stopped := false
	nf := 0
	var wg sync.WaitGroup
	for i := 0; i < e.nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for {
				mu.Lock()
				for len(stack) == 0 && busy > 0 && !stopped {
					cond.Wait()
				}
				if len(stack) == 0 || stopped {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				// take a share of the oldest items (the largest subtrees)
				n := len(stack) / (2 * e.nw)
				if n < 1 {
					n = 1
				}
				if n > 256 {
					n = 256
				}
				items := make([][]vrt.Dev, n)
				copy(items, stack[len(stack)-n:])
				stack = stack[:len(stack)-n]
				busy++
				mu.Unlock()
				if e.procs[i] == nil {
					e.procs[i] = startProc(e.args)
				}
				r, died := e.procs[i].do(task{Scenario: si, Bound: bound, Items: items, Slice: 250 * time.Millisecond, Sites: e.points, Detect: e.detect}, e.limit)
				var crash []Failure
				if died != "" {
					e.procs[i].close()
					e.procs[i] = nil
					// find the item at fault
					r = reply{}
					for _, it := range items {
						p := startProc(e.args)
						r1, d1 := p.do(task{Scenario: si, Bound: bound, Items: [][]vrt.Dev{it}, One: true, Sites: e.points}, e.limit)
						p.close()
						if d1 == "" {
							// run again with expansion of this one only, by handing back its children
							p := startProc(e.args)
							r2, d2 := p.do(task{Scenario: si, Bound: bound, Items: [][]vrt.Dev{it}, Slice: 0, Sites: e.points}, e.limit)
							p.close()
							if d2 == "" {
								r.Rest = append(r.Rest, r2.Rest...)
								r.Stats.add(&r2.Stats)
								r.Hashes = append(r.Hashes, r2.Hashes...)
								r.Fails = append(r.Fails, r2.Fails...)
							}
							_ = r1
						} else {
							rule := "crash"
							if d1 == "stuck" {
								rule = "stuck"
							}
							crash = append(crash, Failure{Scenario: e.scs[si].Name, Rule: rule, Detail: firstLines(d1, 12), Devs: it, Sites: e.points})
							if rule == "stuck" {
								break
							}
						}
					}
				}
				mu.Lock()
				busy--
				stack = append(stack, r.Rest...)
				st.add(&r.Stats)
				for _, x := range r.Races {
					e.sites[x] = true
				}
				if r.Diverged != "" && len(e.notes) < 20 {
					e.notes = append(e.notes, e.scs[si].Name+": "+r.Diverged)
				}
				for _, h := range r.Hashes {
					if len(distinct) < 20_000_000 {
						distinct[h] = true
					}
				}
				if len(e.samples) < 40 {
					e.samples = append(e.samples, r.Samples...)
				}
				for _, f := range append(r.Fails, crash...) {
					s := sig(&f)
					if _, ok := e.fails[s]; !ok && len(e.fails) < 4000 {
						e.fails[s] = f
						e.order = append(e.order, s)
						nf++
					}
				}
				for _, f := range crash {
					e.stuck = e.stuck || f.Rule == "stuck"
				}
				if e.stuck || nf >= maxFails || time.Now().After(deadline) {
					stopped = true
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}(i)
	}
	wg.Wait()
	return st, !stopped || len(stack) == 0 && busy == 0 && nf < maxFails
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// Main runs the scenarios of a property.
func Main(props map[string][]Scenario) {
	isWorker := flag.Bool("worker", false, "")
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "", "result file")
	budget := flag.Duration("budget", 60*time.Second, "")
	nw := flag.Int("j", runtime.NumCPU(), "")
	only := flag.String("only", "", "substring of scenario names")
	maxFails := flag.Int("maxfails", 12, "")
	replay := flag.String("replay", "", "failure file to replay")
	limit := flag.Duration("limit", 60*time.Second, "wall time after which one slice is considered stuck")
	flag.Parse()
	scs := props[*prop]
	if scs == nil {
		fmt.Fprintf(os.Stderr, "no scenarios for %s\n", *prop)
		os.Exit(2)
	}
	if *isWorker {
		worker(scs, *tier)
		return
	}
	t0 := time.Now()
	e := &explorer{scs: scs, args: []string{"-prop", *prop, "-tier", *tier}, nw: *nw, procs: make([]*proc, *nw), limit: *limit, fails: map[string]Failure{}}
	if *replay != "" {
		data, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var f Failure
		if err := json.Unmarshal(data, &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		g := e.replay(&f, true)
		b, _ := json.MarshalIndent(g, "", " ")
		fmt.Println(string(b))
		if g != nil {
			os.Exit(1)
		}
		return
	}
	res := Result{Prop: *prop, Tier: *tier, Exhausted: true}
	distinct := map[uint64]bool{}
	var run []int
	total := 0
	for i := range scs {
		b := scs[i].Quick
		if *tier == "thorough" {
			b = scs[i].Deep
		}
		if b < 0 || *only != "" && !strings.Contains(scs[i].Name, *only) {
			continue
		}
		if scs[i].Weight == 0 {
			scs[i].Weight = 1
		}
		run = append(run, i)
		total += scs[i].Weight
	}
	end := t0.Add(*budget)
	for _, i := range run {
		if len(e.fails) > 0 && os.Getenv("VERIF_STOP") != "" {
			break // development: the first failure is enough
		}
		sc := &scs[i]
		want := sc.Quick
		if *tier == "thorough" {
			want = sc.Deep
		}
		left := time.Until(end)
		share := time.Duration(float64(left) * float64(sc.Weight) / float64(total))
		total -= sc.Weight
		deadline := time.Now().Add(share)
		r := ScenarioResult{Name: sc.Name, Desc: sc.Desc, Bound: -1, Asked: want, Exhausted: true}
		s0 := time.Now()
		d := map[uint64]bool{}
		from := want
		if *tier == "thorough" && sc.Quick >= 0 && sc.Quick < want {
			from = sc.Quick
		}
		before := len(e.fails)
		if e.stuck {
			res.Exhausted = false
			break
		}
		e.sites, e.points, e.detect = map[int32]bool{}, nil, false
		cut := false
		if vrt.RaceBuild() && want > 0 {
			// unordered accesses to memory become choice points
			for k := 0; k < 3; k++ {
				e.detect = true
				n := len(e.sites)
				b := want
				if k == 0 && b > 1 {
					b = 1
				}
				st, done := e.explore(i, b, deadline, d, *maxFails)
				r.Stats = st
				if done && b == want && len(e.sites) == n {
					r.Bound = b
					break
				}
				if !done {
					r.Exhausted = false
					res.Exhausted = false
					cut = true
					break
				}
				if len(e.fails) > before || len(e.sites) == n {
					break
				}
				e.points = nil
				for s := range e.sites {
					e.points = append(e.points, s)
				}
				sort.Slice(e.points, func(i, j int) bool { return e.points[i] < e.points[j] })
			}
			e.detect = false
			for _, s := range e.points {
				r.Racy = append(r.Racy, vrt.SiteName(s))
			}
		}
		for b := from; b <= want && len(e.fails) == before && r.Bound < 0 && !cut; b++ {
			st, done := e.explore(i, b, deadline, d, *maxFails)
			r.Stats = st
			if !done {
				r.Exhausted = false
				res.Exhausted = false
				break
			}
			r.Bound = b
			if len(e.fails) > before {
				break
			}
		}
		r.Distinct = len(d)
		for h := range d {
			distinct[h^uint64(i)*0x9e3779b97f4a7c15] = true
		}
		r.Wall = time.Since(s0).Seconds()
		res.Scenarios = append(res.Scenarios, r)
		res.Total.add(&r.Stats)
	}
	for _, p := range e.procs {
		if p != nil {
			p.close()
		}
	}
	// replay failures before reporting them
	n := 0
	for _, s := range e.order {
		f := e.fails[s]
		if f.Rule == "stuck" && len(res.Failures) > 0 {
			continue
		}
		if n < 24 {
			n++
			if g := e.replay(&f, false); g != nil {
				f = *g
			} else {
				e.notes = append(e.notes, fmt.Sprintf("not reproduced: %s %s %s: %s", f.Scenario, f.Rule, f.Key, f.Detail))
				continue
			}
		}
		res.Failures = append(res.Failures, f)
	}
	sort.Strings(e.samples)
	if len(e.samples) > 12 {
		e.samples = append(e.samples[:6], e.samples[len(e.samples)-6:]...)
	}
	res.Samples = e.samples
	res.Distinct = len(distinct)
	res.Notes = e.notes
	res.Wall = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(res, "", " ")
	if *out == "" {
		fmt.Println(string(b))
	} else if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// replay runs a failing execution several times in fresh processes; nil unless it fails the same way each time.
func (e *explorer) replay(f *Failure, log bool) *Failure {
	si := -1
	for i := range e.scs {
		if e.scs[i].Name == f.Scenario {
			si = i
		}
	}
	if si < 0 {
		return nil
	}
	n := 4
	if f.Rule == "stuck" {
		n = 1
	}
	g := *f
	for k := 0; k < n; k++ {
		p := startProc(e.args)
		r, died := p.do(task{Scenario: si, Items: [][]vrt.Dev{f.Devs}, One: true, Log: log || k == 0, Sites: f.Sites}, e.limit)
		p.close()
		switch {
		case died != "" && (f.Rule == "crash" || f.Rule == "stuck"):
			g.Replays++
		case died == "" && len(r.Fails) == 1 && r.Fails[0].Rule == f.Rule && r.Fails[0].Key == f.Key:
			g.Replays++
			g.Stack, g.Detail = r.Fails[0].Stack, r.Fails[0].Detail
			if k == 0 {
				g.Log = r.Log
				if len(g.Log) > 4000 {
					g.Log = g.Log[len(g.Log)-4000:]
				}
			}
		default:
			return nil
		}
	}
	return &g
}

var _ = bytes.NewReader
