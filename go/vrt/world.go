// Package vrt is the runtime under the instrumented code: a cooperative scheduler in which exactly one
// thread runs at a time and every visible operation is a choice point, a virtual clock, an in-memory
// file system, deterministic randomness, and detection of deadlocks, hangs and crashes.
package vrt

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// W is the active world, nil outside executions (package initialisation, harness bookkeeping).
var W *World

// BaseTime is the virtual time at which worlds start.
var BaseTime = time.Unix(1_700_000_000, 0)

// Options of a world.
type Options struct {
	FS          *FS             // file system to use (new empty one if nil)
	Start       time.Duration   // offset of the start time from BaseTime
	Horizon     time.Duration   // virtual time without progress of client threads after which it is a hang
	MaxSteps    int             // steps after which an execution is a livelock
	Sched       bool            // scheduling choices are explored (otherwise the default schedule is used)
	TimeChoice  bool            // "the next timer fires now" is a scheduling choice
	Stalls      []time.Duration // "the running thread stalls for this long" are scheduling choices
	Hold        string          // a client by name, or code0, code1... for threads of the code: held once, at its step HoldAt, for HoldFor
	HoldAt      int
	HoldFor     time.Duration
	MapDesc     bool // iterate maps in descending key order
	SchedPolicy int  // 0: run the current thread first; 1: prefer other threads after each operation (round robin)
	Seed        int64
	NowStep     time.Duration // advance of the clock per reading (default 1µs)
}

// Failure of an execution.
type Failure struct {
	Rule   string // class of failure, stable across runs
	Detail string
	Stack  string
}

func (f *Failure) String() string {
	if f == nil {
		return "<nil>"
	}
	return f.Rule + ": " + f.Detail
}

type thread struct {
	id     int
	name   string
	wake   chan struct{}
	done   bool
	client bool        // created by the harness
	held   string      // what Options.Hold calls it: the name of a client, code0, code1... for the others
	label  string      // the process the thread belongs to, in worlds with several
	ready  func() bool // non-nil while blocked
	why    string
	spin   bool
	w      *World
	vc     vclock
}

type timer struct {
	vc   vclock
	when time.Time
	seq  int
	fire func()
	dead bool
}

// World is one execution environment.
type World struct {
	runner      *thread // thread that runs, and the number of steps it has made without blocking
	held        int
	codeThreads int
	runLen      int
	Opt         Options
	Chooser     *Chooser
	FS          *FS
	threads     []*thread
	cur         *thread
	now         time.Time
	progress    time.Time
	timers      []*timer
	tseq        int
	steps       int
	failure     *Failure
	aborting    bool
	ended       bool
	mainDone    bool
	doneC       chan struct{}
	exited      chan struct{}
	quiet       int // >0: scheduling choices are not explored
	rnd         uint64
	Log         []string
	LogOn       bool
	hash        uint64
	locals      map[string]interface{}
	hbOff       bool // too many threads to track
	firing      *timer
	maps        map[unsafe.Pointer]*mapShadow
	mem         map[unsafe.Pointer]*memShadow
	syncs       map[unsafe.Pointer]*SyncVar
}

// Result of running a world.
type Result struct {
	Failure *Failure
	Steps   int
	Hash    uint64
	World   *World
}

// NewWorld creates a world; it becomes active in Run.
func NewWorld(opt Options, ch *Chooser) *World {
	if opt.Horizon == 0 {
		opt.Horizon = 10 * time.Minute
	}
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 3_000_000
	}
	if opt.NowStep == 0 {
		opt.NowStep = time.Microsecond
	}
	if ch == nil {
		ch = NewChooser(nil)
	}
	w := &World{Opt: opt, Chooser: ch, FS: opt.FS, now: BaseTime.Add(opt.Start), doneC: make(chan struct{}, 1), exited: make(chan struct{}, 1), rnd: uint64(opt.Seed)*2654435761 + 88172645463325252}
	if w.FS == nil {
		w.FS = NewFS()
	}
	w.progress = w.now
	return w
}

// RunWorld runs body as the main thread of a new world and returns when it has returned or the execution failed.
func RunWorld(opt Options, ch *Chooser, body func(w *World)) Result {
	w := NewWorld(opt, ch)
	if W != nil {
		panic("vrt: nested world")
	}
	resetVars()
	W = w
	w.FS.reset(w)
	t := w.newThread("main", true)
	w.cur = t
	w.quiet++
	reinitVars()
	w.quiet--
	go w.threadMain(t, func() { body(w) }, true)
	t.wake <- struct{}{}
	<-w.doneC
	w.aborting = true
	for _, th := range w.threads {
		if th.done {
			continue
		}
		th.wake <- struct{}{}
		<-w.exited
	}
	W = nil
	w.ended = true
	return Result{Failure: w.failure, Steps: w.steps, Hash: w.hash, World: w}
}

func (w *World) newThread(name string, client bool) *thread {
	t := &thread{id: len(w.threads), name: name, wake: make(chan struct{}, 1), client: client, w: w}
	if w.cur != nil {
		t.label = w.cur.label
	}
	t.held = name
	if !client {
		t.held = fmt.Sprintf("code%d", w.codeThreads)
		w.codeThreads++
	}
	w.threads = append(w.threads, t)
	w.born(t)
	return t
}

func (w *World) threadMain(t *thread, fn func(), main bool) {
	<-t.wake
	normal := false
	defer func() {
		if !normal {
			if r := recover(); r != nil && !w.aborting {
				w.setFailure("panic", fmt.Sprint(r), string(debug.Stack()))
			} else if !w.aborting && w.failure == nil && !w.mainDone {
				// Goexit outside abort: treat as normal end
			}
		}
		t.done = true
		if w.aborting {
			w.exited <- struct{}{}
			return
		}
		if main {
			w.mainDone = true
		}
		if w.failure != nil || w.mainDone {
			w.end()
			return
		}
		w.reschedule(t)
	}()
	if w.aborting {
		normal = true
		return
	}
	fn()
	normal = true
}

// end tells the controller that the execution is over. The caller must park or exit.
func (w *World) end() {
	select {
	case w.doneC <- struct{}{}:
	default:
	}
}

func (w *World) setFailure(rule, detail, stack string) {
	if w.failure == nil {
		w.failure = &Failure{Rule: rule, Detail: detail, Stack: stack}
	}
}

// Fail records a failure found by the harness and ends the execution.
func (w *World) Fail(rule, format string, args ...interface{}) {
	if w.aborting {
		runtime.Goexit()
	}
	w.setFailure(rule, fmt.Sprintf(format, args...), "")
	w.parkForever()
}

func (w *World) parkForever() {
	t := w.cur
	w.end()
	<-t.wake
	runtime.Goexit()
}

// Failed reports the recorded failure.
func (w *World) Failed() *Failure { return w.failure }

// Go starts a harness (client) thread.
func (w *World) Go(name string, fn func()) *Handle {
	h := &Handle{}
	w.spawn(name, true, func() { defer func() { h.hb.Release(); h.done = true }(); fn() })
	return h
}

// Handle of a client thread.
type Handle struct {
	done bool
	hb   SyncVar
}

// Join waits for a client thread to end.
func (w *World) Join(hs ...*Handle) {
	for _, h := range hs {
		h := h
		w.Block("join", func() bool { return h.done })
		h.hb.Acquire()
	}
}

// Done reports whether the thread has ended.
func (h *Handle) Done() bool { return h.done }

func (w *World) spawn(name string, client bool, fn func()) {
	t := w.newThread(name, client)
	go w.threadMain(t, fn, false)
}

// Go is the instrumented go statement.
func Go(fn func()) {
	w := W
	if w == nil {
		go fn()
		return
	}
	if w.aborting {
		return
	}
	w.spawn(callerName(), false, fn)
	w.Yield("go")
}

func callerName() string {
	if pc, _, line, ok := runtime.Caller(2); ok {
		if f := runtime.FuncForPC(pc); f != nil {
			n := f.Name()
			if i := strings.LastIndex(n, "/"); i >= 0 {
				n = n[i+1:]
			}
			return fmt.Sprintf("%s:%d", n, line)
		}
	}
	return "?"
}

// Quiet runs fn without exploring scheduling choices.
func (w *World) Quiet(fn func()) {
	w.quiet++
	fn()
	w.quiet--
}

// SetQuiet switches exploration of scheduling choices off or on.
func (w *World) SetQuiet(q bool) {
	if q {
		w.quiet++
	} else {
		w.quiet--
	}
}

// fairAfter is the number of steps after which a running thread is taken to be polling.
const fairAfter = 500

// Step is a choice point inserted before statements that touch shared memory without synchronisation.
func Step() {
	if w := W; w != nil {
		w.Yield("step")
	}
}

// Yield is a choice point before a visible operation.
func (w *World) Yield(op string) {
	if w.aborting {
		return
	}
	t := w.cur
	if w.Opt.Hold != "" && t.held == w.Opt.Hold && w.quiet == 0 {
		if w.held++; w.held == w.Opt.HoldAt {
			w.Sleep(w.Opt.HoldFor)
		}
	}
	w.step(t, op)
	off := !w.Opt.Sched || w.quiet > 0
	// fairness: a thread that has run for long without blocking lets the others go first once
	if t == w.runner {
		w.runLen++
	} else {
		w.runner, w.runLen = t, 0
	}
	if w.runLen > fairAfter && (!off || w.runLen > 10*fairAfter) {
		w.runLen = 0
		t.spin = true
		w.switchFrom(t)
		return
	}
	if w.Opt.SchedPolicy == 0 && off {
		t.spin = false
		return
	}
	t.spin = false
	w.switchFrom(t)
}

// YieldSpin is a choice point of a thread that polls: others go first.
func (w *World) YieldSpin(op string) {
	if w.aborting {
		return
	}
	t := w.cur
	w.step(t, op)
	t.spin = true
	w.switchFrom(t)
}

func (w *World) step(t *thread, op string) {
	w.steps++
	if w.LogOn {
		w.Log = append(w.Log, fmt.Sprintf("%s[%d] %s", t.name, t.id, op))
	}
	if w.steps > w.Opt.MaxSteps {
		w.setFailure("livelock", "step limit reached; threads: "+w.dump(), "")
		w.parkForever()
	}
}

// Block suspends the current thread until ready() holds.
func (w *World) Block(why string, ready func() bool) {
	if w.aborting {
		return
	}
	t := w.cur
	w.step(t, why)
	w.runner = nil
	t.spin = false
	t.ready, t.why = ready, why
	w.switchFrom(t)
	t.ready = nil
}

// switchFrom picks the next thread and, if it is another one, hands over and waits.
func (w *World) switchFrom(t *thread) {
	next := w.pick(t)
	if next == nil { // failure
		w.parkForever()
		return
	}
	if next == t {
		return
	}
	w.cur = next
	next.wake <- struct{}{}
	<-t.wake
	if w.aborting {
		runtime.Goexit()
	}
}

// reschedule is called by an ending thread.
func (w *World) reschedule(t *thread) {
	next := w.pick(t)
	if next == nil {
		w.end()
		return
	}
	w.cur = next
	next.wake <- struct{}{}
}

func (w *World) isEnabled(t *thread) bool {
	return !t.done && (t.ready == nil || t.ready())
}

// pick chooses the thread to run next; nil after a failure.
func (w *World) pick(t *thread) *thread {
	for {
		n := len(w.threads)
		var opts, spins []*thread
		curOK := w.isEnabled(t)
		if curOK && !t.spin && w.Opt.SchedPolicy == 0 {
			opts = append(opts, t)
		}
		for i := 1; i < n; i++ {
			th := w.threads[(t.id+i)%n]
			if w.isEnabled(th) {
				if th.spin {
					spins = append(spins, th)
				} else {
					opts = append(opts, th)
				}
			}
		}
		if curOK && w.Opt.SchedPolicy == 1 && !t.spin {
			opts = append(opts, t)
		}
		if curOK && t.spin {
			spins = append(spins, t)
		}
		live := len(opts) > 0
		if !live && len(spins) > 0 {
			// only pollers can run: let time pass, then let them poll again
			if w.nextTimer() != nil {
				if !w.fireNext() {
					return nil
				}
				for _, s := range spins {
					s.spin = false
				}
				continue
			}
			opts, spins = spins, nil
			w.steps++
			if w.steps > w.Opt.MaxSteps {
				w.setFailure("livelock", "only polling threads remain: "+w.dump(), "")
				return nil
			}
		}
		if len(opts) == 0 {
			if w.nextTimer() == nil {
				w.setFailure("deadlock", "all threads are blocked: "+w.dump(), "")
				return nil
			}
			if !w.fireNext() {
				return nil
			}
			continue
		}
		if !w.Opt.Sched || w.quiet > 0 {
			th := opts[0]
			if th.client {
				w.progress = w.now
			}
			return th
		}
		opts = append(opts, spins...)
		k := len(opts)
		extra := 0
		hasTimer := w.Opt.TimeChoice && w.nextTimer() != nil
		if hasTimer {
			extra++
		}
		extra += len(w.Opt.Stalls)
		c := 0
		if k+extra > 1 {
			c = w.Chooser.Choose(k+extra, 1, "sched")
		}
		if c < k {
			th := opts[c]
			if th.client {
				w.progress = w.now
			}
			return th
		}
		c -= k
		if hasTimer {
			if c == 0 {
				if !w.fireNext() {
					return nil
				}
				continue
			}
			c--
		}
		w.AdvanceTo(w.now.Add(w.Opt.Stalls[c]))
		// a stall of the running thread: someone else goes first
		if curOK {
			t.spin = true
		}
	}
}

func (w *World) dump() string {
	var b strings.Builder
	for _, t := range w.threads {
		if t.done {
			continue
		}
		st := "runnable"
		if t.ready != nil {
			st = "blocked on " + t.why
		}
		fmt.Fprintf(&b, "%s[%d] %s; ", t.name, t.id, st)
	}
	return b.String()
}

func (w *World) nextTimer() *timer {
	var best *timer
	j := 0
	for _, x := range w.timers {
		if x.dead {
			continue
		}
		w.timers[j] = x
		j++
		if best == nil || x.when.Before(best.when) || (x.when.Equal(best.when) && x.seq < best.seq) {
			best = x
		}
	}
	w.timers = w.timers[:j]
	return best
}

func (w *World) fireNext() bool {
	x := w.nextTimer()
	if x == nil {
		return true
	}
	if x.when.After(w.now) {
		w.now = x.when
	}
	for _, t := range w.threads {
		if t.client && !t.done && t.why == "sleep" && t.ready != nil {
			w.progress = w.now
		}
	}
	if w.now.Sub(w.progress) > w.Opt.Horizon {
		w.setFailure("hang", fmt.Sprintf("no client thread progressed for %v of virtual time: %s", w.Opt.Horizon, w.dump()), "")
		return false
	}
	x.dead = true
	w.firing = x
	x.fire()
	w.firing = nil
	return true
}

// AdvanceTo moves the clock and fires every timer due, without running threads in between (a stall).
func (w *World) AdvanceTo(to time.Time) {
	for {
		x := w.nextTimer()
		if x == nil || x.when.After(to) {
			break
		}
		if x.when.After(w.now) {
			w.now = x.when
		}
		x.dead = true
		w.firing = x
		x.fire()
		w.firing = nil
	}
	if to.After(w.now) {
		w.now = to
	}
}

func (w *World) addTimer(when time.Time, fire func()) *timer {
	w.tseq++
	x := &timer{when: when, seq: w.tseq, fire: fire}
	w.timers = append(w.timers, x)
	return x
}

// Now reads the virtual clock.
func (w *World) Now() time.Time {
	if !w.aborting {
		w.now = w.now.Add(w.Opt.NowStep)
	}
	return w.now
}

// PeekNow reads the virtual clock without advancing it.
func (w *World) PeekNow() time.Time { return w.now }

// Sleep suspends the current thread for d of virtual time.
func (w *World) Sleep(d time.Duration) {
	if w.aborting {
		return
	}
	fired := false
	w.addTimer(w.now.Add(d), func() { fired = true })
	w.Block("sleep", func() bool { return fired })
}

// Rand returns the next deterministic random number.
func (w *World) Rand() uint64 {
	w.rnd ^= w.rnd << 13
	w.rnd ^= w.rnd >> 7
	w.rnd ^= w.rnd << 17
	return w.rnd
}

// Label of the process the current thread belongs to; new threads inherit it.
func (w *World) Label() string { return w.cur.label }

// SetLabel changes the label of the current thread.
func (w *World) SetLabel(s string) { w.cur.label = s }

// Local is storage that lives as long as the world.
func (w *World) Local(key string, mk func() interface{}) interface{} {
	if w.locals == nil {
		w.locals = map[string]interface{}{}
	}
	v, ok := w.locals[key]
	if !ok {
		v = mk()
		w.locals[key] = v
	}
	return v
}

// BlockUntil suspends the current thread until ready() holds or the clock reaches a time (never if zero).
func (w *World) BlockUntil(why string, deadline time.Time, ready func() bool) {
	if w.aborting {
		return
	}
	if deadline.IsZero() {
		w.Block(why, ready)
		return
	}
	fired := !deadline.After(w.now)
	var x *timer
	if !fired {
		x = w.addTimer(deadline, func() { fired = true })
	}
	w.Block(why, func() bool { return fired || ready() })
	if x != nil {
		x.dead = true
	}
}

// Note mixes a value into the outcome hash of the execution.
func (w *World) Note(vals ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, vals...)
	w.hash = w.hash*1099511628211 ^ h.Sum64()
}

// Threads lists the live threads, for diagnostics.
func (w *World) Threads() []string {
	var out []string
	for _, t := range w.threads {
		if !t.done {
			out = append(out, t.name)
		}
	}
	sort.Strings(out)
	return out
}

// Active reports whether instrumented operations are live.
func Active() bool { return W != nil && !W.aborting }

// GoLabel starts a thread of another process.
func (w *World) GoLabel(name, label string, fn func()) {
	w.spawn(name, false, fn)
	w.threads[len(w.threads)-1].label = label
}
