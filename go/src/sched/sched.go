// Package sched runs a handful of goroutines under a controlled scheduler.
// Exactly one of them runs at a time; at every Point the one running may be
// preempted in favour of another. Which one runs next is asked of a chooser,
// so that a depth-first search over the answers visits every schedule within
// the preemption bound.
//
// Control passes through a plain variable read by functions the race detector
// does not look into, so the scheduler itself orders nothing as far as the race
// detector is concerned: only the synchronisation of the code under test does.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
)

const (
	stParked = iota
	stRunning
	stBlocked // waits for w
	stReal    // stuck in a real blocking operation
	stDone
)

// Waiter is the condition of a blocked thread.
type Waiter interface {
	Ready() bool
	What() string
}

type Thread struct {
	ID      int
	Name    string
	state   int
	w       Waiter
	gid     uint64
	unwind  bool
	f       func()
	Panic   interface{}
	Stack   string
	Aborted bool
	run     int
	site    int
	fin     int32 // set when f returned; orders that before the end of Run
}

const maxThreads = 32

var (
	active  bool
	abort   bool
	turn    int
	ths     [maxThreads]*Thread
	nth     int
	nReal   int
	ticks   int
	steps   int
	budget  int
	chooser func(n int) int
	filter  []bool
	// Livelock is set when an execution took too many steps.
	livelock bool
	trace    []string
	tracing  bool
	switches int
	lastRun  int
	// DelayBound makes every departure from running the threads in turn count
	// against the bound, also where the running thread cannot go on.
	DelayBound bool
)

const (
	stuckTurn  = -1
	maxSteps   = 20000
	maxTicks   = 2000000
	fairSteps  = 1500
	settleN    = 40
	realRounds = 60
)

type abortSig struct{}

// Site describes one instrumented statement.
type Site struct{ File, Func string }

var Sites []Site

// SetFilter chooses the statements at which threads may be preempted.
func SetFilter(f func(s Site) bool) {
	filter = make([]bool, len(Sites))
	for i, s := range Sites {
		filter[i] = f(s)
	}
}

// Result is the outcome of one execution.
type Result struct {
	Threads  []*Thread
	Steps    int
	Switches int
	Livelock bool
	Trace    []string
}

func (r *Result) Done(name string) bool {
	for _, t := range r.Threads {
		if t.Name == name {
			return t.state == stDone && !t.Aborted
		}
	}
	return false
}

// Stuck lists the threads that did not finish, with what they wait for.
func (r *Result) Stuck() []string {
	var s []string
	for _, t := range r.Threads {
		if t.state != stDone {
			s = append(s, t.Name+" ("+t.waits()+")")
		}
	}
	return s
}

func (t *Thread) waits() string {
	switch t.state {
	case stBlocked:
		return t.w.What()
	case stReal:
		return "a blocking operation"
	case stDone:
		return "done"
	}
	return "runnable"
}

func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	g, _ := strconv.ParseUint(f[1], 10, 64)
	return g
}

//go:norace
func self() *Thread {
	if nReal == 0 && !abort {
		if turn < 0 {
			return nil
		}
		return ths[turn]
	}
	g := goid()
	for i := 0; i < nth; i++ {
		if ths[i].gid == g {
			return ths[i]
		}
	}
	return nil
}

// Point is called before every instrumented statement.
//
//go:norace
func Point(site int) {
	if !active {
		return
	}
	ticks++
	if ticks > maxTicks && !abort {
		livelock = true
		abort = true
	}
	if abort {
		unwindSelf()
		return
	}
	if !filter[site] && nReal == 0 {
		return
	}
	t := self()
	if t == nil {
		return
	}
	if t.state == stReal {
		rejoin(t)
		return
	}
	if !filter[site] {
		return
	}
	t.site = site + 1
	if tracing {
		trace = append(trace, fmt.Sprintf("%s @%s:%s #%d", t.Name, Sites[site].File, Sites[site].Func, site))
	}
	reschedule(t, false)
}

// Yield is a point at which switching is free.
//
//go:norace
func Yield() {
	if !active {
		return
	}
	point(true, "yield")
}

// Step is a point in the environment.
//
//go:norace
func Step(what string) {
	if !active {
		return
	}
	point(false, what)
}

//go:norace
func point(free bool, what string) {
	ticks++
	if abort {
		unwindSelf()
		return
	}
	t := self()
	if t == nil {
		return
	}
	if t.state == stReal {
		rejoin(t)
		return
	}
	if tracing {
		trace = append(trace, t.Name+" "+what)
	}
	t.site = -len(what)
	reschedule(t, free)
}

//go:norace
func unwindSelf() {
	t := self()
	if t == nil || t.unwind {
		return
	}
	t.unwind = true
	panic(abortSig{})
}

// rejoin: a thread that was stuck in a real operation reached a point.
//
//go:norace
func rejoin(t *Thread) {
	nReal--
	t.state = stParked
	if turn == stuckTurn {
		// nobody runs: the monitor picks
	}
	waitTurn(t)
}

//go:norace
func settle() {
	if nReal == 0 {
		return
	}
	for i := 0; i < settleN; i++ {
		runtime.Gosched()
	}
}

//go:norace
func enabled(buf []int, except int) []int {
	for i := 0; i < nth; i++ {
		if i == except {
			continue
		}
		t := ths[i]
		if t.state == stParked || t.state == stBlocked && t.w.Ready() {
			buf = append(buf, i)
		}
	}
	return buf
}

//go:norace
func reschedule(t *Thread, free bool) {
	steps++
	if steps > maxSteps {
		livelock = true
		abort = true
		unwindSelf()
		return
	}
	settle()
	note(t)
	t.run++
	forced := t.run > fairSteps
	if budget <= 0 && (!free || DelayBound) && !forced {
		return
	}
	var arr [maxThreads]int
	en := enabled(arr[:0], t.ID)
	if len(en) == 0 {
		return
	}
	k := 0
	if forced {
		k = 1 + (steps/fairSteps)%len(en)
	} else {
		k = chooser(len(en) + 1)
	}
	if k == 0 {
		return
	}
	t.run = 0
	if (!free || DelayBound) && !forced {
		budget--
	}
	switches++
	t.state = stParked
	give(en[k-1])
	waitTurn(t)
}

// note records the control state: where every thread stands.
//
//go:norace
func note(cur *Thread) {
	if StateSet == nil {
		return
	}
	h := uint64(14695981039346656037) + uint64(cur.ID)
	for i := 0; i < nth; i++ {
		t := ths[i]
		h ^= uint64(t.site+1<<20)<<3 | uint64(t.state)
		h *= 1099511628211
		h ^= h >> 29
	}
	h ^= uint64(clock) << 7
	h *= 1099511628211
	if len(StateSet) < 1<<20 {
		StateSet[h] = struct{}{}
	}
}

// StateSet collects the control states seen, when set.
var StateSet map[uint64]struct{}

//go:norace
func give(i int) {
	ths[i].state = stRunning
	ticks++
	turn = i
	lastRun = i
}

// pick passes control on when the running thread cannot go on.
//
//go:norace
func pick() {
	settle()
	var arr [maxThreads]int
	en := enabled(arr[:0], -1)
	if len(en) == 0 {
		ticks++
		turn = stuckTurn
		return
	}
	switches++
	if !DelayBound {
		give(en[chooser(len(en))])
		return
	}
	// the default is the next thread in turn; any other costs a delay
	d := 0
	for d < len(en)-1 && en[d] < lastRun {
		d++
	}
	if en[d] < lastRun {
		d = 0
	}
	k := 0
	if budget > 0 {
		k = chooser(len(en))
		if k > 0 {
			budget--
		}
	}
	give(en[(d+k)%len(en)])
}

//go:norace
func waitTurn(t *Thread) {
	for turn != t.ID {
		if abort {
			unwindSelf()
			return
		}
		runtime.Gosched()
	}
	t.run = 0
}

// Block waits until w is ready; control passes to others meanwhile.
//
//go:norace
func Block(w Waiter) {
	if !active {
		return
	}
	t := self()
	if abort {
		unwindSelf()
		return
	}
	if t == nil {
		panic("sched: an unknown goroutine blocks in " + w.What())
	}
	if t.state == stReal {
		rejoin(t)
	}
	for !w.Ready() {
		t.state = stBlocked
		t.w = w
		if tracing {
			trace = append(trace, t.Name+" waits for "+w.What())
		}
		pick()
		waitTurn(t)
		if t.unwind {
			return
		}
	}
}

// Unwinding tells whether the calling thread is being torn down.
//
//go:norace
func Unwinding() bool {
	if !active || !abort {
		return false
	}
	t := self()
	return t == nil || t.unwind
}

//go:norace
func Active() bool { return active }

// Go starts a thread.
//
//go:norace
func Go(f func()) {
	if !active {
		go f()
		return
	}
	if abort {
		unwindSelf()
		return
	}
	if nth == maxThreads {
		livelock = true
		abort = true
		unwindSelf()
		return
	}
	start(fmt.Sprintf("go%d", nth), f)
	point(false, "go")
}

//go:norace
func start(name string, f func()) {
	t := &Thread{ID: nth, Name: name, f: f, state: stParked}
	ths[nth] = t
	nth++
	go top(t)
}

//go:norace
func top(t *Thread) {
	t.gid = goid()
	defer finish(t)
	waitTurn(t)
	if t.unwind {
		return
	}
	t.f()
}

//go:norace
func finish(t *Thread) {
	atomic.StoreInt32(&t.fin, 1)
	if r := recover(); r != nil {
		if _, ok := r.(abortSig); !ok {
			t.Panic = r
			t.Stack = string(debug.Stack())
		}
	}
	if abort {
		t.Aborted = t.unwind
		if !t.unwind && t.state != stReal {
			// finished in the very step that ended the execution
		}
		t.state = stDone
		done++
		return
	}
	real := t.state == stReal
	t.state = stDone
	done++
	if real {
		nReal--
		return
	}
	pick()
}

var done, epoch int

// Spawn adds a thread to the execution about to run.
//
//go:norace
func Spawn(name string, f func()) { start(name, f) }

// Run runs one execution: setup spawns the threads.
//
//go:norace
func Run(setup func(), maxPreempt int, choose func(n int) int, wantTrace bool) (res *Result) {
	active, abort, livelock = false, false, false
	turn, nth, nReal, ticks, steps, switches, done = stuckTurn, 0, 0, 0, 0, 0, 0
	budget = maxPreempt
	lastRun = 0
	epoch++
	chooser = choose
	trace, tracing = nil, wantTrace
	setup()
	// let every goroutine reach its start
	for i := 0; i < nth; i++ {
		for ths[i].gid == 0 {
			runtime.Gosched()
		}
	}
	active = true
	pick()
	last, same := ticks, 0
	for {
		if turn == stuckTurn {
			if nReal == 0 {
				break
			}
			for i := 0; i < realRounds; i++ {
				runtime.Gosched()
			}
			var arr [maxThreads]int
			if len(enabled(arr[:0], -1)) == 0 {
				break
			}
			pick()
			continue
		}
		if abort {
			break
		}
		runtime.Gosched()
		if ticks != last {
			last, same = ticks, 0
			continue
		}
		same++
		if same > realRounds {
			// the thread whose turn it is makes no progress: it is stuck in a
			// real blocking operation
			t := ths[turn]
			if t.state == stRunning {
				t.state = stReal
				nReal++
				pick()
			}
			same = 0
		}
	}
	res = &Result{Steps: steps, Switches: switches, Livelock: livelock, Trace: trace}
	for i := 0; i < nth; i++ {
		c := *ths[i]
		res.Threads = append(res.Threads, &c)
	}
	abort = true
	for i := 0; done < nth && i < 3000; i++ {
		runtime.Gosched()
	}
	active = false
	for i := 0; i < nth; i++ {
		atomic.LoadInt32(&ths[i].fin)
	}
	return res
}
