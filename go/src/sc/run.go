package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sched"
	_ "sites"
	"strings"
	"sync/atomic"
	"thrift"
	"time"
)

// program is one bounded model-checking run: exec performs one execution,
// asking ch for every choice (of data and of schedule), and reports a
// violation with fail.
type program struct {
	name   string
	filter func(s sched.Site) bool
	bound  int
	shards int
	delay  bool // the bound counts delays
	exec   func(x *execution)

	race      bool // also runs in the build with the race detector
	raceBound int
}

type execution struct {
	ch     func(n int) int
	bound  int
	trace  bool
	res    *sched.Result
	warmup bool
}

// run performs the scheduled part.
func (x *execution) run(setup func()) *sched.Result {
	x.res = sched.Run(setup, x.bound, x.ch, x.trace)
	for _, t := range x.res.Threads {
		if t.Panic != nil {
			if f, ok := t.Panic.(failure); ok {
				panic(f)
			}
			panic(failure{"panic", fmt.Sprintf("%s panics: %v\n%s", t.Name, t.Panic, t.Stack)})
		}
	}
	if x.res.Livelock {
		panic(failure{"livelock", "an execution does not come to an end: " + strings.Join(x.res.Stuck(), ", ")})
	}
	return x.res
}

type childViol struct {
	Key, Msg, Path string
	Trace          []string
}
type childResult struct {
	Execs, Steps, States int64
	Complete             bool
	Fuzzy                int64
	Viol                 []childViol
	Secs                 float64
}

// walker answers with the choices of a path, then with the first alternative.
// It is called from whichever thread runs, so the race detector must not look.
type walker struct {
	path, widths []int
	pos          int
	fuzzy        int64
}

//go:norace
func (w *walker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	k := 0
	if w.pos < len(w.path) {
		k = w.path[w.pos]
		if k >= n {
			k = n - 1
			w.path[w.pos] = k
			w.fuzzy++
		}
	} else {
		w.path = append(w.path, 0)
	}
	w.widths = append(w.widths, n)
	w.pos++
	return k
}

// explore walks the tree of choices depth first; with several shards, each
// takes the executions whose first deviation from the default is one of its
// share.
func explore(p *program, bound, shard, shards int, deadline time.Time) (r childResult) {
	start := time.Now()
	sched.SetFilter(p.filter)
	sched.DelayBound = p.delay
	if !racing {
		sched.StateSet = map[uint64]struct{}{}
	}
	one := func(path []int, trace bool) (npath, nwidth []int, v *childViol) {
		w := &walker{path: path}
		ch := w.choose
		x := &execution{ch: ch, bound: bound, trace: trace}
		func() {
			defer func() {
				if e := recover(); e != nil {
					v = &childViol{Key: "panic"}
					if f, ok := e.(failure); ok {
						v.Key, v.Msg = f.key, f.msg
					} else {
						v.Msg = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
					}
				}
			}()
			p.exec(x)
		}()
		if x.res != nil {
			r.Steps += int64(x.res.Steps)
			if v != nil {
				v.Trace = x.res.Trace
			}
		}
		if w.pos < len(w.path) {
			w.path = w.path[:w.pos]
		}
		r.Fuzzy += w.fuzzy
		return w.path, w.widths, v
	}
	one(nil, false) // state that survives an execution settles
	r.Steps = 0
	var path []int
	skip := false
	for {
		var widths []int
		if !skip {
			var v *childViol
			path, widths, v = one(path, false)
			r.Execs++
			if v != nil {
				dup := false
				for _, o := range r.Viol {
					dup = dup || o.Key == v.Key
				}
				if !dup {
					keep := append([]int(nil), path...)
					_, _, w := one(append([]int(nil), keep...), true)
					if w != nil {
						v.Trace = w.Trace
					}
					v.Path = fmt.Sprint(keep)
					if len(v.Trace) > 120 {
						v.Trace = v.Trace[len(v.Trace)-120:]
					}
					r.Viol = append(r.Viol, *v)
				}
				if len(r.Viol) >= 4 {
					break
				}
			}
		}
		i := len(path) - 1
		for i >= 0 {
			v := path[i] + 1
			if shards > 1 && firstNonzero(path[:i]) < 0 {
				// the first deviation from the default: is it this shard's?
				for v < widths[i] && (i+v)%shards != shard {
					v++
				}
			}
			if v < widths[i] {
				path[i] = v
				break
			}
			i--
		}
		if i < 0 {
			r.Complete = true
			break
		}
		path = path[:i+1]
		if r.Execs&31 == 0 && time.Now().After(deadline) {
			break
		}
	}
	r.States = int64(len(sched.StateSet))
	r.Secs = time.Since(start).Seconds()
	return r
}

func firstNonzero(p []int) int {
	for i, v := range p {
		if v != 0 {
			return i
		}
	}
	return -1
}

// racing: this is the build with the race detector.
var racing bool

var programs = map[string]func(thorough bool) []*program{}

func init() {
	if os.Getenv("VERIF_SCHED_CHILD") == "" {
		return
	}
	fs := flag.NewFlagSet("child", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	name := fs.String("name", "", "")
	bound := fs.Int("bound", 2, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	secs := fs.Int("deadline", 300, "")
	thorough := fs.Bool("thorough", false, "")
	race := fs.Bool("race", false, "")
	fs.Parse(os.Args[1:])
	childMain = func() {
		racing = *race
		runtime.GOMAXPROCS(1)
		debug.SetGCPercent(400)
		thrift.LOGGER = log.New(io.Discard, "", 0)
		for _, p := range programs[*prop](*thorough) {
			if p.name == *name {
				r := explore(p, *bound, *shard, *shards, time.Now().Add(time.Duration(*secs)*time.Second))
				b, _ := json.Marshal(r)
				fmt.Printf("RESULT %s\n", b)
				os.Exit(0)
			}
		}
		fmt.Println("no such program", *name)
		os.Exit(3)
	}
}

// runPrograms explores every program of a property in child processes.
func runPrograms(c *Ctx, prop string) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	raceBin := os.Getenv("VERIF_RACE_BIN")
	type job struct {
		p     *program
		bound int
		shard int
		race  bool
	}
	var jobs []job
	ps := programs[prop](c.Thorough())
	for _, p := range ps {
		n := p.shards
		if n < 1 {
			n = 1
		}
		for s := 0; s < n; s++ {
			jobs = append(jobs, job{p, p.bound, s, false})
		}
	}
	for _, p := range ps {
		if p.race && raceBin != "" {
			jobs = append(jobs, job{p, min(p.raceBound, p.bound), 0, true})
		}
	}
	id := func(i int) string {
		j := jobs[i]
		s := fmt.Sprintf("%s bound %d shard %d", j.p.name, j.bound, j.shard)
		if j.race {
			s += " race"
		}
		return s
	}
	var execs, raceExecs int64
	c.Par("programs", len(jobs), id, func(t *T, i int) {
		j := jobs[i]
		bin := self
		if j.race {
			bin = raceBin
		}
		sh := j.p.shards
		if sh < 1 || j.race {
			sh = 1
		}
		secs := 100
		if c.Thorough() {
			secs = 900
		}
		args := []string{"-prop", prop, "-name", j.p.name, "-bound", fmt.Sprint(j.bound), "-shard", fmt.Sprint(j.shard), "-shards", fmt.Sprint(sh), "-deadline", fmt.Sprint(secs)}
		if c.Thorough() {
			args = append(args, "-thorough")
		}
		if j.race {
			args = append(args, "-race")
		}
		cmd := exec.Command(bin, args...)
		cmd.Env = append(os.Environ(), "VERIF_SCHED_CHILD=1", "GODEBUG=asyncpreemptoff=1", "GORACE=halt_on_error=1 exitcode=66")
		var out, errb tailBuf
		out.max, errb.max = 1<<22, 20000
		cmd.Stdout, cmd.Stderr = &out, &errb
		e := cmd.Run()
		text := string(out.hd)
		k := strings.LastIndex(text, "RESULT ")
		if k < 0 {
			msg := errb.String()
			if strings.Contains(msg, "WARNING: DATA RACE") {
				t.Failf("race", "data race under a schedule of program %s:\n%s", j.p.name, clip(msg, 4000))
			}
			t.Failf("fatal", "the process exploring %s died: %v\n%s", j.p.name, e, clip(msg, 4000))
		}
		var r childResult
		if err := json.Unmarshal([]byte(text[k+7:]), &r); err != nil {
			t.Failf("internal", "%v", err)
		}
		t.Ops(int(r.Steps))
		atomic.AddInt64(&c.traces, r.Execs)
		if !j.race {
			atomic.AddInt64(&c.moreStates, r.States)
			atomic.AddInt64(&execs, r.Execs)
		} else {
			atomic.AddInt64(&raceExecs, r.Execs)
		}
		if !r.Complete && len(r.Viol) == 0 || r.Fuzzy > 0 {
			atomic.StoreInt32(&c.truncated, 1)
		}
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Printf("%s: %d executions, %d states, complete %v, fuzzy %d, %.1fs\n", id(i), r.Execs, r.States, r.Complete, r.Fuzzy, r.Secs)
		}
		t.Sample(map[string]interface{}{"program": j.p.name, "preemption_bound": j.bound, "schedules": r.Execs, "race_detector": j.race})
		for _, v := range r.Viol {
			v := v
			t.Try("choices "+v.Path, func() {
				t.Failf(v.Key, "%s\nlast steps:\n  %s", v.Msg, strings.Join(v.Trace, "\n  "))
			})
		}
	})
	c.Extra("schedules", execs)
	c.Extra("schedules_under_race_detector", raceExecs)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
