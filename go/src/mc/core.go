// Package main is the explorer: every sub-check enumerates a bounded space of
// executions of the real library and compares each with an oracle.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"thrift"
	"time"
)

type Ctx struct {
	Prop     string
	Tier     string
	Seed     int64
	Only     string
	Repo     string
	deadline time.Time
	start    time.Time

	cases, ops, traces int64
	nontrivial         int64
	moreStates         int64
	truncated          int32

	stateMu [64]sync.Mutex
	states  [64]map[uint64]struct{}

	mu       sync.Mutex
	samples  []interface{}
	someCase []interface{}
	viol     map[string]*Violation
	order    []string
	known    map[string]string
	hitKnown map[string]string
	sections map[string]int64
	secOrder []string
	rules    []string
	assume   []string
	extra    map[string]interface{}

	liveMu sync.Mutex
	live   map[*T]time.Time
}

type Violation struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Case     string `json:"case"`
	Sub      string `json:"sub,omitempty"`
	Error    string `json:"error"`
	Stack    string `json:"stack,omitempty"`
	Replay   string `json:"how_to_replay"`
}

// T is the handle of one running case.
type T struct {
	c   *Ctx
	id  string
	sub string
	idf func() string
}

type failure struct{ key, msg string }

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}
func (c *Ctx) PickInts(q, t []int) []int {
	if c.Thorough() {
		return t
	}
	return q
}
func (c *Ctx) Expired() bool {
	if time.Now().After(c.deadline) {
		atomic.StoreInt32(&c.truncated, 1)
		return true
	}
	return false
}
func (c *Ctx) Rule(s string)   { c.mu.Lock(); c.rules = append(c.rules, s); c.mu.Unlock() }
func (c *Ctx) Assume(s string) { c.mu.Lock(); c.assume = append(c.assume, s); c.mu.Unlock() }
func (c *Ctx) Extra(k string, v interface{}) {
	c.mu.Lock()
	c.extra[k] = v
	c.mu.Unlock()
}
func (c *Ctx) AddExtra(k string, n int64) {
	c.mu.Lock()
	old, _ := c.extra[k].(int64)
	c.extra[k] = old + n
	c.mu.Unlock()
}

func (t *T) Failf(key, format string, a ...interface{}) {
	panic(failure{key, fmt.Sprintf(format, a...)})
}
func (t *T) Ops(n int)    { atomic.AddInt64(&t.c.ops, int64(n)) }
func (t *T) Trace()       { atomic.AddInt64(&t.c.traces, 1) }
func (t *T) Nontrivial()  { atomic.AddInt64(&t.c.nontrivial, 1) }
func (t *T) Sub(s string) { t.sub = s }
func (t *T) Ctx() *Ctx    { return t.c }
func (t *T) State(h uint64) bool {
	i := h >> 58
	t.c.stateMu[i].Lock()
	defer t.c.stateMu[i].Unlock()
	m := t.c.states[i]
	if m == nil {
		m = map[uint64]struct{}{}
		t.c.states[i] = m
	}
	if _, ok := m[h]; ok {
		return false
	}
	if len(m) < 1<<18 {
		m[h] = struct{}{}
	}
	return true
}
func (t *T) StateS(s string) bool { return t.State(hashS(s)) }

func hashS(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	// finalise so that the top bits spread
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}
func hashB(b []byte) uint64 { return hashS(string(b)) }

func (t *T) Sample(v interface{}) {
	t.c.mu.Lock()
	if len(t.c.samples) < 12 {
		t.c.samples = append(t.c.samples, v)
	}
	t.c.mu.Unlock()
}

// remember keeps the name of a case executed, as a sample for the evidence of
// a check that names none of its own.
func (c *Ctx) remember(n int, id func() string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.someCase = append(c.someCase, map[string]interface{}{"case": id(), "of_cases": n})
}

// Try runs one sub-case; its failure does not end the enclosing case.
func (t *T) Try(sub string, f func()) {
	old := t.sub
	t.sub = sub
	defer func() { t.sub = old }()
	t.guard(f)
}

func (t *T) guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			t.c.report(t, r, string(debug.Stack()))
		}
	}()
	f()
}

func (c *Ctx) report(t *T, r interface{}, stack string) {
	v := &Violation{Property: c.Prop, Sub: t.sub}
	if t.id == "" && t.idf != nil {
		t.id = t.idf()
	}
	v.Case = t.id
	if f, ok := r.(failure); ok {
		v.Key, v.Error = f.key, f.msg
	} else {
		v.Key, v.Error, v.Stack = "panic", fmt.Sprint("panic: ", r), stack
	}
	full := v.Case
	if v.Sub != "" {
		full += " | " + v.Sub
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for k, what := range c.known {
		if k == v.Key || strings.HasPrefix(v.Key+" @ "+full, k) {
			c.hitKnown[k] = what
			return
		}
	}
	k := v.Key + "|" + strings.SplitN(v.Case, "#", 2)[0]
	if _, ok := c.viol[k]; ok {
		return
	}
	c.viol[k] = v
	c.order = append(c.order, k)
}

// Par runs n cases of a section on all cores.
func (c *Ctx) Par(section string, n int, idf func(i int) string, f func(t *T, i int)) {
	c.mu.Lock()
	if _, ok := c.sections[section]; !ok {
		c.secOrder = append(c.secOrder, section)
	}
	c.mu.Unlock()
	var next, done int64 = -1, 0
	var wg sync.WaitGroup
	nw := runtime.NumCPU()
	if nw > n {
		nw = n
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := &T{c: c}
			c.liveMu.Lock()
			c.live[t] = time.Now()
			c.liveMu.Unlock()
			defer func() { c.liveMu.Lock(); delete(c.live, t); c.liveMu.Unlock() }()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if i&15 == 0 && c.Expired() {
					return
				}
				id := ""
				t.idf = func() string {
					if idf != nil {
						return section + "#" + idf(i)
					}
					return fmt.Sprintf("%s#%d", section, i)
				}
				if c.Only != "" {
					id = t.idf()
					if id != c.Only {
						continue
					}
				}
				t.id, t.sub = id, ""
				c.liveMu.Lock()
				c.live[t] = time.Now()
				c.liveMu.Unlock()
				t.guard(func() { f(t, i) })
				atomic.AddInt64(&done, 1)
				if i == n/2 {
					c.remember(n, t.idf)
				}
			}
		}()
	}
	wg.Wait()
	c.mu.Lock()
	c.sections[section] += done
	c.mu.Unlock()
	atomic.AddInt64(&c.cases, done)
}

// Seq runs cases one at a time (for checks that touch process-wide state).
func (c *Ctx) Seq(section string, n int, idf func(i int) string, f func(t *T, i int)) {
	old := runtime.GOMAXPROCS(0)
	_ = old
	c.mu.Lock()
	if _, ok := c.sections[section]; !ok {
		c.secOrder = append(c.secOrder, section)
	}
	c.mu.Unlock()
	t := &T{c: c}
	var done int64
	for i := 0; i < n && !c.Expired(); i++ {
		i := i
		t.idf = func() string {
			if idf != nil {
				return section + "#" + idf(i)
			}
			return fmt.Sprintf("%s#%d", section, i)
		}
		t.id, t.sub = t.idf(), ""
		if c.Only != "" && t.id != c.Only {
			continue
		}
		c.liveMu.Lock()
		c.live[t] = time.Now()
		c.liveMu.Unlock()
		t.guard(func() { f(t, i) })
		done++
		if i == n/2 {
			c.remember(n, t.idf)
		}
	}
	c.liveMu.Lock()
	delete(c.live, t)
	c.liveMu.Unlock()
	c.mu.Lock()
	c.sections[section] += done
	c.mu.Unlock()
	atomic.AddInt64(&c.cases, done)
}

var stuckLimit = 150 * time.Second

func (c *Ctx) watchdog() {
	limit := stuckLimit
	for {
		time.Sleep(2 * time.Second)
		c.liveMu.Lock()
		var stuck *T
		for t, since := range c.live {
			if time.Since(since) > limit {
				stuck = t
			}
		}
		c.liveMu.Unlock()
		if stuck != nil {
			buf := make([]byte, 1<<18)
			buf = buf[:runtime.Stack(buf, true)]
			id := "?"
			if stuck.idf != nil {
				id = stuck.idf()
			}
			stuck.id = id
			c.report(stuck, failure{"hang", fmt.Sprintf("case did not finish within %v", limit)}, "")
			c.mu.Lock()
			for _, v := range c.viol {
				if v.Key == "hang" {
					v.Stack = string(buf)
				}
			}
			c.mu.Unlock()
			c.finish()
		}
	}
}

func (c *Ctx) nStates() int {
	n := int(atomic.LoadInt64(&c.moreStates))
	for i := range c.states {
		c.stateMu[i].Lock()
		n += len(c.states[i])
		c.stateMu[i].Unlock()
	}
	return n
}

var (
	flEvidence = flag.String("evidence", "", "evidence file")
	flReplay   = flag.String("replaydir", "", "directory for replay files")
	flKnown    = flag.String("known", "", "known findings file")
	flLimit    = flag.Int("limit", 0, "internal deadline in seconds")
)

type checkDef struct {
	level string
	run   func(c *Ctx)
}

var checks = map[string]checkDef{}

func (c *Ctx) finish() {
	c.mu.Lock()
	level := checks[c.Prop].level
	cov := map[string]interface{}{}
	cov["samples"] = c.samples
	if len(c.samples) == 0 {
		// one executed case of each of up to a dozen sections
		some := []interface{}{}
		for i, k := 0, len(c.someCase); i < k; i++ {
			if k <= 12 || i*12/k != (i-1)*12/k || i == 0 {
				some = append(some, c.someCase[i])
			}
		}
		if len(some) == 0 {
			some = append(some, "no case was executed")
		}
		cov["samples"] = some
	}
	exh := atomic.LoadInt32(&c.truncated) == 0 && c.Only == ""
	if level == "model_checking" {
		cov["states"] = c.nStates()
		cov["transitions"] = atomic.LoadInt64(&c.ops)
		cov["traces_validated_against_impl"] = atomic.LoadInt64(&c.traces)
		cov["cases"] = atomic.LoadInt64(&c.cases)
	} else {
		cov["evaluations"] = atomic.LoadInt64(&c.traces)
		cov["distinct_nontrivial"] = c.nStates()
		cov["operations"] = atomic.LoadInt64(&c.ops)
	}
	if len(c.rules) > 0 {
		cov["rule"] = strings.Join(c.rules, " | ")
	}
	cov["exhaustive"] = exh
	sec := map[string]int64{}
	for k, v := range c.sections {
		sec[k] = v
	}
	cov["cases_per_section"] = sec
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": level,
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.order),
	}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
	}
	if *flEvidence != "" {
		os.MkdirAll(filepath.Dir(*flEvidence), 0755)
		if err := os.WriteFile(*flEvidence, append(b, '\n'), 0644); err != nil {
			fmt.Println("evidence:", err)
		}
	}
	var kk []string
	for k := range c.hitKnown {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, c.hitKnown[k])
	}
	code := 0
	for i, k := range c.order {
		if i >= 25 {
			fmt.Printf("... and %d more\n", len(c.order)-i)
			break
		}
		v := c.viol[k]
		v.Replay = fmt.Sprintf("/verif/check.sh %s --only '%s'", c.Prop, v.Case)
		path := filepath.Join(*flReplay, fmt.Sprintf("%s-%d.json", c.Prop, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.MkdirAll(*flReplay, 0755)
		os.WriteFile(path, append(b, '\n'), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, path)
		e := v.Error
		if len(e) > 600 {
			e = e[:600] + "..."
		}
		cs := v.Case
		if len(cs) > 300 {
			cs = cs[:300] + "..."
		}
		fmt.Printf("  [%s] %s\n  case: %s %s\n", v.Key, e, cs, v.Sub)
		code = 1
	}
	fmt.Printf("%s %s: cases=%d ops=%d executions=%d states=%d exhaustive=%v violations=%d known=%d wall=%.1fs\n",
		c.Prop, c.Tier, c.cases, c.ops, c.traces, c.nStates(), exh, len(c.order), len(c.hitKnown), time.Since(c.start).Seconds())
	fmt.Println("MC-DONE")
	os.Stdout.Sync()
	os.Exit(code)
}

func loadKnown(path, prop string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "known: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: property="+prop+" ")
		// key={...} description
		if !strings.HasPrefix(rest, "key={") {
			continue
		}
		i := strings.Index(rest, "} ")
		if i < 0 {
			continue
		}
		m[rest[len("key={"):i]] = rest[i+2:]
	}
	return m
}

// childMain, when set, takes the place of the checker.
var childMain func()

func main() {
	if childMain != nil {
		childMain()
	}
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	only := flag.String("only", "", "run only this case")
	repo := flag.String("repo", "/repo", "repository")
	worker := flag.Bool("worker", false, "internal")
	flag.Parse()
	def, ok := checks[*prop]
	if !ok {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	if !*worker {
		supervise(*prop)
		return
	}
	limit := *flLimit
	if limit == 0 {
		limit = 500
		if *tier == "thorough" {
			limit = 2400
		}
	}
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	thrift.LOGGER = log.New(io.Discard, "", 0)
	c := &Ctx{Prop: *prop, Tier: *tier, Seed: *seed, Only: *only, Repo: *repo,
		start: time.Now(), deadline: time.Now().Add(time.Duration(limit) * time.Second),
		viol: map[string]*Violation{}, known: loadKnown(*flKnown, *prop), hitKnown: map[string]string{},
		sections: map[string]int64{}, extra: map[string]interface{}{}, live: map[*T]time.Time{}}
	go c.watchdog()
	def.run(c)
	c.finish()
}

// supervise runs the worker in a child so that a fatal crash of the code under
// test (stack overflow, concurrent map write, ...) becomes a violation.
func supervise(prop string) {
	exe, err := os.Executable()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if w := os.Getenv("VERIF_WORKER_EXE"); w != "" {
		exe = w // a build that also links code made during the check
	}
	var tail string
	for attempt := 0; attempt < 2; attempt++ {
		cmd := exec.Command(exe, append([]string{"-worker"}, os.Args[1:]...)...)
		out, _ := cmd.StdoutPipe()
		tb := &tailBuf{max: 20000}
		cmd.Stderr = tb
		if err := cmd.Start(); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		done := false
		sc := bufio.NewScanner(out)
		sc.Buffer(make([]byte, 1<<16), 1<<24)
		var lines []string
		for sc.Scan() {
			if sc.Text() == "MC-DONE" {
				done = true
				continue
			}
			lines = append(lines, sc.Text())
		}
		err := cmd.Wait()
		if done {
			for _, l := range lines {
				fmt.Println(l)
			}
			if err != nil {
				os.Exit(1)
			}
			os.Exit(0)
		}
		tail = fmt.Sprint(err) + "\n" + tb.String()
	}
	v := Violation{Property: prop, Key: "fatal", Error: "the process running the code under test died", Stack: tail,
		Replay: "/verif/check.sh " + prop}
	os.MkdirAll(*flReplay, 0755)
	path := filepath.Join(*flReplay, prop+"-fatal.json")
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
	if *flEvidence != "" {
		ev := map[string]interface{}{"property": prop, "tier": "quick", "seed": 1, "level": "other",
			"coverage": map[string]interface{}{"explanation": "the process under test died before finishing"}, "wall_s": 0, "violations": 1}
		b, _ := json.Marshal(ev)
		os.WriteFile(*flEvidence, b, 0644)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	if len(tail) > 3000 {
		tail = tail[:3000]
	}
	fmt.Println(tail)
	os.Exit(1)
}

type tailBuf struct {
	mu  sync.Mutex
	max int
	b   []byte
	hd  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.hd) < t.max {
		t.hd = append(t.hd, p...)
	} else {
		t.b = append(t.b, p...)
		if len(t.b) > t.max {
			t.b = append([]byte(nil), t.b[len(t.b)-t.max:]...)
		}
	}
	return len(p), nil
}
func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.hd) + "\n...\n" + string(t.b)
}
