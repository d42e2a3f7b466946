package sched

import "sync"

// Mutex stands in for sync.Mutex in the code under test. The real mutex inside
// is never contended; it tells the race detector about the ordering.
type Mutex struct {
	mu    sync.Mutex
	held  bool
	epoch int
}

// fresh forgets what an earlier execution left behind in a package variable.
//
//go:norace
func (m *Mutex) fresh() {
	if m.epoch != epoch {
		m.epoch, m.held, m.mu = epoch, false, sync.Mutex{}
	}
}

type lockWait struct{ m *Mutex }

//go:norace
func (w lockWait) Ready() bool  { return !w.m.held }
func (w lockWait) What() string { return "a mutex" }

//go:norace
func (m *Mutex) Lock() {
	if !active {
		return
	}
	Step("lock")
	if Unwinding() {
		return
	}
	m.fresh()
	Block(lockWait{m})
	if Unwinding() {
		return
	}
	m.held = true
	m.mu.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !active {
		return true
	}
	Step("trylock")
	m.fresh()
	if m.held {
		return false
	}
	m.held = true
	m.mu.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !active || Unwinding() {
		return
	}
	if !m.held {
		panic("unlock of an unlocked mutex")
	}
	m.mu.Unlock()
	m.held = false
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	mu      sync.RWMutex
	writer  bool
	readers int
	epoch   int
}

//go:norace
func (m *RWMutex) fresh() {
	if m.epoch != epoch {
		m.epoch, m.writer, m.readers, m.mu = epoch, false, 0, sync.RWMutex{}
	}
}

type rwWait struct {
	m *RWMutex
	w bool
}

//go:norace
func (w rwWait) Ready() bool  { return !w.m.writer && (!w.w || w.m.readers == 0) }
func (w rwWait) What() string { return "a read-write mutex" }

//go:norace
func (m *RWMutex) Lock() {
	if !active {
		return
	}
	Step("lock")
	if Unwinding() {
		return
	}
	m.fresh()
	Block(rwWait{m, true})
	if Unwinding() {
		return
	}
	m.writer = true
	m.mu.Lock()
}

//go:norace
func (m *RWMutex) Unlock() {
	if !active || Unwinding() {
		return
	}
	if !m.writer {
		panic("unlock of an unlocked mutex")
	}
	m.mu.Unlock()
	m.writer = false
}

//go:norace
func (m *RWMutex) RLock() {
	if !active {
		return
	}
	Step("rlock")
	if Unwinding() {
		return
	}
	m.fresh()
	Block(rwWait{m, false})
	if Unwinding() {
		return
	}
	m.readers++
	m.mu.RLock()
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !active || Unwinding() {
		return
	}
	if m.readers == 0 {
		panic("unlock of an unlocked mutex")
	}
	m.mu.RUnlock()
	m.readers--
}

func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	mu sync.Mutex
	n  int
}

type wgWait struct{ w *WaitGroup }

//go:norace
func (w wgWait) Ready() bool  { return w.w.n == 0 }
func (w wgWait) What() string { return "a wait group" }

//go:norace
func (w *WaitGroup) Add(d int) {
	if Unwinding() {
		return
	}
	w.mu.Lock()
	w.n += d
	n := w.n
	w.mu.Unlock()
	if n < 0 {
		panic("negative wait group counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if !active {
		return
	}
	Step("wait")
	Block(wgWait{w})
	w.mu.Lock()
	w.mu.Unlock()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}
