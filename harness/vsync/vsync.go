// Package vsync stands in for "sync" in the instrumented packages of the
// repository: a cooperative scheduler decides at every statement (Y) and at
// every lock operation which thread runs next. Outside of a scheduled thread
// everything behaves like package sync.
package vsync

import (
	"fmt"
	"sync"
	"sync/atomic"
)

type (
	Map    = sync.Map
	Pool   = sync.Pool
	Locker = sync.Locker
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type thread struct {
	s      *Sched
	id     int
	resume chan struct{}
	done   bool
	block  func() bool // nil: runnable; otherwise runnable when true
	err    any
}

// Sched runs threads one at a time.
type Sched struct {
	threads []*thread
	yield   chan struct{}
	Steps   int
	abort   bool
}

// current is the running thread: there is one schedule at a time, and one of
// its threads runs at a time.
var current *thread

//go:norace
func self() *thread { return current }

//go:norace
func setSelf(t *thread) { current = t }

type aborted struct{}

// The hand-over between threads must not look like synchronisation to the race
// detector.
func (t *thread) pause() {
	raceDisable()
	t.s.yield <- struct{}{}
	<-t.resume
	raceEnable()
	if t.s.stopped() {
		panic(aborted{})
	}
}

//go:norace
func (s *Sched) stopped() bool { return s.abort }

// Coarse: no scheduling points at the statements, only at the operations of
// this package and at P. That is enough to reach every behaviour of a program
// without data races.
var Coarse bool

//go:norace
func coarse() bool { return Coarse }

// Y is a scheduling point before a statement.
func Y() {
	if !coarse() {
		P()
	}
}

// P is a scheduling point.
func P() {
	if t := self(); t != nil {
		t.pause()
	}
}

//go:norace
func (t *thread) setBlock(cond func() bool) { t.block = cond }

func (t *thread) wait(cond func() bool) {
	t.setBlock(cond)
	t.pause()
	t.setBlock(nil)
}

// Run executes fs as threads. choose gets the enabled threads and the thread
// which ran last (-1 at the start) and returns the one that runs next.
// deadlock: threads remain, but none is enabled.
func Run(fs []func(), choose func(enabled []int, last int) int) (deadlock bool, steps int, panics []any) {
	s := &Sched{yield: make(chan struct{})}
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		t := &thread{s: s, id: i, resume: make(chan struct{})}
		s.threads = append(s.threads, t)
		go func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(aborted); !ok {
						t.err = x
					}
				}
				wg.Done()
				raceDisable()
				t.finish()
				s.yield <- struct{}{}
				raceEnable()
			}()
			raceDisable()
			<-t.resume
			raceEnable()
			if s.stopped() {
				return
			}
			f()
		}()
	}
	raceDisable()
	deadlock = s.loop(choose)
	raceEnable()
	wg.Wait()
	for _, t := range s.threads {
		panics = append(panics, t.err)
	}
	return deadlock, s.Steps, panics
}

//go:norace
func (t *thread) finish() { t.done = true }

//go:norace
func (s *Sched) loop(choose func(enabled []int, last int) int) bool {
	last := -1
	for {
		var en []int
		left := 0
		for i, t := range s.threads {
			if t.done {
				continue
			}
			left++
			if t.block == nil || t.block() {
				en = append(en, i)
			}
		}
		if left == 0 {
			return false
		}
		if len(en) == 0 {
			s.abort = true
			for _, t := range s.threads {
				for !t.done {
					setSelf(t)
					t.resume <- struct{}{}
					<-s.yield
					setSelf(nil)
				}
			}
			return true
		}
		n := choose(en, last)
		t := s.threads[n]
		last = n
		s.Steps++
		setSelf(t)
		t.resume <- struct{}{}
		<-s.yield
		setSelf(nil)
	}
}

// RWMutex: the scheduler's view of the lock, and a real one, which is never
// contended in a schedule: it gives the order to the race detector.
type RWMutex struct {
	real sync.RWMutex
	st   state
}

type state struct {
	writer  bool
	readers int
}

//go:norace
func (s *state) free() bool { return !s.writer && s.readers == 0 }

//go:norace
func (s *state) noWriter() bool { return !s.writer }

//go:norace
func (s *state) take(w bool) {
	if w {
		s.writer = true
	} else {
		s.readers++
	}
}

//go:norace
func (s *state) drop(w bool) bool {
	if w {
		if !s.writer {
			return false
		}
		s.writer = false
	} else {
		if s.readers == 0 {
			return false
		}
		s.readers--
	}
	return true
}

func (m *RWMutex) lock(try, w bool) bool {
	cond := m.st.noWriter
	if w {
		cond = m.st.free
	}
	if t := self(); t != nil {
		if try {
			t.pause()
			if !cond() {
				return false
			}
		} else {
			t.wait(cond)
		}
		m.st.take(w)
	} else if try {
		if w {
			return m.real.TryLock()
		}
		return m.real.TryRLock()
	}
	if w {
		m.real.Lock()
	} else {
		m.real.RLock()
	}
	return true
}

func (m *RWMutex) unlock(w bool) {
	if t := self(); t != nil {
		if t.s.stopped() {
			return
		}
		if !m.st.drop(w) {
			panic(fmt.Errorf("unlock of unlocked mutex"))
		}
	}
	if w {
		m.real.Unlock()
	} else {
		m.real.RUnlock()
	}
}

func (m *RWMutex) Lock()          { m.lock(false, true) }
func (m *RWMutex) TryLock() bool  { return m.lock(true, true) }
func (m *RWMutex) Unlock()        { m.unlock(true) }
func (m *RWMutex) RLock()         { m.lock(false, false) }
func (m *RWMutex) TryRLock() bool { return m.lock(true, false) }
func (m *RWMutex) RUnlock()       { m.unlock(false) }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var r T
	var u U
	return func() (T, U) { o.Do(func() { r, u = f() }); return r, u }
}

type WaitGroup struct {
	real sync.WaitGroup
	n    atomic.Int64
}

func (w *WaitGroup) Add(d int) { w.n.Add(int64(d)); w.real.Add(d) }
func (w *WaitGroup) Done()     { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if t := self(); t != nil {
		t.pause()
		// goroutines outside of the schedule run on their own
	}
	w.real.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() { defer w.Done(); f() }()
}
