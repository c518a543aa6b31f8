// Package vsync stands in for package sync in the instrumented build. Its locks are the
// real ones (so the race detector sees them), but waiting for one is done on a channel, because
// synctest does not count a goroutine that is blocked on a sync.Mutex as durably blocked, and its
// clock would stop while a schedule point holds a lock's owner.
package vsync

import (
	"sync"
	"sync/atomic"

	"github.com/gostdlib/concurrency/zzverif/vsched"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Cond      = sync.Cond
	Map       = sync.Map
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// waiters are the goroutines of a case that wait for a lock. They wait for a channel, which synctest
// sees. None of this orders anything for the race detector: only the real locks do.
type waiters struct {
	mu sync.Mutex
	// A list and not a slice, as the race detector sees what the runtime does with slices.
	first, last *waiter
}

type waiter struct {
	next   *waiter
	ch     chan struct{}
	writer bool
	cas    uint64 // the case
	turn   bool   // a writer is done, so it may pass the writers that wait
}

// wait waits until try, which takes the real lock, has reported true. A reader also waits while
// a writer waits that came before.
//
//go:norace
func (w *waiters) wait(writer, rw bool, try func() bool) {
	self := &waiter{writer: writer, cas: vsched.CaseNo()}
	for first := true; ; first = false {
		raceDisable()
		w.mu.Lock()
		held := !writer && !self.turn && w.waitingWriters(self.cas)
		raceEnable()
		ok := !held && try()
		raceDisable()
		if !ok {
			self.ch = make(chan struct{})
			w.add(self, !first && !rw) // In front if somebody else was faster.
		}
		w.mu.Unlock()
		if !ok {
			<-self.ch
		}
		raceEnable()
		if ok {
			return
		}
	}
}

//go:norace
func (w *waiters) add(o *waiter, front bool) {
	switch {
	case w.first == nil:
		o.next = nil
		w.first, w.last = o, o
	case front:
		o.next = w.first
		w.first = o
	default:
		o.next = nil
		w.last.next = o
		w.last = o
	}
}

//go:norace
func (w *waiters) waitingWriters(cas uint64) bool {
	for o := w.first; o != nil; o = o.next {
		if o.writer && o.cas == cas {
			return true
		}
	}
	return false
}

// wake wakes the first, or all if the lock can be had by several.
//
//go:norace
func (w *waiters) wake(all, turn bool) {
	if !vsched.InBubble() {
		return
	}
	cas := vsched.CaseNo()
	raceDisable()
	w.mu.Lock()
	for w.first != nil {
		o := w.first
		w.first = o.next
		if o.cas != cas { // Left over from a case that ended badly.
			continue
		}
		o.turn = o.turn || turn
		close(o.ch)
		if !all {
			break
		}
	}
	w.mu.Unlock()
	raceEnable()
}

type Mutex struct {
	m sync.Mutex
	w waiters
}

func (m *Mutex) Lock() {
	if m.m.TryLock() {
		return
	}
	if !vsched.InBubble() {
		m.m.Lock()
		return
	}
	m.w.wait(true, false, m.m.TryLock)
}

func (m *Mutex) Unlock() {
	m.m.Unlock()
	m.w.wake(false, false)
}

func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type RWMutex struct {
	m sync.RWMutex
	w waiters
}

func (m *RWMutex) Lock() {
	if m.m.TryLock() {
		return
	}
	if !vsched.InBubble() {
		m.m.Lock()
		return
	}
	m.w.wait(true, true, m.m.TryLock)
}

func (m *RWMutex) Unlock() {
	m.m.Unlock()
	m.w.wake(true, true)
}

func (m *RWMutex) TryLock() bool { return m.m.TryLock() }

func (m *RWMutex) RLock() {
	if !vsched.InBubble() {
		m.m.RLock()
		return
	}
	m.w.wait(false, true, m.m.TryRLock)
}

func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	m.w.wake(true, false)
}

func (m *RWMutex) TryRLock() bool  { return m.m.TryRLock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() == 0 {
		o.slow(f)
	}
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
