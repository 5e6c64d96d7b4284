// Package vsync is sync for code whose goroutines the harness schedules: a
// goroutine that waits for a lock stays schedulable.
package vsync

import (
	"runtime"
	"sync"

	"verifhook"
)

type (
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Map       = sync.Map
	Cond      = sync.Cond
	Locker    = sync.Locker
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func lock(try func() bool, block func(), what string) {
	if !verifhook.Scheduled() {
		block()
		return
	}
	verifhook.Y(what)
	for !try() {
		if !verifhook.Scheduled() {
			block()
			return
		}
		runtime.Gosched()
		verifhook.Y("SpinLock.retry")
	}
}

// Mutex is sync.Mutex.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { lock(m.m.TryLock, m.m.Lock, "Mutex.Lock") }
func (m *Mutex) TryLock() bool { verifhook.Y("Mutex.TryLock"); return m.m.TryLock() }
func (m *Mutex) Unlock()       { verifhook.Y("Mutex.Unlock"); m.m.Unlock() }

// RWMutex is sync.RWMutex.
type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()          { lock(m.m.TryLock, m.m.Lock, "RWMutex.Lock") }
func (m *RWMutex) TryLock() bool  { verifhook.Y("RWMutex.TryLock"); return m.m.TryLock() }
func (m *RWMutex) Unlock()        { verifhook.Y("RWMutex.Unlock"); m.m.Unlock() }
func (m *RWMutex) RLock()         { lock(m.m.TryRLock, m.m.RLock, "RWMutex.RLock") }
func (m *RWMutex) TryRLock() bool { verifhook.Y("RWMutex.TryRLock"); return m.m.TryRLock() }
func (m *RWMutex) RUnlock()       { verifhook.Y("RWMutex.RUnlock"); m.m.RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do is sync.Once.Do.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
