// Package zsync stands in for package sync in the instrumented build, so that a thread waiting for a
// lock yields to the controlled scheduler.
package zsync

import (
	"sync"

	"zkmc/sched"
)

type (
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Locker    = sync.Locker
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	if sched.Hook == nil {
		m.m.Lock()
		return
	}
	for !m.m.TryLock() {
		sched.Block()
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	if sched.Hook == nil {
		m.m.Lock()
		return
	}
	for !m.m.TryLock() {
		sched.Block()
	}
}
func (m *RWMutex) RLock() {
	if sched.Hook == nil {
		m.m.RLock()
		return
	}
	for !m.m.TryRLock() {
		sched.Block()
	}
}
func (m *RWMutex) TryLock() bool   { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool  { return m.m.TryRLock() }
func (m *RWMutex) Unlock()         { m.m.Unlock() }
func (m *RWMutex) RUnlock()        { m.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return m.m.RLocker() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool hands out the most recently returned object, which sync.Pool may do.
type Pool struct {
	New  func() any
	mu   sync.Mutex
	free []any
}

func (p *Pool) Get() any {
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		v := p.free[n-1]
		p.free = p.free[:n-1]
		p.mu.Unlock()
		return v
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.mu.Lock()
	p.free = append(p.free, v)
	p.mu.Unlock()
}
