// Package vsync takes the place of sync in instrumented code.
package vsync

import (
	"sync"

	"verif.local/vsched"
	"verif.local/vsched/vlock"
)

// The locks.
type (
	Locker    = sync.Locker
	Mutex     = vlock.Mutex
	RWMutex   = vlock.RWMutex
	WaitGroup = vlock.WaitGroup
	Once      = vlock.Once
	Cond      = vlock.Cond
)

// NewCond returns a Cond with the lock l.
func NewCond(l Locker) *Cond { return vlock.NewCond(l) }

// OnceFunc returns a function that calls f once.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue returns a function that calls f once.
func OnceValue[T any](f func() T) func() T {
	var (
		o Once
		v T
	)
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues returns a function that calls f once.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var (
		o Once
		a T1
		b T2
	)
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Pool is a set of objects. The most recently put one is got first, which is
// what makes sharing show.
type Pool struct {
	New   func() any
	m     sync.Mutex
	items []any
}

// Get takes an item.
func (p *Pool) Get() any {
	vsched.Point()
	p.m.Lock()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put adds an item.
func (p *Pool) Put(v any) {
	vsched.Point()
	p.m.Lock()
	p.items = append(p.items, v)
	p.m.Unlock()
}

// Map is a concurrent map.
type Map struct{ real sync.Map }

func (m *Map) Load(key any) (any, bool) { vsched.Point(); return m.real.Load(key) }
func (m *Map) Store(key, value any)     { vsched.Point(); m.real.Store(key, value) }
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	vsched.Point()
	return m.real.LoadOrStore(key, value)
}
func (m *Map) LoadAndDelete(key any) (any, bool) { vsched.Point(); return m.real.LoadAndDelete(key) }
func (m *Map) Delete(key any)                    { vsched.Point(); m.real.Delete(key) }
func (m *Map) Swap(key, value any) (any, bool)   { vsched.Point(); return m.real.Swap(key, value) }
func (m *Map) CompareAndSwap(key, o, n any) bool {
	vsched.Point()
	return m.real.CompareAndSwap(key, o, n)
}
func (m *Map) CompareAndDelete(key, o any) bool {
	vsched.Point()
	return m.real.CompareAndDelete(key, o)
}
func (m *Map) Range(f func(key, value any) bool) { vsched.Point(); m.real.Range(f) }
func (m *Map) Clear() {
	vsched.Point()
	m.real.Range(func(k, _ any) bool { m.real.Delete(k); return true })
}
