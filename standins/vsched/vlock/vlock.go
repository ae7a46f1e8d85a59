// Package vlock holds models of the locks of package sync. The race detector is
// told what they order and does not look inside.
package vlock

import (
	"sync"
	"unsafe"

	"verif.local/vsched"
)

// Locker is a lock.
type Locker = sync.Locker

// Mutex is a mutual exclusion lock.
type Mutex struct {
	real   sync.Mutex
	locked bool
}

// Lock locks m.
func (m *Mutex) Lock() {
	if !vsched.Wait(func() bool { return !m.locked }, func() { m.locked = true }) {
		m.real.Lock()
		return
	}
	vsched.Acquire(unsafe.Pointer(m))
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	ok := false
	if vsched.Do(func() { ok = !m.locked; m.locked = true }) {
		if ok {
			vsched.Acquire(unsafe.Pointer(m))
		}
		return ok
	}
	return m.real.TryLock()
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	bad := false
	vsched.Release(unsafe.Pointer(m))
	if vsched.Do(func() { bad = !m.locked; m.locked = false }) {
		if bad {
			panic("unlock of unlocked mutex")
		}
		return
	}
	m.real.Unlock()
}

// RWMutex is a reader/writer mutual exclusion lock.
type RWMutex struct {
	real    sync.RWMutex
	readers int
	writer  bool
}

// Lock locks rw for writing.
func (rw *RWMutex) Lock() {
	if !vsched.Wait(func() bool { return !rw.writer && rw.readers == 0 }, func() { rw.writer = true }) {
		rw.real.Lock()
		return
	}
	rw.locked()
}

// The end of writing comes before what locks next, that of reading before
// what locks for writing.
func (rw *RWMutex) locked() {
	vsched.Acquire(unsafe.Pointer(&rw.writer))
	vsched.Acquire(unsafe.Pointer(&rw.readers))
}

// TryLock tries to lock rw for writing.
func (rw *RWMutex) TryLock() bool {
	ok := false
	if vsched.Do(func() {
		if ok = !rw.writer && rw.readers == 0; ok {
			rw.writer = true
		}
	}) {
		if ok {
			rw.locked()
		}
		return ok
	}
	return rw.real.TryLock()
}

// Unlock undoes Lock.
func (rw *RWMutex) Unlock() {
	bad := false
	vsched.Release(unsafe.Pointer(&rw.writer))
	if vsched.Do(func() { bad = !rw.writer; rw.writer = false }) {
		if bad {
			panic("unlock of unlocked RWMutex")
		}
		return
	}
	rw.real.Unlock()
}

// RLock locks rw for reading.
func (rw *RWMutex) RLock() {
	if !vsched.Wait(func() bool { return !rw.writer }, func() { rw.readers++ }) {
		rw.real.RLock()
		return
	}
	vsched.Acquire(unsafe.Pointer(&rw.writer))
}

// TryRLock tries to lock rw for reading.
func (rw *RWMutex) TryRLock() bool {
	ok := false
	if vsched.Do(func() {
		if ok = !rw.writer; ok {
			rw.readers++
		}
	}) {
		if ok {
			vsched.Acquire(unsafe.Pointer(&rw.writer))
		}
		return ok
	}
	return rw.real.TryRLock()
}

// RUnlock undoes RLock.
func (rw *RWMutex) RUnlock() {
	bad := false
	vsched.ReleaseMerge(unsafe.Pointer(&rw.readers))
	if vsched.Do(func() {
		if bad = rw.readers == 0; !bad {
			rw.readers--
		}
	}) {
		if bad {
			panic("read unlock of unlocked RWMutex")
		}
		return
	}
	rw.real.RUnlock()
}

// RLocker gives the lock for reading.
func (rw *RWMutex) RLocker() Locker { return rlocker{rw} }

type rlocker struct{ rw *RWMutex }

func (r rlocker) Lock()   { r.rw.RLock() }
func (r rlocker) Unlock() { r.rw.RUnlock() }

// WaitGroup waits for a collection of goroutines.
type WaitGroup struct {
	real  sync.WaitGroup
	count int
}

// Add adds to the count.
func (wg *WaitGroup) Add(n int) {
	bad := false
	if n < 0 {
		vsched.ReleaseMerge(unsafe.Pointer(wg))
	}
	if vsched.Do(func() { wg.count += n; bad = wg.count < 0 }) {
		if bad {
			panic("negative WaitGroup counter")
		}
		vsched.Point()
		return
	}
	wg.real.Add(n)
}

// Done takes one from the count.
func (wg *WaitGroup) Done() { wg.Add(-1) }

// Wait waits until the count is zero.
func (wg *WaitGroup) Wait() {
	if !vsched.Wait(func() bool { return wg.count == 0 }, nil) {
		wg.real.Wait()
		return
	}
	vsched.Acquire(unsafe.Pointer(wg))
}

// Go calls f in a new goroutine and counts it.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	vsched.Go(func() {
		defer wg.Done()
		f()
	})
}

// Once does something once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond is a condition variable.
type Cond struct {
	L       Locker
	real    *sync.Cond
	waiting []*bool
}

// NewCond returns a Cond with the lock l.
func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	woken := new(bool)
	if !vsched.Do(func() { c.waiting = append(c.waiting, woken) }) {
		if c.real == nil {
			c.real = sync.NewCond(c.L)
		}
		c.real.Wait()
		return
	}
	c.L.Unlock()
	vsched.Wait(func() bool { return *woken }, nil)
	c.L.Lock()
}

// Signal wakes one goroutine.
func (c *Cond) Signal() {
	if vsched.Do(func() {
		if len(c.waiting) > 0 {
			*c.waiting[0] = true
			c.waiting = c.waiting[1:]
		}
	}) {
		return
	}
	if c.real == nil {
		c.real = sync.NewCond(c.L)
	}
	c.real.Signal()
}

// Broadcast wakes all goroutines.
func (c *Cond) Broadcast() {
	if vsched.Do(func() {
		for _, w := range c.waiting {
			*w = true
		}
		c.waiting = nil
	}) {
		return
	}
	if c.real == nil {
		c.real = sync.NewCond(c.L)
	}
	c.real.Broadcast()
}
