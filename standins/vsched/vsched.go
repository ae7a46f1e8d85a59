// Package vsched runs goroutines one at a time in an order that is chosen at
// scheduling points, and explores every order up to a number of preemptions.
// Instrumented code calls Point between its statements and Go in the place of
// go statements; packages vsync and vatomic take the place of sync and
// sync/atomic. Outside of an exploration all of them do what the originals do.
package vsched

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

func getg() uintptr

// Task is a goroutine under control.
type Task struct {
	id   int
	e    *Exec
	wake chan struct{}
	cond func() bool // what a blocked task waits for
	done bool
	lost bool // blocked in something that is not under control

	channel bool // waits for a channel
	retry   bool // should look whether its other end is not under control
}

// Exec is one execution.
type Exec struct {
	mu     sync.Mutex
	tasks  []*Task
	cur    *Task
	left   int  // tasks that are not done
	budget int  // preemptions left
	delays bool // the budget is also for which task goes on after one that waits
	prefix []int16
	trace  []step
	points int
	finish chan struct{}
	abort  bool

	waiters []*waiter // for channels
	closed  []unsafe.Pointer

	Deadlock bool
	External bool // something blocked that is not under control
	Diverged bool
	Panic    any
	Stack    string
}

type step struct{ took, of int16 }

// Points is the number of scheduling points that were passed.
func (e *Exec) Points() int { return e.points }

// Schedule is the choices that were made, for reports.
func (e *Exec) Schedule() string {
	var s strings.Builder
	for i, c := range e.trace {
		if c.took != 0 {
			fmt.Fprintf(&s, "%d:%d/%d ", i, c.took, c.of)
		}
	}
	return strings.TrimSpace(s.String())
}

// The tasks by their goroutines: buckets that are searched without locks, and a
// map for what does not fit.
type entry struct {
	g atomic.Uintptr
	t atomic.Pointer[Task]
}

var (
	table    [4096][4]entry
	overflow = map[uintptr]*Task{}
	overmu   sync.Mutex
	spilled  atomic.Int32
)

func bucket(g uintptr) *[4]entry { return &table[(g>>6^g>>18)&4095] }

func register(g uintptr, t *Task) {
	b := bucket(g)
	for i := range b {
		if b[i].g.Load() == 0 && b[i].g.CompareAndSwap(0, g) {
			b[i].t.Store(t)
			return
		}
	}
	spilled.Add(1)
	overmu.Lock()
	overflow[g] = t
	overmu.Unlock()
}

func unregister(g uintptr) {
	b := bucket(g)
	for i := range b {
		if b[i].g.Load() == g {
			b[i].t.Store(nil)
			b[i].g.Store(0)
			return
		}
	}
	overmu.Lock()
	delete(overflow, g)
	overmu.Unlock()
	spilled.Add(-1)
}

func current() *Task {
	g := getg()
	b := bucket(g)
	for i := range b {
		if b[i].g.Load() == g {
			return b[i].t.Load()
		}
	}
	if spilled.Load() != 0 {
		overmu.Lock()
		defer overmu.Unlock()
		return overflow[g]
	}
	return nil
}

// Active says whether the caller is under control.
func Active() bool { return running.Load() != 0 && current() != nil }

// ID is the number of the caller's task, or -1.
func ID() int {
	if running.Load() != 0 {
		if t := current(); t != nil {
			return t.id
		}
	}
	return -1
}

var running atomic.Int32

func (t *Task) run(f func()) {
	hide()
	g := getg()
	register(g, t)
	defer func() {
		p := recover()
		ReleaseMerge(unsafe.Pointer(t.e))
		hide()
		defer unhide()
		unregister(g)
		e := t.e
		e.mu.Lock()
		defer e.mu.Unlock()
		if p != nil && e.Panic == nil && !e.abort {
			e.Panic = p
			e.Stack = string(debug.Stack())
			e.stop()
		}
		t.done = true
		e.left--
		if e.left == 0 {
			close(e.finish)
			e.cur = nil
			return
		}
		if e.cur == t && !e.abort {
			e.next(nil)
		}
	}()
	<-t.wake
	a := t.e.aborting()
	unhide()
	if !a {
		f()
	}
}

func (e *Exec) aborting() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.abort
}

// stop ends the execution: every task is ended at its next point.
func (e *Exec) stop() {
	e.abort = true
	for _, t := range e.tasks {
		select {
		case t.wake <- struct{}{}:
		default:
		}
	}
}

// choose picks one of n ways to go on.
func (e *Exec) choose(n int) int {
	c := 0
	if i := len(e.trace); i < len(e.prefix) {
		c = int(e.prefix[i])
		if c >= n {
			e.Diverged = true
			c = 0
		}
	}
	e.trace = append(e.trace, step{int16(c), int16(n)})
	return c
}

func (t *Task) enabled() bool {
	return !t.done && !t.lost && (t.cond == nil || t.cond())
}

// next hands control to one of the tasks that can run; not is excluded.
func (e *Exec) next(not *Task) {
	var en [16]*Task
	list := en[:0]
	lost := false
	for _, t := range e.tasks {
		if t != not && t.enabled() {
			list = append(list, t)
		}
		lost = lost || (t.lost || t.channel) && !t.done
	}
	if len(list) == 0 {
		e.cur = nil
		if !lost {
			e.Deadlock = true
			e.stop()
		}
		return
	}
	c := 0
	if len(list) > 1 && (!e.delays || e.budget > 0) {
		if c = e.choose(len(list)); c > 0 && e.delays {
			e.budget--
		}
	}
	e.cur = list[c]
	list[c].wake <- struct{}{}
}

// park waits for control; e.mu is held before and after.
func (t *Task) park() {
	e := t.e
	e.mu.Unlock()
	<-t.wake
	e.mu.Lock()
	if e.abort {
		e.mu.Unlock()
		unhide()
		runtime.Goexit()
	}
}

// claim makes sure that the task is the one in control; e.mu is held.
func (t *Task) claim() {
	e := t.e
	if e.abort {
		e.mu.Unlock()
		unhide()
		runtime.Goexit()
	}
	if e.cur == t {
		return
	}
	t.lost = false
	if e.cur == nil {
		e.cur = t
		return
	}
	t.park()
}

// Point lets another task run.
func Point() {
	if running.Load() == 0 {
		return
	}
	t := current()
	if t == nil {
		return
	}
	e := t.e
	hide()
	e.mu.Lock()
	t.claim()
	e.points++
	if e.budget > 0 {
		var en [16]*Task
		list := en[:0]
		for _, o := range e.tasks {
			if o != t && o.enabled() {
				list = append(list, o)
			}
		}
		if len(list) > 0 {
			if c := e.choose(len(list) + 1); c > 0 {
				e.budget--
				o := list[c-1]
				e.cur = o
				o.wake <- struct{}{}
				t.park()
			}
		}
	}
	e.mu.Unlock()
	unhide()
}

// Wait blocks the task until the condition holds and then calls then, before
// any other task can run. It gives false when the caller is not under control.
func Wait(cond func() bool, then func()) bool {
	if running.Load() == 0 {
		return false
	}
	t := current()
	if t == nil {
		return false
	}
	Point()
	e := t.e
	hide()
	e.mu.Lock()
	t.claim()
	for !cond() {
		t.cond = cond
		e.next(t)
		t.park()
		t.cond = nil
	}
	if then != nil {
		then()
	}
	e.mu.Unlock()
	unhide()
	return true
}

// Do calls f, which must not panic, before any other task can run. It gives
// false when the caller is not under control.
func Do(f func()) bool {
	if running.Load() == 0 {
		return false
	}
	t := current()
	if t == nil {
		return false
	}
	e := t.e
	hide()
	e.mu.Lock()
	if e.abort {
		e.mu.Unlock()
		unhide()
		return true
	}
	t.claim()
	f()
	e.mu.Unlock()
	unhide()
	return true
}

// Split gives its argument, and lets other tasks run before it is used.
func Split[T any](v T) T {
	Point()
	return v
}

// Go takes the place of a go statement.
func Go(f any, args ...any) {
	var call func()
	if g, ok := f.(func()); ok {
		call = g
	} else {
		v := reflect.ValueOf(f)
		ft := v.Type()
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			var pt reflect.Type
			if ft.IsVariadic() && i >= ft.NumIn()-1 {
				pt = ft.In(ft.NumIn() - 1).Elem()
			} else {
				pt = ft.In(i)
			}
			if a == nil {
				in[i] = reflect.Zero(pt)
			} else if av := reflect.ValueOf(a); av.Type().AssignableTo(pt) {
				in[i] = av
			} else {
				in[i] = av.Convert(pt)
			}
		}
		call = func() { v.Call(in) }
	}
	var t *Task
	if running.Load() != 0 {
		t = current()
	}
	if t == nil {
		go call()
		return
	}
	e := t.e
	hide()
	e.mu.Lock()
	t.claim()
	e.start(call)
	e.mu.Unlock()
	unhide()
	Point()
}

func (e *Exec) start(f func()) {
	n := &Task{id: len(e.tasks), e: e, wake: make(chan struct{}, 2)}
	e.tasks = append(e.tasks, n)
	e.left++
	unhide() // what was done before is seen by the new goroutine
	go n.run(f)
	hide()
}

// channels is the number of tasks that wait for channels.
func (e *Exec) channels() int {
	n := 0
	for _, t := range e.tasks {
		if t.channel && !t.done {
			n++
		}
	}
	return n
}

// retry lets one of them look whether its other end is not under control.
func (e *Exec) retry(n int) {
	for _, t := range e.tasks {
		if t.channel && !t.done {
			if n == 0 {
				t.retry = true
				e.cur = t
				t.wake <- struct{}{}
				return
			}
			n--
		}
	}
}

// foreign says that something blocked which is not under control, as a channel;
// from then on that is looked for more often.
var foreign atomic.Bool

// run makes one execution.
func run(prefix []int16, bound int, bodies []func()) *Exec {
	e := &Exec{prefix: prefix, trace: make([]step, 0, 256), budget: bound, finish: make(chan struct{})}
	if bound < 0 {
		e.budget, e.delays = -1-bound, true
	}
	hide()
	defer Acquire(unsafe.Pointer(e))
	defer unhide()
	running.Add(1)
	defer running.Add(-1)
	e.mu.Lock()
	for _, f := range bodies {
		e.start(f)
	}
	e.next(nil)
	e.mu.Unlock()
	period := 20 * time.Millisecond
	if foreign.Load() {
		period = time.Millisecond
	}
	tick := time.NewTimer(period)
	defer tick.Stop()
	last, stuck, patience := -1, 0, int(5*time.Second/period)
	for {
		select {
		case <-e.finish:
			return e
		case <-tick.C:
		}
		e.mu.Lock()
		now := e.points + len(e.trace)
		if now != last {
			last, stuck = now, 0
		} else if t := e.cur; t != nil && watched(t) {
			// It waits for something else than what is controlled.
			t.lost = true
			e.External = true
			foreign.Store(true)
			e.next(t)
		} else if t == nil && !e.abort {
			// All wait for something that is not controlled.
			if stuck++; stuck > patience {
				e.Deadlock = true
				e.stop()
			} else if n := e.channels(); n > 0 {
				if n == e.left && time.Duration(stuck)*period > 200*time.Millisecond {
					e.Deadlock = true
					e.stop()
				} else {
					foreign.Store(true)
					e.retry(stuck % n)
				}
			}
		} else if e.abort {
			if stuck++; stuck > patience {
				e.mu.Unlock()
				return e // leaves its goroutines behind
			}
		}
		e.mu.Unlock()
		tick.Reset(period)
	}
}

// watched calls blocked with the race detector watching, as it uses pools.
func watched(t *Task) bool {
	unhide()
	defer hide()
	return blocked(t)
}

// blocked says whether a task's goroutine waits in the runtime.
func blocked(t *Task) bool {
	buf := make([]byte, 1<<16)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) || len(buf) > 1<<24 {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	me := fmt.Sprintf("(*Task).run(%p", t)
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, me) {
			continue
		}
		head, rest, _ := strings.Cut(g, "\n")
		if strings.Contains(rest, "vsched.(*Task).park") || strings.Contains(rest, "vsched.(*Task).claim") {
			return false
		}
		for _, s := range []string{"chan receive", "chan send", "select", "sync.", "semacquire", "IO wait", "sleep"} {
			if strings.Contains(head, "["+s) {
				return !strings.Contains(rest, "vsched.Point") && !strings.Contains(rest, "vsched.Wait")
			}
		}
		return false
	}
	return false
}

// Run makes one execution, without preemptions.
func Run(f func()) *Exec { return run(nil, 0, []func(){f}) }

// Stats says what was explored.
type Stats struct {
	Schedules, Points, Choices int
	External, Diverged         bool
	Complete                   bool
}

// Delays gives a bound for Explore which counts every deviation from the order
// in which tasks were made, also when a task waits or ends.
func Delays(n int) int { return -1 - n }

// Explore makes every execution with at most bound preemptions whose first
// deviation from the first one is at a choice that is part modulo parts. The
// function mk makes the bodies of the tasks and a function that is called
// after each execution, which says whether to go on.
func Explore(bound, part, parts int, mk func() ([]func(), func(*Exec) bool), stop func() bool) Stats {
	var st Stats
	one := func(prefix []int16) (*Exec, bool) {
		bodies, after := mk()
		e := run(prefix, bound, bodies)
		st.Schedules++
		st.Points += e.points
		st.Choices += len(e.trace)
		st.External = st.External || e.External
		st.Diverged = st.Diverged || e.Diverged
		return e, after(e)
	}
	root, ok := one(nil)
	if part != 0 {
		st.Schedules, st.Points, st.Choices = 0, 0, 0
	}
	if !ok {
		return st
	}
	ext := 0
	for j := part; j < len(root.trace); j += parts {
		for o := 1; o < int(root.trace[j].of); o++ {
			prefix := make([]int16, j+1, j+16)
			prefix[j] = int16(o)
			for prefix != nil {
				if stop() {
					return st
				}
				e, ok := one(prefix)
				if !ok {
					return st
				}
				if e.External {
					if ext++; ext > 100 {
						return st
					}
				}
				// The next in order: the last choice with another way.
				prefix = nil
				for k := len(e.trace) - 1; k > j; k-- {
					if c := e.trace[k]; c.took+1 < c.of {
						prefix = make([]int16, k+1)
						for i := range prefix[:k] {
							prefix[i] = e.trace[i].took
						}
						prefix[k] = c.took + 1
						break
					}
				}
			}
		}
	}
	st.Complete = true
	return st
}
