package vsched

import (
	"reflect"
	"unsafe"
)

// Channels. Instrumented code makes its sends, receives, closes, ranges and
// selects here, where who meets whom is decided with everything else. What is
// in a buffer stays in that of the channel.

// op is a send or a receive that is waited for.
type op struct {
	key    unsafe.Pointer // the channel
	recv   bool
	size   int
	try    func() bool // does it on the channel itself, if that can be done at once
	block  func()      // does it on the channel itself
	box    any         // what is sent
	put    func(any)   // takes what was sent
	native func() reflect.SelectCase
	set    func(reflect.Value, bool)
}

// length is what is in the channel's buffer; it is asked for by other tasks.
func (o *op) length() int { return len(*(*chan struct{})(unsafe.Pointer(&o.key))) }

// waiter is a task that waits for one of several operations.
type waiter struct {
	t     *Task
	ops   []*op
	fired int
	got   any
}

// partner finds one who waits for the other end of the operation.
func (e *Exec) partner(o *op, t *Task) (*waiter, int) {
	for _, w := range e.waiters {
		if w.fired < 0 && w.t != t {
			for i, p := range w.ops {
				if p.key == o.key && p.recv != o.recv {
					return w, i
				}
			}
		}
	}
	return nil, 0
}

func (e *Exec) ready(o *op, t *Task) bool {
	switch {
	case o.key == nil:
		return false
	case e.isClosed(o.key):
		return true
	case o.size == 0:
		w, _ := e.partner(o, t)
		return w != nil
	case o.recv:
		return o.length() > 0
	}
	return o.length() < o.size
}

func (e *Exec) leave(w *waiter) {
	// Neither copy nor maps, which the race detector looks into.
	n := 0
	for _, o := range e.waiters {
		if o != w {
			e.waiters[n] = o
			n++
		}
	}
	e.waiters = e.waiters[:n]
}

func (e *Exec) isClosed(key unsafe.Pointer) bool {
	for _, k := range e.closed {
		if k == key {
			return true
		}
	}
	return false
}

// communicate does one of the operations, and says which, or gives -1 when
// none can be done at once and that is asked for.
func communicate(ops []*op, otherwise bool) int {
	var t *Task
	if running.Load() != 0 {
		t = current()
	}
	if t == nil {
		return outside(ops, otherwise)
	}
	Point()
	for _, o := range ops {
		if o.key != nil {
			ReleaseMerge(o.key)
		}
	}
	e := t.e
	for {
		hide()
		e.mu.Lock()
		t.claim()
		var list []int
		for i, o := range ops {
			if e.ready(o, t) {
				list = append(list, i)
			}
		}
		if len(list) == 0 {
			// It may be closed, or have its other end, elsewhere.
			e.mu.Unlock()
			unhide()
			for i, o := range ops {
				if o.key != nil && o.try() {
					Acquire(o.key)
					return i
				}
			}
			if otherwise {
				return -1
			}
			hide()
			e.mu.Lock()
			w := &waiter{t: t, ops: ops, fired: -1}
			e.waiters = append(e.waiters, w)
			t.cond = func() bool {
				if w.fired >= 0 || t.retry {
					return true
				}
				for _, o := range ops {
					if e.ready(o, t) {
						return true
					}
				}
				return false
			}
			t.channel = true
			e.next(t)
			t.park()
			t.cond, t.channel, t.retry = nil, false, false
			e.leave(w)
			e.mu.Unlock()
			unhide()
			if w.fired >= 0 {
				o := ops[w.fired]
				Acquire(o.key)
				if o.recv {
					o.put(w.got)
				}
				return w.fired
			}
			continue
		}
		i := list[0]
		if len(list) > 1 {
			i = list[e.choose(len(list))]
		}
		o := ops[i]
		if o.size == 0 && !e.isClosed(o.key) {
			w, j := e.partner(o, t)
			w.fired = j
			if !o.recv {
				w.got = o.box
			}
			box := w.ops[j].box
			e.mu.Unlock()
			unhide()
			Acquire(o.key)
			if o.recv {
				o.put(box)
			}
			return i
		}
		e.mu.Unlock()
		unhide()
		if o.try() {
			Acquire(o.key)
			return i
		}
	}
}

// outside is for callers that are not under control.
func outside(ops []*op, otherwise bool) int {
	if len(ops) == 1 && !otherwise {
		ops[0].block()
		return 0
	}
	cases := make([]reflect.SelectCase, len(ops))
	for i, o := range ops {
		cases[i] = o.native()
	}
	if otherwise {
		cases = append(cases, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(cases)
	if i == len(ops) {
		return -1
	}
	if ops[i].recv {
		ops[i].set(v, ok)
	}
	return i
}

// Receiving is a receive.
type Receiving[E any] struct {
	V  E
	OK bool
	o  op
}

func (r *Receiving[E]) operation() *op { return &r.o }

// R is a receive of a select statement.
func R[E any](c <-chan E) *Receiving[E] {
	r := &Receiving[E]{}
	r.o = op{
		key:  *(*unsafe.Pointer)(unsafe.Pointer(&c)),
		recv: true,
		size: cap(c),
		try: func() bool {
			select {
			case r.V, r.OK = <-c:
				return true
			default:
				return false
			}
		},
		block: func() { r.V, r.OK = <-c },
		put:   func(b any) { r.V, r.OK = *b.(*E), true },
		native: func() reflect.SelectCase {
			return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c)}
		},
		set: func(v reflect.Value, ok bool) { r.V, r.OK = *valueAs[E](v), ok },
	}
	return r
}

func valueAs[E any](v reflect.Value) *E {
	p := new(E)
	reflect.ValueOf(p).Elem().Set(v)
	return p
}

// Sending is a send.
type Sending struct{ o op }

func (s *Sending) operation() *op { return &s.o }

// S is a send of a select statement.
func S[E any](c chan<- E) func(E) *Sending {
	return func(v E) *Sending {
		return &Sending{op{
			key:  *(*unsafe.Pointer)(unsafe.Pointer(&c)),
			size: cap(c),
			try: func() bool {
				select {
				case c <- v:
					return true
				default:
					return false
				}
			},
			block: func() { c <- v },
			box:   &v,
			native: func() reflect.SelectCase {
				return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c), Send: reflect.ValueOf(&v).Elem()}
			},
		}}
	}
}

// Select takes the place of a select statement.
func Select(otherwise bool, ops ...interface{ operation() *op }) int {
	list := make([]*op, len(ops))
	for i, o := range ops {
		list[i] = o.operation()
	}
	return communicate(list, otherwise)
}

// Send takes the place of a send.
func Send[E any](c chan<- E) func(E) {
	return func(v E) { Select(false, S(c)(v)) }
}

// Recv takes the place of a receive.
func Recv[E any](c <-chan E) E {
	r := R(c)
	Select(false, r)
	return r.V
}

// Recv2 takes the place of a receive that says whether there was anything.
func Recv2[E any](c <-chan E) (E, bool) {
	r := R(c)
	Select(false, r)
	return r.V, r.OK
}

// Close takes the place of close.
func Close[E any](c chan<- E) {
	key := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	Point()
	if key != nil {
		ReleaseMerge(key)
	}
	close(c)
	closed(key)
}

func closed(key unsafe.Pointer) {
	if running.Load() == 0 {
		return
	}
	if t := current(); t != nil {
		Do(func() { t.e.closed = append(t.e.closed, key) })
	}
}

// Ranging goes through what is sent on a channel.
type Ranging[E any] struct{ c <-chan E }

// Iter takes the place of the range of a for statement.
func Iter[E any](c <-chan E) (Ranging[E], E) {
	var v E
	return Ranging[E]{c}, v
}

// Next receives what is next.
func (r Ranging[E]) Next(p *E) bool {
	v, ok := Recv2(r.c)
	if ok && p != nil {
		*p = v
	}
	return ok
}
