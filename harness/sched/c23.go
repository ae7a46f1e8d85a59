//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"verif.local/vsched"
	"vimagination.zapto.org/limage/internal"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c23 = vh.Check{
	ID: "C23", Level: "fault_enumeration",
	Rule: "every sequence of reads of the alphabet of offsets and lengths, with every placement of up to two faults among the operations on the stream, and every schedule with the stated number of preemptions (at every statement of the adapter and inside of every operation on the stream) of concurrent readers with every placement of one fault; distinct by construction",
	Assume: []string{
		"a stream that fails a read or a seek may have moved anywhere",
		"schedules are explored at the granularity of statements, and between the read and the write of compound assignments, with sync replaced by a model of it",
	},
	Run: runC23, Races: racesC23,
}

const (
	okOp       = iota
	seekFails  // and does not move
	seekMoves  // fails, but moves
	readFails  // without data
	readPart   // fails with a part of the data
	readMoves  // fails and moves elsewhere
	readShort  // gives one byte
	readNone   // gives nothing, once, without an error
	readFullEr // gives all the data with an error
	numFaults
)

var faultNames = [...]string{"", "failing seek", "failing seek that moves", "failing read", "partial failing read", "failing read that moves", "short read", "empty read", "full read with an error"}

var errFault = errors.New("fault")

type fault struct{ at, kind int }

// stream is a file that fails where it is told to.
type stream struct {
	data   []byte
	pos    int64
	op     int
	faults []fault
	eof    bool         // ends with the last bytes, not after them
	hit    map[int]bool // tasks that saw an error
}

func (s *stream) fault() int {
	k := okOp
	for _, f := range s.faults {
		if f.at == s.op {
			k = f.kind
		}
	}
	s.op++
	return k
}

func (s *stream) err() error {
	if s.hit == nil {
		s.hit = map[int]bool{}
	}
	s.hit[vsched.ID()] = true
	return errFault
}

func (s *stream) Seek(off int64, whence int) (int64, error) {
	vsched.Point()
	switch s.fault() {
	case seekFails:
		return 0, s.err()
	case seekMoves:
		s.pos = 2
		return 0, s.err()
	}
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = off
	vsched.Point()
	return off, nil
}

func (s *stream) Read(p []byte) (int, error) {
	vsched.Point()
	var err error
	switch s.fault() {
	case readFails:
		return 0, s.err()
	case readPart:
		p = p[:len(p)/2]
		err = s.err()
	case readMoves:
		s.pos += 3
		return 0, s.err()
	case readShort:
		if len(p) > 1 {
			p = p[:1]
		}
	case readNone:
		return 0, nil
	case readFullEr:
		err = s.err()
	}
	if len(p) == 0 {
		return 0, err
	}
	if s.pos >= int64(len(s.data)) {
		return 0, io.EOF
	}
	at := s.pos
	vsched.Point()
	n := copy(p, s.data[at:])
	s.pos = at + int64(n)
	vsched.Point()
	if err == nil && s.eof && s.pos == int64(len(s.data)) {
		err = io.EOF
	}
	return n, err
}

var streamData = []byte{10, 21, 32, 43, 54, 65, 76, 87}

type request struct {
	off int64
	n   int
}

// readAt makes one request and says what is wrong with the answer. faulty says
// whether an operation of the stream has failed in it.
func readAt(r io.ReaderAt, q request, faulty func() bool) string {
	p := make([]byte, q.n+2)
	for i := range p {
		p[i] = 0xee
	}
	n, err := r.ReadAt(p[:q.n], q.off)
	if n < 0 || n > q.n {
		return fmt.Sprintf("ReadAt(%d bytes, %d) gives %d", q.n, q.off, n)
	}
	if n < q.n && err == nil {
		return fmt.Sprintf("ReadAt(%d bytes, %d) gives %d bytes without an error", q.n, q.off, n)
	}
	if q.off < 0 {
		if err == nil || n != 0 {
			return fmt.Sprintf("ReadAt(%d bytes, %d) gives %d, %v", q.n, q.off, n, err)
		}
		return ""
	}
	var want []byte
	if q.off < int64(len(streamData)) {
		want = streamData[q.off:]
	}
	if n > len(want) || !bytes.Equal(p[:n], want[:n]) {
		return fmt.Sprintf("ReadAt(%d bytes, %d) gives %v", q.n, q.off, p[:n])
	}
	for _, c := range p[q.n:] {
		if c != 0xee {
			return fmt.Sprintf("ReadAt(%d bytes, %d) writes behind its buffer", q.n, q.off)
		}
	}
	if faulty() {
		return ""
	}
	if k := min(q.n, len(want)); n != k {
		return fmt.Sprintf("ReadAt(%d bytes, %d) gives %d bytes, not %d: %v", q.n, q.off, n, k, err)
	}
	if n == q.n && err != nil && err != io.EOF || n < q.n && err != io.EOF {
		return fmt.Sprintf("ReadAt(%d bytes, %d) gives %d bytes and %v", q.n, q.off, n, err)
	}
	if err != nil && q.off+int64(q.n) < int64(len(streamData)) {
		return fmt.Sprintf("ReadAt(%d bytes, %d) of what is there gives %v", q.n, q.off, err)
	}
	return ""
}

// sources are the ways to hand a stream over.
var sources = []struct {
	name string
	make func(s *stream) io.Reader
}{
	{"stream", func(s *stream) io.Reader { return s }},
	{"stream at 3", func(s *stream) io.Reader { s.pos = 3; return s }},
	{"stream past its end", func(s *stream) io.Reader { s.pos = 100; return s }},
	{"stream that ends with its last bytes", func(s *stream) io.Reader { s.eof = true; return s }},
	{"buffered stream", func(s *stream) io.Reader { return bufio.NewReader(s) }},
	{"buffered stream that was read", func(s *stream) io.Reader {
		b := bufio.NewReaderSize(s, 16)
		b.Peek(4)
		s.op = 0
		return b
	}},
}

func newAdapter(src int, fs []fault) (*stream, io.ReaderAt) {
	s := &stream{data: streamData}
	r := sources[src].make(s)
	s.faults = fs
	return s, internal.GetReaderAt(r)
}

func faultSets(ops int, pairs bool) [][]fault {
	out := [][]fault{nil}
	for a := 0; a < ops; a++ {
		for k := 1; k < numFaults; k++ {
			out = append(out, []fault{{a, k}})
			for b := a + 1; pairs && b < ops; b++ {
				for l := 1; l < numFaults; l++ {
					out = append(out, []fault{{a, k}, {b, l}})
				}
			}
		}
	}
	return out
}

func faultText(fs []fault) string {
	var s []string
	for _, f := range fs {
		s = append(s, fmt.Sprintf("%s at operation %d", faultNames[f.kind], f.at))
	}
	if s == nil {
		return "no fault"
	}
	return strings.Join(s, ", ")
}

func runC23(t *vh.T) {
	var reqs []request
	for _, off := range []int64{0, 1, 5, 8, 9} {
		for _, n := range []int{0, 1, 3, 8} {
			reqs = append(reqs, request{off, n})
		}
	}
	reqs = append(reqs, request{-1, 2})
	n := len(reqs)
	t.Par("sequences", len(sources)*n*n, func(b *vh.B, i int) {
		src := i / (n * n)
		sets := faultSets(vh.Pick(t, 5, 7), true)
		seq := []request{reqs[i%n], reqs[i/n%n], {}, {}}
		for j, q3 := range reqs {
			seq[2] = q3
			seq[3] = reqs[(i+j)%n]
			for _, fs := range sets {
				if t.Quick && len(fs) == 2 && (j+src)%4 != 0 {
					continue
				}
				s, r := newAdapter(src, fs)
				if r == nil {
					b.Fail("none", "no adapter for a %s", sources[src].name)
					return
				}
				msg := ""
				e := vsched.Run(func() {
					for k, q := range seq {
						s.hit = nil
						if m := readAt(r, q, func() bool { return s.hit != nil }); m != "" {
							msg = fmt.Sprintf("number %d: %s", k, m)
							return
						}
					}
				})
				if e.Deadlock {
					b.Fail("blocked", "%s, %s, reads %v never finish", sources[src].name, faultText(fs), seq)
					return
				} else if e.Panic != nil {
					b.Fail("panic", "%s, %s, reads %v: panic: %v\n%s", sources[src].name, faultText(fs), seq, e.Panic, e.Stack)
					return
				} else if msg != "" {
					b.Fail("read", "%s, %s, reads %v, %s", sources[src].name, faultText(fs), seq, msg)
					return
				}
				b.Eval(1, 1)
			}
			if b.Stop() {
				return
			}
		}
	})
	// Files larger than any number of fewer than 64 bits.
	var large []request
	for _, k := range []uint{7, 8, 15, 16, 31, 32, 40, 62} {
		for d := int64(-4); d <= 4; d += 2 {
			large = append(large, request{1<<k + d, 3}, request{1<<k + d, 9})
		}
	}
	large = append(large, request{0, 3}, request{1<<16 - 1, 70000}, request{1<<62 + 40, 8}, request{1<<63 - 1, 4})
	t.Par("large", len(large)*2, func(b *vh.B, i int) {
		first := large[i/2]
		for _, second := range large {
			for bad := 0; bad < vh.Pick(t, 3, 5); bad++ {
				s := &huge{bad: -1}
				var src io.Reader = s
				if i%2 == 1 {
					src = bufio.NewReaderSize(s, 16)
				}
				r := internal.GetReaderAt(src)
				if bad > 0 {
					s.bad = s.op + bad
				}
				msg := "they never finish"
				e := vsched.Run(func() { msg = readHuge(r, s, first, second, first) })
				if e.Panic != nil {
					msg = fmt.Sprint("panic: ", e.Panic)
				}
				if msg != "" {
					b.Fail("large", "reads of %v, %v and %v of a file of %d bytes, failing operation %d: %s", first, second, first, hugeSize, bad, msg)
					return
				}
				b.Eval(1, 1)
			}
		}
	})
	// Concurrent readers.
	pick := []request{{0, 3}, {2, 4}, {5, 3}, {3, 2}, {6, 4}}
	type conf struct {
		tasks [][]request
		bound int
	}
	var confs []conf
	for a := range pick {
		for c := range pick {
			for d := range pick {
				if !t.Quick || (a+2*c+3*d)%5 == 0 {
					confs = append(confs, conf{[][]request{{pick[a], pick[(a+c+1)%5]}, {pick[c], pick[d]}}, vh.Pick(t, 2, 3)})
				}
			}
			if !t.Quick || (a+c)%3 == 0 {
				confs = append(confs, conf{[][]request{{pick[a]}, {pick[c]}, {pick[(a+c)%5]}}, 2})
			}
		}
	}
	sets := faultSets(vh.Pick(t, 5, 8), false)
	t.Par("schedules", len(confs)*len(sets), func(b *vh.B, i int) {
		c, fs := confs[i/len(sets)], sets[i%len(sets)]
		src := i % len(sources)
		if len(fs) > 0 && c.bound > 2 {
			c.bound = 2
		}
		st := vsched.Explore(c.bound, 0, 1, func() ([]func(), func(*vsched.Exec) bool) {
			s, r := newAdapter(src, fs)
			msgs := make([]string, len(c.tasks))
			var bodies []func()
			for k := range c.tasks {
				bodies = append(bodies, func() {
					for _, q := range c.tasks[k] {
						delete(s.hit, k)
						if msg := readAt(r, q, func() bool { return s.hit[k] }); msg != "" {
							msgs[k] = msg
							return
						}
					}
				})
			}
			return bodies, func(e *vsched.Exec) bool {
				what := fmt.Sprintf("%s, %s, readers %v, schedule %s", sources[src].name, faultText(fs), c.tasks, e.Schedule())
				switch {
				case e.Deadlock:
					b.Fail("blocked", "%s: readers never finish", what)
					return false
				case e.Panic != nil:
					b.Fail("panic", "%s: panic: %v\n%s", what, e.Panic, e.Stack)
					return false
				}
				for k, m := range msgs {
					if m != "" {
						b.Fail("concurrent", "%s: reader %d: %s", what, k, m)
						return false
					}
				}
				s.faults, s.hit = nil, nil
				m := "it never finishes"
				vsched.Run(func() { m = readAt(r, request{1, 7}, func() bool { return false }) })
				if m != "" {
					b.Fail("after", "%s: afterwards: %s", what, m)
					return false
				}
				return true
			}
		}, b.Stop)
		b.Eval(st.Schedules, st.Schedules)
		b.States(st.Choices, st.Points, 0)
		if !st.Complete && !b.Failed() {
			t.Truncated()
		}
		if i == 0 {
			t.Sample(fmt.Sprintf("readers %v: %d schedules, %d points", c.tasks, st.Schedules, st.Points))
		}
	})
}

// huge is a file of hugeSize bytes that are made up when they are read.
type huge struct {
	pos     int64
	op, bad int
	hit     bool
}

const hugeSize = 1<<62 + 44

func hugeByte(off int64) byte { return byte((uint64(off)*0x9e3779b97f4a7c15 + 12345) >> 53) }

func (s *huge) Seek(off int64, whence int) (int64, error) {
	if s.op++; s.op == s.bad {
		s.hit = true
		return 0, errFault
	}
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += hugeSize
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = off
	return off, nil
}

func (s *huge) Read(p []byte) (int, error) {
	if s.op++; s.op == s.bad {
		s.hit = true
		return 0, errFault
	}
	n := 0
	for ; n < len(p) && s.pos < hugeSize; n++ {
		p[n] = hugeByte(s.pos)
		s.pos++
	}
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

// readHuge makes requests of a large file and says what is wrong with the
// answers.
func readHuge(r io.ReaderAt, s *huge, qs ...request) string {
	for _, q := range qs {
		s.hit = false
		p := make([]byte, q.n)
		n, err := r.ReadAt(p, q.off)
		want := int(min(int64(q.n), max(0, hugeSize-q.off)))
		switch {
		case n < 0 || n > want || n < q.n && err == nil:
			return fmt.Sprintf("ReadAt(%d bytes, %d) gives %d, %v", q.n, q.off, n, err)
		case !s.hit && (n != want || err != nil && err != io.EOF || err != nil && q.off < hugeSize-int64(q.n)):
			return fmt.Sprintf("ReadAt(%d bytes, %d) gives %d, %v, not %d", q.n, q.off, n, err, want)
		}
		for j, c := range p[:n] {
			if c != hugeByte(q.off+int64(j)) {
				return fmt.Sprintf("ReadAt(%d bytes, %d) gives the byte %d for %d at %d", q.n, q.off, c, hugeByte(q.off+int64(j)), j)
			}
		}
	}
	return ""
}

// quiet is a stream that fails where it is told to and keeps no account of it,
// for the race detector: it is only used by the adapter, whose readers have to
// take turns.
type quiet struct {
	pos, op, bad int
}

func (s *quiet) Seek(off int64, whence int) (int64, error) {
	if s.op++; s.op == s.bad {
		return 0, errFault
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(s.pos)
	case io.SeekEnd:
		off += int64(len(streamData))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = int(off)
	return off, nil
}

func (s *quiet) Read(p []byte) (int, error) {
	if s.op++; s.op == s.bad {
		return 0, errFault
	}
	if s.pos >= len(streamData) {
		return 0, io.EOF
	}
	n := copy(p, streamData[s.pos:])
	s.pos += n
	return n, nil
}

// racesC23 looks for uses of the stream, or of what the adapter knows of it,
// that nothing orders, whatever their order was.
func racesC23(t *vh.T) {
	pick := []request{{0, 3}, {2, 4}, {5, 3}, {3, 2}, {6, 4}, {9, 1}, {0, 0}, {-1, 2}}
	n := len(pick)
	const ops = 6
	t.Par(vh.RacePrefix+"readers", n*n*n*2, func(b *vh.B, i int) {
		k, buffered := i/2, i%2 == 1
		a, c, d := pick[k%n], pick[k/n%n], pick[k/n/n]
		for bad := 0; bad <= ops; bad++ {
			st := vsched.Explore(vh.Pick(t, 1, 2), 0, 1, func() ([]func(), func(*vsched.Exec) bool) {
				s := new(quiet)
				var src io.Reader = s
				if buffered {
					src = bufio.NewReaderSize(s, 16)
				}
				r := internal.GetReaderAt(src)
				s.bad = s.op + bad
				if bad == 0 {
					s.bad = -1
				}
				use := func(qs ...request) func() {
					return func() {
						for _, q := range qs {
							r.ReadAt(make([]byte, q.n), q.off)
						}
					}
				}
				return []func(){use(a, c), use(d)}, func(e *vsched.Exec) bool {
					if e.Deadlock {
						b.Fail("blocked", "readers of %v, %v and %v with failing operation %d never finish, schedule %s", a, c, d, bad, e.Schedule())
						return false
					} else if e.Panic != nil {
						b.Fail("panic", "readers of %v, %v and %v with failing operation %d: panic: %v\n%s", a, c, d, bad, e.Panic, e.Stack)
						return false
					}
					return true
				}
			}, b.Stop)
			b.Eval(st.Schedules, st.Schedules)
			b.States(st.Choices, st.Points, 0)
			if !st.Complete && !b.Failed() {
				t.Truncated()
			}
		}
	})
}
