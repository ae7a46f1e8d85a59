//go:build go1.22

// Package vh is the exploration driver shared by all checks: it enumerates the
// blocks of every stage in parallel, counts what was covered, attributes
// panics, crashes and hangs to the block that caused them, and writes the
// evidence.
package vh

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Check is one property's check.
type Check struct {
	ID     string
	Level  string // exploration, fault_enumeration or model_checking
	Rule   string
	Assume []string
	Run    func(*T)
	Races  func(*T) // explored in a build with the race detector
}

// T is the run of one check.
type T struct {
	Check
	Quick bool
	Seed  int64

	only       map[string]int // replay: stage -> block
	deadline   time.Time
	mu         sync.Mutex
	violations []Violation
	seenKeys   map[string]bool
	known      map[string]string
	knownHit   map[string]bool
	res        Result
	stages     map[string]bool
	cases      map[string]int
	distinct   [64]shard
	cut        atomic.Bool
	slots      []slot
	vcount     atomic.Int64
	states     atomic.Int64
	trans      atomic.Int64
	traces     atomic.Int64
	evals      atomic.Int64
	nontriv    atomic.Int64
	maxViol    int64
}

type shard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

// Violation is one failing block.
type Violation struct {
	Property string `json:"property"`
	Stage    string `json:"stage"`
	Block    int    `json:"block"`
	Key      string `json:"key"`
	Message  string `json:"message"`
	Tier     string `json:"tier"`
}

// Result is what the child hands to the parent.
type Result struct {
	Violations []Violation      `json:"violations"`
	Known      []string         `json:"known"`
	Evals      int64            `json:"evals"`
	Nontrivial int64            `json:"nontrivial"`
	States     int64            `json:"states"`
	Trans      int64            `json:"trans"`
	Traces     int64            `json:"traces"`
	Samples    []any            `json:"samples"`
	Stages     []StageInfo      `json:"stages"`
	Extra      map[string]int64 `json:"extra"`
	Exhaustive bool             `json:"exhaustive"`
	Done       bool             `json:"done"`
}

// StageInfo says how much of a stage was explored.
type StageInfo struct {
	Name   string `json:"stage"`
	Blocks int    `json:"blocks"`
	Done   int64  `json:"blocks_explored"`
}

// slot is one worker's progress record in the memory shared with the parent.
type slot struct {
	buf []byte // 8: start unix nanos, 8: block+1, 48: stage name
}

const slotSize = 96
const numSlots = 17 // the last is for code outside of Par

func (s slot) set(stage string, block int) {
	if s.buf == nil {
		return
	}
	n := s.buf[16:slotSize]
	for i := range n {
		n[i] = 0
	}
	copy(n, stage)
	binary.LittleEndian.PutUint64(s.buf[8:], uint64(block+1))
	atomic.StoreInt64((*int64)(unsafe.Pointer(&s.buf[0])), time.Now().UnixNano())
}

func (s slot) clear() {
	if s.buf != nil {
		atomic.StoreInt64((*int64)(unsafe.Pointer(&s.buf[0])), 0)
	}
}

func (s slot) get() (start int64, stage string, block int) {
	start = atomic.LoadInt64((*int64)(unsafe.Pointer(&s.buf[0])))
	block = int(binary.LittleEndian.Uint64(s.buf[8:])) - 1
	stage = strings.TrimRight(string(s.buf[16:slotSize]), "\x00")
	return
}

// B is one block of a stage.
type B struct {
	T     *T
	Stage string
	Block int
	slot  slot

	evals, nontriv, states, trans, traces int64
	fails                                 int
	cased                                 bool
}

// Tick says that the block is making progress.
func (b *B) Tick() { b.slot.set(b.Stage, b.Block) }

// Eval counts n executions of which nt are distinct (by construction) and
// non-trivial.
func (b *B) Eval(n, nt int) { b.evals += int64(n); b.nontriv += int64(nt) }

// EvalH counts one execution, non-trivial, distinct by the hash.
func (b *B) EvalH(h uint64) {
	b.evals++
	s := &b.T.distinct[h%64]
	s.mu.Lock()
	if s.m == nil {
		s.m = map[uint64]struct{}{}
	}
	if _, ok := s.m[h]; !ok {
		s.m[h] = struct{}{}
		b.nontriv++
	}
	s.mu.Unlock()
}

// States counts states, transitions and validated traces.
func (b *B) States(s, t, traces int) {
	b.states += int64(s)
	b.trans += int64(t)
	b.traces += int64(traces)
}

// Failed says whether this block has failed.
func (b *B) Failed() bool { return b.fails > 0 }

// Fail records a violation. The key identifies what fails, for the known
// findings.
func (b *B) Fail(key, format string, args ...any) {
	b.fails++
	b.T.fail(b.Stage, b.Block, key, fmt.Sprintf(format, args...))
}

// Stop says that the deadline passed or that there were enough violations.
func (b *B) Stop() bool {
	if b.T.only != nil {
		return false
	}
	if b.T.vcount.Load() >= b.T.maxViol {
		return true
	}
	if time.Now().After(b.T.deadline) {
		b.T.cut.Store(true)
		return true
	}
	return false
}

func (t *T) fail(stage string, block int, key, msg string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if d, ok := t.known[key]; ok {
		if !t.knownHit[key] {
			t.knownHit[key] = true
			t.res.Known = append(t.res.Known, key+" :: "+d)
		}
		return
	}
	t.vcount.Add(1)
	if t.seenKeys[key] {
		return
	}
	t.seenKeys[key] = true
	if len(t.violations) < 40 {
		tier := "thorough"
		if t.Quick {
			tier = "quick"
		}
		t.violations = append(t.violations, Violation{t.ID, stage, block, key, msg, tier})
	}
}

// Sample records a sample case.
func (t *T) Sample(v any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.res.Samples) < 12 {
		t.res.Samples = append(t.res.Samples, v)
	}
}

// Case writes out the first case of a block of its stage for the evidence, for
// the first three blocks of each stage.
func (b *B) Case(f func() string) {
	if b.cased {
		return
	}
	b.cased = true
	b.T.mu.Lock()
	if b.T.cases == nil {
		b.T.cases = map[string]int{}
	}
	n := b.T.cases[b.Stage]
	b.T.cases[b.Stage] = n + 1
	b.T.mu.Unlock()
	if n < 3 {
		b.T.Sample(b.Stage + ": " + f())
	}
}

// Extra adds to a named count of the coverage.
func (t *T) Extra(name string, n int64) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.res.Extra == nil {
		t.res.Extra = map[string]int64{}
	}
	t.res.Extra[name] += n
}

// Pick returns q on the quick tier and th on the thorough one.
func Pick[V any](t *T, q, th V) V {
	if t.Quick {
		return q
	}
	return th
}

// Truncated says that some bound below the stated one was hit.
func (t *T) Truncated() { t.cut.Store(true) }

func panicKey(p any) string {
	s := fmt.Sprint(p)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 100 {
		s = s[:100]
	}
	return s
}

func (t *T) one(stage string, i int, sl slot, fn func(*B, int)) {
	b := &B{T: t, Stage: stage, Block: i, slot: sl}
	sl.set(stage, i)
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				b.Fail("panic:"+stage+":"+panicKey(p), "panic: %v\n%s", p, trim(st, 3000))
			}
		}()
		fn(b, i)
	}()
	sl.clear()
	t.evals.Add(b.evals)
	t.nontriv.Add(b.nontriv)
	t.states.Add(b.states)
	t.trans.Add(b.trans)
	t.traces.Add(b.traces)
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// Par explores the n blocks of a stage, in parallel.
func (t *T) Par(stage string, n int, fn func(b *B, i int)) { t.par(stage, n, 0, fn) }

// Seq explores the n blocks of a stage one after another.
func (t *T) Seq(stage string, n int, fn func(b *B, i int)) { t.par(stage, n, 1, fn) }

func (t *T) par(stage string, n, workers int, fn func(b *B, i int)) {
	if len(stage) > 70 {
		panic("stage name too long")
	}
	if t.stages[stage] {
		panic("stage run twice: " + stage)
	}
	t.stages[stage] = true
	if t.only != nil {
		if blk, ok := t.only[stage]; ok && blk < n {
			t.one(stage, blk, t.slots[0], fn)
		}
		return
	}
	t.slots[numSlots-1].clear()
	if workers == 0 {
		workers = runtime.NumCPU()
		if workers > numSlots-1 {
			workers = numSlots - 1
		}
	}
	var next, done atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if t.vcount.Load() >= t.maxViol {
					return
				}
				if time.Now().After(t.deadline) {
					t.cut.Store(true)
					return
				}
				t.one(stage, i, t.slots[w], fn)
				done.Add(1)
			}
		}(w)
	}
	wg.Wait()
	t.mu.Lock()
	t.res.Stages = append(t.res.Stages, StageInfo{stage, n, done.Load()})
	t.mu.Unlock()
	t.slots[numSlots-1].set("outside", 0)
}

// Hash is FNV-1a over the printed values.
func Hash(v ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprintln(h, v...)
	return h.Sum64()
}

// HashBytes is FNV-1a over bytes.
func HashBytes(p []byte) uint64 {
	h := fnv.New64a()
	h.Write(p)
	return h.Sum64()
}

// Main runs the check named on the command line.
func Main(checks ...Check) {
	id := flag.String("check", "", "property")
	verif := flag.String("verif", "/verif", "the verif directory")
	scratch := flag.String("scratch", "", "scratch directory")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Int("budget", 0, "seconds")
	replay := flag.String("replay", "", "violation file to replay")
	child := flag.Bool("child", false, "internal")
	only := flag.String("only", "", "internal: stage#block")
	races := flag.Bool("races", false, "internal: explore what is for the race detector")
	flag.Parse()

	var c *Check
	for i := range checks {
		if checks[i].ID == *id {
			c = &checks[i]
		}
	}
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check", *id)
		os.Exit(3)
	}
	if *budget == 0 {
		*budget = 420
		if *tier != "quick" {
			*budget = 780
		}
	}
	if *races {
		c.Run = c.Races
	}
	if *child {
		os.Exit(runChild(*c, *tier, *seed, *budget, *verif, *scratch, *only))
	}
	os.Exit(runParent(*c, *tier, *seed, *budget, *verif, *scratch, *replay))
}

func loadKnown(verif, id string) map[string]string {
	m := map[string]string{}
	data, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(data), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" key=")
		if !ok {
			continue
		}
		k, d, _ := strings.Cut(rest, " :: ")
		m[strings.TrimSpace(k)] = d
	}
	return m
}

func mapSlots(path string, create bool) ([]slot, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if create {
		if err = f.Truncate(slotSize * numSlots); err != nil {
			return nil, err
		}
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, slotSize*numSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	s := make([]slot, numSlots)
	for i := range s {
		s[i].buf = m[i*slotSize : (i+1)*slotSize]
	}
	return s, nil
}

func runChild(c Check, tier string, seed int64, budget int, verif, scratch, only string) int {
	debug.SetMemoryLimit(20 << 30)
	t := &T{
		Check: c, Quick: tier == "quick", Seed: seed,
		deadline: time.Now().Add(time.Duration(budget) * time.Second),
		seenKeys: map[string]bool{}, knownHit: map[string]bool{},
		known: loadKnown(verif, c.ID), stages: map[string]bool{}, maxViol: 12,
	}
	if only != "" {
		i := strings.LastIndexByte(only, '#')
		var blk int
		fmt.Sscan(only[i+1:], &blk)
		t.only = map[string]int{only[:i]: blk}
	}
	var err error
	t.slots, err = mapSlots(filepath.Join(scratch, "slots"), false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	t.slots[numSlots-1].set("outside", 0)
	func() {
		defer func() {
			if p := recover(); p != nil {
				t.fail("outside", 0, "panic:outside:"+panicKey(p), fmt.Sprintf("panic: %v\n%s", p, trim(string(debug.Stack()), 3000)))
			}
		}()
		c.Run(t)
	}()
	t.slots[numSlots-1].clear()
	r := t.res
	r.Violations = t.violations
	r.Evals, r.Nontrivial = t.evals.Load(), t.nontriv.Load()
	r.States, r.Trans, r.Traces = t.states.Load(), t.trans.Load(), t.traces.Load()
	r.Exhaustive = !t.cut.Load()
	r.Done = true
	out, _ := json.Marshal(r)
	if err := os.WriteFile(filepath.Join(scratch, "result.json"), out, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}

type outcome struct {
	res     *Result
	crashed bool
	hung    bool
	stderr  string
	active  []string // stage#block of what was running
}

const hangAfter = 150 * time.Second

// RacePrefix starts the names of the stages of Races.
const RacePrefix = "races-"

func raceExe() string {
	exe, _ := os.Executable()
	exe += "-race"
	if _, err := os.Stat(exe); err != nil {
		return ""
	}
	return exe
}

func spawn(races bool, tier string, seed int64, budget int, verif, scratch, id, only string, limit time.Duration) outcome {
	var o outcome
	os.Remove(filepath.Join(scratch, "result.json"))
	sp := filepath.Join(scratch, "slots")
	os.Remove(sp)
	slots, err := mapSlots(sp, true)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	exe, _ := os.Executable()
	if races {
		exe = raceExe()
	}
	cmd := exec.Command(exe, "-child", "-races="+fmt.Sprint(races), "-check", id, "-tier", tier, "-seed", fmt.Sprint(seed), "-budget", fmt.Sprint(budget), "-verif", verif, "-scratch", scratch, "-only", only)
	ef, _ := os.Create(filepath.Join(scratch, "stderr"))
	cmd.Stderr = ef
	cmd.Stdout = ef
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for running := true; running; {
		select {
		case err = <-done:
			running = false
		case <-tick.C:
			now := time.Now().UnixNano()
			for _, s := range slots[:numSlots-1] {
				if start, stage, blk := s.get(); start != 0 && now-start > int64(limit) {
					o.hung = true
					o.active = append(o.active, fmt.Sprintf("%s#%d", stage, blk))
				}
			}
			if o.hung {
				cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case err = <-done:
				case <-time.After(5 * time.Second):
					cmd.Process.Kill()
					err = <-done
				}
				running = false
			}
		}
	}
	ef.Close()
	data, _ := os.ReadFile(filepath.Join(scratch, "stderr"))
	o.stderr = string(data)
	if o.hung {
		return o
	}
	if out, e := os.ReadFile(filepath.Join(scratch, "result.json")); e == nil && err == nil {
		var r Result
		if json.Unmarshal(out, &r) == nil && r.Done {
			o.res = &r
			return o
		}
	}
	o.crashed = true
	for _, s := range slots {
		if start, stage, blk := s.get(); start != 0 {
			o.active = append(o.active, fmt.Sprintf("%s#%d", stage, blk))
		}
	}
	return o
}

func crashKey(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.Contains(l, "WARNING: DATA RACE") || strings.HasPrefix(l, "runtime: ") {
			return trim(strings.TrimSpace(l), 120)
		}
	}
	return "process ended"
}

func (r *Result) merge(q *Result) {
	r.Violations = append(r.Violations, q.Violations...)
	r.Known = append(r.Known, q.Known...)
	r.Evals += q.Evals
	r.Nontrivial += q.Nontrivial
	r.States += q.States
	r.Trans += q.Trans
	r.Traces += q.Traces
	r.Samples = append(r.Samples, q.Samples...)
	r.Stages = append(r.Stages, q.Stages...)
	r.Exhaustive = r.Exhaustive && q.Exhaustive
	r.Done = r.Done && q.Done
	for k, n := range q.Extra {
		if r.Extra == nil {
			r.Extra = map[string]int64{}
		}
		r.Extra[k] += n
	}
}

// explore runs the exploration in a process of its own and finds out which
// block made it crash or hang.
func explore(c Check, races bool, tier string, seed int64, budget int, verif, scratch, only string) (*Result, []Violation) {
	start := time.Now()
	o := spawn(races, tier, seed, budget, verif, scratch, c.ID, only, hangAfter)
	var extra []Violation
	if o.res == nil {
		// Find the block responsible by running the suspects on their own.
		word := "crash"
		if o.hung {
			word = "hang"
		}
		for _, a := range o.active {
			i := strings.LastIndexByte(a, '#')
			stage := a[:i]
			var blk int
			fmt.Sscan(a[i+1:], &blk)
			if stage == "outside" {
				continue
			}
			p := spawn(races, tier, seed, budget, verif, scratch, c.ID, a, hangAfter)
			if p.crashed || p.hung {
				w := word
				if p.hung {
					w = "hang"
				}
				extra = append(extra, Violation{c.ID, stage, blk, w + ":" + stage + ":" + crashKey(p.stderr), trim(p.stderr, 6000), tier})
				break
			} else if p.res != nil && len(p.res.Violations) > 0 {
				extra = append(extra, p.res.Violations...)
				break
			}
			if time.Since(start) > 600*time.Second {
				break
			}
		}
		if len(extra) == 0 && time.Since(start) < 300*time.Second {
			// Not reproduced in isolation: once more as a whole.
			p := spawn(races, tier, seed, budget/2, verif, scratch, c.ID, only, hangAfter)
			if p.res == nil {
				st, blk := "outside", 0
				if len(p.active) > 0 {
					i := strings.LastIndexByte(p.active[0], '#')
					st = p.active[0][:i]
					fmt.Sscan(p.active[0][i+1:], &blk)
				}
				extra = append(extra, Violation{c.ID, st, blk, word + ":" + st + ":" + crashKey(p.stderr), trim(p.stderr, 6000), tier})
			} else {
				o = p
			}
		}
		if o.res == nil {
			if len(extra) == 0 {
				fmt.Fprintln(os.Stderr, "the exploration ended early and the reason did not reproduce:\n"+trim(o.stderr, 3000))
			}
			o.res = &Result{}
		}
	}
	return o.res, extra
}

func runParent(c Check, tier string, seed int64, budget int, verif, scratch, replay string) int {
	start := time.Now()
	known := loadKnown(verif, c.ID)
	only := ""
	if replay != "" {
		data, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		var v Violation
		if err := json.Unmarshal(data, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		only = fmt.Sprintf("%s#%d", v.Stage, v.Block)
		if v.Tier != "" {
			tier = v.Tier
		}
		if v.Stage == "outside" {
			only = ""
		}
	}
	var r *Result
	var extra []Violation
	if only == "" || !strings.HasPrefix(only, RacePrefix) {
		r, extra = explore(c, false, tier, seed, budget, verif, scratch, only)
	}
	if c.Races != nil && (only == "" || strings.HasPrefix(only, RacePrefix)) {
		if raceExe() == "" {
			fmt.Fprintln(os.Stderr, "no build with the race detector: its stages are left out")
		} else if left := budget + 60 - int(time.Since(start).Seconds()); left > 20 {
			q, ex := explore(c, true, tier, seed, left, verif, scratch, only)
			extra = append(extra, ex...)
			if r == nil {
				r = q
			} else {
				r.merge(q)
			}
		}
	}
	if r == nil {
		r = &Result{}
	}
	for _, v := range extra {
		if d, ok := known[v.Key]; ok {
			r.Known = append(r.Known, v.Key+" :: "+d)
			continue
		}
		r.Violations = append(r.Violations, v)
	}
	if replay == "" {
		writeEvidence(c, tier, seed, verif, r, time.Since(start))
	}
	sort.Strings(r.Known)
	for _, k := range r.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
	}
	code := 0
	for i, v := range r.Violations {
		path := filepath.Join(verif, "evidence", fmt.Sprintf("%s-violation-%d.json", c.ID, i))
		if replay != "" {
			path = replay
		} else {
			out, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, out, 0o644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n  stage %s block %d key %s\n  %s\n", c.ID, path, v.Stage, v.Block, v.Key, strings.ReplaceAll(trim(v.Message, 1500), "\n", "\n  "))
		code = 1
	}
	if code == 0 && !r.Done {
		r.Exhaustive = false
	}
	fmt.Printf("%s %s: %d executions, %d non-trivial, %d states, %d transitions, exhaustive=%v, %d known findings, %d violations, %.1fs\n", c.ID, tier, r.Evals, r.Nontrivial, r.States, r.Trans, r.Exhaustive && r.Done, len(r.Known), len(r.Violations), time.Since(start).Seconds())
	return code
}

func writeEvidence(c Check, tier string, seed int64, verif string, r *Result, wall time.Duration) {
	cov := map[string]any{
		"evaluations":         r.Evals,
		"distinct_nontrivial": r.Nontrivial,
		"rule":                c.Rule,
		"samples":             r.Samples,
		"stages":              r.Stages,
		"exhaustive":          r.Exhaustive && r.Done,
	}
	if r.Samples == nil {
		cov["samples"] = []any{}
	}
	if c.Level == "model_checking" {
		cov["states"] = r.States
		cov["transitions"] = r.Trans
		cov["traces_validated_against_impl"] = r.Traces
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	if len(r.Known) > 0 {
		cov["known_findings"] = r.Known
	}
	assume := c.Assume
	if assume == nil {
		assume = []string{}
	}
	e := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": cov, "assumptions": assume, "wall_s": wall.Seconds(), "violations": len(r.Violations),
	}
	out, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(out, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
