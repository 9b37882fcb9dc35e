// Package fw is the exploration framework shared by all checks: it feeds every
// case of a bounded space to worker goroutines, records what was covered, and
// turns failures into replayable violations.
package fw

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// Tier selects the bounds of an exploration.
type Tier int

const (
	Quick Tier = iota
	Thorough
)

func (t Tier) String() string {
	if t == Thorough {
		return "thorough"
	}
	return "quick"
}

// Pick returns q for the quick tier and th for the thorough tier.
func Pick[T any](t Tier, q, th T) T {
	if t == Thorough {
		return th
	}
	return q
}

// Check is one registered property check.
type Check struct {
	ID          string
	Level       string // default model_checking
	Assumptions []string
	Suites      []Suite
}

var checks = map[string]*Check{}

// Extend adds suites to a registered check.
func Extend(id string, suites ...Suite) {
	checks[id].Suites = append(checks[id].Suites, suites...)
}

func Register(c *Check) {
	if _, dup := checks[c.ID]; dup {
		panic("duplicate check " + c.ID)
	}
	if c.Level == "" {
		c.Level = "model_checking"
	}
	checks[c.ID] = c
}

func IDs() []string {
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Suite is one bounded space of executions with its oracle.
type Suite interface {
	Name() string
	Bounds() string
	start(rc *runCtx, idx int)
	one(t Tier, seq int64, only func(data []byte, run func(r *Rec)))
	replay(data json.RawMessage, r *Rec) error
}

type suite[C any] struct {
	name, bounds string
	gen          func(t Tier, yield func(C))
	run          func(r *Rec, c C)
}

// S builds a suite. gen must yield the same cases in the same order every time.
func S[C any](name, bounds string, gen func(t Tier, yield func(C)), run func(r *Rec, c C)) Suite {
	return &suite[C]{name, bounds, gen, run}
}

func (s *suite[C]) Name() string   { return s.name }
func (s *suite[C]) Bounds() string { return s.bounds }

type stopGen struct{}

func (s *suite[C]) start(rc *runCtx, idx int) {
	const batchSize = 64
	type batch struct {
		seq   int64
		cases []C
	}
	ch := make(chan batch, 4*rc.workers)
	var wg sync.WaitGroup
	for w := 0; w < rc.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			r := rc.recs[w]
			for b := range ch {
				if rc.stopped.Load() {
					continue
				}
				for i, c := range b.cases {
					seq := b.seq + int64(i)
					r.begin(idx, s.name, seq, c)
					guard(r, func() { s.run(r, c) })
					r.end()
				}
			}
		}(w)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stopGen); !ok {
					panic(e)
				}
			}
		}()
		var seq int64
		cur := make([]C, 0, batchSize)
		nextSample := int64(1)
		flush := func() {
			if len(cur) > 0 {
				ch <- batch{seq - int64(len(cur)), cur}
				cur = make([]C, 0, batchSize)
			}
		}
		s.gen(rc.tier, func(c C) {
			cur = append(cur, c)
			seq++
			if seq == nextSample {
				nextSample *= 37
				rc.sample(s.name, c)
			}
			if len(cur) == batchSize || int64(len(cur)) > seq/64 {
				flush()
				if rc.stopped.Load() {
					panic(stopGen{})
				}
				if time.Now().After(rc.deadline) {
					rc.truncated.Store(true)
					panic(stopGen{})
				}
			}
		})
		flush()
	}()
	close(ch)
	wg.Wait()
}

func (s *suite[C]) one(t Tier, seq int64, only func(data []byte, run func(r *Rec))) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stopGen); !ok {
				panic(e)
			}
		}
	}()
	var n int64
	s.gen(t, func(c C) {
		if n == seq {
			data, _ := json.Marshal(c)
			only(data, func(r *Rec) {
				r.begin(0, s.name, seq, c)
				guard(r, func() { s.run(r, c) })
				r.end()
			})
			panic(stopGen{})
		}
		n++
	})
}

func (s *suite[C]) replay(data json.RawMessage, r *Rec) error {
	var c C
	if err := json.Unmarshal(data, &c); err != nil {
		return err
	}
	r.begin(0, s.name, 0, c)
	guard(r, func() { s.run(r, c) })
	r.end()
	return nil
}

func guard(r *Rec, f func()) {
	defer func() {
		if e := recover(); e != nil {
			r.Failf("", "panic: %v\n%s", e, trimStack(string(debug.Stack())))
		}
	}()
	f()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	// drop the frames of debug.Stack, the recover closure and panic itself
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") && i+2 < len(lines) {
			lines = lines[i+2:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// Rec records what one worker did. It is used by a single goroutine at a time.
type Rec struct {
	rc      *runCtx
	cases   int64
	ops     int64
	traces  int64
	extra   map[string]int64
	suite   string
	curCase interface{}
	seq     int64
	started atomic.Int64 // unix nanos of the current case, 0 if idle
	slot    *journalSlot
	failed  []failure // used in replay mode (rc == nil)
	tags    map[string]struct{}
}

type failure struct {
	Sig string
	Msg string
}

func (r *Rec) begin(idx int, suite string, seq int64, c interface{}) {
	r.suite = suite
	r.seq = seq
	r.curCase = c
	if r.slot != nil {
		atomic.StoreInt64(&r.slot.suite, int64(idx))
		atomic.StoreInt64(&r.slot.seq, seq+1)
	}
	r.started.Store(time.Now().UnixNano())
}

func (r *Rec) end() {
	r.started.Store(0)
	if r.slot != nil {
		atomic.StoreInt64(&r.slot.seq, 0)
	}
	r.cases++
	r.curCase = nil
}

// Op counts n operations performed on the implementation.
func (r *Rec) Op(n int) { r.ops += int64(n) }

// Trace counts one complete model execution compared with the implementation.
func (r *Rec) Trace() { r.traces++ }

// Count adds to a named extra counter of the evidence.
func (r *Rec) Count(name string, n int) {
	if r.extra == nil {
		r.extra = map[string]int64{}
	}
	r.extra[name] += int64(n)
}

// Cut records that the current case was not explored completely; the run then
// does not count as exhaustive.
func (r *Rec) Cut() {
	r.Count("cases not explored completely", 1)
	if r.rc != nil {
		r.rc.incomplete.Store(true)
	}
}

// State records a visited model state; duplicates count once.
func (r *Rec) State(parts ...string) {
	if r.rc == nil {
		return
	}
	r.rc.states.add(hashParts(parts))
}

// StateB is State for byte slices.
func (r *Rec) StateB(tag string, b []byte) {
	if r.rc == nil {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(tag))
	h.Write([]byte{0})
	h.Write(b)
	r.rc.states.add(h.Sum64())
}

func hashParts(parts []string) uint64 {
	const prime = 1099511628211
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h ^= uint64(p[i])
			h *= prime
		}
		h ^= 0xff
		h *= prime
	}
	return h
}

// Failf reports a violation by the current case. sig identifies the failure for
// the known-findings file; it may be empty.
func (r *Rec) Failf(sig, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	if r.rc == nil {
		r.failed = append(r.failed, failure{sig, msg})
		return
	}
	r.rc.fail(r, sig, msg)
}

type stateSet struct {
	shards [256]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
}

func (s *stateSet) add(h uint64) {
	sh := &s.shards[h>>56]
	sh.mu.Lock()
	if sh.m == nil {
		sh.m = map[uint64]struct{}{}
	}
	sh.m[h] = struct{}{}
	sh.mu.Unlock()
}

func (s *stateSet) len() int64 {
	var n int64
	for i := range s.shards {
		n += int64(len(s.shards[i].m))
	}
	return n
}

type journalSlot struct {
	suite int64
	seq   int64
	_     [6]int64
}

type violation struct {
	Suite string
	Seq   int64
	Case  json.RawMessage
	Sig   string
	Msg   string
	Repro string
}

type runCtx struct {
	check      *Check
	tier       Tier
	workers    int
	deadline   time.Time
	recs       []*Rec
	states     stateSet
	stopped    atomic.Bool
	truncated  atomic.Bool
	incomplete atomic.Bool // some case was cut short, see Rec.Cut

	mu         sync.Mutex
	violations []violation
	known      map[string]bool // known signatures observed
	knownList  []knownFinding
	samples    []interface{}
	nSamples   map[string]int
	suiteIdx   map[string]Suite
}

func (rc *runCtx) sample(suite string, c interface{}) {
	rc.mu.Lock()
	defer rc.mu.Unlock()
	if rc.nSamples[suite] >= 3 {
		return
	}
	rc.nSamples[suite]++
	rc.samples = append(rc.samples, map[string]interface{}{"suite": suite, "case": sampleOf(c)})
}

func sampleOf(c interface{}) interface{} {
	if s, ok := c.(fmt.Stringer); ok {
		return s.String()
	}
	if b, ok := c.([]byte); ok {
		return fmt.Sprintf("%q", b)
	}
	return c
}

// maxViolations ends a run early; MC_MAXV overrides it for surveys.
var maxViolations = func() int {
	if n, err := strconv.Atoi(os.Getenv("MC_MAXV")); err == nil {
		return n
	}
	return 12
}()

func (rc *runCtx) fail(r *Rec, sig, msg string) {
	rc.mu.Lock()
	defer rc.mu.Unlock()
	if sig != "" {
		for _, k := range rc.knownList {
			if k.Property == rc.check.ID && k.Sig == sig {
				rc.known[sig] = true
				return
			}
		}
	}
	if len(rc.violations) >= maxViolations {
		rc.stopped.Store(true)
		return
	}
	data, err := json.Marshal(r.curCase)
	if err != nil {
		data, _ = json.Marshal(fmt.Sprintf("%#v", r.curCase))
	}
	rc.violations = append(rc.violations, violation{Suite: r.suite, Seq: r.seq, Case: data, Sig: sig, Msg: msg})
	if len(rc.violations) >= maxViolations {
		rc.stopped.Store(true)
	}
}

// StrCase is a helper for suites over byte strings: it shows as a quoted string
// in samples and as base64 in replay files.
type StrCase []byte

func (s StrCase) String() string { return fmt.Sprintf("%q", []byte(s)) }

func numWorkers() int {
	n := runtime.NumCPU()
	if n < 1 {
		n = 1
	}
	return n
}

func slotsOf(mem []byte, n int) []*journalSlot {
	ret := make([]*journalSlot, n)
	for i := range ret {
		ret[i] = (*journalSlot)(unsafe.Pointer(&mem[i*int(unsafe.Sizeof(journalSlot{}))]))
	}
	return ret
}

func fatalf(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(2)
}
