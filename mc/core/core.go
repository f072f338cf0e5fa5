// Package core is the exploration framework: it runs a bounded, exhaustively
// enumerated space of cases against the real implementation in a supervised
// child process, counts what was covered and reports violations.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop is one registered check.
type Prop struct {
	ID    string
	Level string // model_checking | exploration | fault_enumeration
	Rule  string // how cases are made and what makes one non-trivial
	Run   func(c *Ctx)
	// Assumptions are copied to the evidence file.
	Assumptions []string
}

// Registry maps property id to check.
var Registry = map[string]*Prop{}

// Register adds a check.
func Register(p *Prop) { Registry[p.ID] = p }

// Failure is one observed violation.
type Failure struct {
	Key    string            `json:"key"`
	Case   string            `json:"case"`
	Clause string            `json:"clause"`
	Detail string            `json:"detail"`
	Files  map[string][]byte `json:"files,omitempty"`
}

const shards = 64

type set struct {
	mu [shards]sync.Mutex
	m  [shards]map[uint64]struct{}
}

func (s *set) add(h uint64) bool {
	i := h % shards
	s.mu[i].Lock()
	defer s.mu[i].Unlock()
	if s.m[i] == nil {
		s.m[i] = map[uint64]struct{}{}
	}
	if _, ok := s.m[i][h]; ok {
		return false
	}
	s.m[i][h] = struct{}{}
	return true
}
func (s *set) size() int {
	n := 0
	for i := range s.m {
		n += len(s.m[i])
	}
	return n
}

// Ctx is shared by all workers of one run.
type Ctx struct {
	Prop     *Prop
	Tier     string
	Only     string
	Deadline time.Time

	states, outcomes set
	trans, cases     int64
	validated        int64
	capped           int32
	mu               sync.Mutex
	fails            []Failure
	failKeys         map[string]bool
	samples          []string
	sections         map[string]int64
	notes            []string
	journal          *os.File
	workers          []workerState
	stop             int32
	knownKeys        map[string]bool
	unknown          int64
}

type workerState struct {
	mu    sync.Mutex
	name  string
	start time.Time
}

// Thorough tells which tier runs.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Thorough() {
		return t
	}
	return q
}

// T is one running case.
type T struct {
	C      *Ctx
	Name   string
	files  map[string][]byte
	failed bool
	mu     sync.Mutex
}

// Hash64 hashes a string.
func Hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// State records a visited (model) state; it reports whether it is new.
func (t *T) State(s string) bool { return t.C.states.add(Hash64(s)) }

// Step counts transitions: calls into the implementation whose result was judged.
func (t *T) Step(n int) { atomic.AddInt64(&t.C.trans, int64(n)) }

// Outcome records an observed outcome class (non-vacuity measure).
func (t *T) Outcome(s string) { t.C.outcomes.add(Hash64(s)) }

// Attach keeps bytes for the replay file should the case fail.
func (t *T) Attach(name string, b []byte) {
	if t.files == nil {
		t.files = map[string][]byte{}
	}
	t.files[name] = append([]byte(nil), b...)
}

// Failed tells whether this case already failed.
func (t *T) Failed() bool { return t.failed }

// Fail reports a violation. clause is a short stable tag; together with the case
// name it identifies the violation for the known-findings file.
func (t *T) Fail(clause, format string, a ...interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.failed = true
	t.C.addFailure(Failure{
		Key: t.Name + "#" + clause, Case: t.Name, Clause: clause,
		Detail: clip(fmt.Sprintf(format, a...), 3000), Files: t.files,
	})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (c *Ctx) addFailure(f Failure) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.failKeys[f.Key] {
		return
	}
	c.failKeys[f.Key] = true
	if !c.knownKeys[f.Key] {
		c.unknown++
		if c.unknown > 40 {
			atomic.StoreInt32(&c.stop, 1)
			return
		}
	}
	c.fails = append(c.fails, f)
}

// Note adds a line to the evidence.
func (c *Ctx) Note(format string, a ...interface{}) {
	c.mu.Lock()
	c.notes = append(c.notes, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

// Expired tells whether the deadline passed; the run is then no longer exhaustive.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.Deadline) {
		atomic.StoreInt32(&c.capped, 1)
		return true
	}
	return false
}

// Workers is the parallelism.
func Workers() int {
	if os.Getenv("VERIFMC_SERIAL") != "" {
		return 1
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	return n
}

// ForEach runs f for every i in [0,n) on all workers. name must identify the case.
func (c *Ctx) ForEach(section string, n int, name func(i int) string, f func(t *T, i int)) {
	c.forEach(section, n, name, f, Workers())
}

// ForEachSerial is ForEach on one worker.
func (c *Ctx) ForEachSerial(section string, n int, name func(i int) string, f func(t *T, i int)) {
	c.forEach(section, n, name, f, 1)
}

func (c *Ctx) forEach(section string, n int, name func(i int) string, f func(t *T, i int), nw int) {
	if c.Only != "" && !strings.HasPrefix(c.Only, section+"/") {
		return
	}
	if os.Getenv("MC_TIMES") != "" {
		t0 := time.Now()
		defer func() {
			f, _ := os.OpenFile(os.Getenv("MC_TIMES"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
			defer f.Close()
			fmt.Fprintf(f, "section %s: %d cases %.1fs\n", section, n, time.Since(t0).Seconds())
		}()
	}
	var next int64 = -1
	var ran int64
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if atomic.LoadInt32(&c.stop) != 0 {
					atomic.StoreInt32(&c.capped, 1)
					return
				}
				if i&15 == 0 && c.Expired() {
					return
				}
				nm := section + "/" + name(i)
				if c.Only != "" && c.Only != nm && c.Only != section+"/*" {
					continue
				}
				c.runCase(w, nm, i, f)
				atomic.AddInt64(&ran, 1)
			}
		}(w)
	}
	wg.Wait()
	c.mu.Lock()
	c.sections[section] += ran
	c.mu.Unlock()
}

func (c *Ctx) runCase(w int, nm string, i int, f func(t *T, i int)) {
	t := &T{C: c, Name: nm}
	c.journalStart(w, nm)
	defer c.journalEnd(w)
	atomic.AddInt64(&c.cases, 1)
	func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				t.Fail("panic", "panic: %v\n%s", r, clip(st, 2500))
			}
		}()
		f(t, i)
	}()
	if !t.failed {
		atomic.AddInt64(&c.validated, 1)
	}
	c.mu.Lock()
	// keep a deterministic spread of samples: first per section plus by hash
	if len(c.samples) < 12 && (Hash64(nm)%97 == 0 || len(c.samples) < 2) {
		c.samples = append(c.samples, nm)
	}
	c.mu.Unlock()
}

const slot = 1024

func (c *Ctx) journalStart(w int, nm string) {
	ws := &c.workers[w]
	ws.mu.Lock()
	ws.name, ws.start = nm, time.Now()
	ws.mu.Unlock()
	if c.journal != nil {
		b := make([]byte, slot)
		copy(b, clip(nm, slot-8))
		c.journal.WriteAt(b, int64(w*slot))
	}
}

func (c *Ctx) journalEnd(w int) {
	ws := &c.workers[w]
	ws.mu.Lock()
	ws.name = ""
	ws.mu.Unlock()
	if c.journal != nil {
		c.journal.WriteAt([]byte{0}, int64(w*slot))
	}
}

// Result is what the child hands to the parent.
type Result struct {
	States, Transitions, Cases, Validated, Outcomes int64
	Capped                                          bool
	Fails                                           []Failure
	Samples                                         []string
	Sections                                        map[string]int64
	Notes                                           []string
}

func newCtx(p *Prop, tier, only string, deadline time.Time, known map[string]bool) *Ctx {
	return &Ctx{Prop: p, Tier: tier, Only: only, Deadline: deadline,
		failKeys: map[string]bool{}, sections: map[string]int64{},
		workers: make([]workerState, 64), knownKeys: known}
}

func (c *Ctx) result() Result {
	sort.Slice(c.fails, func(i, j int) bool { return c.fails[i].Key < c.fails[j].Key })
	sort.Strings(c.samples)
	return Result{int64(c.states.size()), c.trans, c.cases, c.validated, int64(c.outcomes.size()),
		c.capped != 0, c.fails, c.samples, c.sections, c.notes}
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// NewBareT is a case outside any run (for benchmarks).
func NewBareT() *T {
	return &T{C: newCtx(&Prop{}, "quick", "", time.Time{}, nil)}
}
