// core.go - case runner, verdicts and evidence of the monitors
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one refutation of the property under check.
type Violation struct {
	Property string         `json:"property"`
	Group    string         `json:"group"`
	Case     int            `json:"case"`
	Seed     int64          `json:"seed"`
	Tier     string         `json:"tier"`
	What     string         `json:"what"`
	Detail   map[string]any `json:"detail,omitempty"`
	Stack    string         `json:"stack,omitempty"`
}

// Result is what a worker process hands to its supervisor.
type Result struct {
	Evaluations int64            `json:"evaluations"`
	Distinct    int              `json:"distinct"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []any            `json:"samples"`
	Violations  []Violation      `json:"violations"`
	HarnessErr  string           `json:"harness_err"`
	Inconcl     []string         `json:"inconclusive"`
}

// Ctx is the state of one run of one property.
type Ctx struct {
	ID, Tier string
	Seed     int64
	Bin      string // sigtool binary built from the current tree
	Scratch  string // private scratch directory
	Only     string // "group:case" to replay
	Verif    string // framework directory

	mu       sync.Mutex
	evals    atomic.Int64
	distinct map[uint64]struct{}
	counters map[string]int64
	samples  []any
	viol     []Violation
	herr     string
	inconcl  []string
	perGroup map[string]int
	journal  *os.File

	stuckTraces atomic.Int64
}

func newCtx() *Ctx {
	return &Ctx{distinct: map[uint64]struct{}{}, counters: map[string]int64{}, perGroup: map[string]int{}}
}

func (c *Ctx) thorough() bool { return c.Tier == "thorough" }

// more says how far the random groups of the quick tier are enlarged, so that
// every check makes use of about the same time.
var more = map[string]int{"C02": 2, "C05": 4, "C06": 3, "C07": 3, "C09": 3, "C11": 3, "C12": 4, "C13": 3, "C14": 2, "C15": 4, "C18": 2, "C19": 3, "C20": 2, "C24": 4, "C26": 4, "C27": 4, "C28": 3}

// n picks the number of cases for the tier.
func (c *Ctx) n(quick, thorough int) int {
	if c.thorough() {
		return thorough
	}
	if quick >= 10 && more[c.ID] > 1 && thorough > quick {
		return min(quick*more[c.ID], thorough)
	}
	return quick
}

// T is one case.
type T struct {
	c     *Ctx
	R     *rand.Rand
	group string
	idx   int
	info  map[string]any
	dir   string
	start time.Time
	slot  int
	beats int
}

// alive tells the supervisor that a case meant to take long makes progress.
func (t *T) alive() {
	if t.c.journal == nil {
		return
	}
	t.beats++
	b := make([]byte, journalSlot)
	copy(b, fmt.Sprintf("%s:%d #%d", t.group, t.idx, t.beats))
	t.c.journal.WriteAt(b, int64(t.slot*journalSlot))
}

type caseAbort struct{}
type livelock struct{ what string }

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Set records a fact about the case that goes into the replay file.
func (t *T) Set(k string, v any) { t.info[k] = v }

// Seen counts a distinct, non-trivial situation that the monitor observed.
func (t *T) Seen(f string, a ...any) {
	k := hash64(t.group + "/" + fmt.Sprintf(f, a...))
	t.c.mu.Lock()
	t.c.distinct[k] = struct{}{}
	t.c.mu.Unlock()
}

// Count counts observed events.
func (t *T) Count(k string, n int) {
	t.c.mu.Lock()
	t.c.counters[k] += int64(n)
	t.c.mu.Unlock()
}

// Failf records a violation and ends the case.
func (t *T) Failf(f string, a ...any) {
	t.record(fmt.Sprintf(f, a...), "")
	panic(caseAbort{})
}

func (t *T) record(what, stack string) {
	t.c.mu.Lock()
	defer t.c.mu.Unlock()
	if len(t.c.viol) >= 20 {
		return
	}
	d := map[string]any{}
	for k, v := range t.info {
		d[k] = v
	}
	t.c.viol = append(t.c.viol, Violation{Property: t.c.ID, Group: t.group, Case: t.idx, Seed: t.c.Seed,
		Tier: t.c.Tier, What: what, Detail: d, Stack: stack})
}

// harness failure: not a verdict about the code under test
type harnessError struct{ msg string }

func herr(f string, a ...any) { panic(harnessError{fmt.Sprintf(f, a...)}) }

func must(err error) {
	if err != nil {
		herr("harness: %v\n%s", err, debug.Stack())
	}
}

// Inconclusive records that a case could not be decided.
func (t *T) Inconclusive(f string, a ...any) {
	t.c.mu.Lock()
	t.c.inconcl = append(t.c.inconcl, fmt.Sprintf("%s:%d: ", t.group, t.idx)+fmt.Sprintf(f, a...))
	t.c.mu.Unlock()
	panic(caseAbort{})
}

// Sample keeps a few cases written out for the evidence file.
func (t *T) Sample(m map[string]any) {
	t.c.mu.Lock()
	defer t.c.mu.Unlock()
	if t.c.perGroup[t.group] < 2 && len(t.c.samples) < 24 {
		t.c.perGroup[t.group]++
		m["group"] = t.group
		m["case"] = t.idx
		t.c.samples = append(t.c.samples, m)
	}
}

// Dir returns a scratch directory of this case, removed after it.
func (t *T) Dir() string {
	if t.dir == "" {
		d, err := os.MkdirTemp(t.c.Scratch, "case")
		must(err)
		t.dir = d
	}
	return t.dir
}

func (t *T) Path(n string) string { return filepath.Join(t.Dir(), n) }

func (c *Ctx) stopped() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol) >= 20 || c.herr != ""
}

const journalSlot = 128

// one case, with panics of the code under test turned into violations
func (c *Ctx) run1(group string, idx, slot int, f func(t *T)) {
	t := &T{c: c, group: group, idx: idx, info: map[string]any{}, start: time.Now(), slot: slot}
	t.R = rand.New(rand.NewSource(int64(hash64(fmt.Sprintf("%d/%s/%s/%d", c.Seed, c.ID, group, idx)))))
	if c.journal != nil {
		b := make([]byte, journalSlot)
		copy(b, fmt.Sprintf("%s:%d", group, idx))
		c.journal.WriteAt(b, int64(slot*journalSlot))
	}
	defer func() {
		if c.journal != nil {
			c.journal.WriteAt(make([]byte, journalSlot), int64(slot*journalSlot))
		}
		if t.dir != "" {
			os.RemoveAll(t.dir)
		}
	}()
	defer func() {
		c.evals.Add(1)
		r := recover()
		if r == nil {
			return
		}
		switch v := r.(type) {
		case caseAbort:
		case livelock:
			t.record("no progress: "+v.what, string(debug.Stack()))
		case harnessError:
			c.mu.Lock()
			c.herr = fmt.Sprintf("%s:%d: %s", group, idx, v.msg)
			c.mu.Unlock()
		default:
			st := string(debug.Stack())
			if sutStack(st) {
				t.record(fmt.Sprintf("panic in the code under test: %v", r), st)
			} else {
				c.mu.Lock()
				c.herr = fmt.Sprintf("%s:%d: panic in harness: %v\n%s", group, idx, r, st)
				c.mu.Unlock()
			}
		}
	}()
	f(t)
}

// does the panicking stack contain frames of the code under test?
func sutStack(st string) bool {
	return strings.Contains(st, "sigtool/sign.") || strings.Contains(st, "sigtool/internal/pb.")
}

// safely calls f and returns the panic value of the code under test, if any
func catch(f func()) (pv any) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case caseAbort, harnessError:
				panic(r)
			}
			pv = r
		}
	}()
	f()
	return nil
}

// Cases runs n cases of a group on all cores.
func (c *Ctx) Cases(group string, n int, f func(t *T)) { c.casesN(group, n, runtime.NumCPU(), f) }

// Serial runs n cases one after another.
func (c *Ctx) Serial(group string, n int, f func(t *T)) { c.casesN(group, n, 1, f) }

func (c *Ctx) casesN(group string, n, par int, f func(t *T)) {
	if c.Only != "" {
		g, i, _ := strings.Cut(c.Only, ":")
		if g != group {
			return
		}
		var idx int
		fmt.Sscan(i, &idx)
		c.run1(group, idx, 0, f)
		return
	}
	var longest atomic.Int64
	if os.Getenv("VERIF_TIMES") != "" {
		t0 := time.Now()
		defer func() {
			fmt.Fprintf(os.Stderr, "%s/%s: %d cases %.2fs, longest %.2fs\n", c.ID, group, n, time.Since(t0).Seconds(), float64(longest.Load())/1e9)
		}()
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func(slot int) {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.stopped() {
					return
				}
				t0 := time.Now()
				c.run1(group, i, slot, f)
				if d := int64(time.Since(t0)); d > longest.Load() {
					longest.Store(d)
				}
			}
		}(w)
	}
	wg.Wait()
}

func (c *Ctx) result() *Result {
	c.mu.Lock()
	defer c.mu.Unlock()
	sort.Slice(c.viol, func(i, j int) bool { return c.viol[i].Group < c.viol[j].Group })
	return &Result{Evaluations: c.evals.Load(), Distinct: len(c.distinct), Counters: c.counters,
		Samples: c.samples, Violations: c.viol, HarnessErr: c.herr, Inconcl: c.inconcl}
}

func writeJSON(fn string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "json:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(fn, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func newRand(seed int64, i int) *rand.Rand { return rand.New(rand.NewSource(seed*1000003 + int64(i))) }
