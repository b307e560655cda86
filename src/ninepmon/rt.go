package main

// The runtime of a check: seeded randomness, counting of what was observed, the
// stall oracle, reporting.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"
)

// R is one run of a check, in the unprivileged child.
type R struct {
	id       string // the property reported
	tier     string
	seed     int64
	dir      string // scratch directory, ours alone
	rng      *rand.Rand
	thorough bool

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counts   map[string]int64
	samples  []string
	keys     []string // of the first cases, for want of better samples
	rule     string
	assume   []string
	trace    []string
	failed   bool
	min      map[string]int64
}

type result struct {
	Evaluations int64            `json:"evaluations"`
	Distinct    int64            `json:"distinct"`
	Rule        string           `json:"rule"`
	Samples     []string         `json:"samples"`
	Counts      map[string]int64 `json:"counts"`
	Assume      []string         `json:"assume"`
	Starved     []string         `json:"starved"`
}

type violation struct {
	What  string   `json:"what"`
	Trace []string `json:"trace"`
}

func newR(id, tier string, seed int64, dir string) *R {
	h := fnv.New64a()
	h.Write([]byte(id))
	return &R{id: id, tier: tier, seed: seed, dir: dir, thorough: tier == "thorough",
		rng:      rand.New(rand.NewSource(seed ^ int64(h.Sum64()>>1))),
		distinct: map[uint64]struct{}{}, counts: map[string]int64{}, min: map[string]int64{}}
}

// scale picks the amount of work of the tier.
func (r *R) scale(quick, thorough int) int {
	if r.thorough {
		return thorough
	}
	return quick
}

// sub returns an independent, reproducible source.
func (r *R) sub(salt string, n int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %s %s %d", r.seed, r.id, salt, n)
	return rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
}

// eval records a judged case; key says which one it was, or is empty if the
// case was trivial.
func (r *R) eval(key string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		r.distinct[h.Sum64()] = struct{}{}
		if len(r.keys) < 4 {
			r.keys = append(r.keys, fmt.Sprintf("%.300q", key))
		}
	}
}

func (r *R) count(what string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.counts[what] += int64(n)
}

// need makes the run fail (as an error of the check) unless that many events
// were observed: a monitor that saw nothing decides nothing.
func (r *R) need(what string, n int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.min[what] = n
}

func (r *R) sample(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 12 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.samples = append(r.samples, s)
	}
}

// tracef remembers a line for the report of a violation.
func (r *R) tracef(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.trace) > 4000 {
		r.trace = append([]string{"..."}, r.trace[len(r.trace)-2000:]...)
	}
	r.trace = append(r.trace, s)
}

// fail reports a violation of the property and ends the run.
func (r *R) fail(format string, a ...any) {
	r.mu.Lock()
	if r.failed {
		r.mu.Unlock()
		select {}
	}
	r.failed = true
	v := violation{What: fmt.Sprintf(format, a...), Trace: r.trace}
	if len(v.Trace) > 400 {
		v.Trace = v.Trace[len(v.Trace)-400:]
	}
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(filepath.Join(r.dir, "..", "res", "violation.json"), b, 0644)
	os.Exit(10)
}

// broken ends the run as an error of the check itself.
func (r *R) broken(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS: "+format+"\n", a...)
	os.Exit(12)
}

func (r *R) must(err error) {
	if err != nil {
		_, f, l, _ := runtime.Caller(1)
		r.broken("%s:%d: %v", filepath.Base(f), l, err)
	}
}

func (r *R) finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) == 0 {
		r.samples = r.keys
	}
	res := result{Evaluations: r.evals, Distinct: int64(len(r.distinct)), Rule: r.rule, Samples: r.samples, Counts: r.counts, Assume: r.assume}
	for k, n := range r.min {
		if r.counts[k] < n {
			res.Starved = append(res.Starved, fmt.Sprintf("%s: %d observed, want at least %d", k, r.counts[k], n))
		}
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(filepath.Join(r.dir, "..", "res", "result.json"), b, 0644); err != nil {
		r.broken("%v", err)
	}
}

func stacks() string {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	if len(b) > 12000 {
		b = b[:12000]
	}
	return string(b)
}

// stallTicks is how long something that has to happen may take: ticks of 100 ms
// that this process really got to see, so a paused machine does not count.
const stallTicks = 400

// await waits for something that has to happen. If it does not, that is a
// violation.
func await[T any](r *R, ch <-chan T, what string, a ...any) T {
	select {
	case v := <-ch:
		return v
	default:
	}
	v, ok := awaitOK(ch, stallTicks)
	if !ok {
		r.tracef("%s", stacks())
		r.fail("stalled: waited %d s for "+what, append([]any{stallTicks / 10}, a...)...)
	}
	return v
}

func awaitOK[T any](ch <-chan T, ticks int) (v T, ok bool) {
	if virtual {
		select {
		case v = <-ch:
			return v, true
		case <-time.After(time.Duration(ticks) * 100 * time.Millisecond):
			return v, false
		}
	}
	t := time.NewTicker(100 * time.Millisecond)
	defer t.Stop()
	for i := 0; i < ticks; i++ {
		select {
		case v = <-ch:
			return v, true
		case <-t.C:
		}
	}
	select {
	case v = <-ch:
		return v, true
	default:
	}
	return v, false
}

// eventually waits for cond to become true.
func eventually(r *R, cond func() bool, what string, a ...any) {
	for i := 0; i < 50; i++ {
		if cond() {
			return
		}
		time.Sleep(time.Millisecond)
	}
	for i := 0; i < stallTicks*5; i++ {
		if cond() {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	r.tracef("%s", stacks())
	r.fail(what, a...)
}

// guard turns a panic of the code under test, called on this goroutine, into a
// violation.
func (r *R) guard(what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			b := make([]byte, 8192)
			b = b[:runtime.Stack(b, false)]
			if !strings.Contains(string(b), "Harvey-OS/ninep/") {
				r.broken("panic in the harness: %v\n%s", e, b)
			}
			r.tracef("%s", b)
			r.fail("panic: %v in %s", e, what)
		}
	}()
	f()
}
