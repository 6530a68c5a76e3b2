// Package run is what every check shares: seeding, parallel jobs, counting, violations,
// evidence.
package run

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type R struct {
	ID, Tier string
	Seed     int64
	Dir      string // scratch, removed at the end
	Home     string // /verif

	mu           sync.Mutex
	start        time.Time
	evals        int
	nontrivial   map[uint64]struct{}
	counts       map[string]int
	maxima       map[string]int
	samples      []interface{}
	first        string
	Rule         string
	Assume       []string
	done, busy   atomic.Int64 // jobs
	violations   []string
	inconclusive []string
}

const maxViolations = 3

// Start parses the common flags.
func Start(id string) *R {
	r := &R{ID: id, start: time.Now(), nontrivial: map[uint64]struct{}{}, counts: map[string]int{}, maxima: map[string]int{}}
	seed := flag.Int64("seed", 1, "")
	flag.StringVar(&r.Tier, "tier", "quick", "")
	flag.StringVar(&r.Dir, "dir", "", "scratch directory")
	flag.StringVar(&r.Home, "home", "/verif", "")
	if id == "" {
		flag.StringVar(&r.ID, "id", "", "")
	}
	flag.Parse()
	r.Seed = *seed
	if r.Dir == "" {
		d, err := os.MkdirTemp("", "verif")
		if err != nil {
			panic(err)
		}
		r.Dir = d
	}
	go r.watch()
	return r
}

// watch ends a quick check that would give no answer in time: with the violations found so
// far, for a job of a library check that does not end or takes all memory, or without answer.
func (r *R) watch() {
	library := r.ID >= "C22"
	last, idle := int64(-1), 0
	mem := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for t := 0; ; t++ { // seconds this process saw, not those of the clock
		time.Sleep(time.Second)
		if n := r.done.Load(); n != last {
			last, idle = n, 0
		} else {
			idle++
		}
		metrics.Read(mem)
		switch {
		case library && r.busy.Load() > 0 && idle > 240:
			r.Violate("a job does not end", map[string]interface{}{"jobs done": last, "goroutines": stacks()})
			r.Finish()
		case library && mem[0].Value.Uint64() > 14<<30:
			r.Violate("a job takes more and more memory", map[string]interface{}{"jobs done": last, "goroutines": stacks()})
			r.Finish()
		case r.Tier == "quick" && t > 780:
			r.Inconclusive("out of time")
			r.Finish()
		}
	}
}

func stacks() string {
	b := make([]byte, 1<<16)
	return string(b[:runtime.Stack(b, true)])
}

// N picks the amount of work for the tier.
func (r *R) N(quick, thorough int) int {
	if r.Tier == "thorough" {
		return thorough
	}
	return quick
}

func (r *R) Rnd(j int) *rand.Rand {
	return rand.New(rand.NewSource(r.Seed*1_000_003 + int64(j)*7919 + 17))
}

// Parallel runs n jobs on 8 workers and stops handing out jobs after enough violations.
func (r *R) Parallel(n int, f func(j int, rnd *rand.Rand)) { r.ParallelW(8, n, f) }

func (r *R) ParallelW(workers, n int, f func(j int, rnd *rand.Rand)) {
	var wg sync.WaitGroup
	jobs := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if r.Enough() {
					continue
				}
				func() {
					r.busy.Add(1)
					defer r.done.Add(1)
					defer r.busy.Add(-1)
					defer func() {
						if e := recover(); e != nil {
							r.Violate(fmt.Sprintf("panic in job %d: %v", j, e), map[string]interface{}{"job": j, "stack": string(debug.Stack())})
						}
					}()
					f(j, r.Rnd(j))
				}()
			}
		}()
	}
	for j := 0; j < n; j++ {
		jobs <- j
	}
	close(jobs)
	wg.Wait()
}

func (r *R) Enough() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violations) >= maxViolations
}

func Hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (r *R) Eval(n int) { r.mu.Lock(); r.evals += n; r.mu.Unlock() }
func (r *R) Count(k string, n int) {
	if n == 0 {
		return
	}
	r.mu.Lock()
	r.counts[k] += n
	r.mu.Unlock()
}
func (r *R) Max(k string, n int) {
	r.mu.Lock()
	if n > r.maxima[k] {
		r.maxima[k] = n
	}
	r.mu.Unlock()
}

// Nontrivial records a case that really exercised the property, identified by its text.
func (r *R) Nontrivial(text string) {
	h := Hash(text)
	r.mu.Lock()
	if len(r.nontrivial) == 0 {
		r.first = text
		if len(text) > 2000 {
			r.first = text[:2000] + "..."
		}
	}
	r.nontrivial[h] = struct{}{}
	r.mu.Unlock()
}

func (r *R) Sample(s interface{}) {
	r.mu.Lock()
	if len(r.samples) < 4 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

func (r *R) Inconclusive(msg string) {
	r.mu.Lock()
	r.inconclusive = append(r.inconclusive, msg)
	r.mu.Unlock()
}

// Violate reports a violation; replay is stored as JSON.
func (r *R) Violate(msg string, replay map[string]interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.violations) >= maxViolations {
		return
	}
	r.violations = append(r.violations, msg)
	dir := filepath.Join(r.Home, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.ID, len(r.violations)))
	if replay == nil {
		replay = map[string]interface{}{}
	}
	replay["property"], replay["message"], replay["seed"], replay["tier"] = r.ID, msg, r.Seed, r.Tier
	b, _ := json.MarshalIndent(replay, "", " ")
	os.WriteFile(path, b, 0o644)
	m := msg
	if len(m) > 1500 {
		m = m[:1500] + "..."
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", r.ID, path, strings.ReplaceAll(m, "\n", "\n  "))
}

// Finish writes the evidence and ends the process.
func (r *R) Finish() {
	r.mu.Lock() // for good
	keys := []string{}
	for k := range r.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	cov := map[string]interface{}{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.nontrivial),
		"rule":                r.Rule,
		"samples":             r.samples,
	}
	if r.samples == nil {
		cov["samples"] = []string{r.first}
	}
	obs := map[string]int{}
	for k, v := range r.counts {
		obs[k] = v
	}
	for k, v := range r.maxima {
		obs["max "+k] = v
	}
	cov["observed"] = obs
	if len(r.inconclusive) > 0 {
		cov["inconclusive"] = len(r.inconclusive)
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(),
		"assumptions": r.Assume, "violations": len(r.violations),
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.Home, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(r.Home, "evidence", r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		os.Exit(2)
	}
	os.RemoveAll(r.Dir)
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1fs\n", r.ID, r.Tier, r.Seed, r.evals, len(r.nontrivial), len(r.violations), time.Since(r.start).Seconds())
	for _, k := range keys {
		fmt.Printf("  %-40s %d\n", k, r.counts[k])
	}
	switch {
	case len(r.violations) > 0:
		os.Exit(1)
	case len(r.inconclusive) > 0:
		fmt.Println("inconclusive:", r.inconclusive[0])
		os.Exit(2)
	case len(r.nontrivial) == 0:
		fmt.Println("the workload never exercised the property")
		os.Exit(2)
	}
	os.Exit(0)
}
