// Package kit is the runtime shared by all checks: bookkeeping of what was
// explored, violation reporting (with re-execution before a report is
// believed), known findings, deadlines, a hang watchdog and parallel workers.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Check struct {
	ID    string
	Level string
	Rule  string
	Run   func(c *Ctx)
	Quick int // seconds of the quick tier, 0: 40
	// Assumptions are copied to the evidence file.
	Assumptions []string
}

var registry = map[string]*Check{}

func Register(c *Check) { registry[c.ID] = c }

type Known struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

type violation struct {
	Sig, Msg, Detail string
}

// Ctx is the state of one run of one check.
type Ctx struct {
	ID       string
	Tier     string
	Seed     int
	start    time.Time
	deadline time.Time

	states, transitions, evals, traces int64
	execs                              int64
	outcomes                           sync.Map // distinct observed outcomes
	nOutcomes                          int64

	mu      sync.Mutex
	samples []any
	viols   []violation
	known   map[string]string
	hit     map[string]bool
	extra   map[string]any
	capped  []string
	parts   []string
	stopped int32

	progress int64
	current  sync.Map // worker -> description
	Scratch  string
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Stop reports whether exploration should end: out of time or violation found.
func (c *Ctx) Stop() bool {
	return atomic.LoadInt32(&c.stopped) != 0 || c.TimeUp()
}

func (c *Ctx) TimeUp() bool { return time.Now().After(c.deadline) }

func (c *Ctx) AddStates(n int)      { atomic.AddInt64(&c.states, int64(n)) }
func (c *Ctx) AddTransitions(n int) { atomic.AddInt64(&c.transitions, int64(n)); c.Tick() }
func (c *Ctx) AddTraces(n int)      { atomic.AddInt64(&c.traces, int64(n)) }
func (c *Ctx) AddEvals(n int)       { atomic.AddInt64(&c.evals, int64(n)); c.Tick() }
func (c *Ctx) Tick()                { atomic.AddInt64(&c.progress, 1) }

// Outcome records a distinct observed outcome (any string).
func (c *Ctx) Outcome(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	if _, dup := c.outcomes.LoadOrStore(h.Sum64(), struct{}{}); !dup {
		atomic.AddInt64(&c.nOutcomes, 1)
	}
}

func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *Ctx) Extra(k string, v any) {
	c.mu.Lock()
	c.extra[k] = v
	c.mu.Unlock()
}

// Capped notes that a part was not explored completely.
func (c *Ctx) Capped(part string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, p := range c.capped {
		if p == part {
			return
		}
	}
	c.capped = append(c.capped, part)
}

// Part runs one section of a check and records whether it was completed.
func (c *Ctx) Part(name string, f func()) {
	if c.Stop() {
		if atomic.LoadInt32(&c.stopped) == 0 {
			c.Capped(name)
		}
		return
	}
	if only := os.Getenv("VMC_PART"); only != "" && !strings.Contains(name, only) {
		return
	}
	t0 := time.Now()
	e0, t00, s0 := atomic.LoadInt64(&c.evals), atomic.LoadInt64(&c.transitions), atomic.LoadInt64(&c.states)
	f()
	if c.TimeUp() {
		c.Capped(name)
	}
	c.mu.Lock()
	c.parts = append(c.parts, fmt.Sprintf("%s: %d states, %d transitions, %d evaluations, %.1fs", name,
		atomic.LoadInt64(&c.states)-s0, atomic.LoadInt64(&c.transitions)-t00, atomic.LoadInt64(&c.evals)-e0, time.Since(t0).Seconds()))
	c.mu.Unlock()
}

// Violate records a violation. sig identifies the specific failing input, call
// site or history; it is matched against the committed known findings.
func (c *Ctx) Violate(sig, msg string, detail any) {
	d, err := json.MarshalIndent(detail, "", " ")
	if err != nil {
		d = []byte(fmt.Sprintf("%+v", detail))
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.known[sig]; ok {
		c.hit[sig] = true
		return
	}
	if len(c.viols) < 20 {
		c.viols = append(c.viols, violation{sig, msg, string(d)})
	}
	if os.Getenv("VMC_ALL") == "" {
		atomic.StoreInt32(&c.stopped, 1)
	}
}

// IsKnown tells whether a signature is a listed finding (and notes it was seen).
func (c *Ctx) Violated() bool { return atomic.LoadInt32(&c.stopped) != 0 }

// Catch runs f and turns a panic into an error.
func Catch(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return f()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

// Exec runs one deterministic case; f must be repeatable from scratch. A
// failure is reported only if it happens again on three re-executions.
func (c *Ctx) Exec(sig string, detail func() any, f func() error) bool {
	err := Catch(f)
	c.Tick()
	if err == nil {
		return true
	}
	for i := 0; i < 3; i++ {
		err2 := Catch(f)
		if err2 == nil {
			c.Extra("unconfirmed_"+sig, err.Error())
			return true
		}
	}
	var d any
	if detail != nil {
		d = detail()
	}
	c.Violate(sig, err.Error(), map[string]any{"case": d, "error": err.Error()})
	return false
}

// Parallel runs f(worker, i) for i in [0,n) on all cores until Stop.
func (c *Ctx) Parallel(n int, f func(w, i int)) {
	c.ParallelN(runtime.NumCPU(), n, f)
}

func (c *Ctx) ParallelN(workers, n int, f func(w, i int)) {
	if workers > n {
		workers = n
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for !c.Stop() {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(w, i)
				c.Tick()
			}
		}(w)
	}
	wg.Wait()
}

// Describe notes what a worker is doing, for hang reports.
func (c *Ctx) Describe(w int, s string) { c.current.Store(w, s) }

func (c *Ctx) watchdog(limit time.Duration) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(time.Second)
		p := atomic.LoadInt64(&c.progress)
		if p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) > limit {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			var cur []string
			c.current.Range(func(k, v any) bool { cur = append(cur, fmt.Sprintf("%v: %v", k, v)); return true })
			sort.Strings(cur)
			c.Violate("hang", fmt.Sprintf("no progress for %v (deadlock or endless loop)", limit),
				map[string]any{"current": cur, "stacks": string(buf[:n])})
			c.finish(registry[c.ID])
		}
	}
}

func Main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: bin ID tier")
		os.Exit(3)
	}
	id, tier := os.Args[1], os.Args[2]
	ck := registry[id]
	if ck == nil {
		fmt.Println("unknown check", id)
		os.Exit(3)
	}
	debug.SetGCPercent(200)
	budget := 40 * time.Second
	if ck.Quick > 0 {
		budget = time.Duration(ck.Quick) * time.Second
	}
	if tier == "thorough" {
		budget = 600 * time.Second
	}
	if s := os.Getenv("VMC_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Ctx{ID: id, Tier: tier, Seed: seed, start: time.Now(), deadline: time.Now().Add(budget),
		known: map[string]string{}, hit: map[string]bool{}, extra: map[string]any{}}
	c.Scratch = os.Getenv("VMC_SCRATCH")
	if c.Scratch == "" {
		c.Scratch, _ = os.MkdirTemp("", "vmc")
	}
	if b, err := os.ReadFile(os.Getenv("VMC_KNOWN")); err == nil {
		var k struct {
			Findings []Known `json:"findings"`
		}
		if json.Unmarshal(b, &k) == nil {
			for _, f := range k.Findings {
				if f.Property == id {
					c.known[f.Sig] = f.What
				}
			}
		}
	}
	go c.watchdog(120 * time.Second)
	ck.Run(c)
	c.finish(ck)
}

var finishOnce sync.Once

func (c *Ctx) finish(ck *Check) {
	finishOnce.Do(func() { c.doFinish(ck) })
	select {}
}

func (c *Ctx) doFinish(ck *Check) {
	stopProfile()
	c.mu.Lock()
	defer c.mu.Unlock()
	cov := map[string]any{}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "none recorded")
	}
	cov["samples"] = c.samples
	cov["parts"] = c.parts
	cov["distinct_outcomes"] = atomic.LoadInt64(&c.nOutcomes)
	cov["exhaustive"] = len(c.capped) == 0 && len(c.viols) == 0
	if len(c.capped) > 0 {
		cov["capped"] = c.capped
	}
	switch ck.Level {
	case "model_checking":
		cov["states"] = atomic.LoadInt64(&c.states)
		cov["transitions"] = atomic.LoadInt64(&c.transitions)
		cov["traces_validated_against_impl"] = atomic.LoadInt64(&c.traces)
		if e := atomic.LoadInt64(&c.evals); e > 0 {
			cov["evaluations"] = e
		}
		if ck.Rule != "" {
			cov["rule"] = ck.Rule
		}
	default:
		cov["evaluations"] = atomic.LoadInt64(&c.evals)
		cov["distinct_nontrivial"] = atomic.LoadInt64(&c.nOutcomes)
		cov["rule"] = ck.Rule
	}
	var kh []string
	for s := range c.hit {
		kh = append(kh, s)
	}
	sort.Strings(kh)
	cov["known_findings_seen"] = kh
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": ck.Level,
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viols),
	}
	if len(ck.Assumptions) > 0 {
		ev["assumptions"] = ck.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if p := os.Getenv("VMC_EVIDENCE"); p != "" {
		_ = os.MkdirAll(filepath.Dir(p), 0755)
		_ = os.WriteFile(p, b, 0644)
	} else {
		fmt.Println(string(b))
	}
	for _, s := range kh {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, c.known[s])
	}
	if len(c.viols) > 0 {
		dir := os.Getenv("VMC_REPLAYS")
		if dir == "" {
			dir = os.TempDir()
		}
		_ = os.MkdirAll(dir, 0755)
		for i, v := range c.viols {
			h := fnv.New32a()
			h.Write([]byte(v.Sig + v.Msg))
			p := filepath.Join(dir, fmt.Sprintf("%s-%08x.txt", c.ID, h.Sum32()))
			_ = os.WriteFile(p, []byte("signature: "+v.Sig+"\n"+v.Msg+"\n\n"+v.Detail+"\n"), 0644)
			msg := v.Msg
			if len(msg) > 1200 {
				msg = msg[:1200]
			}
			fmt.Printf("  [%s] %s\n", v.Sig, msg)
			if i == 0 || os.Getenv("VMC_ALL") != "" {
				fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
			}
		}
		os.Exit(1)
	}
	for _, p := range c.parts {
		fmt.Println("  " + p)
	}
	fmt.Printf("OK property=%s states=%d transitions=%d evaluations=%d outcomes=%d wall=%.1fs capped=%v\n", c.ID,
		c.states, c.transitions, c.evals, c.nOutcomes, time.Since(c.start).Seconds(), c.capped)
	os.Exit(0)
}

func init() {
	if p := os.Getenv("VMC_PROFILE"); p != "" {
		startProfile(p)
	}
}
