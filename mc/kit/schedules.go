package kit

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-bond/bond/internal/vmc/shim/sched"
)

// Scenario is a few threads whose schedules are explored.
type Scenario struct {
	Name string
	// Bound limits the preemptions, 0: the bound of the round.
	Bound int
	// New prepares one execution: the threads and what has to hold when all
	// have ended. The string describes the outcome.
	New func() (threads []func(), check func() (string, error))
	// Sig is the signature of a violation, default Name.
	Sig string
	// First is the first round (bound) in which the scenario takes part.
	First int
	// Delays: deviating from the first choice when a thread ends or waits
	// counts as a preemption.
	Delays bool
}

type schedUnit struct {
	Scenario int
	Prefix   []int
	From     int
	Bound    int
	Expand   bool // only the first run, and what else there is to do
	Deadline int64
}

type schedResult struct {
	Runs, Steps int64
	MaxSteps    int64
	Complete    bool
	Diverged    int64
	Outcomes    []string
	Units       [][]int // prefixes left to explore (Expand)
	Err         string
	Log         []string
	Choices     []int
	Unconfirmed string
	Race        string // the detector's report of a data race
}

var scenarios = map[string]func(c *Ctx) []Scenario{}

// RegisterScenarios tells the scenarios of a check; they are built in every
// worker process and must come in the same order.
func RegisterScenarios(id string, f func(c *Ctx) []Scenario) { scenarios[id] = f }

func runScenario(s *Scenario, prefix []int, log bool) (*sched.Run, string, error) {
	threads, check := s.New()
	r := sched.Execute(prefix, log, s.Delays, threads...)
	if r.Err != nil {
		return r, "", r.Err
	}
	var out string
	err := Catch(func() (err error) { out, err = check(); return })
	return r, out, err
}

func (u schedUnit) run(s *Scenario) (res schedResult) {
	outs := map[string]bool{}
	defer func() {
		for o := range outs {
			if len(res.Outcomes) < 2000 {
				res.Outcomes = append(res.Outcomes, o)
			}
		}
	}()
	prefix := u.Prefix
	for {
		before := sched.Races()
		r, out, err := runScenario(s, prefix, false)
		res.Runs++
		if sched.Races() > before {
			if rep := newRaces(); rep != "" {
				res.Race, res.Choices = rep, r.Choices()
				return
			}
		}
		res.Steps += r.Steps
		if r.Steps > res.MaxSteps {
			res.MaxSteps = r.Steps
		}
		if r.Diverged() {
			res.Diverged++
		}
		if err != nil {
			choices := r.Choices()
			for i := 0; i < 3 && err != nil; i++ {
				var e error
				r, _, e = runScenario(s, choices, true)
				if e == nil {
					res.Unconfirmed = err.Error()
				}
				if e == nil || i == 2 {
					err = e
				}
			}
			if err != nil {
				res.Err, res.Log, res.Choices = err.Error(), r.Log, choices
				return
			}
		} else {
			outs[out] = true
		}
		if u.Expand {
			pre := 0
			for i, d := range r.Trace {
				for c := d.Chosen + 1; c < d.N; c++ {
					if d.Free || pre+1 <= u.Bound {
						p := append([]int{}, r.Choices()[:i]...)
						res.Units = append(res.Units, append(p, c))
					}
				}
				if !d.Free && d.Chosen != 0 {
					pre++
				}
			}
			res.Complete = true
			return
		}
		next, ok := r.Next(u.Bound, u.From)
		if !ok {
			res.Complete = true
			return
		}
		if u.Deadline > 0 && time.Now().UnixMilli() > u.Deadline {
			return
		}
		prefix = next
	}
}

// Worker is the main function of a worker process.
func Worker(args []string) {
	id, tier := args[0], args[1]
	c := &Ctx{ID: id, Tier: tier, deadline: time.Now().Add(time.Hour), known: map[string]string{}, hit: map[string]bool{}, extra: map[string]any{}}
	c.Scratch, _ = os.MkdirTemp(os.Getenv("VMC_SCRATCH"), "w")
	ss := scenarios[id](c)
	in := json.NewDecoder(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	for {
		var u schedUnit
		if err := in.Decode(&u); err != nil {
			os.RemoveAll(c.Scratch)
			return
		}
		res := u.run(&ss[u.Scenario])
		_ = out.Encode(res)
		if res.Err != "" || res.Race != "" {
			// goroutines may be left behind, a race is reported once per process
			os.RemoveAll(c.Scratch)
			os.Exit(0)
		}
	}
}

type schedWorker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *bytes.Buffer
}

func (c *Ctx) startWorker() *schedWorker { return c.startWorkerOf(os.Getenv("VMC_SELF")) }

func (c *Ctx) startWorkerOf(exe string) *schedWorker {
	w := &schedWorker{stderr: &bytes.Buffer{}}
	w.cmd = exec.Command(exe, "worker", c.ID, c.Tier)
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOMEMLIMIT=2GiB",
		"GORACE=exitcode=0 history_size=2 log_path="+raceLog())
	w.cmd.Stderr = w.stderr
	w.in, _ = w.cmd.StdinPipe()
	o, _ := w.cmd.StdoutPipe()
	w.out = bufio.NewReaderSize(o, 1<<20)
	if err := w.cmd.Start(); err != nil {
		panic(err)
	}
	return w
}

func (w *schedWorker) stop() {
	_ = w.in.Close()
	t := time.AfterFunc(3*time.Second, func() { _ = w.cmd.Process.Kill() })
	_ = w.cmd.Wait()
	t.Stop()
}

// ask lets the worker do a unit; ok is false if the process died.
func (w *schedWorker) ask(u schedUnit) (res schedResult, ok bool) {
	b, _ := json.Marshal(u)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return res, false
	}
	line, err := w.out.ReadBytes('\n')
	if err != nil {
		return res, false
	}
	return res, json.Unmarshal(line, &res) == nil
}

// Schedules explores all schedules of the registered scenarios with up to
// 0, 1, ... maxBound preemptions, on all cores.
func (c *Ctx) Schedules(maxBound int) {
	ss := scenarios[c.ID](c)
	type task struct {
		s int
		u schedUnit
	}
	total := map[string]int64{}
	var diverged, maxSteps int64
	var mu sync.Mutex
	bad := map[int]bool{}
	for bound := 0; bound <= maxBound; bound++ {
		bound := bound
		c.Part(fmt.Sprintf("all schedules with at most %d preemptions", bound), func() {
			queue := make(chan schedUnit, 1<<20)
			var open int64
			add := func(u schedUnit) {
				atomic.AddInt64(&open, 1)
				queue <- u
			}
			n := 0
			for i := range ss {
				b := bound
				if ss[i].Bound != 0 && ss[i].Bound < b {
					continue
				}
				if ss[i].First > bound || bad[i] {
					continue
				}
				n++
				add(schedUnit{Scenario: i, Bound: b, Expand: true})
			}
			if n == 0 {
				return
			}
			var wg sync.WaitGroup
			for w := 0; w < runtime.NumCPU(); w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					wk := c.startWorker()
					defer func() { wk.stop() }()
					for {
						var u schedUnit
						select {
						case u = <-queue:
						default:
							if atomic.LoadInt64(&open) == 0 || c.Stop() {
								return
							}
							time.Sleep(time.Millisecond)
							continue
						}
						if c.Stop() {
							atomic.AddInt64(&open, -1)
							return
						}
						mu.Lock()
						skip := bad[u.Scenario]
						mu.Unlock()
						if skip {
							atomic.AddInt64(&open, -1)
							continue
						}
						s := &ss[u.Scenario]
						u.Deadline = c.deadline.UnixMilli()
						c.Describe(w, fmt.Sprintf("%s %v", s.Name, u.Prefix))
						stop := make(chan struct{})
						go func() { // long units are progress, their hangs are found by the worker
							t := time.NewTicker(5 * time.Second)
							defer t.Stop()
							for {
								select {
								case <-stop:
									return
								case <-t.C:
									c.Tick()
								}
							}
						}()
						res, ok := wk.ask(u)
						close(stop)
						if !ok {
							wk.stop()
							e1 := wk.stderr.String()
							wk = c.startWorker()
							if res, ok = wk.ask(u); !ok {
								wk.stop()
								e2 := wk.stderr.String()
								if len(e2) > 4000 {
									e2 = e2[:4000]
								}
								c.Violate(s.sig(), "the process dies: "+firstLine(e2), map[string]any{"scenario": s.Name, "unit": u, "stderr": e2})
								wk = c.startWorker()
								atomic.AddInt64(&open, -1)
								mu.Lock()
								bad[u.Scenario] = true
								mu.Unlock()
								continue
							}
							c.Extra("worker_restarted", firstLine(e1))
						}
						c.AddStates(int(res.Runs))
						c.AddTransitions(int(res.Steps))
						c.AddEvals(int(res.Runs))
						c.AddTraces(int(res.Runs))
						for _, o := range res.Outcomes {
							c.Outcome(s.Name + ": " + o)
						}
						mu.Lock()
						total[fmt.Sprintf("bound_%d", bound)] += res.Runs
						diverged += res.Diverged
						if res.MaxSteps > maxSteps {
							maxSteps = res.MaxSteps
						}
						mu.Unlock()
						if u.Expand && len(res.Outcomes) > 0 {
							c.Sample(map[string]any{"scenario": s.Name, "steps": res.Steps, "outcome": res.Outcomes[0]})
						}
						if res.Unconfirmed != "" {
							c.Extra("unconfirmed_"+s.Name, firstLine(res.Unconfirmed))
						}
						if res.Err != "" {
							c.Violate(s.sig(), s.Name+": "+firstLine(res.Err), map[string]any{"scenario": s.Name, "error": res.Err,
								"choices": res.Choices, "switches": res.Log})
							mu.Lock()
							bad[u.Scenario] = true
							mu.Unlock()
							wk.stop()
							wk = c.startWorker()
						} else if !res.Complete {
							c.Capped(s.Name)
						}
						for _, p := range res.Units {
							add(schedUnit{Scenario: u.Scenario, Bound: u.Bound, Prefix: p, From: len(p)})
						}
						atomic.AddInt64(&open, -1)
					}
				}(w)
			}
			wg.Wait()
		})
	}
	c.Extra("schedules", total)
	c.Extra("scenarios", len(ss))
	c.Extra("longest_schedule", maxSteps)
	c.Extra("diverged_replays", diverged)
}

func (s *Scenario) sig() string {
	if s.Sig != "" {
		return s.Sig
	}
	return s.Name
}

func firstLine(s string) string {
	if i := bytes.IndexByte([]byte(s), '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

func raceLog() string { return os.Getenv("VMC_SCRATCH") + "/race" }

var raceSeen int

// newRaces returns the reports of data races that came up since the last call
// and that concern bond: at least one of the two accesses is made by its code
// (what it calls in the standard library included).
func newRaces() string {
	b, _ := os.ReadFile(fmt.Sprintf("%s.%d", raceLog(), os.Getpid()))
	t := string(b)
	if len(t) < raceSeen {
		return ""
	}
	t, raceSeen = t[raceSeen:], len(t)
	for _, r := range strings.Split(t, "==================") {
		if os.Getenv("VMC_RACE_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, r)
		}
		if strings.Contains(r, "WARNING: DATA RACE") && ofBond(r) {
			if len(r) > 6000 {
				r = r[:6000]
			}
			return r
		}
	}
	return ""
}

func ofBond(r string) bool {
	in := false
	for _, l := range strings.Split(r, "\n") {
		switch {
		case strings.Contains(l, " at 0x") && strings.Contains(l, " by "):
			in = true
		case strings.HasPrefix(l, "Goroutine "):
			in = false
		case in && strings.HasPrefix(l, "  ") && strings.HasSuffix(l, ")") && !strings.HasPrefix(l, "      "):
			f := strings.TrimSpace(l)
			if strings.HasPrefix(f, "main.") {
				in = false
				continue
			}
			if i := strings.Index(f, "/"); i < 0 || !strings.Contains(f[:i], ".") {
				continue // the standard library
			}
			if strings.HasPrefix(f, "github.com/go-bond/bond") && !strings.HasPrefix(f, "github.com/go-bond/bond/internal/vmc") {
				return true
			}
			in = false
		}
	}
	return false
}

// Races runs the schedules with at most bound preemptions of the scenarios in
// a program that is built with the race detector: every access of memory by
// two threads has to be ordered by what the code does.
func (c *Ctx) Races(bound int, within time.Duration) {
	exe := os.Getenv("VMC_RACE")
	if exe == "" {
		c.Extra("races", "no program with the race detector")
		return
	}
	ss := scenarios[c.ID](c)
	c.Part(fmt.Sprintf("no data race in the schedules with at most %d preemptions", bound), func() {
		end := time.Now().Add(within)
		var mu sync.Mutex
		next, open := 0, 0
		var todo []schedUnit
		bad := map[string]bool{}
		take := func() (u schedUnit, ok, wait bool) {
			mu.Lock()
			defer mu.Unlock()
			if time.Now().After(end) || c.Stop() {
				if next < len(ss) || len(todo) > 0 {
					c.Capped("races")
					next, todo = len(ss), nil
				}
				return u, false, false
			}
			if next < len(ss) {
				next++
				open++
				return schedUnit{Scenario: next - 1, Bound: bound, Expand: true}, true, false
			}
			if len(todo) > 0 {
				u, todo = todo[0], todo[1:]
				open++
				return u, true, false
			}
			return u, false, open > 0
		}
		var wg sync.WaitGroup
		for w := 0; w < runtime.NumCPU(); w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				wk := c.startWorkerOf(exe)
				defer func() { wk.stop() }()
				for {
					u, ok, wait := take()
					if wait {
						time.Sleep(time.Millisecond)
						continue
					}
					if !ok {
						return
					}
					s := &ss[u.Scenario]
					u.Deadline = end.UnixMilli()
					c.Describe(w, fmt.Sprintf("races %s %v", s.Name, u.Prefix))
					c.Tick()
					res, ok := wk.ask(u)
					if ok && res.Race != "" {
						first := res.Race
						wk.stop()
						wk = c.startWorkerOf(exe)
						res, ok = wk.ask(schedUnit{Scenario: u.Scenario, Bound: bound, Prefix: res.Choices, Expand: true})
						if ok && res.Race == "" {
							c.Extra("unconfirmed_race", first)
						}
					}
					c.AddStates(int(res.Runs))
					c.AddTransitions(int(res.Steps))
					c.AddEvals(int(res.Runs))
					c.AddTraces(int(res.Runs))
					mu.Lock()
					open--
					if ok && res.Race != "" {
						bad[s.Name] = true
						c.Violate("race", s.Name+": data race"+accesses(res.Race), map[string]any{"scenario": s.Name, "choices": res.Choices, "report": res.Race})
					}
					if ok && !bad[s.Name] {
						for _, p := range res.Units {
							todo = append(todo, schedUnit{Scenario: u.Scenario, Bound: u.Bound, Prefix: p, From: len(p)})
						}
					}
					mu.Unlock()
					if !ok || res.Race != "" || res.Err != "" {
						// what goes wrong otherwise is found without the detector
						if !ok {
							c.Extra("race_worker", firstLine(wk.stderr.String()))
						}
						wk.stop()
						wk = c.startWorkerOf(exe)
					}
				}
			}(w)
		}
		wg.Wait()
	})
}

// accesses names the two functions of a report.
func accesses(r string) string {
	var s string
	take := false
	for _, l := range strings.Split(r, "\n") {
		if strings.Contains(l, " at 0x") && strings.Contains(l, " by ") {
			take = true
			s += "; " + strings.TrimSpace(l[:strings.Index(l, " at 0x")]) + " in"
		} else if strings.HasPrefix(l, "Goroutine ") {
			break
		} else if take && (strings.Contains(l, "github.com/") || strings.HasPrefix(l, "  main.")) {
			s += " " + strings.TrimSpace(l)
			take = false
		}
	}
	return s
}
