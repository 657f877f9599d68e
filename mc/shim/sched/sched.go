// Package sched runs a few goroutines under full control: exactly one of them
// runs at a time, and at every scheduling point the next one is chosen by the
// schedule that is being explored. Goroutines that do not belong to a run pass
// through unhindered.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	getg "github.com/go-bond/bond/cmd"
)

// Decision is one choice made during a run.
type Decision struct {
	N      int  // number of options
	Chosen int  // option taken
	Free   bool // choosing another option is not a preemption
}

type thread struct {
	run     *Run
	id      int
	name    string
	resume  chan struct{}
	enabled func() bool // nil: can run
	done    bool
	label   string
	quiet   int
	started int64 // stands for the start
}

// Run is one execution.
type Run struct {
	prefix  []int
	Trace   []Decision
	Log     []string // one entry per switch, if KeepLog
	KeepLog bool
	Delays  bool // deviating from the first choice when a thread ends or waits counts as a preemption
	Steps   int64
	Max     int64

	mu       sync.Mutex
	threads  []*thread
	cur      *thread
	finished chan struct{}
	ended    bool
	Err      error // deadlock, panic, endless run
	diverged bool
	free     bool // everybody runs on without control

	joined int64 // stands for the end of the threads
}

// UnlockPoints: releasing a lock is a scheduling point, too.
var UnlockPoints = true

var (
	active  int32
	threads sync.Map // goroutine -> *thread
	clockMu sync.Mutex
	clock   func() time.Time
)

// SetClock makes Now answer f (nil: the real clock).
func SetClock(f func() time.Time) {
	clockMu.Lock()
	clock = f
	clockMu.Unlock()
}

func Now() time.Time {
	clockMu.Lock()
	f := clock
	clockMu.Unlock()
	if f != nil {
		return f()
	}
	return time.Now()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if self() == nil {
		time.Sleep(d)
		return
	}
	Point("sleep")
}

func self() *thread {
	if atomic.LoadInt32(&active) == 0 {
		return nil
	}
	off()
	t, ok := threads.Load(getg.G())
	on()
	if ok {
		return t.(*thread)
	}
	return nil
}

// Controlled tells whether the caller belongs to a run.
func Controlled() bool { return self() != nil }

// Yield is a scheduling point before a statement.
func Yield() {
	if atomic.LoadInt32(&active) != 0 {
		Point("")
	}
}

// Point is a scheduling point.
func Point(label string) {
	if t := self(); t != nil && t.quiet == 0 {
		t.run.point(t, label, nil, false)
	}
}

// Free is a scheduling point at which switching is not a preemption.
func Free(label string) {
	if t := self(); t != nil {
		t.run.point(t, label, nil, true)
	}
}

// Quiet runs f without scheduling points, other than those where it has to
// wait for another thread.
func Quiet(f func()) {
	t := self()
	if t == nil {
		f()
		return
	}
	t.quiet++
	defer func() { t.quiet-- }()
	f()
}

// Block waits until ok holds; ok is evaluated while no other controlled
// goroutine runs, and nothing runs between its being true and the return.
// It returns false if the caller is not controlled.
func Block(label string, ok func() bool) bool {
	t := self()
	if t == nil {
		return false
	}
	t.run.point(t, label, ok, false)
	return true
}

// Choose lets the exploration pick one of n values.
func Choose(n int) int {
	t := self()
	if t == nil || n < 2 {
		return 0
	}
	r := t.run
	off()
	defer on()
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.decide(n, true)
}

func (r *Run) decide(n int, free bool) int {
	i := len(r.Trace)
	c := 0
	if i < len(r.prefix) {
		c = r.prefix[i]
		if c >= n {
			c = 0
			r.diverged = true
		}
	}
	r.Trace = append(r.Trace, Decision{n, c, free})
	return c
}

func (t *thread) ready() bool { return !t.done && (t.enabled == nil || t.enabled()) }

// pick chooses who runs next; r.mu is held. cur is the one that is at a point
// (nil when it has ended).
func (r *Run) pick(cur *thread, free bool) *thread {
	var opts []*thread
	if cur != nil && cur.ready() {
		opts = append(opts, cur)
	}
	curReady := len(opts) > 0
	for _, t := range r.threads {
		if t != cur && t.ready() {
			opts = append(opts, t)
		}
	}
	if len(opts) == 0 {
		return nil
	}
	if len(opts) == 1 {
		return opts[0]
	}
	return opts[r.decide(len(opts), free || !curReady && !r.Delays)]
}

func (r *Run) fail(err error) {
	if r.Err == nil {
		r.Err = err
	}
	r.end()
}

func (r *Run) end() {
	if !r.ended {
		r.ended = true
		close(r.finished)
	}
}

func (r *Run) point(t *thread, label string, ok func() bool, free bool) {
	off()
	defer on()
	r.mu.Lock()
	r.Steps++
	if r.ended {
		// the run is over (a failure was found); do not go on
		r.mu.Unlock()
		select {}
	}
	if r.Steps > r.Max {
		r.fail(fmt.Errorf("endless run: more than %d steps", r.Max))
		r.mu.Unlock()
		select {}
	}
	t.label = label
	t.enabled = ok
	if r.cur != t {
		// it was given up as blocked outside of the scheduler and is back
		r.mu.Unlock()
		<-t.resume
		return
	}
	next := r.pick(t, free)
	if next == nil {
		r.fail(fmt.Errorf("deadlock: %s", r.where()))
		r.mu.Unlock()
		select {}
	}
	next.enabled = nil
	if next == t {
		r.mu.Unlock()
		return
	}
	r.switchTo(next)
	r.mu.Unlock()
	<-t.resume
}

func (r *Run) switchTo(next *thread) {
	if r.KeepLog {
		from := ""
		if r.cur != nil {
			from = fmt.Sprintf("%s at %s", r.cur.name, place(r.cur.label))
		}
		r.Log = append(r.Log, fmt.Sprintf("%s -> %s", from, next.name))
	}
	r.cur = next
	next.resume <- struct{}{}
}

// place describes where the caller of the scheduler is.
func place(label string) string {
	var pcs [24]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if f.File != "" && !strings.Contains(f.File, "/shim/") && !strings.Contains(f.File, "/runtime/") {
			p := f.File
			if i := strings.LastIndex(p, "/"); i >= 0 {
				p = p[i+1:]
			}
			return fmt.Sprintf("%s:%d %s", p, f.Line, label)
		}
		if !more {
			return label
		}
	}
}

func (r *Run) where() string {
	var s []string
	for _, t := range r.threads {
		if !t.done {
			s = append(s, t.name+" waits at "+t.label)
		}
	}
	return strings.Join(s, ", ")
}

func (r *Run) spawn(name string, f func()) *thread {
	t := &thread{run: r, id: len(r.threads), name: name, resume: make(chan struct{}, 1)}
	r.threads = append(r.threads, t)
	on()
	Release(unsafe.Pointer(&t.started))
	off()
	go func() {
		id := getg.G()
		off()
		threads.Store(id, t)
		defer on()
		defer threads.Delete(id)
		<-t.resume
		on()
		Acquire(unsafe.Pointer(&t.started))
		defer func() {
			p := recover()
			Merge(unsafe.Pointer(&r.joined))
			off()
			r.mu.Lock()
			defer r.mu.Unlock()
			t.done = true
			if p != nil {
				r.fail(fmt.Errorf("panic in %s: %v\n%s", t.name, p, trim(debug.Stack())))
				return
			}
			if r.ended {
				return
			}
			if r.cur != t {
				return // it was running outside of the scheduler
			}
			next := r.pick(nil, false)
			if next == nil {
				for _, o := range r.threads {
					if !o.done {
						r.fail(fmt.Errorf("deadlock: %s", r.where()))
						return
					}
				}
				r.end()
				return
			}
			next.enabled = nil
			r.switchTo(next)
		}()
		f()
	}()
	return t
}

func trim(b []byte) string {
	l := strings.Split(string(b), "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

// Go starts f as a goroutine, a controlled one if the caller is controlled.
func Go(f func()) {
	t := self()
	if t == nil {
		go f()
		return
	}
	r := t.run
	off()
	r.mu.Lock()
	r.spawn(t.name+"."+strconv.Itoa(len(r.threads)), f)
	r.mu.Unlock()
	on()
	Point("go")
}

func Go0(f func())                                    { Go(f) }
func Go1[A any](f func(A), a A)                       { Go(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B)            { Go(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C) { Go(func() { f(a, b, c) }) }

// Ref and Set split an assignment into evaluating and storing.
type Box[T any] struct{ p *T }

func Ref[T any](p *T) Box[T] { return Box[T]{p} }

func (b Box[T]) Set(v T) {
	Yield()
	*b.p = v
}

// Execute runs the functions as threads, following the prefix of choices and
// then always the first option.
func Execute(prefix []int, keepLog, delays bool, fs ...func()) *Run {
	r := &Run{prefix: prefix, KeepLog: keepLog, Delays: delays, Max: 200000, finished: make(chan struct{})}
	off()
	defer func() {
		on()
		Acquire(unsafe.Pointer(&r.joined))
	}()
	r.mu.Lock()
	for i, f := range fs {
		r.spawn("T"+strconv.Itoa(i), f)
	}
	atomic.AddInt32(&active, 1)
	defer atomic.AddInt32(&active, -1)
	first := r.pick(nil, false)
	r.switchTo(first)
	r.mu.Unlock()

	last, idle := int64(-1), 0
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case <-r.finished:
			return r
		case <-tick.C:
		}
		r.mu.Lock()
		if r.Steps != last {
			last, idle = r.Steps, 0
			r.mu.Unlock()
			continue
		}
		if idle++; idle == 5 || idle == 10 || idle == 15 {
			// the running one is blocked by something the scheduler does not
			// know; let another one go on
			cur := r.cur
			for _, t := range r.threads {
				if t != cur && t.ready() {
					r.diverged = true
					t.enabled = nil
					r.switchTo(t)
					break
				}
			}
		}
		if idle > 30 {
			buf := make([]byte, 1<<18)
			n := runtime.Stack(buf, true)
			r.fail(fmt.Errorf("no thread makes progress: %s\n%s", r.where(), buf[:n]))
		}
		r.mu.Unlock()
	}
}

// Outside runs f on a goroutine that is not controlled, as one step.
func Outside(f func()) {
	if self() == nil {
		f()
		return
	}
	done := make(chan any)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	if p := <-done; p != nil {
		panic(p)
	}
}

// Choices returns the choices made.
func (r *Run) Choices() []int {
	c := make([]int, len(r.Trace))
	for i, d := range r.Trace {
		c[i] = d.Chosen
	}
	return c
}

func (r *Run) Diverged() bool { return r.diverged }

// Next gives the prefix of the next run to explore after r, depth first, with
// at most bound preemptions; false: there is none.
func (r *Run) Next(bound int, from int) ([]int, bool) {
	pre := make([]int, len(r.Trace)+1)
	for i, d := range r.Trace {
		pre[i+1] = pre[i]
		if !d.Free && d.Chosen != 0 {
			pre[i+1]++
		}
	}
	for i := len(r.Trace) - 1; i >= from; i-- {
		d := r.Trace[i]
		if d.Chosen+1 >= d.N {
			continue
		}
		if !d.Free && pre[i]+1 > bound {
			continue
		}
		p := make([]int, i+1)
		for j := 0; j < i; j++ {
			p[j] = r.Trace[j].Chosen
		}
		p[i] = d.Chosen + 1
		return p, true
	}
	return nil, false
}
