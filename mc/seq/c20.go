package main

import (
	"fmt"
	"time"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
	"github.com/go-bond/bond/internal/vmc/shim/sched"
)

func init() {
	Register(&Check{ID: "C20", Level: "model_checking", Run: runC20,
		Rule: "every clock sequence over the domain and every schedule within the bound is executed on the real generator under a replaced clock and a controlled scheduler",
		Assumptions: []string{"code between two statements of helpers.go runs as one step",
			"the generator is not asked for more numbers than its range holds when it makes batch ids"}})
	RegisterScenarios("C20", scenarios20)
}

// event is one call of a generator.
type event20 struct {
	from, to int64 // logical time of start and end
	n        uint64
	err      error
}

// judge20 checks the calls: numbers never repeat, and follow the order of calls.
func judge20(evs []event20) error {
	for i, a := range evs {
		if a.err != nil {
			continue
		}
		for j, b := range evs {
			if i == j || b.err != nil {
				continue
			}
			if i < j && a.n == b.n {
				return fmt.Errorf("the number %#x was handed out twice", a.n)
			}
			if a.to < b.from && a.n >= b.n {
				return fmt.Errorf("%#x was handed out before %#x", a.n, b.n)
			}
		}
	}
	return nil
}

// clock20 answers with values chosen by the exploration.
type clock20 struct {
	now    int64
	deltas []int64
}

func (c *clock20) Now() time.Time {
	if len(c.deltas) > 0 {
		c.now += c.deltas[sched.Choose(len(c.deltas))]
	}
	return time.Unix(c.now, 0)
}

func scenarios20(c *Ctx) []Scenario {
	var ss []Scenario
	threads := func(name string, first, nThreads, nCalls int, start func() *bond.NumberSequence, deltas ...int64) {
		ss = append(ss, Scenario{Name: name, First: first, New: func() ([]func(), func() (string, error)) {
			ck := &clock20{now: 1700000000}
			sched.SetClock(ck.Now)
			g := start()
			ck.deltas = deltas
			var tick int64
			evs := make([][]event20, nThreads)
			var fs []func()
			for t := 0; t < nThreads; t++ {
				t := t
				fs = append(fs, func() {
					for i := 0; i < nCalls; i++ {
						tick++
						e := event20{from: tick}
						e.n, e.err = g.Next()
						tick++
						e.to = tick
						evs[t] = append(evs[t], e)
					}
				})
			}
			return fs, func() (string, error) {
				var all []event20
				out := ""
				for t := range evs {
					all = append(all, evs[t]...)
					for _, e := range evs[t] {
						out += fmt.Sprintf("%x %v,", e.n, e.err != nil)
					}
					out += ";"
				}
				return out, judge20(all)
			}
		}})
	}
	fresh := func() *bond.NumberSequence { return &bond.NumberSequence{} }
	used := func() *bond.NumberSequence {
		g := &bond.NumberSequence{}
		for i := 0; i < 3; i++ {
			_, _ = g.Next()
		}
		return g
	}
	threads("two callers, clock stands", 0, 2, 3, fresh, 0)
	threads("three callers, clock stands", 0, 3, 2, used, 0)
	threads("two callers, clock forward", 0, 2, 2, used, 0, 1)
	threads("two callers, clock any", 0, 2, 2, used, 0, 1, -1)
	threads("two callers, clock jumps", 0, 2, 2, used, 0, -1000, 3)
	threads("three callers, clock any", 1, 3, 1, used, 0, 1, -1)

	// the last numbers of a second
	var base *bond.NumberSequence
	almost := func() *bond.NumberSequence {
		if base == nil {
			base = advanced20(3)
		}
		n := copy20(base)
		return n
	}
	if b := advanced20(3); shares20(b) == nil {
		base = b
		threads("two callers, range used up, clock stands", 0, 2, 3, almost, 0)
		threads("two callers, range used up, clock any", 0, 2, 2, almost, 0, 1, -1)
	}

	// identifiers of batches
	ids := func(name string, first int, body func(db bond.DB, note func(uint64)), deltas ...int64) {
		var e *Env
		now := int64(1800000000)
		ss = append(ss, Scenario{Name: name, First: first, New: func() ([]func(), func() (string, error)) {
			if e == nil {
				e = c.NewEnv(nil, nil, nil)
			}
			now += 1000
			ck := &clock20{now: now}
			sched.SetClock(ck.Now)
			_ = e.DB.Batch(bond.BatchTypeWriteOnly).Close()
			ck.deltas = deltas
			var tick int64
			evs := make([][]event20, 2)
			var fs []func()
			for t := range evs {
				t := t
				fs = append(fs, func() {
					body(e.DB, func(id uint64) {
						tick++
						evs[t] = append(evs[t], event20{n: id, from: -1, to: tick})
					})
				})
			}
			return fs, func() (string, error) {
				var all []event20
				for t := range evs {
					for i, ev := range evs[t] {
						if i > 0 {
							ev.from = evs[t][i-1].to
						}
						all = append(all, ev)
					}
				}
				return fmt.Sprint(len(all)), judge20(all)
			}
		}})
	}
	ids("batch ids of two callers", 0, func(db bond.DB, note func(uint64)) {
		for i := 0; i < 2; i++ {
			b := db.Batch(bond.BatchTypeWriteOnly)
			note(b.ID())
			_ = b.Close()
		}
	}, 0, 1, -1)
	ids("batch ids after reset", 0, func(db bond.DB, note func(uint64)) {
		b := db.Batch(bond.BatchTypeReadWrite)
		note(b.ID())
		b.Reset()
		note(b.ID())
		b.Reset()
		note(b.ID())
		_ = b.Close()
	}, 0, -1)
	return ss
}

// advanced20 gives a generator with left numbers to go in the current second.
func advanced20(left int) *bond.NumberSequence {
	sched.SetClock(func() time.Time { return time.Unix(1700000000, 0) })
	g := &bond.NumberSequence{}
	for {
		n, err := g.Next()
		if err != nil {
			return g
		}
		if n&0xFFFFFF == uint64(0xFFFFFF-left) {
			return g
		}
	}
}

func copy20(g *bond.NumberSequence) *bond.NumberSequence {
	n := *g //nolint
	return &n
}

// shares20 tells whether a copy is not independent of the original.
func shares20(g *bond.NumberSequence) error {
	a, b := copy20(g), copy20(g)
	x, ex := a.Next()
	y, ey := b.Next()
	if x != y || (ex == nil) != (ey == nil) {
		return fmt.Errorf("copies are not independent")
	}
	return nil
}

func runC20(c *Ctx) {
	// one caller, every sequence of clock readings
	seqs := func(name string, clock []int64, n int, start func() *bond.NumberSequence, nearEnd bool) {
		c.Part(name, func() {
			idx := make([]int, n)
			for {
				if c.Stop() {
					return
				}
				var cur int64
				g := start()
				sched.SetClock(func() time.Time { return time.Unix(cur, 0) })
				ok := c.Exec(name, func() any { return map[string]any{"clock": clock, "readings": append([]int{}, idx...)} }, func() error {
					last, have := uint64(0), false
					out := ""
					g = start()
					if nearEnd {
						have = true
						last = uint64(1700000000)<<24 | 0xFFFFFF - 3
					}
					sched.SetClock(func() time.Time { return time.Unix(cur, 0) })
					for _, i := range idx {
						cur = clock[i]
						v, err := g.Next()
						out += fmt.Sprintf("%x %v,", v, err != nil)
						used := have && last&0xFFFFFF == 0xFFFFFF
						if err != nil {
							if !used {
								return fmt.Errorf("an error although the range is not used up: %v", err)
							}
							if uint64(cur) > last>>24 {
								return fmt.Errorf("an error in a later second: %v", err)
							}
							continue
						}
						if have && v <= last {
							return fmt.Errorf("%#x was handed out after %#x", v, last)
						}
						last, have = v, true
					}
					c.Outcome(out)
					return nil
				})
				c.AddStates(1)
				c.AddTransitions(n)
				c.AddEvals(1)
				c.AddTraces(1)
				if !ok {
					return
				}
				k := n - 1
				for ; k >= 0; k-- {
					if idx[k]++; idx[k] < len(clock) {
						break
					}
					idx[k] = 0
				}
				if k < 0 {
					return
				}
			}
		})
	}
	fresh := func() *bond.NumberSequence { return &bond.NumberSequence{} }
	n := 6
	if c.Thorough() {
		n = 8
	}
	seqs("clock sequences of a new generator", []int64{0, 1, 2, 1700000000, 1700000001, -1}, n, fresh, false)
	if b := advanced20(3); shares20(b) == nil {
		seqs("clock sequences at the end of the range", []int64{1700000000, 1699999999, 1700000001, 1, 1700000100}, n, func() *bond.NumberSequence { return copy20(b) }, true)
	} else {
		c.Extra("end_of_range", "not explored, the generator cannot be copied")
	}
	bound := 2
	if c.Thorough() {
		bound = 8
	}
	c.Races(1, 10*time.Second)
	c.Schedules(bound)
}
