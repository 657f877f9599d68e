package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/bloom"
	. "github.com/go-bond/bond/internal/vmc/kit"
	"github.com/go-bond/bond/internal/vmc/shim/sched"
)

func init() {
	Register(&Check{ID: "C13", Level: "model_checking", Run: runC13,
		Rule: "every schedule within the bound of threads that add, test, load, save and initialise one filter is executed on the real filter and its bit set, both instrumented at statement granularity, under a controlled scheduler",
		Assumptions: []string{"code between two statements runs as one step, read-modify-write assignments are two",
			"the bit set and the filter of the third party packages are instrumented copies of the versions go.mod names"}})
	RegisterScenarios("C13", scenarios13)
}

// store13 is a filter storer whose calls are scheduling points.
type store13 struct {
	m map[string]string
}

type nop13 struct{}

func (nop13) Close() error { return nil }

func (s *store13) Get(key []byte, _ ...bond.Batch) ([]byte, io.Closer, error) {
	sched.Point("store get")
	v, ok := s.m[string(key)]
	if !ok {
		return nil, nil, bond.ErrNotFound
	}
	return []byte(v), nop13{}, nil
}

func (s *store13) Set(key, value []byte, _ bond.WriteOptions, _ ...bond.Batch) error {
	k, v := string(key), string(value)
	sched.Point("store set")
	if string(key) != k || string(value) != v {
		panic("the bytes given to the store changed while it stored them")
	}
	s.m[k] = v
	return nil
}

func (s *store13) DeleteRange(a, b []byte, _ bond.WriteOptions, _ ...bond.Batch) error {
	sched.Point("store deleterange")
	for k := range s.m {
		if k >= string(a) && k < string(b) {
			delete(s.m, k)
		}
	}
	return nil
}

func (s *store13) clone() *store13 {
	n := &store13{m: map[string]string{}}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

// scanner13 is a table scanner over fixed keys.
type scanner13 struct {
	bond.TableScanner[any]
	keys []string
}

func (s scanner13) ScanForEach(_ context.Context, f func(bond.KeyBytes, bond.Lazy[any]) (bool, error), _ bool, _ ...bond.Batch) error {
	for _, k := range s.keys {
		sched.Point("scan")
		if more, err := f([]byte(k), bond.Lazy[any]{}); err != nil || !more {
			return err
		}
	}
	return nil
}

// op13 is a call: "+k" add, "?k" test, "S" save, "L" load, "I" initialise
type shape13 struct {
	n       uint
	fp      float64
	buckets int
}

type run13 struct {
	f      bond.Filter
	init   *bond.FilterInitializable
	store  *store13
	shape  shape13
	added  map[string]bool // adding has returned
	clears bool            // some thread clears what is stored
	bad    error
	note   []string
}

func (s shape13) new() bond.Filter { return bloom.NewBloomFilter(s.n, s.fp, s.buckets) }

// stored checks that the content of the store holds the keys.
func (r *run13) stored(keys map[string]bool, when string) error {
	g := r.shape.new()
	st := r.store.clone()
	var err error
	sched.Outside(func() {
		if e := g.Load(bg, st); e != nil {
			err = fmt.Errorf("%s: what is stored cannot be loaded: %v", when, e)
			return
		}
		for k := range keys {
			if !g.MayContain(bg, []byte(k)) {
				err = fmt.Errorf("%s: key %q, added before, is missing in what is stored", when, k)
			}
		}
	})
	return err
}

func (r *run13) fail(err error) {
	if r.bad == nil && err != nil {
		r.bad = err
	}
}

func (r *run13) do(op string) {
	known := map[string]bool{}
	for k := range r.added {
		known[k] = true
	}
	f := r.f
	if r.init != nil {
		f = r.init
	}
	switch op[0] {
	case '+':
		f.Add(bg, []byte(op[1:]))
		r.added[op[1:]] = true
	case '?':
		ok := f.MayContain(bg, []byte(op[1:]))
		if !ok && known[op[1:]] {
			r.fail(fmt.Errorf("key %q, added before, is not found", op[1:]))
		}
		r.note = append(r.note, fmt.Sprint(op, ok))
	case 'S':
		err := f.Save(bg, r.store)
		if r.init != nil && err != nil {
			r.note = append(r.note, "save refused")
			return // not initialised yet
		}
		r.fail(err)
		if !r.clears {
			r.fail(r.stored(known, "after save"))
		}
	case 'C':
		r.fail(f.Clear(bg, r.store))
	case 'L':
		err := f.Load(bg, r.store)
		r.note = append(r.note, fmt.Sprint("load ", err == nil))
	case 'I':
		err := r.init.Initialize(bg, r.store, []bond.TableScanner[any]{scanner13{keys: []string{"row1", "row2"}}})
		r.fail(err)
		r.added["row1"], r.added["row2"] = true, true
	}
}

func scenarios13(c *Ctx) []Scenario {
	var ss []Scenario
	add := func(first int, sh shape13, saved []string, init bool, threads ...string) {
		name := fmt.Sprintf("%s, %d buckets", strings.Join(threads, " | "), sh.buckets)
		if len(saved) > 0 {
			name += fmt.Sprintf(", stored %v", saved)
		}
		if sh.n > 4 {
			name += ", large"
		}
		ss = append(ss, Scenario{Name: name, First: first, New: func() ([]func(), func() (string, error)) {
			r := &run13{f: sh.new(), store: &store13{m: map[string]string{}}, shape: sh, added: map[string]bool{}, clears: strings.Contains(name, "C")}
			if init {
				r.init = &bond.FilterInitializable{Filter: r.f}
			}
			if len(saved) > 0 {
				g := sh.new()
				for _, k := range saved {
					g.Add(bg, []byte(k))
				}
				if err := g.Save(bg, r.store); err != nil {
					panic(err)
				}
			}
			var fs []func()
			for _, t := range threads {
				ops := strings.Fields(t)
				fs = append(fs, func() {
					for _, op := range ops {
						r.do(op)
					}
				})
			}
			return fs, func() (string, error) {
				if r.bad != nil {
					return "", r.bad
				}
				f := r.f
				if r.init != nil {
					f = r.init
				}
				for k := range r.added {
					if !f.MayContain(bg, []byte(k)) {
						return "", fmt.Errorf("key %q, added by a thread, is not found at the end", k)
					}
				}
				if err := f.Save(bg, r.store); err != nil {
					if r.init == nil {
						return "", errors.New("the last save failed")
					}
				} else if err := r.stored(r.added, "after the last save"); err != nil {
					return "", err
				}
				sort.Strings(r.note)
				return strings.Join(r.note, ","), nil
			}
		}})
	}
	one := shape13{4, 0.3, 1}
	two := shape13{4, 0.3, 2}
	three := shape13{100, 0.1, 3}
	add(0, one, nil, false, "+a ?a", "+b ?b")
	add(0, one, nil, false, "+a +c", "+b ?a")
	add(0, one, nil, false, "+a", "S")
	add(0, one, nil, false, "+a ?a", "S ?a")
	add(0, one, nil, false, "+a S", "+b S")
	add(0, one, nil, false, "S +a S", "+b")
	add(0, two, nil, false, "+a S", "+b S")
	add(0, two, nil, false, "+a +b", "S S")
	add(0, one, []string{"x"}, false, "L ?a", "+a ?a")
	add(0, one, []string{"x"}, false, "L S", "+a S")
	add(0, two, []string{"x", "y"}, false, "L +a", "+b ?b S")
	add(0, one, nil, true, "I", "+a ?a")
	add(0, two, nil, true, "I S", "+a S ?a")
	add(0, two, []string{"row1", "row2"}, true, "I S", "+a S ?a")
	add(0, three, nil, false, "+a +b S", "+c +d S")
	add(0, one, nil, false, "C S", "+a S")
	add(0, two, []string{"x", "y"}, false, "C +a S", "+b S")
	add(0, one, nil, false, "+a", "+b", "+c")
	add(0, one, nil, false, "+a", "+b", "S")
	add(0, one, []string{"x"}, false, "L", "+a", "S")
	add(0, two, nil, true, "I", "+a S", "+b")
	return ss
}

func runC13(c *Ctx) {
	bound := 2
	if c.Thorough() {
		bound = 4
	}
	c.Races(1, 10*time.Second)
	c.Schedules(bound)
}
