package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
	"github.com/go-bond/bond/internal/vmc/shim/sched"
)

func init() {
	Register(&Check{ID: "C17", Level: "model_checking", Run: runC17, Quick: 75,
		Rule:        "every schedule within the bound of a dump (every statement of bond.go and every goroutine it starts) and of writers of one to three commits is executed on the real database; what is restored from the dump must be the content between two commits of each writer, the same moment for all tables and indexes, during the dump",
		Assumptions: []string{"code between two statements of bond.go runs as one step, a commit of the storage engine is one step"}})
	RegisterScenarios("C17", scenarios17)
}

// step17 is one commit and what the tables hold afterwards.
type step17 struct {
	do    func(w *world10) error
	after map[int]Model
}

type dump17 struct {
	dir        string
	start, end []int // commits of each writer that had returned
	err        error
}

// restored17 reads a dump back through a restore; the content of a dump seen
// before is known.
type restored17 struct {
	t    *target
	seen map[string]State
}

func (r *restored17) read(c *Ctx, dir string, tables []bond.TableID, idx bool) (State, error) {
	fs := files(dir)
	var names []string
	for n := range fs {
		names = append(names, n)
	}
	sort.Strings(names)
	key := ""
	for _, n := range names {
		key += n + fs[n] + ";"
	}
	if st, ok := r.seen[key]; ok {
		return st, nil
	}
	if r.t == nil {
		r.t = newTarget(c)
	}
	if err := r.t.db.Restore(bg, dir, tables, idx); err != nil {
		return nil, fmt.Errorf("restore: %w", err)
	}
	got := RawDump(r.t.db.Backend(), nil, nil)
	for k, v := range r.t.base {
		if got[k] == v {
			delete(got, k)
		}
	}
	r.t.wipe()
	if r.seen == nil {
		r.seen = map[string]State{}
	}
	r.seen[key] = got
	return got, nil
}

func scenarios17(c *Ctx) []Scenario {
	g := cfg10{[]byte{3, 4}, [][]byte{{1, 255}, {2}}}
	var w *world10
	rd := &restored17{}
	nd := 0
	var ss []Scenario
	add := func(name string, first int, base []Model, mask int, idx bool, dumps int, writers ...[]step17) {
		b := 1 // in the quick tier few scenarios are explored with more than one preemption
		if name == "first rows of an empty table" || c.Thorough() {
			b = 0
		}
		ss = append(ss, Scenario{Name: name, First: first, Bound: b, Delays: true, New: func() ([]func(), func() (string, error)) {
			if w == nil {
				w = newWorld10(c, g)
				w.env.Max = 1000
			}
			w.set(base)
			tables := tablesOf(g, mask)
			done := make([]int, len(writers))
			var bad error
			var fs []func()
			ds := make([]*dump17, dumps)
			for i := range ds {
				nd++
				d := &dump17{dir: filepath.Join(c.Scratch, fmt.Sprintf("dump%d", nd))}
				ds[i] = d
				fs = append(fs, func() {
					d.start = append([]int{}, done...)
					d.err = w.env.DB.Dump(bg, d.dir, tables, idx)
					d.end = append([]int{}, done...)
				})
			}
			for i := range writers {
				i := i
				fs = append(fs, func() {
					for j, s := range writers[i] {
						if j > 0 {
							sched.Free("between commits")
						}
						sched.Quiet(func() {
							if err := s.do(w); err != nil && bad == nil {
								bad = fmt.Errorf("a writer failed: %w", err)
							}
							done[i]++
						})
					}
				})
			}
			return fs, func() (string, error) {
				defer func() {
					for _, d := range ds {
						_ = os.RemoveAll(d.dir)
					}
				}()
				if bad != nil {
					return "", bad
				}
				out := ""
				for _, d := range ds {
					if d.err != nil {
						return "", fmt.Errorf("dump: %w", d.err)
					}
					got, err := rd.read(c, d.dir, tables, idx)
					if err != nil {
						return "", err
					}
					found := ""
					near := ""
					at := append([]int{}, d.start...)
					for found == "" {
						ms := append([]Model{}, base...)
						for i, n := range at {
							for j := 0; j < n; j++ {
								for t, m := range writers[i][j].after {
									ms[t] = m
								}
							}
						}
						want := selected(w.want(ms), tables, idx)
						if want.Equal(got) {
							found = fmt.Sprint(at)
							break
						}
						if df := Diff(want, got); near == "" || len(df) < len(near) {
							near = df
						}
						k := 0
						for ; k < len(at); k++ {
							if at[k]++; at[k] <= d.end[k]+1 && at[k] <= len(writers[k]) {
								break
							}
							at[k] = d.start[k]
						}
						if k == len(at) {
							return "", fmt.Errorf("the dump is not the content at any one moment of it (commits done before %v, after %v): closest: %s", d.start, d.end, near)
						}
					}
					out += found + " "
				}
				// the writers were not disturbed
				ms := append([]Model{}, base...)
				for _, wr := range writers {
					for _, s := range wr {
						for t, m := range s.after {
							ms[t] = m
						}
					}
				}
				if want, got := w.want(ms), w.env.Dump(); !want.Equal(got) {
					return "", fmt.Errorf("after the dump: %s", Diff(want, got))
				}
				return out, nil
			}
		}})
	}

	// calls on one table
	steps := func(t int, m Model, ops ...op) []step17 {
		var out []step17
		for _, o := range ops {
			o := o
			before := m
			n, err := refApply(m, o)
			if err != nil {
				panic(err)
			}
			out = append(out, step17{func(w *world10) error { return implApply(w.ws[t].s, w.ws[t].t, before, o) }, map[int]Model{t: n}})
			m = n
		}
		return out
	}
	// one batch over both tables
	batch := func(ms []Model, os ...op) (step17, []Model) {
		after := []Model{ms[0], ms[1]}
		for i, o := range os {
			n, err := refApply(after[i], o)
			if err != nil {
				panic(err)
			}
			after[i] = n
		}
		return step17{func(w *world10) error {
			b := w.env.DB.Batch(bond.BatchTypeReadWrite)
			defer func() { _ = b.Close() }()
			for i, o := range os {
				if err := implApply(w.ws[i].s, w.ws[i].t, ms[i], o, b); err != nil {
					return err
				}
			}
			return b.Commit(bond.Sync)
		}, map[int]Model{0: after[0], 1: after[1]}}, after
	}
	x := func(k, a int, p bool, s string) R { return R{K: k, A: a, B: 1, P: p, S: s} }
	empty := Model{}
	two := Model{0: x(0, 1, true, "x"), 1: x(1, 2, false, "x")}
	one := Model{1: x(1, 0, true, "x")}

	for _, idx := range []bool{true, false} {
		s := ""
		if !idx {
			s = ", without indexes"
		}
		add("insert, update, delete in the dumped table"+s, 0, []Model{two, empty}, 1, idx, 1,
			steps(0, two, op{opInsert, []R{x(2, 0, true, "y")}}, op{opUpdate, []R{x(0, 0, false, "z")}}, op{opDelete, []R{x(1, 0, false, "")}}))
		add("first rows of an empty table"+s, 0, []Model{empty, empty}, 3, idx, 1,
			steps(0, empty, op{opInsert, []R{x(0, 1, true, "y"), x(1, 2, true, "y")}}))
		add("table emptied"+s, 0, []Model{two, one}, 3, idx, 1,
			steps(1, one, op{opDelete, []R{x(1, 0, false, "")}}))
		b1, m1 := batch([]Model{two, one}, op{opInsert, []R{x(2, 0, true, "b")}}, op{opInsert, []R{x(2, 0, true, "b")}})
		b2, _ := batch(m1, op{opUpdate, []R{x(0, 2, true, "c")}}, op{opDelete, []R{x(1, 0, false, "")}})
		add("batches over two tables"+s, 0, []Model{two, one}, 3, idx, 1, []step17{b1, b2})
		add("batches over two tables, one is dumped"+s, 0, []Model{two, one}, 2, idx, 1, []step17{b1, b2})
		add("two writers"+s, 1, []Model{two, one}, 3, idx, 1,
			steps(0, two, op{opUpdate, []R{x(0, 0, true, "u"), x(1, 0, true, "u")}}),
			steps(1, one, op{opInsert, []R{x(0, 2, true, "v")}}))
		add("two dumps"+s, 1, []Model{two, one}, 3, idx, 2, []step17{b1})
	}
	return ss
}

func runC17(c *Ctx) {
	bound := 2
	if c.Thorough() {
		bound = 3
	}
	c.Races(1, 15*time.Second)
	c.Schedules(bound)
}
