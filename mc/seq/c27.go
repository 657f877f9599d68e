package main

import (
	"fmt"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

func init() {
	Register(&Check{ID: "C27", Level: "model_checking", Run: runC27,
		Rule: "(1) every call of the catalogue, without fault and with each environment call failing: arguments as given, up to the capacity of slices; (2) every pair of calls on a store whose buffers become garbage as soon as they may be reused: the first result stays as it was, and changing the arguments and results afterwards changes nothing stored; (3) every chain of query builders with every two queries derived from it: all three keep their meaning"})
}

func runC27(c *Ctx) {
	arguments(c, "arguments, struct records", ShapeV, []Model{baseModel, baseModel2})
	arguments(c, "arguments, pointer records", ShapeP, []Model{baseModel, baseModel2})
	arguments(c, "arguments, string keys", ShapeS, []Model{baseModel})
	results(c, "results, struct records", ShapeV, baseModel, nil)
	results(c, "results, pointer records", ShapeP, baseModel, scribbleP)
	results(c, "results, string keys, prefetch", func() *Shape[*RowS] { s := ShapeS(); s.Prefetch = 2; return s }, baseModel, scribbleS)
	derivations(c, "queries, struct records", ShapeV, 3)
	derivations(c, "queries, pointer records", ShapeP, 2)
	if c.Thorough() {
		derivations(c, "longer queries", ShapeP, 4)
		results(c, "results, struct records, other content", ShapeV, baseModel2, nil)
		results(c, "results, pointer records, other content", ShapeP, baseModel2, scribbleP)
	}
}

func scribbleP(t *RowV) {
	if t != nil {
		*t = RowV{ID: 99, A: 99, S: "scribble"}
	}
}

func scribbleS(t *RowS) {
	if t != nil {
		for k := range t.M {
			t.M[k] = "scribble"
		}
		*t = RowS{ID: "scribble", M: t.M}
	}
}

func arguments[T any](c *Ctx, name string, mk func() *Shape[T], models []Model) {
	c.Part(name, func() {
		var cs []case24[T]
		for _, m := range models {
			for _, k := range catalogue[T]() {
				for md := direct; md <= inDirtyBatch; md++ {
					cs = append(cs, case24[T]{m, md, k})
				}
			}
		}
		worlds := make([]*world[T], 64)
		c.Parallel(len(cs), func(wk, i int) {
			if worlds[wk] == nil {
				worlds[wk] = newWorld(c, mk())
			}
			w, x := worlds[wk], cs[i]
			n := 0
			for at := -1; at < n && !c.Stop(); at++ {
				at := at
				c.Exec(name, func() any { return fmt.Sprint(x.m.Rows(), x.k, x.md, " failed environment call ", at) }, func() error {
					f := &Faults{At: -1}
					h := &HookDB{DB: w.env.DB, Poison: true, Before: func(op string) error { return f.Point(op) }}
					v := w.hooked(h, &FaultSerializer{S: w.s.Serializer, Point: func(op string) error { return f.Point(op) }})
					r, err := rigFor(w, v, h, x.m, x.md, bg)
					if err != nil {
						return err
					}
					h.DB = w.env.DB
					f = &Faults{At: at}
					r.ctx = NewFaultCtx(f)
					_, _ = x.k.run(r)
					if at < 0 {
						n = f.N
					}
					f = &Faults{At: -1}
					if len(r.b) > 0 {
						_ = r.b[0].Close()
					}
					w.dump()
					return r.changed()
				})
				c.AddStates(1)
				c.AddTransitions(1)
			}
		})
		for _, w := range worlds {
			if w != nil {
				_ = w.env.Close()
			}
		}
	})
}

func results[T any](c *Ctx, name string, mk func() *Shape[T], m Model, scribble func(T)) {
	c.Part(name, func() {
		cat := catalogue[T]()
		worlds := make([]*world[T], 64)
		c.Parallel(len(cat), func(wk, i int) {
			if worlds[wk] == nil {
				worlds[wk] = newWorld(c, mk())
			}
			w := worlds[wk]
			var plain string
			for j := range cat {
				if c.Stop() {
					return
				}
				j := j
				c.Exec(name, func() any { return fmt.Sprint(m.Rows(), cat[i], " then ", cat[j]) }, func() error {
					h := &HookDB{DB: w.env.DB, Poison: true}
					r, err := rigFor(w, w, h, m, direct, bg)
					if err != nil {
						return err
					}
					if j == 0 {
						// what it is without garbage in the buffers
						res, err := cat[i].run(r)
						if plain = fmt.Sprint(err != nil); err == nil {
							plain = res()
						}
						w.dump()
						w.set(m)
					}
					h.DB = w.env.DB
					v := w.hooked(h, nil)
					r1 := &rig[T]{w: v, db: h, ctx: bg, m: m}
					res, err := cat[i].run(r1)
					was := fmt.Sprint(err != nil)
					if err == nil {
						was = res()
					}
					if was != plain {
						return fmt.Errorf("%s gave %s, with reused buffers %s", cat[i], plain, was)
					}
					after := m
					if cat[i].write {
						st := w.dump()
						if after, err = w.decode(st); err != nil {
							return err
						}
						// the caller goes on with its rows
						if scribble != nil {
							for _, l := range r1.rs {
								for _, t := range l {
									scribble(t)
								}
							}
						} else {
							for _, l := range r1.rs {
								for k := range l {
									l[k] = w.s.To(R{K: 5, A: 9})
								}
							}
						}
						if got := w.dump(); !got.Equal(st) {
							return fmt.Errorf("changing the rows after %s changed the database: %s", cat[i], Diff(st, got))
						}
					}
					r2 := &rig[T]{w: v, db: h, ctx: bg, m: after}
					_, _ = cat[j].run(r2)
					w.dump()
					if res != nil && err == nil && !cat[i].write {
						if is := res(); is != was {
							return fmt.Errorf("the result of %s became %s, was %s", cat[i], is, was)
						}
						return r1.changed()
					}
					return nil
				})
				c.AddStates(1)
				c.AddTransitions(2)
				c.AddTraces(1)
			}
		})
		for _, w := range worlds {
			if w != nil {
				_ = w.env.Close()
			}
		}
	})
}

type builder[T any] struct {
	name string
	f    func(w *world[T], q bond.Query[T]) bond.Query[T]
}

func builders[T any]() []builder[T] {
	less := func(w *world[T]) func(a, b T) bool {
		return func(a, b T) bool { return w.s.From(a).S < w.s.From(b).S }
	}
	return []builder[T]{
		{"with a=1", func(w *world[T], q bond.Query[T]) bond.Query[T] {
			return q.With(w.idx[0], bond.NewSelectorPoint(w.s.To(R{A: 1})))
		}},
		{"with b range", func(w *world[T], q bond.Query[T]) bond.Query[T] {
			return q.With(w.idx[3], bond.NewSelectorRange(w.s.To(R{B: 0}), w.s.To(R{K: 5, B: 1})))
		}},
		{"filter A>0", func(w *world[T], q bond.Query[T]) bond.Query[T] {
			return q.Filter(condFunc(func(t T) bool { return w.s.From(t).A > 0 }))
		}},
		{"filter P", func(w *world[T], q bond.Query[T]) bond.Query[T] {
			return q.Filter(condFunc(func(t T) bool { return w.s.From(t).P }))
		}},
		{"order", func(w *world[T], q bond.Query[T]) bond.Query[T] { return q.Order(less(w)) }},
		{"reverse", func(w *world[T], q bond.Query[T]) bond.Query[T] { return q.Reverse() }},
		{"offset 1", func(w *world[T], q bond.Query[T]) bond.Query[T] { return q.Offset(1) }},
		{"limit 2", func(w *world[T], q bond.Query[T]) bond.Query[T] { return q.Limit(2) }},
		{"after 0", func(w *world[T], q bond.Query[T]) bond.Query[T] {
			return q.After(w.s.To(baseModel2[0]))
		}},
		{"intersect p", func(w *world[T], q bond.Query[T]) bond.Query[T] {
			return q.Intersects(w.t.Query().With(w.idx[2], bond.NewSelectorPoint(w.s.To(R{A: 1}))))
		}},
		{"intersect two", func(w *world[T], q bond.Query[T]) bond.Query[T] {
			return q.Intersects(w.t.Query(), w.t.Query().With(w.idx[3], bond.NewSelectorPoint(w.s.To(R{B: 1}))))
		}},
	}
}

func derivations[T any](c *Ctx, name string, mk func() *Shape[T], depth int) {
	c.Part(name, func() {
		bs := builders[T]()
		var chains [][]int
		var rec func(ch []int)
		rec = func(ch []int) {
			chains = append(chains, append([]int{}, ch...))
			if len(ch) < depth {
				for i := range bs {
					rec(append(ch, i))
				}
			}
		}
		rec(nil)
		worlds := make([]*world[T], 64)
		c.Parallel(len(chains), func(wk, i int) {
			if worlds[wk] == nil {
				worlds[wk] = newWorld(c, mk())
				worlds[wk].set(baseModel2)
			}
			w := worlds[wk]
			exec := func(q bond.Query[T]) string {
				var ts []T
				if err := q.Execute(bg, &ts); err != nil {
					return "error " + err.Error()
				}
				return fmt.Sprint(w.s.Rs(ts))
			}
			names := func(ix ...int) string {
				s := "query"
				for _, k := range ix {
					s += ", " + bs[k].name
				}
				return s
			}
			fresh := func(ix ...int) bond.Query[T] {
				q := w.t.Query()
				for _, k := range ix {
					q = bs[k].f(w, q)
				}
				return q
			}
			ch := chains[i]
			want := exec(fresh(ch...))
			wants := make([]string, len(bs))
			for a := range bs {
				wants[a] = exec(fresh(append(ch[:len(ch):len(ch)], a)...))
			}
			for a := range bs {
				for b := range bs {
					if c.Stop() {
						return
					}
					a, b := a, b
					c.Exec(name, func() any { return names(ch...) + "; + " + bs[a].name + "; + " + bs[b].name }, func() error {
						for _, run := range []bool{false, true} {
							base := fresh(ch...)
							if run {
								exec(base)
							}
							qa := bs[a].f(w, base)
							if run {
								exec(qa)
							}
							qb := bs[b].f(w, base)
							for _, x := range []struct {
								q    bond.Query[T]
								want string
								name string
							}{{qb, wants[b], "the second derived query"}, {qa, wants[a], "the first derived query"}, {base, want, "the query derived from"}, {qb, wants[b], "the second derived query, again"}} {
								if got := exec(x.q); got != x.want {
									return fmt.Errorf("%s gives %s, on its own %s", x.name, got, x.want)
								}
							}
						}
						return nil
					})
					c.AddStates(1)
					c.AddTransitions(10)
				}
			}
		})
		for _, w := range worlds {
			if w != nil {
				_ = w.env.Close()
			}
		}
	})
	c.Sample([]string{"query", "with a=1", "intersect p", "+ intersect two", "+ limit 2"})
}
