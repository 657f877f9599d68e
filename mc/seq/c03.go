package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

func init() {
	Register(&Check{ID: "C03", Level: "fault_enumeration", Run: runC03,
		Rule:        "case = (content, write call, which call of the code to its environment fails: look at the context, (de)serialisation, storage read, iterator move, write into the batch, commit; once or from then on); every environment call of the faultless run is made to fail in turn; non-trivial = distinct (call kind, environment call, position) outcome",
		Assumptions: []string{"a failed commit of the storage engine applies nothing"}})
}

// faulty wraps the world's table: same store, environment with faults.
func faulty[T any](w *world[T], f *Faults, buffered bool) bond.Table[T] {
	h := &HookDB{DB: w.env.DB, Before: func(op string) error {
		if op == "iter" {
			return nil
		}
		return f.Point(op)
	}}
	s := *w.s
	fs := FaultSerializer{S: w.s.Serializer, Point: f.Point}
	s.Serializer = &fs
	if buffered {
		s.Serializer = &FaultSerializerBuf{fs}
	}
	t, _ := s.NewTable(h)
	return t
}

func runC03(c *Ctx) {
	vals := []R{{A: 1, B: 1, P: true, S: "x"}, {A: 2, B: 1, S: "y"}}
	faultPart(c, "struct records", ShapeV, []int{0, 1}, vals, 2, false)
	faultPart(c, "pointer records, buffered serialiser", ShapeP, []int{3, 5}, vals, 2, true)
	faultPart(c, "no indexes", noIdx(ShapeS), []int{2, 3}, vals[:1], 3, false)
	realCommitFailure(c)
	bigFaults(c)
	if c.Thorough() {
		faultPart(c, "three keys", ShapeV, []int{0, 1, 5}, vals, 3, false)
	}
}

func faultPart[T any](c *Ctx, name string, mk func() *Shape[T], keys []int, vals []R, maxLen int, buffered bool) {
	c.Part(name, func() {
		ls := lists(rowsOver(keys, vals), maxLen)
		dls := lists(rowsOver(keys, vals[:1]), maxLen)
		each(c, mk, models(keys, vals), func(w *world[T], m Model) {
			for _, k := range allKinds {
				use := ls
				if k == opDelete {
					use = dls
				}
				for _, l := range use {
					o := op{k, l}
					if c.Stop() {
						return
					}
					if k >= opUnsafeInsert && !unsafeOK(m, o) {
						continue
					}
					n := 0
					c.Exec(name, func() any { return fmt.Sprint(m.Rows(), o, " without fault") }, func() error {
						f := &Faults{At: -1}
						w.set(m)
						t := faulty(w, f, buffered)
						err := implApplyCtx(NewFaultCtx(f), w.s, t, m, o)
						n = f.N
						return w.after(m, o, err, nil)
					})
					for at := 0; at < n; at++ {
						for _, persist := range []bool{false, true} {
							at, persist := at, persist
							var f *Faults
							c.Exec(name, func() any { return fmt.Sprint(m.Rows(), o, " fault at ", at, " ", f.Trace) }, func() error {
								f = &Faults{At: at, Persist: persist, Trace: []string{}}
								w.set(m)
								t := faulty(w, f, buffered)
								err := implApplyCtx(NewFaultCtx(f), w.s, t, m, o)
								if err := w.after(m, o, err, f); err != nil {
									return err
								}
								if err == nil {
									return nil
								}
								c.Outcome(fmt.Sprint(opNames[o.kind], at, f.Trace[at]))
								// once more without the fault
								err2 := implApply(w.s, w.t, m, o)
								return w.after(m, o, err2, nil)
							})
							c.AddEvals(1)
						}
					}
					c.AddEvals(1)
				}
			}
			c.Sample(map[string]any{"part": name, "content": fmt.Sprint(m.Rows()), "lists": len(ls)})
		})
	})
}

// after checks the store after a call that returned err, f is the fault.
func (w *world[T]) after(m Model, o op, err error, f *Faults) error {
	n, werr := refApply(m, o)
	got := w.dump()
	if f == nil && (err != nil) != (werr != nil) {
		return fmt.Errorf("%v on %v without fault: error %v, reference says %v", o, m.Rows(), err, werr)
	}
	if err != nil {
		if want := w.raw(m); !want.Equal(got) {
			return fmt.Errorf("%v on %v failed with %v and changed the database: %s", o, m.Rows(), err, Diff(want, got))
		}
		return nil
	}
	if f != nil && f.Fired {
		return fmt.Errorf("%v on %v: failure of %q (call %d) was not reported", o, m.Rows(), f.Trace[f.At], f.At)
	}
	if want := w.raw(n); !want.Equal(got) {
		return fmt.Errorf("%v on %v succeeded with wrong content: %s", o, m.Rows(), Diff(want, got))
	}
	return nil
}

// realCommitFailure: the storage engine itself refuses the commit.
func realCommitFailure(c *Ctx) {
	c.Part("commit refused by the storage engine", func() {
		s := ShapeV()
		env := c.NewEnvTwice(s.Serializer, func(o *bond.Options) { o.PebbleOptions.DisableWAL = true })
		defer func() { _ = env.Close() }()
		env.Max = 1 << 30
		w := &world[RowV]{c: c, s: s, env: env, enc: map[R]string{}, cur: State{}}
		w.t, w.idx = s.NewTable(env.DB)
		vals := []R{{A: 1, B: 1, P: true, S: "x"}, {A: 2, B: 1, S: "y"}}
		keys := []int{0, 1}
		for _, m := range models(keys, vals) {
			for _, k := range allKinds {
				for _, l := range lists(rowsOver(keys, vals), 2) {
					o := op{k, l}
					if len(l) == 0 || k >= opUnsafeInsert && !unsafeOK(m, o) || c.Stop() {
						continue
					}
					m := m
					c.Exec("commit refused", func() any { return fmt.Sprint(m.Rows(), o) }, func() error {
						w.set(m)
						err := implApply(w.s, w.t, m, o)
						if err == nil {
							return fmt.Errorf("%v on %v: commit failed but the call succeeded", o, m.Rows())
						}
						if want, got := w.raw(m), w.dump(); !want.Equal(got) {
							return fmt.Errorf("%v on %v failed with %v and changed the database: %s", o, m.Rows(), err, Diff(want, got))
						}
						c.Outcome(fmt.Sprint("refused", o.kind, len(m)))
						return nil
					})
					c.AddEvals(1)
				}
			}
		}
	})
}

// bigFaults: lists longer than the internal chunk, with a failure in the
// second chunk.
func bigFaults(c *Ctx) {
	c.Part("lists longer than a chunk", func() {
		const chunk = 5000
		type cs struct {
			kind opKind
			n    int
			how  string // why it fails by itself
		}
		var cases []cs
		for _, k := range allKinds {
			for _, n := range []int{chunk + 1, 2 * chunk} {
				cases = append(cases, cs{k, n, ""})
			}
			if k == opInsert || k == opUpdate {
				cases = append(cases, cs{k, chunk + 1, "last row"}, cs{k, 2*chunk + 1, "last row"}, cs{k, 2 * chunk, "first row"})
			}
		}
		c.Parallel(len(cases), func(_, i int) {
			k := cases[i]
			s := &Shape[*RowV]{}
			*s = *ShapeP()
			s.Serializer = ShapeV().Serializer
			env := c.NewEnv(s.Serializer, nil, nil)
			env.Max = 1 << 30
			defer func() { _ = env.Close() }()
			var rows []*RowV
			for j := 0; j < k.n; j++ {
				rows = append(rows, &RowV{ID: uint64(j), A: uint32(j % 3), B: 1, P: j%2 == 0, S: "n"})
			}
			base, _ := s.NewTable(env.DB)
			stored := k.kind != opInsert && k.kind != opUnsafeInsert
			old := make([]*RowV, len(rows))
			for j, r := range rows {
				o := *r
				o.S, o.A = "o", o.A+1
				old[j] = &o
			}
			pre := old
			if k.how != "" {
				switch {
				case k.kind == opInsert && k.how == "last row":
					pre = old[len(old)-1:]
				case k.kind == opInsert:
					pre = old[:1]
				case k.how == "last row":
					pre = old[:len(old)-1]
				default:
					pre = old[1:]
				}
			} else if !stored {
				pre = nil
			}
			if err := base.Upsert(bg, pre, bond.TableUpsertOnConflictReplace[*RowV]); err != nil {
				c.Violate("big", err.Error(), nil)
				return
			}
			before := env.Dump()
			run := func(ctx context.Context, t bond.Table[*RowV]) error {
				switch k.kind {
				case opInsert:
					return t.Insert(ctx, rows)
				case opUpdate:
					return t.Update(ctx, rows)
				case opUpsertReplace:
					return t.Upsert(ctx, rows, bond.TableUpsertOnConflictReplace[*RowV])
				case opUpsertMix:
					return t.Upsert(ctx, rows, func(o, n *RowV) *RowV { x := *n; x.B = o.B + 1; return &x })
				case opDelete:
					return t.Delete(ctx, old)
				case opUnsafeInsert:
					return t.(bond.TableUnsafeInserter[*RowV]).UnsafeInsert(ctx, rows)
				default:
					return t.(bond.TableUnsafeUpdater[*RowV]).UnsafeUpdate(ctx, rows, old)
				}
			}
			one := func(f *Faults) error {
				w := &world[*RowV]{s: s, env: env}
				return run(NewFaultCtx(f), faulty(w, f, false))
			}
			// positions: start, around the end of the first chunk, end
			dry := &Faults{At: 0, Persist: true}
			_ = dry
			var trace []string
			if k.how == "" {
				// a failing commit at the end gives the trace without effect
				f := &Faults{At: -1, Trace: []string{}}
				h := &HookDB{DB: env.DB, Before: func(op string) error {
					if op == "iter" {
						return nil
					}
					_ = f.Point(op)
					if op == "commit" {
						return ErrInjected
					}
					return nil
				}}
				sh := *s
				sh.Serializer = &FaultSerializer{S: s.Serializer, Point: f.Point}
				t, _ := sh.NewTable(h)
				c.Exec("chunks", func() any { return fmt.Sprintf("%+v commit fails", k) }, func() error {
					if err := run(NewFaultCtx(f), t); !errors.Is(err, ErrInjected) {
						return fmt.Errorf("%s of %d rows: failing commit gave %v", opNames[k.kind], k.n, err)
					}
					if got := env.Dump(); !got.Equal(before) {
						return fmt.Errorf("%s of %d rows: failing commit changed the database", opNames[k.kind], k.n)
					}
					return nil
				})
				trace = f.Trace
			}
			ats := map[int]bool{}
			if k.how != "" {
				ats[-1] = true
			}
			n := len(trace)
			for d := 0; d < 6 && d < n; d++ {
				ats[d] = true
				ats[n-1-d] = true
				for b := chunk; b < k.n; b += chunk {
					ats[n*b/k.n+d-3] = true
				}
			}
			for _, op := range []string{"ctx", "serialize", "deserialize", "set", "iter.move", "get", "delete"} {
				seen := 0
				for j, x := range trace {
					if x == op {
						seen++
						if seen == k.n || seen == chunk || seen == chunk+1 {
							ats[j] = true
						}
					}
				}
			}
			for at := range ats {
				if at >= n {
					continue
				}
				at := at
				c.Exec("chunks", func() any { return fmt.Sprintf("%+v fault at %d of %d", k, at, n) }, func() error {
					f := &Faults{At: at}
					err := one(f)
					if err == nil {
						return fmt.Errorf("%s of %d rows (%s), fault at %d of %d: no error", opNames[k.kind], k.n, k.how, at, n)
					}
					if got := env.Dump(); !got.Equal(before) {
						return fmt.Errorf("%s of %d rows (%s), fault at %d of %d: failed with %v and changed the database: %d entries instead of %d", opNames[k.kind], k.n, k.how, at, n, err, len(got), len(before))
					}
					c.Outcome(fmt.Sprint("big", k, at))
					return nil
				})
				c.AddEvals(1)
			}
			if k.how == "" {
				c.Exec("chunks", func() any { return fmt.Sprintf("%+v without fault", k) }, func() error {
					if err := one(&Faults{At: -1}); err != nil {
						return err
					}
					if got := env.Dump(); got.Equal(before) {
						return fmt.Errorf("%s of %d rows had no effect", opNames[k.kind], k.n)
					}
					return nil
				})
				c.AddEvals(1)
			}
		})
	})
}
