package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync/atomic"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

func init() {
	Register(&Check{ID: "C28", Level: "fault_enumeration", Run: runC28,
		Rule:        "case = (content, call, directly or through a batch, which call of the code to its environment fails, is cancelled, or none); after each case the number of open iterators, batches and value handles is compared with that before, the buffers are probed for being held twice by calls inside calls, and each database is closed and opened again",
		Assumptions: []string{"a failed commit of the storage engine applies nothing"}})
}

func runC28(c *Ctx) {
	models := []Model{baseModel, baseModel2}
	release(c, "struct records", ShapeV, models[:1], false)
	release(c, "pointer records, buffered serialiser", ShapeP, models, true)
	release(c, "string keys, prefetch", func() *Shape[*RowS] { s := ShapeS(); s.Prefetch = 2; return s }, models[1:], false)
	closing(c)
	dumping(c)
}

// nested is what another caller does inside of a call: every kind of scratch
// buffer is used for other rows.
func nested[T any](w *world[T]) error {
	s, t := w.s, w.t
	x := func(k, a int) R { return R{K: k, A: a, B: 1, P: true, S: "nested"} }
	if _, err := t.GetPoint(bg, s.To(R{K: 5})); !errors.Is(err, bond.ErrNotFound) {
		return fmt.Errorf("nested get: %v", err)
	}
	if err := t.Insert(bg, s.Ts([]R{x(5, 2), x(4, 2)})); err != nil {
		return fmt.Errorf("nested insert: %w", err)
	}
	if err := t.Upsert(bg, s.Ts([]R{x(4, 0), x(5, 0)}), bond.TableUpsertOnConflictReplace[T]); err != nil {
		return fmt.Errorf("nested upsert: %w", err)
	}
	got, err := t.Get(bg, bond.NewSelectorPoints(s.Ts([]R{{K: 5}, {K: 4}})...))
	if err != nil || !eqRows(s.Rs(got), []R{x(5, 0), x(4, 0)}) {
		return fmt.Errorf("nested get: %v %v", s.Rs(got), err)
	}
	var out []T
	if err := t.ScanIndex(bg, w.idx[0], bond.NewSelectorPoint(s.To(R{A: 0})), &out, false); err != nil || !eqRows(s.Rs(out), []R{x(4, 0), x(5, 0)}) {
		return fmt.Errorf("nested scan: %v %v", s.Rs(out), err)
	}
	if err := t.Delete(bg, s.Ts([]R{x(5, 0), x(4, 0)})); err != nil {
		return fmt.Errorf("nested delete: %w", err)
	}
	return nil
}

// probe runs a few calls with the nested calls inside of each of their steps
// and tells whether the bytes they had given away stayed theirs.
func probe[T any](w *world[T]) (err error) {
	w.set(Model{0: {K: 0, A: 1, B: 1, P: true, S: "x"}, 1: {K: 1, A: 1, B: 2, P: true, S: "x"}})
	in := false
	h := &HookDB{DB: w.env.DB, Poison: true}
	h.Before = func(string) error {
		if in || err != nil {
			return nil
		}
		in = true
		defer func() { in = false }()
		if e := nested(w); e != nil && err == nil {
			err = e
		}
		return nil
	}
	h.Args = func(op string, was, is []byte) {
		if err == nil {
			err = fmt.Errorf("a buffer is held twice: the argument of %s became %x, was %x", op, is, was)
		}
	}
	v := w.hooked(h, nil)
	x := func(k, a int) R { return R{K: k, A: a, B: 1, P: true, S: "x"} }
	s := w.s
	if e := v.t.Upsert(bg, s.Ts([]R{x(0, 2), x(2, 2), x(1, 2)}), bond.TableUpsertOnConflictReplace[T]); e != nil {
		return e
	}
	got, e := v.t.Get(bg, bond.NewSelectorPoints(s.Ts([]R{{K: 2}, {K: 0}, {K: 1}})...))
	if e != nil || !eqRows(s.Rs(got), []R{x(2, 2), x(0, 2), x(1, 2)}) {
		return fmt.Errorf("probe: got %v %v %v", s.Rs(got), e, err)
	}
	var out []T
	if e := v.t.ScanIndex(bg, v.idx[1], bond.NewSelectorPoint(s.To(R{A: 2, B: 9})), &out, false); e != nil || !eqRows(s.Rs(out), []R{x(0, 2), x(1, 2), x(2, 2)}) {
		return fmt.Errorf("probe: scan %v %v %v", s.Rs(out), e, err)
	}
	if e := v.t.Delete(bg, s.Ts([]R{x(1, 2), x(0, 2)})); e != nil {
		return e
	}
	if err != nil {
		return err
	}
	return s.Compare(Model{2: x(2, 2)}, w.dump())
}

func release[T any](c *Ctx, name string, mk func() *Shape[T], models []Model, buffered bool) {
	c.Part(name, func() {
		var cs []case24[T]
		for _, m := range models {
			for _, k := range catalogue[T]() {
				for md := direct; md <= inDirtyBatch; md++ {
					cs = append(cs, case24[T]{m, md, k})
				}
			}
			for _, k := range reindexCalls[T]() {
				cs = append(cs, case24[T]{m, direct, k})
			}
		}
		c.Parallel(len(cs), func(wk, i int) {
			x := cs[i]
			w := newWorld(c, mk())
			w.env.Max = 1 << 30
			if c.Exec(name, func() any { return fmt.Sprint(x.m.Rows(), x.k, x.md) }, func() error { return probe(w) }) {
				releaseCase(c, name, w, x, buffered)
				c.Exec(name, func() any { return fmt.Sprint("buffers after ", x.m.Rows(), x.k, x.md, " with every fault") }, func() error { w.dump(); return probe(w) })
			}
			c.Exec(name, func() any { return fmt.Sprint(x.m.Rows(), x.k, x.md, " close") }, func() error {
				n := 0
				w.env.DB.OnClose(func(bond.DB) { n++ })
				if err := w.env.Close(); err != nil {
					return fmt.Errorf("closing the database: %v", err)
				}
				if n != 1 {
					return fmt.Errorf("the close callback ran %d times", n)
				}
				return nil
			})
		})
	})
	c.Sample(map[string]any{"content": fmt.Sprint(models[0].Rows()), "call": "ForEach(a point 1, fail at 1)", "fault": "third environment call"})
}

func releaseCase[T any](c *Ctx, name string, w *world[T], x case24[T], buffered bool) {
	n := 0
	for at := -1; at < n && !c.Stop(); at++ {
		for _, persist := range []bool{false, true} {
			if at < 0 && persist {
				continue
			}
			at, persist := at, persist
			var f *Faults
			ok := c.Exec(name, func() any {
				t := "none"
				if at >= 0 && f != nil && at < len(f.Trace) {
					t = f.Trace[at]
				}
				return fmt.Sprint(x.m.Rows(), " ", x.k, " ", x.md, ", failed environment call ", at, " ", t)
			}, func() error {
				f = &Faults{At: -1, Trace: []string{}}
				h := &HookDB{DB: w.env.DB, Before: func(op string) error { return f.Point(op) }}
				fs := FaultSerializer{S: w.s.Serializer, Point: func(op string) error { return f.Point(op) }}
				var ser bond.Serializer[any] = &fs
				if buffered {
					ser = &FaultSerializerBuf{fs}
				}
				v := w.hooked(h, ser)
				r, err := rigFor(w, v, h, x.m, x.md, bg)
				if err != nil {
					return err
				}
				f = &Faults{At: at, Persist: persist, Trace: []string{}}
				r.ctx = NewFaultCtx(f)
				_, err = x.k.run(r)
				_ = err
				if n == 0 {
					n = f.N
				}
				f = &Faults{At: -1, Trace: f.Trace}
				want := int64(0)
				if x.md != direct {
					want = 1
				}
				if b := atomic.LoadInt64(&h.Batches); b != want {
					return fmt.Errorf("%d open batches, %d expected", b, want)
				}
				if x.md != direct {
					// it is still the caller's
					if err := r.b[0].Set([]byte{1, 0}, nil, bond.NoSync); err != nil {
						return fmt.Errorf("the batch can not be used any more: %v", err)
					}
					if err := r.b[0].Close(); err != nil {
						return fmt.Errorf("closing the batch: %v", err)
					}
				}
				if h.Iters != 0 || h.Closers != 0 || h.Batches != 0 {
					return fmt.Errorf("left open: %d iterators, %d value handles, %d batches", h.Iters, h.Closers, h.Batches)
				}
				w.dump()
				return nil
			})
			c.AddEvals(1)
			if ok {
				c.Outcome(fmt.Sprint(x.k, x.md, at))
			}
		}
	}
}

// closing: the database itself.
func closing(c *Ctx) {
	c.Part("closing and opening again", func() {
		for n := 0; n <= 3; n++ {
			for _, rounds := range []int{1, 3} {
				n, rounds := n, rounds
				c.Exec("closing", func() any { return fmt.Sprint(n, rounds) }, func() error {
					s := ShapeV()
					env := c.NewEnv(s.Serializer, nil, nil)
					db, fs := env.DB, env.FS
					for r := 0; r < rounds; r++ {
						t, _ := s.NewTable(db)
						if err := t.Insert(context.Background(), s.Ts([]R{{K: r}})); err != nil {
							return err
						}
						ran := make([]int, n)
						for i := 0; i < n; i++ {
							i := i
							db.OnClose(func(d bond.DB) {
								ran[i]++
								tt, _ := s.NewTable(d)
								if !tt.Exist(s.To(R{K: r})) {
									ran[i] += 100
								}
							})
						}
						if err := db.Close(); err != nil {
							return err
						}
						for i := range ran {
							if ran[i] != 1 {
								return fmt.Errorf("close callback %d of %d: %d", i, n, ran[i])
							}
						}
						var err error
						if db, err = bond.Open(env.Dir, &bond.Options{Serializer: s.Serializer, PebbleOptions: PebbleOptions(fs)}); err != nil {
							return fmt.Errorf("open again: %v", err)
						}
						m := Model{}
						for i := 0; i <= r; i++ {
							m[i] = R{K: i}
						}
						if err := s.Compare(m, RawDump(db.Backend(), env.Lo, env.Hi)); err != nil {
							return err
						}
					}
					env.DB = db
					return env.Close()
				})
				c.AddEvals(1)
			}
		}
	})
}

// dumping: dumps and restores that fail at each read, at each file or are
// cancelled leave nothing open.
func dumping(c *Ctx) {
	c.Part("failed dumps and restores", func() {
		s := ShapeV()
		open := func(st *failState) (*Env, bond.Table[RowV]) {
			env := c.NewEnv(s.Serializer, func(o *bond.Options) {
				o.PebbleOptions.FS = failFS{o.PebbleOptions.FS, st}
				o.PebbleOptions.Cache = pebble.NewCache(0)
			}, nil)
			t, _ := s.NewTable(env.DB)
			return env, t
		}
		ids := []bond.TableID{s.TableID}
		cancelled, cancel := context.WithCancel(bg)
		cancel()
		reads := int64(1)
		for at := int64(-1); at < reads && !c.Stop(); at++ {
			for _, persist := range []bool{false, true} {
				at, persist := at, persist
				c.Exec("dump", func() any { return fmt.Sprint("dump, failed read ", at, persist) }, func() error {
					st := &failState{}
					env, t := open(st)
					if err := t.Insert(bg, s.Ts(baseModel.Rows())); err != nil {
						return err
					}
					if err := env.DB.Backend().Flush(); err != nil {
						return err
					}
					st.n, st.at, st.persist, st.armed = 0, at, persist, true
					dir := filepath.Join(env.Dir, "dump")
					err := env.DB.Dump(bg, dir, ids, true)
					st.armed = false
					if at < 0 {
						reads = st.n
						if err != nil {
							return err
						}
						if err := env.DB.Dump(bg, filepath.Join(env.Dir, "no", "such"), nil, true); err == nil {
							return fmt.Errorf("a dump without tables succeeded")
						}
					}
					if err := env.DB.Backend().Close(); err != nil {
						return fmt.Errorf("closing after the dump: %v", err)
					}
					_ = os.RemoveAll(env.Dir)
					return nil
				})
				c.AddEvals(1)
			}
		}
		// restores with each file of the dump missing, cut or damaged
		src, t := open(&failState{})
		if err := t.Insert(bg, s.Ts(baseModel.Rows())); err != nil {
			panic(err)
		}
		dir := filepath.Join(src.Dir, "dump")
		if err := src.DB.Dump(bg, dir, ids, true); err != nil {
			panic(err)
		}
		var files []string
		_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
			if err == nil && !i.IsDir() {
				files = append(files, p)
			}
			return nil
		})
		sort.Strings(files)
		for _, f := range files {
			for _, how := range []string{"missing", "empty", "cut", "cancelled"} {
				f, how := f, how
				c.Exec("restore", func() any { return fmt.Sprint(filepath.Base(f), " ", how) }, func() error {
					was, err := os.ReadFile(f)
					if err != nil {
						return err
					}
					defer func() { _ = os.WriteFile(f, was, 0644) }()
					ctx := bg
					switch how {
					case "missing":
						err = os.Remove(f)
					case "empty":
						err = os.WriteFile(f, nil, 0644)
					case "cut":
						err = os.WriteFile(f, was[:len(was)/2], 0644)
					default:
						ctx = cancelled
					}
					if err != nil {
						return err
					}
					env, _ := open(&failState{})
					_ = env.DB.Restore(ctx, dir, ids, true)
					if err := env.Close(); err != nil {
						return fmt.Errorf("closing after the restore: %v", err)
					}
					return nil
				})
				c.AddEvals(1)
			}
		}
		if err := src.Close(); err != nil {
			c.Violate("dump", "closing the source: "+err.Error(), nil)
		}
	})
}
