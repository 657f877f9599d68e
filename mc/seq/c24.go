package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

func init() {
	Register(&Check{ID: "C24", Level: "fault_enumeration", Run: runC24,
		Rule:        "case = (content, call, directly or through a batch, which read of the storage fails, once or from then on); every read the faultless run makes is failed in turn, at the level of bond's reads (get, iterator move) and at the level of the engine's file reads; compared: error, result, database content",
		Assumptions: []string{"the existence test returns no error and is left out", "the storage engine reports a failed file read through its own error returns"}})
}

func runC24(c *Ctx) {
	models := []Model{baseModel, baseModel2}
	readFaults(c, "struct records", ShapeV, models)
	readFaults(c, "pointer records, buffered serialiser", ShapeP, models)
	readFaults(c, "string keys, prefetch", func() *Shape[*RowS] { s := ShapeS(); s.Prefetch = 2; return s }, models[:1])
	fileFaults(c, "file reads, struct records", ShapeV, models)
	fileFaults(c, "file reads, pointer records", ShapeP, models)
	fileFaults(c, "file reads, string keys", func() *Shape[*RowS] { s := ShapeS(); s.Prefetch = 2; return s }, models)
}

type case24[T any] struct {
	m  Model
	md mode
	k  call[T]
}

func cases24[T any](models []Model) []case24[T] {
	var out []case24[T]
	for _, m := range models {
		for _, k := range catalogue[T]() {
			if k.silent {
				continue
			}
			for md := direct; md <= inDirtyBatch; md++ {
				out = append(out, case24[T]{m, md, k})
			}
		}
		for _, k := range reindexCalls[T]() {
			out = append(out, case24[T]{m, direct, k})
		}
	}
	return out
}

// outcome24 is what a call did.
type outcome24 struct {
	err    error
	res    string
	after  State // database
	inside State // batch, if any
}

func do24[T any](w *world[T], k call[T], r *rig[T]) outcome24 {
	res, err := k.run(r)
	o := outcome24{err: err}
	if err == nil {
		o.res = res()
	}
	return o
}

func judge24[T any](w *world[T], k call[T], base, o outcome24, fired bool, was State) error {
	if o.err == nil && fired {
		if k.write {
			return fmt.Errorf("%s succeeded although a read failed", k.name)
		}
		if o.res != base.res {
			return fmt.Errorf("%s succeeded although a read failed, with %s instead of %s", k.name, o.res, base.res)
		}
	}
	if o.err != nil {
		if errors.Is(o.err, bond.ErrNotFound) {
			return fmt.Errorf("%s: a failed read is reported as not found: %v", k.name, o.err)
		}
		if got := w.dump(); k.write && k.name[:5] != "ReInd" && !got.Equal(was) {
			return fmt.Errorf("%s failed and changed the database: %s", k.name, Diff(was, got))
		}
	}
	return nil
}

func readFaults[T any](c *Ctx, name string, mk func() *Shape[T], models []Model) {
	c.Part(name, func() {
		cs := cases24[T](models)
		worlds := make([]*world[T], 64)
		c.Parallel(len(cs), func(wk, i int) {
			if worlds[wk] == nil {
				worlds[wk] = newWorld(c, mk())
			}
			w, x := worlds[wk], cs[i]
			var f *Faults
			h := &HookDB{Before: func(op string) error {
				if op == "get" || op == "iter.move" {
					return f.Point(op)
				}
				return nil
			}}
			one := func(at int, persist bool) (outcome24, State, error) {
				f = &Faults{At: -1}
				h.DB = w.env.DB
				v := w.hooked(h, nil)
				r, err := rigFor(w, v, h, x.m, x.md, bg)
				if len(r.b) > 0 {
					defer func() { _ = r.b[0].Close() }()
				}
				if err != nil {
					return outcome24{}, nil, err
				}
				h.DB = w.env.DB
				was := w.cur
				f = &Faults{At: at, Persist: persist, Trace: []string{}}
				return do24(w, x.k, r), was, nil
			}
			var base outcome24
			n := 0
			if !c.Exec(name, func() any { return fmt.Sprint(x.m.Rows(), x.k, x.md, " without fault") }, func() error {
				o, _, err := one(-1, false)
				if err != nil {
					return err
				}
				base, n = o, f.N
				w.dump()
				return nil
			}) {
				return
			}
			for at := 0; at < n && !c.Stop(); at++ {
				for _, persist := range []bool{false, true} {
					at, persist := at, persist
					c.Exec(name, func() any { return fmt.Sprint(x.m.Rows(), x.k, x.md, " failed read ", at, " ", f.Trace) }, func() error {
						o, was, err := one(at, persist)
						if err != nil {
							return err
						}
						defer w.dump()
						c.Outcome(fmt.Sprint(x.k, x.md, at, o.err != nil))
						if base.err != nil && o.err == nil {
							return fmt.Errorf("%s succeeded because a read failed; it has to fail with %v", x.k, base.err)
						}
						return judge24(w, x.k, base, o, f.Fired, was)
					})
					c.AddEvals(1)
				}
			}
		})
		for _, w := range worlds {
			if w != nil {
				_ = w.env.Close()
			}
		}
	})
	c.Sample(map[string]any{"content": fmt.Sprint(baseModel.Rows()), "call": "Get(points 3 2 0 3)", "failed read": 2})
}

// failFS fails the at-th file read while armed.
type failFS struct {
	vfs.FS
	s *failState
}

type failState struct {
	armed, persist bool
	at, n          int64
	fired          bool
}

func (s *failState) point() error {
	if !s.armed {
		return nil
	}
	i := atomic.AddInt64(&s.n, 1) - 1
	if s.at >= 0 && (i == s.at || s.persist && i > s.at) {
		s.fired = true
		return ErrInjected
	}
	return nil
}

func (f failFS) Open(name string, opts ...vfs.OpenOption) (vfs.File, error) {
	x, err := f.FS.Open(name)
	if err != nil {
		return nil, err
	}
	return failFile{x, f.s}, nil
}

type failFile struct {
	vfs.File
	s *failState
}

func (f failFile) ReadAt(p []byte, off int64) (int, error) {
	if err := f.s.point(); err != nil {
		return 0, err
	}
	return f.File.ReadAt(p, off)
}

func (f failFile) Read(p []byte) (int, error) {
	if err := f.s.point(); err != nil {
		return 0, err
	}
	return f.File.Read(p)
}

func fileFaults[T any](c *Ctx, name string, mk func() *Shape[T], models []Model) {
	dump := call[T]{name: "Dump"}
	c.Part(name, func() {
		cs := cases24[T](models)
		cs = append(cs, case24[T]{models[0], direct, dump})
		worlds := make([]*world[T], 64)
		states := make([]*failState, 64)
		c.Parallel(len(cs), func(wk, i int) {
			if worlds[wk] == nil {
				st := &failState{}
				states[wk] = st
				w := &world[T]{c: c, s: mk(), enc: map[R]string{}}
				w.env = c.NewEnv(w.s.Serializer, func(o *bond.Options) {
					o.PebbleOptions.FS = failFS{o.PebbleOptions.FS, st}
					o.PebbleOptions.Cache = pebble.NewCache(0)
					o.PebbleOptions.L0StopWritesThreshold = 1000
				}, func(db bond.DB) {
					w.t, w.idx = w.s.NewTable(db)
					w.cur = State{}
				})
				w.env.Max = 1 << 30
				worlds[wk] = w
			}
			w, st, x := worlds[wk], states[wk], cs[i]
			// stored in two files
			flushed := func() error {
				w.set(x.m)
				if err := w.env.DB.Backend().Flush(); err != nil {
					return err
				}
				return nil
			}
			var lastWas State
			one := func(at int64, persist bool) (o outcome24, err error) {
				st.armed = false
				if lastWas == nil || !w.dump().Equal(lastWas) {
					half := Model{0: x.m[0]}
					w.set(half)
					if err := w.env.DB.Backend().Flush(); err != nil {
						return o, err
					}
					if err := flushed(); err != nil {
						return o, err
					}
					lastWas = w.cur.Clone()
				}
				r := &rig[T]{w: w, db: w.env.DB, ctx: bg, m: x.m}
				if x.md != direct {
					h := &HookDB{DB: w.env.DB}
					if r, err = rigFor(w, w, h, x.m, x.md, bg); len(r.b) > 0 {
						defer func() { _ = r.b[0].Close() }()
						r.b[0] = Unhook(r.b[0])
					}
					if err != nil {
						return o, err
					}
				}
				st.n, st.at, st.persist, st.fired, st.armed = 0, at, persist, false, true
				defer func() { st.armed = false }()
				if x.k.name == "Dump" {
					dir := filepath.Join(w.env.Dir, "dump")
					_ = os.RemoveAll(dir)
					o.err = w.env.DB.Dump(bg, dir, []bond.TableID{w.s.TableID}, true)
					return o, nil
				}
				return do24(w, x.k, r), nil
			}
			var base outcome24
			var n int64
			if !c.Exec(name, func() any { return fmt.Sprint(x.m.Rows(), x.k, x.md, " without fault") }, func() error {
				var err error
				base, err = one(-1, false)
				n = st.n
				w.dump()
				return err
			}) {
				return
			}
			for at := int64(0); at < n && !c.Stop(); at++ {
				for _, persist := range []bool{false, true} {
					at, persist := at, persist
					c.Exec(name, func() any { return fmt.Sprint(x.m.Rows(), x.k, x.md, " failed file read ", at) }, func() error {
						o, err := one(at, persist)
						if err != nil {
							return err
						}
						w.dump()
						if base.err != nil && o.err == nil {
							return fmt.Errorf("%s succeeded because a read failed; it has to fail with %v", x.k, base.err)
						}
						if x.k.name == "Dump" {
							if o.err == nil && st.fired {
								return fmt.Errorf("the dump succeeded although a read failed")
							}
							return nil
						}
						c.Outcome(fmt.Sprint(x.k, x.md, at, o.err != nil))
						return judge24(w, x.k, base, o, st.fired, lastWas)
					})
					c.AddEvals(1)
				}
			}
			lastWas = nil
			// the next case starts without the files of this one
			_ = w.env.Close()
			worlds[wk] = nil
		})
		for _, w := range worlds {
			if w != nil {
				_ = w.env.Close()
			}
		}
	})
}
