package main

import (
	"fmt"
	"path/filepath"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/bloom"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

// The other parts keep the content in the memory table of the storage engine.
// Here it is placed in its files: each key is absent, or stored or deleted in
// one or several of the bottom level, a younger file and the memory table, and
// the calls run on the engine with bond's default options (with their filters,
// compression and compactions) and on one with a block per entry.

type keyPlace int

const (
	absent keyPlace = iota
	inBottom
	inFile
	inMemory
	bottomThenMemory
	bottomDeletedInFile
	fileDeletedInMemory
	bottomDeletedThenMemory
	keyPlaces
)

var placeNames = []string{"absent", "in the bottom level", "in a file", "in memory", "in the bottom level, updated in memory", "in the bottom level, deleted in a file", "in a file, deleted in memory", "in the bottom level, deleted in a file, inserted in memory"}

func (p keyPlace) String() string { return placeNames[p] }

// stages are the values of the key after each stage, 0 for absent.
func (p keyPlace) stages() [3]int {
	switch p {
	case inBottom:
		return [3]int{1, 1, 1}
	case inFile:
		return [3]int{0, 1, 1}
	case inMemory:
		return [3]int{0, 0, 1}
	case bottomThenMemory:
		return [3]int{1, 1, 2}
	case bottomDeletedInFile:
		return [3]int{1, 0, 0}
	case fileDeletedInMemory:
		return [3]int{0, 1, 0}
	case bottomDeletedThenMemory:
		return [3]int{1, 0, 2}
	}
	return [3]int{}
}

var layoutEngines = []string{"default engine options", "one entry per block"}

// layoutOptions returns a function that makes the engine options; caches are
// shared between the databases of one worker.
func layoutOptions(engine int) func(o *bond.Options) {
	shared := bond.DefaultPebbleOptions()
	return func(o *bond.Options) {
		fs, logger := o.PebbleOptions.FS, o.PebbleOptions.Logger
		if engine == 0 {
			p := *shared
			p.Levels = append([]pebble.LevelOptions{}, shared.Levels...)
			o.PebbleOptions = &p
		} else {
			o.PebbleOptions.Levels = make([]pebble.LevelOptions, 7)
			for i := range o.PebbleOptions.Levels {
				l := &o.PebbleOptions.Levels[i]
				l.BlockSize, l.IndexBlockSize, l.TargetFileSize = 1, 1, 1
				l.FilterPolicy, l.FilterType = bloom.FilterPolicy(10), pebble.TableFilter
			}
		}
		o.PebbleOptions.FS, o.PebbleOptions.Logger = fs, logger
	}
}

type layoutStep struct {
	name string
	run  func(w *world[RowV], m Model) (Model, error)
}

// place makes a database with the keys placed.
func place(c *Ctx, w *world[RowV], opts func(o *bond.Options), places []keyPlace) (Model, error) {
	w.env = c.NewEnv(w.s.Serializer, opts, func(db bond.DB) {
		w.t, w.idx = w.s.NewTable(db)
	})
	m := Model{}
	for stage := 0; stage < 3; stage++ {
		var ins, upd, del []R
		for k, p := range places {
			st := p.stages()
			old, now := 0, st[stage]
			if stage > 0 {
				old = st[stage-1]
			}
			r := layoutRow(k, now)
			switch {
			case old == now:
			case old == 0:
				ins = append(ins, r)
				m[k] = r
			case now == 0:
				del = append(del, m[k])
				delete(m, k)
			default:
				upd = append(upd, r)
				m[k] = r
			}
		}
		if err := w.t.Insert(bg, w.s.Ts(ins)); err != nil {
			return nil, err
		}
		if err := w.t.Update(bg, w.s.Ts(upd)); err != nil {
			return nil, err
		}
		if err := w.t.Delete(bg, w.s.Ts(del)); err != nil {
			return nil, err
		}
		if stage < 2 {
			if err := w.env.DB.Backend().Flush(); err != nil {
				return nil, err
			}
		}
		if stage == 0 {
			if err := w.env.DB.Backend().Compact([]byte{0}, []byte{0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF}, false); err != nil {
				return nil, err
			}
		}
	}
	return m, nil
}

func layoutRow(k, v int) R {
	return R{K: k, A: (k + v) % 3, B: v, P: (k+v)%2 == 0, S: "x"}
}

// checkLayout compares rows, index entries and reads with the model.
func checkLayout(w *world[RowV], m Model, rowsOnly, indexesOnly bool) error {
	got := w.env.Dump()
	if want := w.raw(m); !rowsOnly && !indexesOnly && !want.Equal(got) {
		return fmt.Errorf("content %v: %s", m.Rows(), Diff(want, got))
	} else if rowsOnly && !dataOnly(want).Equal(dataOnly(got)) {
		return fmt.Errorf("content %v: %s", m.Rows(), Diff(dataOnly(want), dataOnly(got)))
	}
	if indexesOnly {
		if err := w.checkIndexes(got); err != nil {
			return err
		}
	} else if err := w.reads(m, []int{0, 1, 2, 3}, 2); err != nil {
		return err
	}
	if rowsOnly {
		return nil
	}
	for ii := range w.s.Specs {
		for a := 0; a < 3; a++ {
			q := qsel{ii, selPoint, []R{{A: a, B: 0}}}
			if err := w.checkQuery(m, qspec{sel: q}); err != nil {
				return fmt.Errorf("index %d: %w", ii, err)
			}
		}
	}
	return nil
}

// layouts runs every step from every placement.
func layouts(c *Ctx, name string, steps []layoutStep, rowsOnly, indexesOnly bool) {
	for engine := range layoutEngines {
		engine := engine
		c.Part(name+", content in files, "+layoutEngines[engine], func() {
			third := []keyPlace{absent, inBottom}[engine : engine+1]
			if c.Thorough() {
				third = nil
				for p := keyPlace(0); p < keyPlaces; p++ {
					third = append(third, p)
				}
			}
			var all [][]keyPlace
			for p := keyPlace(0); p < keyPlaces; p++ {
				for q := keyPlace(0); q < keyPlaces; q++ {
					for _, r := range third {
						all = append(all, []keyPlace{p, q, r})
					}
				}
			}
			opts := make([]func(o *bond.Options), 64)
			c.Parallel(len(all), func(wk, i int) {
				if opts[wk] == nil {
					opts[wk] = layoutOptions(engine)
				}
				for _, st := range steps {
					if c.Stop() {
						return
					}
					c.Exec(name+" in files", func() any { return fmt.Sprintf("%v: %s", all[i], st.name) }, func() error {
						return layoutExec(c, opts[wk], all[i], st, rowsOnly, indexesOnly)
					})
					c.AddTransitions(1)
					c.AddTraces(1)
				}
				c.AddStates(1)
			})
		})
	}
}

func layoutExec(c *Ctx, opts func(o *bond.Options), places []keyPlace, st layoutStep, rowsOnly, indexesOnly bool) (err error) {
	w := &world[RowV]{c: c, s: ShapeV(), enc: map[R]string{}}
	m, err := place(c, w, opts, places)
	defer func() {
		if cerr := w.env.Close(); err == nil && cerr != nil {
			err = fmt.Errorf("close: %v", cerr)
		}
	}()
	if err != nil {
		return fmt.Errorf("placing: %v", err)
	}
	n, err := st.run(w, m)
	if err != nil {
		return err
	}
	if err := checkLayout(w, n, rowsOnly, indexesOnly); err != nil {
		return fmt.Errorf("%s: %w", st.name, err)
	}
	if err := w.env.DB.Backend().Flush(); err != nil {
		return err
	}
	if err := checkLayout(w, n, rowsOnly, indexesOnly); err != nil {
		return fmt.Errorf("%s and flush: %w", st.name, err)
	}
	// the database's own compaction
	if err := w.env.DB.(interface{ Compact() error }).Compact(); err != nil {
		return err
	}
	if err := checkLayout(w, n, rowsOnly, indexesOnly); err != nil {
		return fmt.Errorf("%s and compaction: %w", st.name, err)
	}
	return nil
}

func layoutOp(o op) layoutStep {
	return layoutStep{o.String(), func(w *world[RowV], m Model) (Model, error) {
		if o.kind >= opUnsafeInsert && !unsafeOK(m, o) {
			return m, nil
		}
		n, werr := refApply(m, o)
		err := implApply(w.s, w.t, m, o)
		if (err != nil) != (werr != nil) {
			return nil, fmt.Errorf("%v on %v: error %v, reference says %v", o, m.Rows(), err, werr)
		}
		return n, nil
	}}
}

// layoutCalls are the table calls.
func layoutCalls() (out []layoutStep) {
	r := func(k, v int) R { return layoutRow(k, v) }
	for _, k := range allKinds {
		for _, l := range [][]R{{r(0, 0)}, {r(0, 2), r(1, 1)}, {r(2, 2), r(0, 0)}, {r(0, 1), r(3, 1), r(0, 2)}} {
			out = append(out, layoutOp(op{k, l}))
		}
	}
	return append(out, layoutStep{"nothing", func(w *world[RowV], m Model) (Model, error) { return m, nil }})
}

func layoutRebuilds() (out []layoutStep) {
	for i := 0; i < 4; i++ {
		i := i
		out = append(out, layoutStep{fmt.Sprint("rebuild index ", i), func(w *world[RowV], m Model) (Model, error) {
			// damaged before: an entry too many, in memory or in a file, and
			// one missing
			for f := 0; f < 2; f++ {
				x := R{K: 5, A: 1, B: f, P: true, S: "x"}
				if sp := w.s.Specs[i]; sp.In == nil || sp.In(x) {
					if err := w.env.DB.Set([]byte(w.s.IdxKey(sp, x)), []byte{}, bond.NoSync); err != nil {
						return nil, err
					}
				}
				if f == 0 {
					if err := w.env.DB.Backend().Flush(); err != nil {
						return nil, err
					}
				}
			}
			for _, x := range m {
				if sp := w.s.Specs[i]; sp.In == nil || sp.In(x) {
					if err := w.env.DB.Delete([]byte(w.s.IdxKey(sp, x)), bond.NoSync); err != nil {
						return nil, err
					}
					break
				}
			}
			return m, w.t.ReIndex(w.idx[i : i+1])
		}})
	}
	return append(out, layoutStep{"rebuild all indexes", func(w *world[RowV], m Model) (Model, error) { return m, w.t.ReIndex(w.idx) }})
}

// layoutRestores restore a dump of other rows over the placed ones.
func layoutRestores() (out []layoutStep) {
	for _, withIndex := range []bool{false, true} {
		withIndex := withIndex
		out = append(out, layoutStep{fmt.Sprint("dump, change, restore, indexes ", withIndex), func(w *world[RowV], m Model) (Model, error) {
			dir := filepath.Join(w.env.Dir, "dump")
			if err := w.env.DB.Dump(bg, dir, []bond.TableID{w.s.TableID}, withIndex); err != nil {
				return nil, fmt.Errorf("dump: %v", err)
			}
			env := w.c.NewEnv(w.s.Serializer, func(o *bond.Options) { o.PebbleOptions.FS = vfs.Default }, nil)
			if err := env.DB.Restore(bg, dir, []bond.TableID{w.s.TableID}, withIndex); err != nil {
				_ = env.Close()
				return nil, fmt.Errorf("restore: %v", err)
			}
			want, got := w.raw(m), env.Dump()
			if !withIndex {
				want = dataOnly(want)
			}
			if err := env.Close(); err != nil {
				return nil, err
			}
			if !want.Equal(got) {
				return nil, fmt.Errorf("restored: %s", Diff(want, got))
			}
			return m, nil
		}})
	}
	return out
}

// layoutQueries answers queries of one index.
func layoutQueries() (out []layoutStep) {
	keys := []int{0, 1, 2}
	for _, idx := range []int{-1, 0, 1, 2, 3} {
		idx := idx
		sels := qselectors(idx, keys, qvals, true)
		out = append(out, layoutStep{fmt.Sprint("queries of index ", idx), func(w *world[RowV], m Model) (Model, error) {
			for _, sel := range sels {
				for _, rev := range []bool{false, true} {
					for _, lim := range [][2]uint64{{0, 0}, {1, 1}} {
						if err := w.checkQuery(m, qspec{sel: sel, rev: rev, offset: lim[0], limit: lim[1]}); err != nil {
							return nil, err
						}
					}
				}
			}
			return m, nil
		}})
	}
	return out
}

// layoutReads answers selectors in every way.
func layoutReads() (out []layoutStep) {
	keys := []int{0, 1, 2}
	for _, idx := range []int{-1, 0, 1, 2, 3} {
		idx := idx
		sels := qselectors(idx, keys, qvals, true)
		out = append(out, layoutStep{fmt.Sprint("reads of index ", idx), func(w *world[RowV], m Model) (Model, error) {
			for _, sel := range sels {
				if err := w.readAll(m, sel); err != nil {
					return nil, err
				}
				if idx < 0 && sel.kind != selDefault {
					if err := w.getAll(m, sel); err != nil {
						return nil, err
					}
				}
			}
			return m, nil
		}})
	}
	return out
}

// layoutBatches make a call in a batch, read through it and commit it.
func layoutBatches() (out []layoutStep) {
	r := layoutRow
	for _, k := range []opKind{opInsert, opUpdate, opUpsertReplace, opDelete} {
		for _, l := range [][]R{{r(0, 0)}, {r(0, 2), r(1, 1)}, {r(2, 2), r(0, 0)}} {
			o := op{k, l}
			out = append(out, layoutStep{"batch with " + o.String(), func(w *world[RowV], m Model) (Model, error) {
				b := w.env.DB.Batch(bond.BatchTypeReadWrite)
				defer func() { _ = b.Close() }()
				n, werr := refApply(m, o)
				err := implApply(w.s, w.t, m, o, b)
				if (err != nil) != (werr != nil) {
					return nil, fmt.Errorf("%v on %v: error %v, reference says %v", o, m.Rows(), err, werr)
				}
				if err != nil {
					return m, nil
				}
				if err := w.views(n, []int{0, 1, 2}, nil, b); err != nil {
					return nil, fmt.Errorf("through the batch: %w", err)
				}
				if err := w.views(m, []int{0, 1, 2}, nil, nil); err != nil {
					return nil, fmt.Errorf("beside the batch: %w", err)
				}
				return n, b.Commit(bond.Sync)
			}})
		}
	}
	return out
}
