package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

func init() {
	Register(&Check{ID: "C04", Quick: 80, Level: "model_checking", Run: runC04,
		Rule: "state = (database content, batch content, how the batch ended); transition = one real call through the batch, or its commit, close or reset; every call sequence up to the depth from every content; compared: answers of each call, all reads through and outside of the batch, raw database content before and after the end",
	})
}

func ops04(keys []int, vals []R, pairs bool) []op {
	rows := rowsOver(keys, vals)
	var out []op
	for _, k := range []opKind{opInsert, opUpdate, opUpsertReplace, opUpsertMix} {
		for _, r := range rows {
			out = append(out, op{k, []R{r}})
		}
	}
	for _, k := range keys {
		out = append(out, op{opDelete, []R{{K: k}}})
	}
	if pairs {
		a, b := rows[0], rows[len(rows)-1]
		for _, k := range []opKind{opInsert, opUpdate, opUpsertMix, opDelete} {
			out = append(out, op{k, []R{b, a}}, op{k, []R{a, a}})
		}
		out = append(out, op{opUpsertReplace, []R{}})
	}
	return out
}

// views compares all reads through b (nil: direct) with m.
func (w *world[T]) views(m Model, keys []int, sels []qsel, b bond.Batch) error {
	var bs []bond.Batch
	if b != nil {
		bs = []bond.Batch{b}
	}
	if err := w.reads(m, keys, 2, bs...); err != nil {
		return err
	}
	for i := range w.s.Specs {
		for _, a := range []int{0, 1, 2} {
			q := qsel{i, selPoint, []R{{A: a}}}
			if w.s.Specs[i].ID == 2 {
				q.rows[0].B = 2 // first in descending order
			}
			for _, rev := range []bool{false, true} {
				var out []T
				if err := w.t.ScanIndex(bg, w.idx[i], w.selector(q), &out, rev, bs...); err != nil {
					return fmt.Errorf("index scan %v: %v", q, err)
				}
				if want := w.refSelect(m, q, rev); !eqRows(w.s.Rs(out), want) {
					return fmt.Errorf("content %v: index scan %v reverse=%v gave %v, expected %v", m.Rows(), q, rev, w.s.Rs(out), want)
				}
			}
		}
	}
	if err := w.anyScans(m, bs...); err != nil {
		return err
	}
	for _, s := range sels {
		if err := w.checkQuery(m, qspec{sel: s}, bs...); err != nil {
			return err
		}
	}
	if len(sels) > 1 {
		if err := w.checkQuery(m, qspec{sel: sels[0], inter: sels[1:2]}, bs...); err != nil {
			return err
		}
	}
	return nil
}

type batchEnd int

const (
	endCommit batchEnd = iota
	endClose
	endReset
	endApply
	endOther
	ends
)

func runC04(c *Ctx) {
	keys := []int{0, 1}
	vals := []R{{A: 1, B: 1, P: true, S: "x"}, {A: 2, B: 1, S: "y"}}
	twoBatches(c)
	rawBatches(c)
	scanAndWrite(c)
	layouts(c, "batches", layoutBatches(), false, false)
	oneBatch(c, "one batch, struct records", ShapeV, keys, vals, ops04(keys, vals, true), 2)
	oneBatch(c, "one batch, one row", ShapeV, keys[:1], vals, ops04(keys[:1], vals, false), 3)
	oneBatch(c, "one batch, string keys", ShapeS, []int{2, 3}, vals, ops04([]int{2, 3}, vals, false), 2)
	oneBatch(c, "one batch, pointer records", ShapeP, []int{4, 5}, vals, ops04([]int{4, 5}, vals, false), 2)
	if c.Thorough() {
		oneBatch(c, "one batch, struct records", ShapeV, keys, vals, ops04(keys, vals, true), 3)
		k3 := []int{0, 1, 5}
		oneBatch(c, "one batch, three keys", ShapeV, k3, vals, ops04(k3, vals, true), 3)
		oneBatch(c, "one batch, one key", ShapeV, keys[:1], append(vals, R{A: 1, B: 2, S: "x"}), ops04(keys[:1], append(vals, R{A: 1, B: 2, S: "x"}), true), 4)
	}
}

func oneBatch[T any](c *Ctx, name string, mk func() *Shape[T], keys []int, vals []R, ops []op, depth int) {
	c.Part(fmt.Sprintf("%s, %d calls", name, depth), func() {
		sels := []qsel{{0, selRange, []R{{K: keys[0], A: 0}, {K: keys[len(keys)-1], A: 2}}}, {-1, selRange, []R{{K: keys[0]}, {K: keys[len(keys)-1]}}}}
		each(c, mk, models(keys, vals), func(w *world[T], base Model) {
			var rec func(seq []op, m Model)
			rec = func(seq []op, m Model) {
				if c.Stop() {
					return
				}
				c.AddStates(1)
				for e := batchEnd(0); e < ends; e++ {
					// the shorter sequences are ended in every way, the longest
					// ones committed only
					if len(seq) == depth && e != endCommit {
						continue
					}
					e := e
					c.Exec("one batch", func() any {
						return map[string]any{"content": fmt.Sprint(base.Rows()), "calls": fmt.Sprint(seq), "end": int(e)}
					},
						func() error { return w.batchRun(base, seq, e, keys, sels) })
					c.AddTransitions(len(seq) + 1)
					c.AddTraces(1)
				}
				if len(seq) == depth {
					return
				}
				for _, o := range ops {
					n, err := refApply(m, o)
					if err != nil && len(o.rows) > 1 {
						continue // the part of a failed list is not specified inside of a batch
					}
					rec(append(seq[:len(seq):len(seq)], o), n)
				}
			}
			rec(nil, base)
			c.Sample(map[string]any{"content": fmt.Sprint(base.Rows()), "one of the calls": ops[len(ops)-1].String()})
		})
	})
}

func (w *world[T]) batchRun(base Model, seq []op, e batchEnd, keys []int, sels []qsel) error {
	w.set(base)
	baseRaw := w.raw(base)
	b := w.env.DB.Batch(bond.BatchTypeReadWrite)
	closed := false
	defer func() {
		if !closed {
			_ = b.Close()
		}
	}()
	m := base
	for i, o := range seq {
		n, werr := refApply(m, o)
		err := implApply(w.s, w.t, m, o, b)
		if (err != nil) != (werr != nil) {
			return fmt.Errorf("call %d, %v: error %v, reference says %v", i, o, err, werr)
		}
		m = n
	}
	if err := w.views(m, keys, sels, b); err != nil {
		return fmt.Errorf("through the batch: %w", err)
	}
	if d := w.env.Dump(); !d.Equal(baseRaw) {
		return fmt.Errorf("database changed before commit: %s", Diff(baseRaw, d))
	}
	if err := w.views(base, keys, sels[:1], nil); err != nil {
		return fmt.Errorf("outside of the batch: %w", err)
	}
	ob := w.env.DB.Batch(bond.BatchTypeReadWrite)
	err := w.reads(base, keys, 1, ob)
	_ = ob.Close()
	if err != nil {
		return fmt.Errorf("through another batch: %w", err)
	}
	final := base
	switch e {
	case endCommit:
		if err := b.Commit(bond.Sync); err != nil {
			return err
		}
		final = m
	case endApply:
		if err := w.env.DB.Apply(b, bond.Sync); err != nil {
			return err
		}
		final = m
	case endClose:
	case endReset:
		b.Reset()
		if err := w.views(base, keys, sels, b); err != nil {
			return fmt.Errorf("through the batch after reset: %w", err)
		}
		if err := b.Commit(bond.Sync); err != nil {
			return err
		}
	case endOther:
		// into another batch, which is committed
		o := w.env.DB.Batch(bond.BatchTypeReadWrite)
		defer func() { _ = o.Close() }()
		if err := o.Apply(b, bond.Sync); err != nil {
			return err
		}
		if err := w.views(m, keys, sels[:1], o); err != nil {
			return fmt.Errorf("through the batch it was applied to: %w", err)
		}
		if d := w.env.Dump(); !d.Equal(baseRaw) {
			return fmt.Errorf("database changed before commit: %s", Diff(baseRaw, d))
		}
		if err := o.Commit(bond.Sync); err != nil {
			return err
		}
		final = m
	}
	closed = true
	if err := b.Close(); err != nil {
		return err
	}
	got := w.dump()
	if want := w.raw(final); !want.Equal(got) {
		if err := w.s.Compare(final, got); err != nil {
			return fmt.Errorf("after the end: %w", err)
		}
	}
	if err := w.views(final, keys, sels[:1], nil); err != nil {
		return fmt.Errorf("after the end: %w", err)
	}
	return nil
}

// twoBatches: two batches filled from the same content and applied in both
// orders.
func twoBatches(c *Ctx) {
	c.Part("two batches, both orders", func() {
		keys := []int{0, 1}
		vals := []R{{A: 1, B: 1, P: true, S: "x"}, {A: 2, B: 1, S: "y"}}
		ops := ops04(keys, vals, false)
		each(c, ShapeV, models(keys, vals), func(w *world[RowV], base Model) {
			for _, o1 := range ops {
				for _, o2 := range ops {
					m1, e1 := refApply(base, o1)
					m2, e2 := refApply(base, o2)
					if e1 != nil || e2 != nil || c.Stop() {
						continue
					}
					for v := 0; v < 8; v++ {
						v := v
						c.Exec("two batches", func() any { return fmt.Sprint(base.Rows(), o1, o2, v) }, func() error {
							w.set(base)
							types := []bond.BatchType{bond.BatchTypeReadWrite, bond.BatchTypeWriteOnly}
							b1, b2 := w.env.DB.Batch(types[v&1]), w.env.DB.Batch(types[v>>1&1])
							defer func() { _, _ = b1.Close(), b2.Close() }()
							if err := implApply(w.s, w.t, base, o1, b1); err != nil {
								return err
							}
							if err := implApply(w.s, w.t, base, o2, b2); err != nil {
								return fmt.Errorf("%v in the second batch: %v", o2, err)
							}
							if d := w.env.Dump(); !d.Equal(w.raw(base)) {
								return fmt.Errorf("database changed before commit")
							}
							k1, k2, ma, mb := o1.rows[0].K, o2.rows[0].K, m1, m2
							ba, bb := b1, b2
							if v>>2 == 1 {
								k1, k2, ma, mb, ba, bb = k2, k1, m2, m1, b2, b1
							}
							put := func(m Model, k int, from Model) Model {
								n := m.Clone()
								if r, ok := from[k]; ok {
									n[k] = r
								} else {
									delete(n, k)
								}
								return n
							}
							if err := ba.Commit(bond.Sync); err != nil {
								return err
							}
							first := put(base, k1, ma)
							if got := w.dump(); !dataOnly(got).Equal(dataOnly(w.raw(first))) {
								return fmt.Errorf("after the first commit: %s", Diff(dataOnly(w.raw(first)), dataOnly(got)))
							}
							if err := bb.Commit(bond.Sync); err != nil {
								return err
							}
							last := put(first, k2, mb)
							got := w.dump()
							if !dataOnly(got).Equal(dataOnly(w.raw(last))) {
								return fmt.Errorf("after the second commit: %s", Diff(dataOnly(w.raw(last)), dataOnly(got)))
							}
							if k1 != k2 && !got.Equal(w.raw(last)) {
								return fmt.Errorf("after the second commit: %s", Diff(w.raw(last), got))
							}
							return nil
						})
						c.AddStates(2)
						c.AddTransitions(4)
						c.AddTraces(1)
					}
				}
			}
		})
	})
}

// ---- key-value level ----

type kvop struct {
	kind int // 0 set, 1 delete, 2 delete range
	a, b int
	v    string
}

func (o kvop) String() string {
	return []string{"set", "delete", "deleterange"}[o.kind] + fmt.Sprint(o.a, o.b, o.v)
}

func (o kvop) apply(m map[int]string) map[int]string {
	n := map[int]string{}
	for k, v := range m {
		n[k] = v
	}
	switch o.kind {
	case 0:
		n[o.a] = o.v
	case 1:
		delete(n, o.a)
	case 2:
		for k := range n {
			if k >= o.a && k < o.b {
				delete(n, k)
			}
		}
	}
	return n
}

func rawBatches(c *Ctx) {
	var kb [][]byte
	for _, k := range []string{"", "a", "b", "c"} {
		kb = append(kb, bond.NewUserKey(k))
	}
	var kops []kvop
	for k := 1; k <= 2; k++ {
		for _, v := range []string{"1", "2", ""} {
			kops = append(kops, kvop{0, k, 0, v})
		}
		kops = append(kops, kvop{1, k, 0, ""})
	}
	for a := 0; a < 3; a++ {
		for b := a + 1; b < 4; b++ {
			kops = append(kops, kvop{2, a, b, ""})
		}
	}
	type rd interface {
		bond.Getter
		bond.Iterationer
	}
	check := func(what string, m map[int]string, r rd, b ...bond.Batch) error {
		var ks []int
		for k := range m {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for k := 0; k < 4; k++ {
			data, closer, err := r.Get(kb[k], b...)
			v, ok := m[k]
			if ok && (err != nil || string(data) != v) || !ok && !errors.Is(err, bond.ErrNotFound) && !errors.Is(err, pebble.ErrNotFound) {
				return fmt.Errorf("%s: Get(%d) of %v gave %q, %v", what, k, m, data, err)
			}
			if err == nil {
				if err := closer.Close(); err != nil {
					return err
				}
			}
		}
		for lo := 0; lo < 3; lo++ {
			for hi := lo + 1; hi <= 4; hi++ {
				upper := []byte{0xF0}
				if hi < 4 {
					upper = kb[hi]
				}
				var in []int
				for _, k := range ks {
					if k >= lo && k < hi {
						in = append(in, k)
					}
				}
				it := r.Iter(&bond.IterOptions{IterOptions: pebble.IterOptions{LowerBound: kb[lo], UpperBound: upper}}, b...)
				err := func() error {
					at := func(pos int, ok bool, call string) error {
						if ok != (pos >= 0 && pos < len(in)) || ok != it.Valid() {
							return fmt.Errorf("%s: %s in [%d,%d) of %v answered %v", what, call, lo, hi, m, ok)
						}
						if ok && (!bytes.Equal(it.Key(), kb[in[pos]]) || string(it.Value()) != m[in[pos]]) {
							return fmt.Errorf("%s: %s in [%d,%d) of %v is at %x = %q", what, call, lo, hi, m, it.Key(), it.Value())
						}
						return nil
					}
					pos := 0
					for ok := it.First(); ; ok = it.Next() {
						if err := at(pos, ok, "First/Next"); err != nil || !ok {
							if err != nil {
								return err
							}
							break
						}
						pos++
					}
					pos = len(in) - 1
					for ok := it.Last(); ; ok = it.Prev() {
						if err := at(pos, ok, "Last/Prev"); err != nil || !ok {
							if err != nil {
								return err
							}
							break
						}
						pos--
					}
					for s := lo; s < hi && s < 4; s++ {
						if err := at(sort.SearchInts(in, s), it.SeekGE(kb[s]), fmt.Sprint("SeekGE ", s)); err != nil {
							return err
						}
						if err := at(sort.SearchInts(in, s)-1, it.SeekLT(kb[s]), fmt.Sprint("SeekLT ", s)); err != nil {
							return err
						}
					}
					return it.Error()
				}()
				if cerr := it.Close(); err == nil {
					err = cerr
				}
				if err != nil {
					return err
				}
			}
		}
		return nil
	}
	c.Part("keys and values through a batch", func() {
		depth := 2
		if c.Thorough() {
			depth = 3
		}
		var bases []map[int]string
		for _, x := range []string{"-", "1", "2", ""} {
			for _, y := range []string{"-", "1", ""} {
				for _, z := range []string{"-", "1"} {
					m := map[int]string{}
					for i, v := range []string{x, y, z} {
						if v != "-" {
							m[i+1] = v
						}
					}
					bases = append(bases, m)
				}
			}
		}
		envs := make([]*Env, 64)
		c.Parallel(len(bases), func(wk, bi int) {
			if envs[wk] == nil {
				envs[wk] = c.NewEnv(nil, nil, nil)
				envs[wk].Max = 150
			}
			env := envs[wk]
			base := bases[bi]
			var rec func(seq []kvop)
			run := func(seq []kvop, v int) error {
				env.Use()
				db := env.DB
				for k := 1; k < 4; k++ {
					var err error
					if val, ok := base[k]; ok {
						err = db.Set(kb[k], []byte(val), bond.NoSync)
					} else {
						err = db.Delete(kb[k], bond.NoSync)
					}
					if err != nil {
						return err
					}
				}
				bt := bond.BatchTypeReadWrite
				if v&1 == 1 {
					bt = bond.BatchTypeWriteOnly
				}
				b := db.Batch(bt)
				defer func() { _ = b.Close() }()
				m := base
				for _, o := range seq {
					var err error
					viaDB := v&2 > 0
					switch o.kind {
					case 0:
						if viaDB {
							err = db.Set(kb[o.a], []byte(o.v), bond.Sync, b)
						} else {
							err = b.Set(kb[o.a], []byte(o.v), bond.Sync)
						}
					case 1:
						if viaDB {
							err = db.Delete(kb[o.a], bond.Sync, b)
						} else {
							err = b.Delete(kb[o.a], bond.Sync)
						}
					case 2:
						if viaDB {
							err = db.DeleteRange(kb[o.a], kb[o.b], bond.Sync, b)
						} else {
							err = b.DeleteRange(kb[o.a], kb[o.b], bond.Sync)
						}
					}
					if err != nil {
						return err
					}
					m = o.apply(m)
				}
				if bt == bond.BatchTypeReadWrite {
					if err := check("batch", m, b); err != nil {
						return err
					}
					if err := check("database with the batch", m, db, b); err != nil {
						return err
					}
				}
				if err := check("database before commit", base, db); err != nil {
					return err
				}
				if b.Empty() != (len(seq) == 0) {
					return fmt.Errorf("Empty() = %v after %d calls", b.Empty(), len(seq))
				}
				if err := b.Commit(bond.NoSync); err != nil {
					return err
				}
				return check("database after commit", m, db)
			}
			rec = func(seq []kvop) {
				for v := 0; v < 4; v++ {
					if c.Stop() {
						return
					}
					v := v
					c.Exec("keys and values", func() any { return fmt.Sprint(base, seq, v) }, func() error { return run(seq, v) })
					c.AddTransitions(len(seq) + 1)
					c.AddTraces(1)
				}
				c.AddStates(1)
				if len(seq) == depth {
					return
				}
				for _, o := range kops {
					rec(append(seq[:len(seq):len(seq)], o))
				}
			}
			rec(nil)
		})
		for _, e := range envs {
			if e != nil {
				_ = e.Close()
			}
		}
	})
}

// scanAndWrite: the callback of a scan changes the visited row through the
// batch it scans.
func scanAndWrite(c *Ctx) {
	c.Part("scans whose callback writes to the same batch", func() {
		keys := []int{0, 1, 2, 3}
		vals := []R{{A: 1, B: 1, P: true, S: "x"}, {A: 2, B: 1, S: "y"}}
		acts := []string{"delete", "update value", "update index", "upsert"}
		each(c, ShapeV, models(keys, vals), func(w *world[RowV], m Model) {
			for idx := -1; idx < len(w.s.Specs); idx++ {
				for _, rev := range []bool{false, true} {
					for ai, act := range acts {
						for _, half := range []bool{false, true} {
							if c.Stop() {
								return
							}
							idx, rev, ai, act, half := idx, rev, ai, act, half
							c.Exec("scan and write", func() any {
								return fmt.Sprint(m.Rows(), " index ", idx, " reverse ", rev, " ", act, " half in batch ", half)
							}, func() error {
								base := m
								if half {
									base = Model{}
									for k, r := range m {
										if k%2 == 0 {
											base[k] = r
										}
									}
								}
								b, err := w.overlay(base, m)
								defer func() { _ = b.Close() }()
								if err != nil {
									return err
								}
								want := m.Clone()
								var seen []R
								cb := func(key bond.KeyBytes, l bond.Lazy[RowV]) (bool, error) {
									t, err := l.Get()
									if err != nil {
										return false, err
									}
									r := w.s.From(t)
									seen = append(seen, r)
									if ai == 0 {
										delete(want, r.K)
										return true, w.t.Delete(bg, []RowV{t}, b)
									}
									n := r
									n.S = "z"
									if ai == 2 {
										n.A, n.P = 3-r.A, !r.P
									}
									want[r.K] = n
									if ai == 3 {
										return true, w.t.Upsert(bg, w.s.Ts([]R{n}), bond.TableUpsertOnConflictReplace[RowV], b)
									}
									return true, w.t.Update(bg, w.s.Ts([]R{n}), b)
								}
								q := qsel{idx, selRange, []R{{K: 0, B: 2}, {K: 5, A: 3}}}
								exp := w.refSelect(m, q, rev)
								if idx < 0 {
									err = w.t.ScanForEach(bg, cb, rev, b)
								} else {
									err = w.t.ScanIndexForEach(bg, w.idx[idx], w.selector(q), cb, rev, b)
								}
								if err != nil {
									return err
								}
								if !eqRows(seen, exp) {
									return fmt.Errorf("visited %v, expected %v", seen, exp)
								}
								if err := b.Commit(bond.Sync); err != nil {
									return err
								}
								return w.s.Compare(want, w.dump())
							})
							c.AddStates(1)
							c.AddTransitions(len(m) + 1)
						}
					}
				}
			}
		})
	})
}
