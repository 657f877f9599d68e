package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
	"github.com/go-bond/bond/serializers"
)

func init() {
	Register(&Check{ID: "C11", Level: "model_checking", Run: runC11,
		Rule: "state = (rows, which indexes existed when each row was written, damage of the stored index entries); transition = one real AddIndex or ReIndex; compared: raw content of the whole store with the entries the rows must have in the rebuilt indexes and nothing else changed; then calls and queries on the table"})
}

// subShape is the shape with a choice of its indexes.
func subShape[T any](s *Shape[T], ids []int) *Shape[T] {
	n := *s
	all, specs := s.Indexes, s.Specs
	n.Specs = nil
	for _, i := range ids {
		n.Specs = append(n.Specs, specs[i])
	}
	n.Indexes = func() []*bond.Index[T] {
		var out []*bond.Index[T]
		for _, i := range ids {
			out = append(out, all()[i])
		}
		return out
	}
	return &n
}

func subset(mask, n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if mask>>i&1 == 1 {
			out = append(out, i)
		}
	}
	return out
}

func rebuildPart[T any](c *Ctx, name string, mk func() *Shape[T], keys []int, vals []R) {
	c.Part(name, func() {
		dmg := []string{"none", "missing entries", "all gone", "foreign entries", "entries of another content"}
		each(c, mk, models(keys, vals), func(w *world[T], m Model) {
			n := len(w.s.Specs)
			full := w.raw(m)
			entriesOf := func(mm Model, ids []int) State {
				st := State{}
				ws := &world[T]{s: subShape(w.s, ids), enc: w.enc}
				for k, v := range ws.raw(mm) {
					if k[1] != 0 {
						st[k] = v
					}
				}
				return st
			}
			for before := 0; before < 1<<n; before++ {
				for rebuild := 1; rebuild < 1<<n; rebuild++ {
					// add = rebuild minus before; the rest is rebuilt again
					for d := range dmg {
						for _, call := range []string{"AddIndex", "ReIndex"} {
							if call == "AddIndex" && before&rebuild != 0 && d > 0 {
								continue // rejected, checked once
							}
							if c.Stop() {
								return
							}
							before, rebuild, d, call := before, rebuild, d, call
							c.Exec("rebuild", func() any {
								return fmt.Sprint(m.Rows(), " indexes ", before, " ", call, " ", rebuild, " ", dmg[d])
							}, func() error {
								w.env.Use()
								rb := subset(rebuild, n)
								start := dataOnly(full)
								keep := entriesOf(m, subset(before, n))
								for k, v := range keep {
									start[k] = v
								}
								// entries of the indexes to be rebuilt, damaged
								good := entriesOf(m, rb)
								switch d {
								case 1:
									i := 0
									for _, k := range good.Keys() {
										if i++; i%2 == 0 {
											delete(start, k)
										}
									}
								case 2:
									for k := range good {
										delete(start, k)
									}
								case 3:
									for _, i := range rb {
										sp := w.s.Specs[i]
										for _, k := range []string{string([]byte{byte(w.s.TableID), sp.ID, 0, 0, 0, 0}), string([]byte{byte(w.s.TableID), sp.ID, 0, 0, 0, 9, 1, 255}), string([]byte{byte(w.s.TableID), sp.ID}) + strings.Repeat("\xff", 3) + "\xfe"} {
											start[k] = "junk"
										}
									}
								case 4:
									o := Model{}
									for k, r := range m {
										r.A, r.B, r.P = 2-r.A, 2-r.B, !r.P
										o[k] = r
									}
									for k, v := range entriesOf(o, rb) {
										start[k] = v
									}
								}
								// neighbours that must not change
								for _, k := range []string{string([]byte{byte(w.s.TableID), 200, 0, 0, 0, 0, 1}), string([]byte{byte(w.s.TableID), 255, 0xFF, 0xFF}), string([]byte{byte(w.s.TableID) + 1, 0, 0, 0, 0, 0, 1}), string([]byte{byte(w.s.TableID) + 1, 1, 0, 0, 0, 0, 1})} {
									start[k] = "neighbour"
								}
								w.env.SetState(start)
								want := start.Clone()
								s := subShape(w.s, subset(before, n))
								t, _ := s.NewTable(w.env.DB)
								all := w.s.Indexes()
								var idxs []*bond.Index[T]
								for _, i := range rb {
									idxs = append(idxs, all[i])
								}
								var err error
								if call == "AddIndex" {
									err = t.AddIndex(idxs, true)
								} else {
									err = t.ReIndex(idxs)
								}
								rejected := call == "AddIndex" && before&rebuild != 0
								if (err != nil) != rejected {
									return fmt.Errorf("%s: %v", call, err)
								}
								if !rejected {
									for _, i := range rb {
										p := string([]byte{byte(w.s.TableID), w.s.Specs[i].ID})
										for k := range want {
											if strings.HasPrefix(k, p) {
												delete(want, k)
											}
										}
									}
									for k, v := range good {
										want[k] = v
									}
								}
								if got := w.dump(); !want.Equal(got) {
									return fmt.Errorf("%s: %s", call, Diff(want, got))
								}
								// the table knows exactly the indexes it should
								known := before
								if call == "AddIndex" && !rejected {
									known |= rebuild
								}
								var ids []string
								for _, i := range subset(known, n) {
									ids = append(ids, fmt.Sprint(w.s.Specs[i].ID))
								}
								var have []string
								for _, ii := range t.SecondaryIndexes() {
									have = append(have, fmt.Sprint(ii.ID()))
								}
								sort.Strings(have)
								sort.Strings(ids)
								if fmt.Sprint(have) != fmt.Sprint(ids) {
									return fmt.Errorf("%s: table has indexes %v, expected %v", call, have, ids)
								}
								if d > 0 {
									return nil
								}
								// the table stays usable: change a row
								r := R{K: keys[0], A: 2, B: 1, P: true, S: "x"}
								if err := t.Upsert(bg, w.s.Ts([]R{r}), bond.TableUpsertOnConflictReplace[T]); err != nil {
									return fmt.Errorf("after %s: %v", call, err)
								}
								old, had := m[r.K]
								oldM := Model{}
								if had {
									oldM[r.K] = old
								}
								for k := range entriesOf(oldM, subset(known, n)) {
									delete(want, k)
								}
								want[w.s.DataKey(r.K)] = w.s.Encode(r)
								for k, v := range entriesOf(Model{r.K: r}, subset(known, n)) {
									want[k] = v
								}
								if got := w.dump(); !want.Equal(got) {
									return fmt.Errorf("upsert after %s: %s", call, Diff(want, got))
								}
								return nil
							})
							c.AddStates(1)
							c.AddTransitions(1)
							c.AddTraces(1)
						}
					}
				}
			}
		})
	})
}

func runC11(c *Ctx) {
	vals := []R{{A: 1, B: 1, P: true, S: "x"}, {A: 2, B: 0, S: "y"}}
	rebuildPart(c, "struct records", ShapeV, []int{0, 5}, vals)
	rebuildPart(c, "string keys", ShapeS, []int{0, 7}, vals)
	bigRebuild(c)
	duplicates(c)
	layouts(c, "rebuilds", layoutRebuilds(), false, false)
	if c.Thorough() {
		rebuildPart(c, "pointer records, three rows", ShapeP, []int{0, 3, 5}, append(vals, R{A: 1, B: 2, S: "x"}))
	}
}

// bigRebuild drives the number of rows around the chunk of a rebuild.
func bigRebuild(c *Ctx) {
	c.Part("sizes around the chunk of a rebuild", func() {
		sizes := []int{1, 100, bond.ReindexBatchSize - 1, bond.ReindexBatchSize, bond.ReindexBatchSize + 1, 2*bond.ReindexBatchSize - 1, 2 * bond.ReindexBatchSize, 2*bond.ReindexBatchSize + 1}
		if c.Thorough() {
			sizes = append(sizes, 3*bond.ReindexBatchSize, 3*bond.ReindexBatchSize+1)
		}
		ids := [][]bond.IndexID{{1}, {255}, {1, 2}, {254, 255}}
		type cs struct {
			n, ids int
			ptr    bool
		}
		var cases []cs
		for i := len(sizes) - 1; i >= 0; i-- {
			for j := range ids {
				cases = append(cases, cs{sizes[i], j, j%2 == 0})
			}
		}
		c.ParallelN(6, len(cases), func(_, i int) {
			k := cases[i]
			c.Exec("sizes", func() any { return fmt.Sprintf("%+v indexes %v", k, ids[k.ids]) }, func() error {
				if k.ptr {
					return bigRebuildCase(c, k.n, ids[k.ids], func(r BigRow) *BigRow { return &r }, func(r *BigRow) BigRow { return *r })
				}
				return bigRebuildCase(c, k.n, ids[k.ids], func(r BigRow) BigRow { return r }, func(r BigRow) BigRow { return r })
			})
			c.AddStates(1)
			c.AddTransitions(1)
		})
	})
}

func bigRebuildCase[T any](c *Ctx, n int, ids []bond.IndexID, to func(BigRow) T, from func(T) BigRow) error {
	ser := &serializers.CBORSerializer{}
	env := c.NewEnv(ser, nil, nil)
	defer func() { _ = env.Close() }()
	t := bond.NewTable(bond.TableOptions[T]{DB: env.DB, TableID: 9, TableName: "big",
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r T) []byte { return b.AddUint64Field(from(r).ID).Bytes() }})
	var rows []T
	want := State{}
	for i := 0; i < n; i++ {
		r := BigRow{ID: uint64(i * 3), A: uint32(i % 7), V: 5}
		rows = append(rows, to(r))
		for x, id := range ids {
			if x == 0 || i%2 == 0 {
				want[string(RawKey(9, byte(id), new(Fields).U32(r.A).B, nil, new(Fields).U64(r.ID).B))] = ""
			}
		}
	}
	if err := t.Insert(bg, rows); err != nil {
		return err
	}
	data := env.Dump()
	var idxs []*bond.Index[T]
	for x, id := range ids {
		x := x
		idxs = append(idxs, bond.NewIndex(bond.IndexOptions[T]{IndexID: id, IndexName: fmt.Sprint("i", id),
			IndexKeyFunc:    func(b bond.KeyBuilder, r T) []byte { return b.AddUint32Field(from(r).A).Bytes() },
			IndexFilterFunc: func(r T) bool { return x == 0 || from(r).ID%2 == 0 }}))
	}
	for k, v := range data {
		want[k] = v
	}
	for pass := 0; pass < 2; pass++ {
		var err error
		if pass == 0 {
			err = t.AddIndex(idxs, true)
		} else {
			err = t.ReIndex(idxs)
		}
		if err != nil {
			return err
		}
		if got := env.Dump(); !want.Equal(got) {
			return fmt.Errorf("%d rows, pass %d: %d entries, expected %d: %s", n, pass, len(got), len(want), Diff(want, got))
		}
	}
	return nil
}

// duplicates: identifiers that are taken, alone and inside of lists.
func duplicates(c *Ctx) {
	c.Part("identifiers that are taken", func() {
		w := newWorld(c, ShapeV())
		defer func() { _ = w.env.Close() }()
		m := Model{0: {K: 0, A: 1, B: 1, P: true, S: "x"}, 1: {K: 1, A: 2, S: "y"}}
		idx := func(id int) *bond.Index[RowV] {
			return bond.NewIndex(bond.IndexOptions[RowV]{IndexID: bond.IndexID(id), IndexName: fmt.Sprint("new", id), IndexKeyFunc: func(b bond.KeyBuilder, t RowV) []byte { return b.AddUint32Field(t.B).Bytes() }})
		}
		ids := []int{0, 1, 3, 4, 5, 255}
		var ls [][]int
		for _, a := range ids {
			ls = append(ls, []int{a})
			for _, b := range ids {
				ls = append(ls, []int{a, b})
				for _, d := range ids {
					ls = append(ls, []int{a, b, d})
				}
			}
		}
		for _, l := range ls {
			for _, re := range []bool{false, true} {
				l, re := l, re
				c.Exec("taken identifier", func() any { return fmt.Sprint(l, re) }, func() error {
					w.set(m)
					t, _ := w.s.NewTable(w.env.DB)
					taken := map[int]bool{0: true, 1: true, 2: true, 3: true, 4: true}
					bad := false
					var idxs []*bond.Index[RowV]
					for _, id := range l {
						bad = bad || taken[id]
						taken[id] = true
						idxs = append(idxs, idx(id))
					}
					err := t.AddIndex(idxs, re)
					if (err != nil) != bad {
						return fmt.Errorf("AddIndex(%v, %v): %v", l, re, err)
					}
					want := w.raw(m)
					nb := 4
					if !bad {
						nb += len(l)
						if re {
							for _, id := range l {
								for _, r := range m {
									want[string(RawKey(byte(w.s.TableID), byte(id), new(Fields).U32(uint32(r.B)).B, nil, w.s.PK(r.K)))] = ""
								}
							}
						}
					}
					if got := w.dump(); !want.Equal(got) {
						return fmt.Errorf("AddIndex(%v, %v): %s", l, re, Diff(want, got))
					}
					if len(t.SecondaryIndexes()) != nb {
						return fmt.Errorf("AddIndex(%v, %v): table has %d indexes, expected %d", l, re, len(t.SecondaryIndexes()), nb)
					}
					if bad {
						// rejected, the table works as before, and the good part of
						// the list can be added later
						if err := t.Update(bg, []RowV{w.s.To(R{K: 0, A: 2, B: 2, S: "z"})}); err != nil {
							return err
						}
						n := m.Clone()
						n[0] = R{K: 0, A: 2, B: 2, S: "z"}
						if err := w.s.Compare(n, w.dump()); err != nil {
							return fmt.Errorf("update after rejected AddIndex(%v, %v): %v", l, re, err)
						}
					}
					return nil
				})
				c.AddStates(1)
				c.AddTransitions(1)
			}
		}
		c.Exec("rebuilding the primary index", nil, func() error {
			w.set(m)
			t, _ := w.s.NewTable(w.env.DB)
			err := t.ReIndex([]*bond.Index[RowV]{t.PrimaryIndex()})
			if got := w.dump(); !got.Equal(w.raw(m)) {
				return fmt.Errorf("ReIndex of the primary index (%v) changed the table: %s", err, Diff(w.raw(m), got))
			}
			return nil
		})
	})
}
