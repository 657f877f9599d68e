package main

import (
	"context"
	"errors"
	"fmt"
	"math"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

func init() {
	asm := []string{"queries have no side effects on the content (checked for the raw content after each content's queries)",
		"rows the order function does not distinguish may come in any order"}
	Register(&Check{ID: "C05", Level: "model_checking", Run: runC05, Assumptions: asm,
		Rule: "state = table content (optionally split between database and open batch); transition = one query; compared with a list interpreter"})
	Register(&Check{ID: "C06", Quick: 90, Level: "model_checking", Run: runC06,
		Rule: "state = content, query, last page; transition = one page; the pages concatenated are compared with the unpaged reference list"})
	Register(&Check{ID: "C07", Quick: 80, Level: "model_checking", Run: runC07, Assumptions: asm,
		Rule: "state = table content; transition = one intersection query; compared with a list interpreter"})
}

// zvals with key 0 make the zero record, which selectors start from and which
// queries hold in unset fields.
var zvals = []R{{}, {A: 1, P: true, S: "x"}, {B: 1, P: true, S: "x"}}

func zeroSelectors() (out []qsel) {
	for _, k := range []int{0, 1} {
		for _, a := range []int{0, 1} {
			for i := -1; i < 4; i++ {
				r := R{K: k, A: a}
				out = append(out, qsel{i, selPoint, []R{r}}, qsel{i, selRange, []R{{}, r}}, qsel{i, selPoints, []R{r, {K: 1 - k, A: 1 - a}}}, qsel{i, selRanges, []R{r, r, {K: 1 - k}, {K: 1 - k}}})
			}
		}
	}
	return append(out, qsel{-1, selDefault, nil}, qsel{1, selPoint, []R{{B: math.MaxUint32}}})
}

// disjoint leaves out the selectors whose parts share rows: a page cannot
// tell one copy of a row from another. Points of the last index have the
// same key part.
func disjoint(sels []qsel) (out []qsel) {
	for _, s := range sels {
		if s.idx < 3 || s.kind == selPoint || s.kind == selRange {
			out = append(out, s)
		}
	}
	return out
}

var qvals = []R{{A: 1, B: 1, P: true, S: "x"}, {A: 1, B: 2, S: "x"}, {A: 2, B: 1, P: true, S: "x"}}

// qselectors enumerates selectors of one index; rows are the values in use.
func qselectors(idx int, keys []int, vals []R, multi bool) []qsel {
	var out []qsel
	if idx < 0 {
		out = append(out, qsel{-1, selDefault, nil})
	}
	k0, k1, kl := keys[0], keys[1], keys[len(keys)-1]
	zero := R{K: k0}
	start := func(a, b int) R { return R{K: k0, A: a, B: b} }
	switch idx {
	case -1:
		out = append(out, qsel{idx, selPoint, []R{{K: k1}}}, qsel{idx, selPoint, []R{zero}},
			qsel{idx, selRange, []R{{K: k0}, {K: k1}}}, qsel{idx, selRange, []R{{K: k1}, {K: kl}}}, qsel{idx, selRange, []R{{K: kl}, {K: k0}}})
		if multi {
			out = append(out, qsel{idx, selPoints, []R{{K: k1}, {K: k0}}}, qsel{idx, selPoints, []R{{K: k0}, {K: kl}}},
				qsel{idx, selRanges, []R{{K: kl}, {K: kl}, {K: k0}, {K: k1}}},
				qsel{idx, selPoints, []R{{K: k0}, {K: k1}, {K: kl}}}, qsel{idx, selPoints, []R{{K: kl}, {K: 4}, {K: k1}, {K: k0}}},
				qsel{idx, selRanges, []R{{K: k0}, {K: k0}, {K: k1}, {K: k1}, {K: kl}, {K: kl}}})
		}
	case 0, 2: // by A
		for _, a := range []int{0, 1, 2} {
			out = append(out, qsel{idx, selPoint, []R{start(a, 0)}})
		}
		out = append(out, qsel{idx, selPoint, []R{{K: k1, A: 1}}},
			qsel{idx, selRange, []R{start(1, 0), {K: kl, A: 2}}}, qsel{idx, selRange, []R{{K: k1, A: 1}, {K: k1, A: 2}}})
		if multi {
			out = append(out, qsel{idx, selPoints, []R{start(2, 0), start(1, 0)}}, qsel{idx, selPoints, []R{start(0, 0), {K: k1, A: 1}}},
				qsel{idx, selRanges, []R{start(1, 0), {K: k1, A: 1}, start(2, 0), {K: kl, A: 2}}},
				qsel{idx, selPoints, []R{start(1, 0), start(3, 0), start(4, 0), start(2, 0)}}, qsel{idx, selPoints, []R{start(3, 0), start(2, 0), start(0, 0)}},
				qsel{idx, selRanges, []R{start(1, 0), {K: k0, A: 1}, {K: k1, A: 1}, {K: k1, A: 1}, {K: kl, A: 1}, {K: kl, A: 2}}})
		}
	case 1: // by A, order B desc: the largest B comes first
		for _, a := range []int{1, 2} {
			out = append(out, qsel{idx, selPoint, []R{start(a, math.MaxUint32)}})
		}
		out = append(out, qsel{idx, selPoint, []R{{K: k1, A: 1, B: 2}}}, qsel{idx, selPoint, []R{{K: k0, A: 1, B: 1}}},
			qsel{idx, selRange, []R{{K: k0, A: 1, B: 2}, {K: kl, A: 1, B: 2}}}, qsel{idx, selRange, []R{{K: k1, A: 1, B: 2}, {K: k0, A: 2, B: 0}}})
		if multi {
			out = append(out, qsel{idx, selPoints, []R{start(1, math.MaxUint32), start(2, math.MaxUint32)}},
				qsel{idx, selRanges, []R{start(2, math.MaxUint32), {K: kl, A: 2, B: 0}, start(1, math.MaxUint32), {K: kl, A: 1, B: 2}}},
				qsel{idx, selPoints, []R{start(2, math.MaxUint32), start(3, math.MaxUint32), start(1, math.MaxUint32)}})
		}
	case 3: // all rows by B
		out = append(out, qsel{idx, selPoint, []R{zero}}, qsel{idx, selPoint, []R{{K: k1, B: 1}}},
			qsel{idx, selRange, []R{{K: k1, B: 1}, {K: k1, B: 2}}})
		if multi {
			out = append(out, qsel{idx, selRanges, []R{{K: k0, B: 2}, {K: kl, B: 2}, {K: k0, B: 1}, {K: kl, B: 1}}})
		}
	}
	return out
}

func allSelectors(keys []int, multi bool) []qsel {
	var out []qsel
	for i := -1; i < 4; i++ {
		out = append(out, qselectors(i, keys, qvals, multi)...)
	}
	return out
}

func queriesPart[T any](c *Ctx, name string, mk func() *Shape[T], keys []int, vals []R, offs, lims []uint64, sels []qsel) {
	c.Part(name, func() {
		ms := models(keys, vals)
		each(c, mk, ms, func(w *world[T], m Model) {
			c.AddStates(1)
			w.set(m)
			for _, s := range sels {
				for _, f := range qfilters {
					for _, o := range qorders {
						for _, rev := range []bool{false, true} {
							for _, off := range offs {
								for _, lim := range lims {
									q := qspec{sel: s, filter: f, order: o, rev: rev, offset: off, limit: lim}
									if c.Stop() {
										return
									}
									if !c.Exec(fmt.Sprintf("%s/%d", name, s.kind), func() any { return q.String() }, func() error { return w.checkQuery(m, q) }) {
										return
									}
									c.AddTransitions(1)
									c.AddTraces(1)
								}
							}
						}
					}
				}
			}
			c.Exec(name+"/unchanged", nil, func() error {
				if d := w.dump(); !d.Equal(w.raw(m)) {
					return fmt.Errorf("queries changed the content: %s", Diff(w.raw(m), d))
				}
				return nil
			})
			c.Outcome(m.Canon())
		})
		c.Sample(map[string]any{"part": name, "contents": len(ms), "selectors": len(sels)})
	})
}

// batchQueries runs queries through a batch holding part of the content.
func batchQueries[T any](c *Ctx, name string, mk func() *Shape[T], keys []int, vals []R, sels []qsel, inter bool) {
	c.Part(name, func() {
		ms := models(keys, vals)
		type pair struct{ base, m Model }
		var ps []pair
		for _, m := range ms {
			full := Model{}
			for i, k := range keys {
				v := vals[(i+1)%len(vals)]
				v.K = k
				full[k] = v
			}
			half := m.Clone()
			delete(half, keys[0])
			ps = append(ps, pair{Model{}, m}, pair{full, m}, pair{half, m})
		}
		worlds := make([]*world[T], 64)
		c.Parallel(len(ps), func(wk, i int) {
			if worlds[wk] == nil {
				worlds[wk] = newWorld(c, mk())
			}
			w, p := worlds[wk], ps[i]
			c.AddStates(1)
			c.Exec(name+"/batch", func() any { return fmt.Sprint("database ", p.base.Rows(), " batch makes it ", p.m.Rows()) }, func() error {
				b, err := w.overlay(p.base, p.m)
				defer b.Close()
				if err != nil {
					return err
				}
				for si, s := range sels {
					for _, f := range qfilters[:3] {
						for _, rev := range []bool{false, true} {
							for _, lim := range []uint64{0, 1} {
								q := qspec{sel: s, filter: f, rev: rev, offset: lim, limit: lim}
								if inter {
									q.inter = []qsel{sels[(si+5)%len(sels)]}
								}
								if err := w.checkQuery(p.m, q, b); err != nil {
									return fmt.Errorf("through a batch over %v: %w", p.base.Rows(), err)
								}
								// without the batch: the database as it was
								if err := w.checkQuery(p.base, q); err != nil {
									return fmt.Errorf("beside a batch: %w", err)
								}
								c.AddTransitions(2)
								c.AddTraces(2)
							}
						}
					}
				}
				return nil
			})
		})
		for _, w := range worlds {
			if w != nil {
				_ = w.env.Close()
			}
		}
	})
}

func runC05(c *Ctx) {
	keys := []int{0, 1, 5}
	big := uint64(math.MaxUint64)
	queriesPart(c, "struct-json", ShapeV, keys, qvals, []uint64{0, 1, 2, 4, big}, []uint64{0, 1, 2, 3, big}, allSelectors(keys, true))
	queriesPart(c, "ptr-cbor", ShapeP, keys[:2], qvals, []uint64{0, 1, 3}, []uint64{0, 1, 3}, allSelectors(keys, true))
	queriesPart(c, "string-keys", func() *Shape[*RowS] { s := ShapeS(); s.Prefetch = 2; return s }, []int{2, 3, 4, 7}, qvals[:2], []uint64{0, 1, 2}, []uint64{0, 1, 3}, stringSelectors())
	queriesPart(c, "zero values", ShapeV, []int{0, 1}, zvals, []uint64{0, 1}, []uint64{0, 1}, zeroSelectors())
	queriesPart(c, "zero values, pointers", ShapeP, []int{0, 1}, zvals, []uint64{0, 1}, []uint64{0, 1}, zeroSelectors())
	batchQueries(c, "through-batch", ShapeV, keys, qvals, allSelectors(keys, true), false)
	cancelledQueries(c, "cancelled", allSelectors(keys, true), [][]qsel{nil})
	prefetchQueries(c)
	layouts(c, "queries", layoutQueries(), false, false)
	if c.Thorough() {
		keys := []int{0, 1, 3, 5}
		queriesPart(c, "struct-json-4keys", ShapeV, keys, qvals, []uint64{0, 1, 3}, []uint64{0, 1, 3}, allSelectors(keys, true))
		batchQueries(c, "through-batch-string", ShapeS, []int{2, 3, 4, 7}, qvals[:2], stringSelectors(), false)
	}
}

// stringSelectors avoids the index with descending order of unsigned bounds.
func stringSelectors() []qsel {
	keys := []int{2, 3, 7}
	var out []qsel
	for _, i := range []int{-1, 0, 2} {
		for _, s := range qselectors(i, keys, qvals, true) {
			out = append(out, s)
		}
	}
	return append(out, qsel{1, selPoint, []R{{K: 0, A: 1, B: math.MaxInt32}}}, qsel{1, selPoint, []R{{K: 3, A: 1, B: 2}}},
		qsel{1, selRange, []R{{K: 3, A: 1, B: 2}, {K: 3, A: 1, B: 1}}})
}

// prefetchQueries drives row counts around the number of rows fetched at once.
func prefetchQueries(c *Ctx) {
	c.Part("prefetch-boundaries", func() {
		type pc struct{ pre, n int }
		var cases []pc
		for _, pre := range []int{0, 1, 2, 3, 5} {
			for n := 0; n <= 12; n++ {
				cases = append(cases, pc{pre, n})
			}
		}
		for _, n := range []int{99, 100, 101, 199, 200, 201, 250} {
			cases = append(cases, pc{0, n})
		}
		c.Parallel(len(cases), func(_, i int) {
			pcase := cases[i]
			c.AddStates(1)
			c.Exec("prefetch", func() any { return fmt.Sprintf("%+v", pcase) }, func() error { return prefetchCase(c, pcase.pre, pcase.n) })
		})
	})
}

func prefetchCase(c *Ctx, pre, n int) error {
	env := c.NewEnv(nil, nil, nil)
	defer func() { _ = env.Close() }()
	t := bond.NewTable(bond.TableOptions[BigRow]{DB: env.DB, TableID: 3, TableName: "pre", ScanPrefetchSize: pre,
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r BigRow) []byte { return b.AddUint64Field(r.ID).Bytes() }})
	idx := bond.NewIndex(bond.IndexOptions[BigRow]{IndexID: 1, IndexName: "v",
		IndexKeyFunc: func(b bond.KeyBuilder, r BigRow) []byte { return b.AddUint32Field(r.A).Bytes() },
		IndexOrderFunc: func(o bond.IndexOrder, r BigRow) bond.IndexOrder {
			return o.OrderUint64(r.V, bond.IndexOrderTypeASC)
		}})
	if err := t.AddIndex([]*bond.Index[BigRow]{idx}); err != nil {
		return err
	}
	var rows []BigRow
	for i := 0; i < n; i++ {
		rows = append(rows, BigRow{ID: uint64(i + 1), A: uint32(i % 2), V: uint64(n - i)})
	}
	for i := 0; i < n; i += 100 {
		if err := t.Insert(bg, rows[i:min(n, i+100)]); err != nil {
			return err
		}
	}
	for _, rev := range []bool{false, true} {
		for a := 0; a < 3; a++ { // 2: primary
			var want []BigRow
			for i := 0; i < n; i++ {
				j := i
				if a < 2 {
					j = n - 1 - i
				}
				if a == 2 || rows[j].A == uint32(a) {
					want = append(want, rows[j])
				}
			}
			if rev {
				for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
					want[i], want[j] = want[j], want[i]
				}
			}
			for _, off := range []int{0, 1, n / 2, n} {
				for _, lim := range []int{0, 1, 2, n} {
					for _, every := range []int{0, 2, 3} {
						q := t.Query()
						if a < 2 {
							q = q.With(idx, bond.NewSelectorPoint(BigRow{A: uint32(a)}))
						}
						if rev {
							q = q.Reverse()
						}
						exp := want
						if every > 0 {
							q = q.Filter(condFunc(func(r BigRow) bool { return r.ID%uint64(every) != 0 }))
							exp = nil
							for _, r := range want {
								if r.ID%uint64(every) != 0 {
									exp = append(exp, r)
								}
							}
						}
						if off >= len(exp) {
							exp = nil
						} else {
							exp = exp[off:]
						}
						if lim > 0 && lim < len(exp) {
							exp = exp[:lim]
						}
						var out []BigRow
						if err := q.Offset(uint64(off)).Limit(uint64(lim)).Execute(bg, &out); err != nil {
							return err
						}
						if fmt.Sprint(out) != fmt.Sprint(exp) && (len(out) > 0 || len(exp) > 0) {
							return fmt.Errorf("prefetch %d, %d rows, index %d, reverse %v, offset %d, limit %d, filter %d: got %v, expected %v", pre, n, a, rev, off, lim, every, out, exp)
						}
						c.AddTransitions(1)
						c.AddTraces(1)
					}
				}
			}
		}
	}
	return nil
}

// pageAll pages through a query and compares with the reference list.
func (w *world[T]) pageAll(m Model, q qspec, page uint64, del bool, batch ...bond.Batch) error {
	if del {
		w.set(m)
	}
	q.limit = 0
	want := w.refRows(m, q)
	if q.order != nil {
		// rows not distinguished by the order function: take the actual order
		got, err := w.run(bg, q, batch...)
		if err != nil {
			return err
		}
		if !matches(got, want, q) {
			return fmt.Errorf("query %v on %v: got %v, expected %v", q, m.Rows(), got, want)
		}
		want = got
	}
	cur := m.Clone()
	q.limit = page
	var all []R
	for steps := 0; ; steps++ {
		got, err := w.run(bg, q, batch...)
		if err != nil {
			return fmt.Errorf("page %d of %v on %v: %v", steps, q, cur.Rows(), err)
		}
		w.c.AddTransitions(1)
		if len(got) == 0 {
			break
		}
		if uint64(len(got)) > page {
			return fmt.Errorf("page %d of %v on %v has %d rows", steps, q, cur.Rows(), len(got))
		}
		all = append(all, got...)
		if len(all) > len(want) {
			break
		}
		last := got[len(got)-1]
		q.after = &last
		if del {
			if err := w.t.Delete(bg, w.s.Ts([]R{last}), batch...); err != nil {
				return err
			}
			delete(cur, last.K)
		}
	}
	if !eqRows(all, want) {
		q.after = nil
		return fmt.Errorf("pages of %d (deleting the last row of each page: %v) of %v on %v: got %v, expected %v", page, del, q, m.Rows(), all, want)
	}
	if del || page != 1 {
		return nil
	}
	// offset and limit count from the row that follows the after row
	for i := range want {
		for _, off := range []uint64{1, 2, math.MaxUint64} {
			for _, lim := range []uint64{0, 1} {
				q.after, q.offset, q.limit = &want[i], off, lim
				got, err := w.run(bg, q, batch...)
				if err != nil {
					return fmt.Errorf("%v on %v: %v", q, m.Rows(), err)
				}
				w.c.AddTransitions(1)
				if exp := cut(want[i+1:], off, lim); !eqRows(got, exp) {
					return fmt.Errorf("%v on %v: got %v, expected %v", q, m.Rows(), got, exp)
				}
			}
		}
	}
	return nil
}

// afterSelectors: paging is defined for selectors whose points and ranges do
// not overlap.
func afterSelectors(keys []int) []qsel {
	out := allSelectors(keys, true)
	k0, k1, kl := keys[0], keys[1], keys[len(keys)-1]
	return append(out,
		qsel{-1, selPoints, []R{{K: kl}, {K: k0}, {K: k1}}},
		qsel{-1, selRanges, []R{{K: k0}, {K: k0}, {K: k1}, {K: kl}}},
		qsel{0, selPoints, []R{{K: k0, A: 1}, {K: k0, A: 2}}},
		qsel{0, selRanges, []R{{K: k0, A: 2}, {K: kl, A: 2}, {K: k0, A: 1}, {K: kl, A: 1}}},
		qsel{1, selPoints, []R{{K: k0, A: 2, B: math.MaxUint32}, {K: k0, A: 1, B: math.MaxUint32}}},
		qsel{1, selRanges, []R{{K: k0, A: 1, B: math.MaxUint32}, {K: kl, A: 1, B: 0}, {K: k0, A: 2, B: math.MaxUint32}, {K: kl, A: 2, B: 0}}},
	)
}

func pagingPart[T any](c *Ctx, name string, mk func() *Shape[T], keys []int, vals []R, sels []qsel, pages []uint64, inter [][]qsel) {
	c.Part(name, func() {
		if inter == nil {
			inter = [][]qsel{nil}
		}
		ms := models(keys, vals)
		each(c, mk, ms, func(w *world[T], m Model) {
			c.AddStates(1)
			for _, del := range []bool{false, true} {
				w.set(m)
				for _, s := range sels {
					for _, in := range inter {
						for fi, f := range qfilters {
							if fi == 3 {
								continue
							}
							for _, o := range qorders {
								for _, rev := range []bool{false, true} {
									for _, page := range pages {
										if c.Stop() {
											return
										}
										q := qspec{sel: s, filter: f, order: o, rev: rev, inter: in}
										if !c.Exec(fmt.Sprintf("%s/%d/del%v", name, s.kind, del), func() any { return fmt.Sprint(q, " page ", page, " on ", m.Rows()) },
											func() error { return w.pageAll(m, q, page, del) }) {
											return
										}
										if del {
											w.dump()
										}
										c.AddTraces(1)
									}
								}
							}
						}
					}
				}
			}
			c.Outcome(m.Canon())
		})
		c.Sample(map[string]any{"part": name, "contents": len(ms), "selectors": len(sels)})
	})
}

func runC06(c *Ctx) {
	keys := []int{0, 1, 5}
	manyTies(c, "many ties", false)
	pagingPart(c, "struct-json", ShapeV, keys, qvals, afterSelectors(keys), []uint64{1, 2}, nil)
	pagingPart(c, "string-keys", func() *Shape[*RowS] { s := ShapeS(); s.Prefetch = 2; return s }, []int{2, 3, 4, 7}, qvals[:2], stringSelectors(), []uint64{1, 2, 3}, nil)
	pagingPart(c, "intersect", ShapeV, keys, qvals[:2], []qsel{{0, selPoint, []R{{K: 0, A: 1}}}, {3, selPoint, []R{{K: 0}}}}, []uint64{1, 2},
		[][]qsel{{{2, selPoint, []R{{K: 0, A: 1}}}}, {{3, selPoint, []R{{K: 0}}}, {1, selPoint, []R{{K: 0, A: 1, B: math.MaxUint32}}}}})
	pagingPart(c, "zero values", ShapeV, []int{0, 1, 5}, zvals, disjoint(zeroSelectors()), []uint64{1, 2}, nil)
	pagingBatch(c)
	staleAfter(c, "after a changed row", ShapeV, keys, append(qvals[:3:3], R{A: 1, B: 3, S: "x"}), afterSelectors(keys))
	if c.Thorough() {
		keys := []int{0, 1, 3, 5}
		pagingPart(c, "struct-json-4keys", ShapeV, keys, qvals, afterSelectors(keys), []uint64{1, 2, 3}, nil)
		pagingPart(c, "ptr-cbor-4keys", ShapeP, keys, qvals[:2], afterSelectors(keys), []uint64{1, 2, 3}, nil)
		staleAfter(c, "after a changed row, 4 keys", ShapeP, keys, append(qvals[:3:3], R{A: 1, B: 3, S: "x"}), afterSelectors(keys))
	}
}

// staleAfter gives After a row as it was before another one took its key.
func staleAfter[T any](c *Ctx, name string, mk func() *Shape[T], keys []int, vals []R, sels []qsel) {
	c.Part(name, func() {
		ms := models(keys, vals)
		each(c, mk, ms, func(w *world[T], m Model) {
			c.AddStates(1)
			for _, k := range keys {
				old, ok := m[k]
				if !ok {
					continue
				}
				for _, v := range vals {
					v.K = k
					if v == old {
						continue
					}
					m2 := m.Clone()
					m2[k] = v
					w.set(m2)
					ghosts := m2.Clone()
					ghosts[-1] = old
					for _, s := range sels {
						for fi, f := range qfilters {
							for _, rev := range []bool{false, true} {
								q := qspec{sel: s, filter: f, rev: rev}
								want, at := w.refSelect(ghosts, s, rev), -1
								for i, r := range want {
									if r == old {
										at = i
									}
								}
								if fi > 1 || at < 0 || c.Stop() {
									continue
								}
								// the changed row at the same place counts as passed
								var kept []R
								for _, r := range want[at+1:] {
									if w.entryKey(w.ref(s.idx), r) != w.entryKey(w.ref(s.idx), old) && (f == nil || f.f(r)) {
										kept = append(kept, r)
									}
								}
								want = kept
								q.after = &old
								c.Exec(fmt.Sprintf("%s/%d", name, s.kind), func() any { return fmt.Sprint(q, " on ", m2.Rows()) }, func() error {
									got, err := w.run(bg, q)
									if err != nil {
										return err
									}
									if !eqRows(got, want) {
										return fmt.Errorf("%v after %v on %v: got %v, expected %v", q, old, m2.Rows(), got, want)
									}
									return nil
								})
								c.AddTransitions(1)
								c.AddTraces(1)
							}
						}
					}
				}
			}
			c.Outcome(m.Canon())
		})
	})
}

func pagingBatch(c *Ctx) {
	c.Part("through-batch", func() {
		keys := []int{0, 1, 5}
		ms := models(keys, qvals[:2])
		worlds := make([]*world[RowV], 64)
		sels := afterSelectors(keys)
		c.Parallel(len(ms), func(wk, i int) {
			if worlds[wk] == nil {
				worlds[wk] = newWorld(c, ShapeV())
			}
			w, m := worlds[wk], ms[i]
			base := Model{}
			for _, k := range keys {
				base[k] = R{K: k, A: 2, B: 2, S: "x"}
			}
			c.AddStates(1)
			c.Exec("through-batch", func() any { return fmt.Sprint(m.Rows()) }, func() error {
				b, err := w.overlay(base, m)
				defer b.Close()
				if err != nil {
					return err
				}
				for _, s := range sels {
					for _, rev := range []bool{false, true} {
						if err := w.pageAll(m, qspec{sel: s, rev: rev}, 1, false, b); err != nil {
							return err
						}
						c.AddTraces(1)
					}
				}
				return nil
			})
		})
		for _, w := range worlds {
			if w != nil {
				_ = w.env.Close()
			}
		}
	})
}

func interSelectors(keys []int) []qsel {
	k0, k1, kl := keys[0], keys[1], keys[len(keys)-1]
	return []qsel{
		{-1, selDefault, nil},
		{-1, selRange, []R{{K: k0}, {K: k1}}},
		{-1, selPoints, []R{{K: kl}, {K: k0}}},
		{0, selPoint, []R{{K: k0, A: 1}}},
		{0, selPoint, []R{{K: k0, A: 2}}},
		{0, selPoints, []R{{K: k0, A: 2}, {K: k0, A: 1}}},
		{1, selPoint, []R{{K: k0, A: 1, B: math.MaxUint32}}},
		{1, selRange, []R{{K: k0, A: 1, B: math.MaxUint32}, {K: kl, A: 2, B: 2}}},
		{2, selPoint, []R{{K: k0, A: 1}}},
		{3, selPoint, []R{{K: k0}}},
		{3, selRange, []R{{K: k0, B: 1}, {K: kl, B: 1}}},
		{0, selPoints, nil},
	}
}

func runC07(c *Ctx) {
	keys := []int{0, 1, 5}
	sels := interSelectors(keys)
	cancelledQueries(c, "cancelled", sels, [][]qsel{{sels[0]}, {sels[1]}, {sels[2]}, {sels[5]}, {sels[8]}, {sels[9], sels[0]}, {sels[0], sels[11]}})
	interPart(c, "pairs", ShapeV, keys, qvals, sels, 1, []uint64{0, 1}, []uint64{0, 1, 2})
	interPart(c, "triples", ShapeP, keys, qvals[:2], sels, 2, []uint64{0, 1}, []uint64{0, 1})
	batchQueries(c, "through-batch", ShapeV, keys, qvals, sels, true)
	pagingPart(c, "after", ShapeV, keys, qvals, []qsel{sels[3], sels[9], sels[0]}, []uint64{1, 2}, [][]qsel{{sels[8]}, {sels[10]}, {sels[5], sels[7]}})
	interPart(c, "zero values", ShapeV, []int{0, 1}, zvals, zeroSelectors(), 1, []uint64{0, 1}, []uint64{0, 1})
	interValues(c)
	manyTies(c, "many ties", true)
	if c.Thorough() {
		interPart(c, "string-keys", ShapeS, []int{2, 3, 4, 7}, qvals[:2], []qsel{sels[0], sels[3], sels[5], sels[8], sels[9]}, 2, []uint64{0, 1}, []uint64{0, 1})
		keys := []int{0, 1, 3, 5}
		interPart(c, "pairs-4keys", ShapeV, keys, qvals, interSelectors(keys), 1, []uint64{0, 1}, []uint64{0, 2})
	}
}

func interPart[T any](c *Ctx, name string, mk func() *Shape[T], keys []int, vals []R, sels []qsel, depth int, offs, lims []uint64) {
	c.Part(name, func() {
		var inters [][]qsel
		for _, a := range sels {
			if depth == 1 {
				inters = append(inters, []qsel{a})
				continue
			}
			for _, b := range sels {
				inters = append(inters, []qsel{a, b})
			}
		}
		ms := models(keys, vals)
		each(c, mk, ms, func(w *world[T], m Model) {
			c.AddStates(1)
			w.set(m)
			for _, s := range sels {
				for _, in := range inters {
					for fi, f := range qfilters[:3] {
						for oi, o := range qorders {
							if depth > 1 && fi+oi > 1 {
								continue
							}
							for _, rev := range []bool{false, true} {
								for _, off := range offs {
									for _, lim := range lims {
										q := qspec{sel: s, inter: in, filter: f, order: o, rev: rev, offset: off, limit: lim}
										if c.Stop() {
											return
										}
										if !c.Exec(name, func() any { return q.String() }, func() error { return w.checkQuery(m, q) }) {
											return
										}
										c.AddTransitions(1)
										c.AddTraces(1)
									}
								}
							}
						}
					}
				}
			}
			c.Outcome(m.Canon())
		})
	})
}

// interValues: building and running intersections leaves the query values
// they are built from as they were, in every order of building and running.
func interValues(c *Ctx) {
	c.Part("query-values", func() {
		keys := []int{0, 1, 5}
		sels := interSelectors(keys)
		ms := models(keys, qvals[:2])
		each(c, ShapeV, ms, func(w *world[RowV], m Model) {
			c.AddStates(1)
			w.set(m)
			for n := 1; n <= 3; n++ {
				for i := range sels {
					s := func(k int) qsel { return sels[(i+k)%len(sels)] }
					c.Exec("query-values", func() any { return fmt.Sprint(m.Rows(), i, n) }, func() error {
						// a base with n parts, extended in two ways, used in all orders
						base := w.baseQuery(s(0))
						bs := qspec{sel: s(0)}
						for k := 1; k <= n; k++ {
							base = base.Intersects(w.baseQuery(s(k)))
							bs.inter = append(bs.inter, s(k))
						}
						part1, part2 := w.baseQuery(s(4)), w.baseQuery(s(5)).Intersects(w.baseQuery(s(6)))
						q1 := base.Intersects(part1)
						q2 := base.Intersects(part2)
						q3 := base.Limit(1)
						q4 := base.Reverse()
						with := func(add ...qsel) qspec {
							x := bs
							x.inter = append(append([]qsel{}, bs.inter...), add...)
							return x
						}
						deep := w.baseQuery(s(4)).Intersects(w.baseQuery(s(7)).Intersects(part2))
						q5 := base.Intersects(deep)
						q6 := base.Limit(math.MaxUint64)
						q7 := base.Limit(1 << 63).Offset(1)
						q8 := base.Offset(1 << 63)
						lim := bs
						lim.limit = 1
						off, offAll := bs, bs
						off.offset, offAll.offset = 1, 1<<63
						rev := bs
						rev.rev = true
						type use struct {
							q    bond.Query[RowV]
							want qspec
						}
						uses := []use{{base, bs}, {q1, with(s(4))}, {q2, with(s(5), s(6))}, {q3, lim}, {q4, rev},
							{part1, qspec{sel: s(4)}}, {part2, qspec{sel: s(5), inter: []qsel{s(6)}}},
							{q5, with(s(4), s(7), s(5), s(6))}, {q6, bs}, {q7, off}, {q8, offAll}}
						for round := 0; round < 2; round++ {
							for k := range uses {
								u := uses[k]
								if round == 1 {
									u = uses[len(uses)-1-k]
								}
								var out []RowV
								if err := u.q.Execute(bg, &out); err != nil {
									return err
								}
								if got, want := w.s.Rs(out), cut(w.refRows(m, u.want), u.want.offset, u.want.limit); !eqRows(got, want) {
									return fmt.Errorf("query %v built beside others on %v: got %v, expected %v", u.want, m.Rows(), got, want)
								}
								c.AddTransitions(1)
							}
						}
						return nil
					})
					c.AddTraces(1)
				}
			}
		})
		// unsupported parts are refused, not ignored
		w := newWorld(c, ShapeV())
		defer func() { _ = w.env.Close() }()
		w.set(Model{0: {K: 0, A: 1, B: 1, S: "x"}})
		base := w.baseQuery(sels[3])
		bad := map[string]bond.Query[RowV]{
			"limit": base.Limit(1), "offset": base.Offset(1), "after": base.After(RowV{}),
			"order":  base.Order(func(a, b RowV) bool { return a.B < b.B }),
			"filter": base.Filter(condFunc(func(r RowV) bool { return true })),
		}
		for name, b := range bad {
			b := b
			c.Exec("refused/"+name, nil, func() error {
				var out []RowV
				for depth, q := 0, b; depth < 4; depth++ {
					q = base.Intersects(q)
					if err := q.Execute(bg, &out); err == nil {
						return fmt.Errorf("intersection with a query that has %s, %d levels down, is neither refused nor documented to work", name, depth)
					}
				}
				return nil
			})
		}
	})
}

// cancelledQueries cancels the context at each look a query has at it: what it
// returns is the whole answer or an error, never a part of it.
func cancelledQueries(c *Ctx, name string, sels []qsel, inters [][]qsel) {
	c.Part(name, func() {
		ms := models([]int{0, 1, 5}, qvals[:2])
		each(c, func() *Shape[RowV] { s := ShapeV(); s.Prefetch = 2; return s }, ms, func(w *world[RowV], m Model) {
			c.AddStates(1)
			w.set(m)
			for _, s := range sels {
				for _, in := range inters {
					for _, q := range []qspec{{}, {rev: true, limit: 2}, {filter: qfilters[1], offset: 1}, {order: qorders[1]}} {
						q.sel, q.inter = s, in
						for at := 0; ; at++ {
							var f *Faults
							if c.Stop() {
								return
							}
							if !c.Exec(name, func() any { return fmt.Sprintf("%v on %v, cancelled at look %d", q, m.Rows(), at) }, func() error {
								f = &Faults{At: at}
								got, err := w.run(NewFaultCtx(f), q)
								if err != nil {
									if f.Fired && errors.Is(err, context.Canceled) {
										return nil
									}
									return fmt.Errorf("error %v", err)
								}
								if all := w.refRows(m, q); !matches(got, all, q) {
									return fmt.Errorf("no error and %v, expected %v", got, cut(all, q.offset, q.limit))
								}
								return nil
							}) {
								return
							}
							c.AddTransitions(1)
							if !f.Fired {
								break
							}
						}
					}
				}
			}
			c.Outcome(m.Canon())
		})
	})
}
