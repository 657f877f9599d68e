package main

import (
	"errors"
	"fmt"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

var valsS = []R{{A: 1, B: 1, S: "x"}, {A: 1, B: 1, S: "y"}}
var valsFull = func() []R {
	var out []R
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			for _, p := range []bool{false, true} {
				out = append(out, R{A: a, B: b, P: p, S: "x"})
			}
		}
	}
	return out
}()

func init() {
	Register(&Check{ID: "C01", Quick: 80, Level: "model_checking", Run: runC01,
		Rule:        "state = table content (model map); transition = one real call from that content restored in the database; compared: error, resulting content, all reads",
		Assumptions: []string{"the raw database content is the whole state of a table without filter (records carry no other persistent state)"}})
	Register(&Check{ID: "C02", Quick: 90, Level: "model_checking", Run: runC02,
		Rule: "state = table content; transition = one real call; compared: raw index keyspace against the entries the stored rows must have"})
}

// step checks one call from one content.
func (w *world[T]) step(m Model, o op, mode string, indexesOnly bool) error {
	w.set(m)
	var err error
	switch mode {
	case "direct":
		err = implApply(w.s, w.t, m, o)
	case "rw", "wo":
		bt := bond.BatchTypeReadWrite
		if mode == "wo" {
			bt = bond.BatchTypeWriteOnly
		}
		b := w.env.DB.Batch(bt)
		err = implApply(w.s, w.t, m, o, b)
		if err == nil {
			if d := w.env.Dump(); !d.Equal(w.raw(m)) {
				_ = b.Close()
				return fmt.Errorf("effects of %v visible before commit: %s", o, Diff(w.raw(m), d))
			}
			if cerr := b.Commit(bond.Sync); cerr != nil {
				return fmt.Errorf("commit: %v", cerr)
			}
		}
		_ = b.Close()
	}
	want, werr := refApply(m, o)
	got := w.dump()
	if indexesOnly {
		return w.checkIndexes(got)
	}
	if (err != nil) != (werr != nil) {
		return fmt.Errorf("%v on %v: error %v, reference says %v", o, m.Rows(), err, werr)
	}
	gm, derr := w.decode(got)
	if derr != nil {
		return derr
	}
	if gm.Canon() != want.Canon() {
		return fmt.Errorf("%v on %v: content became %v, expected %v", o, m.Rows(), gm.Rows(), want.Rows())
	}
	if werr == nil && len(dataOnly(got)) != len(want) {
		return fmt.Errorf("%v on %v: %d data entries for %d rows", o, m.Rows(), len(dataOnly(got)), len(want))
	}
	return nil
}

// reads compares all reads of one content with the reference.
func (w *world[T]) reads(m Model, keys []int, pointsLen int, batch ...bond.Batch) error {
	s, t := w.s, w.t
	rows := m.Rows()
	for _, k := range keys {
		want, ok := m[k]
		in := s.To(R{K: k})
		if e := t.Exist(in, batch...); e != ok {
			return fmt.Errorf("content %v: Exist(k%d) = %v", rows, k, e)
		}
		got, err := t.GetPoint(bg, in, batch...)
		if ok && (err != nil || s.From(got) != want) {
			return fmt.Errorf("content %v: GetPoint(k%d) = %v, %v", rows, k, s.From(got), err)
		}
		if !ok && !errors.Is(err, bond.ErrNotFound) {
			return fmt.Errorf("content %v: GetPoint(k%d) of a missing row: %v", rows, k, err)
		}
		l, err := t.Get(bg, bond.NewSelectorPoint(in), batch...)
		if ok && (err != nil || len(l) != 1 || s.From(l[0]) != want) || !ok && (len(l) != 0 || !errors.Is(err, bond.ErrNotFound)) {
			return fmt.Errorf("content %v: Get(point k%d) = %v, %v", rows, k, len(l), err)
		}
	}
	for _, rev := range []bool{false, true} {
		var out []T
		if err := t.Scan(bg, &out, rev, batch...); err != nil {
			return fmt.Errorf("content %v: scan: %v", rows, err)
		}
		want := rows
		if rev {
			want = reverse(rows)
		}
		if !eqRows(s.Rs(out), want) {
			return fmt.Errorf("content %v: scan reverse=%v gave %v", rows, rev, s.Rs(out))
		}
		out = nil
		if err := t.Query().Execute(bg, &out, batch...); err != nil || !eqRows(s.Rs(out), rows) {
			return fmt.Errorf("content %v: default query gave %v, %v", rows, s.Rs(out), err)
		}
	}
	var base []R
	for _, k := range keys {
		base = append(base, R{K: k})
	}
	var nilT T
	for _, l := range lists(base, pointsLen) {
		got, err := t.Get(bg, bond.NewSelectorPoints(s.Ts(l)...), batch...)
		if err != nil || len(got) != len(l) {
			return fmt.Errorf("content %v: Get(points %v) = %d rows, %v", rows, l, len(got), err)
		}
		for i, r := range l {
			want, ok := m[r.K]
			if ok && s.From(got[i]) != want {
				return fmt.Errorf("content %v: Get(points %v)[%d] = %v", rows, l, i, s.From(got[i]))
			}
			if !ok && fmt.Sprintf("%#v", got[i]) != fmt.Sprintf("%#v", nilT) {
				return fmt.Errorf("content %v: Get(points %v)[%d] = %#v for a missing row", rows, l, i, got[i])
			}
		}
		if len(l) == 2 && l[0].K <= l[1].K {
			var want []R
			for _, r := range rows {
				if r.K >= l[0].K && r.K <= l[1].K {
					want = append(want, r)
				}
			}
			got, err := t.Get(bg, bond.NewSelectorRange(s.To(l[0]), s.To(l[1])), batch...)
			if err != nil || !eqRows(s.Rs(got), want) {
				return fmt.Errorf("content %v: Get(range k%d..k%d) = %v, %v", rows, l[0].K, l[1].K, s.Rs(got), err)
			}
		}
	}
	return nil
}

func tableHistories[T any](c *Ctx, name string, mk func() *Shape[T], keys []int, vals []R, maxLen int, kinds []opKind, modes []string, indexesOnly bool) {
	c.Part(name, func() {
		ms := models(keys, vals)
		ls := lists(rowsOver(keys, vals), maxLen)
		dls := lists(rowsOver(keys, vals[:1]), maxLen)
		each(c, mk, ms, func(w *world[T], m Model) {
			c.AddStates(1)
			for _, k := range kinds {
				use := ls
				if k == opDelete {
					use = dls
				}
				for _, l := range use {
					if c.Stop() {
						return
					}
					o := op{k, l}
					if (k == opUnsafeInsert || k == opUnsafeUpdate) && !unsafeOK(m, o) {
						continue
					}
					for _, mode := range modes {
						if !c.Exec(fmt.Sprintf("%s/%s/%s", name, mode, opNames[k]),
							func() any { return map[string]any{"content": fmt.Sprint(m.Rows()), "call": o.String(), "mode": mode} },
							func() error { return w.step(m, o, mode, indexesOnly) }) {
							return
						}
						c.AddTransitions(1)
						c.AddTraces(1)
					}
				}
			}
			if !indexesOnly {
				c.Exec(name+"/reads", func() any { return fmt.Sprint(m.Rows()) }, func() error {
					w.set(m)
					return w.reads(m, keys, 3)
				})
				c.AddEvals(1)
			}
			c.Outcome(m.Canon())
			c.Sample(map[string]any{"part": name, "content": fmt.Sprint(m.Rows()), "calls_from_it": len(ls)})
		})
	})
}

var allKinds = []opKind{opInsert, opUpdate, opUpsertReplace, opUpsertMix, opDelete, opUnsafeInsert, opUnsafeUpdate}

func noIdx[T any](mk func() *Shape[T]) func() *Shape[T] {
	return func() *Shape[T] {
		s := mk()
		s.Indexes, s.Specs = nil, nil
		return s
	}
}

func runC01(c *Ctx) {
	xy := []R{{S: "x"}, {S: "y"}}
	tableHistories(c, "struct-json-3keys", noIdx(ShapeV), []int{0, 1, 2}, xy, 3, allKinds, []string{"direct"}, false)
	tableHistories(c, "ptr-cbor-extreme-keys", noIdx(ShapeP), []int{2, 3, 5}, xy, 3, allKinds, []string{"direct"}, false)
	tableHistories(c, "string-keys-msgpack", noIdx(ShapeS), []int{0, 1, 2, 3, 4, 5, 6, 7}[2:], xy[:1], 2, allKinds, []string{"direct"}, false)
	tableHistories(c, "with-indexes", ShapeV, []int{0, 1}, append([]R{{A: 1, P: true, S: "x"}}, valsS...), 2, allKinds, []string{"direct"}, false)
	bigLists(c)
	orders(c)
	layouts(c, "rows", layoutCalls(), true, false)
	if c.Thorough() {
		tableHistories(c, "struct-json-4keys", noIdx(ShapeV), []int{0, 1, 2, 5}, xy, 4, allKinds, []string{"direct"}, false)
		tableHistories(c, "string-keys-msgpack-3", noIdx(ShapeS), []int{1, 2, 3, 4, 6, 7}, xy[:1], 3, allKinds, []string{"direct"}, false)
	}
}

// bigLists drives the sizes around the internal chunk of rows per call.
func bigLists(c *Ctx) {
	c.Part("chunk-boundaries", func() {
		sizes := []int{1, 2, 12, 13, 100, 101, 4999, 5000, 5001}
		if c.Thorough() {
			sizes = append(sizes, 9999, 10000, 10001, 15001)
		}
		type bigCase struct {
			n     int
			order string
			dup   int // distance between the two duplicates, 0 none
			call  opKind
		}
		var cases []bigCase
		for _, n := range sizes {
			for _, ord := range []string{"asc", "desc", "rot"} {
				for _, k := range []opKind{opInsert, opUpdate, opUpsertMix, opUpsertReplace, opDelete} {
					cases = append(cases, bigCase{n, ord, 0, k})
					if n > 1 && ord == "asc" {
						for _, d := range []int{1, n / 2, n - 1} {
							if d > 0 {
								cases = append(cases, bigCase{n, ord, d, k})
							}
						}
					}
				}
			}
		}
		c.ParallelN(4, len(cases), func(wk, i int) {
			bc := cases[i]
			c.Exec(fmt.Sprintf("chunk/%s/dup%v", opNames[bc.call], bc.dup != 0), func() any { return fmt.Sprintf("%+v", bc) }, func() error {
				return bigCaseRun(c, bc.n, bc.order, bc.dup, bc.call)
			})
			c.AddTransitions(1)
			c.AddTraces(1)
			c.AddStates(1)
		})
	})
}

type BigRow struct {
	ID uint64
	A  uint32
	V  uint64
}

func bigCaseRun(c *Ctx, n int, order string, dup int, call opKind) error {
	env := c.NewEnv(nil, nil, nil)
	defer func() { _ = env.Close() }()
	t := bond.NewTable(bond.TableOptions[*BigRow]{DB: env.DB, TableID: 1, TableName: "big",
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r *BigRow) []byte { return b.AddUint64Field(r.ID).Bytes() }})
	idx := bond.NewIndex(bond.IndexOptions[*BigRow]{IndexID: 1, IndexName: "a",
		IndexKeyFunc: func(b bond.KeyBuilder, r *BigRow) []byte { return b.AddUint32Field(r.A).Bytes() }})
	if err := t.AddIndex([]*bond.Index[*BigRow]{idx}); err != nil {
		return err
	}
	ids := make([]uint64, n)
	for i := range ids {
		switch order {
		case "asc":
			ids[i] = uint64(i + 1)
		case "desc":
			ids[i] = uint64(n - i)
		case "rot":
			ids[i] = uint64((i+n/3)%n + 1)
		}
	}
	if dup > 0 {
		ids[n-1] = ids[n-1-dup]
	}
	model := map[uint64]BigRow{}
	if call != opInsert {
		// every second row stored for upsert, all rows otherwise
		var pre []*BigRow
		seen := map[uint64]bool{}
		for _, id := range ids {
			if seen[id] || (call == opUpsertMix || call == opUpsertReplace) && id%2 == 0 {
				continue
			}
			seen[id] = true
			r := BigRow{ID: id, A: uint32(id % 3), V: 7}
			pre = append(pre, &r)
			model[id] = r
		}
		for len(pre) > 0 {
			k := min(len(pre), 1000)
			if err := t.Insert(bg, pre[:k]); err != nil {
				return fmt.Errorf("preparing: %v", err)
			}
			pre = pre[k:]
		}
	}
	trs := make([]*BigRow, n)
	for i, id := range ids {
		trs[i] = &BigRow{ID: id, A: uint32((id + uint64(i)) % 3), V: uint64(1000 + i)}
	}
	fold := func(old, new BigRow) BigRow { return BigRow{ID: new.ID, A: new.A, V: old.V*3 + new.V} }
	var err error
	wantErr := false
	want := map[uint64]BigRow{}
	for k, v := range model {
		want[k] = v
	}
	switch call {
	case opInsert:
		err = t.Insert(bg, trs)
		if dup > 0 {
			wantErr = true
		} else {
			for _, r := range trs {
				want[r.ID] = *r
			}
		}
	case opUpdate:
		err = t.Update(bg, trs)
		for _, r := range trs {
			want[r.ID] = *r
		}
	case opUpsertReplace:
		err = t.Upsert(bg, trs, bond.TableUpsertOnConflictReplace[*BigRow])
		for _, r := range trs {
			want[r.ID] = *r
		}
	case opUpsertMix:
		err = t.Upsert(bg, trs, func(o, n *BigRow) *BigRow { r := fold(*o, *n); return &r })
		for _, r := range trs {
			if o, ok := want[r.ID]; ok {
				want[r.ID] = fold(o, *r)
			} else {
				want[r.ID] = *r
			}
		}
	case opDelete:
		for i, r := range trs {
			cur := model[r.ID]
			trs[i] = &cur
		}
		err = t.Delete(bg, trs)
		want = map[uint64]BigRow{}
	}
	if (err != nil) != wantErr {
		return fmt.Errorf("%s of %d rows (%s, duplicate distance %d): error %v, expected error: %v", opNames[call], n, order, dup, err, wantErr)
	}
	var out []*BigRow
	if err := t.Scan(bg, &out, false); err != nil {
		return err
	}
	if len(out) != len(want) {
		return fmt.Errorf("%s of %d rows (%s, duplicate distance %d): %d rows stored, expected %d", opNames[call], n, order, dup, len(out), len(want))
	}
	for i, r := range out {
		if *r != want[r.ID] {
			return fmt.Errorf("%s of %d rows (%s, duplicate distance %d): row %d is %+v, expected %+v", opNames[call], n, order, dup, i, *r, want[r.ID])
		}
		if i > 0 && out[i-1].ID >= r.ID {
			return fmt.Errorf("scan out of order")
		}
	}
	st := env.Dump()
	nidx := 0
	for k := range st {
		if k[1] == 1 {
			nidx++
		}
	}
	for _, r := range want {
		if _, ok := st[string(RawKey(1, 1, new(Fields).U32(r.A).B, nil, new(Fields).U64(r.ID).B))]; !ok {
			return fmt.Errorf("%s of %d rows (%s, dup %d): index entry of %+v missing", opNames[call], n, order, dup, r)
		}
	}
	if nidx != len(want) {
		return fmt.Errorf("%s of %d rows (%s, dup %d): %d index entries for %d rows", opNames[call], n, order, dup, nidx, len(want))
	}
	// reads at this size
	var sel []*BigRow
	for i := n - 1; i >= 0; i-- {
		sel = append(sel, &BigRow{ID: ids[i]}, &BigRow{ID: 1 << 50})
	}
	got, err := t.Get(bg, bond.NewSelectorPoints(sel...))
	if err != nil || len(got) != len(sel) {
		return fmt.Errorf("Get(points) of %d keys: %d, %v", len(sel), len(got), err)
	}
	for i, r := range got {
		w, ok := want[sel[i].ID]
		if ok != (r != nil) || ok && *r != w {
			return fmt.Errorf("Get(points) of %d keys: position %d wrong: %+v", len(sel), i, r)
		}
	}
	cnt := 0
	for a := uint32(0); a < 3; a++ {
		var o []*BigRow
		if err := t.ScanIndex(bg, idx, bond.NewSelectorPoint(&BigRow{A: a}), &o, false); err != nil {
			return err
		}
		for i, r := range o {
			if r.A != a || *r != want[r.ID] || i > 0 && o[i-1].ID >= r.ID {
				return fmt.Errorf("index scan of %d rows: position %d wrong: %+v", n, i, *r)
			}
		}
		cnt += len(o)
	}
	if cnt != len(want) {
		return fmt.Errorf("index scans found %d of %d rows", cnt, len(want))
	}
	c.Outcome(fmt.Sprint(n, order, dup, call, len(want), wantErr))
	return nil
}

// orders checks duplicates in longer lists (where the sort used for the keys
// no longer happens to be stable): every pair of positions of a duplicate.
func orders(c *Ctx) {
	c.Part("duplicate-positions", func() {
		w := newWorld(c, noIdx(ShapeV)())
		defer func() { _ = w.env.Close() }()
		// 6 keys, lists of 14 rows: duplicates everywhere
		n := 14
		pat := 0
		for shift := 0; shift < 6; shift++ {
			for step := 1; step < 6; step++ {
				for _, kind := range []opKind{opUpdate, opUpsertMix, opUpsertReplace} {
					var rows []R
					for i := 0; i < n; i++ {
						rows = append(rows, R{K: (shift + i*step) % 6, A: i % 3, B: (i / 3) % 3, P: i%2 == 0, S: []string{"x", "y", "z"}[i%3]})
					}
					full := Model{}
					for k := 0; k < 6; k++ {
						full[k] = R{K: k, S: "x"}
					}
					for _, m := range []Model{full, {}} {
						if kind == opUpdate && len(m) == 0 {
							continue
						}
						pat++
						c.Exec("duplicate-positions/"+opNames[kind], func() any { return fmt.Sprint(m.Rows(), rows) }, func() error {
							return w.step(m, op{kind, rows}, "direct", false)
						})
						c.AddTransitions(1)
						c.AddTraces(1)
					}
				}
			}
		}
	})
}

func runC02(c *Ctx) {
	v1 := []R{}
	for a := 1; a < 3; a++ {
		for _, p := range []bool{false, true} {
			v1 = append(v1, R{A: a, B: a, P: p, S: "x"})
		}
	}
	v1 = append(v1, R{A: 1, B: 2, P: true, S: "x"})
	kinds := append(append([]opKind{}, allKinds...), opDeleteGiven, opUpsertInside)
	tableHistories(c, "struct-2keys-allvalues", ShapeV, []int{1, 2}, valsFull, 1, kinds, []string{"direct", "rw", "wo"}, true)
	tableHistories(c, "struct-2keys", ShapeV, []int{1, 2}, v1, 3, kinds, []string{"direct"}, true)
	tableHistories(c, "ptr-cbor-2keys", ShapeP, []int{0, 5}, v1, 2, kinds, []string{"direct", "rw"}, true)
	tableHistories(c, "string-msgpack", ShapeS, []int{2, 3, 7}, v1[1:4], 2, kinds, []string{"direct"}, true)
	// every choice of the indexes
	for mask := 0; mask < 1<<len(ShapeV().Specs)-1; mask++ {
		ids := subset(mask, len(ShapeV().Specs))
		v, depth := v1[2:5], 1
		if len(ids) < 2 {
			depth = 2
		}
		tableHistories(c, fmt.Sprint("struct-indexes", ids), func() *Shape[RowV] { return subShape(ShapeV(), ids) }, []int{1, 2}, v, depth, kinds, []string{"direct", "rw"}, true)
		tableHistories(c, fmt.Sprint("ptr-cbor-indexes", ids), func() *Shape[*RowV] { return subShape(ShapeP(), ids) }, []int{0, 5}, v, depth, kinds, []string{"direct"}, true)
	}
	staleDelete(c)
	batchDup(c)
	layouts(c, "indexes", layoutCalls(), false, true)
	if c.Thorough() {
		tableHistories(c, "struct-3keys", ShapeV, []int{0, 1, 5}, v1, 2, kinds, []string{"direct", "rw", "wo"}, true)
		tableHistories(c, "struct-2keys-allvalues-2", ShapeV, []int{1, 2}, valsFull, 2, kinds, []string{"direct"}, true)
		tableHistories(c, "string-msgpack-3", ShapeS, []int{0, 2, 3}, v1[:4], 3, kinds, []string{"direct"}, true)
	}
}

// staleDelete: Delete given a record that is not the stored one.
func staleDelete(c *Ctx) {
	c.Part("delete-with-stale-record", func() {
		w := newWorld(c, ShapeV())
		defer func() { _ = w.env.Close() }()
		for _, sv := range valsFull {
			for _, pv := range valsFull {
				m := Model{0: R{K: 0, A: sv.A, B: sv.B, P: sv.P, S: "x"}}
				passed := R{K: 0, A: pv.A, B: pv.B, P: pv.P, S: "x"}
				sig := "delete/stored-record"
				if m[0] != passed {
					sig = "delete/stale-record"
				}
				c.Exec(sig, func() any { return map[string]any{"stored": m[0].String(), "passed to delete": passed.String()} }, func() error {
					w.set(m)
					if err := w.t.Delete(bg, w.s.Ts([]R{passed})); err != nil {
						return err
					}
					return w.checkIndexes(w.dump())
				})
				c.AddTransitions(1)
			}
		}
	})
}

// batchDup: two calls on the same key inside one batch before commit.
func batchDup(c *Ctx) {
	c.Part("two-calls-one-batch", func() {
		keys := []int{1, 2}
		vals := []R{{A: 1, B: 1, P: true, S: "x"}, {A: 2, B: 1, P: false, S: "x"}, {A: 2, B: 2, P: true, S: "x"}}
		ms := models(keys, vals)
		ls := lists(rowsOver(keys, vals), 1)[1:]
		kinds := []opKind{opInsert, opUpdate, opUpsertReplace, opUpsertMix, opDelete}
		each(c, ShapeV, ms, func(w *world[RowV], m Model) {
			c.AddStates(1)
			for _, k1 := range kinds {
				for _, l1 := range ls {
					for _, k2 := range kinds {
						for _, l2 := range ls {
							o1, o2 := op{k1, l1}, op{k2, l2}
							m1, e1 := refApply(m, o1)
							if e1 != nil || c.Stop() {
								continue
							}
							c.Exec("two-calls-one-batch", func() any { return fmt.Sprint(m.Rows(), o1, o2) }, func() error {
								w.set(m)
								b := w.env.DB.Batch(bond.BatchTypeReadWrite)
								defer b.Close()
								if err := implApply(w.s, w.t, m, o1, b); err != nil {
									return err
								}
								_ = implApply(w.s, w.t, m1, o2, b)
								if err := b.Commit(bond.Sync); err != nil {
									return err
								}
								return w.checkIndexes(w.dump())
							})
							c.AddTransitions(1)
							c.AddTraces(1)
						}
					}
				}
			}
		})
	})
}
