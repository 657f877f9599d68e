package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

// rig is what a call of the catalogue works on.
type rig[T any] struct {
	w    *world[T] // table and indexes as seen through the hooks
	db   bond.DB
	ctx  context.Context
	b    []bond.Batch
	m    Model // content as seen by the call
	args []argument
	rs   [][]T // row lists among them
}

// argument is a value given to a call, as it was and as it is.
type argument struct {
	was string
	is  func() string
}

func (r *rig[T]) arg(f func() string) { r.args = append(r.args, argument{f(), f}) }

// changed tells which argument is not as it was given.
func (r *rig[T]) changed() error {
	for _, a := range r.args {
		if is := a.is(); is != a.was {
			return fmt.Errorf("an argument became %s, was %s", is, a.was)
		}
	}
	return nil
}

// rows makes an argument list.
func (r *rig[T]) rows(rs ...R) []T {
	ts := r.w.s.Ts(rs)
	full := append(ts, r.w.s.To(R{K: 0, A: 77}))
	r.arg(func() string { return fmt.Sprint(r.w.s.Rs(full)) })
	r.rs = append(r.rs, full[:len(ts)])
	return full[:len(ts)]
}

func (r *rig[T]) sel(q qsel) bond.Selector[T] {
	ts := r.rows(q.rows...)
	switch q.kind {
	case selPoint:
		s := bond.NewSelectorPoint(ts[0])
		r.arg(func() string { return fmt.Sprint(r.w.s.From(s.Point())) })
		return s
	case selPoints:
		s := bond.NewSelectorPoints(ts...)
		r.arg(func() string { return fmt.Sprint(r.w.s.Rs(s.Points())) })
		return s
	case selRange:
		s := bond.NewSelectorRange(ts[0], ts[1])
		r.arg(func() string { a, b := s.Range(); return fmt.Sprint(r.w.s.From(a), r.w.s.From(b)) })
		return s
	}
	var rs [][]T
	for i := 0; i+1 < len(ts); i += 2 {
		rs = append(rs, []T{ts[i], ts[i+1]})
	}
	s := bond.NewSelectorRanges(rs...)
	r.arg(func() string {
		out := ""
		for _, x := range s.Ranges() {
			out += fmt.Sprint(r.w.s.Rs(x))
		}
		return out
	})
	return s
}

type call[T any] struct {
	name   string
	write  bool
	silent bool // has no way to report an error
	snap   bool // reads rows through one iterator over them
	point  bool // reads one row
	op     *op  // what a write does
	run    func(r *rig[T]) (func() string, error)
}

func (c call[T]) String() string { return c.name }

func catalogue[T any]() []call[T] {
	var out []call[T]
	add := func(name string, write bool, run func(r *rig[T]) (func() string, error)) {
		out = append(out, call[T]{name: name, write: write, run: run})
	}
	list := func(r *rig[T], ts *[]T) func() string {
		return func() string { return fmt.Sprint(r.w.s.Rs(*ts)) }
	}
	ra := func(k, a int) R { return R{K: k, A: a, B: 1, P: true, S: "x"} }

	// reads
	for _, k := range []int{0, 2} {
		k := k
		add(fmt.Sprintf("GetPoint(%d)", k), false, func(r *rig[T]) (func() string, error) {
			arg := r.rows(R{K: k})
			t, err := r.w.t.GetPoint(r.ctx, arg[0], r.b...)
			if errors.Is(err, bond.ErrNotFound) {
				return func() string { return "not found" }, nil
			}
			return func() string { return fmt.Sprint(r.w.s.From(t)) }, err
		})
		out[len(out)-1].point = true
		out = append(out, call[T]{name: fmt.Sprintf("Exist(%d)", k), silent: true, point: true, run: func(r *rig[T]) (func() string, error) {
			arg := r.rows(R{K: k})
			ok := r.w.t.Exist(arg[0], r.b...)
			return func() string { return fmt.Sprint(ok) }, nil
		}})
	}
	add("Get(points 3 2 0 3)", false, func(r *rig[T]) (func() string, error) {
		ts, err := r.w.t.Get(r.ctx, r.sel(qsel{-1, selPoints, []R{{K: 3}, {K: 2}, {K: 0}, {K: 3}}}), r.b...)
		return list(r, &ts), err
	})
	for _, rev := range []bool{false, true} {
		rev := rev
		add(fmt.Sprintf("Scan(%v)", rev), false, func(r *rig[T]) (func() string, error) {
			var ts []T
			err := r.w.t.Scan(r.ctx, &ts, rev, r.b...)
			return list(r, &ts), err
		})
		out[len(out)-1].snap = true
	}
	sels := []qsel{
		{0, selPoint, []R{{A: 1}}},
		{1, selPoints, []R{{A: 2, B: 9}, {A: 1, B: 9}, {A: 0, B: 9}}},
		{2, selRange, []R{{A: 1}, {K: 5, A: 2, P: true}}},
		{3, selRanges, []R{{B: 0}, {K: 5, B: 1}, {B: 2}, {K: 5, B: 3}}},
		{-1, selRange, []R{{K: 1}, {K: 3}}},
	}
	for _, q := range sels {
		q := q
		add(fmt.Sprintf("ScanIndex(%v)", q), false, func(r *rig[T]) (func() string, error) {
			var ts []T
			err := r.w.t.ScanIndex(r.ctx, r.w.index(q.idx), r.sel(q), &ts, q.idx == 1, r.b...)
			return list(r, &ts), err
		})
		out[len(out)-1].snap = q.idx < 0
	}
	// how: fetch each row, none, each twice; stop or fail at a row
	hows := []struct {
		name       string
		fetch      int
		stop, fail int
	}{{"fetch", 1, -1, -1}, {"no fetch", 0, -1, -1}, {"stop at 1", 1, 1, -1}, {"fail at 1", 0, -1, 1}}
	for _, q := range append([]qsel{{idx: -1}}, sels[0], sels[1], sels[3]) {
		for _, h := range hows {
			q, h := q, h
			add(fmt.Sprintf("ForEach(%v, %s)", q, h.name), false, func(r *rig[T]) (func() string, error) {
				n := 0
				var ts []T
				var keys []string
				f := func(key bond.KeyBytes, l bond.Lazy[T]) (bool, error) {
					keys = append(keys, fmt.Sprintf("%x", []byte(key)))
					for i := 0; i < h.fetch; i++ {
						t, err := l.Get()
						if err != nil {
							return false, err
						}
						ts = append(ts, t)
					}
					if n == h.stop {
						return false, nil
					}
					if n == h.fail {
						return false, errCallback
					}
					n++
					return true, nil
				}
				var err error
				if q.kind == selDefault {
					err = r.w.t.ScanForEach(r.ctx, f, false, r.b...)
				} else {
					err = r.w.t.ScanIndexForEach(r.ctx, r.w.index(q.idx), r.sel(q), f, false, r.b...)
				}
				if h.fail >= 0 && errors.Is(err, errCallback) {
					err = nil
				}
				return func() string { return fmt.Sprint(keys, r.w.s.Rs(ts)) }, err
			})
			out[len(out)-1].snap = q.kind == selDefault
		}
	}
	query := func(name string, mk func(r *rig[T]) bond.Query[T]) {
		add("Query "+name, false, func(r *rig[T]) (func() string, error) {
			var ts []T
			q := mk(r)
			err := q.Execute(r.ctx, &ts, r.b...)
			return list(r, &ts), err
		})
	}
	less := func(r *rig[T]) func(a, b T) bool {
		return func(a, b T) bool { return r.w.s.From(a).S < r.w.s.From(b).S }
	}
	query("all", func(r *rig[T]) bond.Query[T] { return r.w.t.Query() })
	out[len(out)-1].snap = true
	for _, q := range sels {
		q := q
		query(fmt.Sprint("with ", q), func(r *rig[T]) bond.Query[T] { return r.w.t.Query().With(r.w.index(q.idx), r.sel(q)) })
	}
	out[len(out)-1].snap = true // the last of the selectors is of the primary index
	query("filter and order", func(r *rig[T]) bond.Query[T] {
		return r.w.t.Query().Filter(condFunc(func(t T) bool { return r.w.s.From(t).A > 0 })).Order(less(r))
	})
	out[len(out)-1].snap = true
	query("offset 1 limit 1 reverse", func(r *rig[T]) bond.Query[T] {
		return r.w.t.Query().With(r.w.index(1), r.sel(sels[1])).Offset(1).Limit(1).Reverse()
	})
	query("after", func(r *rig[T]) bond.Query[T] {
		return r.w.t.Query().With(r.w.index(0), r.sel(sels[0])).After(r.rows(ra(0, 1))[0]).Limit(5)
	})
	query("intersection", func(r *rig[T]) bond.Query[T] {
		return r.w.t.Query().With(r.w.index(1), r.sel(sels[1])).Intersects(r.w.t.Query().With(r.w.index(2), r.sel(sels[2])), r.w.t.Query())
	})
	query("ordered intersection", func(r *rig[T]) bond.Query[T] {
		return r.w.t.Query().With(r.w.index(3), r.sel(sels[3])).Intersects(r.w.t.Query().With(r.w.index(0), r.sel(sels[0]))).Order(less(r)).Limit(2)
	})
	add("Iter", false, func(r *rig[T]) (func() string, error) {
		it := r.w.t.Iter(r.sel(sels[4]), r.b...)
		var keys []string
		for it.First(); it.Valid(); it.Next() {
			keys = append(keys, fmt.Sprintf("%x=%x", it.Key(), it.Value()))
		}
		err := it.Error()
		if e := it.Close(); err == nil {
			err = e
		}
		return func() string { return fmt.Sprint(keys) }, err
	})
	out[len(out)-1].snap = true

	// writes
	none := func() string { return "" }
	for _, o := range []op{
		{opInsert, []R{ra(2, 1)}}, {opInsert, []R{ra(5, 2), ra(2, 1), ra(4, 1)}}, {opInsert, []R{ra(2, 1), ra(0, 1)}},
		{opUpdate, []R{ra(1, 2)}}, {opUpdate, []R{ra(3, 0), ra(0, 2), ra(3, 1)}}, {opUpdate, []R{ra(2, 0)}},
		{opUpsertReplace, []R{ra(2, 1), ra(0, 0)}}, {opUpsertMix, []R{ra(3, 2), ra(2, 1), ra(0, 0), ra(2, 2), ra(0, 2)}},
		{opDelete, []R{{K: 1}}}, {opDelete, []R{{K: 3}, {K: 2}, {K: 0}}},
		{opUnsafeInsert, []R{ra(5, 1), ra(2, 2)}}, {opUnsafeUpdate, []R{ra(3, 0), ra(1, 2)}},
	} {
		o := o
		add(o.String(), true, func(r *rig[T]) (func() string, error) {
			s := r.w.s
			ts := r.rows(o.rows...)
			switch o.kind {
			case opInsert:
				return none, r.w.t.Insert(r.ctx, ts, r.b...)
			case opUpdate:
				return none, r.w.t.Update(r.ctx, ts, r.b...)
			case opUpsertReplace:
				return none, r.w.t.Upsert(r.ctx, ts, bond.TableUpsertOnConflictReplace[T], r.b...)
			case opUpsertMix:
				return none, r.w.t.Upsert(r.ctx, ts, func(old, new T) T { return s.To(mix(s.From(old), s.From(new))) }, r.b...)
			case opDelete:
				return none, r.w.t.Delete(r.ctx, ts, r.b...)
			case opUnsafeInsert:
				return none, r.w.t.(bond.TableUnsafeInserter[T]).UnsafeInsert(r.ctx, ts, r.b...)
			}
			olds := make([]R, len(o.rows))
			for i, x := range o.rows {
				olds[i] = r.m[x.K]
			}
			return none, r.w.t.(bond.TableUnsafeUpdater[T]).UnsafeUpdate(r.ctx, ts, r.rows(olds...), r.b...)
		})
		out[len(out)-1].op = &o
	}
	return out
}

// reindexCalls are the calls that take neither context nor batch.
func reindexCalls[T any]() []call[T] {
	none := func() string { return "" }
	return []call[T]{
		{name: "ReIndex(all)", write: true, run: func(r *rig[T]) (func() string, error) { return none, r.w.t.ReIndex(r.w.idx) }},
		{name: "ReIndex(one)", write: true, run: func(r *rig[T]) (func() string, error) { return none, r.w.t.ReIndex(r.w.idx[1:2]) }},
		{name: "AddIndex(duplicate)", write: true, run: func(r *rig[T]) (func() string, error) {
			err := r.w.t.AddIndex(r.w.idx[:1], true)
			return func() string { return fmt.Sprint(err != nil) }, nil
		}},
	}
}

// hooked gives the world as seen through h.
func (w *world[T]) hooked(h *HookDB, serializer bond.Serializer[any]) *world[T] {
	v := *w
	s := *w.s
	if serializer != nil {
		s.Serializer = serializer
	}
	v.s = &s
	v.t, v.idx = s.NewTable(h)
	// values are built and read with the plain serialiser
	v.s = w.s
	return &v
}

// base is the content the catalogue is made for: 0, 1 and 3 stored, 2, 4 and 5
// not.
var baseModel = Model{
	0: {K: 0, A: 1, B: 1, P: true, S: "x"},
	1: {K: 1, A: 1, B: 2, P: false, S: "y"},
	3: {K: 3, A: 2, B: 0, P: true, S: "a"},
}

var baseModel2 = Model{
	0: {K: 0, A: 1, B: 1, P: true, S: "x"},
	1: {K: 1, A: 1, B: 1, P: true, S: "b"},
	3: {K: 3, A: 1, B: 1, P: true, S: "a"},
	4: {K: 4, A: 1, B: 0, P: true, S: "b"},
}

// mode tells how a call is given its batch.
type mode int

const (
	direct mode = iota
	inBatch
	inDirtyBatch
)

func (m mode) String() string { return []string{"direct", "in a batch", "in a batch with changes"}[m] }

// dirt is what is done in the batch before the call.
var dirt = []op{{opUpsertReplace, []R{{K: 1, A: 1, B: 0, P: true, S: "z"}}}, {opDelete, []R{{K: 3}}}, {opInsert, []R{{K: 4, A: 2, B: 2, S: "q"}}}}

// rigFor makes the content m and a rig on it.
func rigFor[T any](w, v *world[T], h *HookDB, m Model, md mode, ctx context.Context) (*rig[T], error) {
	w.set(m)
	if h != nil {
		h.DB = w.env.DB // it may be another one than before
	}
	r := &rig[T]{w: v, db: h, ctx: ctx, m: m}
	if md == direct {
		return r, nil
	}
	b := h.Batch(bond.BatchTypeReadWrite)
	r.b = []bond.Batch{b}
	if md == inDirtyBatch {
		for _, o := range dirt {
			n, err := refApply(r.m, o)
			if err != nil {
				continue
			}
			if err := implApply(w.s, w.t, r.m, o, Unhook(b)); err != nil {
				return r, err
			}
			r.m = n
		}
	}
	return r, nil
}
