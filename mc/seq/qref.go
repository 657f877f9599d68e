package main

import (
	"context"
	"fmt"
	"sort"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/cond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

// Reference meaning of queries, written from the documentation.

type selKind int

const (
	selDefault selKind = iota // no With at all
	selPoint
	selPoints
	selRange
	selRanges
)

// qsel is a selector: idx -1 is the primary index, otherwise a position in Specs.
type qsel struct {
	idx  int
	kind selKind
	rows []R // points, or pairs for ranges
}

func (q qsel) String() string {
	return fmt.Sprintf("idx%d/%s%v", q.idx, []string{"default", "point", "points", "range", "ranges"}[q.kind], q.rows)
}

type qfilter struct {
	name string
	f    func(R) bool
}

type qorder struct {
	name string
	less func(a, b R) bool
}

type qspec struct {
	sel    qsel
	filter *qfilter
	order  *qorder
	rev    bool
	offset uint64
	limit  uint64
	after  *R
	inter  []qsel
}

func (q qspec) String() string {
	s := q.sel.String()
	if len(q.inter) > 0 {
		s += fmt.Sprint(" intersects ", q.inter)
	}
	if q.filter != nil {
		s += " filter " + q.filter.name
	}
	if q.order != nil {
		s += " order " + q.order.name
	}
	if q.rev {
		s += " reverse"
	}
	if q.offset > 0 {
		s += fmt.Sprint(" offset ", q.offset)
	}
	if q.limit > 0 {
		s += fmt.Sprint(" limit ", q.limit)
	}
	if q.after != nil {
		s += fmt.Sprint(" after ", *q.after)
	}
	return s
}

// refIdx gives entry keys and membership of an index, primary included.
type refIdx struct {
	spec    IdxSpec
	primary bool
}

func (w *world[T]) ref(i int) refIdx {
	if i < 0 {
		return refIdx{primary: true, spec: IdxSpec{ID: 0, Key: func(R) []byte { return nil }}}
	}
	return refIdx{spec: w.s.Specs[i]}
}

func (w *world[T]) entryKey(ri refIdx, r R) string {
	if ri.primary {
		return w.s.DataKey(r.K)
	}
	return w.s.IdxKey(ri.spec, r)
}

func (w *world[T]) index(i int) *bond.Index[T] {
	if i < 0 {
		return w.t.PrimaryIndex()
	}
	return w.idx[i]
}

type entry struct {
	key string
	r   R
}

func (w *world[T]) entries(m Model, ri refIdx) []entry {
	var es []entry
	for _, r := range m {
		if ri.primary || ri.spec.In == nil || ri.spec.In(r) {
			es = append(es, entry{w.entryKey(ri, r), r})
		}
	}
	sort.Slice(es, func(a, b int) bool { return es[a].key < es[b].key })
	return es
}

// refSelect lists the rows the selector matches, in index order per point or
// range, points and ranges in the order given.
func (w *world[T]) refSelect(m Model, q qsel, rev bool) []R {
	ri := w.ref(q.idx)
	es := w.entries(m, ri)
	var out []R
	add := func(p func(e entry) bool) {
		for _, e := range es {
			if p(e) {
				out = append(out, e.r)
			}
		}
	}
	same := func(e entry, p R) bool { return string(ri.spec.Key(e.r)) == string(ri.spec.Key(p)) }
	switch q.kind {
	case selDefault:
		add(func(e entry) bool { return true })
	case selPoint:
		k := w.entryKey(ri, q.rows[0])
		add(func(e entry) bool { return same(e, q.rows[0]) && e.key >= k })
	case selPoints:
		for _, p := range q.rows {
			k := w.entryKey(ri, p)
			if ri.primary {
				add(func(e entry) bool { return e.key == k })
			} else {
				add(func(e entry) bool { return same(e, p) && e.key >= k })
			}
		}
	case selRange, selRanges:
		for i := 0; i+1 < len(q.rows); i += 2 {
			lo, hi := w.entryKey(ri, q.rows[i]), w.entryKey(ri, q.rows[i+1])
			add(func(e entry) bool { return e.key >= lo && e.key <= hi })
		}
	}
	if rev {
		return reverse(out)
	}
	return out
}

func (w *world[T]) refRows(m Model, q qspec) []R {
	var rows []R
	if len(q.inter) == 0 {
		rows = w.refSelect(m, q.sel, q.rev)
	} else {
		cnt := map[int]int{}
		for _, s := range append([]qsel{q.sel}, q.inter...) {
			seen := map[int]bool{}
			for _, r := range w.refSelect(m, s, false) {
				if !seen[r.K] {
					seen[r.K] = true
					cnt[r.K]++
				}
			}
		}
		for _, r := range m.Rows() {
			if cnt[r.K] == len(q.inter)+1 {
				rows = append(rows, r)
			}
		}
		sort.Slice(rows, func(i, j int) bool { return w.s.DataKey(rows[i].K) < w.s.DataKey(rows[j].K) })
		if q.rev {
			rows = reverse(rows)
		}
	}
	if q.filter != nil {
		var f []R
		for _, r := range rows {
			if q.filter.f(r) {
				f = append(f, r)
			}
		}
		rows = f
	}
	if q.order != nil {
		rows = append([]R{}, rows...)
		sort.SliceStable(rows, func(i, j int) bool { return q.order.less(rows[i], rows[j]) })
	}
	return rows
}

// cut applies offset and limit.
func cut(rows []R, offset, limit uint64) []R {
	if offset >= uint64(len(rows)) {
		return nil
	}
	rows = rows[offset:]
	if limit > 0 && limit < uint64(len(rows)) {
		rows = rows[:limit]
	}
	return rows
}

// matches compares a result with the reference list before offset and limit:
// rows that the order function does not distinguish may come in any order.
func matches(got, all []R, q qspec) bool {
	want := cut(all, q.offset, q.limit)
	if q.order == nil {
		return eqRows(got, want)
	}
	if len(got) != len(want) {
		return false
	}
	avail := map[R]int{}
	for _, r := range all {
		avail[r]++
	}
	for i := range got {
		if q.order.less(got[i], want[i]) || q.order.less(want[i], got[i]) {
			return false
		}
		if avail[got[i]]--; avail[got[i]] < 0 {
			return false
		}
	}
	return true
}

func (w *world[T]) selector(q qsel) bond.Selector[T] {
	ts := w.s.Ts(q.rows)
	switch q.kind {
	case selPoint:
		return bond.NewSelectorPoint(ts[0])
	case selPoints:
		return bond.NewSelectorPoints(ts...)
	case selRange:
		return bond.NewSelectorRange(ts[0], ts[1])
	case selRanges:
		var rs [][]T
		for i := 0; i+1 < len(ts); i += 2 {
			rs = append(rs, []T{ts[i], ts[i+1]})
		}
		return bond.NewSelectorRanges(rs...)
	}
	return nil
}

func (w *world[T]) baseQuery(s qsel) bond.Query[T] {
	qq := w.t.Query()
	if s.kind != selDefault {
		qq = qq.With(w.index(s.idx), w.selector(s))
	}
	return qq
}

func (w *world[T]) build(q qspec) bond.Query[T] {
	qq := w.baseQuery(q.sel)
	if len(q.inter) > 0 {
		var qs []bond.Query[T]
		for _, s := range q.inter {
			qs = append(qs, w.baseQuery(s))
		}
		qq = qq.Intersects(qs...)
	}
	s := w.s
	if q.filter != nil {
		f := q.filter.f
		qq = qq.Filter(cond.Func(func(t T) bool { return f(s.From(t)) }))
	}
	if q.order != nil {
		less := q.order.less
		qq = qq.Order(func(a, b T) bool { return less(s.From(a), s.From(b)) })
	}
	if q.rev {
		qq = qq.Reverse()
	}
	if q.offset > 0 {
		qq = qq.Offset(q.offset)
	}
	if q.limit > 0 {
		qq = qq.Limit(q.limit)
	}
	if q.after != nil {
		qq = qq.After(s.To(*q.after))
	}
	return qq
}

func (w *world[T]) run(ctx context.Context, q qspec, batch ...bond.Batch) ([]R, error) {
	var out []T
	if err := w.build(q).Execute(ctx, &out, batch...); err != nil {
		return nil, err
	}
	return w.s.Rs(out), nil
}

// checkQuery runs one query and compares it.
func (w *world[T]) checkQuery(m Model, q qspec, batch ...bond.Batch) error {
	got, err := w.run(bg, q, batch...)
	if err != nil {
		return fmt.Errorf("query %v on %v: %v", q, m.Rows(), err)
	}
	all := w.refRows(m, q)
	if !matches(got, all, q) {
		return fmt.Errorf("query %v on %v: got %v, expected %v", q, m.Rows(), got, cut(all, q.offset, q.limit))
	}
	return nil
}

var qfilters = []*qfilter{nil,
	{"A>=1", func(r R) bool { return r.A >= 1 }},
	{"P", func(r R) bool { return r.P }},
	{"none", func(r R) bool { return false }},
}

var qorders = []*qorder{nil,
	{"B", func(a, b R) bool { return a.B < b.B }},
	{"A desc,K desc", func(a, b R) bool { return a.A > b.A || a.A == b.A && a.K > b.K }},
}

// overlay makes a batch in which the table content is m while the database
// holds base.
func (w *world[T]) overlay(base, m Model) (bond.Batch, error) {
	w.set(base)
	b := w.env.DB.Batch(bond.BatchTypeReadWrite)
	var del, up []R
	for _, r := range base.Rows() {
		if _, ok := m[r.K]; !ok {
			del = append(del, r)
		}
	}
	for _, r := range m.Rows() {
		if o, ok := base[r.K]; !ok || o != r {
			up = append(up, r)
		}
	}
	if err := w.t.Delete(bg, w.s.Ts(del), b); err != nil {
		return b, err
	}
	if err := w.t.Upsert(bg, w.s.Ts(up), bond.TableUpsertOnConflictReplace[T], b); err != nil {
		return b, err
	}
	return b, nil
}
