package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

func init() {
	Register(&Check{ID: "C25", Level: "model_checking", Run: runC25,
		Rule: "state = table content, scan and prefetch size; transition = one real scan with one callback behaviour (per row: fetch 0, 1 or 2 times; then go on, stop, fail or cancel); compared: sequence of keys and fetched records, returned error"})
}

var errCallback = errors.New("callback failed")

type behaviour struct {
	fetch []int // per row
	at    int   // row of the terminator, -1 none
	how   string
	// inner is called after the fetches of each row
	inner func() error
}

// behaviours enumerates callback behaviours for n rows.
func behaviours(n int) []behaviour {
	var out []behaviour
	total := 1
	for i := 0; i < n; i++ {
		total *= 3
	}
	for x := 0; x < total; x++ {
		f := make([]int, n)
		for i, y := 0, x; i < n; i, y = i+1, y/3 {
			f[i] = y % 3
		}
		out = append(out, behaviour{fetch: f, at: -1})
		for t := 0; t < n; t++ {
			// what happens after the terminator does not matter
			rest := 0
			for i := t + 1; i < n; i++ {
				rest += f[i]
			}
			if rest > 0 {
				continue
			}
			for _, h := range []string{"stop", "fail", "fail and go on", "cancel"} {
				out = append(out, behaviour{fetch: f, at: t, how: h})
			}
		}
	}
	return out
}

type scanKind int

const (
	scanTyped scanKind = iota
	scanAny
)

func (w *world[T]) scanWith(q qsel, rev bool, kind scanKind, bh behaviour, m Model, batch ...bond.Batch) error {
	want := w.refSelect(m, q, rev)
	ri := w.ref(q.idx)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	i := 0
	step := func(key bond.KeyBytes, get func() (R, error)) (bool, error) {
		if i >= len(want) {
			return false, fmt.Errorf("callback %d for %d rows, key %x", i, len(want), []byte(key))
		}
		me := i
		i++
		if string(key) != w.entryKey(ri, want[me]) {
			return false, fmt.Errorf("row %d: key %x, expected %x", me, []byte(key), w.entryKey(ri, want[me]))
		}
		for k := 0; k < bh.fetch[me]; k++ {
			r, err := get()
			if err != nil || r != want[me] {
				return false, fmt.Errorf("row %d, fetch %d: %v, %v; expected %v", me, k, r, err, want[me])
			}
		}
		if bh.inner != nil {
			if err := bh.inner(); err != nil {
				return false, err
			}
		}
		if string(key) != w.entryKey(ri, want[me]) {
			return false, fmt.Errorf("row %d: key became %x after fetching", me, []byte(key))
		}
		if bh.at == me {
			switch bh.how {
			case "stop":
				return false, nil
			case "fail":
				return false, errCallback
			case "fail and go on":
				return true, errCallback
			case "cancel":
				cancel()
			}
		}
		return true, nil
	}
	var err error
	if kind == scanTyped {
		f := func(key bond.KeyBytes, l bond.Lazy[T]) (bool, error) {
			return step(key, func() (R, error) { t, err := l.Get(); return w.from(t, err) })
		}
		if q.kind == selDefault {
			err = w.t.ScanForEach(ctx, f, rev, batch...)
		} else {
			err = w.t.ScanIndexForEach(ctx, w.index(q.idx), w.selector(q), f, rev, batch...)
		}
	} else {
		f := func(key bond.KeyBytes, l bond.Lazy[any]) (bool, error) {
			return step(key, func() (R, error) {
				v, err := l.Get()
				if err != nil {
					return R{}, err
				}
				t, ok := v.(T)
				if !ok {
					return R{}, fmt.Errorf("fetched a %T", v)
				}
				return w.s.From(t), nil
			})
		}
		err = bond.TableAnyScanner[T](w.t).ScanForEach(ctx, f, rev, batch...)
	}
	delivered := len(want)
	if bh.at >= 0 {
		delivered = bh.at + 1
	}
	if i != delivered {
		return fmt.Errorf("%d rows delivered, expected %d (error %v)", i, delivered, err)
	}
	switch {
	case bh.at < 0 || bh.how == "stop":
		if err != nil {
			return fmt.Errorf("scan returned %v", err)
		}
	case bh.how == "cancel":
		if !errors.Is(err, context.Canceled) && !(err == nil && bh.at == len(want)-1) {
			return fmt.Errorf("cancelled scan returned %v", err)
		}
	default:
		if !errors.Is(err, errCallback) {
			return fmt.Errorf("scan with failing callback returned %v", err)
		}
	}
	return nil
}

func (w *world[T]) from(t T, err error) (R, error) {
	if err != nil {
		return R{}, err
	}
	return w.s.From(t), nil
}

func runC25(c *Ctx) {
	maxRows := 5
	if c.Thorough() {
		maxRows = 6
	}
	for _, pre := range []int{0, 1, 2, 3, 5} {
		pre := pre
		forEachShape(c, fmt.Sprintf("value records, prefetch %d", pre), func() *Shape[RowV] { s := ShapeV(); s.Prefetch = pre; return s }, maxRows)
		if pre == 0 || pre == 2 {
			forEachShape(c, fmt.Sprintf("pointer records, prefetch %d", pre), func() *Shape[*RowS] { s := ShapeS(); s.Prefetch = pre; return s }, maxRows)
		}
	}
	for _, pre := range []int{0, 1, 2, 3} {
		pre := pre
		innerCalls(c, fmt.Sprintf("value records, prefetch %d", pre), func() *Shape[RowV] { s := ShapeV(); s.Prefetch = pre; return s })
		innerCalls(c, fmt.Sprintf("pointer records, prefetch %d", pre), func() *Shape[*RowS] { s := ShapeS(); s.Prefetch = pre; return s })
	}
	cancelledBefore(c)
	keys := []int{0, 1, 5}
	anySelections(c, "selections of the untyped scanner", ShapeV, keys, qvals, allSelectors(keys, true))
	anySelections(c, "selections of the untyped scanner, string keys", ShapeS, []int{2, 3, 7}, qvals[:2], stringSelectors())
	manyRows(c)
}

func forEachShape[T any](c *Ctx, name string, mk func() *Shape[T], maxRows int) {
	c.Part(name, func() {
		// contents: every membership of up to maxRows rows in the scanned indexes
		var ms []Model
		for n := 0; n <= maxRows; n++ {
			for mask := 0; mask < 1<<n; mask++ {
				m := Model{}
				for i := 0; i < n; i++ {
					m[i] = R{K: i, A: 1, B: (i * 2) % 3, P: mask>>i&1 == 1, S: fmt.Sprint("s", i)}
					if n == maxRows && i == 0 {
						r := m[i]
						r.A = 2
						m[i] = r
					}
				}
				if n == maxRows && mask%3 != 0 {
					continue
				}
				ms = append(ms, m)
			}
		}
		sels := []qsel{{-1, selDefault, nil}, {-1, selRange, []R{{K: 1}, {K: 3}}}, {-1, selPoints, []R{{K: 2}, {K: 0}, {K: 3}}},
			{0, selPoint, []R{{A: 1}}}, {1, selRange, []R{{A: 1, B: 2}, {A: 2, B: 0, K: 3}}}, {2, selPoint, []R{{A: 1}}},
			{0, selPoints, []R{{A: 2}, {A: 1}}}, {3, selPoint, []R{{}}}, {0, selRanges, []R{{A: 2}, {A: 2, K: 5}, {A: 1}, {A: 1, K: 5}}}}
		bhs := make([][]behaviour, 2*maxRows+1)
		for i := range bhs {
			if i <= maxRows {
				bhs[i] = behaviours(i)
			}
		}
		each(c, mk, ms, func(w *world[T], m Model) {
			c.AddStates(1)
			c.Outcome(m.Canon())
			for pass := 0; pass < 2; pass++ {
				var bs []bond.Batch
				if pass == 0 {
					w.set(m)
				} else {
					base := Model{}
					for k, r := range m {
						if k%2 == 0 {
							r.B = 1
							base[k] = r
						}
					}
					if len(m) > 0 {
						base[5] = R{K: 5, A: 1, P: true}
					}
					b, err := w.overlay(base, m)
					if err != nil {
						panic(err)
					}
					bs = []bond.Batch{b}
				}
				for _, q := range sels {
					for _, rev := range []bool{false, true} {
						n := len(w.refSelect(m, q, rev))
						if n > maxRows {
							panic("rows")
						}
						for bi, bh := range bhs[n] {
							if c.Stop() {
								return
							}
							if pass == 1 && bi%3 != 0 {
								continue
							}
							bh := bh
							run := func(kind scanKind) {
								c.Exec(fmt.Sprintf("%s/%v", name, q), func() any {
									return map[string]any{"content": fmt.Sprint(m.Rows()), "selector": q.String(), "reverse": rev, "behaviour": fmt.Sprintf("%+v", bh), "batch": pass == 1, "untyped": kind == scanAny}
								}, func() error { return w.scanWith(q, rev, kind, bh, m, bs...) })
								c.AddTransitions(1)
								c.AddTraces(1)
							}
							run(scanTyped)
							if q.kind == selDefault {
								run(scanAny)
							}
						}
					}
				}
				if len(bs) > 0 {
					_ = bs[0].Close()
				}
			}
		})
		c.Sample(map[string]any{"part": name, "contents": len(ms), "behaviours_of_3_rows": len(bhs[3]), "example": fmt.Sprintf("%+v", bhs[3][7])})
	})
}

// innerCalls: the callback makes calls on the same table, reads and changes in
// a batch of its own.
func innerCalls[T any](c *Ctx, name string, mk func() *Shape[T]) {
	c.Part("callbacks that call the table, "+name, func() {
		many := Model{}
		for i := 0; i < 6; i++ {
			many[i] = R{K: i, A: 1 + i/4, B: (i * 2) % 3, P: i%3 != 1, S: fmt.Sprint("s", i)}
		}
		sels := []qsel{{-1, selDefault, nil}, {-1, selPoints, []R{{K: 2}, {K: 0}, {K: 3}}},
			{0, selPoint, []R{{A: 1}}}, {1, selRange, []R{{A: 1, B: 2}, {A: 2, B: 0, K: 3}}}, {2, selPoint, []R{{A: 1}}},
			{0, selPoints, []R{{A: 2}, {A: 1}}}, {3, selRanges, []R{{B: 2}, {B: 2, K: 5}, {B: 0}, {B: 1, K: 5}}}}
		each(c, mk, []Model{baseModel, baseModel2, many}, func(w *world[T], m Model) {
			c.AddStates(1)
			for _, k := range catalogue[T]() {
				k := k
				w.set(m)
				call := func() (string, error) {
					r := &rig[T]{w: w, db: w.env.DB, ctx: bg, m: m}
					if k.write {
						r.b = []bond.Batch{w.env.DB.Batch(bond.BatchTypeReadWrite)}
						defer func() { _ = r.b[0].Close() }()
					}
					f, err := k.run(r)
					if err != nil {
						return err.Error(), nil
					}
					return f(), r.changed()
				}
				want, err := call()
				if err != nil {
					panic(err)
				}
				for _, q := range sels {
					for _, rev := range []bool{false, true} {
						n := len(w.refSelect(m, q, rev))
						for pat := 0; pat < 4; pat++ {
							if c.Stop() {
								return
							}
							bh := behaviour{fetch: make([]int, n), at: -1, inner: func() error {
								got, err := call()
								if err == nil && got != want {
									err = fmt.Errorf("%s within the callback gave %s, expected %s", k.name, got, want)
								}
								return err
							}}
							for i := range bh.fetch {
								bh.fetch[i] = []int{1, 2, i % 2, (i + 1) % 2}[pat]
							}
							c.Exec("inner/"+k.name, func() any {
								return map[string]any{"content": fmt.Sprint(m.Rows()), "selector": q.String(), "reverse": rev, "fetch": fmt.Sprint(bh.fetch), "call": k.name}
							}, func() error { return w.scanWith(q, rev, scanTyped, bh, m) })
							c.AddTransitions(1)
							c.AddTraces(1)
						}
					}
				}
			}
		})
	})
}

// cancelledBefore: a scan with a context that is done delivers nothing.
func cancelledBefore(c *Ctx) {
	c.Part("context done before the scan", func() {
		w := newWorld(c, ShapeV())
		m := Model{}
		for i := 0; i < 3; i++ {
			m[i] = R{K: i, A: 1, P: true}
		}
		w.set(m)
		ctx, cancel := context.WithCancel(bg)
		cancel()
		for _, q := range []qsel{{-1, selDefault, nil}, {0, selPoint, []R{{A: 1}}}, {2, selRange, []R{{A: 1}, {A: 1, K: 5}}}} {
			q := q
			c.Exec("cancelled", func() any { return q.String() }, func() error {
				n := 0
				f := func(bond.KeyBytes, bond.Lazy[RowV]) (bool, error) { n++; return true, nil }
				var err error
				if q.kind == selDefault {
					err = w.t.ScanForEach(ctx, f, false)
				} else {
					err = w.t.ScanIndexForEach(ctx, w.index(q.idx), w.selector(q), f, false)
				}
				if n != 0 || !errors.Is(err, context.Canceled) {
					return fmt.Errorf("%d rows, %v", n, err)
				}
				return nil
			})
			c.AddTransitions(1)
		}
		_ = w.env.Close()
	})
}

// manyRows: row counts and key sizes beyond the default window.
func manyRows(c *Ctx) {
	c.Part("many rows and long keys", func() {
		type mc struct{ n, every, keyLen, pre int }
		var cases []mc
		for _, n := range []int{99, 100, 101, 205} {
			for _, every := range []int{0, 1, 2, 3, 99, 100, 101} {
				cases = append(cases, mc{n, every, 8, 0}, mc{n, every, 8, 7})
			}
		}
		for _, l := range []int{1000, 2047, 2048, 2049, 12000, 30000} {
			for _, every := range []int{1, 3} {
				cases = append(cases, mc{120, every, l, 0})
			}
		}
		c.Parallel(len(cases), func(_, i int) {
			k := cases[i]
			c.AddStates(1)
			c.Exec("many rows", func() any { return fmt.Sprintf("%+v", k) }, func() error {
				pad := string(make([]byte, k.keyLen))
				dom := Dom{Name: "string", N: k.n, Var: true,
					Add: func(b bond.KeyBuilder, i int) bond.KeyBuilder { return b.AddStringField(fmt.Sprintf("%s%06d", pad, i)) },
					Raw: func(i int, _ bool) []byte { return []byte(fmt.Sprintf("%s%06d", pad, i)) }}
				s := ShapeX(9, 3, dom, None(), nil, false)
				s.Prefetch = k.pre
				w := newWorld(c, s)
				defer func() { _ = w.env.Close() }()
				m := Model{}
				for i := 0; i < k.n; i++ {
					m[i] = R{K: i, B: i, S: fmt.Sprint("row", i)}
				}
				if err := w.t.Insert(bg, s.Ts(m.Rows())); err != nil {
					return err
				}
				for _, rev := range []bool{false, true} {
					for _, q := range []qsel{{-1, selDefault, nil}, {0, selPoint, []R{{}}}} {
						bh := behaviour{fetch: make([]int, k.n), at: -1}
						for i := range bh.fetch {
							if k.every > 0 && i%k.every == 0 {
								bh.fetch[i] = 1 + i%2
							}
						}
						if err := w.scanWith(q, rev, scanTyped, bh, m); err != nil {
							return err
						}
						bh.at, bh.how = k.n/2, "fail"
						if err := w.scanWith(q, rev, scanTyped, bh, m); err != nil {
							return err
						}
						c.AddTransitions(2)
						c.AddTraces(2)
					}
				}
				return nil
			})
		})
	})
}

func (w *world[T]) anyIndex(i int) *bond.Index[any] {
	x := w.index(i)
	o := bond.IndexOptions[any]{IndexID: x.IndexID, IndexName: x.IndexName,
		IndexKeyFunc: func(b bond.KeyBuilder, v any) []byte { return x.IndexKeyFunction(b, v.(T)) }}
	if x.IndexOrderFunction != nil {
		o.IndexOrderFunc = func(b bond.IndexOrder, v any) bond.IndexOrder { return x.IndexOrderFunction(b, v.(T)) }
	}
	if x.IndexFilterFunction != nil {
		o.IndexFilterFunc = func(v any) bool { return x.IndexFilterFunction(v.(T)) }
	}
	return bond.NewIndex(o)
}

// anyScans reads the table and its indexes in all ways of the untyped scanner.
func (w *world[T]) anyScans(m Model, bs ...bond.Batch) error {
	s := bond.TableAnyScanner[T](w.t)
	for i := -1; i < len(w.s.Specs); i++ {
		var q qsel
		if i < 0 {
			q = qsel{i, selDefault, nil}
		} else {
			q = qsel{i, selRange, []R{{A: 0}, {K: 5, A: 9, B: 9}}}
			if w.s.Specs[i].ID == 2 {
				q.rows[0].B, q.rows[1].B = 9, 0
			}
		}
		for _, rev := range []bool{false, true} {
			for _, each := range []bool{false, true} {
				if len(bs) > 0 && each == rev {
					continue
				}
				if err := w.anyScan(s, m, q, rev, each, 0, bs...); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// anyScan reads a selection with the untyped scanner into a list that has
// some rows already.
func (w *world[T]) anyScan(s bond.TableScanner[any], m Model, q qsel, rev, each bool, old int, bs ...bond.Batch) error {
	want := w.refSelect(m, q, rev)
	var out []any
	f := func(k bond.KeyBytes, l bond.Lazy[any]) (bool, error) {
		v, err := l.Get()
		out = append(out, v)
		return true, err
	}
	var had []R
	for i := 0; i < old; i++ {
		r := R{K: i, A: 7, S: "before"}
		had = append(had, r)
		out = append(out, w.s.To(r))
	}
	want = append(had, want...)
	var err error
	switch {
	case q.kind == selDefault && !each:
		err = s.Scan(bg, &out, rev, bs...)
	case q.kind == selDefault:
		err = s.ScanForEach(bg, f, rev, bs...)
	case !each:
		err = s.ScanIndex(bg, w.anyIndex(q.idx), w.selector(q), &out, rev, bs...)
	default:
		err = s.ScanIndexForEach(bg, w.anyIndex(q.idx), w.selector(q), f, rev, bs...)
	}
	if err != nil {
		return fmt.Errorf("untyped scan %v: %v", q, err)
	}
	var got []R
	for _, v := range out {
		t, ok := v.(T)
		if !ok {
			return fmt.Errorf("untyped scan %v gave a %T", q, v)
		}
		got = append(got, w.s.From(t))
	}
	if !eqRows(got, want) {
		return fmt.Errorf("content %v: untyped scan %v reverse=%v row by row=%v gave %v, expected %v", m.Rows(), q, rev, each, got, want)
	}
	return nil
}

// anySelections: every selector with the untyped scanner and with lists that
// are not empty.
func anySelections[T any](c *Ctx, name string, mk func() *Shape[T], keys []int, vals []R, sels []qsel) {
	c.Part(name, func() {
		each(c, mk, models(keys, vals), func(w *world[T], m Model) {
			c.AddStates(1)
			w.set(m)
			s := bond.TableAnyScanner[T](w.t)
			for _, q := range sels {
				for x := 0; x < 8; x++ {
					rev, each, old := x&1 == 1, x&2 == 2, x>>2*2
					c.AddTransitions(1)
					c.Exec("untyped selection", func() any { return fmt.Sprint(m.Rows(), q, rev, each, old) }, func() error {
						if err := w.anyScan(s, m, q, rev, each, old); err != nil || each {
							return err
						}
						had := w.s.Ts([]R{{K: 0, S: "before"}, {K: 1, A: 3}}[:old])
						out := append([]T{}, had...)
						var err error
						if q.kind == selDefault {
							err = w.t.Scan(bg, &out, rev)
						} else {
							err = w.t.ScanIndex(bg, w.index(q.idx), w.selector(q), &out, rev)
						}
						if want := append(w.s.Rs(had), w.refSelect(m, q, rev)...); err != nil || !eqRows(w.s.Rs(out), want) {
							return fmt.Errorf("content %v: scan %v reverse=%v into %d rows gave %v, %v, expected %v", m.Rows(), q, rev, old, w.s.Rs(out), err, want)
						}
						return nil
					})
				}
			}
		})
	})
}
