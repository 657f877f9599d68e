package main

import (
	"context"
	"errors"
	"fmt"
	"sort"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

func init() {
	Register(&Check{ID: "C08", Quick: 90, Level: "model_checking", Run: runC08,
		Rule:        "state = table content over a boundary domain of one key type; transition = one real read with one selector, forward and reverse; compared with the rows whose independently encoded position matches",
		Assumptions: []string{"values of variable length as index values are ordered by length first (listed finding); the reference uses the position in the index for them"}})
}

func runC08(c *Ctx) {
	layouts(c, "reads", layoutReads(), false, false)
	depth := 5
	if c.Thorough() {
		depth = 7
	}
	iterators(c, "iterators", ShapeV, []int{0, 1, 5}, qvals, allSelectors([]int{0, 1, 5}, true), depth)
	iterators(c, "iterators, string keys", ShapeS, []int{2, 3, 7}, qvals[:2], stringSelectors(), depth-1)
	d := Doms()
	b16 := d["uint16"].Sub(0, 1, 3, 7, 9, 10)
	byt := d["byte"].Sub(0, 1, 6, 7)
	str := d["string"].Sub(0, 1, 6, 7, 12, 14)
	i64 := d["int64"].Sub(1, 6, 7, 8, 9, 14, 15)
	u32 := d["uint32"].Sub(0, 1, 11)
	byts := d["bytes"].Sub(0, 1, 6, 7, 12, 14)
	type ordSpec struct {
		o    *Dom
		desc bool
	}
	none := ordSpec{}
	names := []string{"uint64", "uint32", "uint16", "byte", "int64", "int32", "int16", "bigint64", "bigint8", "bigint256", "string", "bytes"}
	for _, n := range names {
		selSecondary(c, "index "+n, d[n], nil, false, 1, 1)
	}
	for _, o := range []ordSpec{none, {&u32, false}, {&u32, true}, {&i64, false}, {&i64, true}, {&byts, false}, {&byts, true}} {
		name := "none"
		if o.o != nil {
			name = fmt.Sprintf("%s desc=%v", o.o.Name, o.desc)
		}
		for _, a := range []Dom{b16, byt, str, None(), Two(byt.Sub(0, 2, 3), b16.Sub(0, 4, 5)), Two(b16.Sub(0, 5), str.Sub(0, 4, 5))} {
			selSecondary(c, fmt.Sprintf("index %s order %s", a.Name, name), a, o.o, o.desc, 255, 255)
		}
	}
	selSecondary(c, "index byte, lowest ids", d["byte"], nil, false, 1, 1)
	selSecondary(c, "index byte, highest ids", d["byte"], nil, false, 255, 255)
	for _, n := range names {
		selPrimary(c, "primary "+n, d[n], 1)
	}
	ls, lb := d["long string"], d["long bytes"]
	selSecondary(c, "index of long strings", ls.Sub(0, 1, 2, 3), nil, false, 1, 1)
	selSecondary(c, "order by long bytes", byt.Sub(1, 2), &lb, false, 1, 1)
	selSecondary(c, "order by long bytes, descending", byt.Sub(1, 2), &lb, true, 1, 1)
	selPrimary(c, "primary long string", ls.Sub(0, 1, 2, 3), 1)
	selPrimary(c, "primary byte+uint16", Two(byt, b16), 255)
	selPrimary(c, "primary uint16+string", Two(b16.Sub(0, 2, 5), str), 255)
	selPrimary(c, "primary string+byte", Two(str, byt), 1)
	lexicographic(c)
}

// pkDom is an integer key domain with n values.
func pkDom(n int) Dom {
	d := Doms()["uint64"]
	if n <= d.N {
		idx := make([]int, n)
		for i := range idx {
			idx[i] = i
		}
		if n > 1 {
			idx[n-1] = d.N - 1
		}
		return d.Sub(idx...)
	}
	return Dom{Name: "uint64", N: n, Add: func(b bond.KeyBuilder, i int) bond.KeyBuilder { return b.AddUint64Field(uint64(i) * 37) },
		Raw: func(i int, neg bool) []byte { return new(Fields).U64(uint64(i) * 37).B[1:] }, Str: func(i int) string { return fmt.Sprint(i * 37) }}
}

// readAll answers one selector in every way the API offers.
func (w *world[T]) readAll(m Model, q qsel, batch ...bond.Batch) error {
	for _, rev := range []bool{false, true} {
		spec := qspec{sel: q, rev: rev}
		want := w.refRows(m, spec)
		got, err := w.run(bg, spec, batch...)
		if err != nil || !eqRows(got, want) {
			return fmt.Errorf("query %v on %v: got %v, %v; expected %v", spec, m.Rows(), got, err, want)
		}
		if q.kind == selDefault {
			continue
		}
		var out []T
		if err := w.t.ScanIndex(bg, w.index(q.idx), w.selector(q), &out, rev, batch...); err != nil || !eqRows(w.s.Rs(out), want) {
			return fmt.Errorf("ScanIndex %v on %v: got %v, %v; expected %v", spec, m.Rows(), w.s.Rs(out), err, want)
		}
		ri := w.ref(q.idx)
		i := 0
		err = w.t.ScanIndexForEach(bg, w.index(q.idx), w.selector(q), func(k bond.KeyBytes, _ bond.Lazy[T]) (bool, error) {
			if i >= len(want) || string(k) != w.entryKey(ri, want[i]) {
				return false, fmt.Errorf("entry %d has key %x", i, []byte(k))
			}
			i++
			return true, nil
		}, rev, batch...)
		if err != nil || i != len(want) {
			return fmt.Errorf("ScanIndexForEach %v on %v: stopped at %d of %d: %v", spec, m.Rows(), i, len(want), err)
		}
	}
	return nil
}

// getAll answers a primary selector through Get and GetPoint.
func (w *world[T]) getAll(m Model, q qsel, batch ...bond.Batch) error {
	got, err := w.t.Get(bg, w.selector(q), batch...)
	var want []R
	switch q.kind {
	case selPoint, selPoints:
		var found []R
		missing := false
		for _, p := range q.rows {
			r, ok := m[p.K]
			if ok {
				found = append(found, r)
			}
			missing = missing || !ok
		}
		if q.kind == selPoint {
			if missing {
				if len(got) != 0 || !errors.Is(err, bond.ErrNotFound) {
					return fmt.Errorf("Get(%v) on %v: got %v, %v", q, m.Rows(), got, err)
				}
				return nil
			}
			want = found
			break
		}
		if err != nil || len(got) != len(q.rows) {
			return fmt.Errorf("Get(%v) on %v: got %v, %v", q, m.Rows(), got, err)
		}
		for i, p := range q.rows {
			if r, ok := m[p.K]; ok && w.s.From(got[i]) != r {
				return fmt.Errorf("Get(%v) on %v: row %d is %v", q, m.Rows(), i, got[i])
			}
		}
		return nil
	default:
		want = w.refSelect(m, q, false)
	}
	if err != nil || !eqRows(w.s.Rs(got), want) {
		return fmt.Errorf("Get(%v) on %v: got %v, %v; expected %v", q, m.Rows(), got, err, want)
	}
	return nil
}

func selSecondary(c *Ctx, name string, a Dom, ord *Dom, desc bool, tableID, indexID byte) {
	c.Part(name, func() {
		nb := 1
		if ord != nil {
			nb = ord.N
		}
		n := a.N * nb
		per := 2
		if n > 40 {
			per = 1
		}
		pk := pkDom(n * per)
		mk := func() *Shape[RowX] { return ShapeX(tableID, indexID, pk, a, ord, desc) }
		full := Model{}
		for i := 0; i < n*per; i++ {
			full[i] = R{K: i, A: i % n / nb, B: i % n % nb, S: "r"}
		}
		// singletons, pairs of neighbours, and everything
		ms := []Model{{}, full}
		for v := 0; v < a.N; v++ {
			r := R{K: v % pk.N, A: v, B: v % nb, S: "one"}
			ms = append(ms, Model{r.K: r})
			if v > 0 {
				p := R{K: pk.N - 1, A: v - 1, B: nb - 1, S: "two"}
				if p.K != r.K {
					ms = append(ms, Model{r.K: r, p.K: p})
				}
			}
		}
		sels := secSelectors(a.N, nb, pk.N, c.Thorough())
		each(c, mk, ms, func(w *world[RowX], m Model) {
			c.AddStates(1)
			c.Outcome(m.Canon())
			var b bond.Batch
			w.set(m)
			for pass := 0; pass < 2; pass++ {
				if pass == 1 {
					// the same content seen through a batch over half of it
					if len(m) < 2 {
						break
					}
					base := Model{}
					for k, r := range m {
						if k%2 == 0 {
							base[k] = r
						}
					}
					if len(m) == 2 {
						base = Model{} // all in the batch
					}
					w.set(base)
					b = w.env.DB.Batch(bond.BatchTypeReadWrite)
					var add []R
					for k, r := range m {
						if _, ok := base[k]; !ok {
							add = append(add, r)
						}
					}
					if err := w.t.Insert(bg, w.s.Ts(add), b); err != nil {
						panic(err)
					}
				}
				for si, q := range sels {
					if c.Stop() {
						break
					}
					if len(m) > 2 && si%3 != 0 && pass == 1 {
						continue
					}
					var bs []bond.Batch
					if b != nil {
						bs = []bond.Batch{b}
					}
					c.Exec(name, func() any { return map[string]any{"content": fmt.Sprint(m.Rows()), "selector": q.String()} },
						func() error { return w.readAll(m, q, bs...) })
					c.AddTransitions(6)
					c.AddTraces(1)
				}
			}
			if b != nil {
				_ = b.Close()
			}
		})
		c.Sample(map[string]any{"part": name, "values": a.Str(0) + " .. " + a.Str(a.N-1), "selectors": len(sels)})
	})
}

// secSelectors enumerates selectors over the whole domain.
func secSelectors(na, nb, nk int, deep bool) []qsel {
	var out []qsel
	var pts []R // positions to start from
	for v := 0; v < na; v++ {
		pts = append(pts, R{A: v}, R{A: v, B: nb - 1, K: nk - 1})
		if nb > 2 {
			pts = append(pts, R{A: v, B: nb / 2, K: nk / 2})
		}
	}
	for _, p := range pts {
		out = append(out, qsel{0, selPoint, []R{p}})
	}
	out = append(out, qsel{0, selPoints, nil}, qsel{0, selRanges, nil})
	lim := 14
	if deep {
		lim = 40
	}
	step := 1
	if len(pts) > lim {
		step = (len(pts) + lim - 1) / lim
	}
	var some []R
	for i := 0; i < len(pts); i += step {
		some = append(some, pts[i])
	}
	some = append(some, pts[len(pts)-1])
	for _, p := range some {
		out = append(out, qsel{0, selPoints, []R{p}})
		for _, q := range some {
			out = append(out, qsel{0, selPoints, []R{p, q}})
		}
	}
	for _, p := range pts {
		for _, q := range pts {
			out = append(out, qsel{0, selRange, []R{p, q}})
		}
	}
	for i := 0; i+2 < len(some); i++ {
		out = append(out, qsel{0, selPoints, []R{some[i+2], some[i], some[i+1]}},
			qsel{0, selRanges, []R{some[i], some[i+1]}},
			qsel{0, selRanges, []R{some[i], some[i+1], some[i+1], some[i+2]}},
			qsel{0, selRanges, []R{some[i+2], some[len(some)-1], some[0], some[i+1]}},
			qsel{0, selRanges, []R{some[i+1], some[i], some[i], some[i+2]}})
	}
	return out
}

func selPrimary(c *Ctx, name string, pk Dom, tableID byte) {
	c.Part(name, func() {
		mk := func() *Shape[RowX] {
			s := ShapeX(tableID, 1, pk, None(), nil, false)
			s.Indexes, s.Specs = nil, nil
			return s
		}
		full := Model{}
		for i := 0; i < pk.N; i++ {
			full[i] = R{K: i, A: i, S: "r"}
		}
		ms := []Model{{}, full}
		for i := 0; i < pk.N; i++ {
			m := Model{i: full[i]}
			ms = append(ms, m)
			if i > 0 {
				ms = append(ms, Model{i: full[i], i - 1: full[i-1]})
			}
			o := full.Clone()
			delete(o, i)
			ms = append(ms, o)
		}
		var sels []qsel
		pt := func(k int) R { return R{K: k} }
		sels = append(sels, qsel{-1, selPoints, nil}, qsel{-1, selRanges, nil}, qsel{-1, selDefault, nil})
		for i := 0; i < pk.N; i++ {
			sels = append(sels, qsel{-1, selPoint, []R{pt(i)}}, qsel{-1, selPoints, []R{pt(i)}})
			for j := 0; j < pk.N; j++ {
				sels = append(sels, qsel{-1, selRange, []R{pt(i), pt(j)}}, qsel{-1, selPoints, []R{pt(i), pt(j)}})
				if j == (i+1)%pk.N || j == pk.N-1 {
					for k := 0; k < pk.N; k++ {
						sels = append(sels, qsel{-1, selPoints, []R{pt(i), pt(j), pt(k)}},
							qsel{-1, selRanges, []R{pt(i), pt(j), pt(k), pt(pk.N - 1)}})
					}
				}
			}
		}
		each(c, mk, ms, func(w *world[RowX], m Model) {
			c.AddStates(1)
			c.Outcome(m.Canon())
			w.set(m)
			for _, q := range sels {
				if c.Stop() {
					return
				}
				c.Exec(name, func() any { return map[string]any{"content": fmt.Sprint(m.Rows()), "selector": q.String()} },
					func() error {
						if err := w.readAll(m, q); err != nil {
							return err
						}
						if q.kind != selDefault {
							return w.getAll(m, q)
						}
						return nil
					})
				c.AddTransitions(7)
				c.AddTraces(1)
			}
			var out []RowX
			c.Exec(name+"/scan", nil, func() error {
				out = nil
				if err := w.t.Scan(context.Background(), &out, false); err != nil {
					return err
				}
				if !eqRows(w.s.Rs(out), w.refSelect(m, qsel{-1, selDefault, nil}, false)) {
					return fmt.Errorf("scan of %v gave %v", m.Rows(), out)
				}
				return nil
			})
		})
		c.Sample(map[string]any{"part": name, "values": pk.Str(0) + " .. " + pk.Str(pk.N-1), "selectors": len(sels)})
	})
}

// lexicographic compares ranges over index values of variable length with the
// order of the values themselves.
func lexicographic(c *Ctx) {
	c.Part("ranges of strings by value", func() {
		vals := []string{"", "a", "aa", "ab", "b", "ba", "c"}
		if !sort.StringsAreSorted(vals) {
			panic("order")
		}
		dom := Dom{Name: "string", N: len(vals), Add: func(b bond.KeyBuilder, i int) bond.KeyBuilder { return b.AddStringField(vals[i]) },
			Raw: func(i int, _ bool) []byte { return []byte(vals[i]) }, Str: func(i int) string { return vals[i] }}
		w := newWorld(c, ShapeX(1, 1, pkDom(len(vals)), dom, nil, false))
		m := Model{}
		for i := range vals {
			m[i] = R{K: i, A: i}
		}
		w.set(m)
		for i := range vals {
			for j := i; j < len(vals); j++ {
				got, err := w.run(bg, qspec{sel: qsel{0, selRange, []R{{A: i}, {A: j, K: len(vals) - 1}}}})
				if err != nil {
					c.Violate("lexicographic-error", err.Error(), nil)
					return
				}
				have := map[int]bool{}
				for _, r := range got {
					have[r.A] = true
				}
				c.AddTransitions(1)
				same := true
				for v := range vals {
					same = same && have[v] == (v >= i && v <= j)
				}
				if !same {
					var l []string
					for v := range vals {
						if have[v] {
							l = append(l, vals[v])
						}
					}
					c.Violate("range over string index values", fmt.Sprintf("range %q..%q selects %q", vals[i], vals[j], l), nil)
				}
			}
		}
		_ = w.env.Close()
	})
}
