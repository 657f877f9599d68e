package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
	"github.com/go-bond/bond/serializers"
)

func init() {
	Register(&Check{ID: "C10", Level: "model_checking", Run: runC10,
		Rule: "state = which of the neighbouring tables are filled; transition = one real call on one table or one of its indexes (or a call with keys of the user); compared: raw content of the whole store before and after, and all reads of the table, against an independent encoder"})
}

var pk10 = []string{"", "\x00", "a", "\x00\x00\x00\x00\x00\x00", "\xff", "\xff\xff\xff\xff\xff\xff\xff\xff", strings.Repeat("\xff", 300)}
var a10 = []string{"", "\x00", "\xff", "\xff\xff\xff\xff", strings.Repeat("\x00", 255), strings.Repeat("\xff", 256)}

// shape10 has several indexes over strings with extreme bytes and lengths.
func shape10(table byte, ids []byte) *Shape[RowS] {
	s := &Shape[RowS]{Name: fmt.Sprint("t", table), TableID: bond.TableID(table), Keys: len(pk10), Serializer: &serializers.MsgpackSerializer{}}
	s.PK = func(k int) []byte { return new(Fields).Str(pk10[k]).B }
	s.To = func(r R) RowS {
		return RowS{ID: pk10[r.K], M: map[string]string{"a": a10[r.A]}, B: int64(r.B), P: r.P, S: r.S}
	}
	s.From = func(t RowS) R {
		return R{K: indexOf10(pk10, t.ID), A: indexOf10(a10, t.M["a"]), B: int(t.B), P: t.P, S: t.S}
	}
	s.KeyFunc = func(b bond.KeyBuilder, t RowS) []byte { return b.AddStringField(t.ID).Bytes() }
	kinds := make([]int, len(ids))
	for i := range ids {
		kinds[i] = (i + int(table)) % 4
	}
	s.Indexes = func() []*bond.Index[RowS] {
		var out []*bond.Index[RowS]
		for i, id := range ids {
			out = append(out, index10(id, kinds[i]))
		}
		return out
	}
	for i, id := range ids {
		s.Specs = append(s.Specs, spec10(id, kinds[i]))
	}
	return s
}

func indexOf10(l []string, v string) int {
	for i := range l {
		if l[i] == v {
			return i
		}
	}
	return -1
}

func index10(id byte, kind int) *bond.Index[RowS] {
	o := bond.IndexOptions[RowS]{IndexID: bond.IndexID(id), IndexName: fmt.Sprint("i", id),
		IndexKeyFunc: func(b bond.KeyBuilder, t RowS) []byte { return b.AddStringField(t.M["a"]).Bytes() }}
	switch kind {
	case 1:
		o.IndexKeyFunc = func(b bond.KeyBuilder, t RowS) []byte { return b.Bytes() }
		o.IndexOrderFunc = func(o bond.IndexOrder, t RowS) bond.IndexOrder { return o.OrderInt64(t.B, bond.IndexOrderTypeDESC) }
	case 2:
		o.IndexFilterFunc = func(t RowS) bool { return t.P }
	case 3:
		o.IndexOrderFunc = func(o bond.IndexOrder, t RowS) bond.IndexOrder { return o.OrderInt64(t.B, bond.IndexOrderTypeASC) }
	}
	return bond.NewIndex(o)
}

func spec10(id byte, kind int) IdxSpec {
	sp := IdxSpec{ID: id, Name: fmt.Sprint("i", id), Key: func(r R) []byte { return new(Fields).Str(a10[r.A]).B }}
	switch kind {
	case 1:
		sp.Key = func(R) []byte { return nil }
		sp.Order = func(r R) []byte { return new(Fields).I64(-int64(r.B)).B }
	case 2:
		sp.In = func(r R) bool { return r.P }
	case 3:
		sp.Order = func(r R) []byte { return new(Fields).I64(int64(r.B)).B }
	}
	return sp
}

type cfg10 struct {
	tables []byte
	ids    [][]byte
}

func (g cfg10) String() string { return fmt.Sprint(g.tables, g.ids) }

var rows10 = func() Model {
	m := Model{}
	for k := range pk10 {
		m[k] = R{K: k, A: k % len(a10), B: k % 3, P: k%2 == 0, S: "x"}
	}
	return m
}()

type world10 struct {
	ws   []*world[RowS]
	env  *Env
	user State
}

func newWorld10(c *Ctx, g cfg10, user ...string) *world10 {
	w := &world10{ws: make([]*world[RowS], len(g.tables))}
	shapes := make([]*Shape[RowS], len(g.tables))
	for i, t := range g.tables {
		shapes[i] = shape10(t, g.ids[i])
		w.ws[i] = &world[RowS]{c: c, s: shapes[i], enc: map[R]string{}}
	}
	w.env = c.NewEnv(nil, nil, func(db bond.DB) {
		for i := range w.ws {
			w.ws[i].t, w.ws[i].idx = shapes[i].NewTable(db)
		}
		for _, k := range user {
			if err := db.Set(bond.NewUserKey(k), []byte("user"), bond.NoSync); err != nil {
				panic(err)
			}
		}
		w.user = RawDump(db.Backend(), nil, nil)
	})
	w.env.Max = 100
	w.env.Lo, w.env.Hi = nil, nil
	for i := range w.ws {
		w.ws[i].env = w.env
	}
	return w
}

// want is the whole store when the tables hold the given contents.
func (w *world10) want(ms []Model) State {
	st := w.user.Clone()
	for i, m := range ms {
		for k, v := range w.ws[i].raw(m) {
			st[k] = v
		}
	}
	return st
}

func (w *world10) set(ms []Model) {
	w.env.Use()
	w.env.SetState(w.want(ms))
}

func runC10(c *Ctx) {
	all := cfg10{[]byte{1, 2, 127, 254, 255}, [][]byte{{1, 2, 254, 255}, {1, 255}, {255}, {1, 254, 255}, {1, 128, 255}}}
	c.Part("five tables, all fillings", func() {
		worlds := make([]*world10, 64)
		n := len(all.tables)
		c.Parallel(1<<n, func(wk, mask int) {
			if worlds[wk] == nil {
				worlds[wk] = newWorld10(c, all, "", "a", "\xff\xff\xff")
			}
			base := make([]Model, n)
			for i := range base {
				base[i] = Model{}
				if mask>>i&1 == 1 {
					base[i] = rows10
				}
			}
			c.AddStates(1)
			for i := range base {
				calls10(c, worlds[wk], all, base, i)
			}
		})
		for _, w := range worlds {
			if w != nil {
				_ = w.env.Close()
			}
		}
	})
	c.Part("all neighbouring table and index identifiers", func() {
		c.Parallel(254, func(wk, i int) {
			t := byte(i + 1)
			ix := byte((i*5)%254 + 1)
			g := cfg10{[]byte{t, t + 1}, [][]byte{{ix, ix + 1}, {ix, ix + 1}}}
			w := newWorld10(c, g, "", "a", "\xff\xff\xff")
			c.AddStates(1)
			calls10(c, w, g, []Model{rows10, rows10}, 0)
			calls10(c, w, g, []Model{rows10, rows10}, 1)
			_ = w.env.Close()
		})
	})
	c.Part("keys of the user", func() { userKeys10(c, all) })
	c.Sample(map[string]any{"tables and indexes": all.String()})
}

// userKeys10: reads and writes of user keys of all names change those keys
// alone, and the database can be opened again.
func userKeys10(c *Ctx, g cfg10) {
	names := []string{"", "\x00", "a", "a\x00", "b", "\xff", "\xff\xff\xff\xff\xff\xff\xff\xff\xff", "__bond_db_data_version__", "bond", "1", strings.Repeat("z", 255), strings.Repeat("z", 256), strings.Repeat("z", 300)}
	w := newWorld10(c, g)
	// names that are the keys of the version, of other names, of rows and
	// of index entries
	for _, k := range w.user.Keys() {
		names = append(names, k)
	}
	for i := range w.ws {
		ks := State(w.ws[i].raw(rows10)).Keys()
		names = append(names, ks[0], ks[1], ks[len(ks)/2], ks[len(ks)-1])
	}
	_ = w.env.Close()
	sort.Strings(names)
	for i := range names {
		for j := range names[:i] {
			if names[i] != names[j] && string(bond.NewUserKey(names[i])) == string(bond.NewUserKey(names[j])) {
				c.Violate("user keys", fmt.Sprintf("the names %q and %q have the same key", names[i], names[j]), "names")
			}
		}
	}
	worlds := make([]*world10, 64)
	c.Parallel(len(names), func(wk, i int) {
		if worlds[wk] == nil {
			worlds[wk] = newWorld10(c, g)
		}
		w := worlds[wk]
		base := make([]Model, len(g.tables))
		for t := range base {
			base[t] = rows10
		}
		for j := range names {
			if names[i] == names[j] {
				continue
			}
			for calls := 0; calls < 6; calls++ {
				for _, inBatch := range []bool{false, true} {
					if c.Stop() {
						return
					}
					c.Exec("user keys", func() any {
						return fmt.Sprintf("%s, batch %v: %q %q", []string{"set", "set twice", "set and delete", "delete the other", "delete range", "delete range of the next"}[calls], inBatch, names[i], names[j])
					}, func() error { return w.userKey10(base, names, i, j, calls, inBatch) })
					c.AddStates(1)
					c.AddTransitions(3)
					c.AddTraces(1)
				}
			}
		}
	})
	for _, w := range worlds {
		if w != nil {
			_ = w.env.Close()
		}
	}
	c.Parallel(len(names), func(_, i int) {
		c.Exec("user keys", func() any { return fmt.Sprintf("set and open again: %q", names[i]) }, func() error {
			o := func(fs vfs.FS) *bond.Options { return &bond.Options{PebbleOptions: PebbleOptions(fs)} }
			dir, fs := c.TempDir(), vfs.NewMem()
			db, err := bond.Open(dir, o(fs))
			if err != nil {
				return err
			}
			if err := db.Set(bond.NewUserKey(names[i]), []byte("mine"), bond.Sync); err != nil {
				return err
			}
			if err := db.Close(); err != nil {
				return err
			}
			if db, err = bond.Open(dir, o(fs)); err != nil {
				return fmt.Errorf("opening again: %v", err)
			}
			defer db.Close()
			v, cl, err := db.Get(bond.NewUserKey(names[i]))
			if err != nil || string(v) != "mine" {
				return fmt.Errorf("%q after opening again, %v", v, err)
			}
			return cl.Close()
		})
		c.AddStates(1)
		c.AddTransitions(4)
	})
}

func (w *world10) userKey10(base []Model, names []string, i, j, calls int, inBatch bool) error {
	w.set(base)
	key := func(n string) []byte { return bond.NewUserKey(n) }
	var bs []bond.Batch
	if inBatch {
		bs = []bond.Batch{w.env.DB.Batch(bond.BatchTypeReadWrite)}
		defer bs[0].Close()
	}
	db, n, m := w.env.DB, names[i], names[j]
	want := map[string]string{}
	set := func(n, v string) error {
		want[n] = v
		return db.Set(key(n), []byte(v), bond.NoSync, bs...)
	}
	if err := set(n, "1"); err != nil {
		return err
	}
	if err := set(m, "2"); err != nil {
		return err
	}
	var err error
	lo, hi := n, m
	if lo > hi {
		lo, hi = hi, lo
	}
	switch calls {
	case 1:
		err = set(n, "")
	case 2:
		delete(want, n)
		err = db.Delete(key(n), bond.NoSync, bs...)
	case 3:
		delete(want, m)
		err = db.Delete(key(m), bond.NoSync, bs...)
	case 4:
		delete(want, lo)
		err = db.DeleteRange(key(lo), key(hi), bond.NoSync, bs...)
	case 5:
		delete(want, hi)
		err = db.DeleteRange(key(hi), key(hi+"\xff"), bond.NoSync, bs...)
		if strings.HasPrefix(lo, hi) && lo < hi+"\xff" {
			delete(want, lo)
		}
	}
	if err != nil {
		return err
	}
	check := func(b ...bond.Batch) error {
		for _, x := range names {
			v, cl, err := db.Get(key(x), b...)
			wv, ok := want[x]
			if ok != (err == nil) || !ok && !errors.Is(err, pebble.ErrNotFound) && !errors.Is(err, bond.ErrNotFound) || ok && string(v) != wv {
				return fmt.Errorf("key %q: %q, %v, expected %q", x, v, err, wv)
			}
			if err == nil {
				_ = cl.Close()
			}
		}
		return nil
	}
	if inBatch {
		if err := check(bs...); err != nil {
			return fmt.Errorf("in the batch: %w", err)
		}
		if err := bs[0].Commit(bond.NoSync); err != nil {
			return err
		}
	}
	if err := check(); err != nil {
		return err
	}
	got := w.env.Dump()
	for n := range want {
		delete(got, string(key(n)))
	}
	if others := w.want(base); !others.Equal(got) {
		return fmt.Errorf("other entries: %s", Diff(others, got))
	}
	return nil
}

func calls10(c *Ctx, w *world10, g cfg10, base []Model, i int) {
	x := w.ws[i]
	do := func(name string, after Model, f func() error) {
		if c.Stop() {
			return
		}
		c.Exec("isolation", func() any {
			var ns []int
			for _, m := range base {
				ns = append(ns, len(m))
			}
			return fmt.Sprint(g, " rows ", ns, ": ", name, " on table ", g.tables[i])
		}, func() error {
			w.set(base)
			if err := f(); err != nil {
				return fmt.Errorf("%s: %v", name, err)
			}
			ms := append([]Model{}, base...)
			ms[i] = after
			if want, got := w.want(ms), w.env.Dump(); !want.Equal(got) {
				return fmt.Errorf("%s: %s", name, Diff(want, got))
			}
			return nil
		})
		c.AddTransitions(1)
		c.AddTraces(1)
	}
	m := base[i]
	call := func(o op) {
		n, werr := refApply(m, o)
		do(o.String(), n, func() error {
			err := implApply(x.s, x.t, m, o)
			if (err != nil) != (werr != nil) {
				return fmt.Errorf("error %v, reference says %v", err, werr)
			}
			return nil
		})
	}
	for k := range pk10 {
		r := rows10[k]
		r.S = "y"
		call(op{opInsert, []R{r}})
		call(op{opDelete, []R{r}})
		r.A, r.P = (r.A+1)%len(a10), !r.P
		call(op{opUpdate, []R{r}})
		call(op{opUpsertReplace, []R{r}})
	}
	list := rows10.Rows()
	call(op{opInsert, list})
	call(op{opDelete, list})
	call(op{opUpdate, list})
	call(op{opUpsertReplace, list})

	do("reads", m, func() error {
		for k := range pk10 {
			want, ok := m[k]
			if x.t.Exist(x.s.To(R{K: k})) != ok {
				return fmt.Errorf("Exist(%d) != %v", k, ok)
			}
			got, err := x.t.GetPoint(bg, x.s.To(R{K: k}))
			if ok && (err != nil || x.s.From(got) != want) || !ok && !errors.Is(err, bond.ErrNotFound) {
				return fmt.Errorf("GetPoint(%d): %v, %v", k, x.s.From(got), err)
			}
		}
		for ii := -1; ii < len(x.s.Specs); ii++ {
			var sels []qsel
			if ii < 0 {
				sels = append(sels, qsel{ii, selDefault, nil})
			}
			lo, hi := R{K: 0, A: 0, B: 2}, R{K: len(pk10) - 1, A: len(a10) - 1, B: 0}
			if ii >= 0 && x.s.Specs[ii].Order != nil && string(x.s.Specs[ii].Order(hi)) < string(x.s.Specs[ii].Order(lo)) {
				lo.B, hi.B = 0, 2
			}
			sels = append(sels, qsel{ii, selRange, []R{lo, hi}})
			for a := range a10 {
				sels = append(sels, qsel{ii, selRange, []R{{K: 0, A: a, B: lo.B}, {K: len(pk10) - 1, A: a, B: hi.B}}})
				if ii >= 0 {
					sels = append(sels, qsel{ii, selPoint, []R{{A: a, B: lo.B}}})
				}
			}
			for _, q := range sels {
				for _, rev := range []bool{false, true} {
					if err := x.checkQuery(m, qspec{sel: q, rev: rev}); err != nil {
						return fmt.Errorf("index %d: %w", ii, err)
					}
				}
			}
			if ii >= 0 {
				for _, rev := range []bool{false, true} {
					var out []RowS
					if err := x.t.ScanIndex(bg, x.idx[ii], x.selector(sels[0]), &out, rev); err != nil {
						return err
					}
					if want := x.refSelect(m, sels[0], rev); !eqRows(x.s.Rs(out), want) {
						return fmt.Errorf("scan of index %d reverse %v: %v, expected %v", ii, rev, x.s.Rs(out), want)
					}
				}
			}
		}
		for _, rev := range []bool{false, true} {
			var out []RowS
			if err := x.t.Scan(bg, &out, rev); err != nil {
				return err
			}
			want := m.Rows()
			// rows in key order
			want = x.refSelect(m, qsel{-1, selDefault, nil}, rev)
			if !eqRows(x.s.Rs(out), want) {
				return fmt.Errorf("scan reverse %v: %v, expected %v", rev, x.s.Rs(out), want)
			}
		}
		return nil
	})
	for ii := range x.idx {
		ix := x.idx[ii]
		do(fmt.Sprintf("ReIndex(%d)", x.s.Specs[ii].ID), m, func() error { return x.t.ReIndex([]*bond.Index[RowS]{ix}) })
	}
	if len(x.idx) > 0 {
		do("ReIndex(all)", m, func() error { return x.t.ReIndex(x.idx) })
	}
	// an index more, in another table object over the same rows
	used := map[byte]bool{}
	for _, id := range g.ids[i] {
		used[id] = true
	}
	for _, id := range []byte{1, 2, 3, 128, 253, 254, 255} {
		if used[id] {
			continue
		}
		for kind := 0; kind < 4; kind++ {
			id, kind := id, kind
			do(fmt.Sprintf("add and remove index %d", id), m, func() error {
				t := bond.NewTable(bond.TableOptions[RowS]{DB: w.env.DB, TableID: x.s.TableID, TableName: x.s.Name, TablePrimaryKeyFunc: x.s.KeyFunc, Serializer: x.s.Serializer})
				if err := t.AddIndex([]*bond.Index[RowS]{index10(id, kind)}, true); err != nil {
					return err
				}
				want, sp := w.want(base), spec10(id, kind)
				for _, r := range m {
					if sp.In == nil || sp.In(r) {
						want[x.s.IdxKey(sp, r)] = ""
					}
				}
				if got := w.env.Dump(); !want.Equal(got) {
					return fmt.Errorf("after adding index %d: %s", id, Diff(want, got))
				}
				// take its entries out again
				if err := w.env.DB.Backend().DeleteRange([]byte{byte(x.s.TableID), id}, next10(byte(x.s.TableID), id), pebble.NoSync); err != nil {
					return err
				}
				return nil
			})
		}
	}
}

func next10(t, i byte) []byte {
	if i < 255 {
		return []byte{t, i + 1}
	}
	if t < 255 {
		return []byte{t + 1}
	}
	return []byte{255, 255, 255, 255, 255, 255, 255, 255}
}
