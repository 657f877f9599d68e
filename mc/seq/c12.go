package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/bloom"
	"github.com/go-bond/bond/filters"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

func init() {
	Register(&Check{ID: "C12", Level: "model_checking", Quick: 200, Run: runC12,
		Rule: "state = (rows, keys the live filter was given, what is stored of the filter and its configuration); transition = one real call (write, batch write, save, clear, reopen with the same or another configuration); every history up to the depth is run from scratch; compared: every read, duplicate inserts and membership of every stored row"})
}

type f12cfg struct {
	n       uint
	fp      float64
	buckets int
}

var cfgs12 = []f12cfg{{100, 0.01, 1}, {100, 0.01, 3}, {500, 0.01, 3}, {100, 0.001, 1}}

type f12op int

const (
	fIns0 f12op = iota
	fIns1
	fUpsert1
	fUpdate0
	fDel0
	fUnsafeIns1
	fBatchIns0
	fBatchDrop1
	fSave
	fLoad
	fClear
	fReopen
	fReopen1
	fReopen2
	fReopen3
	fFail1
	fFail2
	fRetry2
	fOps
)

var f12names = []string{"insert 0", "insert 1", "upsert 1", "update 0", "delete 0", "unsafe insert 1", "insert 0 in a batch", "insert 1 in a dropped batch", "save", "load again", "clear",
	"reopen", "reopen with other buckets", "reopen with other size", "reopen with other rate",
	"save failing at the first write", "save failing at the second write", "save failing at the second write and again"}

func (o f12op) String() string { return f12names[o] }

type storer struct {
	name  string
	make  func(c *Ctx, env *Env) bond.FilterStorer
	reset func(env *Env, s bond.FilterStorer)
}

func runC12(c *Ctx) {
	depth, few12, least := 3, 4, 5
	if c.Thorough() {
		depth, few12, least = 4, 6, 7
	}
	objects12(c)
	inits12(c)
	every12(c)
	all := make([]f12op, fOps)
	for i := range all {
		all[i] = f12op(i)
	}
	// what matters for the life of the filter itself
	few := []f12op{fIns0, fIns1, fDel0, fSave, fClear, fReopen, fReopen1, fFail2, fRetry2}
	// rows that come, go and come back between two saves
	fewest := []f12op{fIns0, fIns1, fDel0, fSave, fReopen}
	defer prefixes12(c)
	defer storers12(c)
	prefix := bond.NewUserKey("flt_")
	storers := []storer{
		{"database", func(c *Ctx, env *Env) bond.FilterStorer { return env.DB }, func(env *Env, _ bond.FilterStorer) {
			_ = env.DB.Backend().DeleteRange(prefix, append(append([]byte{}, prefix...), 0xFF), pebble.NoSync)
		}},
		{"files", func(c *Ctx, env *Env) bond.FilterStorer {
			dir := env.Dir + "/flt"
			_ = os.MkdirAll(dir, 0755)
			return filters.NewFSFilterStorer(dir)
		}, func(env *Env, _ bond.FilterStorer) {
			_ = os.RemoveAll(env.Dir + "/flt")
			_ = os.MkdirAll(env.Dir+"/flt", 0755)
		}},
	}
	for _, x := range []struct {
		ops   []f12op
		depth int
	}{{fewest, least}, {few, few12}, {all, depth}} {
		for si, st := range storers {
			for _, wrapped := range []bool{true, false} {
				if !wrapped && (si == 1 || x.depth != depth) || si == 1 && x.depth == least {
					continue
				}
				st, wrapped, x := st, wrapped, x
				c.Part(fmt.Sprintf("histories of %d of %d calls, filter in %s, initializable %v", x.depth, len(x.ops), st.name, wrapped), func() {
					histories12(c, st, prefix, x.ops, x.depth, wrapped)
				})
			}
		}
	}
}

func histories12(c *Ctx, st storer, prefix []byte, ops []f12op, depth int, wrapped bool) {
	var firsts [][]f12op
	for _, a := range ops {
		for _, b := range ops {
			firsts = append(firsts, []f12op{a, b})
		}
	}
	ws := make([]*world[RowV], 64)
	c.Parallel(len(firsts), func(wk, i int) {
		if ws[wk] == nil {
			ws[wk] = newWorld(c, ShapeV())
			ws[wk].env.Max = 2000
		}
		w := ws[wk]
		var rec func(seq []f12op)
		rec = func(seq []f12op) {
			if c.Stop() {
				return
			}
			sig := "filter"
			ok := c.Exec(sig, func() any { return fmt.Sprint(seq) }, func() error {
				stale, err := run12(c, w, st, prefix, seq, wrapped)
				if err != nil && stale {
					// reported under its own name
					c.Violate("stale saved filter", err.Error(), fmt.Sprint(seq))
					return nil
				}
				return err
			})
			c.AddStates(1)
			c.AddTransitions(len(seq))
			c.AddTraces(1)
			if !ok || len(seq) >= depth {
				return
			}
			for _, o := range ops {
				rec(append(seq[:len(seq):len(seq)], o))
			}
		}
		rec(firsts[i])
	})
	for _, w := range ws {
		if w != nil {
			_ = w.env.Close()
		}
	}
	c.Sample([]string{fIns0.String(), fSave.String(), fReopen1.String(), fIns1.String()})
}

// run12 runs one history. stale tells that a saved filter was loaded that was
// older than the rows.
func run12(c *Ctx, w *world[RowV], st storer, prefix []byte, seq []f12op, wrapped bool) (stale bool, err error) {
	w.dump()
	w.set(Model{})
	s0 := st.make(c, w.env)
	st.reset(w.env, s0)
	s := &failing12{FilterStorer: s0}
	unsure := false // of whether what is stored is complete
	m := Model{}
	cfg := 0
	savedCfg, saved := -1, map[int]bool{}
	live := map[int]bool{}
	var f bond.Filter
	var t bond.Table[RowV]
	open := func() error {
		var nf bond.Filter = bloom.NewBloomFilter(cfgs12[cfg].n, cfgs12[cfg].fp, cfgs12[cfg].buckets, prefix)
		fi, isFI := (*bond.FilterInitializable)(nil), false
		if wrapped {
			fi = &bond.FilterInitializable{Filter: nf}
			nf, isFI = fi, true
		}
		f = nf
		t = bond.NewTable(bond.TableOptions[RowV]{DB: w.env.DB, TableID: w.s.TableID, TableName: w.s.Name, TablePrimaryKeyFunc: w.s.KeyFunc, Serializer: w.s.Serializer, Filter: nf})
		if err := t.AddIndex(w.s.Indexes()); err != nil {
			return err
		}
		scanners := []bond.TableScanner[any]{bond.TableAnyScanner[RowV](t)}
		if isFI {
			// before initialisation nothing is hidden
			if err := checkRows12(w, t, f, m); err != nil {
				return fmt.Errorf("before initialisation: %w", err)
			}
			return fi.Initialize(bg, s, scanners)
		}
		return bond.FilterInitialize(bg, nf, s, scanners)
	}
	modelOpen := func() {
		live = map[int]bool{}
		if savedCfg == cfg {
			for k := range saved {
				live[k] = true
			}
		} else {
			for k := range m {
				live[k] = true
			}
			savedCfg, saved, unsure = -1, map[int]bool{}, false
		}
	}
	save := func() {
		savedCfg, saved, unsure = cfg, map[int]bool{}, false
		for k := range live {
			saved[k] = true
		}
	}
	if err := open(); err != nil {
		return false, err
	}
	modelOpen()
	x := func(k, a int) R { return R{K: k, A: a, B: 1, P: true, S: "x"} }
	for i, o := range seq {
		var op1 *op
		switch o {
		case fIns0:
			op1 = &op{opInsert, []R{x(0, 1)}}
		case fIns1:
			op1 = &op{opInsert, []R{x(1, 1)}}
		case fUpsert1:
			op1 = &op{opUpsertReplace, []R{x(1, 2)}}
		case fUpdate0:
			op1 = &op{opUpdate, []R{x(0, 2)}}
		case fDel0:
			op1 = &op{opDelete, []R{x(0, 1)}}
		case fUnsafeIns1:
			op1 = &op{opUnsafeInsert, []R{x(1, 2)}}
			if !unsafeOK(m, *op1) {
				return false, nil
			}
		}
		switch {
		case op1 != nil:
			n, werr := refApply(m, *op1)
			err := implApply(w.s, t, m, *op1)
			if (err != nil) != (werr != nil) {
				return stale, fmt.Errorf("%v: call %d returned %v, without a filter %v", seq, i, err, werr)
			}
			for k := range n {
				if _, ok := m[k]; !ok {
					live[k] = true
				}
			}
			m = n
		case o == fBatchIns0 || o == fBatchDrop1:
			k := 0
			if o == fBatchDrop1 {
				k = 1
			}
			b := w.env.DB.Batch(bond.BatchTypeReadWrite)
			n, werr := refApply(m, op{opInsert, []R{x(k, 1)}})
			err := implApply(w.s, t, m, op{opInsert, []R{x(k, 1)}}, b)
			if err == nil && werr == nil {
				if e := checkRows12(w, t, f, n, b); e != nil {
					_ = b.Close()
					return stale, fmt.Errorf("%v: call %d, inside of the batch: %w", seq, i, e)
				}
				if o == fBatchIns0 {
					if cerr := b.Commit(bond.Sync); cerr != nil {
						_ = b.Close()
						return stale, cerr
					}
					m = n
					live[0] = true
				}
			}
			_ = b.Close()
			if (err != nil) != (werr != nil) {
				return stale, fmt.Errorf("%v: call %d returned %v, without a filter %v", seq, i, err, werr)
			}
		case o == fSave:
			if err := f.Save(bg, s); err != nil {
				return stale, fmt.Errorf("save: %v", err)
			}
			save()
		case o == fFail1 || o == fFail2 || o == fRetry2:
			s.failAt = 2
			if o == fFail1 {
				s.failAt = 1
			}
			err := f.Save(bg, s)
			if s.failAt > 0 { // less to write
				s.failAt = 0
				if err != nil {
					return stale, fmt.Errorf("save: %v", err)
				}
				save()
				break
			}
			if err == nil {
				return stale, fmt.Errorf("%v: a failed save was not reported", seq)
			}
			if savedCfg != cfg {
				// none of it or all of it can be loaded
				save()
				unsure = true
			}
			if o == fRetry2 {
				if err := f.Save(bg, s); err != nil {
					return stale, fmt.Errorf("save again: %v", err)
				}
				save()
			}
		case o == fLoad:
			err := f.Load(bg, s)
			if (err == nil) != (savedCfg == cfg) && !unsure {
				return stale, fmt.Errorf("%v: load with saved configuration %d, own %d: %v", seq, savedCfg, cfg, err)
			}
			for k := range saved {
				live[k] = true
			}
		case o == fClear:
			if err := f.Clear(bg, s); err != nil {
				return stale, fmt.Errorf("clear: %v", err)
			}
			savedCfg, saved, unsure = -1, map[int]bool{}, false
		default:
			cfg = int(o - fReopen)
			if err := open(); err != nil {
				return stale, fmt.Errorf("%v: open: %v", seq, err)
			}
			modelOpen()
		}
		for k := range m {
			if !live[k] {
				stale = true
			}
		}
	}
	if err := checkRows12(w, t, f, m); err != nil {
		return stale, fmt.Errorf("%v: %w", seq, err)
	}
	// a row that is stored can not be inserted again
	for k := range m {
		if err := implApply(w.s, t, m, op{opInsert, []R{x(k, 2)}}); err == nil {
			w.dump()
			return stale, fmt.Errorf("%v: row %d was inserted twice", seq, k)
		}
	}
	return stale, w.s.Compare(m, w.dump())
}

// failing12 fails the failAt-th write.
type failing12 struct {
	bond.FilterStorer
	failAt int
}

func (f *failing12) Set(k, v []byte, o bond.WriteOptions, b ...bond.Batch) error {
	if f.failAt > 0 {
		if f.failAt--; f.failAt == 0 {
			return errors.New("write failed")
		}
	}
	return f.FilterStorer.Set(k, v, o, b...)
}

func checkRows12(w *world[RowV], t bond.Table[RowV], f bond.Filter, m Model, b ...bond.Batch) error {
	keep := w.t
	w.t = t
	defer func() { w.t = keep }()
	for k := range m {
		if !f.MayContain(bg, []byte(w.s.DataKey(k))) {
			return fmt.Errorf("row %d is stored but the filter denies it", k)
		}
	}
	for k := 0; k < 3; k++ {
		_, err := t.GetPoint(bg, w.s.To(R{K: k}), b...)
		if _, ok := m[k]; ok != (err == nil) || !ok && !errors.Is(err, bond.ErrNotFound) {
			return fmt.Errorf("GetPoint(%d): %v", k, err)
		}
	}
	return w.reads(m, []int{0, 1, 2}, 2, b...)
}

// prefixes12: several filters in one store, with key prefixes of any bytes.
func prefixes12(c *Ctx) {
	c.Part("filters with other key prefixes in one store", func() {
		prefixes := [][]byte{[]byte("a_"), []byte("b_"), []byte("c\xff"), []byte("d~"), []byte("e9"), []byte("fz"), bond.NewUserKey("g_"), bond.NewUserKey("h\xfe")}
		for si := 0; si < 2; si++ {
			for i := range prefixes {
				for j := range prefixes {
					if i == j {
						continue
					}
					si, i, j := si, i, j
					c.Exec("prefixes", func() any { return fmt.Sprintf("%d %q %q", si, prefixes[i], prefixes[j]) }, func() error {
						env := c.NewEnv(nil, nil, nil)
						defer func() { _ = env.Close() }()
						var s bond.FilterStorer = env.DB
						if si == 1 {
							_ = os.MkdirAll(env.Dir+"/flt", 0755)
							s = filters.NewFSFilterStorer(env.Dir + "/flt")
						}
						mk := func(p []byte) *bloom.BloomFilter { return bloom.NewBloomFilter(100, 0.01, 12, p) }
						a, b := mk(prefixes[i]), mk(prefixes[j])
						var ka, kb [][]byte
						for x := 0; x < 30; x++ {
							ka = append(ka, []byte(fmt.Sprint("a", x)))
							kb = append(kb, []byte(fmt.Sprint("b", x)))
							a.Add(bg, ka[x])
							b.Add(bg, kb[x])
						}
						all := func(f *bloom.BloomFilter, keys [][]byte, what string) error {
							for _, k := range keys {
								if !f.MayContain(bg, k) {
									return fmt.Errorf("%s: key %q lost", what, k)
								}
							}
							return nil
						}
						if err := a.Save(bg, s); err != nil {
							return err
						}
						if err := b.Save(bg, s); err != nil {
							return err
						}
						a2, b2 := mk(prefixes[i]), mk(prefixes[j])
						if err := a2.Load(bg, s); err != nil {
							return fmt.Errorf("load: %v", err)
						}
						if err := b2.Load(bg, s); err != nil {
							return fmt.Errorf("load: %v", err)
						}
						if err := all(a2, ka, "after load"); err != nil {
							return err
						}
						if err := all(b2, kb, "after load"); err != nil {
							return err
						}
						// a change in every bucket, saved again over the first
						for x := 0; x < 30; x++ {
							k := []byte(fmt.Sprint("a+", x))
							ka = append(ka, k)
							a2.Add(bg, k)
						}
						if err := a2.Save(bg, s); err != nil {
							return err
						}
						if err := b2.Clear(bg, s); err != nil {
							return fmt.Errorf("clear: %v", err)
						}
						a3, b3 := mk(prefixes[i]), mk(prefixes[j])
						if err := a3.Load(bg, s); err != nil {
							return fmt.Errorf("load after the other one was cleared: %v", err)
						}
						if err := all(a3, ka, "after second load"); err != nil {
							return err
						}
						if err := b3.Load(bg, s); err == nil {
							return fmt.Errorf("a cleared filter was loaded")
						}
						return nil
					})
					c.AddStates(4)
					c.AddTransitions(9)
				}
			}
		}
	})
}

// memory12 is a storer in memory.
type memory12 map[string][]byte

type nop12 struct{}

func (nop12) Close() error { return nil }

func (m memory12) Get(k []byte, _ ...bond.Batch) ([]byte, io.Closer, error) {
	if v, ok := m[string(k)]; ok {
		return append([]byte{}, v...), nop12{}, nil
	}
	return nil, nil, bond.ErrNotFound
}

func (m memory12) Set(k, v []byte, _ bond.WriteOptions, _ ...bond.Batch) error {
	m[string(k)] = append([]byte{}, v...)
	return nil
}

func (m memory12) DeleteRange(lo, hi []byte, _ bond.WriteOptions, _ ...bond.Batch) error {
	for k := range m {
		if k >= string(lo) && k < string(hi) {
			delete(m, k)
		}
	}
	return nil
}

// objects12 explores the life of filter objects over one store: additions of
// new and of known keys, saves (also failing ones), loads into the same and
// into a new object.
func objects12(c *Ctx) {
	names := []string{"add 0", "add 1", "add 2", "save", "failing save", "new object, load", "load", "clear"}
	all, few := []int{0, 1, 2, 3, 4, 5, 6, 7}, []int{0, 1, 3, 4, 5, 7}
	keys := [][]byte{[]byte("k0"), []byte("k1"), []byte("k2")}
	for _, x := range []struct {
		ops             []int
		quick, thorough int
	}{{few, 6, 7}, {all, 5, 6}} {
		depth := x.quick
		if c.Thorough() {
			depth = x.thorough
		}
		for _, buckets := range []int{1, 2} {
			buckets, x := buckets, x
			c.Part(fmt.Sprintf("filter objects of %d buckets, histories of %d of %d calls", buckets, depth, len(x.ops)), func() {
				n := 1
				for i := 0; i < depth; i++ {
					n *= len(x.ops)
				}
				c.Parallel(n, func(_, i int) {
					seq := make([]int, depth)
					for j, y := depth-1, i; j >= 0; j, y = j-1, y/len(x.ops) {
						seq[j] = x.ops[y%len(x.ops)]
					}
					// a history that does not end with a load is the
					// beginning of one that does
					if last := seq[depth-1]; last != 5 && last != 6 {
						return
					}
					c.Exec("filter objects", func() any {
						var l []string
						for _, o := range seq {
							l = append(l, names[o])
						}
						return fmt.Sprint(buckets, " buckets: ", l)
					}, func() error { return object12(seq, buckets, keys) })
					c.AddStates(1)
					c.AddTransitions(depth)
					c.AddTraces(1)
				})
			})
		}
	}
}

func object12(seq []int, buckets int, keys [][]byte) error {
	prefix := []byte("p_")
	mem := memory12{}
	s := &failing12{FilterStorer: mem}
	mk := func() *bloom.BloomFilter { return bloom.NewBloomFilter(8, 0.001, buckets, prefix) }
	f := mk()
	live, saved := map[int]bool{}, map[int]bool{}
	// stored: a whole filter is stored; unsure: none or a whole one
	stored, unsure := false, false
	for i, o := range seq {
		switch {
		case o < 3:
			f.Add(bg, keys[o])
			live[o] = true
		case o == 3 || o == 4:
			if o == 4 {
				s.failAt = 2
			}
			err := f.Save(bg, s)
			failed := o == 4 && s.failAt == 0
			s.failAt = 0
			if (err != nil) != failed {
				return fmt.Errorf("call %d, save: %v", i, err)
			}
			if !failed {
				stored, unsure = true, false
				saved = map[int]bool{}
				for k := range live {
					saved[k] = true
				}
			} else if !stored {
				unsure = true
			}
		case o == 5 || o == 6:
			if o == 5 {
				f = mk()
				live = map[int]bool{}
			}
			err := f.Load(bg, s)
			if (err == nil) != stored && !unsure {
				return fmt.Errorf("call %d, load: %v", i, err)
			}
			if err != nil {
				f = mk()
				live = map[int]bool{}
				break
			}
			for k := range saved {
				live[k] = true
			}
		case o == 7:
			if err := f.Clear(bg, s); err != nil {
				return err
			}
			if len(mem) > 0 {
				return fmt.Errorf("call %d: clear left %d keys", i, len(mem))
			}
			stored, unsure = false, false
			saved = map[int]bool{}
		}
		for k := range live {
			if !f.MayContain(bg, keys[k]) {
				return fmt.Errorf("key %d is lost after call %d", k, i)
			}
		}
	}
	return nil
}

// every12: every call on a table whose filter knows the stored rows, for all
// lists of rows, and lists longer than one chunk.
func every12(c *Ctx) {
	xy := []R{{A: 1, B: 1, P: true, S: "x"}}
	every12t(c, "no indexes", noIdx(ShapeV), []int{0, 1, 2}, xy, 3, 1)
	every12t(c, "indexes", ShapeV, []int{0, 1, 2}, xy, 3, 1)
	every12t(c, "pointers", noIdx(ShapeP), []int{2, 5}, xy, 3, 1)
	every12t(c, "no indexes", noIdx(ShapeV), []int{0, 1}, xy, 2, 2)
	every12t(c, "indexes", ShapeV, []int{0, 1}, xy, 2, 2)
	chunks12(c)
}

func every12t[T any](c *Ctx, name string, mk func() *Shape[T], keys []int, vals []R, maxLen, calls int) {
	c.Part(fmt.Sprintf("%d calls on a filtered table, %s, lists of %d rows", calls, name, maxLen), func() {
		ls := lists(rowsOver(keys, vals), maxLen)[1:]
		var ops []op
		for _, k := range allKinds {
			for _, l := range ls {
				ops = append(ops, op{k, l})
			}
		}
		each(c, mk, models(keys, vals), func(w *world[T], m Model) {
			c.AddStates(1)
			var rec func(seq []op, n Model)
			rec = func(seq []op, n Model) {
				if len(seq) == calls {
					modes := 4 // the last two are not read, so take one call
					if calls > 1 {
						modes = 2
					}
					for mode := 0; mode < modes; mode++ {
						if c.Stop() {
							return
						}
						c.Exec(name, func() any { return fmt.Sprint(m.Rows(), seq, " mode ", mode) }, func() error { return w.filtered(m, seq, mode) })
						c.AddTransitions(calls)
						c.AddTraces(1)
					}
					return
				}
				for _, o := range ops {
					if o.kind >= opUnsafeInsert && !unsafeOK(n, o) {
						continue
					}
					if x, err := refApply(n, o); err == nil || len(seq) == 0 {
						rec(append(seq[:len(seq):len(seq)], o), x)
					}
				}
			}
			rec(nil, m)
		})
	})
}

// filtered runs calls on a filtered table: directly, in one batch of each kind
// or each in a batch of its own applied to a common one.
func (w *world[T]) filtered(m Model, seq []op, mode int) error {
	w.set(m)
	var f bond.Filter = bloom.NewBloomFilter(1000, 0.0001, 3)
	keys := []int{}
	for k := 0; k < 6; k++ {
		keys = append(keys, k)
		if _, ok := m[k]; ok {
			f.Add(bg, []byte(w.s.DataKey(k)))
		}
	}
	w.s.Filter = f
	t, _ := w.s.NewTable(w.env.DB)
	w.s.Filter = nil
	keep := w.t
	w.t = t
	defer func() { w.t = keep }()
	var b bond.Batch
	switch mode {
	case 1, 3:
		b = w.env.DB.Batch(bond.BatchTypeReadWrite)
	case 2:
		b = w.env.DB.Batch(bond.BatchTypeWriteOnly)
	}
	n := m
	for _, o := range seq {
		next, werr := refApply(n, o)
		var err error
		switch mode {
		case 0:
			err = implApply(w.s, t, n, o)
		case 1, 2:
			err = implApply(w.s, t, n, o, b)
		case 3:
			b2 := w.env.DB.Batch(bond.BatchTypeReadWrite)
			if err = implApply(w.s, t, n, o, b2); err == nil {
				if err := b.Apply(b2, bond.Sync); err != nil {
					return err
				}
			}
			_ = b2.Close()
		}
		if (err != nil) != (werr != nil) {
			_ = w.undo(b)
			return fmt.Errorf("%v on %v: %v, without a filter %v", seq, m.Rows(), err, werr)
		}
		if err != nil {
			if mode != 0 {
				return w.undo(b)
			}
			break
		}
		n = next
		if mode == 1 {
			for k := range n {
				if !f.MayContain(bg, []byte(w.s.DataKey(k))) || !t.Exist(w.s.To(R{K: k}), b) {
					_ = w.undo(b)
					return fmt.Errorf("%v on %v: row %d is in the batch but the filter denies it", seq, m.Rows(), k)
				}
			}
		}
	}
	if b != nil {
		if err := b.Commit(bond.Sync); err != nil {
			return err
		}
		_ = b.Close()
	}
	for k := range n {
		if !f.MayContain(bg, []byte(w.s.DataKey(k))) {
			w.dump()
			return fmt.Errorf("%v on %v: row %d is stored but the filter denies it", seq, m.Rows(), k)
		}
	}
	if err := w.reads(n, keys, 1); err != nil {
		w.dump()
		return fmt.Errorf("%v: %w", seq, err)
	}
	for k := range n {
		if err := implApply(w.s, t, n, op{opInsert, []R{{K: k, A: 2, S: "y"}}}); err == nil {
			w.dump()
			return fmt.Errorf("%v on %v: row %d was inserted twice", seq, m.Rows(), k)
		}
	}
	return w.s.Compare(n, w.dump())
}

func (w *world[T]) undo(b bond.Batch) error {
	if b != nil {
		_ = b.Close()
	}
	return nil
}

func chunks12(c *Ctx) {
	c.Part("lists longer than one chunk", func() {
		sizes := []int{100, 101, 4999, 5000, 5001, 10001}
		if c.Thorough() {
			sizes = append(sizes, 128, 256, 1000, 1001, 9999, 10000, 15000, 15001)
		}
		type kase struct{ n, call, mode, order int }
		var ks []kase
		for _, n := range sizes {
			for call := 0; call < 4; call++ {
				for mode := 0; mode < 3; mode++ {
					for order := 0; order < 3; order++ {
						ks = append(ks, kase{n, call, mode, order})
					}
				}
			}
		}
		c.ParallelN(6, len(ks), func(_, i int) {
			k := ks[i]
			if c.Stop() {
				return
			}
			c.Exec("long lists", func() any { return fmt.Sprintf("%+v", k) }, func() error {
				env := c.NewEnv(nil, nil, nil)
				defer func() { _ = env.Close() }()
				f := bloom.NewBloomFilter(40000, 0.00001, 4)
				t := bond.NewTable(bond.TableOptions[*BigRow]{DB: env.DB, TableID: 1, TableName: "big", Filter: f,
					TablePrimaryKeyFunc: func(b bond.KeyBuilder, r *BigRow) []byte { return b.AddUint64Field(r.ID).Bytes() }})
				rows := make([]*BigRow, k.n)
				for i := range rows {
					id := i
					switch k.order {
					case 1:
						id = k.n - i - 1
					case 2:
						id = (i + k.n/3) % k.n
					}
					rows[i] = &BigRow{ID: uint64(id), V: 1}
				}
				var before []*BigRow
				if k.call == 2 { // every third row is there already
					for _, r := range rows {
						if r.ID%3 == 0 {
							before = append(before, &BigRow{ID: r.ID})
						}
					}
					if err := t.Insert(bg, before); err != nil {
						return err
					}
				}
				var bs []bond.Batch
				switch k.mode {
				case 1:
					bs = append(bs, env.DB.Batch(bond.BatchTypeReadWrite))
				case 2:
					bs = append(bs, env.DB.Batch(bond.BatchTypeWriteOnly))
				}
				var err error
				switch k.call {
				case 0:
					err = t.Insert(bg, rows, bs...)
				case 1, 2:
					err = t.Upsert(bg, rows, bond.TableUpsertOnConflictReplace[*BigRow], bs...)
				case 3:
					err = t.(bond.TableUnsafeInserter[*BigRow]).UnsafeInsert(bg, rows, bs...)
				}
				if err != nil {
					return err
				}
				for _, b := range bs {
					if err := b.Commit(bond.Sync); err != nil {
						return err
					}
					_ = b.Close()
				}
				for _, r := range rows {
					if !t.Exist(&BigRow{ID: r.ID}) {
						return fmt.Errorf("row %d is stored but denied", r.ID)
					}
				}
				got, err := t.Get(bg, bond.NewSelectorPoints(rows...))
				if err != nil || len(got) != len(rows) {
					return fmt.Errorf("get of all: %d %v", len(got), err)
				}
				for i := range got {
					if got[i] == nil || *got[i] != *rows[i] {
						return fmt.Errorf("row %d of the list read as %v", i, got[i])
					}
				}
				for _, id := range []int{0, 99, 100, 4998, 4999, 5000, 5001, k.n - 1} {
					if id < k.n {
						if err := t.Insert(bg, []*BigRow{{ID: uint64(id)}}); err == nil {
							return fmt.Errorf("row %d was inserted twice", id)
						}
					}
				}
				return nil
			})
			c.AddStates(1)
			c.AddTransitions(2)
			c.AddTraces(1)
		})
	})
}

// scan12 is a scanner whose scan fails after some rows, if asked to.
type scan12 struct {
	bond.TableScanner[any]
	failAt *int
	own    int
	during func() // called in the middle of a scan
}

func (s scan12) ScanForEach(ctx context.Context, f func(bond.KeyBytes, bond.Lazy[any]) (bool, error), reverse bool, b ...bond.Batch) error {
	rows := 0
	err := s.TableScanner.ScanForEach(ctx, func(k bond.KeyBytes, l bond.Lazy[any]) (bool, error) {
		rows++
		s.during()
		if *s.failAt == s.own && rows == 2 {
			return false, errors.New("read failed")
		}
		return f(k, l)
	}, reverse, b...)
	if err == nil && *s.failAt == s.own {
		return errors.New("read failed")
	}
	return err
}

// faulty12 fails the failAt-th call.
type faulty12 struct {
	memory12
	failAt int
}

func (f *faulty12) hit() bool {
	if f.failAt > 0 {
		f.failAt--
		return f.failAt == 0
	}
	return false
}

func (f *faulty12) Get(k []byte, b ...bond.Batch) ([]byte, io.Closer, error) {
	if f.hit() {
		return nil, nil, errors.New("store failed")
	}
	return f.memory12.Get(k, b...)
}

func (f *faulty12) Set(k, v []byte, o bond.WriteOptions, b ...bond.Batch) error {
	if f.hit() {
		return errors.New("store failed")
	}
	return f.memory12.Set(k, v, o, b...)
}

func (f *faulty12) DeleteRange(lo, hi []byte, o bond.WriteOptions, b ...bond.Batch) error {
	if f.hit() {
		return errors.New("store failed")
	}
	return f.memory12.DeleteRange(lo, hi, o, b...)
}

var init12names = []string{"insert into the first table", "insert into the second table", "save", "initialise", "restart",
	"initialise, first scan failing", "initialise, second scan failing", "initialise, first store call failing", "initialise, second store call failing", "initialise, cancelled", "save, second store call failing"}

// inits12 explores the life of one filter of two tables that is used from the
// start and initialised at some time, also with failures.
func inits12(c *Ctx) {
	depth := 4
	if c.Thorough() {
		depth = 5
	}
	c.Part(fmt.Sprintf("filter of two tables, histories of %d of %d calls around its initialisation", depth+1, len(init12names)), func() {
		k := len(init12names)
		n := 1
		for i := 0; i < depth; i++ {
			n *= k
		}
		ws := make([]*world[RowV], 64)
		c.Parallel(n, func(wk, i int) {
			if c.Stop() {
				return
			}
			if ws[wk] == nil {
				ws[wk] = newWorld(c, noIdx(ShapeV)())
				ws[wk].env.Max = 5000
			}
			// there are rows before anything else happens
			seq := []int{0}
			for j, y := 0, i; j < depth; j, y = j+1, y/k {
				seq = append(seq, y%k)
			}
			c.Exec("initialisation", func() any {
				var l []string
				for _, o := range seq {
					l = append(l, init12names[o])
				}
				return fmt.Sprint(l)
			}, func() error { return init12(ws[wk], seq) })
			c.AddStates(1)
			c.AddTransitions(depth + 1)
			c.AddTraces(1)
		})
		for _, w := range ws {
			if w != nil {
				_ = w.env.Close()
			}
		}
	})
}

func init12(w *world[RowV], seq []int) error {
	w.dump()
	w.set(Model{})
	second := w.s.TableID + 1
	_ = w.env.DB.Backend().DeleteRange([]byte{byte(second), 0, 0, 0, 0, 0}, []byte{byte(second) + 1}, pebble.NoSync)
	st := &faulty12{memory12: memory12{}}
	var fi *bond.FilterInitializable
	var ts [2]bond.Table[RowV]
	var scanners []bond.TableScanner[any]
	scanFail, initialized := 0, false
	var hidden error
	type key struct{ t, k int }
	rows, known, saved := map[key]bool{}, map[key]bool{}, map[key]bool{}
	open := func() {
		fi = &bond.FilterInitializable{Filter: bloom.NewBloomFilter(50, 0.0001, 2, []byte("p_"))}
		initialized, known = false, map[key]bool{}
		scanners = nil
		for i := range ts {
			ts[i] = bond.NewTable(bond.TableOptions[RowV]{DB: w.env.DB, TableID: w.s.TableID + bond.TableID(i), TableName: fmt.Sprint("t", i), TablePrimaryKeyFunc: w.s.KeyFunc, Serializer: w.s.Serializer, Filter: fi})
			scanners = append(scanners, scan12{bond.TableAnyScanner[RowV](ts[i]), &scanFail, i + 1, func() {
				for r := range rows {
					if !ts[r.t].Exist(w.s.To(R{K: r.k})) && (known[r] || !initialized) {
						hidden = fmt.Errorf("row %d of table %d is hidden while the filter is initialised", r.k, r.t+1)
					}
				}
			}})
		}
	}
	open()
	next := 0
	for i, o := range seq {
		switch o {
		case 0, 1:
			r := key{o, next}
			next++
			if err := ts[o].Insert(bg, []RowV{w.s.To(R{K: r.k, A: 1, B: 1})}); err != nil {
				return fmt.Errorf("call %d, insert: %v", i, err)
			}
			rows[r], known[r] = true, true
		case 2, 10:
			if o == 10 {
				st.failAt = 2
			}
			err := fi.Save(bg, st)
			failed := o == 10 && st.failAt == 0
			st.failAt = 0
			if failed && err == nil {
				return fmt.Errorf("call %d: a failed save was not reported", i)
			}
			if err == nil {
				saved = map[key]bool{}
				for r := range rows {
					saved[r] = true
				}
			} else if !failed && initialized {
				return fmt.Errorf("call %d, save: %v", i, err)
			}
		case 4:
			open()
		default:
			ctx := context.Context(bg)
			switch o {
			case 5, 6:
				scanFail = o - 4
			case 7, 8:
				st.failAt = o - 6
			case 9:
				c2, cancel := context.WithCancel(bg)
				cancel()
				ctx = c2
			}
			err := fi.Initialize(ctx, st, scanners)
			scanFail, st.failAt = 0, 0
			if hidden != nil {
				return fmt.Errorf("call %d: %w", i, hidden)
			}
			if err != nil {
				if o == 3 {
					return fmt.Errorf("call %d, initialise: %v", i, err)
				}
				break
			}
			for r := range rows {
				if !saved[r] && !known[r] && len(saved) > 0 {
					return nil // what is saved may be older than the rows
				}
			}
			initialized = true
			for r := range rows {
				known[r] = true
			}
		}
		for r := range rows {
			x := w.s.To(R{K: r.k})
			if !ts[r.t].Exist(x) {
				return fmt.Errorf("row %d of table %d is hidden after call %d", r.k, r.t+1, i)
			}
			if got, err := ts[r.t].Get(bg, bond.NewSelectorPoints(x)); err != nil || len(got) != 1 {
				return fmt.Errorf("row %d of table %d is not returned after call %d: %v %v", r.k, r.t+1, i, got, err)
			}
		}
	}
	for r := range rows {
		if err := ts[r.t].Insert(bg, []RowV{w.s.To(R{K: r.k, A: 2})}); err == nil {
			return fmt.Errorf("row %d of table %d was inserted twice", r.k, r.t+1)
		}
		if err := ts[r.t].Update(bg, []RowV{w.s.To(R{K: r.k, A: 1, B: 1})}); err != nil {
			return fmt.Errorf("row %d of table %d: update: %v", r.k, r.t+1, err)
		}
	}
	return nil
}

// storers12 explores the two storers of saved filters as stores of named
// contents: what was set last is what is read, in full and nothing more.
func storers12(c *Ctx) {
	keys := []string{"f_1", "f_11", "F_1", "f.2_a"}
	vals := []string{strings.Repeat("long ", 2000), "short", ""}
	type op12 struct{ key, val int } // key < 0: the keys with a prefix are deleted
	ranges := []string{"f_", "f.", "f_1"}
	var ops []op12
	for k := range keys {
		for v := range vals {
			ops = append(ops, op12{k, v})
		}
	}
	for r := range ranges {
		ops = append(ops, op12{-1, r})
	}
	c.Part(fmt.Sprintf("storers, histories of 3 of %d calls", len(ops)), func() {
		n := len(ops) * len(ops) * len(ops)
		c.Parallel(2*n, func(_, i int) {
			seq := []op12{ops[i%n/len(ops)/len(ops)], ops[i%n/len(ops)%len(ops)], ops[i%n%len(ops)]}
			c.AddStates(3)
			c.AddTransitions(3)
			c.Exec("storers", func() any { return fmt.Sprintf("%v files %v", seq, i >= n) }, func() error {
				var s bond.FilterStorer
				pre := ""
				if i >= n {
					dir := c.TempDir()
					defer os.RemoveAll(dir)
					s = filters.NewFSFilterStorer(dir)
				} else {
					env := c.NewEnv(nil, nil, nil)
					defer func() { _ = env.Close() }()
					s, pre = env.DB, string(bond.NewUserKey(""))
				}
				m := map[string]string{}
				for _, o := range seq {
					if o.key >= 0 {
						if err := s.Set([]byte(pre+keys[o.key]), []byte(vals[o.val]), bond.Sync); err != nil {
							return fmt.Errorf("set: %v", err)
						}
						m[keys[o.key]] = vals[o.val]
					} else {
						lo := []byte(pre + ranges[o.val])
						hi := append([]byte{}, lo...)
						hi[len(hi)-1]++
						if err := s.DeleteRange(lo, hi, bond.Sync); err != nil {
							return fmt.Errorf("delete range: %v", err)
						}
						for k := range m {
							if strings.HasPrefix(k, ranges[o.val]) {
								delete(m, k)
							}
						}
					}
					for _, k := range keys {
						v, cl, err := s.Get([]byte(pre + k))
						want, ok := m[k]
						if (err == nil) != ok || string(v) != want {
							return fmt.Errorf("after %v: %s has %d bytes, %v; expected %d, present=%v", seq, k, len(v), err, len(want), ok)
						}
						if _, isDB := s.(bond.DB); err == nil && isDB {
							_ = cl.Close()
						}
					}
				}
				return nil
			})
		})
	})
}
