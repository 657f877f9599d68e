package main

import (
	"context"
	"errors"
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
	"github.com/go-bond/bond/internal/vmc/shim/sched"
)

func init() {
	Register(&Check{ID: "C19", Level: "model_checking", Run: runC19, Quick: 110,
		Rule:        "every schedule within the bound of two or three threads of one or two calls each on one real database is executed; scheduling points are the calls to the storage interface and the operations on locks, pools and atomics; results and final raw content must be those of some sequential order of the calls that respects their order in time (calls on different rows, single row reads, scans over rows), or be made of whole records (the rest); bytes given to or got from storage are watched",
		Assumptions: []string{"a call of the storage engine is one step", "writers of the same row are not serialised by the library and only have to leave whole records"}})
	RegisterScenarios("C19", scenarios19)
}

// thread19 is what one thread does: calls, in a batch of its own if batch.
type thread19[T any] struct {
	calls []call[T]
	batch bool
}

func (t thread19[T]) String() string {
	var s []string
	for _, k := range t.calls {
		s = append(s, k.name)
	}
	out := strings.Join(s, ", ")
	if t.batch {
		out += ", commit"
	}
	return out
}

func (t thread19[T]) steps() int {
	if t.batch {
		return len(t.calls) + 1
	}
	return len(t.calls)
}

// conflict: calls whose common outcome need not be that of a sequential order.
func conflict19[T any](a, b call[T]) bool {
	if !a.write && !b.write {
		return false
	}
	if a.write && b.write {
		if a.op == nil || b.op == nil {
			return true
		}
		for _, x := range a.op.rows {
			for _, y := range b.op.rows {
				if x.K == y.K {
					return true
				}
			}
		}
		return false
	}
	r := a
	if a.write {
		r = b
	}
	return !r.point && !r.snap
}

// seq19 is one sequential order and its outcome.
type seq19 struct {
	order  []int
	joint  string
	states []State
	res    [][]string
	errs   [][]string
}

type env19[T any] struct {
	w, v  *world[T]
	t     bond.Table[T]
	h     *HookDB
	bad   error
	f     *filter19
	fresh bool // a new table for every execution
}

// filter19 is an exact filter.
type filter19 struct{ keys map[string]bool }

func (f *filter19) Add(_ context.Context, key []byte) {
	sched.Point("filter")
	f.keys[string(key)] = true
	sched.Point("filter")
}

func (f *filter19) Load(context.Context, bond.FilterStorer) error  { return nil }
func (f *filter19) Save(context.Context, bond.FilterStorer) error  { return nil }
func (f *filter19) Clear(context.Context, bond.FilterStorer) error { return nil }

func (f *filter19) MayContain(_ context.Context, key []byte) bool {
	sched.Point("filter")
	return f.keys[string(key)]
}

// hooks sees to it that the table through the hooks belongs to the database.
func (e *env19[T]) hooks() {
	if e.t == e.w.t && e.v != nil && !e.fresh {
		return
	}
	e.t = e.w.t
	e.h = &HookDB{DB: e.w.env.DB, Poison: true}
	e.h.Before = func(op string) error { sched.Point(op); return nil }
	e.h.Args = func(op string, was, is []byte) {
		if e.bad == nil {
			e.bad = fmt.Errorf("the bytes given to %s became %x, were %x: they are used by another caller", op, is, was)
		}
	}
	s := *e.w.s
	s.At = func() { sched.Point("accessor") }
	fs := FaultSerializer{S: s.Serializer, Point: func(string) error { sched.Point("serializer"); return nil }}
	if _, ok := s.Serializer.(bond.SerializerWithBuffer[any]); ok {
		s.Serializer = &FaultSerializerBuf{fs}
	} else {
		s.Serializer = &fs
	}
	if e.f != nil {
		s.Filter = e.f
	}
	v := *e.w
	v.t, v.idx = s.NewTable(e.h)
	e.v = &v
}

type runner19[T any] struct {
	e    *env19[T]
	r    *rig[T]
	t    thread19[T]
	res  []func() string
	errs []error
	from []int
	to   []int
}

func (x *runner19[T]) step(i int, tick *int) {
	*tick++
	x.from = append(x.from, *tick)
	var f func() string
	var err error
	if i == 0 && x.t.batch {
		x.r.b = []bond.Batch{x.e.h.Batch(bond.BatchTypeReadWrite)}
	}
	if i < len(x.t.calls) {
		f, err = x.t.calls[i].run(x.r)
	} else {
		err = x.r.b[0].Commit(bond.Sync)
		_ = x.r.b[0].Close()
	}
	*tick++
	x.to = append(x.to, *tick)
	if f == nil || err != nil {
		f = func() string { return "" }
	}
	x.res = append(x.res, f)
	x.errs = append(x.errs, err)
}

func (e *env19[T]) runners(base Model, ts []thread19[T]) []*runner19[T] {
	e.w.set(base)
	e.hooks()
	e.bad = nil
	if e.f != nil {
		e.f.keys = map[string]bool{}
		for k := range dataOnly(e.w.cur) {
			e.f.keys[k] = true
		}
	}
	var out []*runner19[T]
	for _, t := range ts {
		out = append(out, &runner19[T]{e: e, t: t, r: &rig[T]{w: e.v, db: e.h, ctx: bg, m: base}})
	}
	return out
}

func errString(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func joint19(res, errs [][]string, st State) string {
	return fmt.Sprint(res, errs, st.Canon())
}

func results19[T any](xs []*runner19[T]) (res, errs [][]string) {
	for _, x := range xs {
		var a, b []string
		for i := range x.res {
			a = append(a, x.res[i]())
			b = append(b, errString(x.errs[i]))
		}
		res, errs = append(res, a), append(errs, b)
	}
	return
}

// sequential executes every order of the steps.
func (e *env19[T]) sequential(base Model, ts []thread19[T]) []seq19 {
	var out []seq19
	var order []int
	left := make([]int, len(ts))
	total := 0
	for i, t := range ts {
		left[i] = t.steps()
		total += left[i]
	}
	var rec func()
	rec = func() {
		if len(order) == total {
			xs := e.runners(base, ts)
			s := seq19{order: append([]int{}, order...), states: []State{e.w.dump()}}
			at := make([]int, len(ts))
			tick := 0
			for _, i := range order {
				xs[i].step(at[i], &tick)
				at[i]++
				s.states = append(s.states, e.w.dump())
			}
			s.res, s.errs = results19(xs)
			s.joint = joint19(s.res, s.errs, s.states[len(s.states)-1])
			out = append(out, s)
			return
		}
		for i := range left {
			if left[i] > 0 {
				left[i]--
				order = append(order, i)
				rec()
				order = order[:len(order)-1]
				left[i]++
			}
		}
	}
	rec()
	return out
}

// possible tells whether the order is one in which the steps could have
// happened.
func possible19[T any](order []int, xs []*runner19[T]) bool {
	at := make([]int, len(xs))
	for p, i := range order {
		// no step that comes later may have ended before this one began
		later := append([]int{}, at...)
		later[i]++
		for _, j := range order[p+1:] {
			if xs[j].to[later[j]] < xs[i].from[at[i]] {
				return false
			}
			later[j]++
		}
		at[i]++
	}
	return true
}

var record19 = regexp.MustCompile(`\{k\d+ a-?\d+ b-?\d+ [-P] "[^"]*"\}`)

// partial names of calls that need not return every record
var partial19 = regexp.MustCompile(`limit|Limit|after|stop at|fail at|offset`)

func allowed19(name string, write bool, err error, seqs []seq19, t, i int) bool {
	if err == nil {
		return true
	}
	for _, s := range seqs {
		if s.errs[t][i] == err.Error() {
			return true
		}
	}
	return !write && errors.Is(err, bond.ErrNotFound)
}

// whole judges outcomes of conflicting calls.
func whole19[T any](xs []*runner19[T], res [][]string, st State, seqs []seq19) error {
	records := map[string]bool{}
	vals := map[string]map[string]bool{} // key -> values, "" prefix for absent
	for _, s := range seqs {
		for _, q := range s.states {
			for k := range q {
				vals[k] = map[string]bool{}
			}
		}
	}
	for _, s := range seqs {
		for _, q := range s.states {
			for k := range vals {
				if v, ok := q[k]; ok {
					vals[k]["="+v] = true
				} else {
					vals[k]["absent"] = true
				}
			}
			if m, err := xs[0].e.w.decode(q); err == nil {
				for _, r := range m {
					records[r.String()] = true
				}
			}
		}
		for _, a := range s.res {
			for _, b := range a {
				for _, r := range record19.FindAllString(b, -1) {
					records[r] = true
				}
			}
		}
	}
	for k, v := range st {
		if vals[k] == nil || !vals[k]["="+v] {
			return fmt.Errorf("key %x holds %q, which no call has stored there", k, v)
		}
	}
	for k, m := range vals {
		if _, ok := st[k]; !ok && !m["absent"] {
			return fmt.Errorf("key %x, untouched by the calls, is gone", k)
		}
	}
	for t, x := range xs {
		for i, c := range x.t.calls {
			if !allowed19(c.name, c.write, x.errs[i], seqs, t, i) {
				return fmt.Errorf("%s failed: %v", c.name, x.errs[i])
			}
			if c.write {
				continue
			}
			got := record19.FindAllString(res[t][i], -1)
			n := map[string]int{}
			for _, r := range got {
				n[r]++
				if !records[r] {
					return fmt.Errorf("%s returned %s, which no call has stored", c.name, r)
				}
			}
			if x.errs[i] != nil || partial19.MatchString(c.name) {
				continue
			}
			// records in every sequential result are there, as often
			var must map[string]int
			for _, s := range seqs {
				if s.errs[t][i] != "" {
					must = nil
					break
				}
				cnt := map[string]int{}
				for _, r := range record19.FindAllString(s.res[t][i], -1) {
					cnt[r]++
				}
				if must == nil {
					must = cnt
				}
				for r := range must {
					if cnt[r] < must[r] {
						must[r] = cnt[r]
					}
				}
			}
			for r, k := range must {
				if n[r] < k {
					return fmt.Errorf("%s did not return %s, which nobody touched: %s", c.name, r, res[t][i])
				}
			}
		}
	}
	return nil
}

func scenario19[T any](name string, first int, mk func() *env19[T], base Model, ts ...thread19[T]) Scenario {
	weak := false
	for i, a := range ts {
		for _, b := range ts[i+1:] {
			for _, x := range a.calls {
				for _, y := range b.calls {
					weak = weak || conflict19(x, y)
				}
			}
		}
	}
	var seqs []seq19
	return Scenario{Name: name, First: first, New: func() ([]func(), func() (string, error)) {
		e := mk()
		if seqs == nil {
			seqs = e.sequential(base, ts)
		}
		xs := e.runners(base, ts)
		tick := 0
		var fs []func()
		for _, x := range xs {
			x := x
			fs = append(fs, func() {
				for i := 0; i < x.t.steps(); i++ {
					if i > 0 {
						sched.Free("between calls")
					}
					x.step(i, &tick)
				}
			})
		}
		return fs, func() (string, error) {
			st := e.w.dump()
			if e.bad != nil {
				return "", e.bad
			}
			for _, x := range xs {
				if err := x.r.changed(); err != nil {
					return "", err
				}
			}
			res, errs := results19(xs)
			j := joint19(res, errs, st)
			for _, s := range seqs {
				if s.joint == j && possible19(s.order, xs) {
					return fmt.Sprint("as ", s.order), nil
				}
			}
			if weak {
				if err := whole19(xs, res, st, seqs); err != nil {
					return "", err
				}
				return "mixed", nil
			}
			near := ""
			for _, s := range seqs {
				if possible19(s.order, xs) {
					near += fmt.Sprintf("; order %v: %v %v %s", s.order, s.res, s.errs, Diff(s.states[len(s.states)-1], st))
				}
			}
			return "", fmt.Errorf("no sequential order of the calls gives the results %v %v%s", res, errs, near)
		}
	}}
}

func lazy19[T any](c *Ctx, mk func() *Shape[T], opt func(e *env19[T])) func() *env19[T] {
	var e *env19[T]
	return func() *env19[T] {
		if e == nil {
			e = &env19[T]{w: newWorld(c, mk())}
			e.w.env.Max = 300
			if opt != nil {
				opt(e)
			}
		}
		return e
	}
}

// named finds calls of the catalogue.
func named[T any](cat []call[T], names ...string) []call[T] {
	var out []call[T]
	for _, n := range names {
		found := 0
		for _, k := range cat {
			if strings.HasPrefix(k.name, n) {
				if found == 0 {
					out = append(out, k)
				}
				found++
			}
		}
		if found == 0 {
			panic("no call " + n)
		}
	}
	return out
}

func do19[T any](cat []call[T], names ...string) thread19[T] {
	return thread19[T]{calls: named(cat, names...)}
}

func batch19[T any](cat []call[T], names ...string) thread19[T] {
	return thread19[T]{calls: named(cat, names...), batch: true}
}

// more19 are calls on top of the catalogue.
func more19[T any]() []call[T] {
	none := func() string { return "" }
	index := func(r *rig[T], id bond.IndexID, add int) *bond.Index[T] {
		return bond.NewIndex(bond.IndexOptions[T]{IndexID: id, IndexName: fmt.Sprint("extra", id),
			IndexKeyFunc: func(b bond.KeyBuilder, t T) []byte {
				sched.Point("accessor")
				x := r.w.s.From(t)
				return b.AddUint32Field(uint32(add + 10*x.A + 100*x.B)).Bytes()
			}})
	}
	out := []call[T]{
		{name: "AddIndex(7)", write: true, op: &op{}, run: func(r *rig[T]) (func() string, error) {
			return none, r.w.t.AddIndex([]*bond.Index[T]{index(r, 7, 5)})
		}},
		{name: "AddIndex(8)", write: true, op: &op{}, run: func(r *rig[T]) (func() string, error) {
			return none, r.w.t.AddIndex([]*bond.Index[T]{index(r, 8, 6)}, true)
		}},
		{name: "indexes", snap: true, run: func(r *rig[T]) (func() string, error) {
			n := 0
			for _, ix := range r.w.t.SecondaryIndexes() {
				n += int(ix.ID())
			}
			return func() string { return fmt.Sprint(n) }, nil
		}},
	}
	for _, q := range []qsel{{0, selPoint, []R{{A: 1}}}, {2, selRange, []R{{A: 1}, {K: 5, A: 2, P: true}}}} {
		q := q
		out = append(out, call[T]{name: fmt.Sprintf("Iter(%v)", q), snap: true, run: func(r *rig[T]) (func() string, error) {
			it := r.w.index(q.idx).Iter(r.w.t, r.sel(q), r.b...)
			var keys []string
			for it.First(); it.Valid(); it.Next() {
				keys = append(keys, fmt.Sprintf("%x", it.Key()))
			}
			err := it.Error()
			if e := it.Close(); err == nil {
				err = e
			}
			return func() string { return fmt.Sprint(keys) }, err
		}})
	}
	for _, o := range []op{
		{opInsert, []R{{K: 4, A: 1, B: 3, S: "n"}}}, {opUpdate, []R{{K: 3, A: 1, B: 3, P: true, S: "u"}}}, {opDelete, []R{{K: 3, A: 2, P: true, S: "a"}}},
		{opUpsertReplace, []R{{K: 5, A: 2, B: 1, P: true, S: "p"}, {K: 3, A: 0, B: 1, S: "p"}}}, {opDelete, []R{{K: 0, A: 1, B: 1, P: true, S: "x"}}},
	} {
		o := o
		out = append(out, call[T]{name: "own " + o.String(), write: true, op: &o, run: func(r *rig[T]) (func() string, error) {
			return none, implApply(r.w.s, r.w.t, Model{}, o, r.b...)
		}})
	}
	return out
}

// family19 are scenarios for one shape of records.
func family19[T any](c *Ctx, name string, mk func() *Shape[T], pairs bool) []Scenario {
	var ss []Scenario
	e := lazy19(c, mk, nil)
	cat := append(catalogue[T](), more19[T]()...)
	add := func(kind string, bound, first int, e func() *env19[T], base Model, ts ...thread19[T]) {
		var n []string
		for _, t := range ts {
			n = append(n, t.String())
		}
		s := scenario19(kind+name+": "+strings.Join(n, " | "), first, e, base, ts...)
		s.Bound = bound
		if c.Thorough() {
			s.Bound = bound + 1
			if bound == 0 {
				s.Bound = 2
			}
		} else if bound == 0 || !pairs {
			s.Bound = 1
		}
		ss = append(ss, s)
	}
	cat0 := catalogue[T]()
	one := func(k call[T]) thread19[T] { return thread19[T]{calls: []call[T]{k}} }
	for i, a := range cat0 {
		for j, b := range cat0[i:] {
			if !a.write && !b.write && i%7 != 0 {
				continue
			}
			if !pairs && (i*3+j)%11 != 0 {
				continue
			}
			add("pair", 0, 0, e, baseModel, one(a), one(b))
		}
	}
	d := func(names ...string) thread19[T] { return do19(cat, names...) }
	b := func(names ...string) thread19[T] { return batch19(cat, names...) }

	// calls in a row see what the thread has done before
	for _, base := range []Model{baseModel, baseModel2} {
		for _, ts := range [][]thread19[T]{
			{d("insert[{k2", "GetPoint(2)"), d("own update[{k3", "Scan(false)")},
			{d("insert[{k2", "Exist(2)"), d("Scan(false)", "GetPoint(2)")},
			{d("own delete[{k3", "Exist(2)"), d("insert[{k2", "Query all")},
			{d("own delete[{k0", "Exist(0)"), d("Exist(0)", "Scan(true)")},
			{d("own insert", "Iter"), d("update[{k1", "Query filter and order")},
			{d("own upsert-replace", "GetPoint(0)"), d("insert[{k2", "Iter(idx0")},
			{d("GetPoint(2)", "GetPoint(2)"), d("insert[{k2", "own delete[{k0")},
			{d("own insert", "own update"), d("insert[{k2", "update[{k1")},
		} {
			add("calls", 1, 0, e, base, ts...)
		}
	}
	// batches become visible as one
	for _, ts := range [][]thread19[T]{
		{b("insert[{k2", "update[{k1"), b("own update")},
		{b("insert[{k2", "update[{k1"), d("Scan(false)")},
		{b("own delete[{k0", "insert[{k2"), d("Exist(2)", "Exist(0)")},
		{b("own delete[{k0", "insert[{k2"), d("GetPoint(0)", "GetPoint(2)")},
		{b("insert[{k2", "Scan(false)"), b("own delete[{k0", "Query all")},
		{b("own upsert-replace", "Iter(idx2"), b("update[{k1", "Query filter")},
		{b("own insert", "ForEach(idx-1"), d("update[{k1", "GetPoint(0)")},
	} {
		add("batch", 1, 0, e, baseModel, ts...)
	}
	// three threads
	for _, ts := range [][]thread19[T]{
		{d("insert[{k2"), d("own update"), d("Scan(false)")},
		{d("insert[{k2"), d("own delete[{k3"), d("GetPoint(2)")},
		{d("update[{k1"), d("own insert"), d("own delete[{k0")},
		{d("own upsert-replace"), d("insert[{k2"), d("Query all")},
		{d("Scan(false)"), d("Query filter"), d("update[{k1")},
		{b("insert[{k2"), b("update[{k1"), d("Exist(2)")},
	} {
		add("three", 1, 0, e, baseModel, ts...)
	}
	for _, ts := range [][]thread19[T]{
		{d("GetPoint(0)"), d("Get(points"), d("own update")},
		{d("ScanIndex(idx0"), d("insert[{k2"), d("own update")},
		{d("Query ordered"), d("Query after"), d("insert[{k2")},
		{d("unsafe-insert"), d("own update"), d("Scan(true)")},
	} {
		add("three", 0, 1, e, baseModel, ts...)
	}
	// a filter
	ef := lazy19(c, mk, func(e *env19[T]) { e.f = &filter19{} })
	for _, ts := range [][]thread19[T]{
		{d("insert[{k2"), d("Scan(false)", "GetPoint(2)")},
		{d("insert[{k2"), d("Scan(false)", "Exist(2)")},
		{d("upsert-replace"), d("Query all", "Get(points")},
		{d("upsert-mix"), d("Query all", "Exist(2)")},
		{d("unsafe-insert"), d("Query all", "Exist(2)")},
		{d("insert[{k2"), d("own upsert-replace"), d("Exist(2)")},
		{b("insert[{k2"), d("Exist(2)", "Exist(2)")},
	} {
		add("filter", 2, 0, ef, baseModel, ts...)
	}
	// the registry of indexes
	ei := lazy19(c, mk, func(e *env19[T]) { e.fresh = true })
	for _, x := range []thread19[T]{d("insert[{k2"), d("own update"), d("own delete[{k0"), d("upsert-mix"), d("indexes", "indexes"), d("unsafe-insert"),
		d("Scan(false)"), d("AddIndex(8)"), d("own upsert-replace", "indexes"), b("own insert", "own update")} {
		add("indexes", 2, 0, ei, baseModel, d("AddIndex(7)"), x)
	}
	for _, x := range []thread19[T]{d("indexes", "GetPoint(0)"), d("Query all"), d("ScanIndex(idx0")} {
		add("indexes", 2, 0, ei, baseModel, d("AddIndex(8)"), x)
	}
	return ss
}

func scenarios19(c *Ctx) []Scenario {
	sched.UnlockPoints = c.Thorough()
	ss := family19(c, "", ShapeS, true)
	ss = append(ss, family19(c, " cbor", ShapeP, c.Thorough())...)
	ss = append(ss, family19(c, " values", ShapeV, c.Thorough())...)
	return ss
}

func runC19(c *Ctx) {
	bound := 2
	if c.Thorough() {
		bound = 3
	}
	if c.Thorough() {
		c.Races(1, 200*time.Second)
	} else {
		c.Races(0, 40*time.Second)
	}
	c.Schedules(bound)
}
