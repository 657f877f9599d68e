package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/internal/vmc/crash"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

func init() {
	Register(&Check{ID: "C14", Level: "model_checking", Quick: 170, Run: runC14,
		Rule: "history = calls on a database in a real directory, its system calls recorded; state = directory after a crash at one point of the record with one pattern of lost, kept or torn unsynced changes; every distinct state is opened again and compared with the contents allowed at that point",
		Assumptions: []string{"a file system keeps what was synced and loses or keeps unsynced changes in the listed patterns (per directory: none, all, first, all but first, last; per file: none, all, last write torn, lost, zeroed)",
			"the calls of one history are made one after another"}})
}

// cstate is the content of the database: rows of the table and other keys.
type cstate struct {
	m Model
	x State
}

type cstep struct {
	name string
	// run makes the calls; the effect is next, durable at the end if sync.
	run  func(w *cworld) error
	next func(s cstate) (cstate, bool)
	sync bool
	// rebuild marks the rebuilding of indexes, which may be interrupted.
	rebuild bool
	// fam: 0 takes part in longer histories.
	fam int
}

// smallShape is a table with the first n indexes only.
func smallShape(n int) *Shape[RowV] {
	s := subShape(ShapeV(), []int{0, 1, 2, 3}[:n])
	s.TableID = bond.TableID(11 + n)
	return s
}

func smallModel(s *Shape[RowV], x State) Model {
	m := Model{}
	for k := 0; k < s.Keys; k++ {
		if v, ok := x[s.DataKey(k)]; ok {
			var r RowV
			if err := json.Unmarshal([]byte(v), &r); err != nil {
				panic(err)
			}
			m[k] = s.From(r)
		}
	}
	return m
}

// cSmall is a call of one row on a table with n indexes.
func cSmall(n int, name string, o op) cstep {
	s := smallShape(n)
	return cstep{name: fmt.Sprintf("%s, %d indexes", name, n), sync: true, fam: 1 + n,
		run: func(w *cworld) error {
			t, _ := smallShape(n).NewTable(w.db)
			return implApply(s, t, smallModel(s, w.x), o)
		},
		next: func(st cstate) (cstate, bool) {
			m := smallModel(s, st.x)
			if o.kind == opUnsafeInsert || o.kind == opUnsafeUpdate {
				if !unsafeOK(m, o) {
					return st, false
				}
			}
			m, err := refApply(m, o)
			if err != nil {
				return st, false
			}
			x := st.x.Clone()
			for k := range x {
				if k[0] == byte(s.TableID) {
					delete(x, k)
				}
			}
			for k, v := range s.Raw(m) {
				x[k] = v
			}
			return cstate{st.m, x}, true
		}}
}

// cworld is the database of one history.
type cworld struct {
	s   *Shape[RowV]
	dir string
	db  bond.DB
	t   bond.Table[RowV]
	idx []*bond.Index[RowV]
	m   Model
	x   State
	// version asked for, 0: the one of crashOptions.
	version uint64
}

func crashOptions() *bond.Options {
	o := PebbleOptions(vfs.Default)
	o.MemTableSize = 256 << 10
	return &bond.Options{PebbleOptions: o}
}

func (w *cworld) open() (err error) {
	if crashDefaults {
		w.db, err = bond.Open(w.dir, nil)
	} else if w.version != 0 {
		w.db, err = bond.Open(w.dir, optionsFor(w.version))
	} else {
		w.db, err = bond.Open(w.dir, crashOptions())
	}
	if err != nil {
		return err
	}
	w.t, w.idx = w.s.NewTable(w.db)
	return nil
}

// crashDefaults makes the recorded process use the default options.
var crashDefaults bool

const crashKeys = 5

func cOp(o op, name string) cstep {
	return cstep{name: name, sync: true,
		run: func(w *cworld) error { return implApply(w.s, w.t, w.m, o) },
		next: func(s cstate) (cstate, bool) {
			if o.kind == opUnsafeInsert || o.kind == opUnsafeUpdate {
				if !unsafeOK(s.m, o) {
					return s, false
				}
			}
			m, err := refApply(s.m, o)
			if err != nil {
				return s, true
			}
			return cstate{m, s.x}, true
		}}
}

func cBatch(name string, opt bond.WriteOptions, ops ...op) cstep {
	return cBatchBy(name, opt, func(w *cworld, b bond.Batch) error { return b.Commit(opt) }, ops...)
}

// cBatchBy is a batch of calls that commit makes part of the database.
func cBatchBy(name string, opt bond.WriteOptions, commit func(w *cworld, b bond.Batch) error, ops ...op) cstep {
	return cstep{name: name, sync: opt.Sync,
		run: func(w *cworld) error {
			b := w.db.Batch(bond.BatchTypeReadWrite)
			defer b.Close()
			m := w.m
			for _, o := range ops {
				if err := implApply(w.s, w.t, m, o, b); err != nil {
					return err
				}
				m, _ = refApply(m, o)
			}
			return commit(w, b)
		},
		next: func(s cstate) (cstate, bool) {
			m := s.m
			for _, o := range ops {
				var err error
				if m, err = refApply(m, o); err != nil {
					return s, false
				}
			}
			return cstate{m, s.x}, true
		}}
}

func rawKey7(k string) []byte {
	return bond.KeyEncode(bond.Key{TableID: 7, PrimaryKey: []byte(k)})
}

func cRaw(name string, opt bond.WriteOptions, run func(w *cworld) error, next func(x State)) cstep {
	return cstep{name: name, sync: opt.Sync, run: run, next: func(s cstate) (cstate, bool) {
		x := s.x.Clone()
		next(x)
		return cstate{s.m, x}, true
	}}
}

func same(s cstate) (cstate, bool) { return s, true }

// crashSteps is the alphabet of the histories.
func crashSteps() []cstep {
	r := func(k, a, b int) R { return R{K: k, A: a, B: b, P: a != b, S: "s"} }
	long := func(n int, c string) string { return strings.Repeat(c, n) }
	big := func(k int, n int) R { return R{K: k, A: 7, B: 8, P: true, S: long(n, string(rune('a'+k)))} }
	mixed := []op{{opUpdate, []R{r(0, 5, 6)}}, {opInsert, []R{r(2, 5, 5), r(4, 1, 2)}}, {opDelete, []R{{K: 1}}}}
	set := func(name string, k, v string, opt bond.WriteOptions) cstep {
		return cRaw(name, opt, func(w *cworld) error { return w.db.Set(rawKey7(k), []byte(v), opt) },
			func(x State) { x[string(rawKey7(k))] = v })
	}
	var small []cstep
	for n := 0; n < 2; n++ {
		small = append(small,
			cSmall(n, "insert 2", op{opInsert, []R{r(2, 1, 2)}}),
			cSmall(n, "update 0", op{opUpdate, []R{r(0, 9, 1)}}),
			cSmall(n, "upsert 0", op{opUpsertReplace, []R{r(0, 4, 1)}}),
			cSmall(n, "delete 1", op{opDelete, []R{{K: 1}}}),
			cSmall(n, "unsafe insert 3", op{opUnsafeInsert, []R{r(3, 2, 1)}}),
			cSmall(n, "unsafe update 0", op{opUnsafeUpdate, []R{r(0, 3, 1)}}))
	}
	return append([]cstep{
		cOp(op{opInsert, []R{r(2, 1, 2), r(3, 1, 1)}}, "insert 2 3"),
		cOp(op{opUpdate, []R{r(0, 9, 1), r(1, 9, 9)}}, "update 0 1"),
		cOp(op{opUpsertMix, []R{r(0, 4, 1), r(2, 4, 4), r(0, 4, 2)}}, "upsert 0 2 0"),
		cOp(op{opDelete, []R{{K: 1}, {K: 0}}}, "delete 1 0"),
		cOp(op{opUnsafeInsert, []R{r(3, 2, 1), r(4, 2, 2)}}, "unsafe insert 3 4"),
		cOp(op{opUnsafeUpdate, []R{r(0, 3, 1)}}, "unsafe update 0"),
		cOp(op{opInsert, []R{r(4, 1, 1), r(0, 1, 1)}}, "failing insert 4 0"),
		cOp(op{opUpsertReplace, []R{big(0, 40_000), big(2, 30_000), big(3, 20_000)}}, "upsert of several blocks"),
		cOp(op{opUpsertReplace, []R{big(1, 300_000), big(4, 10)}}, "upsert larger than the memtable"),
		cBatch("batch", bond.Sync, mixed...),
		cBatch("batch without sync", bond.NoSync, mixed...),
		cBatchBy("batch given to the database", bond.Sync, func(w *cworld, b bond.Batch) error { return w.db.Apply(b, bond.Sync) }, mixed...),
		cBatchBy("batch added to another one", bond.Sync, func(w *cworld, b bond.Batch) error {
			b2 := w.db.Batch(bond.BatchTypeReadWrite)
			defer b2.Close()
			if err := b2.Apply(b, bond.NoSync); err != nil {
				return err
			}
			return b2.Commit(bond.Sync)
		}, mixed[:2]...),
		set("set", "a", "1", bond.Sync),
		set("set without sync", "b", "2", bond.NoSync),
		cRaw("delete key", bond.Sync, func(w *cworld) error { return w.db.Delete(rawKey7("z"), bond.Sync) },
			func(x State) { delete(x, string(rawKey7("z"))) }),
		cRaw("delete range", bond.Sync, func(w *cworld) error { return w.db.DeleteRange(rawKey7("a"), rawKey7("y"), bond.Sync) },
			func(x State) {
				for k := range x {
					if k >= string(rawKey7("a")) && k < string(rawKey7("y")) {
						delete(x, k)
					}
				}
			}),
		cRaw("change two tables", bond.NoSync, func(w *cworld) error {
			return w.db.DeleteRange([]byte{7}, []byte{9}, bond.NoSync)
		}, func(x State) {
			for k := range x {
				if k[0] == 7 || k[0] == 8 {
					delete(x, k)
				}
			}
		}),
		// one call that adds files of two tables
		cRaw("restore", bond.Sync, func(w *cworld) error {
			return w.db.Restore(bg, filepath.Join(filepath.Dir(w.dir), "dump"), []bond.TableID{7, 8}, false)
		}, func(x State) {
			for k, v := range crashBase.x {
				x[k] = v
			}
		}),
		{name: "reindex", next: same, rebuild: true, run: func(w *cworld) error { return w.t.ReIndex(w.idx) }},
		{name: "flush", next: same, run: func(w *cworld) error { return w.db.Backend().Flush() }},
		{name: "reopen", next: same, run: func(w *cworld) error {
			if err := w.db.Close(); err != nil {
				return err
			}
			return w.open()
		}},
	}, small...)
}

var crashBase = cstate{Model{0: {K: 0, A: 1, B: 1, S: "x"}, 1: {K: 1, A: 1, B: 2, P: true, S: "y"}},
	func() State {
		x := State{string(rawKey7("x")): "old", string(rawKey7("z")): "old", string(rawKey8): "old"}
		for n := 0; n < 2; n++ {
			for k, v := range smallShape(n).Raw(Model{0: {K: 0, A: 1, B: 1, S: "x"}, 1: {K: 1, A: 1, B: 2, P: true, S: "y"}}) {
				x[k] = v
			}
		}
		return x
	}()}

var rawKey8 = bond.KeyEncode(bond.Key{TableID: 8, PrimaryKey: []byte("8")})

// crashHistories lists the histories of up to n steps.
func crashHistories(n int) (out [][]int) {
	steps := crashSteps()
	var rec func(h []int, s cstate)
	rec = func(h []int, s cstate) {
		if len(h) > 0 {
			out = append(out, append([]int{}, h...))
		}
		if len(h) == n {
			return
		}
		for i, st := range steps {
			if n > 1 && st.fam != 0 {
				continue
			}
			if t, ok := st.next(s); ok {
				rec(append(h, i), t)
			}
		}
	}
	rec(nil, crashBase)
	// only the longest ones: their crash points include those of the others
	var long [][]int
	for _, h := range out {
		if len(h) == n {
			long = append(long, h)
		}
	}
	return long
}

// mark puts x in the record.
func mark(f string, a ...any) {
	if fd, err := os.Open(crash.MarkDir + fmt.Sprintf(f, a...)); err == nil {
		_ = fd.Close()
	}
}

// recordMain is run as a process of its own, watched by strace.
func recordMain(args []string) {
	fail := func(err error) {
		fmt.Println("record:", err)
		os.Exit(3)
	}
	switch args[0] {
	case "c14", "c14-defaults": // depth, first, last, directory
		n, _ := strconv.Atoi(args[1])
		lo, _ := strconv.Atoi(args[2])
		hi, _ := strconv.Atoi(args[3])
		hs := crashHistories(n)
		crashDefaults = args[0] != "c14"
		for i := lo; i < hi; i++ {
			mark("S%d", i)
			if err := runHistory(hs[i], filepath.Join(args[4], fmt.Sprint(i), "db")); err != nil {
				fail(err)
			}
			mark("X%d", i)
		}
	case "open": // directories below one
		ds, err := os.ReadDir(args[1])
		if err != nil {
			fail(err)
		}
		for _, d := range ds {
			mark("S%s", d.Name())
			w := &cworld{s: ShapeV(), dir: filepath.Join(args[1], d.Name(), "db")}
			if err := w.open(); err != nil {
				fail(err)
			}
			mark("X%s", d.Name())
			if err := w.db.Close(); err != nil {
				fail(err)
			}
		}
	default:
		recordMore(args)
	}
	mark("END")
}

func runHistory(h []int, dir string) error {
	steps := crashSteps()
	w := &cworld{s: ShapeV(), dir: dir}
	mark("B-1")
	if err := w.open(); err != nil {
		return err
	}
	mark("E-1")
	st := crashBase
	mark("B0")
	b := w.db.Batch(bond.BatchTypeReadWrite)
	for k, v := range st.x {
		if err := w.db.Set([]byte(k), []byte(v), bond.Sync, b); err != nil {
			return err
		}
	}
	if err := w.t.Insert(bg, w.s.Ts(st.m.Rows()), b); err != nil {
		return err
	}
	if err := b.Commit(bond.Sync); err != nil {
		return err
	}
	_ = b.Close()
	mark("E0")
	for _, j := range h {
		if steps[j].name == "restore" {
			mark("D")
			if err := w.db.Dump(bg, filepath.Join(filepath.Dir(dir), "dump"), []bond.TableID{7, 8}, false); err != nil {
				return err
			}
			mark("E0")
			break
		}
	}
	for i, j := range h {
		w.m, w.x = st.m, st.x
		next, _ := steps[j].next(st)
		mark("B%d", i+1)
		err := steps[j].run(w)
		mark("E%d", i+1)
		failing := strings.HasPrefix(steps[j].name, "failing")
		if o := next.m.Canon() == st.m.Canon() && failing; (err != nil) != o && !(err != nil && refFails(steps[j], st)) {
			return fmt.Errorf("step %s: %v", steps[j].name, err)
		}
		st = next
	}
	mark("B%d", len(h)+1)
	if err := w.db.Close(); err != nil {
		return err
	}
	mark("E%d", len(h)+1)
	return nil
}

// refFails tells whether the reference says the step fails.
func refFails(s cstep, st cstate) bool {
	t, _ := s.next(st)
	return t.m.Canon() == st.m.Canon() && t.x.Equal(st.x)
}

// crashPoint is what is allowed at one point of a history: the contents
// lo..hi of its sequence, and whether an index is being rebuilt.
type crashPoint struct {
	lo, hi  int
	rebuild bool
	fresh   bool // not even opened once
}

// rebuilt tells whether got is the content of want with possibly fewer index
// entries.
func rebuilt(s *Shape[RowV], want cstate, got State) error {
	all := s.Raw(want.m)
	for k, v := range want.x {
		all[k] = v
	}
	for k, v := range all {
		if g, ok := got[k]; (k[1] == 0 || k[0] >= 7) && (!ok || g != v) {
			return fmt.Errorf("row lost: %s", Diff(all, got))
		}
	}
	for k := range got {
		if _, ok := all[k]; !ok {
			return fmt.Errorf("wrong entry: %s", Diff(all, got))
		}
	}
	return nil
}

// crashVerdict opens a directory and compares.
func crashVerdict(dir string, version uint64, seq []cstate, p crashPoint) error {
	w := &cworld{s: ShapeV(), dir: dir, version: version}
	if err := w.open(); err != nil {
		return fmt.Errorf("cannot be opened: %v", err)
	}
	got := RawDump(w.db.Backend(), []byte{1}, []byte{0xFF, 0xFF})
	defer w.db.Close()
	if p.rebuild {
		var errs []string
		for i := p.hi; i >= p.lo; i-- {
			err := rebuilt(w.s, seq[i], got)
			if err == nil {
				errs = nil
				break
			}
			errs = append(errs, err.Error())
		}
		if errs != nil {
			return fmt.Errorf("rebuilding an index was interrupted: %s", short(strings.Join(errs, "\n")))
		}
		if err := w.t.ReIndex(w.idx); err != nil {
			return fmt.Errorf("rebuilding again: %v", err)
		}
		got = RawDump(w.db.Backend(), []byte{1}, []byte{0xFF, 0xFF})
	}
	var diffs []string
	for i := p.hi; i >= p.lo; i-- {
		want := State{}
		if i >= 0 {
			want = w.s.Raw(seq[i].m)
			for k, v := range seq[i].x {
				want[k] = v
			}
		}
		if got.Equal(want) {
			diffs = nil
			break
		}
		rows := State{}
		for k, v := range got {
			if k[0] == 1 {
				rows[k] = v
			}
		}
		other := true
		for k, v := range got {
			if k[0] != 1 && want[k] != v {
				other = false
			}
		}
		for k := range want {
			if _, ok := got[k]; !ok && k[0] != 1 {
				other = false
			}
		}
		m := Model{}
		if i >= 0 {
			m = seq[i].m
		}
		if other && w.s.Compare(m, rows) == nil {
			diffs = nil
			break
		}
		diffs = append(diffs, fmt.Sprintf("not the content after step %d: %s", i, Diff(want, got)))
	}
	if diffs != nil {
		return fmt.Errorf("%s", short(strings.Join(diffs, "\n")))
	}
	// and it works on
	x := R{K: 5, A: 1, S: "after"}
	if err := w.t.Upsert(bg, w.s.Ts([]R{x}), bond.TableUpsertOnConflictReplace[RowV]); err != nil {
		return fmt.Errorf("writing afterwards: %v", err)
	}
	if t, err := w.t.GetPoint(bg, w.s.To(R{K: 5})); err != nil || w.s.From(t) != x {
		return fmt.Errorf("reading afterwards: %v, %v", t, err)
	}
	return nil
}

func short(s string) string {
	var b strings.Builder
	run := 0
	for i := 0; i < len(s); i++ {
		if i > 0 && s[i] == s[i-1] {
			run++
		} else {
			run = 0
		}
		if run < 8 {
			b.WriteByte(s[i])
		}
	}
	if b.Len() > 3000 {
		return b.String()[:3000]
	}
	return b.String()
}

// crashState is one distinct state of a directory, with what is allowed there.
type crashState struct {
	tree crash.Tree
	p    crashPoint
	seq  []cstate
	what string
}

// crashRun follows records and hands over every distinct state.
type crashRun struct {
	c      *Ctx
	mu     sync.Mutex
	seen   map[string]bool
	points int64
	// defaults: the histories are run with the default options.
	defaults bool
	version  uint64
}

func (r *crashRun) first(t crash.Tree, key string) bool {
	h := t.Hash()
	k := string(h[:]) + key
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.seen[k] {
		return false
	}
	r.seen[k] = true
	return true
}

type modes struct {
	d []crash.DirMode
	f []crash.DataMode
}

var allModes = modes{crash.DirModes(), crash.DataModes()}

// states lists all states a crash at this moment can leave.
func (r *crashRun) states(f *crash.FS, ms modes, each func(t crash.Tree, what string)) {
	dirs, files := f.Pending()
	for _, dm := range ms.d {
		if !dirs && dm != ms.d[0] {
			continue
		}
		for _, fm := range ms.f {
			if !files && fm != ms.f[0] {
				continue
			}
			each(f.State(dm, fm), fmt.Sprintf("change %d, unsynced directory changes %v, unsynced data %v", f.Steps, dm, fm))
		}
	}
	atomic.AddInt64(&r.points, 1)
}

// follow replays the record of history i from a log of several.
func (r *crashRun) follow(log, root string, i int, h []int, ms modes, each func(s crashState)) error {
	steps := crashSteps()
	seq := []cstate{crashBase}
	names := []string{"base"}
	for _, j := range h {
		t, _ := steps[j].next(seq[len(seq)-1])
		seq = append(seq, t)
		names = append(names, steps[j].name)
	}
	f := crash.NewFS(filepath.Join(root, fmt.Sprint(i)))
	on, dumping := false, false
	p := crashPoint{lo: -1, hi: -1, fresh: true}
	durable := -1
	return crash.Replay(log, f, func(mk string) error {
		if mk == "" && (!on || dumping) {
			return nil
		}
		if mk != "" {
			switch {
			case mk == fmt.Sprintf("S%d", i):
				on = true
				return nil
			case mk == fmt.Sprintf("X%d", i):
				on = false
				// the model of the file system against the file system
				want, err := crash.Read(f.Root)
				if err != nil {
					return err
				}
				if got := f.State(crash.DirAll, crash.DataAll); got.Hash() != want.Hash() {
					return fmt.Errorf("the record does not explain the directory: %s", crash.Diff(got, want))
				}
				r.c.AddTraces(1)
				return nil
			case !on:
				return nil
			}
			dumping = mk == "D"
			k, _ := strconv.Atoi(mk[1:])
			if k >= len(seq) {
				k = len(seq) - 1 // closing
			} else if mk[0] == 'E' && k >= 0 && (k == 0 || steps[h[k-1]].sync && !refFails(steps[h[k-1]], seq[k-1])) {
				durable = k
			}
			p.lo, p.hi = durable, k
			p.rebuild = k > 0 && mk[0] == 'B' && mk[1:] == fmt.Sprint(k) && steps[h[k-1]].rebuild
			p.fresh = false
		}
		r.states(f, ms, func(t crash.Tree, what string) {
			for k := range t {
				if strings.HasPrefix(k, "dump/") {
					delete(t, k)
				}
			}
			if r.first(t, fmt.Sprint(p, names[:p.hi+1])) {
				each(crashState{t, p, seq, fmt.Sprintf("history %v, after step %d: %s", names, p.hi, what)})
			}
		})
		return nil
	})
}

// record runs the recorder; what it does must work (three attempts).
func record(c *Ctx, log, root string, prepare func(), args ...string) bool {
	self := os.Getenv("VMC_SELF")
	if self == "" {
		self, _ = os.Executable()
	}
	for i := 0; ; i++ {
		_ = os.RemoveAll(root)
		if prepare != nil {
			prepare()
		}
		out, err := crash.Record(log, os.Environ(), nil, append([]string{self, "record"}, args...)...)
		c.Tick()
		if err == nil {
			b, rerr := os.ReadFile(log)
			if rerr == nil && bytes.Contains(b, markHex("END")) {
				return true
			}
			err = errors.New("the record is not complete")
			if i == 2 {
				panic(err)
			}
			continue
		}
		if i == 2 {
			c.Violate("run", fmt.Sprintf("the calls themselves failed: %v: %s", err, out), args)
			return false
		}
	}
}

func markHex(x string) []byte {
	var b bytes.Buffer
	for _, c := range []byte(crash.MarkDir + x) {
		fmt.Fprintf(&b, "\\x%02x", c)
	}
	return b.Bytes()
}

// needStrace ends the check without an answer if processes cannot be traced.
func needStrace() {
	if out, err := exec.Command("strace", "-f", "--seccomp-bpf", "-o", "/dev/null", "true").CombinedOutput(); err != nil {
		panic(fmt.Sprintf("strace does not work: %v: %s", err, out))
	}
}

// check opens the state.
func (r *crashRun) check(s crashState, dir string) bool {
	r.c.AddStates(1)
	var tree crash.Tree = s.tree
	return r.c.Exec("crash", func() any { return map[string]any{"state": s.what, "files": fileList(tree)} }, func() error {
		_ = os.RemoveAll(dir)
		defer os.RemoveAll(dir)
		if err := tree.Write(dir); err != nil {
			return err
		}
		if err := Catch(func() error { return crashVerdict(filepath.Join(dir, "db"), r.version, s.seq, s.p) }); err != nil {
			return fmt.Errorf("after a crash (%s): %v", s.what, err)
		}
		r.c.Outcome(fmt.Sprint(s.p, s.what[:20]))
		return nil
	})
}

func fileList(t crash.Tree) map[string]int {
	m := map[string]int{}
	for k, v := range t {
		m[k] = len(v)
	}
	return m
}

func runC14(c *Ctx) {
	needStrace()
	r := &crashRun{c: c, seen: map[string]bool{}}
	depth := 2
	if c.Thorough() {
		depth = 3
	}
	var again []crashState
	ms := modes{[]crash.DirMode{crash.DirLost, crash.DirAll}, []crash.DataMode{crash.DataLost, crash.DataAll, crash.DataHalf}}
	if c.Thorough() {
		ms = allModes
	}
	c.Part("all histories of 1 step, all crash points", func() {
		r.histories(1, crashHistories(1), ms, &again)
	})
	c.Part("all histories of 1 step with the default options, all crash points", func() {
		d := &crashRun{c: c, seen: map[string]bool{}, defaults: true, version: uint64(bond.DefaultPebbleOptions().FormatMajorVersion)}
		d.histories(1, crashHistories(1), ms, nil)
		if c.Thorough() {
			d.histories(2, crashHistories(2), ms, nil)
		}
	})
	c.Part(fmt.Sprintf("a second crash while opening after the first, from %d states", len(again)), func() {
		r.recoveries(again, ms)
	})
	all := allModes
	if !c.Thorough() {
		all = modes{[]crash.DirMode{crash.DirLost, crash.DirAll, crash.DirFirst}, []crash.DataMode{crash.DataLost, crash.DataAll, crash.DataHalf, crash.DataZero}}
	}
	c.Part(fmt.Sprintf("all histories of %d steps, all crash points and patterns", depth), func() {
		r.histories(depth, crashHistories(depth), all, nil)
	})
	c.Extra("crash_points", r.points)
}

// histories checks all crash states of the histories and collects them.
func (r *crashRun) histories(depth int, hs [][]int, ms modes, all *[]crashState) {
	c := r.c
	const chunk = 6
	n := (len(hs) + chunk - 1) / chunk
	c.ParallelN(runtime.NumCPU(), n, func(w, i int) {
		dir := c.TempDir()
		defer os.RemoveAll(dir)
		log := filepath.Join(dir, "log")
		lo, hi := i*chunk, (i+1)*chunk
		if hi > len(hs) {
			hi = len(hs)
		}
		root := filepath.Join(dir, "r")
		kind := "c14"
		if r.defaults {
			kind = "c14-defaults"
		}
		if !record(c, log, root, nil, kind, fmt.Sprint(depth), fmt.Sprint(lo), fmt.Sprint(hi), root) {
			return
		}
		for h := lo; h < hi && !c.Stop(); h++ {
			c.AddTransitions(depth)
			err := r.follow(log, root, h, hs[h], ms, func(s crashState) {
				if c.Stop() {
					return
				}
				r.check(s, filepath.Join(dir, "x"))
				if all != nil {
					r.mu.Lock()
					*all = append(*all, s)
					r.mu.Unlock()
				}
			})
			if err != nil {
				panic(err)
			}
		}
	})
}

// recoveries opens crashed directories again and crashes while that goes on.
func (r *crashRun) recoveries(from []crashState, ms modes) {
	c := r.c
	const chunk = 8
	c.ParallelN(runtime.NumCPU(), (len(from)+chunk-1)/chunk, func(w, i int) {
		dir := c.TempDir()
		defer os.RemoveAll(dir)
		log, root := filepath.Join(dir, "log"), filepath.Join(dir, "r")
		part := from[i*chunk:]
		if len(part) > chunk {
			part = part[:chunk]
		}
		prepare := func() {
			for j, s := range part {
				if err := s.tree.Write(filepath.Join(root, fmt.Sprint(j))); err != nil {
					panic(err)
				}
			}
		}
		if !record(c, log, root, prepare, "open", root) {
			return
		}
		for j, s := range part {
			if c.Stop() {
				return
			}
			c.AddTransitions(1)
			f := crash.NewFS(filepath.Join(root, fmt.Sprint(j)))
			f.Load(s.tree)
			on := false
			err := crash.Replay(log, f, func(mk string) error {
				switch {
				case mk == fmt.Sprintf("S%d", j):
					on = true
					return nil
				case mk == fmt.Sprintf("X%d", j):
					on = false
					c.AddTraces(1)
				case mk != "" || !on:
					return nil
				}
				r.states(f, ms, func(t crash.Tree, what string) {
					if r.first(t, fmt.Sprint("again", s.p, s.seq[:s.p.hi+1])) && !c.Stop() {
						n := s
						n.tree, n.what = t, s.what+"; opened and crashed again: "+what
						r.check(n, filepath.Join(dir, "x"))
					}
				})
				return nil
			})
			if err != nil {
				panic(err)
			}
		}
	})
}
