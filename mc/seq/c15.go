package main

import (
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
	"github.com/go-bond/bond/internal/vmc/crash"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

func init() {
	Register(&Check{ID: "C15", Level: "model_checking", Quick: 120, Run: runC15,
		Rule: "scenario = creating, opening, refusing, migrating or closing a database directory, its system calls recorded; every state a crash can leave and every failing system call on bond's own files is tried, and every pair of recorded and requested versions; compared: whether it opens, the recorded and the engine's version, the content",
		Assumptions: []string{"the storage engine survives crashes by itself if changes of its own directory keep their order",
			"a file system keeps what was synced and loses or keeps unsynced changes in the listed patterns"}})
}

var engineVersions = func() (l []uint64) {
	for v := pebble.FormatMinSupported; v <= pebble.FormatNewest; v++ {
		l = append(l, uint64(v))
	}
	return
}()

func optionsFor(v uint64) *bond.Options {
	o := crashOptions()
	o.PebbleOptions.FormatMajorVersion = pebble.FormatMajorVersion(v)
	return o
}

// scenario15 is one thing done to a directory.
type scenario15 struct {
	kind string // create, open, refuse, migrate
	a, b uint64 // version before, version asked for
}

func (s scenario15) String() string { return fmt.Sprintf("%s-%d-%d", s.kind, s.a, s.b) }

func parse15(x string) (s scenario15) {
	f := strings.Split(x, "-")
	s.kind = f[0]
	s.a, _ = strconv.ParseUint(f[1], 10, 64)
	s.b, _ = strconv.ParseUint(f[2], 10, 64)
	return
}

var row15 = Model{0: {K: 0, A: 1, B: 1, P: true, S: "x"}}
var row15b = Model{0: {K: 0, A: 1, B: 1, P: true, S: "x"}, 1: {K: 1, A: 2, B: 1, S: "y"}}

// act does it once. Content before is row15 (nothing for create), after it
// row15 or row15b.
func (s scenario15) act(dir string) error {
	switch s.kind {
	case "migrate":
		return bond.MigratePebbleFormatVersion(dir, s.b)
	case "create", "open", "refuse":
		db, err := bond.Open(dir, optionsFor(s.b))
		if err != nil {
			return err
		}
		mark("opened")
		sh := ShapeV()
		t, _ := sh.NewTable(db)
		m := row15
		if s.kind != "create" {
			m = row15b
		}
		err = t.Upsert(bg, sh.Ts(m.Rows()), bond.TableUpsertOnConflictReplace[RowV])
		if err == nil {
			mark("written")
		}
		if e := db.Close(); err == nil {
			err = e
		}
		return err
	}
	panic(s.kind)
}

func recordMore(args []string) {
	switch args[0] {
	case "c15": // scenario, directory
		// what bond itself does to files it does in this thread
		runtime.LockOSThread()
		s := parse15(args[1])
		for i := 0; i < 2; i++ {
			mark("B%d", i)
			if err := Catch(func() error { return s.act(args[2]) }); err != nil {
				fmt.Printf("%d: %v\n", i, err)
				if strings.Contains(err.Error(), "panic") {
					mark("P%d", i)
				} else {
					mark("F%d", i)
				}
			} else {
				mark("E%d", i)
			}
		}
	default:
		panic("unknown record " + args[0])
	}
}

// prepared makes a database of one version with row15.
func prepared(c *Ctx, v uint64) crash.Tree {
	dir := c.TempDir()
	defer os.RemoveAll(dir)
	if err := (scenario15{"create", 0, v}).act(filepath.Join(dir, "db")); err != nil {
		panic(err)
	}
	t, err := crash.Read(dir)
	if err != nil {
		panic(err)
	}
	return t
}

// allowed15 is what a directory may be: recorded versions (0 none), contents.
type allowed15 struct {
	rec    []uint64
	cont   []Model
	engine uint64 // the engine's version, 0 any
}

func (a allowed15) String() string { return fmt.Sprint(a.rec, a.engine, len(a.cont)) }

// judge opens the directory in all ways.
func (a allowed15) judge(dir string, s scenario15) error {
	before, err := crash.Read(dir)
	if os.IsNotExist(err) {
		before, err = crash.Tree{}, nil
	}
	if err != nil {
		return err
	}
	rec, err := bond.PebbleFormatVersion(dir)
	if err != nil {
		return fmt.Errorf("recorded version cannot be read: %v", err)
	}
	ok := false
	for _, v := range a.rec {
		ok = ok || v == rec
	}
	if !ok {
		return fmt.Errorf("recorded version is %d, expected one of %v", rec, a.rec)
	}
	if rec != 0 {
		for _, v := range []uint64{rec - 1, rec + 1} {
			db, err := bond.Open(dir, optionsFor(v))
			if err == nil {
				_ = db.Close()
				return fmt.Errorf("version %d is recorded and version %d was opened", rec, v)
			}
		}
		after, err := crash.Read(dir)
		if err != nil {
			return err
		}
		if d := crash.Diff(before, after); d != "" {
			return fmt.Errorf("a refused open changed the directory: %s", d)
		}
	}
	v := rec
	if rec == 0 {
		v = s.b
	}
	for i := 0; i < 2; i++ {
		if err := opens15(dir, v, a.engine, a.cont); err != nil {
			return err
		}
		if rec, err = bond.PebbleFormatVersion(dir); err != nil || rec != v {
			return fmt.Errorf("recorded version is %d, %v after opening with %d", rec, err, v)
		}
	}
	// it can be migrated to whatever was wanted
	if s.kind == "migrate" && s.b >= v {
		if err := bond.MigratePebbleFormatVersion(dir, s.b); err != nil {
			return fmt.Errorf("migrating again: %v", err)
		}
		if rec, err := bond.PebbleFormatVersion(dir); err != nil || rec != s.b {
			return fmt.Errorf("recorded version is %d, %v after migrating to %d", rec, err, s.b)
		}
		return opens15(dir, s.b, s.b, a.cont)
	}
	return nil
}

func opens15(dir string, v, engine uint64, cont []Model) error {
	db, err := bond.Open(dir, optionsFor(v))
	if err != nil {
		return fmt.Errorf("cannot be opened with the recorded version %d: %v", v, err)
	}
	defer db.Close()
	if e := uint64(db.Backend().FormatMajorVersion()); engine != 0 && e != engine {
		return fmt.Errorf("engine is in version %d, expected %d", e, engine)
	}
	if got := db.(interface{ Version() int }).Version(); got != bond.BOND_DB_DATA_VERSION {
		return fmt.Errorf("data version is %d", got)
	}
	got := RawDump(db.Backend(), []byte{1}, []byte{0xFF, 0xFF})
	for _, m := range cont {
		if err = ShapeV().Compare(m, got); err == nil {
			return nil
		}
	}
	return err
}

// crashes15 follows the record of one scenario. Injected tells that one call
// was made to fail.
func (r *crashRun) crashes15(s scenario15, log, root string, start crash.Tree, ms modes, calls func(tid, name, rel string, injected bool), each func(t crash.Tree, a allowed15, what string)) error {
	f := crash.NewFS(root)
	f.Load(start)
	f.Call = calls
	old, want := []Model{row15}, []Model{row15}
	if s.kind == "create" {
		old = []Model{{}}
	}
	if s.kind == "open" {
		want = []Model{row15b}
	}
	a := allowed15{rec: []uint64{s.a}, cont: old}
	done := false
	err := crash.Replay(log, f, func(mk string) error {
		switch {
		case mk == "", mk == "END":
		case mk[0] == 'B' && !done:
			a = allowed15{rec: []uint64{s.a, s.b}, cont: old}
			if s.kind == "refuse" {
				a.rec = []uint64{s.a}
			}
		case mk == "opened" && !done:
			a.rec = []uint64{s.b}
			a.cont = append(append([]Model{}, old...), want...)
		case mk == "written":
			a.cont = want
		case mk[0] == 'E':
			done = true
			a = allowed15{rec: []uint64{s.b}, cont: want, engine: s.b}
			if s.kind == "refuse" {
				return errors.New("a mismatched version was opened")
			}
		case mk[0] == 'P':
			return errors.New("panicked")
		}
		r.states(f, ms, func(t crash.Tree, what string) {
			if r.first(t, fmt.Sprint(s, a)) {
				each(t, a, fmt.Sprintf("%v: %s", s, what))
			}
		})
		return nil
	})
	if err != nil {
		return err
	}
	if !done && s.kind != "refuse" {
		return errors.New("did not succeed when called again")
	}
	want2, err := crash.Read(root)
	if err != nil {
		return err
	}
	if got := f.State(crash.DirAll, crash.DataAll); got.Hash() != want2.Hash() {
		return fmt.Errorf("the record does not explain the directory: %s", crash.Diff(got, want2))
	}
	if d := crash.Diff(start, want2); s.kind == "refuse" && d != "" {
		return fmt.Errorf("a refused open changed the directory: %s", d)
	}
	r.c.AddTraces(1)
	return nil
}

type point15 struct {
	name string
	n    int
}

func runC15(c *Ctx) {
	// migration uses the default logger
	log.SetOutput(io.Discard)
	needStrace()
	r := &crashRun{c: c, seen: map[string]bool{}}
	vs := engineVersions
	if !c.Thorough() {
		vs = []uint64{vs[0], vs[len(vs)-1]}
	}
	var scen []scenario15
	for _, v := range vs {
		scen = append(scen, scenario15{"create", 0, v}, scenario15{"open", v, v})
		for _, w := range vs {
			if w != v {
				scen = append(scen, scenario15{"refuse", v, w})
			}
			if w >= v {
				scen = append(scen, scenario15{"migrate", v, w})
			}
		}
	}
	trees := map[uint64]crash.Tree{0: {}}
	for _, v := range engineVersions {
		trees[v] = prepared(c, v)
	}
	self := os.Getenv("VMC_SELF")
	run := func(s scenario15, dir string, extra []string) (log string, out []byte, err error) {
		log = filepath.Join(dir, "log")
		root := filepath.Join(dir, "r")
		if err := trees[s.a].Write(root); err != nil {
			panic(err)
		}
		out, err = crash.Record(log, os.Environ(), extra, self, "record", "c15", s.String(), filepath.Join(root, "db"))
		return
	}
	check := func(dir string, extra string, out []byte) func(t crash.Tree, a allowed15, what string) {
		return func(t crash.Tree, a allowed15, what string) {
			if c.Stop() {
				return
			}
			c.AddStates(1)
			s := parse15(strings.SplitN(what, ":", 2)[0])
			x := filepath.Join(dir, "x")
			c.Exec("crash", func() any {
				return map[string]any{"state": what, "files": fileList(t), "failing": extra, "output": string(out)}
			}, func() error {
				_ = os.RemoveAll(x)
				defer os.RemoveAll(x)
				if err := t.Write(x); err != nil {
					return err
				}
				if err := Catch(func() error { return a.judge(filepath.Join(x, "db"), s) }); err != nil {
					return fmt.Errorf("after a crash (%s) %s: %v", what, extra, err)
				}
				c.Outcome(fmt.Sprint(s, a))
				return nil
			})
		}
	}
	points := make([][]point15, len(scen))
	c.Part("crash at every moment of creating, opening, refusing, migrating and closing", func() {
		c.Parallel(len(scen), func(w, i int) {
			s := scen[i]
			dir := c.TempDir()
			defer os.RemoveAll(dir)
			log, out, err := run(s, dir, []string{"-e", "signal=none"})
			if err != nil {
				c.Violate("run", fmt.Sprintf("%v: %v: %s", s, err, out), nil)
				return
			}
			c.AddTransitions(1)
			// calls on bond's own files, numbered per name in the first thread
			n := map[string]int{}
			first := ""
			calls := func(tid, name, rel string, inj bool) {
				if first == "" {
					first = tid
				}
				if tid != first {
					return
				}
				n[name]++
				if strings.HasPrefix(rel, "db/bond") && name != "lseek" && name != "fcntl" {
					points[i] = append(points[i], point15{name, n[name]})
				}
			}
			if err := r.crashes15(s, log, filepath.Join(dir, "r"), trees[s.a], allModes, calls, check(dir, "", out)); err != nil {
				c.Violate("scenario", fmt.Sprintf("%v: %v", s, err), string(out))
			}
		})
	})
	type fault struct {
		s scenario15
		p point15
		e string
	}
	var faults []fault
	for i, s := range scen {
		if !c.Thorough() && s.kind != "migrate" && s.a == vs[1] {
			continue
		}
		for _, p := range points[i] {
			faults = append(faults, fault{s, p, "EIO"})
			if p.name == "write" || p.name == "openat" {
				faults = append(faults, fault{s, p, map[string]string{"write": "ENOSPC", "openat": "EACCES"}[p.name]})
			}
		}
	}
	hit := make([]int, len(faults))
	ms := modes{[]crash.DirMode{crash.DirLost, crash.DirAll}, []crash.DataMode{crash.DataLost, crash.DataAll}}
	if c.Thorough() {
		ms = allModes
	}
	c.Part(fmt.Sprintf("each of %d calls on bond's own files failing, then crashes", len(faults)), func() {
		c.Parallel(len(faults), func(w, i int) {
			s, p := faults[i].s, faults[i].p
			dir := c.TempDir()
			defer os.RemoveAll(dir)
			x := fmt.Sprintf("inject=%s:error=%s:when=%d", p.name, faults[i].e, p.n)
			log, out, err := run(s, dir, []string{"-e", x})
			if err != nil {
				c.Violate("fault", fmt.Sprintf("%v with %s: %v", s, x, err), string(out))
				return
			}
			ours, other := 0, 0
			calls := func(tid, name, rel string, inj bool) {
				if inj && strings.HasPrefix(rel, "db/bond") {
					ours++
				} else if inj {
					other++
				}
			}
			// only if it was bond's call that failed, and no other
			probe := crash.NewFS(filepath.Join(dir, "r"))
			probe.Load(trees[s.a])
			probe.Call = calls
			if err := crash.Replay(log, probe, func(string) error { return nil }); err != nil || ours != 1 || other != 0 {
				return
			}
			hit[i] = 1
			c.AddTransitions(1)
			if err := r.crashes15(s, log, filepath.Join(dir, "r"), trees[s.a], ms, nil, check(dir, x, out)); err != nil {
				c.Violate("fault", fmt.Sprintf("%v with %s: %v", s, x, err), string(out))
			}
		})
	})
	n := 0
	for _, h := range hit {
		n += h
	}
	c.Extra("failing_calls", fmt.Sprintf("%d of %d", n, len(faults)))
	c.Extra("crash_points", r.points)
	c.Part("every recorded and requested version", func() { versions15(c, trees) })
	c.Part("every migration", func() { migrations15(c, trees) })
	c.Part("the default options, all ways to name the directory", func() { defaults15(c) })
}

// defaults15: two openings, each with one of the ways to give options, the
// directory named in one of several ways, and a migration between them.
func defaults15(c *Ctx) {
	def := uint64(bond.DefaultPebbleOptions().FormatMajorVersion)
	newest := uint64(pebble.FormatNewest)
	type form struct {
		name string
		v    uint64
		mk   func() *bond.Options
	}
	forms := []form{
		{"nil", def, func() *bond.Options { return nil }},
		{"empty", def, func() *bond.Options { return &bond.Options{} }},
		{"DefaultOptions", def, bond.DefaultOptions},
		{"DefaultPebbleOptions", def, func() *bond.Options { return &bond.Options{PebbleOptions: bond.DefaultPebbleOptions()} }},
		{"default with the newest version", newest, func() *bond.Options {
			o := bond.DefaultOptions()
			o.PebbleOptions.FormatMajorVersion = pebble.FormatNewest
			return o
		}},
		{"explicit", newest, func() *bond.Options { return optionsFor(newest) }},
	}
	paths := []func(dir string) string{
		func(d string) string { return d },
		func(d string) string { return d + "/" },
		func(d string) string { return d + "/x/../" },
		func(d string) string {
			wd, err := os.Getwd()
			if err != nil {
				panic(err)
			}
			r, err := filepath.Rel(wd, d)
			if err != nil {
				panic(err)
			}
			return r
		},
	}
	type cs struct {
		a, b, pa, pb int
		mig          uint64
	}
	var cases []cs
	for a := range forms {
		for b := range forms {
			for pa := range paths {
				for _, mig := range []uint64{0, forms[a].v, newest} {
					cases = append(cases, cs{a, b, pa, (pa + a + b) % len(paths), mig})
				}
			}
		}
	}
	c.Parallel(len(cases), func(w, i int) {
		x := cases[i]
		fa, fb := forms[x.a], forms[x.b]
		c.AddStates(1)
		c.AddTransitions(3)
		c.Exec("defaults", func() any {
			return fmt.Sprintf("%s, migrated to %d, %s, paths %d %d", fa.name, x.mig, fb.name, x.pa, x.pb)
		}, func() error {
			root := c.TempDir()
			defer os.RemoveAll(root)
			dir := filepath.Join(root, "sub", "db")
			sh := ShapeV()
			use := func(o *bond.Options, path string, was, m Model, v uint64) error {
				db, err := bond.Open(path, o)
				if err != nil {
					return err
				}
				err = func() error {
					if e := uint64(db.Backend().FormatMajorVersion()); e != v {
						return fmt.Errorf("engine is in version %d, expected %d", e, v)
					}
					if err := sh.Compare(was, RawDump(db.Backend(), []byte{1}, []byte{0xFF, 0xFF})); err != nil {
						return err
					}
					t, _ := sh.NewTable(db)
					return t.Upsert(bg, sh.Ts(m.Rows()), bond.TableUpsertOnConflictReplace[RowV])
				}()
				if e := db.Close(); err == nil {
					err = e
				}
				if err != nil {
					return err
				}
				if r, err := bond.PebbleFormatVersion(dir); err != nil || r != v {
					return fmt.Errorf("recorded version %d, %v, expected %d", r, err, v)
				}
				return nil
			}
			if err := use(fa.mk(), paths[x.pa](dir), Model{}, row15, fa.v); err != nil {
				return fmt.Errorf("first opening: %v", err)
			}
			if es, err := os.ReadDir(filepath.Join(root, "sub")); err != nil || len(es) != 1 {
				return fmt.Errorf("files beside the directory: %v, %v", es, err)
			}
			v := fa.v
			if x.mig != 0 {
				if err := bond.MigratePebbleFormatVersion(paths[x.pb](dir), x.mig); err != nil {
					return fmt.Errorf("migrating: %v", err)
				}
				v = x.mig
			}
			if v != fb.v {
				db, err := bond.Open(paths[x.pb](dir), fb.mk())
				if err == nil {
					_ = db.Close()
					return fmt.Errorf("version %d is recorded and version %d was opened", v, fb.v)
				}
				fb = forms[5]
				if v != newest {
					fb = forms[0]
				}
			}
			if err := use(fb.mk(), paths[x.pb](dir), row15, row15b, v); err != nil {
				return fmt.Errorf("second opening: %v", err)
			}
			return nil
		})
	})
}

// versions15: every content of the two version records x every request.
func versions15(c *Ctx, trees map[uint64]crash.Tree) {
	absent := "\x00absent"
	var files []string
	for _, v := range engineVersions {
		files = append(files, fmt.Sprint(v))
	}
	files = append(files, absent, "", "0", "x", "-1", "13x", " 13", "13\n", "013", "1", "9", "12", "99", "18446744073709551615", "18446744073709551616", "1e1", "0x0d", "1_3", "13.0", "\x00", strings.Repeat("1", 40))
	datas := []string{"1", absent, "0", "2", "-1", "", "x", "1x", " 1", "01", "+1", "4294967297", "99999999999999999999", "1\x00"}
	type cs struct {
		file, data string
		req        uint64
	}
	var cases []cs
	for _, f := range files {
		for _, d := range datas {
			for _, r := range append(append([]uint64{}, engineVersions...), 0, 1, 12, 99, math.MaxUint64) {
				cases = append(cases, cs{f, d, r})
			}
		}
	}
	vkey := bond.KeyEncode(bond.Key{PrimaryKey: []byte("__bond_db_data_version__")})
	base := map[string]crash.Tree{}
	for _, d := range datas {
		dir := c.TempDir()
		if err := trees[engineVersions[0]].Write(dir); err != nil {
			panic(err)
		}
		o := optionsFor(engineVersions[0]).PebbleOptions
		o.Comparer = bond.DefaultKeyComparer()
		db, err := pebble.Open(filepath.Join(dir, "db"), o)
		if err != nil {
			panic(err)
		}
		_, cl, err := db.Get(vkey)
		if err != nil {
			panic(fmt.Sprintf("version key: %v", err))
		}
		_ = cl.Close()
		if d == absent {
			err = db.Delete(vkey, pebble.Sync)
		} else {
			err = db.Set(vkey, []byte(d), pebble.Sync)
		}
		if err != nil {
			panic(err)
		}
		if err := db.Close(); err != nil {
			panic(err)
		}
		base[d], _ = crash.Read(dir)
		_ = os.RemoveAll(dir)
	}
	c.Parallel(len(cases), func(w, i int) {
		x := cases[i]
		c.AddStates(1)
		c.Exec("versions", func() any { return fmt.Sprintf("%+q", x) }, func() error {
			dir := c.TempDir()
			defer os.RemoveAll(dir)
			t := crash.Tree{}
			for k, v := range base[x.data] {
				t[k] = v
			}
			name := "db/bond/" + bond.PebbleFormatFile
			if _, ok := t[name]; !ok {
				panic("no version file")
			}
			if x.file == absent {
				delete(t, name)
			} else {
				t[name] = x.file
			}
			if err := t.Write(dir); err != nil {
				panic(err)
			}
			db := filepath.Join(dir, "db")
			rec, perr := strconv.ParseUint(x.file, 10, 64)
			fileOK := x.file == absent || perr == nil && rec == x.req
			engineOK := x.req == 0 || x.req >= engineVersions[0] && x.req <= engineVersions[len(engineVersions)-1]
			dataV, derr := strconv.ParseInt(x.data, 10, 64)
			// an absent version is written; zero counts as absent
			dataOK := x.data == absent || derr == nil && (dataV == bond.BOND_DB_DATA_VERSION || dataV == 0)
			r, rerr := bond.PebbleFormatVersion(db)
			if ok := x.file == absent && r == 0 || x.file != absent && perr == nil && r == rec; (rerr == nil) != (x.file == absent || perr == nil) || rerr == nil && !ok {
				return fmt.Errorf("version file %q: recorded version %d, %v", x.file, r, rerr)
			}
			var d bond.DB
			err := Catch(func() (err error) {
				d, err = bond.Open(db, optionsFor(x.req))
				return err
			})
			if err != nil && strings.HasPrefix(err.Error(), "panic") {
				return fmt.Errorf("version file %q, data version %q, request %d: %v", x.file, x.data, x.req, err)
			}
			want := fileOK && engineOK && dataOK
			if (err == nil) != want {
				if err == nil {
					_ = d.Close()
				}
				return fmt.Errorf("version file %q, data version %q, request %d: open error %v, expected success=%v", x.file, x.data, x.req, err, want)
			}
			c.Outcome(fmt.Sprint(fileOK, engineOK, dataOK))
			if err == nil {
				got := RawDump(d.Backend(), []byte{1}, []byte{0xFF, 0xFF})
				if e := d.Close(); e != nil {
					return e
				}
				if err := ShapeV().Compare(row15, got); err != nil {
					return err
				}
				if r, err := bond.PebbleFormatVersion(db); err != nil || r != x.req {
					return fmt.Errorf("recorded version %d, %v after opening with %d", r, err, x.req)
				}
				return nil
			}
			after, rerr := crash.Read(dir)
			if rerr != nil {
				return rerr
			}
			if !fileOK || !engineOK {
				if df := crash.Diff(t, after); df != "" {
					return fmt.Errorf("version file %q, data version %q, request %d: a refused open changed the directory: %s", x.file, x.data, x.req, df)
				}
			} else if after[name] != x.file && x.file != absent {
				return fmt.Errorf("a refused open changed the version file to %q", after[name])
			}
			// the lock is released, the content as it was
			o := optionsFor(engineVersions[0]).PebbleOptions
			o.Comparer = bond.DefaultKeyComparer()
			p, perr2 := pebble.Open(db, o)
			if perr2 != nil {
				return fmt.Errorf("after a refused open the engine cannot be opened: %v", perr2)
			}
			defer p.Close()
			got := RawDump(p, nil, []byte{0xFF, 0xFF})
			w := ShapeV().Raw(row15)
			if x.data != absent {
				w[string(vkey)] = x.data
			}
			delete(got, "")
			if !got.Equal(w) {
				return fmt.Errorf("a refused open changed the content: %s", Diff(w, got))
			}
			return nil
		})
	})
}

// migrations15: from every version to every number.
func migrations15(c *Ctx, trees map[uint64]crash.Tree) {
	targets := []uint64{0, 1, 2, 12}
	targets = append(targets, engineVersions...)
	targets = append(targets, engineVersions[len(engineVersions)-1]+1, 50, 999, 1<<32, 1<<32+engineVersions[0], math.MaxInt64, math.MaxUint64)
	type cs struct{ a, m1, m2 uint64 }
	var cases []cs
	for _, a := range append([]uint64{0}, engineVersions...) {
		for _, m1 := range targets {
			for _, m2 := range targets {
				cases = append(cases, cs{a, m1, m2})
			}
		}
	}
	c.Parallel(len(cases), func(w, i int) {
		x := cases[i]
		c.AddStates(1)
		c.Exec("migrate", func() any { return fmt.Sprintf("%+v", x) }, func() error {
			dir := c.TempDir()
			defer os.RemoveAll(dir)
			if err := trees[x.a].Write(dir); err != nil {
				panic(err)
			}
			db := filepath.Join(dir, "db")
			rec := x.a
			for _, m := range []uint64{x.m1, x.m2} {
				before, err := crash.Read(dir)
				if err != nil {
					return err
				}
				err = Catch(func() error { return bond.MigratePebbleFormatVersion(db, m) })
				if err != nil && strings.HasPrefix(err.Error(), "panic") {
					return fmt.Errorf("migrating %+v to %d: %v", x, m, err)
				}
				supported := m >= engineVersions[0] && m <= engineVersions[len(engineVersions)-1]
				if want := x.a != 0 && supported && m >= rec; (err == nil) != want {
					return fmt.Errorf("migrating %+v to %d: error %v, expected success=%v", x, m, err, want)
				}
				if err == nil {
					rec = m
				} else if x.a == 0 {
					after, _ := crash.Read(dir)
					if d := crash.Diff(before, after); strings.Contains(d, "bond") {
						return fmt.Errorf("failed migration of nothing left something: %s", d)
					}
				}
				got, err := bond.PebbleFormatVersion(db)
				if err != nil || got != rec {
					return fmt.Errorf("migrating %+v to %d: recorded version %d, %v, expected %d", x, m, got, err, rec)
				}
				if rec != 0 {
					if err := opens15(db, rec, rec, []Model{row15}); err != nil {
						return fmt.Errorf("migrating %+v to %d: %v", x, m, err)
					}
				}
				c.Outcome(fmt.Sprint(rec, m))
			}
			if x.a == 0 {
				// as if there had been no attempts
				for _, v := range engineVersions[:2] {
					if err := os.RemoveAll(db); err != nil {
						return err
					}
					for _, m := range []uint64{x.m1, x.m2} {
						_ = Catch(func() error { return bond.MigratePebbleFormatVersion(db, m) })
					}
					if err := opens15(db, v, v, []Model{nil}); err != nil {
						return fmt.Errorf("creating with version %d after failed migrations of nothing %+v: %v", v, x, err)
					}
				}
			}
			return nil
		})
	})
	_ = vfs.Default
}
