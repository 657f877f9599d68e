package main

import (
	"crypto/sha256"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

func init() {
	Register(&Check{ID: "C16", Level: "model_checking", Run: runC16,
		Rule: "state = which tables are filled, what was dumped, what the target held; transition = one real Dump or Restore; compared: raw content of source and target, and the files of the dump before and after; all fillings x dump selections x restore selections x with and without indexes"})
}

// target is a database on the real file system, restore ingests from there.
type target struct {
	db   bond.DB
	dir  string
	base State
}

func openDir(dir string) (bond.DB, error) {
	return bond.Open(dir, &bond.Options{PebbleOptions: PebbleOptions(vfs.Default)})
}

func newTarget(c *Ctx) *target {
	t := &target{dir: filepath.Join(c.TempDir(), "db")}
	var err error
	if t.db, err = openDir(t.dir); err != nil {
		panic(err)
	}
	// something that must stay
	for _, k := range []string{"\x02\x00\x00\x00\x00\x00mine", "\x02\x01\x00\x00\x00\x00mine", "\x0d\x00\x00\x00\x00\x00mine", string(bond.NewUserKey("u"))} {
		if err := t.db.Set([]byte(k), []byte("mine"), bond.Sync); err != nil {
			panic(err)
		}
	}
	t.base = RawDump(t.db.Backend(), nil, nil)
	return t
}

// wipe takes out everything a restore brought.
func (t *target) wipe() {
	got := RawDump(t.db.Backend(), nil, nil)
	b := t.db.Backend().NewBatch()
	for k := range got {
		if _, ok := t.base[k]; !ok {
			_ = b.Delete([]byte(k), nil)
		}
	}
	for k, v := range t.base {
		if got[k] != v {
			_ = b.Set([]byte(k), []byte(v), nil)
		}
	}
	if err := b.Commit(pebble.NoSync); err != nil {
		panic(err)
	}
	_ = b.Close()
}

func (t *target) close() {
	if t.db != nil {
		_ = t.db.Close()
	}
	_ = os.RemoveAll(t.dir)
}

// files hashes a directory tree.
func files(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			b, _ := os.ReadFile(p)
			out[strings.TrimPrefix(p, dir)] = fmt.Sprintf("%x", sha256.Sum256(b))
		} else if err == nil {
			out[strings.TrimPrefix(p, dir)] = "dir"
		}
		return nil
	})
	return out
}

func sameFiles(a, b map[string]string) bool { return State(a).Equal(State(b)) }

func tablesOf(g cfg10, mask int) []bond.TableID {
	var out []bond.TableID
	for i, t := range g.tables {
		if mask>>i&1 == 1 {
			out = append(out, bond.TableID(t))
		}
	}
	return out
}

// selected is the part of the store that a dump and restore of the tables
// carries over.
func selected(st State, tables []bond.TableID, idx bool) State {
	out := State{}
	for k, v := range st {
		for _, t := range tables {
			if k[0] == byte(t) && (idx || k[1] == 0) {
				out[k] = v
			}
		}
	}
	return out
}

func plus(a, b State) State {
	n := a.Clone()
	for k, v := range b {
		n[k] = v
	}
	return n
}

func runC16(c *Ctx) {
	g := cfg10{[]byte{1, 12, 255}, [][]byte{{1, 255}, {1}, {2, 255}}}
	n := len(g.tables)
	c.Part("all fillings and selections", func() {
		type wk struct {
			w *world10
			t *target
			n int
		}
		wks := make([]*wk, 64)
		combos := (1 << n) * (1 << n) * 2
		c.Parallel(combos, func(wi, x int) {
			k := wks[wi]
			if k == nil {
				k = &wk{w: newWorld10(c, g)}
				wks[wi] = k
			}
			mask, dsel, didx := x&(1<<n-1), x>>n&(1<<n-1), x>>(2*n) == 1
			ms := make([]Model, n)
			for i := range ms {
				ms[i] = Model{}
				if mask>>i&1 == 1 {
					ms[i] = rows10
				}
			}
			dir := filepath.Join(c.TempDir(), "dump")
			defer os.RemoveAll(filepath.Dir(dir))
			src := k.w.want(ms)
			ok := c.Exec("dump", func() any { return fmt.Sprint("filled ", mask, " dumped ", dsel, didx) }, func() error {
				k.w.set(ms)
				if err := k.w.env.DB.Dump(bg, dir, tablesOf(g, dsel), didx); err != nil {
					return fmt.Errorf("dump: %v", err)
				}
				if got := k.w.env.Dump(); !got.Equal(src) {
					return fmt.Errorf("dump changed the source: %s", Diff(src, got))
				}
				return nil
			})
			c.AddStates(1)
			c.AddTransitions(1)
			if !ok {
				return
			}
			before := files(dir)
			for rsel := 0; rsel < 1<<n; rsel++ {
				for _, ridx := range []bool{false, true} {
					if c.Stop() {
						return
					}
					if k.t == nil || k.n > 60 {
						if k.t != nil {
							k.t.close()
						}
						k.t, k.n = newTarget(c), 0
					}
					k.n++
					c.Exec("restore", func() any { return fmt.Sprint("filled ", mask, " dumped ", dsel, didx, " restored ", rsel, ridx) }, func() error {
						t := k.t
						t.wipe()
						if rsel&^dsel == 0 && k.n%2 == 0 {
							// the target has older versions of these entries
							for key := range selected(src, tablesOf(g, rsel), didx && ridx) {
								if err := t.db.Set([]byte(key), []byte("older"), bond.NoSync); err != nil {
									return err
								}
							}
						}
						err := t.db.Restore(bg, dir, tablesOf(g, rsel), ridx)
						if (err != nil) != (rsel&^dsel != 0) {
							return fmt.Errorf("restore of tables %v from a dump of %v: %v", tablesOf(g, rsel), tablesOf(g, dsel), err)
						}
						want := t.base
						if err == nil {
							want = plus(t.base, selected(src, tablesOf(g, rsel), didx && ridx))
						}
						if got := RawDump(t.db.Backend(), nil, nil); !got.Equal(want) {
							return fmt.Errorf("restore of tables %v (indexes %v) from a dump of %v (indexes %v): %s", tablesOf(g, rsel), ridx, tablesOf(g, dsel), didx, Diff(want, got))
						}
						if !sameFiles(before, files(dir)) {
							return fmt.Errorf("restore changed the dump")
						}
						return nil
					})
					c.AddStates(1)
					c.AddTransitions(1)
					c.AddTraces(1)
				}
			}
		})
		for _, k := range wks {
			if k != nil {
				_ = k.w.env.Close()
				if k.t != nil {
					k.t.close()
				}
			}
		}
		c.Sample(map[string]any{"tables": g.String(), "fillings x selections": combos})
	})
	reopened(c, g)
	manyIndexes(c)
	bigDumps(c)
	badDumps(c, g)
	cliDumps(c, g)
	layouts(c, "dumps", layoutRestores(), false, false)
}

// manyIndexes: tables with any number of indexes, and any number of tables.
func manyIndexes(c *Ctx) {
	c.Part("numbers of indexes and tables", func() {
		type cse struct {
			tables, n int
			ids       string
		}
		var cs []cse
		for n := 0; n <= 12; n++ {
			for _, ids := range []string{"low", "high", "spread"} {
				cs = append(cs, cse{1, n, ids})
			}
		}
		for _, n := range []int{16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 254, 255} {
			cs = append(cs, cse{1, n, "low"}, cse{1, n, "high"})
		}
		for n := 2; n <= 12; n++ {
			cs = append(cs, cse{n, 1, "low"}, cse{n, 5, "spread"})
		}
		cs = append(cs, cse{32, 2, "high"}, cse{65, 1, "low"})
		c.Parallel(len(cs), func(_, x int) {
			k := cs[x]
			g := cfg10{}
			for t := 0; t < k.tables; t++ {
				var ids []byte
				for i := 0; i < k.n; i++ {
					switch k.ids {
					case "low":
						ids = append(ids, byte(i+1))
					case "high":
						ids = append(ids, byte(255-i))
					case "spread":
						ids = append(ids, byte(1+(i*97+t*13)%255))
					}
				}
				g.tables, g.ids = append(g.tables, byte(20+t)), append(g.ids, ids)
			}
			c.Exec("indexes and tables", func() any { return fmt.Sprintf("%+v", k) }, func() error {
				w := newWorld10(c, g)
				defer func() { _ = w.env.Close() }()
				var ms []Model
				for range g.tables {
					ms = append(ms, rows10)
				}
				w.set(ms)
				src := w.want(ms)
				dir := filepath.Join(c.TempDir(), "dump")
				defer os.RemoveAll(filepath.Dir(dir))
				var all []bond.TableID
				for _, t := range g.tables {
					all = append(all, bond.TableID(t))
				}
				if err := w.env.DB.Dump(bg, dir, all, true); err != nil {
					return fmt.Errorf("dump: %v", err)
				}
				for _, idx := range []bool{true, false} {
					t := newTarget(c)
					err := t.db.Restore(bg, dir, all, idx)
					got, want := RawDump(t.db.Backend(), nil, nil), plus(t.base, selected(src, all, idx))
					t.close()
					if err != nil {
						return fmt.Errorf("restore (indexes %v): %v", idx, err)
					}
					if !got.Equal(want) {
						return fmt.Errorf("restore (indexes %v): %s", idx, Diff(want, got))
					}
				}
				return nil
			})
			c.AddStates(1)
			c.AddTransitions(3)
			c.AddTraces(2)
		})
	})
}

// reopened: what was restored is there after closing and opening.
func reopened(c *Ctx, g cfg10) {
	c.Part("restored twice, closed and opened", func() {
		c.Parallel(16, func(_, x int) {
			c.Exec("reopen", func() any { return x }, func() error {
				w := newWorld10(c, g)
				defer func() { _ = w.env.Close() }()
				ms := []Model{rows10, rows10, rows10}
				w.set(ms)
				src := w.want(ms)
				dsel, idx := 7, x&1 == 1
				dir := filepath.Join(c.TempDir(), "dump")
				if err := w.env.DB.Dump(bg, dir, tablesOf(g, dsel), idx); err != nil {
					return err
				}
				rsel := x>>1 | 1
				for round := 0; round < 2; round++ {
					t := newTarget(c)
					err := func() error {
						if err := t.db.Restore(bg, dir, tablesOf(g, rsel), idx); err != nil {
							return err
						}
						if err := t.db.Close(); err != nil {
							return fmt.Errorf("close after restore: %v", err)
						}
						t.db = nil
						db, err := openDir(t.dir)
						if err != nil {
							return fmt.Errorf("open after restore: %v", err)
						}
						defer func() { _ = db.Close() }()
						want := plus(t.base, selected(src, tablesOf(g, rsel), idx))
						if got := RawDump(db.Backend(), nil, nil); !got.Equal(want) {
							return fmt.Errorf("after reopening: %s", Diff(want, got))
						}
						// the table works on what was restored
						s := shape10(1, g.ids[0])
						tb, _ := s.NewTable(db)
						var out []RowS
						if err := tb.Scan(bg, &out, false); err != nil || len(out) != len(rows10) {
							return fmt.Errorf("scan of the restored table: %d rows, %v", len(out), err)
						}
						return tb.Delete(bg, out)
					}()
					t.close()
					if err != nil {
						return fmt.Errorf("round %d: %w", round, err)
					}
				}
				return nil
			})
			c.AddStates(2)
			c.AddTransitions(4)
		})
	})
}

// noise makes bytes that do not compress.
func noise(seed uint64, n int) []byte {
	b := make([]byte, n)
	x := seed*2862933555777941757 + 3037000493
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 24)
	}
	return b
}

// bigDumps: more than fits into one file of the dump.
func bigDumps(c *Ctx) {
	c.Part("tables of several files", func() {
		type cs struct {
			rows, size int
			index      bool
		}
		var cases []cs
		for n := 14; n <= 21; n++ {
			cases = append(cases, cs{n, 1 << 20, false})
		}
		cases = append(cases, cs{36, 1 << 20, false}, cs{4600, 4000, true}, cs{4, 12 << 20, false}, cs{9, 65535, true}, cs{9, 65536, true}, cs{9, 1 << 17, true}, cs{2, 1<<24 + 1, true})
		if c.Thorough() {
			for n := 30; n <= 56; n++ {
				cases = append(cases, cs{n, 1 << 20, false})
			}
			for n := 4200; n < 4500; n += 25 {
				cases = append(cases, cs{n, 4000, true})
			}
		}
		c.ParallelN(4, len(cases), func(_, i int) {
			k := cases[i]
			c.Exec("large", func() any { return fmt.Sprintf("%+v", k) }, func() error {
				env := c.NewEnv(nil, func(o *bond.Options) { o.PebbleOptions.MemTableSize = 64 << 20 }, nil)
				defer func() { _ = env.Close() }()
				st := RawDump(env.DB.Backend(), nil, nil)
				for r := 0; r < k.rows; r++ {
					key := string(RawKey(5, 0, nil, nil, new(Fields).U64(uint64(r)).B))
					val := "v"
					if k.index {
						st[string(RawKey(5, 3, noise(uint64(r+1), k.size), nil, new(Fields).U64(uint64(r)).B))] = ""
					} else {
						val = string(noise(uint64(r+1), k.size))
					}
					st[key] = val
				}
				env.Lo, env.Hi = nil, nil
				for key, v := range st {
					if err := env.DB.Set([]byte(key), []byte(v), bond.NoSync); err != nil {
						return err
					}
				}
				dir := filepath.Join(c.TempDir(), "dump")
				defer os.RemoveAll(filepath.Dir(dir))
				if err := env.DB.Dump(bg, dir, []bond.TableID{5}, true); err != nil {
					return fmt.Errorf("dump: %v", err)
				}
				before := files(dir)
				t := newTarget(c)
				defer t.close()
				if err := t.db.Restore(bg, dir, []bond.TableID{5}, true); err != nil {
					return fmt.Errorf("%+v: restore: %v", k, err)
				}
				want := plus(t.base, selected(st, []bond.TableID{5}, true))
				got := RawDump(t.db.Backend(), nil, nil)
				for key, v := range want {
					if g, ok := got[key]; !ok || g != v {
						return fmt.Errorf("%+v: restored %d of %d entries", k, len(got), len(want))
					}
				}
				if len(got) != len(want) {
					return fmt.Errorf("%+v: restored %d entries instead of %d", k, len(got), len(want))
				}
				if !sameFiles(before, files(dir)) {
					return fmt.Errorf("restore changed the dump")
				}
				c.Outcome(fmt.Sprint(k, len(before)))
				return nil
			})
			c.AddStates(1)
			c.AddTransitions(2)
		})
	})
}

// badDumps: dumps that are not usable are refused without effect.
func badDumps(c *Ctx, g cfg10) {
	c.Part("refused dumps and restores", func() {
		w := newWorld10(c, g)
		defer func() { _ = w.env.Close() }()
		ms := []Model{rows10, {}, rows10}
		w.set(ms)
		t := newTarget(c)
		defer t.close()
		for _, bad := range []string{"version missing", "version empty", "version short", "version other", "version older", "table missing", "directory missing", "good"} {
			bad := bad
			c.Exec("refused", func() any { return bad }, func() error {
				t.wipe()
				dir := filepath.Join(c.TempDir(), "dump")
				if err := w.env.DB.Dump(bg, dir, tablesOf(g, 7), true); err != nil {
					return err
				}
				v := filepath.Join(dir, "VERSION")
				raw, err := os.ReadFile(v)
				if err != nil {
					return err
				}
				switch bad {
				case "version missing":
					err = os.Remove(v)
				case "version empty":
					err = os.WriteFile(v, nil, 0644)
				case "version short":
					err = os.WriteFile(v, raw[:len(raw)-1], 0644)
				case "version other":
					raw[len(raw)-1]++
					err = os.WriteFile(v, raw, 0644)
				case "version older":
					raw[len(raw)-1]--
					err = os.WriteFile(v, raw, 0644)
				case "table missing":
					err = os.RemoveAll(filepath.Join(dir, "table_255"))
				case "directory missing":
					err = os.RemoveAll(dir)
				}
				if err != nil {
					return err
				}
				err = t.db.Restore(bg, dir, tablesOf(g, 7), true)
				if (err == nil) != (bad == "good") {
					return fmt.Errorf("restore with %s: %v", bad, err)
				}
				want := t.base
				if bad == "good" {
					want = plus(t.base, selected(w.want(ms), tablesOf(g, 7), true))
				}
				if got := RawDump(t.db.Backend(), nil, nil); !got.Equal(want) {
					return fmt.Errorf("restore with %s: %s", bad, Diff(want, got))
				}
				if bad != "good" {
					return nil
				}
				// a second dump into the same place is refused and leaves it alone
				before := files(dir)
				if err := w.env.DB.Dump(bg, dir, tablesOf(g, 1), false); err == nil {
					return fmt.Errorf("dump into an existing directory succeeded")
				}
				if !sameFiles(before, files(dir)) {
					return fmt.Errorf("refused dump changed the directory")
				}
				return nil
			})
			c.AddStates(1)
			c.AddTransitions(2)
		}
	})
}

// cliDumps drives the command line tool.
func cliDumps(c *Ctx, g cfg10) {
	bin := os.Getenv("VMC_BIN_cli")
	if bin == "" {
		return
	}
	c.Part("command line tool", func() {
		src := filepath.Join(c.TempDir(), "src")
		var content State
		if !c.Exec("command line", nil, func() error {
			db, err := bond.Open(src, nil)
			if err != nil {
				return err
			}
			for i, id := range g.tables {
				s := shape10(id, g.ids[i])
				t, _ := s.NewTable(db)
				if err := t.Insert(bg, s.Ts(rows10.Rows())); err != nil {
					return err
				}
			}
			content = RawDump(db.Backend(), nil, nil)
			return db.Close()
		}) {
			return
		}
		run := func(args ...string) string {
			cmd := exec.Command(bin, args...)
			cmd.Dir = c.TempDir()
			out, _ := cmd.CombinedOutput()
			return string(out)
		}
		sels := [][]int{{1}, {12}, {255}, {1, 12}, {12, 255}, {255, 1}, {1, 12, 255}, {256}, {257}, {-1}, {1, 268}}
		join := func(l []int) string {
			var s []string
			for _, x := range l {
				s = append(s, fmt.Sprint(x))
			}
			return strings.Join(s, ",")
		}
		valid := func(l []int) (out []bond.TableID, ok bool) {
			for _, x := range l {
				if x < 0 || x > 255 {
					return nil, false
				}
				out = append(out, bond.TableID(x))
			}
			return out, true
		}
		subset := func(a, b []bond.TableID) bool {
			for _, x := range a {
				found := false
				for _, y := range b {
					found = found || x == y
				}
				if !found {
					return false
				}
			}
			return true
		}
		for di, dsel := range sels {
			for _, didx := range []bool{false, true} {
				dump := filepath.Join(c.TempDir(), "dump")
				dt, dok := valid(dsel)
				dargs := []string{"dump", "--bond-dir", src, "--dir", dump, "--tables", join(dsel)}
				if didx {
					dargs = append(dargs, "--with-index")
				}
				out := run(dargs...)
				if !dok {
					c.Exec("command line", func() any { return dargs }, func() error {
						for f, h := range files(dump) {
							if h != "dir" && strings.HasSuffix(f, ".sst") {
								return fmt.Errorf("%v wrote %s: %s", dargs, f, out)
							}
						}
						return nil
					})
					continue
				}
				var rsels []int
				for i := range sels {
					if c.Thorough() || i == di || i == (di+5)%len(sels) || i == 8 {
						rsels = append(rsels, i)
					}
				}
				sort.Ints(rsels)
				for _, ri := range rsels {
					for _, ridx := range []bool{false, true} {
						if c.Stop() {
							return
						}
						rsel, ridx := sels[ri], ridx
						c.Exec("command line", func() any { return fmt.Sprint(dsel, didx, rsel, ridx) }, func() error {
							dst := filepath.Join(c.TempDir(), "dst")
							defer os.RemoveAll(filepath.Dir(dst))
							rargs := []string{"restore", "--bond-dir", dst, "--dir", dump, "--tables", join(rsel)}
							if ridx {
								rargs = append(rargs, "--with-index")
							}
							out := run(rargs...)
							db, err := bond.Open(dst, nil)
							if err != nil {
								return err
							}
							defer func() { _ = db.Close() }()
							rt, rok := valid(rsel)
							want := State{}
							if rok && subset(rt, dt) {
								want = selected(content, rt, didx && ridx)
							}
							got := selected(RawDump(db.Backend(), []byte{1}, nil), tablesOf(cfg10{tables: allBytes}, -1), true)
							if !got.Equal(want) {
								return fmt.Errorf("%v then %v (%s): %s", dargs, rargs, out, Diff(want, got))
							}
							return nil
						})
						c.AddStates(1)
						c.AddTransitions(2)
						c.AddTraces(1)
					}
				}
				_ = os.RemoveAll(filepath.Dir(dump))
			}
		}
	})
}

var allBytes = func() []byte {
	var out []byte
	for i := 0; i < 256; i++ {
		out = append(out, byte(i))
	}
	return out
}()
