package kit

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/cockroachdb/pebble"
	"github.com/cockroachdb/pebble/vfs"
	"github.com/go-bond/bond"
)

// State is the raw content of a key range of the database.
type State map[string]string

func (s State) Clone() State {
	n := make(State, len(s))
	for k, v := range s {
		n[k] = v
	}
	return n
}

func (s State) Keys() []string {
	ks := make([]string, 0, len(s))
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (s State) Canon() string {
	var b strings.Builder
	for _, k := range s.Keys() {
		fmt.Fprintf(&b, "%d:%s%d:%s", len(k), k, len(s[k]), s[k])
	}
	return b.String()
}

func (s State) Equal(o State) bool {
	if len(s) != len(o) {
		return false
	}
	for k, v := range s {
		if w, ok := o[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// Diff describes how got differs from want.
func Diff(want, got State) string {
	var b strings.Builder
	n := 0
	add := func(f string, a ...any) {
		if n++; n <= 12 {
			fmt.Fprintf(&b, f, a...)
		}
	}
	for _, k := range want.Keys() {
		if v, ok := got[k]; !ok {
			add("missing key %x; ", k)
		} else if v != want[k] {
			add("key %x holds %q, expected %q; ", k, v, want[k])
		}
	}
	for _, k := range got.Keys() {
		if _, ok := want[k]; !ok {
			add("unexpected key %x = %q; ", k, got[k])
		}
	}
	return b.String()
}

type quietLogger struct{}

func (quietLogger) Infof(string, ...interface{})  {}
func (quietLogger) Errorf(string, ...interface{}) {}
func (quietLogger) Fatalf(f string, a ...interface{}) {
	panic(fmt.Sprintf("pebble fatal: "+f, a...))
}

// PebbleOptions returns small options on the given file system.
func PebbleOptions(fs vfs.FS) *pebble.Options {
	o := &pebble.Options{
		FS:                          fs,
		Logger:                      quietLogger{},
		MemTableSize:                4 << 20,
		MemTableStopWritesThreshold: 8,
		DisableAutomaticCompactions: true,
		MaxOpenFiles:                100,
	}
	return o
}

// Env is one database on an in-memory file system.
type Env struct {
	DB   bond.DB
	FS   vfs.FS
	Dir  string
	opts func() *bond.Options
	uses int
	// Max uses before the database is recreated.
	Max int
	// Lo and Hi bound the raw range used by Dump and Restore.
	Lo, Hi []byte
	cur    State
	OnOpen func(db bond.DB)
	after  func(o *bond.Options)
}

var envCounter int64

func (c *Ctx) TempDir() string {
	d := filepath.Join(c.Scratch, fmt.Sprintf("d%d", atomic.AddInt64(&envCounter, 1)))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// NewEnv opens a database; opts may be nil.
func (c *Ctx) NewEnv(serializer bond.Serializer[any], tweak func(o *bond.Options), onOpen func(db bond.DB)) *Env {
	e := &Env{Dir: c.TempDir(), Max: 200, Lo: []byte{1, 0}, Hi: []byte{0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF}, OnOpen: onOpen}
	e.opts = func() *bond.Options {
		e.FS = vfs.NewMem()
		o := &bond.Options{Serializer: serializer, PebbleOptions: PebbleOptions(e.FS)}
		if tweak != nil {
			tweak(o)
		}
		return o
	}
	e.reopen()
	return e
}

// NewEnvTwice opens a new store, closes it and opens it again with options
// changed by after.
func (c *Ctx) NewEnvTwice(serializer bond.Serializer[any], after func(o *bond.Options)) *Env {
	e := &Env{Dir: c.TempDir(), Max: 200, Lo: []byte{1, 0}, Hi: []byte{0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF}, after: after}
	e.opts = func() *bond.Options {
		e.FS = vfs.NewMem()
		return &bond.Options{Serializer: serializer, PebbleOptions: PebbleOptions(e.FS)}
	}
	e.reopen()
	return e
}

func (e *Env) reopen() {
	if e.DB != nil {
		db := e.DB
		e.DB = nil
		if err := db.Close(); err != nil {
			panic(fmt.Sprintf("close: %v", err))
		}
		_ = os.RemoveAll(filepath.Join(e.Dir, "bond"))
	}
	db, err := bond.Open(e.Dir, e.opts())
	if err != nil {
		panic(fmt.Sprintf("open: %v", err))
	}
	if e.after != nil {
		// the same store again, with the other options
		if err := db.Close(); err != nil {
			panic(fmt.Sprintf("close: %v", err))
		}
		fs := e.FS
		o := e.opts()
		e.FS = fs
		o.PebbleOptions.FS = fs
		e.after(o)
		if db, err = bond.Open(e.Dir, o); err != nil {
			panic(fmt.Sprintf("open again: %v", err))
		}
	}
	e.DB = db
	e.cur = State{}
	e.uses = 0
	if e.OnOpen != nil {
		e.OnOpen(db)
	}
}

func (e *Env) Close() error {
	var err error
	if e.DB != nil {
		err = e.DB.Close()
	}
	_ = os.RemoveAll(e.Dir)
	return err
}

// Use counts a use and recreates the database from time to time, because old
// versions of keys pile up in the memtable.
func (e *Env) Use() {
	e.uses++
	if e.uses > e.Max {
		e.reopen()
	}
}

// Dump reads the raw content of the range through the storage engine itself.
func (e *Env) Dump() State { return RawDump(e.DB.Backend(), e.Lo, e.Hi) }

func RawDump(r pebble.Reader, lo, hi []byte) State {
	it, err := r.NewIter(&pebble.IterOptions{LowerBound: lo, UpperBound: hi})
	if err != nil {
		panic(err)
	}
	s := State{}
	for it.First(); it.Valid(); it.Next() {
		s[string(it.Key())] = string(it.Value())
	}
	if err := it.Close(); err != nil {
		panic(err)
	}
	return s
}

// Restore makes the raw content equal to s, given that it is now cur.
func (e *Env) RestoreFrom(cur, s State) {
	b := e.DB.Backend().NewBatch()
	n := 0
	for k := range cur {
		if _, ok := s[k]; !ok {
			_ = b.Delete([]byte(k), nil)
			n++
		}
	}
	for k, v := range s {
		if w, ok := cur[k]; !ok || w != v {
			_ = b.Set([]byte(k), []byte(v), nil)
			n++
		}
	}
	if n > 0 {
		if err := b.Commit(pebble.NoSync); err != nil {
			panic(err)
		}
	}
	_ = b.Close()
}

// SetState makes the raw content equal to s whatever it is now.
func (e *Env) SetState(s State) { e.RestoreFrom(e.Dump(), s) }
