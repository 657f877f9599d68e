package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/cond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

var bg = context.Background()

type opKind int

const (
	opInsert opKind = iota
	opUpdate
	opUpsertReplace
	opUpsertMix
	opDelete
	opUnsafeInsert
	opUnsafeUpdate
	opDeleteGiven  // the record passed is not what is stored
	opUpsertInside // the conflict function changes the old record and returns it
)

var opNames = []string{"insert", "update", "upsert-replace", "upsert-mix", "delete", "unsafe-insert", "unsafe-update", "delete-given", "upsert-inside"}

// op is one call of the alphabet.
type op struct {
	kind opKind
	rows []R
}

func (o op) String() string { return fmt.Sprintf("%s%v", opNames[o.kind], o.rows) }

// mix is a non-commutative, non-associative conflict function that stays
// inside the value domain {0,1,2} for A and B.
func mix(old, new R) R {
	return R{K: new.K, A: (2*old.A + new.A + 1) % 3, B: (old.B + 2*new.B) % 3, P: old.P != new.P, S: mixS(old.S, new.S)}
}

func mixS(a, b string) string {
	if a == b {
		return "x"
	}
	return a
}

// refApply is the reference meaning of a call: new content, or an error.
// For deletes, rows hold only the key; the record passed is the stored one.
func refApply(m Model, o op) (Model, error) {
	n := m.Clone()
	switch o.kind {
	case opInsert, opUnsafeInsert:
		for _, r := range o.rows {
			if _, ok := n[r.K]; ok {
				return m, errors.New("exists")
			}
			n[r.K] = r
		}
	case opUpdate, opUnsafeUpdate:
		for _, r := range o.rows {
			if _, ok := m[r.K]; !ok {
				return m, errors.New("missing")
			}
			n[r.K] = r
		}
	case opUpsertReplace:
		for _, r := range o.rows {
			n[r.K] = r
		}
	case opUpsertMix, opUpsertInside:
		for _, r := range o.rows {
			if old, ok := n[r.K]; ok {
				n[r.K] = mix(old, r)
			} else {
				n[r.K] = r
			}
		}
	case opDelete, opDeleteGiven:
		for _, r := range o.rows {
			delete(n, r.K)
		}
	}
	return n, nil
}

// implApply performs the call on the real table. m is the content as seen by
// the call (used only to pass the current record to Delete / UnsafeUpdate).
func implApply[T any](s *Shape[T], t bond.Table[T], m Model, o op, batch ...bond.Batch) error {
	return implApplyCtx(bg, s, t, m, o, batch...)
}

func implApplyCtx[T any](ctx context.Context, s *Shape[T], t bond.Table[T], m Model, o op, batch ...bond.Batch) error {
	switch o.kind {
	case opInsert:
		return t.Insert(ctx, s.Ts(o.rows), batch...)
	case opUpdate:
		return t.Update(ctx, s.Ts(o.rows), batch...)
	case opUpsertReplace:
		return t.Upsert(ctx, s.Ts(o.rows), bond.TableUpsertOnConflictReplace[T], batch...)
	case opUpsertMix:
		return t.Upsert(ctx, s.Ts(o.rows), func(old, new T) T { return s.To(mix(s.From(old), s.From(new))) }, batch...)
	case opDelete:
		rows := make([]R, len(o.rows))
		for i, r := range o.rows {
			rows[i] = r
			if cur, ok := m[r.K]; ok {
				rows[i] = cur
			}
		}
		return t.Delete(ctx, s.Ts(rows), batch...)
	case opDeleteGiven:
		return t.Delete(ctx, s.Ts(o.rows), batch...)
	case opUpsertInside:
		return t.Upsert(ctx, s.Ts(o.rows), func(old, new T) T {
			n := s.To(mix(s.From(old), s.From(new)))
			if o := reflect.ValueOf(old); o.Kind() == reflect.Pointer {
				o.Elem().Set(reflect.ValueOf(n).Elem())
				return old
			}
			return n
		}, batch...)
	case opUnsafeInsert:
		return t.(bond.TableUnsafeInserter[T]).UnsafeInsert(ctx, s.Ts(o.rows), batch...)
	case opUnsafeUpdate:
		olds := make([]R, len(o.rows))
		for i, r := range o.rows {
			olds[i] = m[r.K]
		}
		return t.(bond.TableUnsafeUpdater[T]).UnsafeUpdate(ctx, s.Ts(o.rows), s.Ts(olds), batch...)
	}
	panic("op")
}

// unsafeOK tells whether the call is within the contract of the unsafe calls.
func unsafeOK(m Model, o op) bool {
	seen := map[int]bool{}
	for _, r := range o.rows {
		_, stored := m[r.K]
		if seen[r.K] || (o.kind == opUnsafeInsert) == stored {
			return false
		}
		seen[r.K] = true
	}
	return true
}

// lists enumerates all row lists over the rows up to the given length.
func lists(rows []R, maxLen int) [][]R {
	out := [][]R{{}}
	prev := [][]R{{}}
	for l := 1; l <= maxLen; l++ {
		var cur [][]R
		for _, p := range prev {
			for _, r := range rows {
				cur = append(cur, append(append([]R{}, p...), r))
			}
		}
		out = append(out, cur...)
		prev = cur
	}
	return out
}

// rowsOver builds rows for the given keys and values.
func rowsOver(keys []int, vals []R) []R {
	var out []R
	for _, k := range keys {
		for _, v := range vals {
			v.K = k
			out = append(out, v)
		}
	}
	return out
}

// models enumerates every content over keys and values (absent included).
func models(keys []int, vals []R) []Model {
	out := []Model{{}}
	for _, k := range keys {
		var next []Model
		for _, m := range out {
			next = append(next, m)
			for _, v := range vals {
				n := m.Clone()
				v.K = k
				n[k] = v
				next = append(next, n)
			}
		}
		out = next
	}
	return out
}

// world is one worker's database with the table under test.
type world[T any] struct {
	c   *Ctx
	s   *Shape[T]
	env *Env
	t   bond.Table[T]
	idx []*bond.Index[T]
	cur State
	enc map[R]string
}

func newWorld[T any](c *Ctx, s *Shape[T]) *world[T] {
	w := &world[T]{c: c, s: s, enc: map[R]string{}}
	w.env = c.NewEnv(s.Serializer, nil, func(db bond.DB) {
		w.t, w.idx = s.NewTable(db)
		w.cur = State{}
	})
	return w
}

func (w *world[T]) raw(m Model) State {
	st := make(State, len(m)*5)
	for _, r := range m {
		e, ok := w.enc[r]
		if !ok {
			e = w.s.Encode(r)
			w.enc[r] = e
		}
		w.s.Entries(st, r, e)
	}
	return st
}

// set makes the database content equal to the model.
func (w *world[T]) set(m Model) {
	w.env.Use()
	want := w.raw(m)
	w.env.RestoreFrom(w.cur, want)
	w.cur = want
}

// sync re-reads the real content.
func (w *world[T]) dump() State {
	w.cur = w.env.Dump()
	return w.cur
}

func (w *world[T]) decode(got State) (Model, error) {
	m := Model{}
	for k, v := range got {
		if k[0] == byte(w.s.TableID) && k[1] == 0 {
			var t T
			if err := w.s.Serializer.Deserialize([]byte(v), &t); err != nil {
				return nil, fmt.Errorf("stored record %x does not decode: %v", k, err)
			}
			r := w.s.From(t)
			if r.K < 0 || w.s.DataKey(r.K) != k {
				return nil, fmt.Errorf("record %v stored under key %x", r, k)
			}
			m[r.K] = r
		}
	}
	return m, nil
}

func dataOnly(st State) State {
	n := State{}
	for k, v := range st {
		if k[1] == 0 {
			n[k] = v
		}
	}
	return n
}

func indexOnly(st State) State {
	n := State{}
	for k, v := range st {
		if k[1] != 0 {
			n[k] = v
		}
	}
	return n
}

// checkIndexes verifies that index entries are exactly those of stored rows.
func (w *world[T]) checkIndexes(got State) error {
	m, err := w.decode(got)
	if err != nil {
		return err
	}
	want := indexOnly(w.raw(m))
	have := indexOnly(got)
	if !want.Equal(have) {
		return fmt.Errorf("index entries do not match the stored rows %v: %s", m.Rows(), Diff(want, have))
	}
	return nil
}

// each runs f for every state on parallel workers, each with its own world.
func each[T any](c *Ctx, mk func() *Shape[T], ms []Model, f func(w *world[T], m Model)) {
	worlds := make([]*world[T], 64)
	c.Parallel(len(ms), func(wk, i int) {
		if worlds[wk] == nil {
			worlds[wk] = newWorld(c, mk())
		}
		f(worlds[wk], ms[i])
	})
	for _, w := range worlds {
		if w != nil {
			if err := w.env.Close(); err != nil {
				c.Violate("close", "closing the database: "+err.Error(), nil)
			}
		}
	}
}

func eqRows(a, b []R) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func reverse(rs []R) []R {
	out := make([]R, len(rs))
	for i := range rs {
		out[len(rs)-1-i] = rs[i]
	}
	return out
}

func condFunc[T any](f func(T) bool) cond.Cond[T] { return cond.Func(f) }
