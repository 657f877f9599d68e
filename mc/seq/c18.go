package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

func init() {
	Register(&Check{ID: "C18", Level: "model_checking", Run: runC18,
		Rule: "state = life of a batch (registered callbacks, pending writes, committed or not); transition = one real call on it; every sequence up to the depth is run from scratch; compared: callbacks fired, in which order, with which batch, error and data visibility, and the result of the call"})
}

type b18op int

const (
	bRegCommit b18op = iota
	bRegVeto
	bRegWriter
	bRegCommitted
	bRegError
	bRegClose
	bWrite
	bCommit
	bCommitFail
	bApplyDB
	bApplyInto
	bOuterCommit
	bReset
	bClose
	bOps
)

var b18names = []string{"OnCommit", "OnCommit(veto)", "OnCommit(writes)", "OnCommitted", "OnError", "OnClose", "Set", "Commit", "Commit(fails)", "DB.Apply", "Apply into other", "commit other", "Reset", "Close"}

// model of the batch
type b18model struct {
	onCommit    []string
	onCommitted []string
	onError     []string
	onClose     []string
	pending     bool // writes in the batch
	extra       bool // write added by a callback
	inOther     bool // key is in the other batch
	visible     bool
	applied     bool // storage batch is used up
	otherDone   bool
	closed      bool
	n           int
}

func (m b18model) allowed(o b18op) bool {
	if m.closed {
		return o == bOuterCommit && !m.otherDone
	}
	if m.applied {
		// only Close or Reset may follow, and registering callbacks
		return o == bClose || o == bReset || o == bRegClose || o == bRegCommitted || o == bOuterCommit && !m.otherDone
	}
	if m.otherDone && (o == bOuterCommit || o == bApplyInto) {
		return false
	}
	return true
}

// apply gives the expected log of the call and its result.
func (m *b18model) apply(o b18op) (log []string, fails bool) {
	id := fmt.Sprint(m.n)
	m.n++
	fire := func(committed func()) {
		for _, c := range m.onCommit {
			log = append(log, fmt.Sprintf("commit %s visible=%v", c, m.visible))
			if strings.HasSuffix(c, "w") {
				m.extra = true
			}
			if strings.HasSuffix(c, "v") {
				fails = true
				return
			}
		}
		committed()
	}
	commitDone := func() {
		m.visible = m.visible || m.pending
		for _, c := range m.onCommitted {
			log = append(log, fmt.Sprintf("committed %s visible=%v", c, m.visible))
		}
	}
	empty := !m.pending && !m.extra
	switch o {
	case bRegCommit:
		m.onCommit = append(m.onCommit, id)
	case bRegVeto:
		m.onCommit = append(m.onCommit, id+"v")
	case bRegWriter:
		m.onCommit = append(m.onCommit, id+"w")
	case bRegCommitted:
		m.onCommitted = append(m.onCommitted, id)
	case bRegError:
		m.onError = append(m.onError, id)
	case bRegClose:
		m.onClose = append(m.onClose, id)
	case bWrite:
		m.pending = true
	case bCommit, bApplyDB:
		if empty {
			return nil, false
		}
		fire(func() {
			m.applied = true
			commitDone()
		})
	case bCommitFail:
		if empty {
			return nil, false
		}
		fire(func() {
			fails = true
			for _, c := range m.onError {
				log = append(log, "error "+c)
			}
		})
	case bApplyInto:
		fire(func() {
			m.inOther = m.inOther || m.pending
			for _, c := range m.onCommitted {
				log = append(log, fmt.Sprintf("committed %s visible=%v", c, m.visible))
			}
		})
	case bOuterCommit:
		m.otherDone = true
		m.visible = m.visible || m.inOther
	case bReset:
		n, v, io, od := m.n, m.visible, m.inOther, m.otherDone
		*m = b18model{n: n, visible: v, inOther: io, otherDone: od}
	case bClose:
		for _, c := range m.onClose {
			log = append(log, "close "+c)
		}
		m.closed = true
	}
	return log, fails
}

func runC18(c *Ctx) {
	depth := 5
	if c.Thorough() {
		depth = 6
	}
	var firsts [][]b18op
	for a := b18op(0); a < bOps; a++ {
		for b := b18op(0); b < bOps; b++ {
			firsts = append(firsts, []b18op{a, b})
		}
	}
	for _, bt := range []bond.BatchType{bond.BatchTypeWriteOnly, bond.BatchTypeReadWrite} {
		bt := bt
		c.Part(fmt.Sprintf("batch type %d, %d calls", bt, depth), func() {
			envs := make([]*Env, 64)
			c.Parallel(len(firsts), func(w, i int) {
				if envs[w] == nil {
					envs[w] = c.NewEnvTwice(nil, func(o *bond.Options) { o.PebbleOptions.DisableWAL = true })
					envs[w].Max = 5000
				}
				var rec func(seq []b18op)
				rec = func(seq []b18op) {
					if c.Stop() {
						return
					}
					if len(seq) < depth {
						for o := b18op(0); o < bOps; o++ {
							rec(append(seq[:len(seq):len(seq)], o))
						}
						return
					}
					m := b18model{}
					for _, o := range seq {
						if !m.allowed(o) {
							return
						}
						m.apply(o)
					}
					c.AddStates(1)
					c.AddTransitions(len(seq))
					c.AddTraces(1)
					c.Exec("batch life", func() any { return names18(seq) }, func() error { return run18(c, envs[w], bt, seq) })
				}
				rec(firsts[i])
			})
			for _, e := range envs {
				if e != nil {
					_ = e.Close()
				}
			}
		})
	}
	c.Sample(names18([]b18op{bRegCommit, bWrite, bCommitFail, bRegCommitted, bCommit}))
	internalBatches(c)
}

func names18(seq []b18op) string {
	var s []string
	for _, o := range seq {
		s = append(s, b18names[o])
	}
	return strings.Join(s, "; ")
}

var errVeto = errors.New("veto")

func run18(c *Ctx, env *Env, bt bond.BatchType, seq []b18op) error {
	env.Use()
	db := env.DB
	key, extra := bond.NewUserKey("k"), bond.NewUserKey("extra")
	if err := db.Delete(key, bond.NoSync); err != nil {
		return err
	}
	if err := db.Delete(extra, bond.NoSync); err != nil {
		return err
	}
	visible := func() bool {
		_, closer, err := db.Get(key)
		if err == nil {
			_ = closer.Close()
		}
		return err == nil
	}
	b, other := db.Batch(bt), db.Batch(bt)
	bClosed := false
	defer func() {
		if !bClosed {
			_ = b.Close()
		}
		_ = other.Close()
	}()
	other.OnCommit(func(bond.Batch) error { return nil })
	var log []string
	var m b18model
	same := func(x bond.Batch) string {
		if x != b {
			return " (another batch)"
		}
		return ""
	}
	for _, o := range seq {
		id := fmt.Sprint(m.n)
		want, fails := m.apply(o)
		log = nil
		var err error
		switch o {
		case bRegCommit:
			b.OnCommit(func(x bond.Batch) error {
				log = append(log, fmt.Sprintf("commit %s visible=%v%s", id, visible(), same(x)))
				return nil
			})
		case bRegVeto:
			b.OnCommit(func(x bond.Batch) error {
				log = append(log, fmt.Sprintf("commit %sv visible=%v%s", id, visible(), same(x)))
				return errVeto
			})
		case bRegWriter:
			b.OnCommit(func(x bond.Batch) error {
				log = append(log, fmt.Sprintf("commit %sw visible=%v%s", id, visible(), same(x)))
				return x.Set(extra, []byte("e"), bond.NoSync)
			})
		case bRegCommitted:
			b.OnCommitted(func(x bond.Batch) {
				log = append(log, fmt.Sprintf("committed %s visible=%v%s", id, visible(), same(x)))
			})
		case bRegError:
			b.OnError(func(x bond.Batch, e error) {
				s := "error " + id + same(x)
				if e == nil {
					s += " without error"
				}
				log = append(log, s)
			})
		case bRegClose:
			b.OnClose(func(x bond.Batch) { log = append(log, "close "+id+same(x)) })
		case bWrite:
			err = b.Set(key, []byte("v"), bond.NoSync)
		case bCommit:
			err = b.Commit(bond.NoSync)
		case bCommitFail:
			err = b.Commit(bond.Sync)
		case bApplyDB:
			err = db.Apply(b, bond.NoSync)
		case bApplyInto:
			err = other.Apply(b, bond.NoSync)
		case bOuterCommit:
			err = other.Commit(bond.NoSync)
		case bReset:
			b.Reset()
		case bClose:
			bClosed = true
			err = b.Close()
		}
		if (err != nil) != fails {
			return fmt.Errorf("%s: %s returned %v", names18(seq), b18names[o], err)
		}
		if fails && len(want) > 0 && strings.Contains(want[len(want)-1], "v visible") && !errors.Is(err, errVeto) {
			return fmt.Errorf("%s: %s vetoed with %v", names18(seq), b18names[o], err)
		}
		if strings.Join(log, ", ") != strings.Join(want, ", ") {
			return fmt.Errorf("%s: %s fired [%s], expected [%s]", names18(seq), b18names[o], strings.Join(log, ", "), strings.Join(want, ", "))
		}
		if v := visible(); v != m.visible {
			return fmt.Errorf("%s: after %s the written key visible=%v, expected %v", names18(seq), b18names[o], v, m.visible)
		}
		if !m.closed && b.Type() != bt {
			return fmt.Errorf("%s: batch type changed to %v", names18(seq), b.Type())
		}
	}
	return nil
}

// internalBatches: with table calls, callbacks fire for the caller's batch only
// when the caller commits it.
func internalBatches(c *Ctx) {
	c.Part("table calls on a batch", func() {
		w := newWorld(c, ShapeV())
		for _, o := range []op{{opInsert, []R{{K: 1, A: 1}}}, {opUpdate, []R{{K: 0, A: 2}}}, {opUpsertMix, []R{{K: 0, A: 2}, {K: 1}}}, {opDelete, []R{{K: 0}}},
			{opInsert, []R{{K: 0}}}, {opUpdate, []R{{K: 1}}}, {opUnsafeInsert, []R{{K: 1}}}, {opUnsafeUpdate, []R{{K: 0, A: 2}}}} {
			for _, bt := range []bond.BatchType{bond.BatchTypeWriteOnly, bond.BatchTypeReadWrite} {
				o, bt := o, bt
				c.Exec("table calls on a batch", func() any { return o.String() }, func() error {
					m := Model{0: {K: 0, A: 1, S: "x"}}
					w.set(m)
					b := w.env.DB.Batch(bt)
					defer func() { _ = b.Close() }()
					var log []string
					b.OnCommit(func(bond.Batch) error { log = append(log, "commit"); return nil })
					b.OnCommitted(func(bond.Batch) { log = append(log, "committed") })
					b.OnError(func(bond.Batch, error) { log = append(log, "error") })
					b.OnClose(func(bond.Batch) { log = append(log, "close") })
					_, werr := refApply(m, o)
					if err := implApply(w.s, w.t, m, o, b); (err != nil) != (werr != nil) {
						return fmt.Errorf("%v: %v", o, err)
					}
					if len(log) > 0 {
						return fmt.Errorf("%v fired %v", o, log)
					}
					if werr != nil {
						return nil
					}
					if err := b.Commit(bond.Sync); err != nil {
						return err
					}
					if fmt.Sprint(log) != "[commit committed]" {
						return fmt.Errorf("%v and commit fired %v", o, log)
					}
					w.dump()
					return nil
				})
				c.AddStates(1)
				c.AddTransitions(1)
			}
		}
		_ = w.env.Close()
	})
}
