package main

import (
	"fmt"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

// Iterators over a selector, moved in all ways: the position must be the one
// of a cursor in the list of matching entries, part after part.

type move struct {
	name string
	do   func(it bond.Iterator, key []byte) bool
	// to is where the cursor in n entries goes.
	to func(pos, n int, at func(ge bool) int) int
	// seek tells that there is one for each key.
	seek bool
}

func clamp(p, n int) int {
	if p < -1 {
		return -1
	}
	if p > n {
		return n
	}
	return p
}

var moves = []move{
	{"first", func(it bond.Iterator, _ []byte) bool { return it.First() }, func(_, n int, _ func(bool) int) int { return 0 }, false},
	{"last", func(it bond.Iterator, _ []byte) bool { return it.Last() }, func(_, n int, _ func(bool) int) int { return n - 1 }, false},
	{"next", func(it bond.Iterator, _ []byte) bool { return it.Next() }, func(p, n int, _ func(bool) int) int { return clamp(p+1, n) }, false},
	{"prev", func(it bond.Iterator, _ []byte) bool { return it.Prev() }, func(p, n int, _ func(bool) int) int { return clamp(p-1, n) }, false},
	{"seekge", func(it bond.Iterator, k []byte) bool { return it.SeekGE(k) }, func(_, n int, at func(bool) int) int { return at(true) }, true},
	{"seeklt", func(it bond.Iterator, k []byte) bool { return it.SeekLT(k) }, func(_, n int, at func(bool) int) int { return at(false) }, true},
}

type moveAt struct {
	m   move
	key string
}

// walk makes all sequences of moves of one length on one iterator each.
func (w *world[T]) walk(m Model, q qsel, depth int, batch ...bond.Batch) error {
	ri := w.ref(q.idx)
	rows := w.refSelect(m, q, false)
	raw := w.raw(m)
	var list []string
	for _, r := range rows {
		list = append(list, w.entryKey(ri, r))
	}
	var ms []moveAt
	for _, mv := range moves {
		if !mv.seek {
			ms = append(ms, moveAt{mv, ""})
		} else if q.kind == selPoint || q.kind == selRange {
			for _, e := range w.entries(m, ri) {
				ms = append(ms, moveAt{mv, e.key})
			}
		}
	}
	seq := make([]int, depth)
	for {
		it := w.index(q.idx).Iter(w.t, w.selector(q), batch...)
		err := func() error {
			pos, done := 0, ""
			for d, x := range seq {
				mv := ms[x]
				if d == 0 && (mv.m.name == "next" || mv.m.name == "prev") {
					return nil // nowhere before
				}
				ok := mv.m.do(it, []byte(mv.key))
				done += fmt.Sprintf(" %s%x", mv.m.name, mv.key)
				pos = mv.m.to(pos, len(list), func(ge bool) int {
					n := 0
					for n < len(list) && list[n] < mv.key {
						n++
					}
					if !ge {
						n--
					}
					return n
				})
				if len(list) == 0 {
					pos = 0
				}
				in := pos >= 0 && pos < len(list)
				if ok != in || it.Valid() != in || it.Error() != nil {
					return fmt.Errorf("iterator over %v on %v after%s: moved %v, valid %v, error %v, expected %v (position %d of %d)", q, m.Rows(), done, ok, it.Valid(), it.Error(), in, pos, len(list))
				}
				if !in {
					continue
				}
				if k := string(it.Key()); k != list[pos] || string(it.Value()) != raw[k] {
					return fmt.Errorf("iterator over %v on %v after%s: at key %x, value %q, expected key %x, value %q", q, m.Rows(), done, k, it.Value(), list[pos], raw[list[pos]])
				}
			}
			return nil
		}()
		if cerr := it.Close(); err == nil && cerr != nil {
			err = fmt.Errorf("iterator over %v: close: %v", q, cerr)
		}
		if err != nil {
			return err
		}
		i := depth - 1
		for ; i >= 0; i-- {
			if seq[i]++; seq[i] < len(ms) {
				break
			}
			seq[i] = 0
		}
		if i < 0 {
			return nil
		}
	}
}

func iterators[T any](c *Ctx, name string, mk func() *Shape[T], keys []int, vals []R, sels []qsel, depth int) {
	c.Part(fmt.Sprintf("%s, all sequences of %d moves", name, depth), func() {
		each(c, mk, models(keys, vals), func(w *world[T], m Model) {
			c.AddStates(1)
			for _, over := range []bool{false, true} {
				var bs []bond.Batch
				if over {
					base := Model{}
					for i, k := range keys {
						if i%2 == 0 {
							r := vals[(i+1)%len(vals)]
							r.K = k
							base[k] = r
						}
					}
					b, err := w.overlay(base, m)
					if err != nil {
						panic(err)
					}
					bs = []bond.Batch{b}
				} else {
					w.set(m)
				}
				for _, s := range sels {
					if c.Stop() || s.kind == selDefault {
						continue
					}
					d := depth
					if s.kind == selPoint || s.kind == selRange {
						d -= 2 // the engine's own
					}
					if !c.Exec(fmt.Sprintf("%s/%d", name, s.kind), func() any { return s.String() }, func() error { return w.walk(m, s, d, bs...) }) {
						break
					}
					c.AddTransitions(1)
					c.AddTraces(1)
				}
				for _, b := range bs {
					_ = b.Close()
				}
			}
		})
	})
}
