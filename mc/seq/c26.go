package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/go-bond/bond/cond"
	. "github.com/go-bond/bond/internal/vmc/kit"
	"golang.org/x/exp/constraints"
)

func init() {
	Register(&Check{ID: "C26", Level: "model_checking", Run: runC26,
		Rule: "state = one condition tree; transition = one evaluation on one record after another evaluation; every tree up to the depth and arity x every ordered pair of records (and every comparison over every pair of domain values) is evaluated and compared with a truth table"})
}

// comparison checks all operators on every pair of the domain.
func comparison[V constraints.Ordered](c *Ctx, name string, vals []V, sample int) {
	c.Part("comparisons of "+name, func() {
		get := func(r V) V { return r }
		c.Parallel(len(vals), func(_, i int) {
			o := vals[i]
			conds := []cond.Cond[V]{cond.Eq(get, o), cond.Gt(get, o), cond.Gte(get, o), cond.Lt(get, o), cond.Lte(get, o)}
			for ci, cd := range conds {
				not, and, or := cond.Not(cd), cond.And(cd), cond.Or(cd)
				ci, cd := ci, cd
				c.Exec("comparison", func() any { return fmt.Sprint(name, " op ", ci, " ", o) }, func() error {
					for _, v := range vals {
						want := [5]bool{v == o, v > o, v >= o, v < o, v <= o}[ci]
						for k := 0; k < 2; k++ {
							if got := cd.Eval(v); got != want {
								return fmt.Errorf("operator %d of %v with %v gave %v", ci, v, o, got)
							}
						}
						if not.Eval(v) == want || and.Eval(v) != want || or.Eval(v) != want {
							return fmt.Errorf("not/and/or of operator %d of %v with %v is wrong", ci, v, o)
						}
					}
					return nil
				})
			}
			c.AddStates(5)
			c.AddTransitions(len(vals) * 5)
			c.AddEvals(len(vals) * 5 * 5)
		})
	})
}

type bools [3]bool

// tree with its truth table over the 8 records
type ctree struct {
	build func() cond.Cond[bools]
	truth uint8
	name  string
}

func runC26(c *Ctx) {
	var i8 []int8
	for v := -128; v < 128; v++ {
		i8 = append(i8, int8(v))
	}
	var u8 []uint8
	for v := 0; v < 256; v++ {
		u8 = append(u8, uint8(v))
	}
	comparison(c, "int8", i8, 0)
	comparison(c, "uint8", u8, 0)
	comparison(c, "int", []int{math.MinInt64, math.MinInt64 + 1, -1 << 32, -1, 0, 1, 2, 1 << 32, math.MaxInt64 - 1, math.MaxInt64}, 0)
	comparison(c, "int64", []int64{math.MinInt64, math.MinInt64 + 1, -1 << 53, -1<<53 - 1, -1, 0, 1, 1 << 53, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64}, 0)
	comparison(c, "int32", []int32{math.MinInt32, math.MinInt32 + 1, -1, 0, 1, math.MaxInt32}, 0)
	comparison(c, "uint64", []uint64{0, 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}, 0)
	comparison(c, "float64", []float64{math.Inf(-1), -math.MaxFloat64, -1, -math.SmallestNonzeroFloat64, math.Copysign(0, -1), 0, math.SmallestNonzeroFloat64, 1, math.MaxFloat64, math.Inf(1), math.NaN()}, 0)
	comparison(c, "float32", []float32{float32(math.Inf(-1)), -1, 0, math.SmallestNonzeroFloat32, 16777216, 16777218, float32(math.NaN())}, 0)
	comparison(c, "string", []string{"", "\x00", "\x00\x00", "a", "a\x00", "aa", "b", "\x7f", "\x80", "\xff", "\xff\xff", "é"}, 0)

	c.Part("equality of other kinds", func() {
		type s struct {
			A int
			B []string
			C *int
		}
		one, uno, two := 1, 1, 2
		vals := []s{{}, {A: 1}, {A: 1, B: []string{"x"}}, {A: 1, B: []string{"x", "y"}}, {A: 1, C: &one}, {A: 1, C: &two}, {A: 1, C: &uno}}
		class := []int{0, 1, 2, 3, 4, 5, 4}
		bs := [][]byte{[]byte("a"), []byte("ab"), []byte("b"), []byte("a")}
		bclass := []int{0, 1, 2, 0}
		t0 := time.Unix(1, 0).UTC()
		ts := []time.Time{t0, t0.Add(1), t0}
		c.Exec("equality", nil, func() error {
			for i := range vals {
				for j := range vals {
					if got := cond.Eq(func(r s) s { return r }, vals[i]).Eval(vals[j]); got != (class[i] == class[j]) {
						return fmt.Errorf("structures %d %d: %v", i, j, got)
					}
				}
			}
			for i := range bs {
				for j := range bs {
					if got := cond.Eq(func(r []byte) []byte { return r }, bs[i]).Eval(bs[j]); got != (bclass[i] == bclass[j]) {
						return fmt.Errorf("bytes %d %d: %v", i, j, got)
					}
				}
			}
			for i := range ts {
				for j := range ts {
					if got := cond.Eq(func(r time.Time) time.Time { return r }, ts[i]).Eval(ts[j]); got != (i%2 == j%2) {
						return fmt.Errorf("times %d %d: %v", i, j, got)
					}
				}
			}
			for _, a := range []bool{false, true} {
				for _, b := range []bool{false, true} {
					if cond.Eq(func(r bool) bool { return r }, a).Eval(b) != (a == b) {
						return fmt.Errorf("bool %v %v", a, b)
					}
				}
			}
			c.AddStates(len(vals) + len(bs) + len(ts) + 2)
			c.AddTransitions(len(vals)*len(vals) + len(bs)*len(bs) + len(ts)*len(ts) + 4)
			return nil
		})
	})

	// all trees of boolean connectives
	var recs []bools
	for i := 0; i < 8; i++ {
		recs = append(recs, bools{i&1 > 0, i&2 > 0, i&4 > 0})
	}
	table := func(f func(r bools) bool) uint8 {
		var t uint8
		for i, r := range recs {
			if f(r) {
				t |= 1 << i
			}
		}
		return t
	}
	var level []ctree
	for v := 0; v < 3; v++ {
		v := v
		level = append(level, ctree{func() cond.Cond[bools] { return cond.Func(func(r bools) bool { return r[v] }) }, table(func(r bools) bool { return r[v] }), fmt.Sprintf("x%d", v)})
		level = append(level, ctree{func() cond.Cond[bools] { return cond.Eq(func(r bools) bool { return r[v] }, false) }, ^table(func(r bools) bool { return r[v] }), fmt.Sprintf("x%d=false", v)})
	}
	extend := func(in []ctree, arity int) []ctree {
		out := append([]ctree{}, in...)
		for _, t := range in {
			t := t
			out = append(out, ctree{func() cond.Cond[bools] { return cond.Not(t.build()) }, ^t.truth, "not(" + t.name + ")"})
		}
		var rec func(list []ctree)
		rec = func(list []ctree) {
			list = list[:len(list):len(list)]
			and, or := uint8(0xFF), uint8(0)
			var names []string
			for _, t := range list {
				and &= t.truth
				or |= t.truth
				names = append(names, t.name)
			}
			args := func() []cond.Cond[bools] {
				var a []cond.Cond[bools]
				for _, t := range list {
					a = append(a, t.build())
				}
				return a
			}
			n := strings.Join(names, ",")
			out = append(out, ctree{func() cond.Cond[bools] { return cond.And(args()...) }, and, "and(" + n + ")"},
				ctree{func() cond.Cond[bools] { return cond.Or(args()...) }, or, "or(" + n + ")"})
			if len(list) == arity {
				return
			}
			for _, t := range in {
				rec(append(list, t))
			}
		}
		rec(nil)
		return out
	}
	// one representative per truth table and outermost connective, so that the
	// next level stays finite without losing a combination of values
	reduce := func(in []ctree) []ctree {
		seen := map[string]bool{}
		var out []ctree
		for _, t := range in {
			k := fmt.Sprint(t.truth, strings.SplitN(t.name, "(", 2)[0])
			if !seen[k] {
				seen[k] = true
				out = append(out, t)
			}
		}
		return out
	}
	check := func(name string, ts []ctree) {
		c.Part(name, func() {
			c.Parallel(len(ts), func(_, i int) {
				t := ts[i]
				cd := t.build()
				c.Exec("condition tree", func() any { return t.name }, func() error {
					for a := range recs {
						for b := range recs {
							ra, rb := recs[a], recs[b]
							if got := cd.Eval(ra); got != (t.truth>>a&1 == 1) {
								return fmt.Errorf("%s of %v gave %v", t.name, ra, got)
							}
							if got := cd.Eval(rb); got != (t.truth>>b&1 == 1) {
								return fmt.Errorf("%s of %v gave %v after %v", t.name, rb, got, ra)
							}
							if ra != recs[a] {
								return fmt.Errorf("record changed")
							}
						}
					}
					return nil
				})
				c.AddStates(1)
				c.AddTransitions(128)
				c.AddEvals(128)
			})
		})
	}
	l1 := extend(level, 3)
	check("trees of depth 1, arity 3", l1)
	l2 := extend(l1, 2)
	if !c.Thorough() {
		l2 = extend(reduce(l1), 3)
	}
	check("trees of depth 2", l2)
	check("trees of depth 3, one subtree per meaning", extend(reduce(l2), 2))
	c.Sample(l2[len(l2)-1].name)

	c.Part("lists and shared parts", func() {
		yes, no := cond.Func(func(bools) bool { return true }), cond.Func(func(bools) bool { return false })
		x0 := cond.Func(func(r bools) bool { return r[0] })
		c.Exec("shared parts", nil, func() error {
			list := []cond.Cond[bools]{x0, yes}
			and, or := cond.And(list...), cond.Or(cond.And(list...), no)
			not := cond.Not(and)
			list[0], list[1] = no, no
			for k := 0; k < 2; k++ {
				for _, r := range recs {
					if and.Eval(r) != r[0] || or.Eval(r) != r[0] || not.Eval(r) == r[0] {
						return fmt.Errorf("condition follows a change of the argument list")
					}
				}
			}
			c.AddStates(1)
			c.AddTransitions(2 * len(recs))
			return nil
		})
	})
}
