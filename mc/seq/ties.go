package main

import (
	"fmt"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

// manyTies pages through sorted queries over more rows than a sorting routine
// leaves in place by chance, most of which the order function does not
// distinguish: the rows of all pages are those of the unpaged query in its
// order, also if the last row of each page is deleted before the next one.
func manyTies(c *Ctx, name string, inter bool) {
	c.Part(name, func() {
		type tc struct {
			n, mod, page int
			rev, del     bool
		}
		var cases []tc
		for _, n := range []int{11, 12, 13, 14, 20, 30, 51} {
			for _, mod := range []int{1, 2, 3, 7} {
				for _, page := range []int{1, 2, 5, 13} {
					for _, rev := range []bool{false, true} {
						for _, del := range []bool{false, true} {
							cases = append(cases, tc{n, mod, page, rev, del})
						}
					}
				}
			}
		}
		c.Parallel(len(cases), func(_, i int) {
			if c.Stop() {
				return
			}
			tc := cases[i]
			c.AddStates(1)
			c.AddTraces(1)
			c.Exec(name, func() any { return fmt.Sprintf("%+v", tc) }, func() error {
				env := c.NewEnv(nil, nil, nil)
				defer func() { _ = env.Close() }()
				t := bond.NewTable(bond.TableOptions[BigRow]{DB: env.DB, TableID: 3, TableName: "ties",
					TablePrimaryKeyFunc: func(b bond.KeyBuilder, r BigRow) []byte { return b.AddUint64Field(r.ID).Bytes() }})
				idx := func(id bond.IndexID) *bond.Index[BigRow] {
					return bond.NewIndex(bond.IndexOptions[BigRow]{IndexID: id, IndexName: fmt.Sprint("i", id),
						IndexKeyFunc: func(b bond.KeyBuilder, r BigRow) []byte { return b.AddUint32Field(r.A).Bytes() },
						IndexOrderFunc: func(o bond.IndexOrder, r BigRow) bond.IndexOrder {
							return o.OrderUint64(r.ID*7%11, bond.IndexOrderTypeASC)
						}})
				}
				i1, i2 := idx(1), idx(2)
				if err := t.AddIndex([]*bond.Index[BigRow]{i1, i2}); err != nil {
					return err
				}
				var rows []BigRow
				for i := 0; i < tc.n; i++ {
					rows = append(rows, BigRow{ID: uint64(i + 1), A: 5, V: uint64(i % tc.mod)})
				}
				if err := t.Insert(bg, rows); err != nil {
					return err
				}
				q := t.Query().With(i1, bond.NewSelectorPoint(BigRow{A: 5})).Order(func(a, b BigRow) bool { return a.V < b.V })
				if inter {
					q = q.Intersects(t.Query().With(i2, bond.NewSelectorPoint(BigRow{A: 5})))
				}
				if tc.rev {
					q = q.Reverse()
				}
				var all, got []BigRow
				if err := q.Execute(bg, &all); err != nil {
					return err
				}
				seen := map[uint64]bool{}
				for i, r := range all {
					if seen[r.ID] || i > 0 && r.V < all[i-1].V {
						return fmt.Errorf("sorted query gives %v", all)
					}
					seen[r.ID] = true
				}
				if len(all) != tc.n {
					return fmt.Errorf("sorted query gives %d rows of %d", len(all), tc.n)
				}
				for pq := q.Limit(uint64(tc.page)); len(got) <= tc.n; {
					var page []BigRow
					if err := pq.Execute(bg, &page); err != nil {
						return err
					}
					c.AddTransitions(1)
					if len(page) == 0 {
						break
					}
					got = append(got, page...)
					last := page[len(page)-1]
					pq = q.Limit(uint64(tc.page)).After(last)
					if tc.del {
						if err := t.Delete(bg, []BigRow{last}); err != nil {
							return err
						}
					}
				}
				if fmt.Sprint(got) != fmt.Sprint(all) {
					return fmt.Errorf("pages of %d of a sorted query give %v, the query %v", tc.page, got, all)
				}
				return nil
			})
		})
	})
}
