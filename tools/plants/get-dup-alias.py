ID="get-dup-alias"; PROPERTY="C01"
NEEDS="a read of several points that names a stored key twice, and a later read of several different points"
BREAKS="one pooled buffer is handed out twice, the later read returns one row in place of the other"
EDITS=[("table.go","""		iterValue := iter.Value()
		value := values[i][:0]
""","""		// rows named more than once are copied once
		if i > 0 && len(values[i-1]) > 0 && bytes.Equal(keys[i], keys[i-1]) {
			values[i] = values[i-1]
			continue
		}

		iterValue := iter.Value()
		value := values[i][:0]
""")]
DEMO="""package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t)
	tb, _ := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, S: "a"}, {ID: 2, S: "b"}, {ID: 3, S: "c"}}))
	for i := 0; i < 3; i++ {
		_, err := tb.Get(Ctx, bond.NewSelectorPoints(Row{ID: 1}, Row{ID: 1}))
		Must(t, err)
		rs, err := tb.Get(Ctx, bond.NewSelectorPoints(Row{ID: 1}, Row{ID: 2}, Row{ID: 3}))
		Must(t, err)
		if len(rs) != 3 || rs[0].S != "a" || rs[1].S != "b" || rs[2].S != "c" { t.Fatal(rs) }
	}
}
"""
