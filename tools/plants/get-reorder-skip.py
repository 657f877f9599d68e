ID="get-reorder-skip"; PROPERTY="C01"
NEEDS="a Get of 5000 or more points that are not in key order"
BREAKS="the records are returned in key order instead of the order asked for"
EDITS=[("table.go","	// restore original order on values\n	t.reorderValues(values, originalOrder)\n","	// restore original order on values\n	if len(values) < persistentBatchSize {\n		t.reorderValues(values, originalOrder)\n	}\n")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t); tb, _ := Table(t, db)
	var rows, want []Row
	for i := uint64(0); i < 5001; i++ { rows = append(rows, Row{ID: i}); want = append(want, Row{ID: 5000 - i}) }
	Must(t, tb.Insert(Ctx, rows))
	rs, err := tb.Get(Ctx, bond.NewSelectorPoints(want...))
	Must(t, err)
	if len(rs) != len(want) { t.Fatal(len(rs)) }
	for i := range want { if rs[i].ID != want[i].ID { t.Fatal(i, rs[i].ID) } }
}
'''
