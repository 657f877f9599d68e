ID="intersect-early-after"; PROPERTY="C07"
NEEDS="an intersection with an after row together with an offset or limit and neither filter nor order"
BREAKS="offset and limit are taken from all rows instead of from the rows after the given one"
EDITS=[("query.go","	if !hasFilter && !hasSort && !hasAfter {","	if !hasFilter && !hasSort {")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t); tb, ix := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, A: 2, B: 1}, {ID: 2, A: 2, B: 1}, {ID: 3, A: 2, B: 1}, {ID: 4, A: 2, B: 1}}))
	var rs []Row
	q := tb.Query().With(ix[0], bond.NewSelectorPoint(Row{A: 2}))
	q = q.Intersects(tb.Query().With(ix[1], bond.NewSelectorPoint(Row{B: 1})))
	Must(t, q.After(Row{ID: 2, A: 2, B: 1}).Limit(2).Execute(Ctx, &rs))
	if len(rs) != 2 || rs[0].ID != 3 { t.Fatal(rs) }
}
'''
