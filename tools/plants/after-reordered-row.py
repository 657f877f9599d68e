ID="after-reordered-row"; PROPERTY="C06"
NEEDS="paging by an ordered index while the last row of the page moves forwards in the order, and is the first row of the next page"
BREAKS="the row at its new place is skipped as if it had been delivered"
EDITS=[("query.go","				bytes.Compare(selIdxKey.IndexOrder, rowIdxKey.IndexOrder) == 0 &&\n","")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t); tb, ix := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, A: 1, B: 1}, {ID: 2, A: 1, B: 9}}))
	Must(t, tb.Update(Ctx, []Row{{ID: 1, A: 1, B: 5}}))
	var rs []Row
	Must(t, tb.Query().With(ix[0], bond.NewSelectorPoint(Row{A: 1})).After(Row{ID: 1, A: 1, B: 1}).Execute(Ctx, &rs))
	if len(rs) != 2 { t.Fatal(rs) }
}
'''
