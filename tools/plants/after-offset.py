ID="after-offset"; PROPERTY="C06"
NEEDS="a query by an index with an after row that is still there and an offset, without a filter"
BREAKS="the after row is counted by the offset, so the row before the wanted one is returned"
EDITS=[("query.go","		if q.isAfter && !hasSort && !skippedFirstRow {","		if q.isAfter && !hasSort && !skippedFirstRow && (hasFilter || count >= q.offset) {")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t); tb, ix := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, A: 1, B: 1}, {ID: 2, A: 1, B: 2}, {ID: 3, A: 1, B: 3}, {ID: 4, A: 1, B: 4}}))
	var rs []Row
	Must(t, tb.Query().With(ix[0], bond.NewSelectorPoint(Row{A: 1})).After(Row{ID: 1, A: 1, B: 1}).Offset(1).Execute(Ctx, &rs))
	if len(rs) != 2 || rs[0].ID != 3 { t.Fatal(rs) }
}
'''
