ID="query-zero-first"; PROPERTY="C05"
NEEDS="a query without After whose first entry is the one of the zero record: key, indexed and order fields all zero"
BREAKS="the first row is taken for the row the page starts after and left out"
EDITS=[("query.go","		if q.isAfter && !hasSort && !skippedFirstRow {","		if !hasSort && !skippedFirstRow {")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t); tb, ix := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 0, S: "zero"}, {ID: 1}, {ID: 2, A: 1}}))
	var rs []Row
	Must(t, tb.Query().With(ix[0], bond.NewSelectorPoint(Row{})).Execute(Ctx, &rs))
	if len(rs) != 2 || rs[0].ID != 0 { t.Fatal(rs) }
}
'''
