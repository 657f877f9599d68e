ID="intersect-three"; PROPERTY="C07"
NEEDS="an intersection of at least three parts of which the first two share a row the third does not match"
BREAKS="rows that do not match the last part are returned"
EDITS=[("index.go","		intersectKeysMap = tempKeysMap\n		tempKeysMap = map[string]struct{}{}\n","		intersectKeysMap, tempKeysMap = tempKeysMap, intersectKeysMap\n")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t); tb, ix := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, A: 2, B: 1}, {ID: 2, A: 2, B: 2}, {ID: 3, A: 4, B: 2}}))
	var rs []Row
	q := tb.Query().With(tb.PrimaryIndex(), bond.NewSelectorRange(Row{}, Row{ID: 9}))
	q1 := tb.Query().With(ix[0], bond.NewSelectorPoint(Row{A: 2}))
	q2 := tb.Query().With(ix[1], bond.NewSelectorPoint(Row{B: 2}))
	Must(t, q.Intersects(q1, q2).Execute(Ctx, &rs))
	if len(rs) != 1 || rs[0].ID != 2 { t.Fatal(rs) }
}
'''
