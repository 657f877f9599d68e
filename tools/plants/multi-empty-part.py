ID="multi-empty-part"; PROPERTY="C05"
NEEDS="a multi-point or multi-range selector with a part that matches no row between parts that do, read forwards"
BREAKS="the rows of the parts after an empty part are missing from scans and queries"
EDITS=[("iter.go","		if it.iterator.First() {\n			break\n		}\n","		return it.iterator.First()\n")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t); tb, _ := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, A: 1}, {ID: 3, A: 3}}))
	var rs []Row
	Must(t, tb.Query().With(tb.PrimaryIndex(), bond.NewSelectorPoints(Row{ID: 1}, Row{ID: 2}, Row{ID: 3})).Execute(Ctx, &rs))
	if len(rs) != 2 { t.Fatal(rs) }
}
'''
