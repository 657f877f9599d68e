ID="update-dup-last"; PROPERTY="C02"
NEEDS="one Update call whose two last rows (in key order) have the same primary key and different index values"
BREAKS="an entry of the overwritten row stays in the index, queries by that index return the row under a value it does not have"
EDITS=[("table.go","			if i < len(keys)-1 && t.keyDuplicate(i+1, keys) {\n				continue","			if i+1 < len(keys)-1 && t.keyDuplicate(i+1, keys) {\n				continue")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t); tb, ix := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, A: 1}, {ID: 2, A: 1}}))
	Must(t, tb.Update(Ctx, []Row{{ID: 1, A: 2}, {ID: 2, A: 3}, {ID: 2, A: 4}}))
	var rs []Row
	Must(t, tb.ScanIndex(Ctx, ix[0], bond.NewSelectorRange(Row{}, Row{A: 9}), &rs, false))
	if len(rs) != 2 || Count(t, db, 7, 1) != 2 { t.Fatal(rs, Count(t, db, 7, 1)) }
}
'''
