ID="upsert-dup-index"; PROPERTY="C02"
NEEDS="an upsert that names a stored row twice and changes an indexed field"
BREAKS="the indexes of the row are not updated"
EDITS=[("table.go","			if isUpdate {\n				for _, idx := range indexes {","			if isUpdate && !t.keyDuplicate(i, keys) {\n				for _, idx := range indexes {")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t); tb, ix := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, A: 1}}))
	Must(t, tb.Upsert(Ctx, []Row{{ID: 1, A: 3}, {ID: 1, A: 5}}, bond.TableUpsertOnConflictReplace[Row]))
	var rs []Row
	Must(t, tb.ScanIndex(Ctx, ix[0], bond.NewSelectorPoint(Row{A: 5}), &rs, false))
	if len(rs) != 1 { t.Fatal(rs) }
	if n := Count(t, db, 7, 1); n != 1 { t.Fatal(n) }
}
'''
