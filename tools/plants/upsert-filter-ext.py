ID="upsert-filter-ext"; PROPERTY="C12"
NEEDS="an upsert of several new rows through a batch of the caller into a table with a filter"
BREAKS="the row with the greatest key is not added to the filter, it is stored but cannot be read"
EDITS=[("table.go","			if t.filter != nil && !isUpdate {","			if t.filter != nil && !isUpdate && !(externalBatch && i == len(keys)-1 && i > 0) {")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond";"github.com/go-bond/bond/bloom")
func TestDemo(t *testing.T) {
	db := Open(t)
	tb, _ := Table(t, db, func(o *bond.TableOptions[Row]) { o.Filter = bloom.NewBloomFilter(1000, 0.0001, 2) })
	b := db.Batch(bond.BatchTypeReadWrite)
	Must(t, tb.Upsert(Ctx, []Row{{ID: 1}, {ID: 2}}, bond.TableUpsertOnConflictReplace[Row], b))
	Must(t, b.Commit(bond.Sync))
	Must(t, b.Close())
	if !tb.Exist(Row{ID: 1}) || !tb.Exist(Row{ID: 2}) { t.Fatal("hidden") }
}
'''
