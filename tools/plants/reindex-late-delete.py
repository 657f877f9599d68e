ID="reindex-batch-boundary"; PROPERTY="C11"
NEEDS="a table with more rows than one rebuilding batch holds"
BREAKS="the row at each batch boundary has no entry in the rebuilt index"
EDITS=[("table.go","		// update indexes\n		for _, idx := range idxs {\n			err = idx.OnInsert(t, tr, batch, indexKeyBuffer)\n			if err != nil {\n				return err\n			}\n		}\n\n		// batch handling\n		counter++\n		if counter >= ReindexBatchSize {\n			counter = 0\n","		// batch handling\n		counter++\n		if counter > ReindexBatchSize {\n			counter = 0\n"),
("table.go","			batch = t.db.Batch(BatchTypeWriteOnly)\n		}\n	}\n\n	if err := iter.Error()","			batch = t.db.Batch(BatchTypeWriteOnly)\n			continue\n		}\n\n		// update indexes\n		for _, idx := range idxs {\n			err = idx.OnInsert(t, tr, batch, indexKeyBuffer)\n			if err != nil {\n				return err\n			}\n		}\n	}\n\n	if err := iter.Error()")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t); tb, ix := Table(t, db)
	n := 2*bond.ReindexBatchSize + 5
	var rs []Row
	for i := 1; i <= n; i++ { rs = append(rs, Row{ID: uint64(i), A: 2}) }
	Must(t, tb.Insert(Ctx, rs))
	Must(t, tb.ReIndex(ix))
	if Count(t, db, 7, 1) != n || Count(t, db, 7, 2) != n { t.Fatal(n, Count(t, db, 7, 1)) }
}
'''
