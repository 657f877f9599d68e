ID="insert-chunk-commit"; PROPERTY="C03"
NEEDS="an Insert of more rows than one chunk holds that fails in a later chunk"
BREAKS="the rows of the earlier chunks are stored although the call returned an error"
EDITS=[("table.go","			// check if exist\n			exist := t.keyDuplicate(i, keys)\n","			// bound the size of the batch\n			if !externalBatch && batch.Len() > 256<<10 {\n				if err := batch.Commit(Sync); err != nil {\n					return err\n				}\n				batch.Reset()\n			}\n\n			// check if exist\n			exist := t.keyDuplicate(i, keys)\n")]
DEMO='''package demo
import ("testing")
func TestDemo(t *testing.T) {
	db := Open(t); tb, _ := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 6000}}))
	var rs []Row
	for i := 1; i <= 6000; i++ { rs = append(rs, Row{ID: uint64(i), S: "some text"}) }
	if tb.Insert(Ctx, rs) == nil { t.Fatal("no error") }
	if n := Count(t, db, 7, 0); n != 1 { t.Fatal(n) }
}
'''
