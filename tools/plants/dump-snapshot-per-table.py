ID="dump-snapshot-per-table"; PROPERTY="C17"
NEEDS="a batch over two dumped tables committed while the dump is between them"
BREAKS="the dump has the batch in one table and not in the other"
EDITS=[("bond.go","""	snapshot := db.pebble.NewSnapshot()
	defer snapshot.Close()

	grp := new(errgroup.Group)
""","""	// one table at a time, snapshots should not live long
	for ; len(tables) > 1; tables = tables[1:] {
		snapshot := db.pebble.NewSnapshot()
		grp := new(errgroup.Group)
		err := dumpTables(grp, snapshot, path, tables[:1], withIndex)
		if grpErr := grp.Wait(); err == nil {
			err = grpErr
		}
		_ = snapshot.Close()
		if err != nil {
			return err
		}
	}

	snapshot := db.pebble.NewSnapshot()
	defer snapshot.Close()

	grp := new(errgroup.Group)
""")]
DEMO="""package demo
import ("testing";"fmt";"sync";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t)
	mk := func(db bond.DB, id bond.TableID) bond.Table[Row] {
		return bond.NewTable(bond.TableOptions[Row]{DB: db, TableID: id, TableName: fmt.Sprint(id),
			TablePrimaryKeyFunc: func(b bond.KeyBuilder, r Row) []byte { return b.AddUint64Field(r.ID).Bytes() }})
	}
	t1, t2 := mk(db, 7), mk(db, 8)
	stop := make(chan bool)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := uint64(1); ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			b := db.Batch(bond.BatchTypeReadWrite)
			_ = t1.Upsert(Ctx, []Row{{ID: 1, A: i}}, bond.TableUpsertOnConflictReplace[Row], b)
			_ = t2.Upsert(Ctx, []Row{{ID: 1, A: i}}, bond.TableUpsertOnConflictReplace[Row], b)
			_ = b.Commit(bond.NoSync)
			_ = b.Close()
		}
	}()
	dir := t.TempDir()
	bad := 0
	for i := 0; i < 40; i++ {
		d := fmt.Sprintf("%s/d%d", dir, i)
		Must(t, db.Dump(Ctx, d, []bond.TableID{7, 8}, false))
		x := Open(t)
		Must(t, x.Restore(Ctx, d, []bond.TableID{7, 8}, false))
		a, e1 := mk(x, 7).GetPoint(Ctx, Row{ID: 1})
		b, e2 := mk(x, 8).GetPoint(Ctx, Row{ID: 1})
		if (e1 == nil) != (e2 == nil) || a != b { bad++ }
	}
	close(stop)
	wg.Wait()
	if bad > 0 { t.Fatal(bad) }
}
"""
