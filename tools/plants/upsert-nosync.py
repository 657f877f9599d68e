ID="upsert-nosync"; PROPERTY="C14"
NEEDS="a power failure after an upsert without batch has returned, before anything else is synced"
BREAKS="the acknowledged upsert is gone after the crash"
EDITS=[("table.go","""			// add to bloom filter
			if t.filter != nil && !isUpdate {
				t.filter.Add(ctx, key)
			}

			i++
		}

		return nil
	})
	if err != nil {
		return err
	}

	if !externalBatch {
		err = batch.Commit(Sync)
""","""			// add to bloom filter
			if t.filter != nil && !isUpdate {
				t.filter.Add(ctx, key)
			}

			i++
		}

		return nil
	})
	if err != nil {
		return err
	}

	if !externalBatch {
		err = batch.Commit(NoSync)
""")]
DEMO="""package demo
import ("testing";"github.com/cockroachdb/pebble/vfs";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	fs := vfs.NewStrictMem()
	dir := t.TempDir()
	Must(t, fs.MkdirAll(dir, 0755))
	for d := dir; ; {
		f, err := fs.OpenDir(d)
		Must(t, err)
		Must(t, f.Sync())
		if d == "/" || d == "" { break }
		d = fs.PathDir(d)
	}
	open := func() bond.DB {
		o := bond.DefaultOptions()
		o.PebbleOptions = bond.DefaultPebbleOptions()
		o.PebbleOptions.FS = fs
		db, err := bond.Open(dir, o)
		Must(t, err)
		return db
	}
	db := open()
	tb, _ := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, A: 1}}))
	Must(t, tb.Upsert(Ctx, []Row{{ID: 1, A: 2}, {ID: 2, A: 2}}, bond.TableUpsertOnConflictReplace[Row]))
	fs.SetIgnoreSyncs(true)
	_ = db.Close()
	fs.ResetToSyncedState()
	fs.SetIgnoreSyncs(false)
	db = open()
	defer db.Close()
	tb, _ = Table(t, db)
	r, err := tb.GetPoint(Ctx, Row{ID: 1})
	Must(t, err)
	if r.A != 2 || !tb.Exist(Row{ID: 2}) { t.Fatal(r) }
}
"""
