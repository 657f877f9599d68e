ID="delete-nosync-noidx"; PROPERTY="C14"
NEEDS="a row deleted from a table without indexes and a power failure before anything else is synced"
BREAKS="the acknowledged delete is undone by the crash"
EDITS=[("table.go","""	if !externalBatch {
		err := batch.Commit(Sync)
		if err != nil {
			return err
		}
	}

	return nil
}

func (t *_table[T]) Upsert""","""	if !externalBatch {
		opt := NoSync
		if len(indexes) > 0 {
			// rows and index entries must not part
			opt = Sync
		}
		err := batch.Commit(opt)
		if err != nil {
			return err
		}
	}

	return nil
}

func (t *_table[T]) Upsert""")]
DEMO="""package demo
import ("testing";"github.com/cockroachdb/pebble/vfs";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	fs := vfs.NewStrictMem()
	dir := t.TempDir()
	Must(t, fs.MkdirAll(dir, 0755))
	for d := dir; ; {
		f, err := fs.OpenDir(d)
		Must(t, err)
		Must(t, f.Sync())
		if d == "/" || d == "" { break }
		d = fs.PathDir(d)
	}
	open := func() (bond.DB, bond.Table[Row]) {
		o := bond.DefaultOptions()
		o.PebbleOptions = bond.DefaultPebbleOptions()
		o.PebbleOptions.FS = fs
		db, err := bond.Open(dir, o)
		Must(t, err)
		return db, bond.NewTable(bond.TableOptions[Row]{DB: db, TableID: 9, TableName: "plain",
			TablePrimaryKeyFunc: func(b bond.KeyBuilder, r Row) []byte { return b.AddUint64Field(r.ID).Bytes() }})
	}
	db, tb := open()
	Must(t, tb.Insert(Ctx, []Row{{ID: 1}, {ID: 2}}))
	Must(t, tb.Delete(Ctx, []Row{{ID: 1}}))
	fs.SetIgnoreSyncs(true)
	_ = db.Close()
	fs.ResetToSyncedState()
	fs.SetIgnoreSyncs(false)
	db, tb = open()
	defer db.Close()
	if tb.Exist(Row{ID: 1}) || !tb.Exist(Row{ID: 2}) { t.Fatal("the deleted row is back") }
}
"""
