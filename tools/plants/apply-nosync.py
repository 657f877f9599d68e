ID="apply-nosync"; PROPERTY="C14"
NEEDS="a batch applied through the database with Sync and a power failure afterwards"
BREAKS="the acknowledged batch is gone after the crash"
EDITS=[("bond.go","""func (db *_db) Apply(b Batch, opt WriteOptions) error {
	return b.Commit(opt)
""","""func (db *_db) Apply(b Batch, opt WriteOptions) error {
	return b.Commit(NoSync)
""")]
DEMO="""package demo
import ("testing";"github.com/cockroachdb/pebble/vfs";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	fs := vfs.NewStrictMem()
	dir := t.TempDir()
	Must(t, fs.MkdirAll(dir, 0755))
	for d := dir; ; {
		f, err := fs.OpenDir(d)
		Must(t, err)
		Must(t, f.Sync())
		if d == "/" || d == "" { break }
		d = fs.PathDir(d)
	}
	open := func() bond.DB {
		o := bond.DefaultOptions()
		o.PebbleOptions = bond.DefaultPebbleOptions()
		o.PebbleOptions.FS = fs
		db, err := bond.Open(dir, o)
		Must(t, err)
		return db
	}
	db := open()
	tb, _ := Table(t, db)
	b := db.Batch(bond.BatchTypeReadWrite)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, A: 1}}, b))
	Must(t, db.Apply(b, bond.Sync))
	fs.SetIgnoreSyncs(true)
	_ = b.Close()
	_ = db.Close()
	fs.ResetToSyncedState()
	fs.SetIgnoreSyncs(false)
	db = open()
	defer db.Close()
	tb, _ = Table(t, db)
	if !tb.Exist(Row{ID: 1}) { t.Fatal("lost") }
}
"""
