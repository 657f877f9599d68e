ID="dump-long-index"; PROPERTY="C16"
NEEDS="a dump with indexes of a table that has an indexed value of 64 KiB or more"
BREAKS="the index entries of long values are left out of the dump"
EDITS=[("bond.go","byte(index), 0xff, 0xff, 0xff, 0xff}","byte(index), 0x00, 0x00, 0xff, 0xff}")]
DEMO='''package demo
import ("os";"path/filepath";"strings";"testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	mk := func(db bond.DB) bond.Table[Row] {
		tb, _ := Table(t, db)
		Must(t, tb.AddIndex([]*bond.Index[Row]{bond.NewIndex(bond.IndexOptions[Row]{IndexID: 3, IndexName: "s",
			IndexKeyFunc: func(b bond.KeyBuilder, r Row) []byte { return b.AddStringField(r.S).Bytes() }})}))
		return tb
	}
	db, db2 := Open(t), Open(t)
	Must(t, mk(db).Insert(Ctx, []Row{{ID: 1, S: "short"}, {ID: 2, S: strings.Repeat("long", 20000)}}))
	dir, err := os.MkdirTemp("", "dump"); Must(t, err); defer os.RemoveAll(dir)
	Must(t, db.Dump(Ctx, filepath.Join(dir, "d"), []bond.TableID{7}, true))
	Must(t, db2.Restore(Ctx, filepath.Join(dir, "d"), []bond.TableID{7}, true))
	if a, b := Count(t, db, 7, 3), Count(t, db2, 7, 3); a != 2 || b != 2 { t.Fatal(a, b) }
}
'''
