ID="dump-index-255"; PROPERTY="C16"
NEEDS="a table with an index of the highest id, dumped with indexes"
BREAKS="the entries of the index are missing from the dump"
EDITS=[("bond.go","				UpperBound: []byte{byte(tableID), byte(index), 0xff, 0xff, 0xff, 0xff},\n","				UpperBound: []byte{byte(tableID), byte(index + 1), 0x00, 0x00, 0x00, 0x00},\n")]
DEMO="""package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	mk := func(db bond.DB) bond.Table[Row] {
		tb, _ := Table(t, db)
		Must(t, tb.AddIndex([]*bond.Index[Row]{bond.NewIndex(bond.IndexOptions[Row]{IndexID: 255, IndexName: "s",
			IndexKeyFunc: func(b bond.KeyBuilder, r Row) []byte { return b.AddStringField(r.S).Bytes() }})}))
		return tb
	}
	db := Open(t)
	Must(t, mk(db).Insert(Ctx, []Row{{ID: 1, S: "a"}, {ID: 2, S: "b"}}))
	d := t.TempDir() + "/d"
	Must(t, db.Dump(Ctx, d, []bond.TableID{7}, true))
	o := Open(t)
	mk(o)
	Must(t, o.Restore(Ctx, d, []bond.TableID{7}, true))
	if n := Count(t, o, 7, 255); n != 2 { t.Fatal(n) }
}
"""
