ID="getindex-four"; PROPERTY="C16"
NEEDS="a table with more than four indexes, dumped with its indexes and restored elsewhere"
BREAKS="the dump leaves the indexes after the fourth out"
EDITS=[("bond.go","""		indexIDS = append(indexIDS, IndexID(indexID))
		if indexID == math.MaxUint8 {
			break
		}
		prefix[1] = indexID + 1
""","""		if len(indexIDS) < cap(prefix)/2 {
			indexIDS = append(indexIDS, IndexID(indexID))
		}
		if indexID == math.MaxUint8 {
			break
		}
		prefix[1] = indexID + 1
"""),("bond.go","""	prefix := []byte{byte(tableID), 1}
""","""	prefix := append(make([]byte, 0, 8), byte(tableID), 1)
""")]
DEMO="""package demo
import ("fmt";"path/filepath";"testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	build := func(db bond.DB) bond.Table[Row] {
		tb := bond.NewTable(bond.TableOptions[Row]{DB: db, TableID: 9, TableName: "wide",
			TablePrimaryKeyFunc: func(b bond.KeyBuilder, r Row) []byte { return b.AddUint64Field(r.ID).Bytes() }})
		for i := 1; i <= 7; i++ {
			i := i
			Must(t, tb.AddIndex([]*bond.Index[Row]{bond.NewIndex(bond.IndexOptions[Row]{IndexID: bond.IndexID(i), IndexName: fmt.Sprint("i", i),
				IndexKeyFunc: func(b bond.KeyBuilder, r Row) []byte { return b.AddUint64Field(r.A + uint64(i)).Bytes() },
				IndexOrderFunc: func(o bond.IndexOrder, r Row) bond.IndexOrder { return o }})}))
		}
		return tb
	}
	src, dst := Open(t), Open(t)
	Must(t, build(src).Insert(Ctx, []Row{{ID: 1, A: 4}}))
	dir := filepath.Join(t.TempDir(), "dump")
	Must(t, src.Dump(Ctx, dir, []bond.TableID{9}, true))
	build(dst)
	Must(t, dst.Restore(Ctx, dir, []bond.TableID{9}, true))
	for i := byte(0); i <= 7; i++ {
		if n := Count(t, dst, 9, i); n != 1 { t.Fatal("index", i, "has", n, "entries") }
	}
}
"""
