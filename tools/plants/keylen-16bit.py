ID="keylen-16bit"; PROPERTY="C09"
NEEDS="an index key longer than 65535 bytes"
BREAKS="the length in the key wraps around, the entry no longer leads to its row"
EDITS=[("keys.go","""		buff = indexFunc(buff)
		binary.BigEndian.PutUint32(buff[lenIndex:lenIndex+4], uint32(len(buff)-(lenIndex+4)))
""","""		buff = indexFunc(buff)
		binary.BigEndian.PutUint16(buff[lenIndex+2:lenIndex+4], uint16(len(buff)-(lenIndex+4)))
""")]
DEMO="""package demo
import ("testing";"strings";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t)
	tb, _ := Table(t, db)
	ix := bond.NewIndex(bond.IndexOptions[Row]{IndexID: 9, IndexName: "s",
		IndexKeyFunc: func(b bond.KeyBuilder, r Row) []byte { return b.AddStringField(r.S).Bytes() }})
	Must(t, tb.AddIndex([]*bond.Index[Row]{ix}))
	long := strings.Repeat("x", 70000)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, S: long}}))
	var rs []Row
	Must(t, tb.ScanIndex(Ctx, ix, bond.NewSelectorPoint(Row{S: long}), &rs, false))
	if len(rs) != 1 { t.Fatal(len(rs)) }
}
"""
