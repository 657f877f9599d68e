ID="datakey-long-order"; PROPERTY="C08"
NEEDS="an index ordered by a value of 64 KiB or more"
BREAKS="the row of such an index entry is looked up under a wrong key"
EDITS=[("keys.go","	indexOrderLen := int(binary.BigEndian.Uint32(key[6+indexLen : 10+indexLen]))\n","	indexOrderLen := int(binary.BigEndian.Uint16(key[8+indexLen : 10+indexLen]))\n")]
DEMO='''package demo
import ("strings";"testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t); tb, _ := Table(t, db)
	ix := bond.NewIndex(bond.IndexOptions[Row]{IndexID: 3, IndexName: "s",
		IndexKeyFunc: func(b bond.KeyBuilder, r Row) []byte { return b.AddUint64Field(r.A).Bytes() },
		IndexOrderFunc: func(o bond.IndexOrder, r Row) bond.IndexOrder { return o.OrderBytes([]byte(r.S), bond.IndexOrderTypeASC) }})
	Must(t, tb.AddIndex([]*bond.Index[Row]{ix}))
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, A: 1, S: "a"}, {ID: 2, A: 1, S: strings.Repeat("long", 20000)}}))
	var rs []Row
	Must(t, tb.ScanIndex(Ctx, ix, bond.NewSelectorPoint(Row{A: 1}), &rs, false))
	if len(rs) != 2 || rs[0].ID != 1 || rs[1].ID != 2 { t.Fatal(IDs(rs)) }
}
'''
