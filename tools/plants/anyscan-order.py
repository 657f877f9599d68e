ID="anyscan-order"; PROPERTY="C25"
NEEDS="a row by row scan of an ordered index through the untyped scanner whose selector has order fields"
BREAKS="the order fields of the selector are ignored and rows before the named position are delivered"
EDITS=[("table_utils.go","""			return scanner.ScanIndexForEach(ctx, iAny, s.(Selector[T]), func(keyBytes""","""			iAny.IndexOrderFunction = func(order IndexOrder, _ T) IndexOrder { return order }
			return scanner.ScanIndexForEach(ctx, iAny, s.(Selector[T]), func(keyBytes""")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t); tb, _ := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, A: 1, B: 1}, {ID: 2, A: 1, B: 2}, {ID: 3, A: 1, B: 3}}))
	ix := bond.NewIndex(bond.IndexOptions[any]{IndexID: 1, IndexName: "a",
		IndexKeyFunc:   func(b bond.KeyBuilder, r any) []byte { return b.AddUint64Field(r.(Row).A).Bytes() },
		IndexOrderFunc: func(o bond.IndexOrder, r any) bond.IndexOrder { return o.OrderUint64(r.(Row).B, bond.IndexOrderTypeASC) }})
	n := 0
	Must(t, bond.TableAnyScanner[Row](tb).ScanIndexForEach(Ctx, ix, bond.NewSelectorPoint(Row{A: 1, B: 2}), func(bond.KeyBytes, bond.Lazy[any]) (bool, error) { n++; return true, nil }, false))
	if n != 2 { t.Fatal(n) }
}
'''
