ID="anyscan-index-batch"; PROPERTY="C04"
NEEDS="an index scan through the untyped scanner with a batch that has uncommitted rows"
BREAKS="the scan does not see what the batch has written"
EDITS=[("table_utils.go","			err := scanner.ScanIndex(ctx, iAny, s.(Selector[T]), &ttr, reverse, optBatch...)","			err := scanner.ScanIndex(ctx, iAny, s.(Selector[T]), &ttr, reverse)")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t); tb, _ := Table(t, db)
	b := db.Batch(bond.BatchTypeReadWrite)
	defer b.Close()
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, A: 1}}, b))
	s := bond.TableAnyScanner[Row](tb)
	ia := bond.NewIndex(bond.IndexOptions[any]{IndexID: 1, IndexName: "a",
		IndexKeyFunc: func(k bond.KeyBuilder, r any) []byte { return k.AddUint64Field(r.(Row).A).Bytes() },
		IndexOrderFunc: func(o bond.IndexOrder, r any) bond.IndexOrder { return o.OrderUint64(r.(Row).B, bond.IndexOrderTypeASC) }})
	var out []any
	Must(t, s.ScanIndex(Ctx, ia, bond.Selector[any](bond.NewSelectorRange(Row{}, Row{A: 9})), &out, false, b))
	if len(out) != 1 { t.Fatal(out) }
}
'''
