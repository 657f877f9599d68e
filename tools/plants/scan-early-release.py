ID="scan-early-release"; PROPERTY="C25"
NEEDS="a callback of a row by row index scan that scans another index before it fetches the next prefetched row"
BREAKS="the prefetched rows are overwritten by those of the inner scan"
EDITS=[("table.go","""	defer t.db.getMultiKeyBufferPool().Put(multiKeyBuffer[:0])
	defer t.db.putValueArray(valuesBuffer)
""","""	defer t.db.getMultiKeyBufferPool().Put(multiKeyBuffer[:0])
	t.db.putValueArray(valuesBuffer)
""")]
DEMO="""package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t)
	tb, ix := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, A: 2, B: 1}, {ID: 2, A: 2, B: 2}, {ID: 3, A: 2, B: 3}, {ID: 4, A: 4, B: 9}, {ID: 5, A: 4, B: 8}, {ID: 6, A: 4, B: 7}}))
	var ids []uint64
	Must(t, tb.ScanIndexForEach(Ctx, ix[0], bond.NewSelectorPoint(Row{A: 2}), func(k bond.KeyBytes, l bond.Lazy[Row]) (bool, error) {
		r, err := l.Get()
		if err != nil { return false, err }
		ids = append(ids, r.ID)
		var in []Row
		return true, tb.ScanIndex(Ctx, ix[0], bond.NewSelectorPoint(Row{A: 4}), &in, false)
	}, false))
	if len(ids) != 3 || ids[0] != 1 || ids[1] != 2 || ids[2] != 3 { t.Fatal(ids) }
}
"""
