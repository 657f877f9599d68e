ID="delete-sorts-rows"; PROPERTY="C27"
NEEDS="a delete of several rows in a batch of the caller, given in another order than that of their keys"
BREAKS="the caller's list of rows is reordered"
EDITS=[("table.go","""	for _, tr := range trs {
		select {
		case <-ctx.Done():
			return fmt.Errorf("context done: %w", ctx.Err())
		default:
		}

		// data key
		var key = t.key(tr, keyBuffer[:0])
""","""	if externalBatch {
		// an indexed batch takes ordered keys faster
		sort.SliceStable(trs, func(i, j int) bool {
			return bytes.Compare(t.key(trs[i], []byte{}), t.key(trs[j], []byte{})) < 0
		})
	}

	for _, tr := range trs {
		select {
		case <-ctx.Done():
			return fmt.Errorf("context done: %w", ctx.Err())
		default:
		}

		// data key
		var key = t.key(tr, keyBuffer[:0])
""")]
DEMO="""package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t)
	tb, _ := Table(t, db)
	rs := []Row{{ID: 3}, {ID: 1}, {ID: 2}}
	Must(t, tb.Insert(Ctx, rs))
	b := db.Batch(bond.BatchTypeReadWrite)
	defer b.Close()
	Must(t, tb.Delete(Ctx, rs, b))
	if rs[0].ID != 3 || rs[1].ID != 1 { t.Fatal(rs) }
}
"""
