ID="batch-id-empty"; PROPERTY="C20"
NEEDS="a batch that is reset while it holds nothing"
BREAKS="the batch keeps its identifier over the reset"
EDITS=[("batch.go","""	b.Batch.Reset()

	b.id, _ = sequenceId.Next()
""","""	if !b.Batch.Empty() {
		b.Batch.Reset()
		b.id, _ = sequenceId.Next()
	}
""")]
DEMO="""package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t)
	b := db.Batch(bond.BatchTypeReadWrite)
	a := b.ID()
	b.Reset()
	if a == b.ID() { t.Fatal(a) }
}
"""
