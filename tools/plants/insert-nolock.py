ID="insert-nolock"; PROPERTY="C19"
NEEDS="a row inserted on one goroutine while another adds an index to the table"
BREAKS="the insert reads the table's indexes while they change (a data race that can end the process)"
EDITS=[("table.go","""func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) error {
	t.mutex.RLock()
	indexes := make(map[IndexID]*Index[T])
	maps.Copy(indexes, t.secondaryIndexes)
	t.mutex.RUnlock()
""","""func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) error {
	indexes := maps.Clone(t.secondaryIndexes)
""")]
FLAGS="-race"
DEMO="""package demo
import ("fmt";"sync";"testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t)
	tb, _ := Table(t, db)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := uint64(0); i < 200; i++ { Must(t, tb.Insert(Ctx, []Row{{ID: i + 1, A: i}})) }
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 100; i++ {
			Must(t, tb.AddIndex([]*bond.Index[Row]{bond.NewIndex(bond.IndexOptions[Row]{IndexID: bond.IndexID(i + 10), IndexName: fmt.Sprint("x", i),
				IndexKeyFunc: func(b bond.KeyBuilder, r Row) []byte { return b.AddUint64Field(r.A).Bytes() },
				IndexOrderFunc: func(o bond.IndexOrder, r Row) bond.IndexOrder { return o }})}))
		}
	}()
	wg.Wait()
}
"""
