ID="upsert-shared-indexes"; PROPERTY="C19"
NEEDS="an index added while an upsert of several rows is between two of them"
BREAKS="the upsert maintains the new index for some of its rows only"
EDITS=[("table.go","""func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, new T) T, optBatch ...Batch) error {
	t.mutex.RLock()
	indexes := make(map[IndexID]*Index[T])
	maps.Copy(indexes, t.secondaryIndexes)
	t.mutex.RUnlock()
""","""func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, new T) T, optBatch ...Batch) error {
	t.mutex.RLock()
	indexes := t.secondaryIndexes
	t.mutex.RUnlock()
""")]
DEMO="""package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t)
	tb, _ := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1}, {ID: 2}}))
	ix := bond.NewIndex(bond.IndexOptions[Row]{IndexID: 9, IndexName: "s",
		IndexKeyFunc: func(b bond.KeyBuilder, r Row) []byte { return b.AddStringField(r.S).Bytes() }})
	n := 0
	Must(t, tb.Upsert(Ctx, []Row{{ID: 1, S: "x"}, {ID: 2, S: "y"}}, func(o, r Row) Row {
		n++
		if n == 2 { Must(t, tb.AddIndex([]*bond.Index[Row]{ix})) }
		return r
	}))
	if c := Count(t, db, 7, 9); c != 0 { t.Fatal(c) }
}
"""
