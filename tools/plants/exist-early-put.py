ID="after-buffer-early-put"; PROPERTY="C19"
NEEDS="two queries with After at the same time, or a record accessor that runs another call on the same database"
BREAKS="the key buffer is back in the pool while it is in use, another call's key overwrites it and the row given to After is delivered again"
EDITS=[("query.go","			keyBuffer := q.table.db.getKeyBufferPool().Get()\n			defer q.table.db.getKeyBufferPool().Put(keyBuffer)\n\n			rowIdxKey := key.ToKey()\n			selIdxKey := KeyBytes(encodeIndexKey[T](q.table, q.afterSelector, q.index, keyBuffer[:0])).ToKey()\n","			keyBuffer := q.table.db.getKeyBufferPool().Get()\n			q.table.db.getKeyBufferPool().Put(keyBuffer)\n\n			rowIdxKey := key.ToKey()\n			selIdxKey := KeyBytes(encodeIndexKey[T](q.table, q.afterSelector, q.index, keyBuffer[:0])).ToKey()\n")]
DEMO='''package demo
import ("testing";"sync/atomic";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t)
	var inside atomic.Int32
	var hook func()
	tb := bond.NewTable(bond.TableOptions[Row]{DB: db, TableID: 7, TableName: "rows",
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r Row) []byte {
			b = b.AddUint64Field(r.ID)
			if hook != nil && inside.Load() == 0 { inside.Store(1); hook(); inside.Store(0) }
			return b.Bytes()
		}})
	Must(t, tb.Insert(Ctx, []Row{{ID: 1}, {ID: 2}, {ID: 3}}))
	hook = func() { tb.Exist(Row{ID: 77}) }
	var rs []Row
	Must(t, tb.Query().After(Row{ID: 1}).Execute(Ctx, &rs))
	if len(rs) != 2 || rs[0].ID != 2 { t.Fatal(rs) }
}
'''
