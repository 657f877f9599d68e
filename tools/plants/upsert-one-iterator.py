ID="upsert-one-iterator"; PROPERTY="C01"
NEEDS="an upsert of more than 5000 rows that repeats a key in different chunks"
BREAKS="the later chunk does not see the row of the earlier one and the conflict function is not called"
EDITS=[("table.go","""		// iter
		iter := t.db.Iter(&IterOptions{
			IterOptions: pebble.IterOptions{
				LowerBound: keys[0],
				UpperBound: t.dataKeySpaceEnd,
			},
		}, batchReadWrite)
		defer iter.Close()

		for i := 0; i < len(keys); {
""","""		for i := 0; i < len(keys); {
"""),("table.go","""		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
	}

	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
		// keys
		keys := t.keysExternal(trs, keysBuffer)

		// order keys
		keyOrder := t.sortKeys(keys)

		for i := 0; i < len(keys); {
""","""		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
	}

	// one iterator for all rows
	iter := t.db.Iter(&IterOptions{
		IterOptions: pebble.IterOptions{
			LowerBound: t.dataKeySpaceStart,
			UpperBound: t.dataKeySpaceEnd,
		},
	}, batchReadWrite)
	defer iter.Close()

	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
		// keys
		keys := t.keysExternal(trs, keysBuffer)

		// order keys
		keyOrder := t.sortKeys(keys)

		for i := 0; i < len(keys); {
""")]
DEMO="""package demo
import ("testing")
func TestDemo(t *testing.T) {
	db := Open(t)
	tb, _ := Table(t, db)
	var rs []Row
	for i := uint64(0); i < 5001; i++ { rs = append(rs, Row{ID: i, A: 1}) }
	rs = append(rs, Row{ID: 1, A: 1})
	Must(t, tb.Upsert(Ctx, rs, func(o, n Row) Row { n.A += o.A; return n }))
	r, err := tb.GetPoint(Ctx, Row{ID: 1})
	Must(t, err)
	if r.A != 2 { t.Fatal(r) }
}
"""
