ID="filter-save-retry"; PROPERTY="C12"
NEEDS="a save of the filter that fails while writing a bucket, a later save that succeeds, and a restart from it"
BREAKS="the bucket whose write failed is not written again, after the restart the filter hides stored rows"
EDITS=[("bloom/bloom_filter.go","		buff := bytes.NewBuffer(dataBuff[:0])\n","		bucket.hasChanges = false\n		buff := bytes.NewBuffer(dataBuff[:0])\n"),
("bloom/bloom_filter.go","			return err\n		}\n\n		bucket.hasChanges = false\n		bucket.hasBeenWritten = true","			return err\n		}\n\n		bucket.hasBeenWritten = true")]
DEMO='''package demo
import ("testing";"errors";"github.com/go-bond/bond";"github.com/go-bond/bond/bloom")
type failing struct { bond.FilterStorer; fail bool; n int }
func (f *failing) Set(k, v []byte, o bond.WriteOptions, b ...bond.Batch) error {
	f.n++
	if f.fail && f.n%2 == 0 { return errors.New("disk full") }
	return f.FilterStorer.Set(k, v, o, b...)
}
func TestDemo(t *testing.T) {
	db := Open(t)
	st := &failing{FilterStorer: db}
	f := bloom.NewBloomFilter(100, 0.01, 1)
	f.Add(Ctx, []byte("first"))
	Must(t, f.Save(Ctx, st))
	f.Add(Ctx, []byte("second"))
	st.fail = true
	if f.Save(Ctx, st) == nil { t.Fatal("no error") }
	st.fail = false
	Must(t, f.Save(Ctx, st))
	g := bloom.NewBloomFilter(100, 0.01, 1)
	Must(t, g.Load(Ctx, st))
	if !g.MayContain(Ctx, []byte("first")) || !g.MayContain(Ctx, []byte("second")) { t.Fatal("hidden") }
}
'''
