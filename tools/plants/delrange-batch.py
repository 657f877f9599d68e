ID="delrange-batch"; PROPERTY="C04"
NEEDS="a range deletion given a write-only batch, which is not committed or committed later"
BREAKS="the keys are deleted at once, outside the batch"
EDITS=[("bond.go","	if len(batch) > 0 && batch[0] != nil {\n		return batch[0].DeleteRange(start, end, opt)","	if len(batch) > 0 && batch[0] != nil && batch[0].Type() == BatchTypeReadWrite {\n		return batch[0].DeleteRange(start, end, opt)")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t)
	k := bond.NewUserKey("a")
	Must(t, db.Set(k, []byte("1"), bond.Sync))
	b := db.Batch(bond.BatchTypeWriteOnly)
	Must(t, db.DeleteRange(bond.NewUserKey("a"), bond.NewUserKey("b"), bond.Sync, b))
	Must(t, b.Close())
	_, c, err := db.Get(k)
	Must(t, err)
	_ = c.Close()
}
'''
