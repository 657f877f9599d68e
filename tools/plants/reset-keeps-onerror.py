ID="reset-keeps-onclose"; PROPERTY="C18"
NEEDS="a batch with a close callback that is reset and used again"
BREAKS="the close callback of the first life of the batch is called again for the second"
EDITS=[("batch.go","	b.onErrorCallbacks = nil\n	b.onClose = nil\n","	b.onErrorCallbacks = nil\n	b.onClose = b.onClose[:len(b.onClose):len(b.onClose)]\n")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t)
	b := db.Batch(bond.BatchTypeReadWrite)
	n := 0
	b.OnClose(func(bond.Batch) { n++ })
	b.Reset()
	Must(t, b.Close())
	if n != 0 { t.Fatal(n) }
}
'''
