ID="bigint-neg-inplace"; PROPERTY="C09"
NEEDS="a descending order by a big integer of a record, built more than once from the same record value"
BREAKS="the sign of the caller's number is flipped, the second key built from the record differs from the first"
EDITS=[("index.go","		b = big.NewInt(0).Neg(b)","		b.Neg(b)")]
DEMO="""package demo
import ("testing";"math/big";"bytes";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	n := big.NewInt(7)
	f := func() []byte { return bond.IndexOrder{}.OrderBigInt(n, 64, bond.IndexOrderTypeDESC).Bytes() }
	a, b := f(), f()
	if !bytes.Equal(a, b) || n.Int64() != 7 { t.Fatal(a, b, n) }
}
"""
