ID="gte-nan"; PROPERTY="C26"
NEEDS="a record whose value is not a number"
BREAKS="records that are not comparable with the bound pass the condition"
EDITS=[("cond/cond.go","	return g.RecordValue(r) >= g.OtherValue","	return !(g.RecordValue(r) < g.OtherValue)")]
DEMO='''package demo
import ("testing";"math";"github.com/go-bond/bond/cond")
func TestDemo(t *testing.T) {
	c := cond.Gte(func(r float64) float64 { return r }, 1)
	if c.Eval(math.NaN()) || !c.Eval(1) || c.Eval(0) { t.Fatal() }
}
'''
