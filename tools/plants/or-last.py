ID="or-last"; PROPERTY="C26"
NEEDS="an OR of three or more conditions of which one holds that is not the last"
BREAKS="only the last condition counts"
EDITS=[("cond/cond.go","		evalReturn = evalReturn || evaluable.(Cond[R]).Eval(r)","		if evalReturn = evaluable.(Cond[R]).Eval(r); evalReturn && len(*o) < 3 {\n			break\n		}")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond/cond")
func TestDemo(t *testing.T) {
	g := func(r Row) uint64 { return r.A }
	c := cond.Or[Row](cond.Eq(g, 1), cond.Eq(g, 2), cond.Eq(g, 3))
	for a := uint64(1); a < 4; a++ { if !c.Eval(Row{A: a}) { t.Fatal(a) } }
	if c.Eval(Row{A: 4}) { t.Fatal(4) }
}
'''
