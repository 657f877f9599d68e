ID="prev-empty-part"; PROPERTY="C08"
NEEDS="a reversed scan of several points or ranges of which two or more next to each other, not the first or last ones, have no rows"
BREAKS="the rows of the parts before the empty ones are not returned"
EDITS=[("iter.go","""		it.iteratorOptionsIndex--
		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
		if it.iterator.Last() {
			break
		}
""","""		it.iteratorOptionsIndex--
		it.iterator = it.iteratorConstuctor.Iter(childIteratorOptions(it.iteratorOptions[it.iteratorOptionsIndex]))
		return it.iterator.Last()
""")]
DEMO="""package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t)
	tb, ix := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, A: 1}, {ID: 2, A: 9}}))
	var rs []Row
	Must(t, tb.ScanIndex(Ctx, ix[0], bond.NewSelectorPoints(Row{A: 1}, Row{A: 5}, Row{A: 6}, Row{A: 9}), &rs, true))
	if len(rs) != 2 || rs[0].ID != 2 || rs[1].ID != 1 { t.Fatal(rs) }
}
"""
