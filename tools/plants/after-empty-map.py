ID="after-empty-map"; PROPERTY="C22"
NEEDS="an inspection with an after row that has no fields set, on a table with a row of the zero key"
BREAKS="the zero row is delivered again although the page starts after it"
EDITS=[("inspect/inspect.go","	if after != nil {\n","	if len(after) > 0 {\n")]
DEMO="""package demo
import ("testing";"github.com/go-bond/bond";"github.com/go-bond/bond/inspect")
func TestDemo(t *testing.T) {
	db := Open(t)
	tb, _ := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 0, S: "zero"}, {ID: 1}, {ID: 2}}))
	in, err := inspect.NewInspect([]bond.TableInfo{tb})
	Must(t, err)
	rs, err := in.Query(Ctx, "rows", "primary", nil, nil, 0, map[string]interface{}{})
	Must(t, err)
	var want []Row
	Must(t, tb.Query().After(Row{}).Execute(Ctx, &want))
	if len(rs) != len(want) { t.Fatal(rs, want) }
}
"""
