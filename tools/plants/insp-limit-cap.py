ID="insp-limit-cap"; PROPERTY="C22"
NEEDS="an inspection with a limit above 100 of a table that has more than 100 matching rows"
BREAKS="only 100 rows are returned although more were asked for and match"
EDITS=[("inspect/inspect.go","	if limit > 0 {\n","	if limit > 100 {\n		limit = 100\n	}\n	if limit != 0 {\n")]
DEMO="""package demo
import ("testing";"github.com/go-bond/bond";"github.com/go-bond/bond/inspect")
func TestDemo(t *testing.T) {
	db := Open(t)
	tb, _ := Table(t, db)
	var rows []Row
	for i := uint64(0); i < 150; i++ { rows = append(rows, Row{ID: i, A: i}) }
	Must(t, tb.Insert(Ctx, rows))
	in, err := inspect.NewInspect([]bond.TableInfo{tb})
	Must(t, err)
	rs, err := in.Query(Ctx, "rows", "primary", nil, nil, 120, nil)
	Must(t, err)
	if len(rs) != 120 { t.Fatal(len(rs)) }
}
"""
