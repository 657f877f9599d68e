ID="intersect-ctx-second"; PROPERTY="C07"
NEEDS="a query over the intersection of two indexes whose context ends while the second index is read"
BREAKS="the query answers without an error and without any rows"
EDITS=[("index.go","""				_ = it.Close()
				return nil, fmt.Errorf("context done: %w", ctx.Err())
			default:
			}

			key :=""","""				return nil, it.Close()
			default:
			}

			key :=""")]
DEMO="""package demo
import ("context";"testing";"github.com/go-bond/bond")
type endsAfter struct { context.Context; left int }
var closed = func() chan struct{} { c := make(chan struct{}); close(c); return c }()
func (e *endsAfter) Done() <-chan struct{} {
	if e.left == 0 { return closed }
	e.left--
	return nil
}
func (e *endsAfter) Err() error {
	if e.left == 0 { return context.Canceled }
	return nil
}
func TestDemo(t *testing.T) {
	db := Open(t)
	tb, ix := Table(t, db)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1, A: 2, B: 3}, {ID: 2, A: 2, B: 3}, {ID: 3, A: 2, B: 4}}))
	for n := 0; n < 40; n++ {
		var rs []Row
		err := tb.Query().With(ix[0], bond.NewSelectorPoint(Row{A: 2})).
			Intersects(tb.Query().With(ix[1], bond.NewSelectorPoint(Row{B: 3}))).
			Execute(&endsAfter{Ctx, n}, &rs)
		if err == nil && len(rs) != 2 { t.Fatal(n, "rows without an error:", IDs(rs)) }
	}
}
"""
