ID="intersect-ctx-leak"; PROPERTY="C28"
NEEDS="a context that ends while the second part of an intersection is read"
BREAKS="the iterator stays open, closing the database fails"
EDITS=[("index.go","""			case <-ctx.Done():
				_ = it.Close()
				return nil, fmt.Errorf("context done: %w", ctx.Err())
""","""			case <-ctx.Done():
				return nil, fmt.Errorf("context done: %w", ctx.Err())
""")]
DEMO="""package demo
import ("testing";"context";"github.com/go-bond/bond")
type ctx struct { context.Context; n int }
var closed = func() chan struct{} { c := make(chan struct{}); close(c); return c }()
func (c *ctx) Done() <-chan struct{} { c.n--; if c.n < 0 { return closed }; return nil }
func (c *ctx) Err() error { if c.n < 0 { return context.Canceled }; return nil }
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	for n := 0; n < 12; n++ {
		db, err := bond.Open(dir, nil)
		Must(t, err)
		tb, ix := Table(t, db)
		Must(t, tb.Upsert(Ctx, []Row{{ID: 1, A: 2, B: 1}, {ID: 2, A: 2, B: 1}, {ID: 3, A: 2, B: 1}}, bond.TableUpsertOnConflictReplace[Row]))
		var rs []Row
		_ = tb.Query().With(ix[0], bond.NewSelectorPoint(Row{A: 2})).Intersects(tb.Query().With(ix[1], bond.NewSelectorPoint(Row{B: 1}))).Execute(&ctx{Ctx, n}, &rs)
		func() {
			defer func() { if r := recover(); r != nil { t.Fatal(n, r) } }()
			if err := db.Close(); err != nil { t.Fatal(n, err) }
		}()
	}
}
"""
