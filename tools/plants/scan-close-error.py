ID="scan-close-error"; PROPERTY="C24"
NEEDS="a storage read that fails while a table is scanned"
BREAKS="the scan ends early without an error"
EDITS=[("table.go","""		cont, err := f(it.Key(), Lazy[T]{GetFunc: getValue})
		if !cont || err != nil {
			_ = it.Close()
			return err
		}
	}

	return it.Close()
}
""","""		cont, err := f(it.Key(), Lazy[T]{GetFunc: getValue})
		if !cont || err != nil {
			_ = it.Close()
			return err
		}
	}

	_ = it.Close()
	return nil
}
""")]
DEMO="""package demo
import ("testing";"errors";"github.com/go-bond/bond")
type db struct { bond.DB }
type iter struct { bond.Iterator; n int }
var boom = errors.New("boom")
func (d db) Iter(o *bond.IterOptions, b ...bond.Batch) bond.Iterator { return &iter{Iterator: d.DB.Iter(o, b...)} }
func (i *iter) bad() bool { return i.n >= 1 }
func (i *iter) Next() bool { i.n++; return !i.bad() && i.Iterator.Next() }
func (i *iter) Valid() bool { return !i.bad() && i.Iterator.Valid() }
func (i *iter) Error() error { if i.bad() { return boom }; return i.Iterator.Error() }
func (i *iter) Close() error { err := i.Iterator.Close(); if i.bad() { return boom }; return err }
func TestDemo(t *testing.T) {
	x := Open(t)
	tb, _ := Table(t, x)
	Must(t, tb.Insert(Ctx, []Row{{ID: 1}, {ID: 2}, {ID: 3}}))
	tb, _ = Table(t, db{x})
	var rs []Row
	if err := tb.Scan(Ctx, &rs, false); !errors.Is(err, boom) { t.Fatal(err, rs) }
}
"""
