ID="filter-first-scanner"; PROPERTY="C12"
NEEDS="one filter over two tables that is initialised from their rows and saved"
BREAKS="the filter is saved and used after the rows of the first table, rows of the second are hidden"
EDITS=[("filter.go","""				return fmt.Errorf("filter initialization failed: %w", err)
			}
		}
	}
	return nil""","""				return fmt.Errorf("filter initialization failed: %w", err)
			}
			if err = filter.Save(ctx, filterStorer); err == nil {
				break
			}
		}
	}
	return nil""")]
DEMO='''package demo
import ("testing";"github.com/go-bond/bond";"github.com/go-bond/bond/bloom")
func TestDemo(t *testing.T) {
	db := Open(t)
	mk := func(id bond.TableID, f bond.Filter) bond.Table[Row] {
		return bond.NewTable(bond.TableOptions[Row]{DB: db, TableID: id, TableName: "t", Filter: f,
			TablePrimaryKeyFunc: func(b bond.KeyBuilder, r Row) []byte { return b.AddUint64Field(r.ID).Bytes() }})
	}
	Must(t, mk(7, nil).Insert(Ctx, []Row{{ID: 1}}))
	Must(t, mk(8, nil).Insert(Ctx, []Row{{ID: 2}}))
	f := bloom.NewBloomFilter(1000, 0.001, 10)
	a, b := mk(7, f), mk(8, f)
	Must(t, bond.FilterInitialize(Ctx, f, db, []bond.TableScanner[any]{bond.TableAnyScanner[Row](a), bond.TableAnyScanner[Row](b)}))
	if !a.Exist(Row{ID: 1}) || !b.Exist(Row{ID: 2}) { t.Fatal("hidden") }
}
'''
