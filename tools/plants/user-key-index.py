ID="user-key-index"; PROPERTY="C10"
NEEDS="a user key with the name of a reserved key"
BREAKS="the user key overwrites bond's own entry, the database cannot be opened any more"
EDITS=[("keys.go","		IndexID:    BOND_DB_DATA_USER_SPACE_INDEX_ID,\n","		IndexID:    PrimaryIndexID,\n")]
DEMO="""package demo
import ("testing";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	db, err := bond.Open(dir, nil)
	Must(t, err)
	Must(t, db.Set(bond.NewUserKey("__bond_db_data_version__"), []byte("mine"), bond.Sync))
	Must(t, db.Close())
	db, err = bond.Open(dir, nil)
	Must(t, err)
	v, c, err := db.Get(bond.NewUserKey("__bond_db_data_version__"))
	Must(t, err)
	if string(v) != "mine" { t.Fatal(v) }
	_ = c.Close()
	Must(t, db.Close())
}
"""
