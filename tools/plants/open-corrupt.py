ID="open-corrupt"; PROPERTY="C15"
NEEDS="a database whose record of the engine's format version is damaged, not a number"
BREAKS="the database opens as if the record matched"
EDITS=[("bond.go","""		if err != nil {
			return nil, err
		}
		if existingVersion !=""","""		if err == nil && existingVersion !=""")]
DEMO='''package demo
import ("testing";"os";"path/filepath";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	db, err := bond.Open(dir, nil)
	Must(t, err)
	Must(t, db.Close())
	Must(t, os.WriteFile(filepath.Join(dir, "bond", bond.PebbleFormatFile), []byte("1x"), 0o644))
	if db, err = bond.Open(dir, nil); err == nil {
		_ = db.Close()
		t.Fatal("opened")
	}
}
'''
