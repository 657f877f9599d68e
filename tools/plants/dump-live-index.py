ID="dump-rotation-drop"; PROPERTY="C16"
NEEDS="a table whose dump takes more than one file"
BREAKS="the second and later files overwrite each other, the restored table misses rows"
EDITS=[("bond.go","			currentFileID++\n			file, err = vfs.Default.Create","			currentFileID = 2\n			file, err = vfs.Default.Create")]
DEMO='''package demo
import ("testing";"math/rand";"os";"path/filepath";"github.com/go-bond/bond")
func TestDemo(t *testing.T) {
	db := Open(t); tb, _ := Table(t, db)
	r := rand.New(rand.NewSource(1))
	const n = 64
	for i := 0; i < n; i++ {
		b := make([]byte, 1<<20)
		for j := range b { b[j] = byte(' ' + r.Intn(90)) }
		Must(t, tb.Insert(Ctx, []Row{{ID: uint64(i), S: string(b)}}))
	}
	d, err := os.MkdirTemp("", "dump")
	Must(t, err)
	defer os.RemoveAll(d)
	Must(t, db.Dump(Ctx, filepath.Join(d, "x"), []bond.TableID{7}, true))
	db2 := Open(t)
	Must(t, db2.Restore(Ctx, filepath.Join(d, "x"), []bond.TableID{7}, true))
	if c := Count(t, db2, 7, 0); c != n { t.Fatal(c) }
}
'''
