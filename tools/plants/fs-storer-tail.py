ID="fs-storer-tail"; PROPERTY="C12"
NEEDS="a filter saved to files, with a shorter content than the one saved before under the same name"
BREAKS="the end of the old content stays behind the new one"
EDITS=[("filters/filter_fs_storer.go","	err := os.WriteFile(filePath, value, 0660)\n","""	file, err := os.OpenFile(filePath, os.O_WRONLY|os.O_CREATE, 0660)
	if err != nil {
		return err
	}
	defer file.Close()
	_, err = file.Write(value)
""")]
DEMO='''package demo
import ("os";"testing";"github.com/go-bond/bond";"github.com/go-bond/bond/filters")
func TestDemo(t *testing.T) {
	dir, err := os.MkdirTemp("", "flt"); Must(t, err); defer os.RemoveAll(dir)
	s := filters.NewFSFilterStorer(dir)
	Must(t, s.Set([]byte("f_1"), []byte("a long content"), bond.Sync))
	Must(t, s.Set([]byte("f_1"), []byte("short"), bond.Sync))
	v, _, err := s.Get([]byte("f_1")); Must(t, err)
	if string(v) != "short" { t.Fatal(string(v)) }
}
'''
