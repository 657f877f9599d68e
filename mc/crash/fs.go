package crash

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// fileOp is a change of a file that is not synced yet.
type fileOp struct {
	off   int64
	data  []byte
	trunc bool // set the size to off
}

// dirOp is a change of a directory that is not synced yet: a rename takes one
// name away and gives another.
type dirOp struct {
	del string
	add string
	ino *inode
}

type inode struct {
	dir  bool
	ents map[string]*inode
	dur  map[string]*inode
	pend []dirOp

	data  []byte
	durD  []byte
	fpend []fileOp
}

func newInode(dir bool) *inode {
	n := &inode{dir: dir}
	if dir {
		n.ents, n.dur = map[string]*inode{}, map[string]*inode{}
	}
	return n
}

func (d *inode) change(o dirOp) {
	apply(d.ents, o)
	d.pend = append(d.pend, o)
}

func apply(m map[string]*inode, o dirOp) {
	if o.del != "" {
		delete(m, o.del)
	}
	if o.add != "" {
		m[o.add] = o.ino
	}
}

func applyF(b []byte, o fileOp) []byte {
	if o.trunc {
		if int64(len(b)) >= o.off {
			return append([]byte{}, b[:o.off]...)
		}
		return append(append([]byte{}, b...), make([]byte, o.off-int64(len(b)))...)
	}
	n := append([]byte{}, b...)
	if e := o.off + int64(len(o.data)); int64(len(n)) < e {
		n = append(n, make([]byte, e-int64(len(n)))...)
	}
	copy(n[o.off:], o.data)
	return n
}

func (f *inode) write(o fileOp) {
	// in place where possible: the logs are long
	if o.trunc {
		f.data = applyF(f.data, o)
	} else {
		e := o.off + int64(len(o.data))
		if int64(len(f.data)) < e {
			f.data = append(f.data, make([]byte, e-int64(len(f.data)))...)
		}
		copy(f.data[o.off:], o.data)
	}
	f.fpend = append(f.fpend, o)
}

// sync makes the first n pending changes durable.
func (f *inode) sync(n int) {
	if f.dir {
		if n > len(f.pend) {
			n = len(f.pend)
		}
		for _, o := range f.pend[:n] {
			apply(f.dur, o)
		}
		f.pend = append([]dirOp{}, f.pend[n:]...)
		return
	}
	if n > len(f.fpend) {
		n = len(f.fpend)
	}
	if n == len(f.fpend) {
		f.durD = append([]byte{}, f.data...)
	} else {
		for _, o := range f.fpend[:n] {
			f.durD = applyF(f.durD, o)
		}
	}
	f.fpend = append([]fileOp{}, f.fpend[n:]...)
}

// Tree is the content of a directory: path -> content, directories end in "/".
type Tree map[string]string

func (t Tree) Hash() [32]byte {
	h := sha256.New()
	ks := make([]string, 0, len(t))
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(h, "%d:%s%d:", len(k), k, len(t[k]))
		h.Write([]byte(t[k]))
	}
	var out [32]byte
	h.Sum(out[:0])
	return out
}

// Write makes the tree at dir.
func (t Tree) Write(dir string) error {
	ks := make([]string, 0, len(t))
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	for _, k := range ks {
		p := filepath.Join(dir, k)
		if strings.HasSuffix(k, "/") {
			if err := os.MkdirAll(p, 0755); err != nil {
				return err
			}
			continue
		}
		if err := os.WriteFile(p, []byte(t[k]), 0644); err != nil {
			return err
		}
	}
	return nil
}

// Read is the tree at dir.
func Read(dir string) (Tree, error) {
	t := Tree{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if rel == "." {
			return nil
		}
		if fi.IsDir() {
			t[rel+"/"] = ""
			return nil
		}
		b, err := os.ReadFile(p)
		t[rel] = string(b)
		return err
	})
	return t, err
}

// Diff tells how two trees differ.
func Diff(a, b Tree) string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, "only in first: "+k)
		} else if w != v {
			out = append(out, fmt.Sprintf("%s differs (%d and %d bytes)", k, len(v), len(w)))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "only in second: "+k)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// DirMode tells which unsynced changes of directories survive.
type DirMode int

const (
	DirLost DirMode = iota
	DirAll
	DirFirst    // the first one only, per directory
	DirNotLast  // all but the last
	DirNotFirst // all but the first; in the top directory all
	DirLast     // the last one only; in the top directory none
	nDirModes
)

// DataMode tells which unsynced changes of files survive.
type DataMode int

const (
	DataLost DataMode = iota
	DataAll
	DataHalf    // all, but of the last write only half
	DataByte    // all, but of the last write only one byte
	DataNotLast // all but the last
	DataZero    // the size, but zeros
	DataLastZ   // the last write only, zeros before it
	nDataModes
)

var dirNames = []string{"lost", "kept", "first kept", "last lost", "first lost", "last kept"}
var dataNames = []string{"lost", "kept", "half of the last write", "one byte of the last write", "last write lost", "zeros", "zeros but for the last write"}

func (d DirMode) String() string  { return dirNames[d] }
func (d DataMode) String() string { return dataNames[d] }

func (f *inode) content(m DataMode) string {
	if len(f.fpend) == 0 {
		return string(f.durD)
	}
	if m == DataAll {
		return string(f.data)
	}
	b := f.durD
	for i, o := range f.fpend {
		last := i == len(f.fpend)-1
		switch m {
		case DataLost:
			return string(b)
		case DataHalf, DataByte, DataNotLast:
			if last {
				n := 0
				if m == DataHalf {
					n = len(o.data) / 2
				} else if m == DataByte && len(o.data) > 1 {
					n = 1
				}
				if o.trunc || n == 0 {
					return string(b)
				}
				o.data = o.data[:n]
			}
		case DataZero, DataLastZ:
			if !o.trunc && !(last && m == DataLastZ) {
				o.data = make([]byte, len(o.data))
			}
		}
		b = applyF(b, o)
	}
	return string(b)
}

func (d *inode) tree(t Tree, prefix string, dm DirMode, fm DataMode) {
	ents := d.dur
	mode := dm
	if strings.Count(prefix, "/") == 1 {
		// the storage engine relies on the order of the changes of its own
		// directory
		switch dm {
		case DirNotFirst:
			mode = DirAll
		case DirLast:
			mode = DirLost
		}
	}
	n := len(d.pend)
	keep := func(i int) bool { return false }
	switch mode {
	case DirAll:
		keep = func(int) bool { return true }
	case DirFirst:
		keep = func(i int) bool { return i == 0 }
	case DirNotLast:
		keep = func(i int) bool { return i < n-1 }
	case DirNotFirst:
		keep = func(i int) bool { return i > 0 }
	case DirLast:
		keep = func(i int) bool { return i == n-1 }
	}
	if mode == DirAll {
		ents = d.ents
	} else if mode != DirLost && n > 0 {
		ents = map[string]*inode{}
		for k, v := range d.dur {
			ents[k] = v
		}
		for i, o := range d.pend {
			if keep(i) {
				apply(ents, o)
			}
		}
	}
	for k, v := range ents {
		if v.dir {
			t[prefix+k+"/"] = ""
			v.tree(t, prefix+k+"/", dm, fm)
		} else {
			t[prefix+k] = v.content(fm)
		}
	}
}

// FS is the model of the file system below one directory.
type FS struct {
	Root string
	root *inode
	fds  map[int64]*file
	// syncs that have begun: thread -> number of pending changes then
	begun map[string]int
	// what a thread is closing
	closed map[string]string
	// Steps counts the changes so far.
	Steps int
	// Call is told of every call that names something below the root.
	Call func(tid, name, rel string, injected bool)
}

type file struct {
	n      *inode
	path   string
	off    int64
	append bool
}

func NewFS(root string) *FS {
	return &FS{Root: filepath.Clean(root), root: newInode(true), fds: map[int64]*file{}, begun: map[string]int{}, closed: map[string]string{}}
}

// Load makes t the durable content.
func (f *FS) Load(t Tree) {
	ks := make([]string, 0, len(t))
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		d, name := f.root, strings.TrimSuffix(k, "/")
		for {
			i := strings.IndexByte(name, '/')
			if i < 0 {
				break
			}
			d, name = d.ents[name[:i]], name[i+1:]
		}
		n := newInode(strings.HasSuffix(k, "/"))
		if !n.dir {
			n.data, n.durD = []byte(t[k]), []byte(t[k])
		}
		d.ents[name], d.dur[name] = n, n
	}
}

// State is the directory after a crash now.
func (f *FS) State(dm DirMode, fm DataMode) Tree {
	t := Tree{}
	f.root.tree(t, "", dm, fm)
	return t
}

// Pending tells whether anything is unsynced.
func (f *FS) Pending() (dirs, files bool) {
	var walk func(n *inode)
	walk = func(n *inode) {
		if n.dir {
			dirs = dirs || len(n.pend) > 0
			for _, e := range n.ents {
				walk(e)
			}
		} else {
			files = files || len(n.fpend) > 0
		}
	}
	walk(f.root)
	return
}

func (f *FS) rel(p string) (string, bool) {
	p = filepath.Clean(p)
	if p == f.Root {
		return "", true
	}
	if strings.HasPrefix(p, f.Root+"/") {
		return p[len(f.Root)+1:], true
	}
	return "", false
}

func (f *FS) walk(rel string) *inode {
	n := f.root
	if rel == "" {
		return n
	}
	for _, c := range strings.Split(rel, "/") {
		if n == nil || !n.dir {
			return nil
		}
		n = n.ents[c]
	}
	return n
}

func (f *FS) parent(rel string) (*inode, string) {
	d, name := filepath.Split(rel)
	return f.walk(strings.TrimSuffix(d, "/")), name
}

// path takes the path of an *at call.
func (f *FS) path(dirfd, arg string) (string, bool, error) {
	b, err := str(arg)
	if err != nil {
		return "", false, err
	}
	p := string(b)
	if !strings.HasPrefix(p, "/") {
		if dirfd == "AT_FDCWD" {
			return "", false, nil
		}
		d := f.fds[num(dirfd)]
		if d == nil {
			return "", false, nil
		}
		p = filepath.Join(d.path, p)
	}
	rel, in := f.rel(p)
	if !in {
		return p, false, nil
	}
	return rel, true, nil
}

// report tells f.Call.
func (f *FS) report(tid string, s *sys) {
	rel := ""
	switch {
	case len(s.args) == 0:
	case s.name == "close":
		rel = f.closed[tid]
	case s.name == "open" || s.name == "unlink" || s.name == "rename" || s.name == "mkdir" || s.name == "stat":
		rel, _, _ = f.path("AT_FDCWD", s.args[0])
	case strings.HasSuffix(s.name, "at") && len(s.args) > 1:
		if p, in, err := f.path(s.args[0], s.args[1]); err == nil && in {
			rel = p
		}
	default:
		if fl := f.fds[num(s.args[0])]; fl != nil {
			rel, _ = f.rel(fl.path)
		}
	}
	f.Call(tid, s.name, rel, s.inj)
}

// do applies one system call. It tells whether the directory or what is
// durable of it changed, and the marker if it was one.
func (f *FS) do(tid string, begin bool, s *sys) (changed bool, mark string, err error) {
	arg := func(i int) string {
		if i < len(s.args) {
			return s.args[i]
		}
		return ""
	}
	if begin {
		switch s.name {
		case "close":
			if fl := f.fds[num(arg(0))]; fl != nil {
				f.closed[tid], _ = f.rel(fl.path)
			} else {
				delete(f.closed, tid)
			}
			delete(f.fds, num(arg(0)))
		case "fsync", "fdatasync":
			if fl := f.fds[num(arg(0))]; fl != nil {
				f.begun[tid] = len(fl.n.fpend) + len(fl.n.pend)
			}
		}
		return
	}
	if f.Call != nil {
		f.report(tid, s)
	}
	if s.ret < 0 && s.name != "openat" && s.name != "open" {
		return
	}
	switch s.name {
	case "open", "openat", "creat":
		if s.name != "openat" {
			s.args = append([]string{"AT_FDCWD"}, s.args...)
			if s.name == "creat" {
				s.args = []string{"AT_FDCWD", s.args[1], "O_CREAT|O_TRUNC|O_WRONLY"}
			}
		}
		rel, in, err := f.path(arg(0), arg(1))
		if err != nil {
			return false, "", err
		}
		if !in {
			if strings.HasPrefix(rel, MarkDir) {
				return false, rel[len(MarkDir):], nil
			}
			return false, "", nil
		}
		if s.ret < 0 {
			return false, "", nil
		}
		n := f.walk(rel)
		if n == nil {
			d, name := f.parent(rel)
			if d == nil || !strings.Contains(arg(2), "O_CREAT") {
				return false, "", fmt.Errorf("open of unknown %s", rel)
			}
			n = newInode(false)
			d.change(dirOp{add: name, ino: n})
			changed = true
		} else if strings.Contains(arg(2), "O_TRUNC") && len(n.data) > 0 {
			n.write(fileOp{trunc: true})
			changed = true
		}
		f.fds[s.ret] = &file{n: n, path: filepath.Join(f.Root, rel), append: strings.Contains(arg(2), "O_APPEND")}
	case "dup", "dup2", "dup3":
		if fl := f.fds[num(arg(0))]; fl != nil {
			f.fds[s.ret] = fl
		}
	case "fcntl":
		if strings.HasPrefix(arg(1), "F_DUPFD") {
			if fl := f.fds[num(arg(0))]; fl != nil {
				f.fds[s.ret] = fl
			}
		}
	case "lseek":
		if fl := f.fds[num(arg(0))]; fl != nil {
			fl.off = s.ret
		}
	case "read":
		if fl := f.fds[num(arg(0))]; fl != nil {
			fl.off += s.ret
		}
	case "write", "pwrite64":
		fl := f.fds[num(arg(0))]
		if fl == nil || s.ret == 0 {
			return
		}
		b, err := str(arg(1))
		if err != nil {
			return false, "", err
		}
		if int64(len(b)) < s.ret {
			return false, "", fmt.Errorf("%s of %d bytes shows only %d", s.name, s.ret, len(b))
		}
		off := fl.off
		if fl.append {
			off = int64(len(fl.n.data))
		}
		if s.name == "pwrite64" {
			off = num(arg(3))
		} else {
			fl.off = off + s.ret
		}
		fl.n.write(fileOp{off: off, data: b[:s.ret]})
		changed = true
	case "ftruncate":
		if fl := f.fds[num(arg(0))]; fl != nil {
			fl.n.write(fileOp{off: num(arg(1)), trunc: true})
			changed = true
		}
	case "fallocate":
		fl := f.fds[num(arg(0))]
		if fl == nil {
			return
		}
		if !strings.Contains(arg(1), "KEEP_SIZE") {
			if e := num(arg(2)) + num(arg(3)); e > int64(len(fl.n.data)) {
				fl.n.write(fileOp{off: e, trunc: true})
				changed = true
			}
		}
	case "fsync", "fdatasync":
		if fl := f.fds[num(arg(0))]; fl != nil {
			n := f.begun[tid]
			fl.n.sync(n)
			changed = n > 0
		}
	case "mkdir", "mkdirat":
		if s.name == "mkdir" {
			s.args = append([]string{"AT_FDCWD"}, s.args...)
		}
		rel, in, err := f.path(arg(0), arg(1))
		if err != nil || !in {
			return false, "", err
		}
		d, name := f.parent(rel)
		if d == nil {
			return false, "", fmt.Errorf("mkdir in unknown directory: %s", rel)
		}
		d.change(dirOp{add: name, ino: newInode(true)})
		changed = true
	case "unlink", "unlinkat", "rmdir":
		if s.name != "unlinkat" {
			s.args = append([]string{"AT_FDCWD"}, s.args...)
		}
		rel, in, err := f.path(arg(0), arg(1))
		if err != nil || !in {
			return false, "", err
		}
		d, name := f.parent(rel)
		d.change(dirOp{del: name})
		changed = true
	case "rename", "renameat", "renameat2", "link", "linkat":
		if s.name == "rename" || s.name == "link" {
			s.args = []string{"AT_FDCWD", s.args[0], "AT_FDCWD", s.args[1]}
		}
		from, in1, err := f.path(arg(0), arg(1))
		if err != nil {
			return false, "", err
		}
		to, in2, err := f.path(arg(2), arg(3))
		if err != nil {
			return false, "", err
		}
		if !in1 && !in2 {
			return false, "", nil
		}
		link := strings.HasPrefix(s.name, "link")
		if in1 != in2 {
			if !in2 {
				if link {
					return false, "", nil
				}
				d, name := f.parent(from)
				d.change(dirOp{del: name})
				return true, "", nil
			}
			// a file from outside; it is taken to be durable
			b, err := os.ReadFile(filepath.Join(f.Root, to))
			if err != nil {
				return false, "", err
			}
			n := newInode(false)
			n.data, n.durD = b, b
			d, name := f.parent(to)
			d.change(dirOp{add: name, ino: n})
			return true, "", nil
		}
		d1, n1 := f.parent(from)
		d2, n2 := f.parent(to)
		n := d1.ents[n1]
		switch {
		case n == nil || d2 == nil:
			return false, "", fmt.Errorf("%s of unknown %s", s.name, from)
		case link:
			d2.change(dirOp{add: n2, ino: n})
		case d1 == d2:
			d1.change(dirOp{del: n1, add: n2, ino: n})
		default:
			d1.change(dirOp{del: n1})
			d2.change(dirOp{add: n2, ino: n})
		}
		changed = true
	case "writev", "pwritev", "pwritev2", "copy_file_range", "sendfile", "truncate", "splice":
		// not used by the code; the comparison with the real directory at the
		// end would show it
		if s.name == "copy_file_range" || s.name == "sendfile" {
			fl := f.fds[num(arg(map[string]int{"copy_file_range": 2, "sendfile": 0}[s.name]))]
			if fl != nil && s.ret > 0 {
				return false, "", fmt.Errorf("%s is not modelled", s.name)
			}
		} else if f.fds[num(arg(0))] != nil && s.ret > 0 {
			return false, "", fmt.Errorf("%s is not modelled", s.name)
		}
	}
	if changed {
		f.Steps++
	}
	return
}

const traced = "open,openat,creat,close,write,pwrite64,writev,pwritev,pwritev2,ftruncate,truncate,fallocate,rename,renameat,renameat2,unlink,unlinkat,mkdir,mkdirat,rmdir,link,linkat,fsync,fdatasync,dup,dup2,dup3,fcntl,copy_file_range,sendfile,lseek"

// Record runs a program and logs its system calls; extra are options of strace
// (fault injection).
func Record(log string, env []string, extra []string, argv ...string) (out []byte, err error) {
	tr := traced
	if len(extra) > 0 {
		tr += ",read,newfstatat"
	}
	args := append([]string{"-f", "-qq", "-xx", "-s", "1000000000", "--seccomp-bpf", "-e", "trace=" + tr, "-e", "signal=none", "-o", log}, extra...)
	cmd := exec.Command("strace", append(append(args, "--"), argv...)...)
	cmd.Env = append(append([]string{}, env...), "GODEBUG=asyncpreemptoff=1")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err = cmd.Run()
	return buf.Bytes(), err
}

// Replay follows a log: at is called after every change of the directory and
// after every marker.
func Replay(log string, f *FS, at func(mark string) error) error {
	return parse(log, func(tid string, begin bool, s *sys) error {
		changed, mark, err := f.do(tid, begin, s)
		if err != nil {
			return err
		}
		if changed || mark != "" {
			return at(mark)
		}
		return nil
	})
}

// DirModes and DataModes list all modes.
func DirModes() (l []DirMode) {
	for i := DirMode(0); i < nDirModes; i++ {
		l = append(l, i)
	}
	return
}

func DataModes() (l []DataMode) {
	for i := DataMode(0); i < nDataModes; i++ {
		l = append(l, i)
	}
	return
}
