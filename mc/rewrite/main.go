// Command rewrite REPO PROFILE OUT instruments the packages of the module for
// the controlled scheduler: the packages sync, sync/atomic and errgroup are
// replaced by stand-ins that hand control to the scheduler, go statements start
// controlled threads, the clock is asked of the scheduler, and in the parts the
// profile names every statement is preceded by a scheduling point and
// assignments to shared places are split into computing and storing the value.
// The edits are insertions into the text, so line numbers stay. Prints the
// overlay entries as JSON.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const shim = "github.com/go-bond/bond/internal/vmc/shim/"

var imports = map[string]string{
	"sync":                       shim + "sync",
	"sync/atomic":                shim + "atomic",
	"golang.org/x/sync/errgroup": shim + "errgroup",
	// not for its concurrency, it is slow
	"github.com/klauspost/compress/zstd": shim + "zstd",
}

type profile struct {
	yields func(rel string) bool // files with a point before every statement
	third  map[string][]string   // third party packages to copy and instrument: path -> files without points
	split  bool
}

func prefixed(ps ...string) func(string) bool {
	return func(rel string) bool {
		for _, p := range ps {
			if rel == p || strings.HasSuffix(p, "/") && strings.HasPrefix(rel, p) {
				return true
			}
		}
		return false
	}
}

var profiles = map[string]profile{
	"locks": {yields: prefixed()},
	"bloom": {yields: prefixed("bloom/", "filter.go"), third: map[string][]string{
		"github.com/bits-and-blooms/bloom/v3": {"murmur.go"},
		"github.com/bits-and-blooms/bitset":   nil,
	}, split: true},
	"small": {yields: prefixed("utils/sync.go", "sync.go", "helpers.go"), split: true},
	"dump":  {yields: prefixed("bond.go"), split: true},
}

type edit struct {
	off  int
	n    int // bytes replaced
	text string
	seq  int
}

type rewriter struct {
	fset  *token.FileSet
	src   []byte
	base  int
	edits []edit
	p     profile
	yield bool
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) insert(off int, text string) {
	r.edits = append(r.edits, edit{off, 0, text, len(r.edits)})
}

func (r *rewriter) replace(from, to int, text string) {
	r.edits = append(r.edits, edit{from, to - from, text, len(r.edits)})
}

func (r *rewriter) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

// interesting tells whether running the statement can touch shared state.
func interesting(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.CallExpr, *ast.SliceExpr:
			found = true
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		}
		return !found
	})
	return found
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		}
		return !found
	})
	return found
}

func shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.ParenExpr:
		return shared(x.X)
	}
	return false
}

func (r *rewriter) stmts(list []ast.Stmt) {
	if !r.yield {
		return
	}
	for _, s := range list {
		if _, empty := s.(*ast.EmptyStmt); empty || !interesting(s) {
			continue
		}
		r.insert(r.off(s.Pos()), "vmcsched.Yield(); ")
		if l, ok := s.(*ast.LabeledStmt); ok {
			s = l.Stmt
		}
		if r.p.split {
			r.splitStmt(s)
		}
	}
}

func (r *rewriter) splitStmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !shared(s.Lhs[0]) || s.Tok == token.DEFINE {
			return
		}
		l := s.Lhs[0]
		if s.Tok == token.ASSIGN {
			r.insert(r.off(l.Pos()), "vmcsched.Ref(&(")
			r.replace(r.off(s.TokPos), r.off(s.TokPos)+1, ")).Set(")
			r.insert(r.off(s.Rhs[0].End()), ")")
			return
		}
		if hasCall(l) {
			return
		}
		op := strings.TrimSuffix(s.Tok.String(), "=")
		lt := r.text(l)
		r.insert(r.off(l.Pos()), "vmcsched.Ref(&(")
		r.replace(r.off(s.TokPos), r.off(s.TokPos)+len(s.Tok.String()), ")).Set(("+lt+") "+op+" (")
		r.insert(r.off(s.Rhs[0].End()), "))")
	case *ast.IncDecStmt:
		if !shared(s.X) || hasCall(s.X) {
			return
		}
		op := s.Tok.String()[:1]
		lt := r.text(s.X)
		r.insert(r.off(s.X.Pos()), "vmcsched.Ref(&(")
		r.replace(r.off(s.TokPos), r.off(s.TokPos)+2, ")).Set(("+lt+") "+op+" 1)")
	}
}

func (r *rewriter) file(f *ast.File, moved map[string]string) {
	timeName := ""
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to, ok := imports[p]
		if !ok {
			to, ok = moved[p]
		}
		if ok {
			t := strconv.Quote(to)
			if im.Name == nil && p == "github.com/bits-and-blooms/bloom/v3" {
				t = "bloom " + t
			}
			r.replace(r.off(im.Path.Pos()), r.off(im.Path.End()), t)
		}
		if p == "time" {
			timeName = "time"
			if im.Name != nil {
				timeName = im.Name.Name
			}
		}
	}
	r.insert(r.off(f.Name.End()), "; import vmcsched \""+shim+"sched\"")

	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			r.stmts(n.List)
		case *ast.CaseClause:
			r.stmts(n.Body)
		case *ast.CommClause:
			r.stmts(n.Body)
		case *ast.GoStmt:
			r.goStmt(n)
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok && timeName != "" && x.Name == timeName && x.Obj == nil {
				switch n.Sel.Name {
				case "Now", "Since", "Until", "Sleep":
					r.replace(r.off(x.Pos()), r.off(x.End()), "vmcsched")
				}
			}
		}
		return true
	})
	r.insert(len(r.src), "\nvar _ = vmcsched.Yield\n")
	if timeName != "" && timeName != "_" && timeName != "." {
		r.insert(len(r.src), "\nvar _ = "+timeName+".Nanosecond\n")
	}
}

func (r *rewriter) goStmt(g *ast.GoStmt) {
	c := g.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok {
		if c.Ellipsis.IsValid() || fl.Type.Results != nil && len(fl.Type.Results.List) > 0 {
			return
		}
		// func(params) { sched.Go(func() { body }) }(args)
		r.replace(r.off(g.Go), r.off(g.Go)+2, "")
		r.insert(r.off(fl.Body.Lbrace)+1, " vmcsched.Go(func() {")
		r.insert(r.off(fl.Body.Rbrace), "}) ")
		return
	}
	if c.Ellipsis.IsValid() || len(c.Args) > 3 {
		return
	}
	r.replace(r.off(g.Go), r.off(g.Go)+2, fmt.Sprintf("vmcsched.Go%d(", len(c.Args)))
	if len(c.Args) == 0 {
		r.replace(r.off(c.Lparen), r.off(c.Lparen)+1, "")
	} else {
		r.replace(r.off(c.Lparen), r.off(c.Lparen)+1, ", ")
	}
}

func (r *rewriter) result() []byte {
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].off != r.edits[j].off {
			return r.edits[i].off < r.edits[j].off
		}
		return r.edits[i].seq < r.edits[j].seq
	})
	var out []byte
	at := 0
	for _, e := range r.edits {
		if e.off < at {
			continue
		}
		out = append(out, r.src[at:e.off]...)
		out = append(out, e.text...)
		at = e.off + e.n
	}
	return append(out, r.src[at:]...)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func rewrite(src, rel, dst string, p profile, yield bool, moved map[string]string) {
	fset := token.NewFileSet()
	b, err := os.ReadFile(src)
	must(err)
	f, err := parser.ParseFile(fset, src, b, parser.ParseComments)
	must(err)
	r := &rewriter{fset: fset, src: b, p: p, yield: yield}
	r.file(f, moved)
	must(os.MkdirAll(filepath.Dir(dst), 0755))
	must(os.WriteFile(dst, r.result(), 0644))
}

func main() {
	repo, name, out := os.Args[1], os.Args[2], os.Args[3]
	split := true
	if strings.HasSuffix(name, "-nozstd") {
		name = strings.TrimSuffix(name, "-nozstd")
		delete(imports, "github.com/klauspost/compress/zstd")
	}
	if strings.HasSuffix(name, "-nosplit") {
		name, split = strings.TrimSuffix(name, "-nosplit"), false
	}
	p, ok := profiles[name]
	if !ok {
		must(fmt.Errorf("unknown profile %s", name))
	}
	p.split = p.split && split
	rep := map[string]string{}
	moved := map[string]string{}
	for path := range p.third {
		moved[path] = "github.com/go-bond/bond/internal/vmc/third/" + strings.ReplaceAll(strings.TrimPrefix(path, "github.com/"), "/", "_")
	}
	for path, quiet := range p.third {
		c := exec.Command("go", "list", "-f", "{{.Dir}}", path)
		c.Dir = repo
		b, err := c.CombinedOutput()
		if err != nil {
			must(fmt.Errorf("%s: %v %s", path, err, b))
		}
		dir := strings.TrimSpace(string(b))
		pkg, err := build.ImportDir(dir, 0)
		must(err)
		for _, f := range pkg.GoFiles {
			yield := true
			for _, q := range quiet {
				yield = yield && q != f
			}
			to := strings.TrimPrefix(moved[path], "github.com/go-bond/bond/")
			dst := filepath.Join(out, to, f)
			rewrite(filepath.Join(dir, f), f, dst, p, yield, moved)
			rep[filepath.Join(repo, to, f)] = dst
		}
	}
	must(filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if fi.IsDir() {
			b := fi.Name()
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "internal" || b == "cmd" || b == "docs" || b == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		dst := filepath.Join(out, rel)
		rewrite(path, rel, dst, p, p.yields(rel), moved)
		rep[path] = dst
		return nil
	}))
	b, err := json.Marshal(rep)
	must(err)
	fmt.Println(string(b))
}
