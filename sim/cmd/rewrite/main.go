// rewrite copies the packages of the repository into the simulator's module: the
// imports that reach the machine become those of the shims, and every function and
// loop body starts with a step of the simulated processor.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var shims = map[string]string{
	"os": "lhasim/shim/os", "io/ioutil": "lhasim/shim/ioutil", "path/filepath": "lhasim/shim/filepath",
	"time": "lhasim/shim/time", "fmt": "lhasim/shim/fmt", "log": "lhasim/shim/log", "sync": "lhasim/shim/sync",
	"flag": "lhasim/shim/flag", "math/rand": "lhasim/shim/rand",
}

type pkg struct {
	Dir, ImportPath, Name string
	GoFiles               []string
	Module                struct{ Path, Dir, GoVersion string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	c := exec.Command("go", "list", "-json", "./...")
	c.Dir = repo
	c.Stderr = os.Stderr
	b, err := c.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports(repo)
	dec := json.NewDecoder(bytes.NewReader(b))
	var mod string
	var reg []string
	n := 0
	for dec.More() {
		var p pkg
		if err := dec.Decode(&p); err != nil {
			die("%v", err)
		}
		mod = p.Module.Path
		rel, _ := filepath.Rel(p.Module.Dir, p.Dir)
		dst := filepath.Join(out, "lha", rel)
		do(p, dst, mod)
		reg = append(reg, filepath.ToSlash(filepath.Join("lhasim/gen/lha", rel)))
		n++
	}
	if n == 0 {
		die("no packages")
	}
	/* registers the variables of every package */
	var s strings.Builder
	s.WriteString("package genreg\n\nimport (\n")
	for i, r := range reg {
		fmt.Fprintf(&s, "\tp%d %q\n", i, r)
	}
	s.WriteString("\t\"lhasim/vsim\"\n)\n\nfunc Register() {\n")
	for i := range reg {
		fmt.Fprintf(&s, "\tvsim.RegisterGlobals(p%d.VsimKeep, p%d.VsimVars()...)\n", i, i)
	}
	s.WriteString("}\n")
	main := ""
	for i, r := range reg {
		if mains[r] {
			main += fmt.Sprintf("\nfunc Main() { p%d.VsimMain() }\n", i)
			break
		}
	}
	if main == "" {
		main = "\nfunc Main() { panic(\"no command\") }\n"
	}
	s.WriteString(main)
	write(filepath.Join(out, "genreg", "genreg.go"), []byte(s.String()))
}

var mains = map[string]bool{}

var export = map[string]string{}

// exports finds the compiled form of every package, for the types.
func exports(repo string) {
	c := exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", "./...")
	c.Dir = repo
	b, err := c.Output()
	if err != nil {
		die("the repository does not build: %v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Split(l, "\t"); len(f) == 2 {
			export[f[0]] = f[1]
		}
	}
}

func lookup(path string) (io.ReadCloser, error) { return os.Open(export[path]) }

// maps makes the order in which maps are walked a choice of the simulator.
func maps(f *ast.File, info *types.Info) {
	n := 0
	ast.Inspect(f, func(x ast.Node) bool {
		r, ok := x.(*ast.RangeStmt)
		if !ok || r.Key == nil {
			return true
		}
		t := info.TypeOf(r.X)
		if t == nil {
			return true
		}
		if _, ok := t.Underlying().(*types.Map); !ok {
			return true
		}
		switch r.X.(type) {
		case *ast.Ident, *ast.SelectorExpr:
		default:
			return true
		}
		k, v, has := fmt.Sprintf("vsimK%d", n), fmt.Sprintf("vsimV%d", n), fmt.Sprintf("vsimOk%d", n)
		n++
		id := func(s string) *ast.Ident { return ast.NewIdent(s) }
		blank := func(e ast.Expr) bool { i, ok := e.(*ast.Ident); return e == nil || ok && i.Name == "_" }
		pre := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{id(v), id(has)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: r.X, Index: id(k)}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(has)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}},
		}
		if !blank(r.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.Key}, Tok: r.Tok, Rhs: []ast.Expr{id(k)}})
		}
		if r.Value != nil && !blank(r.Value) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.Value}, Tok: r.Tok, Rhs: []ast.Expr{id(v)}})
		}
		r.Body.List = append(pre, r.Body.List...)
		r.X = &ast.CallExpr{Fun: &ast.SelectorExpr{X: id("vsimTick"), Sel: id("MapKeys")}, Args: []ast.Expr{r.X}}
		r.Key, r.Value, r.Tok = id("_"), id(k), token.DEFINE
		return true
	})
}

func write(p string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(p, b, 0644); err != nil {
		die("%v", err)
	}
}

func goVersion(v string) string {
	p := strings.Split(v, ".")
	if len(p) < 2 {
		return "1.21"
	}
	if n, _ := strconv.Atoi(p[1]); n < 21 {
		return "1.21"
	}
	return p[0] + "." + p[1]
}

func tick() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsimTick"), Sel: ast.NewIdent("Tick")}}}
}

func do(p pkg, dst, mod string) {
	fset := token.NewFileSet()
	var vars []string
	name := p.Name
	isMain := name == "main"
	hasMain := false
	if isMain {
		name = "lharcmain"
		mains[filepath.ToSlash("lhasim/gen/lha"+strings.TrimPrefix(p.ImportPath, mod))] = true
	}
	sort.Strings(p.GoFiles)
	var files []*ast.File
	for _, fn := range p.GoFiles {
		/* comments are dropped: they would be moved about */
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, fn), nil, 0)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(error) {}}
	_, _ = conf.Check(p.ImportPath, fset, files, info)
	for i, fn := range p.GoFiles {
		f := files[i]
		maps(f, info)
		if isMain {
			f.Name.Name = name
		}
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if path == mod || strings.HasPrefix(path, mod+"/") {
				if im.Name == nil && path == mod {
					im.Name = ast.NewIdent("lha")
				}
				im.Path.Value = strconv.Quote("lhasim/gen/lha" + strings.TrimPrefix(path, mod))
				continue
			}
			if s, ok := shims[path]; ok {
				im.Path.Value = strconv.Quote(s)
				if im.Name == nil {
					im.Name = ast.NewIdent(path[strings.LastIndexByte(path, '/')+1:])
				}
			}
			im.EndPos = 0
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						for _, id := range s.(*ast.ValueSpec).Names {
							if id.Name != "_" {
								vars = append(vars, id.Name)
							}
						}
					}
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "main" && isMain {
					hasMain = true
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Body != nil {
					n.Body.List = append([]ast.Stmt{tick()}, n.Body.List...)
				}
			case *ast.FuncLit:
				n.Body.List = append([]ast.Stmt{tick()}, n.Body.List...)
			case *ast.ForStmt:
				n.Body.List = append([]ast.Stmt{tick()}, n.Body.List...)
			case *ast.RangeStmt:
				n.Body.List = append([]ast.Stmt{tick()}, n.Body.List...)
			case *ast.LabeledStmt:
				/* a goto loop steps too, unless the label names a loop or a switch */
				switch n.Stmt.(type) {
				case *ast.EmptyStmt, *ast.ExprStmt, *ast.IfStmt, *ast.IncDecStmt:
					n.Stmt = &ast.BlockStmt{List: []ast.Stmt{tick(), n.Stmt}}
				}
			}
			return true
		})
		gos(f)
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
			&ast.ImportSpec{Name: ast.NewIdent("vsimTick"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"lhasim/vsim"`}}}}}, f.Decls...)
		var buf bytes.Buffer
		/* the language version of the module, which decides about loop variables */
		fmt.Fprintf(&buf, "//go:build go%s\n\n", goVersion(p.Module.GoVersion))
		if err := format.Node(&buf, fset, f); err != nil {
			die("%s: %v", fn, err)
		}
		buf.WriteString("\nvar _ = vsimTick.Tick\n")
		write(filepath.Join(dst, fn), buf.Bytes())
	}
	var s strings.Builder
	fmt.Fprintf(&s, "package %s\n\n// VsimVars are the package variables.\nfunc VsimVars() []any {\n\treturn []any{\n", name)
	for _, v := range vars {
		fmt.Fprintf(&s, "\t\t&%s,\n", v)
	}
	fmt.Fprintf(&s, "\t}\n}\n\nconst VsimKeep = %v\n", isMain)
	if hasMain {
		s.WriteString("\nfunc VsimMain() { main() }\n")
	}
	write(filepath.Join(dst, "zz_vsim.go"), []byte(s.String()))
}

// gos turns go statements into tasks of the simulator.
func gos(f *ast.File) {
	var fix func(list []ast.Stmt)
	n := 0
	fix = func(list []ast.Stmt) {
		for i, st := range list {
			g, ok := st.(*ast.GoStmt)
			if !ok {
				continue
			}
			var pre []ast.Stmt
			call := *g.Call
			call.Args = append([]ast.Expr{}, g.Call.Args...)
			for j, a := range call.Args {
				if _, lit := a.(*ast.FuncLit); lit {
					continue
				}
				id := fmt.Sprintf("vsimArg%d", n)
				n++
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
				call.Args[j] = ast.NewIdent(id)
			}
			lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &call}}}}
			pre = append(pre, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsimTick"), Sel: ast.NewIdent("Go")}, Args: []ast.Expr{lit}}})
			list[i] = &ast.BlockStmt{List: pre}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			fix(n.List)
		case *ast.CaseClause:
			fix(n.Body)
		case *ast.CommClause:
			fix(n.Body)
		}
		return true
	})
}
