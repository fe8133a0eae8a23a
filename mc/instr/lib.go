package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

const module = "terorie.dev/nimiq"

type libPkg struct {
	path, dir string
	files     []*ast.File
	names     []string
	imports   []string // within the module
}

// Library writes to dir an overlay of the packages of the module at repo that the roots need (paths relative to the
// module): sync and sync/atomic are replaced by package rtPath, and every package gets a function Reset__ that
// initialises its variables again. Packages that run goroutines or use channels of their own cannot be scheduled; if
// there are any, sync is left alone everywhere and coarse is true.
func Library(repo string, roots []string, rtPath string, replace map[string]string, dir string, force bool) (order []string, coarse bool, err error) {
	fset := token.NewFileSet()
	coarse = force
	pkgs := map[string]*libPkg{}
	var load func(rel string) error
	load = func(rel string) error {
		p := path.Join(module, rel)
		if pkgs[p] != nil {
			return nil
		}
		lp := &libPkg{path: p, dir: filepath.Join(repo, rel)}
		pkgs[p] = lp
		bp, err := build.ImportDir(lp.dir, 0)
		if err != nil {
			return err
		}
		for _, n := range bp.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(lp.dir, n), nil, parser.ParseComments)
			if err != nil {
				return err
			}
			lp.files = append(lp.files, f)
			lp.names = append(lp.names, n)
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.GoStmt, *ast.ChanType, *ast.SelectStmt:
					coarse = true
				case *ast.SelectorExpr: // WaitGroup.Go, time.AfterFunc
					coarse = coarse || n.Sel.Name == "Go" || n.Sel.Name == "AfterFunc"
				}
				return true
			})
		}
		for _, im := range bp.Imports {
			if strings.HasPrefix(im, module+"/") {
				lp.imports = append(lp.imports, im)
				if err := load(strings.TrimPrefix(im, module+"/")); err != nil {
					return err
				}
			}
		}
		if len(bp.CgoFiles) > 0 {
			return fmt.Errorf("%s uses cgo", rel)
		}
		return nil
	}
	for _, rel := range roots {
		if err := load(rel); err != nil {
			return nil, false, err
		}
	}
	done := map[string]bool{}
	var visit func(p string)
	visit = func(p string) {
		if done[p] {
			return
		}
		done[p] = true
		sort.Strings(pkgs[p].imports)
		for _, q := range pkgs[p].imports {
			visit(q)
		}
		order = append(order, p)
	}
	var all []string
	for p := range pkgs {
		all = append(all, p)
	}
	sort.Strings(all)
	for _, p := range all {
		visit(p)
	}
	exports, err := exportData(repo, all)
	if err != nil {
		return nil, false, err
	}
	lookup := func(p string) (io.ReadCloser, error) {
		f := exports[p]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(f)
	}
	for _, p := range order {
		lp := pkgs[p]
		info := &types.Info{Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup)}
		tp, err := conf.Check(p, fset, lp.files, info)
		if err != nil {
			return nil, false, err
		}
		if err := lp.write(fset, tp, info, rtPath, !coarse, replace, dir); err != nil {
			return nil, false, err
		}
	}
	return order, coarse, nil
}

func exportData(repo string, pkgs []string) (map[string]string, error) {
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}"}, pkgs...)...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 {
			out[f[0]] = f[1]
		}
	}
	return out, nil
}

func (lp *libPkg) write(fset *token.FileSet, tp *types.Package, info *types.Info, rtPath string, redirect bool, replace map[string]string, dir string) error {
	put := func(name string, b []byte) error {
		real := filepath.Join(dir, strings.ReplaceAll(strings.TrimPrefix(lp.path, module+"/"), "/", "_")+"__"+name)
		replace[filepath.Join(lp.dir, name)] = real
		return os.WriteFile(real, b, 0o644)
	}
	setters := map[*types.Var]string{}
	embedded := map[string]string{} // variables and their directive
	inits := 0
	for i, f := range lp.files {
		for _, im := range f.Imports {
			if p := im.Path.Value; redirect && (p == `"sync"` || p == `"sync/atomic"`) {
				if im.Name == nil {
					im.Name = ast.NewIdent(filepath.Base(strings.Trim(p, `"`)))
				}
				im.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rtPath)}
			}
		}
		var extra []ast.Decl
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					inits++
					d.Name = ast.NewIdent(fmt.Sprintf("init__%d", inits))
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, sp := range d.Specs {
					v := sp.(*ast.ValueSpec)
					for _, g := range []*ast.CommentGroup{d.Doc, v.Doc} {
						if g == nil {
							continue
						}
						for _, c := range g.List {
							if strings.HasPrefix(c.Text, "//go:embed ") {
								embedded[v.Names[0].Name] += c.Text + "\n"
							}
						}
					}
					set := func(lhs []*ast.Ident, rhs []ast.Expr) {
						fn := fmt.Sprintf("set__%d_%d", i, len(extra))
						var l []ast.Expr
						for _, id := range lhs {
							l = append(l, ast.NewIdent(id.Name))
							if o, ok := info.Defs[id].(*types.Var); ok {
								setters[o] = fn
							}
						}
						extra = append(extra, &ast.FuncDecl{Name: ast.NewIdent(fn), Type: &ast.FuncType{Params: &ast.FieldList{}},
							Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: rhs}}}})
					}
					if len(v.Values) == len(v.Names) {
						for k := range v.Names {
							if v.Names[k].Name != "_" {
								set(v.Names[k:k+1], v.Values[k:k+1])
							}
						}
					} else if len(v.Values) > 0 {
						set(v.Names, v.Values)
					}
				}
			}
		}
		f.Decls = append(f.Decls, extra...)
		f.Comments = nil
		var buf bytes.Buffer
		if err := (&printer.Config{Mode: printer.RawFormat | printer.SourcePos}).Fprint(&buf, fset, f); err != nil {
			return err
		}
		src := buf.String()
		for name, directive := range embedded {
			src = regexp.MustCompile(`(?m)^(var|\t)[ \t]*`+name+`[ \t]`).ReplaceAllStringFunc(src, func(m string) string { return directive + m })
		}
		if err := put(lp.names[i], []byte(src)); err != nil {
			return err
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport rt__ %q\n\nvar _ = rt__.Zero\n\n// Reset__ initialises the package again.\nfunc Reset__() {\n", tp.Name(), rtPath)
	for _, n := range tp.Scope().Names() {
		if v, ok := tp.Scope().Lookup(n).(*types.Var); ok && embedded[n] == "" {
			fmt.Fprintf(&b, "\trt__.Zero(&%s)\n", v.Name())
		}
	}
	done := map[string]bool{}
	for _, in := range info.InitOrder {
		if fn := setters[in.Lhs[0]]; fn != "" && !done[fn] {
			done[fn] = true
			fmt.Fprintf(&b, "\t%s()\n", fn)
		}
	}
	var calls string
	for i := 1; i <= inits; i++ {
		calls += fmt.Sprintf("\tinit__%d()\n", i)
	}
	fmt.Fprintf(&b, "%s}\n\nfunc init() {\n%s}\n", calls, calls)
	out, err := format.Source(b.Bytes())
	if err != nil {
		return err
	}
	return put("zz_reset__.go", out)
}

// LibraryOverlay makes the overlay for the concurrency and history checks of the whole library.
func LibraryOverlay(root, repo, dir string, coarse bool) error {
	replace := map[string]string{}
	roots := []string{"beserial", "address", "policy", "tree", "wire", "accounts", "wallet", "genesis"}
	order, coarse, err := Library(repo, roots, "verif/mc/libx/rt", replace, dir, coarse)
	if err != nil {
		return err
	}
	var b bytes.Buffer
	b.WriteString("package libx\n\nimport (\n")
	for i, p := range order {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p)
	}
	fmt.Fprintf(&b, ")\n\nfunc init() {\n\tLinked, Coarse = true, %v\n\tReset = func() {\n", coarse)
	for i := range order {
		fmt.Fprintf(&b, "\t\tp%d.Reset__()\n", i)
	}
	b.WriteString("\t}\n}\n")
	real := filepath.Join(dir, "libx_none.go")
	replace[filepath.Join(root, "libx/none.go")] = real
	if err := os.WriteFile(real, b.Bytes(), 0o644); err != nil {
		return err
	}
	j, err := json.Marshal(map[string]interface{}{"Replace": replace})
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "overlay.json"), j, 0o644)
}
