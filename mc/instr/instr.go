// Package instr rewrites a Go package so that every access to its package variables and heap memory and every
// synchronisation operation goes through package rt.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	konst map[types.Object]bool // package variables that are never written after initialisation
	tmp   int
}

type mode int

const (
	rd mode = iota
	wr
	addr
)

func (r *rewriter) pos(n ast.Node) ast.Expr {
	p := r.fset.Position(n.Pos())
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))}
}

func rtSel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("rt__"), Sel: ast.NewIdent(name)}
}

func call(name string, args ...ast.Expr) ast.Expr {
	return &ast.CallExpr{Fun: rtSel(name), Args: args}
}

// wrap turns the addressable e into (*rt.F(&e, pos)).
func (r *rewriter) wrap(f string, at ast.Node, e ast.Expr) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(f, &ast.UnaryExpr{Op: token.AND, X: e}, r.pos(at))}}
}

func isSync(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		return p == "sync" || p == "sync/atomic"
	}
	return false
}

func (r *rewriter) typeOf(e ast.Expr) types.Type { return r.info.TypeOf(e) }

func (r *rewriter) isType(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.IsType()
}

func (r *rewriter) pkgVar(id *ast.Ident) types.Object {
	o := r.info.Uses[id]
	if v, ok := o.(*types.Var); ok && !v.IsField() && v.Parent() == r.pkg.Scope() {
		return v
	}
	return nil
}

// addressable reports whether &e is allowed.
func (r *rewriter) addressable(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.Addressable()
}

func heap(m mode) string {
	if m == wr {
		return "HW"
	}
	return "HR"
}

func (r *rewriter) expr(e ast.Expr, m mode) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.Ident:
		if v := r.pkgVar(e); v != nil && m != addr && !isSync(v.Type()) && !(r.konst[v] && m == rd) {
			if m == wr {
				return r.wrap("W", e, e)
			}
			return r.wrap("R", e, e)
		}
		return e
	case *ast.ParenExpr:
		return &ast.ParenExpr{Lparen: e.Lparen, X: r.expr(e.X, m), Rparen: e.Rparen}
	case *ast.SelectorExpr:
		sel := r.info.Selections[e]
		if sel == nil {
			return e // qualified identifier
		}
		_, ptr := r.typeOf(e.X).Underlying().(*types.Pointer)
		base := rd
		if !ptr && r.addressable(e.X) {
			base = addr
		}
		switch sel.Kind() {
		case types.FieldVal:
			out := &ast.SelectorExpr{X: r.expr(e.X, base), Sel: e.Sel}
			if m == addr || isSync(sel.Type()) || !(ptr || r.addressable(e)) {
				return out
			}
			return r.wrap(heap(m), e, out)
		case types.MethodVal:
			f := sel.Obj().(*types.Func)
			if _, p := f.Type().(*types.Signature).Recv().Type().(*types.Pointer); !p && !ptr {
				base = rd // the receiver is copied
			}
			return &ast.SelectorExpr{X: r.expr(e.X, base), Sel: e.Sel}
		}
		return e
	case *ast.IndexExpr:
		if r.isType(e) {
			return e
		}
		if _, ok := r.typeOf(e.X).(*types.Signature); ok {
			return e
		}
		idx := r.expr(e.Index, rd)
		switch t := r.typeOf(e.X).Underlying().(type) {
		case *types.Map:
			f := "MR"
			if m == wr {
				f = "MW"
			}
			return &ast.IndexExpr{X: call(f, r.expr(e.X, rd), r.pos(e)), Index: idx}
		case *types.Slice, *types.Pointer:
			out := &ast.IndexExpr{X: r.expr(e.X, rd), Index: idx}
			if m == addr {
				return out
			}
			return r.wrap(heap(m), e, out)
		case *types.Array:
			if r.addressable(e.X) {
				out := &ast.IndexExpr{X: r.expr(e.X, addr), Index: idx}
				if m == addr {
					return out
				}
				return r.wrap(heap(m), e, out)
			}
			return &ast.IndexExpr{X: r.expr(e.X, rd), Index: idx}
		default:
			_ = t
			return &ast.IndexExpr{X: r.expr(e.X, rd), Index: idx}
		}
	case *ast.StarExpr:
		if r.isType(e) {
			return e
		}
		x := r.expr(e.X, rd)
		if m == addr {
			return &ast.StarExpr{X: x}
		}
		return &ast.ParenExpr{X: &ast.StarExpr{X: call(heap(m), x, r.pos(e))}}
	case *ast.SliceExpr:
		base := rd
		if _, ok := r.typeOf(e.X).Underlying().(*types.Array); ok {
			base = addr
		}
		return &ast.SliceExpr{X: r.expr(e.X, base), Low: r.expr(e.Low, rd), High: r.expr(e.High, rd), Max: r.expr(e.Max, rd), Slice3: e.Slice3}
	case *ast.CallExpr:
		return r.call(e)
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			return &ast.UnaryExpr{Op: e.Op, X: r.expr(e.X, addr)}
		}
		if e.Op == token.ARROW {
			r.unsupported(e, "channel receive")
		}
		return &ast.UnaryExpr{Op: e.Op, X: r.expr(e.X, rd)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: r.expr(e.X, rd), Op: e.Op, Y: r.expr(e.Y, rd)}
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: r.expr(e.X, rd), Type: e.Type}
	case *ast.FuncLit:
		return &ast.FuncLit{Type: e.Type, Body: r.block(e.Body)}
	case *ast.CompositeLit:
		out := &ast.CompositeLit{Type: e.Type, Incomplete: e.Incomplete}
		_, isStruct := r.typeOf(e).Underlying().(*types.Struct)
		for _, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k := kv.Key
				if !isStruct {
					k = r.expr(k, rd)
				}
				out.Elts = append(out.Elts, &ast.KeyValueExpr{Key: k, Value: r.expr(kv.Value, rd)})
			} else {
				out.Elts = append(out.Elts, r.expr(el, rd))
			}
		}
		return out
	}
	return e
}

func (r *rewriter) exprs(l []ast.Expr, m mode) (out []ast.Expr) {
	for _, e := range l {
		out = append(out, r.expr(e, m))
	}
	return
}

type unsupported string

func (r *rewriter) unsupported(n ast.Node, what string) {
	panic(unsupported(fmt.Sprintf("%s: %s", r.fset.Position(n.Pos()), what)))
}

func (r *rewriter) call(e *ast.CallExpr) ast.Expr {
	out := &ast.CallExpr{Fun: e.Fun, Ellipsis: e.Ellipsis}
	if id, ok := ast.Unparen(e.Fun).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			switch b.Name() {
			case "make", "new":
				out.Args = append([]ast.Expr{e.Args[0]}, r.exprs(e.Args[1:], rd)...)
				return out
			case "append":
				n := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(e.Args) - 1)})
				args := r.exprs(e.Args, rd)
				if e.Ellipsis.IsValid() {
					// the second argument is evaluated twice; only do so if that is harmless
					if _, ok := e.Args[1].(*ast.Ident); !ok {
						out.Args = args
						return out
					}
					n = &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{r.expr(e.Args[1], rd)}}
				}
				if tv := r.info.Types[e.Args[0]]; !tv.IsNil() {
					if _, ok := tv.Type.Underlying().(*types.Slice); ok {
						args[0] = call("App", args[0], r.pos(e), n)
					}
				}
				out.Args = args
				return out
			case "delete":
				out.Args = []ast.Expr{call("MW", r.expr(e.Args[0], rd), r.pos(e)), r.expr(e.Args[1], rd)}
				return out
			case "len", "cap":
				if _, ok := r.typeOf(e.Args[0]).Underlying().(*types.Map); ok {
					out.Args = []ast.Expr{call("MR", r.expr(e.Args[0], rd), r.pos(e))}
					return out
				}
			}
			out.Args = r.exprs(e.Args, rd)
			return out
		}
	}
	if r.isType(e.Fun) {
		out.Args = r.exprs(e.Args, rd)
		return out
	}
	out.Fun = r.expr(e.Fun, rd)
	out.Args = r.exprs(e.Args, rd)
	return out
}

// calls reports whether evaluating e runs functions, which may synchronise.
func (r *rewriter) calls(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok && !r.isType(c.Fun) {
			if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
				if _, ok := r.info.Uses[id].(*types.Builtin); ok {
					return true
				}
			}
			found = true
		}
		_, lit := n.(*ast.FuncLit)
		return !lit
	})
	return found
}

func (r *rewriter) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: r.stmts(b.List)}
}

func (r *rewriter) stmts(l []ast.Stmt) (out []ast.Stmt) {
	for _, s := range l {
		// Operands that run functions are evaluated before the variable they are assigned to is touched.
		if a, ok := s.(*ast.AssignStmt); ok && a.Tok != token.DEFINE && len(a.Rhs) == len(a.Lhs) {
			need := false
			for i := range a.Rhs {
				id, blank := a.Lhs[i].(*ast.Ident)
				need = need || r.calls(a.Rhs[i]) && !(blank && id.Name == "_")
			}
			if need {
				var pre []ast.Stmt
				rhs := make([]ast.Expr, len(a.Rhs))
				for i := range a.Rhs {
					rhs[i] = r.expr(a.Rhs[i], rd)
					if tv := r.info.Types[a.Rhs[i]]; tv.Value == nil && !tv.IsNil() {
						r.tmp++
						t := ast.NewIdent(fmt.Sprintf("tmp__%d", r.tmp))
						pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs[i]}})
						rhs[i] = t
					}
				}
				out = append(out, &ast.BlockStmt{List: append(pre, &ast.AssignStmt{Lhs: r.exprs(a.Lhs, wr), Tok: a.Tok, Rhs: rhs})})
				continue
			}
		}
		out = append(out, r.stmt(s))
	}
	return
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		return r.block(s)
	case *ast.ExprStmt:
		return &ast.ExprStmt{X: r.expr(s.X, rd)}
	case *ast.AssignStmt:
		lhs := s.Lhs
		if s.Tok != token.DEFINE {
			lhs = r.exprs(s.Lhs, wr)
		}
		return &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: r.exprs(s.Rhs, rd)}
	case *ast.IncDecStmt:
		return &ast.IncDecStmt{X: r.expr(s.X, wr), Tok: s.Tok}
	case *ast.ReturnStmt:
		return &ast.ReturnStmt{Results: r.exprs(s.Results, rd)}
	case *ast.IfStmt:
		return &ast.IfStmt{Init: r.stmt(s.Init), Cond: r.expr(s.Cond, rd), Body: r.block(s.Body), Else: r.stmt(s.Else)}
	case *ast.ForStmt:
		return &ast.ForStmt{Init: r.stmt(s.Init), Cond: r.expr(s.Cond, rd), Post: r.stmt(s.Post), Body: r.block(s.Body)}
	case *ast.RangeStmt:
		x := r.expr(s.X, rd)
		switch r.typeOf(s.X).Underlying().(type) {
		case *types.Map:
			x = call("MR", x, r.pos(s))
		case *types.Slice:
			if s.Value != nil {
				x = call("SR", x, r.pos(s))
			}
		case *types.Chan:
			r.unsupported(s, "range over a channel")
		}
		k, v := s.Key, s.Value
		if s.Tok == token.ASSIGN {
			k, v = r.expr(k, wr), r.expr(v, wr)
		}
		return &ast.RangeStmt{Key: k, Value: v, Tok: s.Tok, X: x, Body: r.block(s.Body)}
	case *ast.SwitchStmt:
		return &ast.SwitchStmt{Init: r.stmt(s.Init), Tag: r.expr(s.Tag, rd), Body: r.block(s.Body)}
	case *ast.TypeSwitchStmt:
		return &ast.TypeSwitchStmt{Init: r.stmt(s.Init), Assign: r.stmt(s.Assign), Body: r.block(s.Body)}
	case *ast.CaseClause:
		list := s.List
		if len(list) > 0 && !r.isType(list[0]) {
			list = r.exprs(list, rd)
		}
		return &ast.CaseClause{List: list, Body: r.stmts(s.Body)}
	case *ast.LabeledStmt:
		return &ast.LabeledStmt{Label: s.Label, Stmt: r.stmt(s.Stmt)}
	case *ast.DeferStmt:
		return &ast.DeferStmt{Call: r.call(s.Call).(*ast.CallExpr)}
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			out := &ast.GenDecl{Tok: token.VAR, Lparen: g.Lparen, Rparen: g.Rparen}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				out.Specs = append(out.Specs, &ast.ValueSpec{Names: v.Names, Type: v.Type, Values: r.exprs(v.Values, rd)})
			}
			return &ast.DeclStmt{Decl: out}
		}
		return s
	case *ast.GoStmt:
		r.unsupported(s, "go statement")
	case *ast.SendStmt:
		r.unsupported(s, "channel send")
	case *ast.SelectStmt:
		r.unsupported(s, "select")
	}
	return s
}

// constants finds the package variables of basic types that no function other than init writes or takes the address of.
func (r *rewriter) constants(files []*ast.File) {
	r.konst = map[types.Object]bool{}
	for _, n := range r.pkg.Scope().Names() {
		if v, ok := r.pkg.Scope().Lookup(n).(*types.Var); ok {
			if _, basic := v.Type().Underlying().(*types.Basic); basic {
				r.konst[v] = true
			}
		}
	}
	drop := func(e ast.Expr) {
		if id, ok := ast.Unparen(e).(*ast.Ident); ok {
			if v := r.pkgVar(id); v != nil {
				delete(r.konst, v)
			}
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name == "init" && fd.Recv == nil {
				continue
			}
			ast.Inspect(fd, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						drop(l)
					}
				case *ast.IncDecStmt:
					drop(n.X)
				case *ast.RangeStmt:
					drop(n.Key)
					drop(n.Value)
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						drop(n.X)
					}
				case *ast.SelectorExpr: // a method may have a pointer receiver
					drop(n.X)
				}
				return true
			})
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok {
				ast.Inspect(g, func(n ast.Node) bool {
					if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.AND {
						drop(u.X)
					}
					if fl, ok := n.(*ast.FuncLit); ok {
						ast.Inspect(fl, func(n ast.Node) bool {
							switch n := n.(type) {
							case *ast.AssignStmt:
								for _, l := range n.Lhs {
									drop(l)
								}
							case *ast.IncDecStmt:
								drop(n.X)
							}
							return true
						})
					}
					return true
				})
			}
		}
	}
}

// Package rewrites the package in src and returns the files by name, with package name name. The rewritten package
// has an additional function Reset__ that initialises its variables again.
func Package(src, name, rtPath string) (out map[string][]byte, err error) {
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(unsupported)
			if !ok {
				panic(x)
			}
			err = fmt.Errorf("cannot instrument: %s", string(u))
		}
	}()
	bp, err := build.ImportDir(src, 0)
	if err != nil {
		return nil, err
	}
	r := &rewriter{fset: token.NewFileSet(), info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}}
	var files []*ast.File
	for _, n := range bp.GoFiles {
		f, err := parser.ParseFile(r.fset, filepath.Join(src, n), nil, 0)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	conf := types.Config{Importer: importer.ForCompiler(r.fset, "source", nil)}
	r.pkg, err = conf.Check(bp.ImportPath, r.fset, files, r.info)
	if err != nil {
		return nil, err
	}
	r.constants(files)
	setters := map[*types.Var]string{}
	inits := 0
	out = map[string][]byte{}
	for i, f := range files {
		var extra []ast.Decl
		hasSync := false
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` || im.Path.Value == `"sync/atomic"` {
				hasSync = true
				if im.Name == nil {
					im.Name = ast.NewIdent(filepath.Base(strings.Trim(im.Path.Value, `"`)))
				}
				im.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rtPath)}
			}
		}
		_ = hasSync
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				d.Doc = nil
				d.Body = r.block(d.Body)
				if d.Recv == nil && d.Name.Name == "init" {
					inits++
					d.Name = ast.NewIdent(fmt.Sprintf("init__%d", inits))
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, sp := range d.Specs {
					v := sp.(*ast.ValueSpec)
					if len(v.Values) == 0 {
						continue
					}
					for k, val := range v.Values {
						v.Values[k] = r.expr(val, rd)
					}
					set := func(lhs []*ast.Ident, rhs []ast.Expr) {
						fn := fmt.Sprintf("set__%d_%d", i, len(extra))
						var l []ast.Expr
						for _, id := range lhs {
							l = append(l, ast.NewIdent(id.Name))
							if o, ok := r.info.Defs[id].(*types.Var); ok {
								setters[o] = fn
							}
						}
						extra = append(extra, &ast.FuncDecl{Name: ast.NewIdent(fn), Type: &ast.FuncType{Params: &ast.FieldList{}},
							Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: rhs}}}})
					}
					if len(v.Values) == len(v.Names) {
						for k := range v.Names {
							if v.Names[k].Name != "_" {
								set(v.Names[k:k+1], v.Values[k:k+1])
							}
						}
					} else {
						set(v.Names, v.Values)
					}
				}
			}
		}
		f.Decls = append(f.Decls, extra...)
		f.Name = ast.NewIdent(name)
		f.Comments = nil
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("rt__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rtPath)}}}}
		use := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{rtSel("Zero[int]")}}}}
		var decls []ast.Decl
		k := 0
		for k < len(f.Decls) {
			g, ok := f.Decls[k].(*ast.GenDecl)
			if !ok || g.Tok != token.IMPORT {
				break
			}
			decls = append(decls, g)
			k++
		}
		decls = append(decls, imp, use)
		f.Decls = append(decls, f.Decls[k:]...)
		var buf bytes.Buffer
		// Positions of the original would scatter line breaks; print from a fresh file set.
		if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&buf, token.NewFileSet(), f); err != nil {
			return nil, err
		}
		b, err := format.Source(buf.Bytes())
		if err != nil {
			return nil, fmt.Errorf("%v in\n%s", err, buf.Bytes())
		}
		out[fmt.Sprintf("f%d.go", i)] = b
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport rt__ %q\n\n// Reset__ initialises the package again.\nfunc Reset__() {\n", name, rtPath)
	for _, n := range r.pkg.Scope().Names() {
		if v, ok := r.pkg.Scope().Lookup(n).(*types.Var); ok {
			fmt.Fprintf(&b, "\trt__.Zero(&%s)\n", v.Name())
		}
	}
	done := map[string]bool{}
	for _, in := range r.info.InitOrder {
		if fn := setters[in.Lhs[0]]; fn != "" && !done[fn] {
			done[fn] = true
			fmt.Fprintf(&b, "\t%s()\n", fn)
		}
	}
	for i := 1; i <= inits; i++ {
		fmt.Fprintf(&b, "\tinit__%d()\n", i)
	}
	fmt.Fprintf(&b, "}\n\nfunc init() {\n")
	for i := 1; i <= inits; i++ {
		fmt.Fprintf(&b, "\tinit__%d()\n", i)
	}
	b.WriteString("}\n")
	out["reset.go"] = b.Bytes()
	return out, nil
}

// Overlay generates n instrumented copies of the package policy in src, with their own schedulers, under dir and
// writes the overlay file that puts them into the module at root.
func Overlay(root, src, dir string, n int) error {
	replace := map[string]string{}
	put := func(virtual string, content []byte) error {
		real := filepath.Join(dir, strings.ReplaceAll(strings.TrimPrefix(virtual, root), "/", "_"))
		replace[virtual] = real
		return os.WriteFile(real, content, 0o644)
	}
	rts, err := filepath.Glob(filepath.Join(root, "policyx/rt/*.go"))
	if err != nil {
		return err
	}
	const anyRT = "verif/mc/policyx/rN"
	files, err := Package(src, "policy", anyRT)
	if err != nil {
		return err
	}
	var imports, list bytes.Buffer
	for i := 0; i < n; i++ {
		rtPath := fmt.Sprintf("verif/mc/policyx/r%d", i)
		for _, f := range rts {
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			if err := put(filepath.Join(root, "policyx", fmt.Sprintf("r%d", i), filepath.Base(f)), b); err != nil {
				return err
			}
		}
		for name, b := range files {
			b = bytes.ReplaceAll(b, []byte(anyRT), []byte(rtPath))
			if err := put(filepath.Join(root, "policyx", fmt.Sprintf("p%d", i), name), b); err != nil {
				return err
			}
		}
		fmt.Fprintf(&imports, "\tp%d \"verif/mc/policyx/p%d\"\n\tr%d \"verif/mc/policyx/r%d\"\n", i, i, i, i)
		fmt.Fprintf(&list, `		{Supply: p%[1]d.SupplyAfter, Reward: p%[1]d.BlockReward, Reset: p%[1]d.Reset__, Run: func(b []func(), p int, t bool, c func(int) int) Result {
			r := r%[1]d.Run(b, p, t, c)
			return Result{r.Failure, r.Class, r.Foreign, r.Switches, r.Points, r.Trace}
		}},
`, i)
	}
	if err := put(filepath.Join(root, "policyx/none.go"), []byte(fmt.Sprintf("package policyx\n\nimport (\n%s)\n\nfunc instances() []Instance {\n\treturn []Instance{\n%s\t}\n}\n", imports.String(), list.String()))); err != nil {
		return err
	}
	b, err := json.Marshal(map[string]interface{}{"Replace": replace})
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644)
}
