package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

type rewriter struct {
	info    *types.Info
	pkg     *types.Package
	used    map[string]bool // replacement packages used in this file
	keep    map[*types.PkgName]bool
	imports map[*types.PkgName]bool
	consts  map[string]string
	step    bool
	n       int
	f       *ast.File
	fnDepth int
	mapW    map[ast.Expr]bool // map index expressions that are assigned to
	race    bool              // accesses to memory are marked
	fset    *token.FileSet
}

// sites of marked accesses, over all packages.
var sites []string

func (r *rewriter) pos(n ast.Node) string {
	pos := r.fset.Position(n.Pos())
	return fmt.Sprintf("%s/%s:%d:%d", r.pkg.Name(), filepath.Base(pos.Filename), pos.Line, pos.Column)
}

func (r *rewriter) place(n ast.Node) ast.Expr {
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.pos(n))}
}

func (r *rewriter) site(n ast.Node) ast.Expr {
	sites = append(sites, r.pos(n))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(sites))}
}

func (r *rewriter) isPtr(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (r *rewriter) isSlice(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (r *rewriter) isArray(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// shared reports whether e denotes memory that another thread may reach: through a pointer, in a slice or in a
// variable of the package.
func (r *rewriter) shared(e ast.Expr) bool {
	if tv, ok := r.info.Types[e]; ok && (tv.IsType() || tv.Value != nil) {
		return false
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.shared(x.X)
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		return ok && v.Parent() == r.pkg.Scope()
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		return r.isPtr(x.X) || s.Indirect() || r.shared(x.X)
	case *ast.IndexExpr:
		return r.isSlice(x.X) || r.isPtr(x.X) || r.isArray(x.X) && r.shared(x.X)
	}
	return false
}

// marked reports whether accesses to e are marked: not arrays as a whole.
func (r *rewriter) marked(e ast.Expr) bool {
	if !r.race || !r.shared(e) || r.isArray(e) {
		return false
	}
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	return true
}

// addr rewrites what e needs to be located, and not the access to e itself.
func (r *rewriter) addr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.addr(x.X)
		return x
	case *ast.Ident:
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			break
		}
		if r.isPtr(x.X) {
			x.X = r.expr(x.X)
		} else {
			x.X = r.addr(x.X)
		}
		return x
	case *ast.IndexExpr:
		switch {
		case r.isSlice(x.X), r.isPtr(x.X):
			x.X, x.Index = r.expr(x.X), r.expr(x.Index)
			return x
		case r.isArray(x.X):
			x.X, x.Index = r.addr(x.X), r.expr(x.Index)
			return x
		}
	}
	return r.expr(e)
}

func (r *rewriter) mark(fn string, e ast.Expr) ast.Expr {
	site := r.site(e)
	a := r.addr(e)
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(r.vrt(fn), &ast.UnaryExpr{Op: token.AND, X: a}, site)}}
}

// lhs rewrites an expression that is assigned to.
func (r *rewriter) lhs(e ast.Expr) ast.Expr {
	if r.marked(e) {
		return r.mark("Wr", e)
	}
	if r.race && !r.isMapIndex(e) {
		return r.addr(e)
	}
	return r.expr(e)
}

func (r *rewriter) isMapIndex(e ast.Expr) bool {
	x, ok := e.(*ast.IndexExpr)
	return ok && r.isMap(x.X)
}

// split turns an assignment to shared memory into reading, a choice point and writing.
func (r *rewriter) split(s ast.Stmt) ast.Stmt {
	var l, y ast.Expr
	op := token.ASSIGN
	switch x := s.(type) {
	case *ast.IncDecStmt:
		l, y = x.X, &ast.BasicLit{Kind: token.INT, Value: "1"}
		op = token.ADD_ASSIGN
		if x.Tok == token.DEC {
			op = token.SUB_ASSIGN
		}
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE {
			return nil
		}
		l, y, op = x.Lhs[0], x.Rhs[0], x.Tok
	default:
		return nil
	}
	if !r.marked(l) {
		return nil
	}
	site := r.site(l)
	p, v := r.tmp("P"), r.tmp("V")
	id := func(i *ast.Ident) ast.Expr { return ast.NewIdent(i.Name) }
	list := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: r.addr(l)}}}}
	if op == token.ASSIGN {
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vrt("Zero"), id(p))}})
	} else {
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.StarExpr{X: call(r.vrt("R"), id(p), site)}}})
	}
	list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: op, Rhs: []ast.Expr{r.expr(y)}})
	list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: call(r.vrt("Wr"), id(p), site)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
	return &ast.BlockStmt{List: list}
}

// assigned notes that e is assigned to.
func (r *rewriter) assigned(e ast.Expr) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if x, ok := e.(*ast.IndexExpr); ok && r.isMap(x.X) {
		if r.mapW == nil {
			r.mapW = map[ast.Expr]bool{}
		}
		r.mapW[x] = true
	}
}

func (r *rewriter) tmp(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("vrt%s%d", s, r.n))
}

func sel(pkg, name string) *ast.SelectorExpr {
	return &ast.SelectorExpr{X: ast.NewIdent(pkg), Sel: ast.NewIdent(name)}
}

func call(fn ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: fn, Args: args} }

func (r *rewriter) vrt(name string) ast.Expr {
	r.used["vrt"] = true
	return sel("vrt", name)
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) isMap(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) file(f *ast.File) {
	r.f = f
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			continue
		}
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.CONST {
			r.constDecl(gd)
		}
		r.node(d)
	}
	// fix imports
	kept := map[string]bool{}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		var specs []ast.Spec
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if replacement[path] == "" || (is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".")) {
				specs = append(specs, s)
				continue
			}
			var pn *types.PkgName
			if is.Name != nil {
				pn, _ = r.info.Defs[is.Name].(*types.PkgName)
			} else {
				pn, _ = r.info.Implicits[is].(*types.PkgName)
			}
			if pn == nil || r.keep[pn] {
				specs = append(specs, s)
				kept[path] = true
			}
		}
		gd.Specs = specs
	}
	var decls []ast.Decl
	var add []ast.Spec
	for _, n := range []string{"vrt", "vsync", "vatomic", "vtime", "vos", "vioutil", "vsyscall", "vmrand", "vcrand", "vcontext", "vrpc", "vsignal", "vnet"} {
		if !r.used[n] {
			continue
		}
		path := "vrt/" + n
		if n == "vrt" {
			path = "vrt"
		}
		add = append(add, &ast.ImportSpec{Name: ast.NewIdent(n), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}})
	}
	if len(add) > 0 {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: add, Rparen: 1})
	}
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT && len(gd.Specs) == 0 {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
}

func (r *rewriter) constDecl(gd *ast.GenDecl) {
	for _, s := range gd.Specs {
		vs := s.(*ast.ValueSpec)
		for i, n := range vs.Names {
			if v, ok := r.consts[r.pkg.Path()+"."+n.Name]; ok && i < len(vs.Values) {
				vs.Values[i] = &ast.BasicLit{Kind: token.INT, Value: v}
			}
		}
	}
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

// node rewrites the children of n in place.
func (r *rewriter) node(n ast.Node) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	v = v.Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		name := v.Type().Field(i).Name
		if name == "Obj" || name == "Doc" || name == "Comment" || name == "Scope" || name == "Unresolved" {
			continue
		}
		r.field(f)
	}
}

func (r *rewriter) field(f reflect.Value) {
	t := f.Type()
	switch {
	case t == exprT:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
		}
	case t == stmtT:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(r.stmt(f.Interface().(ast.Stmt))))
		}
	case t.Kind() == reflect.Slice && t.Elem() == stmtT:
		if f.Len() == 0 {
			return
		}
		old := f.Interface().([]ast.Stmt)
		f.Set(reflect.ValueOf(r.stmts(old)))
	case t.Kind() == reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			r.field(f.Index(i))
		}
	case t.Kind() == reflect.Interface && t.Implements(nodeT):
		if !f.IsNil() {
			r.node(f.Interface().(ast.Node))
		}
	case t.Kind() == reflect.Ptr && t.Implements(nodeT):
		if !f.IsNil() {
			r.node(f.Interface().(ast.Node))
		}
	}
}

func (r *rewriter) stmts(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if r.step && r.fnDepth >= 0 && touches(s) {
			out = append(out, &ast.ExprStmt{X: call(r.vrt("Step"))})
		}
		if r.race {
			if b := r.split(s); b != nil {
				out = append(out, b)
				continue
			}
		}
		out = append(out, r.stmt(s))
	}
	return out
}

// touches reports whether a statement itself (not its nested blocks) may access shared memory.
func touches(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.AssignStmt, *ast.IncDecStmt, *ast.ReturnStmt, *ast.ExprStmt:
	case *ast.IfStmt:
		_ = s
	case *ast.RangeStmt, *ast.SwitchStmt:
	default:
		return false
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
			_ = n
			found = true
			return false
		}
		return !found
	})
	return found
}

func (r *rewriter) pkgSel(x *ast.SelectorExpr) ast.Expr {
	id, ok := x.X.(*ast.Ident)
	if !ok {
		return nil
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return nil
	}
	path := pn.Imported().Path()
	rep := replacement[path]
	if rep == "" {
		return x
	}
	if replaced[rep][x.Sel.Name] {
		r.used[rep] = true
		return sel(rep, x.Sel.Name)
	}
	r.keep[pn] = true
	return x
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if r.marked(e) {
		return r.mark("R", e)
	}
	if tv, ok := r.info.Types[e]; ok && tv.Value != nil && r.race {
		r.race = false
		defer func() { r.race = true }()
	}
	switch x := e.(type) {
	case *ast.SelectorExpr:
		if y := r.pkgSel(x); y != nil {
			return y
		}
		if s := r.info.Selections[x]; r.race && s != nil {
			if s.Kind() == types.MethodVal {
				if f, ok := s.Obj().Type().(*types.Signature); ok && f.Recv() != nil && !r.isPtr(x.X) {
					if _, ok := f.Recv().Type().Underlying().(*types.Pointer); ok {
						x.X = r.addr(x.X)
						return x
					}
				}
			} else if s.Kind() == types.FieldVal && !r.isPtr(x.X) {
				x.X = r.addr(x.X)
				return x
			}
		}
	case *ast.ChanType:
		r.node(x)
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.vrt("Chan"), Index: x.Value}}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			r.node(x)
			return call(&ast.SelectorExpr{X: x.X, Sel: ast.NewIdent("Recv")})
		}
		if x.Op == token.AND && r.race {
			x.X = r.addr(x.X)
			return x
		}
	case *ast.SliceExpr:
		if r.race && r.isArray(x.X) {
			y := r.addr(x.X)
			x.X = ast.NewIdent("nil")
			r.node(x)
			x.X = y
			return x
		}
	case *ast.CallExpr:
		return r.call(x)
	case *ast.IndexExpr:
		if r.isMap(x.X) {
			fn := "MapR"
			if r.mapW[x] {
				fn = "MapW"
			}
			at := r.place(x)
			r.node(x)
			x.X = call(r.vrt(fn), x.X, at)
			return x
		}
	case *ast.FuncLit:
		r.node(x)
		return x
	case *ast.KeyValueExpr:
		// keys of struct literals are field names
		if id, ok := x.Key.(*ast.Ident); ok {
			if v, ok := r.info.Uses[id].(*types.Var); ok && v.IsField() {
				x.Value = r.expr(x.Value)
				return x
			}
		}
	}
	r.node(e)
	return e
}

// binaryCall recognises the functions of encoding/binary that read or write the bytes of a slice.
func (r *rewriter) binaryCall(x *ast.CallExpr) string {
	sel, ok := x.Fun.(*ast.SelectorExpr)
	if !ok || len(x.Args) == 0 || !r.isSlice(x.Args[0]) {
		return ""
	}
	f, ok := r.info.Uses[sel.Sel].(*types.Func)
	if !ok || f.Pkg() == nil || f.Pkg().Path() != "encoding/binary" {
		return ""
	}
	switch n := f.Name(); {
	case strings.HasPrefix(n, "Put"):
		return "BytesW"
	case strings.HasPrefix(n, "Uint"), strings.HasPrefix(n, "Varint"):
		return "BytesR"
	}
	return ""
}

func (r *rewriter) call(x *ast.CallExpr) ast.Expr {
	switch {
	case r.isBuiltin(x.Fun, "make") && r.isChan(x.Args[0]):
		t := r.typeOf(x.Args[0])
		ct, lit := x.Args[0].(*ast.ChanType)
		for lit == false {
			if p, ok := x.Args[0].(*ast.ParenExpr); ok {
				ct, lit = p.X.(*ast.ChanType)
				continue
			}
			break
		}
		if !lit {
			fatal("make of named channel type %v is not supported", t)
		}
		el := r.expr(ct.Value)
		var n ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
		fn := "MakeChan"
		if len(x.Args) > 1 {
			n = call(ast.NewIdent("int"), r.expr(x.Args[1]))
		}
		return call(&ast.IndexExpr{X: r.vrt(fn), Index: el}, n)
	case r.race && r.isBuiltin(x.Fun, "append") && r.isSlice(x.Args[0]):
		// writes behind the end of the slice, where it has room
		site := r.site(x)
		r.node(x)
		x.Args[0] = call(r.vrt("AppendTo"), x.Args[0], site)
		return call(r.vrt("Done"), x, site)
	case r.race && r.isBuiltin(x.Fun, "copy") && r.isSlice(x.Args[0]):
		site := r.site(x)
		src := r.isSlice(x.Args[1])
		r.node(x)
		x.Args[0] = call(r.vrt("CopyTo"), x.Args[0], site)
		if src {
			x.Args[1] = call(r.vrt("CopyFrom"), x.Args[1], site)
		}
		return call(r.vrt("Done"), x, site)
	case r.race && r.binaryCall(x) != "":
		fn := r.binaryCall(x)
		site := r.site(x)
		r.node(x)
		x.Args[0] = call(r.vrt(fn), x.Args[0], site)
		return x
	case r.isBuiltin(x.Fun, "close"):
		return call(&ast.SelectorExpr{X: r.expr(x.Args[0]), Sel: ast.NewIdent("Close")})
	case (r.isBuiltin(x.Fun, "delete") || r.isBuiltin(x.Fun, "clear")) && r.isMap(x.Args[0]):
		at := r.place(x)
		r.node(x)
		x.Args[0] = call(r.vrt("MapW"), x.Args[0], at)
		return x
	case r.isBuiltin(x.Fun, "len") && r.isMap(x.Args[0]):
		at := r.place(x)
		r.node(x)
		x.Args[0] = call(r.vrt("MapR"), x.Args[0], at)
		return x
	case r.isBuiltin(x.Fun, "len") && r.isChan(x.Args[0]):
		return call(&ast.SelectorExpr{X: r.expr(x.Args[0]), Sel: ast.NewIdent("Len")})
	case r.isBuiltin(x.Fun, "cap") && r.isChan(x.Args[0]):
		return call(&ast.SelectorExpr{X: r.expr(x.Args[0]), Sel: ast.NewIdent("Cap")})
	}
	r.node(x)
	return x
}

// recvOf returns the channel of a receive expression.
func recvOf(e ast.Expr) (ast.Expr, bool) {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	u, ok := e.(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW {
		return nil, false
	}
	return u.X, true
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(&ast.SelectorExpr{X: r.expr(x.Chan), Sel: ast.NewIdent("Send")}, r.expr(x.Value))}
	case *ast.IncDecStmt:
		r.assigned(x.X)
		x.X = r.lhs(x.X)
		return x
	case *ast.AssignStmt:
		for _, l := range x.Lhs {
			r.assigned(l)
		}
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if c, ok := recvOf(x.Rhs[0]); ok {
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				x.Rhs[0] = call(&ast.SelectorExpr{X: r.expr(c), Sel: ast.NewIdent("Recv2")})
				return x
			}
		}
		if r.race && x.Tok != token.DEFINE {
			for i := range x.Lhs {
				x.Lhs[i] = r.lhs(x.Lhs[i])
			}
			for i := range x.Rhs {
				x.Rhs[i] = r.expr(x.Rhs[i])
			}
			return x
		}
	case *ast.DeclStmt:
		if gd, ok := x.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					if c, ok := recvOf(vs.Values[0]); ok {
						vs.Values[0] = call(&ast.SelectorExpr{X: c, Sel: ast.NewIdent("Recv2")})
					}
				}
			}
		}
		if gd, ok := x.Decl.(*ast.GenDecl); ok && gd.Tok == token.CONST {
			r.constDecl(gd)
		}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		if c, ok := r.call(x.Call).(*ast.CallExpr); ok {
			x.Call = c
			return x
		}
		fatal("%s: deferred call is not supported", r.pos(x))
	case *ast.LabeledStmt:
		switch y := x.Stmt.(type) {
		case *ast.SelectStmt:
			return r.selectStmt(y, x.Label)
		}
		x.Stmt = r.stmt(x.Stmt)
		return x
	case *ast.SelectStmt:
		return r.selectStmt(x, nil)
	case *ast.RangeStmt:
		if r.isMap(x.X) {
			return r.rangeMap(x)
		}
		if r.isChan(x.X) {
			return r.rangeChan(x)
		}
	}
	r.node(s)
	return s
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		r.node(fl)
		return &ast.ExprStmt{X: call(r.vrt("Go"), fl)}
	}
	var pre []ast.Stmt
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, b := r.info.Uses[id].(*types.Builtin); b {
			inner := r.call(c)
			return &ast.ExprStmt{X: call(r.vrt("Go"), funcLit(&ast.ExprStmt{X: inner}))}
		}
	}
	consts := make([]bool, len(c.Args))
	for i, a := range c.Args {
		tv := r.info.Types[a]
		consts[i] = tv.Value != nil || tv.IsNil()
	}
	fn := r.expr(c.Fun)
	fv := r.tmp("F")
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{fv}, Tok: token.DEFINE, Rhs: []ast.Expr{fn}})
	var args []ast.Expr
	for i, a := range c.Args {
		a2 := r.expr(a)
		if consts[i] {
			args = append(args, a2)
			continue
		}
		av := r.tmp("A")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{av}, Tok: token.DEFINE, Rhs: []ast.Expr{a2}})
		args = append(args, ast.NewIdent(av.Name))
	}
	nc := &ast.CallExpr{Fun: ast.NewIdent(fv.Name), Args: args}
	if c.Ellipsis != 0 {
		nc.Ellipsis = 1
	}
	pre = append(pre, &ast.ExprStmt{X: call(r.vrt("Go"), funcLit(&ast.ExprStmt{X: nc}))})
	return &ast.BlockStmt{List: pre}
}

func funcLit(body ...ast.Stmt) *ast.FuncLit {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) rangeMap(x *ast.RangeStmt) ast.Stmt {
	ev := r.tmp("E")
	m := r.expr(x.X)
	e := func() ast.Expr { return ast.NewIdent(ev.Name) }
	body := []ast.Stmt{&ast.IfStmt{
		Cond: &ast.UnaryExpr{Op: token.NOT, X: call(&ast.SelectorExpr{X: e(), Sel: ast.NewIdent("Live")})},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}},
	}}
	var lhs, rhs []ast.Expr
	if !isBlank(x.Key) {
		r.assigned(x.Key)
		lhs = append(lhs, r.expr(x.Key))
		rhs = append(rhs, &ast.SelectorExpr{X: e(), Sel: ast.NewIdent("Key")})
	}
	if !isBlank(x.Value) {
		lhs = append(lhs, r.expr(x.Value))
		rhs = append(rhs, call(&ast.SelectorExpr{X: e(), Sel: ast.NewIdent("Val")}))
	}
	if len(lhs) > 0 {
		body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: x.Tok, Rhs: rhs})
	}
	r.node(x.Body)
	body = append(body, x.Body.List...)
	return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ev, Tok: token.DEFINE, X: call(r.vrt("MapEntries"), m, r.place(x)), Body: &ast.BlockStmt{List: body}}
}

func (r *rewriter) rangeChan(x *ast.RangeStmt) ast.Stmt {
	c := r.expr(x.X)
	cv, ov := r.tmp("C"), r.tmp("Ok")
	vv := r.tmp("V")
	var body []ast.Stmt
	var first ast.Expr = vv
	if isBlank(x.Key) {
		first = ast.NewIdent("_")
	}
	body = append(body,
		&ast.AssignStmt{Lhs: []ast.Expr{first, ov}, Tok: token.DEFINE, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: ast.NewIdent(cv.Name), Sel: ast.NewIdent("Recv2")})}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ov.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
	if !isBlank(x.Key) {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(x.Key)}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(vv.Name)}})
	}
	r.node(x.Body)
	body = append(body, x.Body.List...)
	// the channel expression is evaluated once
	return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{cv}, Tok: token.DEFINE, Rhs: []ast.Expr{c}}, Body: &ast.BlockStmt{List: body}}
}

// selectStmt becomes switch c0, ... := vrt.OnRecv(ch), ...; vrt.Select(def, c0, ...) { case 0: v := c0.V; ... }.
func (r *rewriter) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	var clauses []ast.Stmt
	args := []ast.Expr{ast.NewIdent("false")}
	idx := 0
	for _, cs := range x.Body.List {
		cc := cs.(*ast.CommClause)
		if cc.Comm == nil {
			args[0] = ast.NewIdent("true")
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: r.stmts(cc.Body)})
			continue
		}
		cv := r.tmp("S")
		var head []ast.Stmt
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{cv}, Tok: token.DEFINE, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: &ast.ParenExpr{X: r.expr(c.Chan)}, Sel: ast.NewIdent("OnSend")}, r.expr(c.Value))}})
		case *ast.ExprStmt:
			ch, ok := recvOf(c.X)
			if !ok {
				fatal("select case is not a receive")
			}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{cv}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vrt("OnRecv"), r.expr(ch))}})
		case *ast.AssignStmt:
			ch, ok := recvOf(c.Rhs[0])
			if !ok {
				fatal("select case is not a receive")
			}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{cv}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vrt("OnRecv"), r.expr(ch))}})
			var lhs, rhs []ast.Expr
			for i, l := range c.Lhs {
				if isBlank(l) {
					continue
				}
				f := "V"
				if i == 1 {
					f = "Ok"
				}
				lhs = append(lhs, r.expr(l))
				rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(cv.Name), Sel: ast.NewIdent(f)})
			}
			if len(lhs) > 0 {
				head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: c.Tok, Rhs: rhs})
			}
		}
		args = append(args, ast.NewIdent(cv.Name))
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: append(head, r.stmts(cc.Body)...)})
		idx++
	}
	sw := &ast.SwitchStmt{Tag: call(r.vrt("Select"), args...), Body: &ast.BlockStmt{List: append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"vrt: select"`})}}})}}
	if len(pre) > 0 {
		init := &ast.AssignStmt{Tok: token.DEFINE}
		for _, p := range pre {
			init.Lhs = append(init.Lhs, p.(*ast.AssignStmt).Lhs...)
			init.Rhs = append(init.Rhs, p.(*ast.AssignStmt).Rhs...)
		}
		sw.Init = init
	}
	if label != nil {
		return &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return sw
}
