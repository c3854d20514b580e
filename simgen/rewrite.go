package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgRW struct {
	info     *types.Info
	pkg      *types.Package
	fset     *token.FileSet
	path     string
	noY      bool
	captured map[types.Object]bool

	// per file
	file       *ast.File
	used       map[string]string // import path -> name still used
	shadowUsed map[string]bool
	rt         bool
	tmp        int
	inits      []initFn
}

type initFn struct {
	order int
	name  string
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: a}
}
func intLit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }
func define(n string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}
func block(s ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: s} }

func (r *pkgRW) rtf(n string) ast.Expr {
	r.rt = true
	return &ast.SelectorExpr{X: id("zz_rt"), Sel: id(n)}
}

func (r *pkgRW) fresh(p string) string {
	r.tmp++
	return fmt.Sprintf("zz_%s%d", p, r.tmp)
}

func (r *pkgRW) site(n ast.Node) ast.Expr {
	p := r.fset.Position(n.Pos())
	f := p.Filename
	for _, m := range []string{"/orig/agent/", "/orig/"} {
		if i := strings.Index(f, m); i >= 0 {
			f = f[i+len(m):]
			break
		}
	}
	if i := strings.Index(f, "/src/container/"); i >= 0 {
		f = f[i+5:]
	}
	sites = append(sites, fmt.Sprintf("%s:%d", f, p.Line))
	return intLit(len(sites) - 1)
}

func (r *pkgRW) y(n ast.Node) ast.Stmt {
	return &ast.ExprStmt{X: call(r.rtf("Y"), r.site(n))}
}

// ---------------------------------------------------------------- expressions

func (r *pkgRW) pkgOf(x ast.Expr) *types.PkgName {
	if i, ok := x.(*ast.Ident); ok {
		if pn, ok := r.info.Uses[i].(*types.PkgName); ok {
			return pn
		}
	}
	return nil
}

func (r *pkgRW) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *pkgRW) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(i); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *pkgRW) builtin(f ast.Expr) string {
	for {
		p, ok := f.(*ast.ParenExpr)
		if !ok {
			break
		}
		f = p.X
	}
	if i, ok := f.(*ast.Ident); ok {
		if b, ok := r.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *pkgRW) fieldList(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *pkgRW) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.Ident, *ast.BasicLit, *ast.BadExpr:
		return e
	case *ast.SelectorExpr:
		if pn := r.pkgOf(e.X); pn != nil {
			path := pn.Imported().Path()
			if ex := exports[path]; ex != nil && ex[e.Sel.Name] {
				r.shadowUsed[path] = true
				return &ast.SelectorExpr{X: id("zz_" + shadows[path]), Sel: id(e.Sel.Name)}
			}
			r.used[path] = pn.Name()
			return e
		}
		e.X = r.expr(e.X)
		return e
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(r.rtf("Recv"), r.expr(e.X))
		}
		e.X = r.expr(e.X)
		return e
	case *ast.BinaryExpr:
		e.X = r.expr(e.X)
		e.Y = r.expr(e.Y)
		return e
	case *ast.IndexExpr:
		m := isMap(r.typeOf(e.X))
		s := ast.Expr(nil)
		if m && !r.noY {
			s = r.site(e)
		}
		e.X = r.expr(e.X)
		e.Index = r.expr(e.Index)
		if m && !r.noY {
			e.X = call(r.rtf("MapRd"), e.X, s)
		}
		return e
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		e.Low = r.expr(e.Low)
		e.High = r.expr(e.High)
		e.Max = r.expr(e.Max)
		return e
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		e.Type = r.expr(e.Type)
		return e
	case *ast.KeyValueExpr:
		e.Key = r.expr(e.Key)
		e.Value = r.expr(e.Value)
		return e
	case *ast.CompositeLit:
		e.Type = r.expr(e.Type)
		r.exprs(e.Elts)
		return e
	case *ast.FuncLit:
		e.Type = r.expr(e.Type).(*ast.FuncType)
		r.body(e.Body)
		return e
	case *ast.CallExpr:
		switch r.builtin(e.Fun) {
		case "close":
			return call(r.rtf("Close"), r.expr(e.Args[0]))
		case "delete", "clear":
			if isMap(r.typeOf(e.Args[0])) && !r.noY {
				s := r.site(e)
				r.exprs(e.Args)
				e.Args[0] = call(r.rtf("MapWr"), e.Args[0], s)
				return e
			}
		case "make":
			t := r.typeOf(e.Args[0])
			if t != nil && len(e.Args) >= 2 {
				var el types.Type
				switch u := t.Underlying().(type) {
				case *types.Slice:
					el = u.Elem()
				case *types.Chan:
					el = u.Elem()
				}
				if el != nil {
					sz := (&types.StdSizes{WordSize: 8, MaxAlign: 8}).Sizeof(el)
					dyn := make([]bool, len(e.Args))
					for i := 1; i < len(e.Args); i++ {
						tv := r.info.Types[e.Args[i]]
						dyn[i] = tv.Value == nil
					}
					for i := range e.Args {
						e.Args[i] = r.expr(e.Args[i])
						if dyn[i] {
							e.Args[i] = call(r.rtf("MkLen"), e.Args[i], intLit(int(sz)))
						}
					}
					return e
				}
			}
		}
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
		return e
	case *ast.ArrayType:
		e.Len = r.expr(e.Len)
		e.Elt = r.expr(e.Elt)
		return e
	case *ast.Ellipsis:
		e.Elt = r.expr(e.Elt)
		return e
	case *ast.MapType:
		e.Key = r.expr(e.Key)
		e.Value = r.expr(e.Value)
		return e
	case *ast.ChanType:
		e.Value = r.expr(e.Value)
		return e
	case *ast.FuncType:
		r.fieldList(e.TypeParams)
		r.fieldList(e.Params)
		r.fieldList(e.Results)
		return e
	case *ast.StructType:
		r.fieldList(e.Fields)
		return e
	case *ast.InterfaceType:
		r.fieldList(e.Methods)
		return e
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
		r.exprs(e.Indices)
		return e
	}
	die("unhandled expression %T in %s", e, r.path)
	return nil
}

// lhs rewrites an assignment target.
func (r *pkgRW) lhs(e ast.Expr) ast.Expr {
	if p, ok := e.(*ast.ParenExpr); ok {
		p.X = r.lhs(p.X)
		return p
	}
	if ix, ok := e.(*ast.IndexExpr); ok && isMap(r.typeOf(ix.X)) && !r.noY {
		s := r.site(ix)
		ix.X = call(r.rtf("MapWr"), r.expr(ix.X), s)
		ix.Index = r.expr(ix.Index)
		return ix
	}
	return r.expr(e)
}

// shared: can another goroutine reach the location?
func (r *pkgRW) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.Ident:
		if e.Name == "_" {
			return false
		}
		v, ok := r.info.ObjectOf(e).(*types.Var)
		if !ok {
			return false
		}
		return v.Parent() == r.pkg.Scope() || r.captured[v]
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		if r.pkgOf(e.X) != nil {
			return true
		}
		if sel := r.info.Selections[e]; sel != nil && sel.Indirect() {
			return true
		}
		if t := r.typeOf(e.X); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				return true
			}
		}
		return r.shared(e.X)
	case *ast.IndexExpr:
		t := r.typeOf(e.X)
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return r.shared(e.X)
		}
	}
	return false
}

func isMapIndex(r *pkgRW, e ast.Expr) bool {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	ix, ok := e.(*ast.IndexExpr)
	return ok && isMap(r.typeOf(ix.X))
}

// ---------------------------------------------------------------- statements

func (r *pkgRW) body(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *pkgRW) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		if !r.noY {
			out = append(out, r.y(s))
		}
		out = append(out, r.stmt(s, true)...)
	}
	return out
}

var binOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func (r *pkgRW) rmw(at ast.Node, lhs ast.Expr, op token.Token, rhs ast.Expr) []ast.Stmt {
	y := r.y(at)
	p, t := r.fresh("p"), r.fresh("t")
	return []ast.Stmt{block(
		define(p, &ast.UnaryExpr{Op: token.AND, X: r.expr(lhs)}),
		define(t, &ast.BinaryExpr{X: &ast.StarExpr{X: id(p)}, Op: op, Y: rhs}),
		y,
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: id(p)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}},
	)}
}

func (r *pkgRW) stmt1(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := r.stmt(s, false)
	if len(l) == 1 {
		return l[0]
	}
	return block(l...)
}

func (r *pkgRW) recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// stmt rewrites one statement; split permits turning it into several.
func (r *pkgRW) stmt(s ast.Stmt, split bool) []ast.Stmt {
	one := func(x ast.Stmt) []ast.Stmt { return []ast.Stmt{x} }
	switch s := s.(type) {
	case *ast.EmptyStmt, *ast.BranchStmt, *ast.BadStmt:
		return one(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
		return one(s)
	case *ast.SendStmt:
		return one(&ast.ExprStmt{X: call(call(r.rtf("SendTo"), r.expr(s.Chan)), r.expr(s.Value))})
	case *ast.IncDecStmt:
		if split && !r.noY && r.shared(s.X) && !isMapIndex(r, s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return r.rmw(s, s.X, op, intLit(1))
		}
		s.X = r.lhs(s.X)
		return one(s)
	case *ast.AssignStmt:
		return r.assign(s, split)
	case *ast.DeclStmt:
		r.genDecl(s.Decl.(*ast.GenDecl))
		return one(s)
	case *ast.GoStmt:
		return one(r.goStmt(s))
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
		return one(s)
	case *ast.ReturnStmt:
		r.exprs(s.Results)
		return one(s)
	case *ast.BlockStmt:
		r.body(s)
		return one(s)
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = r.stmt1(s.Init)
		}
		s.Cond = r.expr(s.Cond)
		r.body(s.Body)
		if s.Else != nil {
			s.Else = r.stmt1(s.Else)
		}
		return one(s)
	case *ast.ForStmt:
		y := r.emptyY(s.Body)
		if s.Init != nil {
			s.Init = r.stmt1(s.Init)
		}
		s.Cond = r.expr(s.Cond)
		if s.Post != nil {
			s.Post = r.stmt1(s.Post)
		}
		r.body(s.Body)
		if y != nil {
			s.Body.List = append(s.Body.List, y)
		}
		return one(s)
	case *ast.RangeStmt:
		pre, st := r.rangeStmt(s)
		if len(pre) > 0 {
			return one(block(append(pre, st)...))
		}
		return one(st)
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = r.stmt1(s.Init)
		}
		s.Tag = r.expr(s.Tag)
		r.clauses(s.Body)
		return one(s)
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = r.stmt1(s.Init)
		}
		s.Assign = r.stmt1(s.Assign)
		r.clauses(s.Body)
		return one(s)
	case *ast.SelectStmt:
		pre, st := r.selectStmt(s)
		return one(block(append(pre, st)...))
	case *ast.LabeledStmt:
		switch in := s.Stmt.(type) {
		case *ast.RangeStmt:
			pre, st := r.rangeStmt(in)
			s.Stmt = st
			if len(pre) > 0 {
				return one(block(append(pre, s)...))
			}
			return one(s)
		case *ast.SelectStmt:
			pre, st := r.selectStmt(in)
			s.Stmt = st
			return one(block(append(pre, s)...))
		}
		s.Stmt = r.stmt1(s.Stmt)
		return one(s)
	}
	die("unhandled statement %T in %s", s, r.path)
	return nil
}

func (r *pkgRW) emptyY(b *ast.BlockStmt) ast.Stmt {
	if len(b.List) == 0 && !r.noY {
		return r.y(b)
	}
	return nil
}

func (r *pkgRW) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		r.exprs(cc.List)
		cc.Body = r.stmts(cc.Body)
	}
}

func (r *pkgRW) trivial(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if ok && (tv.Value != nil || tv.IsNil()) {
		return true
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.trivial(e.X)
	case *ast.BasicLit, *ast.FuncLit:
		return true
	case *ast.Ident:
		return !r.shared(e)
	case *ast.CompositeLit:
		for _, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				x = kv.Value
			}
			if !r.trivial(x) {
				return false
			}
		}
		return true
	case *ast.UnaryExpr:
		return e.Op != token.ARROW && r.trivial(e.X)
	}
	return false
}

func (r *pkgRW) assign(s *ast.AssignStmt, split bool) []ast.Stmt {
	one := func(x ast.Stmt) []ast.Stmt { return []ast.Stmt{x} }
	// v, ok = <-ch
	if len(s.Rhs) == 1 && len(s.Lhs) == 2 {
		if u := r.recvOf(s.Rhs[0]); u != nil {
			s.Rhs[0] = call(r.rtf("Recv2"), r.expr(u.X))
			for i := range s.Lhs {
				if s.Tok == token.ASSIGN {
					s.Lhs[i] = r.lhs(s.Lhs[i])
				}
			}
			return one(s)
		}
	}
	if op, ok := binOf[s.Tok]; ok {
		if split && !r.noY && r.shared(s.Lhs[0]) && !isMapIndex(r, s.Lhs[0]) {
			rhs := r.expr(s.Rhs[0])
			return r.rmw(s, s.Lhs[0], op, &ast.ParenExpr{X: rhs})
		}
		s.Lhs[0] = r.lhs(s.Lhs[0])
		r.exprs(s.Rhs)
		return one(s)
	}
	if s.Tok == token.DEFINE {
		r.exprs(s.Rhs)
		return one(s)
	}
	if split && !r.noY {
		if len(s.Lhs) == 1 && len(s.Rhs) == 1 && r.shared(s.Lhs[0]) && !isMapIndex(r, s.Lhs[0]) && !r.trivial(s.Rhs[0]) {
			tv := r.info.Types[s.Rhs[0]]
			b, basic := tv.Type.(*types.Basic)
			if !(basic && b.Info()&types.IsUntyped != 0) {
				y := r.y(s)
				t := r.fresh("t")
				rhs := r.expr(s.Rhs[0])
				l := r.expr(s.Lhs[0])
				return one(block(define(t, rhs), y, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}}))
			}
		}
		if len(s.Lhs) > 1 && len(s.Rhs) == 1 {
			if tup, ok := r.info.Types[s.Rhs[0]].Type.(*types.Tuple); ok && tup.Len() == len(s.Lhs) {
				any := false
				for _, l := range s.Lhs {
					any = any || r.shared(l)
				}
				if _, isCall := s.Rhs[0].(*ast.CallExpr); any && isCall {
					y := r.y(s)
					var ts []ast.Expr
					var us []ast.Expr
					for range s.Lhs {
						n := r.fresh("t")
						ts = append(ts, id(n))
						us = append(us, id(n))
					}
					rhs := r.expr(s.Rhs[0])
					for i := range s.Lhs {
						s.Lhs[i] = r.lhs(s.Lhs[i])
					}
					return one(block(&ast.AssignStmt{Lhs: ts, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}, y,
						&ast.AssignStmt{Lhs: s.Lhs, Tok: token.ASSIGN, Rhs: us}))
				}
			}
		}
	}
	for i := range s.Lhs {
		s.Lhs[i] = r.lhs(s.Lhs[i])
	}
	r.exprs(s.Rhs)
	return one(s)
}

func (r *pkgRW) goStmt(s *ast.GoStmt) ast.Stmt {
	site := r.site(s)
	c := s.Call
	mk := func(body ...ast.Stmt) ast.Expr {
		return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(body...)}
	}
	if r.builtin(c.Fun) != "" {
		return &ast.ExprStmt{X: call(r.rtf("Go"), site, mk(&ast.ExprStmt{X: r.expr(c)}))}
	}
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: call(r.rtf("Go"), site, r.expr(fl))}
	}
	var pre []ast.Stmt
	f := r.fresh("f")
	pre = append(pre, define(f, r.expr(c.Fun)))
	var args []ast.Expr
	for _, a := range c.Args {
		tv := r.info.Types[a]
		b, basic := tv.Type.(*types.Basic)
		untyped := basic && b.Info()&types.IsUntyped != 0
		if tv.Value != nil || tv.IsNil() || untyped {
			args = append(args, r.expr(a))
			continue
		}
		n := r.fresh("a")
		pre = append(pre, define(n, r.expr(a)))
		args = append(args, id(n))
	}
	cc := &ast.CallExpr{Fun: id(f), Args: args}
	if c.Ellipsis.IsValid() {
		cc.Ellipsis = 1
	}
	pre = append(pre, &ast.ExprStmt{X: call(r.rtf("Go"), site, mk(&ast.ExprStmt{X: cc}))})
	return block(pre...)
}

func (r *pkgRW) rangeStmt(s *ast.RangeStmt) ([]ast.Stmt, ast.Stmt) {
	t := r.typeOf(s.X)
	y := r.emptyY(s.Body)
	fin := func() {
		if y != nil {
			s.Body.List = append(s.Body.List, y)
		}
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		i, ok := e.(*ast.Ident)
		return ok && i.Name == "_"
	}
	if t != nil {
		switch t.Underlying().(type) {
		case *types.Map:
			site := r.site(s.X)
			m, k, v, ok := r.fresh("m"), r.fresh("k"), r.fresh("v"), r.fresh("ok")
			pre := []ast.Stmt{define(m, r.expr(s.X))}
			keyed, valued := !blank(s.Key), !blank(s.Value)
			if s.Tok == token.DEFINE && (keyed || valued) {
				kn, vn := ast.Expr(id("_")), ast.Expr(id("_"))
				if keyed {
					kn = s.Key
				}
				if valued {
					vn = s.Value
				}
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{kn, vn}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rtf("ZeroKV"), id(m))}})
				for _, n := range []ast.Expr{kn, vn} {
					if i := n.(*ast.Ident); i.Name != "_" {
						pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(i.Name)}})
					}
				}
			}
			var lk, lv ast.Expr = id("_"), id("_")
			if keyed {
				lk = s.Key
				if s.Tok == token.ASSIGN {
					lk = r.lhs(s.Key)
				} else {
					lk = id(s.Key.(*ast.Ident).Name)
				}
			}
			if valued {
				if s.Tok == token.ASSIGN {
					lv = r.lhs(s.Value)
				} else {
					lv = id(s.Value.(*ast.Ident).Name)
				}
			}
			r.body(s.Body)
			fin()
			var body []ast.Stmt
			rd := ast.Expr(id(m))
			if !r.noY {
				rd = call(r.rtf("MapRd"), id(m), site)
			}
			body = append(body,
				&ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: rd, Index: id(k)}}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: block(&ast.BranchStmt{Tok: token.CONTINUE})},
				&ast.AssignStmt{Lhs: []ast.Expr{lk, lv}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(k), id(v)}},
			)
			body = append(body, s.Body.List...)
			return pre, &ast.RangeStmt{Key: id("_"), Value: id(k), Tok: token.DEFINE, X: call(r.rtf("Keys"), id(m)), Body: block(body...)}
		case *types.Chan:
			c, v, ok := r.fresh("c"), r.fresh("v"), r.fresh("ok")
			pre := []ast.Stmt{define(c, r.expr(s.X))}
			var body []ast.Stmt
			body = append(body,
				&ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rtf("Recv2"), id(c))}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: block(&ast.BranchStmt{Tok: token.BREAK})})
			if !blank(s.Key) {
				if s.Tok == token.DEFINE {
					body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{id(v)}})
				} else {
					body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
				}
			} else {
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
			}
			r.body(s.Body)
			fin()
			body = append(body, s.Body.List...)
			return pre, &ast.ForStmt{Body: block(body...)}
		}
	}
	if s.Tok == token.ASSIGN {
		if s.Key != nil {
			s.Key = r.lhs(s.Key)
		}
		if s.Value != nil {
			s.Value = r.lhs(s.Value)
		}
	}
	s.X = r.expr(s.X)
	r.body(s.Body)
	fin()
	return nil, s
}

func (r *pkgRW) selectStmt(s *ast.SelectStmt) ([]ast.Stmt, ast.Stmt) {
	sel := r.fresh("s")
	hasDef := "false"
	for _, c := range s.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDef = "true"
		}
	}
	pre := []ast.Stmt{define(sel, call(r.rtf("NewSel"), id(hasDef)))}
	sw := &ast.SwitchStmt{Tag: call(&ast.SelectorExpr{X: id(sel), Sel: id("Do")}), Body: block()}
	n := 0
	def := false
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		var head []ast.Stmt
		var label ast.Expr
		switch cm := cc.Comm.(type) {
		case nil:
			label = &ast.UnaryExpr{Op: token.SUB, X: intLit(1)}
			def = true
		case *ast.SendStmt:
			pre = append(pre, &ast.ExprStmt{X: call(call(r.rtf("SelSend"), id(sel), r.expr(cm.Chan)), r.expr(cm.Value))})
			label = intLit(n)
			n++
		case *ast.ExprStmt:
			u := r.recvOf(cm.X)
			pre = append(pre, &ast.ExprStmt{X: call(r.rtf("SelRecv"), id(sel), r.expr(u.X))})
			label = intLit(n)
			n++
		case *ast.AssignStmt:
			u := r.recvOf(cm.Rhs[0])
			rc := r.fresh("r")
			pre = append(pre, define(rc, call(r.rtf("SelRecv"), id(sel), r.expr(u.X))))
			a := &ast.AssignStmt{Tok: cm.Tok}
			for i, l := range cm.Lhs {
				if cm.Tok == token.ASSIGN {
					l = r.lhs(l)
				}
				a.Lhs = append(a.Lhs, l)
				a.Rhs = append(a.Rhs, &ast.SelectorExpr{X: id(rc), Sel: id([]string{"V", "OK"}[i])})
			}
			head = append(head, a)
			label = intLit(n)
			n++
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{label}, Body: append(head, r.stmts(cc.Body)...)})
	}
	_ = def
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"select: unreachable"`})}}})
	return pre, sw
}

// genDecl rewrites a local or package-level declaration in place (not package vars).
func (r *pkgRW) genDecl(d *ast.GenDecl) {
	for _, sp := range d.Specs {
		switch sp := sp.(type) {
		case *ast.TypeSpec:
			r.fieldList(sp.TypeParams)
			sp.Type = r.expr(sp.Type)
		case *ast.ValueSpec:
			sp.Type = r.expr(sp.Type)
			if len(sp.Values) == 1 && len(sp.Names) == 2 {
				if u := r.recvOf(sp.Values[0]); u != nil {
					sp.Values[0] = call(r.rtf("Recv2"), r.expr(u.X))
					continue
				}
			}
			r.exprs(sp.Values)
		}
	}
}

// ---------------------------------------------------------------- package

func (r *pkgRW) findCaptured(files []*ast.File) {
	r.captured = map[types.Object]bool{}
	declFn := map[types.Object]ast.Node{}
	var stack []ast.Node
	cur := func() ast.Node {
		if len(stack) == 0 {
			return nil
		}
		return stack[len(stack)-1]
	}
	var walk func(n ast.Node, pass int)
	walk = func(n ast.Node, pass int) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				if x == n {
					return true
				}
				stack = append(stack, x)
				walk(x, pass)
				stack = stack[:len(stack)-1]
				return false
			case *ast.Ident:
				if pass == 0 {
					if o, ok := r.info.Defs[x].(*types.Var); ok && o != nil {
						declFn[o] = cur()
					}
				} else if o, ok := r.info.Uses[x].(*types.Var); ok && !o.IsField() {
					if d, ok := declFn[o]; ok && d != nil && d != cur() {
						r.captured[o] = true
					}
				}
			}
			return true
		})
	}
	for _, f := range files {
		walk(f, 0)
	}
	for _, f := range files {
		walk(f, 1)
	}
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func (r *pkgRW) rewrite(files []*ast.File, names []string, outDir string) {
	r.findCaptured(files)
	initOf := map[ast.Expr]int{}
	for i, in := range r.info.InitOrder {
		initOf[in.Rhs] = i
	}
	type initializer struct {
		order int
		name  string
	}
	var inits []initializer
	var initFns []string
	var varNames []string
	must(os.MkdirAll(outDir, 0755))
	for fi, f := range files {
		r.file = f
		r.used = map[string]string{}
		r.shadowUsed = map[string]bool{}
		r.rt = false
		f.Comments = nil
		f.Doc = nil
		var extra []ast.Decl
		var decls []ast.Decl
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				d.Doc = nil
				if d.Recv != nil {
					r.fieldList(d.Recv)
				}
				d.Type = r.expr(d.Type).(*ast.FuncType)
				if d.Body != nil {
					r.body(d.Body)
				}
				if d.Recv == nil && d.Name.Name == "init" {
					n := fmt.Sprintf("zzInitFn_%d_%d", fi, len(initFns))
					d.Name = id(n)
					initFns = append(initFns, n)
				}
				decls = append(decls, d)
			case *ast.GenDecl:
				d.Doc = nil
				if d.Tok == token.IMPORT {
					continue
				}
				if d.Tok != token.VAR {
					r.genDecl(d)
					decls = append(decls, d)
					continue
				}
				for _, sp := range d.Specs {
					vs := sp.(*ast.ValueSpec)
					vs.Doc, vs.Comment = nil, nil
					allBlank := true
					for _, n := range vs.Names {
						if n.Name != "_" {
							allBlank = false
						}
					}
					if allBlank && len(vs.Values) > 0 {
						calls := false
						for _, v := range vs.Values {
							calls = calls || hasCall(v)
						}
						if !calls {
							vs.Type = r.expr(vs.Type)
							r.exprs(vs.Values)
							decls = append(decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{vs}})
							continue
						}
					}
					// initialisers become functions
					mkInit := func(rhs ast.Expr, lhs []ast.Expr) {
						o, ok := initOf[rhs]
						if !ok {
							o = len(r.info.InitOrder) + len(inits)
						}
						n := fmt.Sprintf("zzInit_%d_%d", fi, len(inits))
						var body []ast.Stmt
						if !r.noY {
							body = append(body, r.y(rhs))
						}
						var rr ast.Expr
						if u := r.recvOf(rhs); u != nil && len(lhs) == 2 {
							rr = call(r.rtf("Recv2"), r.expr(u.X))
						} else {
							rr = r.expr(rhs)
						}
						body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rr}})
						extra = append(extra, &ast.FuncDecl{Name: id(n), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(body...)})
						inits = append(inits, initializer{o, n})
					}
					types_ := map[string]ast.Expr{}
					for _, n := range vs.Names {
						if n.Name == "_" {
							continue
						}
						if vs.Type == nil {
							types_[n.Name] = r.typeExpr(r.info.Defs[n].Type())
						}
						varNames = append(varNames, n.Name)
					}
					if len(vs.Values) == 1 && len(vs.Names) > 1 {
						var lhs []ast.Expr
						for _, n := range vs.Names {
							lhs = append(lhs, id(n.Name))
						}
						mkInit(vs.Values[0], lhs)
					} else {
						for i, v := range vs.Values {
							mkInit(v, []ast.Expr{id(vs.Names[i].Name)})
						}
					}
					var te ast.Expr
					if vs.Type != nil {
						te = r.expr(vs.Type)
					}
					for _, n := range vs.Names {
						if n.Name == "_" {
							continue
						}
						t := te
						if t == nil {
							t = types_[n.Name]
						}
						decls = append(decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n.Name)}, Type: t}}})
					}
				}
			}
		}
		decls = append(decls, extra...)
		// imports
		imp := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1}
		seen := map[string]bool{}
		for _, is := range f.Imports {
			path, _ := strconv.Unquote(is.Path.Value)
			is.Doc, is.Comment = nil, nil
			np := path
			if s, ok := stdRewritten[path]; ok {
				np = s
			}
			blank := is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".")
			if !blank && r.used[path] == "" {
				continue
			}
			seen[path] = true
			ns := &ast.ImportSpec{Name: is.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(np)}}
			if is.Name == nil {
				ns.Name = id(r.used[path])
			}
			imp.Specs = append(imp.Specs, ns)
		}
		var more []string
		for p, n := range r.used {
			if !seen[p] {
				more = append(more, p+" "+n)
			}
		}
		sort.Strings(more)
		for _, m := range more {
			k := strings.SplitN(m, " ", 2)
			np := k[0]
			if s, ok := stdRewritten[np]; ok {
				np = s
			}
			imp.Specs = append(imp.Specs, &ast.ImportSpec{Name: id(k[1]), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(np)}})
		}
		var sh []string
		for p := range r.shadowUsed {
			sh = append(sh, p)
		}
		sort.Strings(sh)
		for _, p := range sh {
			imp.Specs = append(imp.Specs, &ast.ImportSpec{Name: id("zz_" + shadows[p]), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verifsim/shadow/" + shadows[p])}})
		}
		if r.rt {
			imp.Specs = append(imp.Specs, &ast.ImportSpec{Name: id("zz_rt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifsim/simrt"`}})
		}
		nf := &ast.File{Name: f.Name, Decls: decls}
		if len(imp.Specs) > 0 {
			nf.Decls = append([]ast.Decl{imp}, decls...)
		}
		must(os.WriteFile(filepath.Join(outDir, names[fi]), formatFile(r.fset, nf), 0644))
	}
	sort.SliceStable(inits, func(i, j int) bool { return inits[i].order < inits[j].order })
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n", files[0].Name.Name)
	if len(varNames) > 0 {
		b.WriteString("import zz_rt \"verifsim/simrt\"\n\n")
	}
	b.WriteString("// SimZero clears the package's variables.\nfunc SimZero() {\n")
	for _, v := range varNames {
		fmt.Fprintf(&b, "\tzz_rt.Zero(&%s)\n", v)
	}
	b.WriteString("}\n\n// SimInit runs the package's initialisation as a fresh process would.\nfunc SimInit() {\n\tSimZero()\n")
	for _, i := range inits {
		fmt.Fprintf(&b, "\t%s()\n", i.name)
	}
	for _, n := range initFns {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	b.WriteString("}\n")
	must(os.WriteFile(filepath.Join(outDir, "zz_sim_init.go"), b.Bytes(), 0644))
}

// typeExpr prints a type for a declaration in the current file.
func (r *pkgRW) typeExpr(t types.Type) ast.Expr {
	paths := map[string]string{}
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		n := r.used[p.Path()]
		for _, is := range r.file.Imports {
			ip, _ := strconv.Unquote(is.Path.Value)
			if ip == p.Path() && is.Name != nil && is.Name.Name != "_" && is.Name.Name != "." {
				n = is.Name.Name
			}
		}
		if n == "" {
			n = p.Name()
		}
		paths[n] = p.Path()
		return n
	})
	e, err := parser.ParseExpr(s)
	if err != nil {
		die("type %s: %v", s, err)
	}
	var fix func(e ast.Expr) ast.Expr
	fix = func(e ast.Expr) ast.Expr {
		switch e := e.(type) {
		case *ast.SelectorExpr:
			if i, ok := e.X.(*ast.Ident); ok {
				p := paths[i.Name]
				if exports[p] != nil && exports[p][e.Sel.Name] {
					r.shadowUsed[p] = true
					return &ast.SelectorExpr{X: id("zz_" + shadows[p]), Sel: e.Sel}
				}
				r.used[p] = i.Name
			}
			return e
		case *ast.StarExpr:
			e.X = fix(e.X)
		case *ast.ArrayType:
			e.Elt = fix(e.Elt)
		case *ast.MapType:
			e.Key, e.Value = fix(e.Key), fix(e.Value)
		case *ast.ChanType:
			e.Value = fix(e.Value)
		case *ast.Ellipsis:
			e.Elt = fix(e.Elt)
		case *ast.ParenExpr:
			e.X = fix(e.X)
		case *ast.FuncType:
			for _, fl := range []*ast.FieldList{e.Params, e.Results} {
				if fl != nil {
					for _, f := range fl.List {
						f.Type = fix(f.Type)
					}
				}
			}
		case *ast.StructType:
			for _, f := range e.Fields.List {
				f.Type = fix(f.Type)
			}
		case *ast.InterfaceType:
			for _, f := range e.Methods.List {
				f.Type = fix(f.Type)
			}
		}
		return e
	}
	return fix(e)
}
