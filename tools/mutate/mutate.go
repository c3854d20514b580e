// mutate lists simple mutants of the Go files below a directory, one JSON object per line:
// {file, off, end, new, line, what}. Byte ranges refer to the original text.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Line int    `json:"line"`
	What string `json:"what"`
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	filepath.Walk(filepath.Join(root, "scouterx"), func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		emit := func(a, b token.Pos, nw, what string) {
			enc.Encode(mut{rel, off(a), off(b), nw, fs.Position(a).Line, what})
		}
		text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
		short := func(s string) string {
			s = strings.Join(strings.Fields(s), " ")
			if len(s) > 50 {
				s = s[:50]
			}
			return s
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, r := range map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"}}[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, fmt.Sprintf("%s -> %s in %s", x.Op, r, short(text(x.Pos(), x.End()))))
				}
			case *ast.IfStmt:
				if b, ok := x.Cond.(*ast.BinaryExpr); !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
					emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond.Pos(), x.Cond.End())+")", "negate "+short(text(x.Cond.Pos(), x.Cond.End())))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), fmt.Sprintf("%d -> %d", v, v+1))
						if v > 1 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), fmt.Sprintf("%d -> %d", v, v-1))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.BlockStmt:
				stmts(x.List, emit, text, short)
			case *ast.CaseClause:
				stmts(x.Body, emit, text, short)
			case *ast.CommClause:
				stmts(x.Body, emit, text, short)
			}
			return true
		})
		return nil
	})
}

func stmts(l []ast.Stmt, emit func(a, b token.Pos, nw, what string), text func(a, b token.Pos) string, short func(string) string) {
	for _, s := range l {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.SendStmt:
			emit(s.Pos(), s.End(), "", "delete "+short(text(s.Pos(), s.End())))
		case *ast.GoStmt:
			emit(s.Pos(), s.End(), "", "delete "+short(text(s.Pos(), s.End())))
			emit(s.Pos(), s.Pos()+2, "  ", "call instead of "+short(text(s.Pos(), s.End())))
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				var b strings.Builder // keep what it uses in use
				for _, r := range x.Rhs {
					fmt.Fprintf(&b, "_ = %s;", text(r.Pos(), r.End()))
				}
				if len(x.Rhs) == len(x.Lhs) {
					emit(s.Pos(), s.End(), b.String(), "delete "+short(text(s.Pos(), s.End())))
				}
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 0 {
				emit(s.Pos(), s.End(), "", "delete return")
			}
		}
	}
}
