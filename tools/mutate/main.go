// Command mutate writes mutants of Go files: mutate OUTDIR REPO FILE... Each mutant is a directory with the
// changed file's text (file), its name (name) and a description (desc). It is a development tool: no check uses it.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

var out, repo string
var n int

func main() {
	out, repo = os.Args[1], os.Args[2]
	for _, f := range os.Args[3:] {
		mutate(f)
	}
	fmt.Println(n, "mutants")
}

func text(fs *token.FileSet, x ast.Node) string {
	var b bytes.Buffer
	_ = printer.Fprint(&b, fs, x)
	s := b.String()
	if len(s) > 90 {
		s = s[:90] + "..."
	}
	return s
}

func mutate(file string) {
	src, err := os.ReadFile(filepath.Join(repo, file))
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	fn := ""
	emit := func(at ast.Node, from, to token.Pos, repl, what string) {
		s := append(append(append([]byte{}, src[:off(from)]...), repl...), src[off(to):]...)
		n++
		d := filepath.Join(out, fmt.Sprintf("%04d", n))
		_ = os.MkdirAll(d, 0o755)
		_ = os.WriteFile(filepath.Join(d, "file"), s, 0o644)
		_ = os.WriteFile(filepath.Join(d, "name"), []byte(file), 0o644)
		_ = os.WriteFile(filepath.Join(d, "desc"), []byte(fmt.Sprintf("%s:%d %s: %s: %s", file, fs.Position(at.Pos()).Line, fn, what, text(fs, at))), 0o644)
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.GoStmt, *ast.BranchStmt:
				emit(s, s.Pos(), s.End(), "", "drop")
			case *ast.AssignStmt:
				if s.Tok == token.ASSIGN {
					emit(s, s.Pos(), s.End(), "_ = 0", "drop")
				}
			case *ast.IfStmt:
				if s.Else == nil && s.Init == nil {
					emit(s, s.Pos(), s.End(), "", "drop if")
				}
			case *ast.ReturnStmt:
				for _, r := range s.Results {
					if id, ok := r.(*ast.Ident); !ok || id.Name != "nil" {
						if _, lit := r.(*ast.BasicLit); !lit {
							emit(s, r.Pos(), r.End(), "nil", "return nil")
						}
					}
				}
			case *ast.ForStmt, *ast.RangeStmt:
				var body *ast.BlockStmt
				if x, ok := s.(*ast.ForStmt); ok {
					body = x.Body
				} else {
					body = s.(*ast.RangeStmt).Body
				}
				emit(s, body.End()-1, body.End()-1, "\nbreak\n", "one round")
			}
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.GenDecl:
			return x.Tok == token.VAR && fn != ""
		case *ast.FuncDecl:
			fn = x.Name.Name
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if len(x.Body) > 0 && x.List != nil {
				emit(x, x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case")
			}
			if len(x.List) > 1 {
				emit(x, x.List[0].Pos(), x.List[1].Pos(), "", "drop case value")
			}
		case *ast.IfStmt:
			emit(x, x.Cond.Pos(), x.Cond.End(), "!("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "negate")
		case *ast.BinaryExpr:
			var r []string
			switch x.Op {
			case token.LAND, token.LOR:
				emit(x, x.Pos(), x.End(), string(src[off(x.X.Pos()):off(x.X.End())]), "left only")
				emit(x, x.Pos(), x.End(), string(src[off(x.Y.Pos()):off(x.Y.End())]), "right only")
			case token.LSS:
				r = []string{"<="}
			case token.LEQ:
				r = []string{"<"}
			case token.GTR:
				r = []string{">="}
			case token.GEQ:
				r = []string{">"}
			case token.EQL:
				r = []string{"!="}
			case token.NEQ:
				r = []string{"=="}
			case token.ADD:
				if _, ok := x.Y.(*ast.BasicLit); ok {
					r = []string{"-"}
				}
			case token.SUB:
				r = []string{"+"}
			}
			for _, o := range r {
				emit(x, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "operator "+o)
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.Atoi(x.Value); err == nil {
					emit(x, x.Pos(), x.End(), strconv.Itoa(v+1), "number +1")
				}
			}
		case *ast.Ident:
			switch x.Name {
			case "true":
				emit(x, x.Pos(), x.End(), "false", "false")
			case "false":
				emit(x, x.Pos(), x.End(), "true", "true")
			}
		case *ast.CallExpr:
			for i, a := range x.Args {
				if id, ok := a.(*ast.Ident); ok && id.Name != "nil" && id.Obj != nil && i > 0 {
					emit(x, a.Pos(), a.End(), "nil", "nil argument")
				}
				if i > 0 {
					p := x.Args[i-1]
					emit(x, p.Pos(), a.End(), string(src[off(a.Pos()):off(a.End())])+", "+string(src[off(p.Pos()):off(p.End())]), "swap arguments")
				}
			}
		}
		return true
	})
}
