// gomut lists or applies small source mutations of Go files: it is used to
// look for changes that the repository's tests and the checks both miss.
//
//	gomut list FILE...          one mutant per line: index, position, kind, old -> new
//	gomut apply FILE INDEX      write FILE with the mutant applied
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	from, to int
	kind     string
	repl     string
	line     int
}

func mutants(file string) ([]byte, []mutant) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		panic(err)
	}
	var ms []mutant
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(a, b token.Pos, kind, repl string) {
		ms = append(ms, mutant{off(a), off(b), kind, repl, fs.Position(a).Line})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token][]string{
		token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
		token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
	}
	inFunc := 0
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Body == nil {
					return false
				}
				inFunc++
			case *ast.BinaryExpr:
				if inFunc == 0 {
					break
				}
				for _, r := range swap[x.Op] {
					if x.Op == token.ADD {
						if strings.Contains(text(x), "\"") {
							continue
						}
					}
					p := x.OpPos
					ms = append(ms, mutant{off(p), off(p) + len(x.Op.String()), "op", r, fs.Position(p).Line})
				}
			case *ast.BasicLit:
				if inFunc == 0 {
					break
				}
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						add(x.Pos(), x.End(), "int", fmt.Sprint(v+1))
						if v > 0 {
							add(x.Pos(), x.End(), "int", fmt.Sprint(v-1))
						}
					}
				case token.FLOAT:
					add(x.Pos(), x.End(), "float", "("+x.Value+"*1.25)")
				case token.STRING:
					if strings.Contains(x.Value, "%.2f") || strings.Contains(x.Value, "%0.2f") {
						add(x.Pos(), x.End(), "fmt", strings.Replace(strings.Replace(x.Value, "%.2f", "%.1f", 1), "%0.2f", "%0.1f", 1))
					}
				}
			case *ast.Ident:
				if inFunc > 0 && (x.Name == "true" || x.Name == "false") {
					r := "true"
					if x.Name == "true" {
						r = "false"
					}
					add(x.Pos(), x.End(), "bool", r)
				}
			case *ast.IfStmt:
				add(x.Cond.Pos(), x.Cond.End(), "neg", "!("+text(x.Cond)+")")
				add(x.Cond.Pos(), x.Cond.End(), "never", "false && ("+text(x.Cond)+")")
			case *ast.ForStmt:
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
						add(s.Pos(), s.End(), "del", "")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							r := ""
							for i := range y.Lhs {
								_ = i
							}
							add(s.Pos(), s.End(), "del", r)
						}
					case *ast.BranchStmt:
						if y.Tok == token.CONTINUE || y.Tok == token.BREAK {
							add(s.Pos(), s.End(), "del", "")
						}
					}
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
						add(s.Pos(), s.End(), "del", "")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							add(s.Pos(), s.End(), "del", "")
						}
					}
				}
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					if id, ok := x.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
						add(id.Pos(), id.End(), "err", "nil")
					}
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					if text(a) != text(b) {
						add(a.Pos(), b.End(), "swap", text(b)+", "+text(a))
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					add(x.Low.Pos(), x.Low.End(), "slice", "("+text(x.Low)+")+1")
				}
				if x.High != nil {
					add(x.High.Pos(), x.High.End(), "slice", "("+text(x.High)+")-1")
				}
			case *ast.AssignStmt:
				if x.Tok == token.ADD_ASSIGN {
					ms = append(ms, mutant{off(x.TokPos), off(x.TokPos) + 2, "op", "-=", fs.Position(x.TokPos).Line})
				}
			case *ast.UnaryExpr:
				if x.Op == token.SUB {
					ms = append(ms, mutant{off(x.OpPos), off(x.OpPos) + 1, "minus", "+", fs.Position(x.OpPos).Line})
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		inFunc = 0
		walk(d)
	}
	return src, ms
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, f := range os.Args[2:] {
			src, ms := mutants(f)
			for i, m := range ms {
				old := string(src[m.from:m.to])
				if len(old) > 60 {
					old = old[:60]
				}
				fmt.Printf("%s\t%d\t%d\t%s\t%q -> %q\n", f, i, m.line, m.kind, old, m.repl)
			}
		}
	case "apply":
		src, ms := mutants(os.Args[2])
		i, _ := strconv.Atoi(os.Args[3])
		m := ms[i]
		out := append([]byte{}, src[:m.from]...)
		out = append(out, m.repl...)
		out = append(out, src[m.to:]...)
		if err := os.WriteFile(os.Args[2], out, 0o644); err != nil {
			panic(err)
		}
	}
}
