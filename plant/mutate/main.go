// mutate lists small changes to Go files: one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type change struct {
	File  string `json:"file"`
	Func  string `json:"func"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Op    string `json:"op"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.AND_NOT: {"&"},
}

var narrower = map[string][]string{
	"uint64": {"uint32", "int32"}, "int64": {"int32", "uint32"}, "uint32": {"uint16", "int32"}, "int32": {"int16"},
	"uint16": {"uint8"}, "int": {"int16", "uint8", "uint32"}, "uint": {"uint16"}, "int16": {"uint16"}, "int8": {"uint8"}, "string": nil,
}

func main() {
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			name := fn.Name.Name
			if strings.HasPrefix(name, "String") && false {
				continue
			}
			emit := func(op string, from, to token.Pos, text string) {
				s, e := fs.Position(from), fs.Position(to)
				b, _ := json.Marshal(change{file, name, s.Line, s.Offset, e.Offset, text, op})
				fmt.Println(string(b))
			}
			at := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						emit("operator", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit("left only", x.Pos(), x.End(), at(x.X))
						emit("right only", x.Pos(), x.End(), at(x.Y))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit("literal", x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit("literal", x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.IfStmt:
					emit("always", x.Cond.Pos(), x.Cond.End(), "true || ("+at(x.Cond)+")")
					emit("never", x.Cond.Pos(), x.Cond.End(), "false && ("+at(x.Cond)+")")
				case *ast.UnaryExpr:
					if x.Op == token.SUB || x.Op == token.NOT {
						emit("unary", x.Pos(), x.X.Pos(), "")
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
						for _, s := range narrower[id.Name] {
							emit("narrow", x.Pos(), x.End(), id.Name+"("+s+"("+at(x.Args[0])+"))")
						}
					}
				case *ast.SliceExpr:
					if x.High != nil {
						emit("slice", x.High.Pos(), x.High.End(), "")
						emit("slice", x.High.Pos(), x.High.End(), at(x.High)+"-1")
					}
					if x.Low != nil {
						emit("slice", x.Low.Pos(), x.Low.End(), "")
						emit("slice", x.Low.Pos(), x.Low.End(), at(x.Low)+"+1")
					}
				case *ast.CaseClause:
					for i, e := range x.List {
						if len(x.List) > 1 {
							j := i
							if i == 0 {
								emit("case", e.Pos(), x.List[1].Pos(), "")
							} else {
								emit("case", x.List[j-1].End(), e.End(), "")
							}
						}
					}
				case *ast.BlockStmt:
					stmts(x.List, emit, at)
				case *ast.IncDecStmt:
				}
				if c, ok := n.(*ast.CaseClause); ok {
					stmts(c.Body, emit, at)
				}
				if c, ok := n.(*ast.CommClause); ok {
					stmts(c.Body, emit, at)
				}
				return true
			})
		}
	}
}

func stmts(l []ast.Stmt, emit func(string, token.Pos, token.Pos, string), at func(ast.Node) string) {
	for i, s := range l {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.BranchStmt:
			emit("delete", s.Pos(), s.End(), "")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				emit("delete", s.Pos(), s.End(), blank(x, at))
			} else if len(x.Rhs) == 1 {
				continue
			}
		case *ast.ReturnStmt:
			if i == len(l)-1 && len(x.Results) > 0 {
				if id, ok := x.Results[len(x.Results)-1].(*ast.CallExpr); ok && len(x.Results) == 1 {
					_ = id
				}
			}
		}
	}
}

// blank keeps what an assignment uses in use.
func blank(x *ast.AssignStmt, at func(ast.Node) string) string {
	out := ""
	for _, r := range x.Rhs {
		if len(x.Rhs) == len(x.Lhs) {
			out += "_ = " + at(r) + "; "
		}
	}
	return out
}
