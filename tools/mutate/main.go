// mutate lists small changes to Go files as JSON lines: {file,line,desc,start,end,new}. It is a development aid to
// measure what the checks can see.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Desc  string `json:"desc"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(n ast.Node, start, end int, repl, desc string) {
			enc.Encode(mutant{file, fset.Position(n.Pos()).Line, desc, start, end, repl})
		}
		replace := func(n ast.Node, repl, desc string) { add(n, off(n.Pos()), off(n.End()), repl, desc) }
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT || n.Tok == token.TYPE {
					return false
				}
			case *ast.IfStmt:
				replace(n.Cond, "!("+text(n.Cond)+")", "negate if")
				if n.Else == nil && n.Init == nil {
					replace(n, "if false && "+"("+text(n.Cond)+") "+text(n.Body), "never if")
				}
			case *ast.BinaryExpr:
				a, b := text(n.X), text(n.Y)
				op := map[token.Token][]string{
					token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<", ">"}, token.GEQ: {">", "<"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"},
				}[n.Op]
				for _, o := range op {
					if n.Op == token.ADD {
						if l, ok := n.Y.(*ast.BasicLit); !ok || l.Kind == token.STRING {
							continue
						}
					}
					replace(n, a+" "+o+" "+b, n.Op.String()+" -> "+o)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					replace(n, a, "drop right of "+n.Op.String())
					replace(n, b, "drop left of "+n.Op.String())
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, err := strconv.Atoi(n.Value)
					if err == nil {
						replace(n, fmt.Sprint(v+1), "constant +1")
						if v > 0 {
							replace(n, fmt.Sprint(v-1), "constant -1")
						}
					}
				}
				if n.Kind == token.FLOAT {
					replace(n, "(2*"+n.Value+")", "constant *2")
				}
				if n.Kind == token.STRING && len(n.Value) > 2 {
					replace(n, `"~"`, "other string")
				}
				if n.Kind == token.CHAR {
					replace(n, `'\x01'`, "other char")
				}
			case *ast.ExprStmt:
				replace(n, "{}", "delete "+clip(text(n)))
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					s := "_ = "
					for i, e := range n.Rhs {
						if i > 0 {
							s = ""
							break
						}
						s += text(e)
					}
					if s == "" || len(n.Lhs) != 1 {
						break
					}
					replace(n, s, "delete "+clip(text(n)))
				}
			case *ast.IncDecStmt:
				replace(n, "{}", "delete "+text(n))
			case *ast.DeferStmt:
				replace(n, "{}", "delete "+clip(text(n)))
			case *ast.BranchStmt:
				if n.Label == nil && n.Tok == token.CONTINUE {
					replace(n, "break", "continue -> break")
					replace(n, "{}", "delete continue")
				}
				if n.Label == nil && n.Tok == token.BREAK {
					replace(n, "{}", "delete break")
				}
			case *ast.CaseClause:
				if len(n.List) > 1 {
					for i, e := range n.List {
						end := off(e.End())
						start := off(e.Pos())
						if i > 0 {
							start = off(n.List[i-1].End())
						} else {
							end = off(n.List[1].Pos())
						}
						add(e, start, end, "", "drop case "+text(e))
					}
				}
				if len(n.List) == 1 && len(n.Body) > 0 {
					s, e := off(n.Body[0].Pos()), off(n.Body[len(n.Body)-1].End())
					add(n, s, e, "", "empty case "+text(n.List[0]))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					replace(n, text(n.X), "drop !")
				}
			case *ast.ReturnStmt:
				if len(n.Results) == 1 {
					if id, ok := n.Results[0].(*ast.Ident); ok && id.Name == "true" {
						replace(id, "false", "return false")
					} else if ok && id.Name == "false" {
						replace(id, "true", "return true")
					}
				}
			case *ast.SliceExpr:
				if n.Low != nil && n.High != nil {
					replace(n.Low, text(n.Low)+"+1", "slice low +1")
				}
			case *ast.CallExpr:
				if s, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 1 {
					switch s.Sel.Name {
					case "ToLower", "unescape", "TrimSpace", "Clean":
						replace(n, text(n.Args[0]), "drop "+s.Sel.Name)
					}
				}
				if s, ok := n.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "EqualFold" {
					replace(n, text(n.Args[0])+" == "+text(n.Args[1]), "EqualFold -> ==")
				}
				if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) >= 1 {
					switch id.Name {
					case "copyValues", "copyMediaParts", "withoutParens", "parenthesizeNot", "unescape", "copyValue":
						replace(n, text(n.Args[0]), "drop "+id.Name)
					case "append":
						replace(n, text(n.Args[0]), "drop append "+clip(text(n)))
					}
				}
			}
			return true
		})
	}
}

func clip(s string) string {
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}
