// Command automut lists small syntactic mutants of the Go files given, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File       string
	Start, End int
	New        string
	Desc       string
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"|"}, token.AND: {"|"}, token.OR: {"&"}, token.REM: {"/"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(s, e token.Pos, nw, what string) {
			old := string(src[off(s):off(e)])
			if i := strings.IndexByte(old, '\n'); i > 0 {
				old = old[:i] + "..."
			}
			enc.Encode(mut{f, off(s), off(e), nw, fmt.Sprintf("%s:%d %s: %s => %s", f, fs.Position(s).Line, what, old, nw)})
		}
		noise := func(n ast.Node) bool {
			t := text(n)
			for _, p := range []string{"log.", "fmt.", "panic(", "L.Print", "flag."} {
				if strings.HasPrefix(t, p) {
					return true
				}
			}
			return false
		}
		ast.Inspect(tree, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), "int")
						if v > 0 {
							emit(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), "int")
						}
					}
				} else if x.Kind == token.FLOAT {
					emit(x.Pos(), x.End(), "(2*"+x.Value+")", "float")
				}
			case *ast.Ident:
				if x.Name == "true" || x.Name == "false" {
					emit(x.Pos(), x.End(), map[string]string{"true": "false", "false": "true"}[x.Name], "bool")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
				emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "always")
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never")
			case *ast.IncDecStmt:
				emit(x.TokPos, x.TokPos+2, map[token.Token]string{token.INC: "--", token.DEC: "++"}[x.Tok], "incdec")
				emit(x.Pos(), x.End(), "", "delete")
			case *ast.ExprStmt, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt, *ast.BranchStmt:
				if !noise(x) {
					emit(x.Pos(), x.End(), "", "delete")
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(x.Pos(), x.End(), "", "delete")
				}
				if x.Tok == token.ADD_ASSIGN {
					emit(x.TokPos, x.TokPos+2, "-=", "assign")
				}
				if x.Tok == token.SUB_ASSIGN {
					emit(x.TokPos, x.TokPos+2, "+=", "assign")
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					emit(x.Pos(), x.End(), "", "delete")
				}
			}
			return true
		})
	}
}
