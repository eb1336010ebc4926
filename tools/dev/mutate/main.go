// mutate FILE...: prints one JSON line per small source change:
// {"f": file, "a": from, "b": to, "s": replacement, "d": description, "l": line}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	F string `json:"f"`
	A int    `json:"a"`
	B int    `json:"b"`
	S string `json:"s"`
	D string `json:"d"`
	L int    `json:"l"`
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="},
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
	token.LAND: {"||"}, token.LOR: {"&&"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"|"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b int, s, d string) {
			enc.Encode(mut{fn, a, b, s, d, fs.Position(f.FileStart + token.Pos(a)).Line})
		}
		short := func(s string) string {
			if len(s) > 60 {
				s = s[:60] + "..."
			}
			return strconv.Quote(s)
		}
		block := func(l []ast.Stmt) {
			for i, st := range l {
				del := false
				switch x := st.(type) {
				case *ast.ExprStmt, *ast.DeferStmt, *ast.GoStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.BranchStmt, *ast.ReturnStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
					del = true
				case *ast.AssignStmt:
					del = x.Tok != token.DEFINE
				}
				if del {
					emit(off(st.Pos()), off(st.End()), "", "delete "+short(text(st)))
				}
				if d, ok := st.(*ast.DeferStmt); ok {
					emit(off(st.Pos()), off(d.Call.Pos()), "", "undefer "+short(text(st)))
				}
				if d, ok := st.(*ast.GoStmt); ok {
					emit(off(st.Pos()), off(d.Call.Pos()), "", "ungo "+short(text(st)))
				}
				if i+1 < len(l) {
					n := l[i+1]
					mid := string(src[off(st.End()):off(n.Pos())])
					emit(off(st.Pos()), off(n.End()), text(n)+mid+text(st), "swap "+short(text(st))+" / "+short(text(n)))
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					emit(off(x.OpPos), off(x.OpPos)+len(x.Op.String()), s, fmt.Sprintf("%s -> %s in %s", x.Op, s, short(text(x))))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit(off(x.Pos()), off(x.End()), strconv.FormatInt(v+1, 10), fmt.Sprintf("%s -> %d", x.Value, v+1))
						if v > 0 {
							emit(off(x.Pos()), off(x.End()), strconv.FormatInt(v-1, 10), fmt.Sprintf("%s -> %d", x.Value, v-1))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(off(x.Pos()), off(x.End()), "false", "true -> false")
				} else if x.Name == "false" {
					emit(off(x.Pos()), off(x.End()), "true", "false -> true")
				}
			case *ast.IfStmt:
				t := text(x.Cond)
				emit(off(x.Cond.Pos()), off(x.Cond.End()), "true || ("+t+")", "if true for "+short(t))
				emit(off(x.Cond.Pos()), off(x.Cond.End()), "false && ("+t+")", "if false for "+short(t))
			case *ast.BlockStmt:
				block(x.List)
			case *ast.CaseClause:
				block(x.Body)
			case *ast.CommClause:
				block(x.Body)
				emit(off(x.Pos()), off(x.End()), "", "delete case "+short(text(x)))
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					t := text(r)
					if t == "err" {
						emit(off(r.Pos()), off(r.End()), "nil", "nil for err in "+short(text(x)))
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(off(x.Low.Pos()), off(x.Low.End()), "("+text(x.Low)+")+1", "low+1 in "+short(text(x)))
				}
				if x.High != nil {
					emit(off(x.High.Pos()), off(x.High.End()), "("+text(x.High)+")-1", "high-1 in "+short(text(x)))
				}
			}
			return true
		})
	}
}
