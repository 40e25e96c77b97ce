// Command mutate lists and applies single small changes to a Go file.
//
//	mutate list FILE       one line per mutant: number, line, description
//	mutate apply FILE N    prints the file with mutant N
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
)

type mutant struct {
	from, to int // byte range replaced
	text     string
	desc     string
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"/"}, token.QUO: {"*", "%"}, token.REM: {"/"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"|", "&"},
}

func main() {
	src, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[2], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var ms []mutant
	add := func(from, to token.Pos, text, desc string) {
		ms = append(ms, mutant{off(from), off(to), text, desc})
	}
	cut := func(n ast.Node) string {
		s := string(src[off(n.Pos()):off(n.End())])
		if len(s) > 60 {
			s = s[:60] + "..."
		}
		return strconv.Quote(s)
	}
	del := func(s ast.Stmt) {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.GoStmt, *ast.SendStmt:
			add(s.Pos(), s.End(), "", "delete "+cut(s))
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				add(s.Pos(), s.End(), "", "delete "+cut(s))
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
					add(id.Pos(), id.End(), "nil", "return nil for err")
				}
			}
		case *ast.IfStmt:
			if x.Else == nil {
				add(x.Body.Lbrace+1, x.Body.Rbrace, "", "empty body of if "+cut(x.Cond))
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BinaryExpr:
			for _, t := range swaps[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t, cut(x)+" with "+t)
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "!("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "negate "+cut(x.Cond))
		case *ast.BasicLit:
			if x.Kind == token.INT {
				add(x.Pos(), x.End(), "("+x.Value+"+1)", x.Value+" plus 1")
				if x.Value != "0" {
					add(x.Pos(), x.End(), "("+x.Value+"-1)", x.Value+" minus 1")
				}
			}
		case *ast.AssignStmt:
			for _, p := range [][2]token.Token{{token.ADD_ASSIGN, token.SUB_ASSIGN}, {token.XOR_ASSIGN, token.OR_ASSIGN}, {token.OR_ASSIGN, token.AND_ASSIGN}, {token.SUB_ASSIGN, token.ADD_ASSIGN}} {
				if x.Tok == p[0] {
					add(x.TokPos, x.TokPos+token.Pos(len(p[0].String())), p[1].String(), cut(x)+" with "+p[1].String())
				}
			}
		case *ast.IncDecStmt:
			if x.Tok == token.INC {
				add(x.TokPos, x.TokPos+2, "--", cut(x)+" decremented")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.OpPos, x.OpPos+1, "", "without not: "+cut(x))
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "true to false")
			}
			if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "false to true")
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				del(s)
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				del(s)
			}
		}
		return true
	})
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].from < ms[j].from })
	if os.Args[1] == "list" {
		for i, m := range ms {
			line := 1
			for _, b := range src[:m.from] {
				if b == '\n' {
					line++
				}
			}
			fmt.Printf("%d\t%d\t%s\n", i, line, m.desc)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[3])
	m := ms[k]
	os.Stdout.Write(src[:m.from])
	os.Stdout.WriteString(m.text)
	os.Stdout.Write(src[m.to:])
}
