// Command mutate lists or applies small source changes; a development aid, no check uses it.
//
//	mutate FILE        prints the number of mutants
//	mutate FILE N      prints mutant N's description on stderr and the changed file on stdout
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	pos  token.Pos
	desc string
	do   func()
}

func main() {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mut
	add := func(p token.Pos, d string, do func()) { ms = append(ms, mut{p, d, do}) }
	swap := map[string]string{"High": "Low", "Low": "High", "Open": "Close", "Close": "Open", "Buy": "Sell", "Sell": "Hold", "Hold": "Buy"}
	bin := map[token.Token][]token.Token{
		token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
		token.LAND: {token.LOR}, token.LOR: {token.LAND},
	}
	var curFn string
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.FuncDecl:
			curFn = x.Name.Name
			if curFn == "String" || curFn == "Strings" {
				return false
			}
		case *ast.BinaryExpr:
			for _, t := range bin[x.Op] {
				t, o := t, x.Op
				add(x.OpPos, fmt.Sprintf("%s -> %s", o, t), func() { x.Op = t })
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.OpPos, "drop right operand of "+x.Op.String(), func() { x.Y = x.X })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, _ := strconv.Atoi(x.Value)
				add(x.Pos(), "const "+x.Value+" +1", func() { x.Value = strconv.Itoa(v + 1) })
				if v > 0 {
					add(x.Pos(), "const "+x.Value+" -1", func() { x.Value = strconv.Itoa(v - 1) })
				}
			}
			if x.Kind == token.FLOAT {
				old := x.Value
				v, _ := strconv.ParseFloat(x.Value, 64)
				add(x.Pos(), "const "+old+" changed", func() { x.Value = strconv.FormatFloat(v*1.5+0.25, 'g', -1, 64) })
			}
		case *ast.SelectorExpr:
			if s := swap[x.Sel.Name]; s != "" {
				o := x.Sel.Name
				add(x.Sel.Pos(), o+" -> "+s, func() { x.Sel.Name = s })
			}
		case *ast.CallExpr:
			if len(x.Args) >= 2 {
				add(x.Pos(), "swap first two arguments", func() { x.Args[0], x.Args[1] = x.Args[1], x.Args[0] })
			}
		case *ast.BlockStmt:
			for i, s := range x.List {
				i, s := i, s
				ok := false
				switch a := s.(type) {
				case *ast.AssignStmt:
					ok = a.Tok != token.DEFINE
				case *ast.ExprStmt, *ast.IncDecStmt:
					ok = true
				case *ast.IfStmt:
					ok = a.Else == nil
				case *ast.BranchStmt:
					ok = true
				}
				if ok {
					add(s.Pos(), "delete statement", func() { x.List = append(append([]ast.Stmt{}, x.List[:i]...), x.List[i+1:]...) })
				}
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		fmt.Println(len(ms))
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	m := ms[n]
	src, _ := os.ReadFile(os.Args[1])
	p := fs.Position(m.pos)
	line := bytes.Split(src, []byte("\n"))[p.Line-1]
	m.do()
	fmt.Fprintf(os.Stderr, "%d:%d %s :: %s\n", p.Line, p.Column, m.desc, bytes.TrimSpace(line))
	var b bytes.Buffer
	if err := format.Node(&b, fs, f); err != nil {
		panic(err)
	}
	os.Stdout.Write(b.Bytes())
}
