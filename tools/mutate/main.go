// mutate lists or applies small changes to Go sources, to measure what the checks see.
//
//	mutate -repo DIR            lists the changes, one per line: index, file:line, what
//	mutate -repo DIR -apply N   applies change N to the files in DIR
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mut struct {
	file     string
	off, end int
	text     string
	line     int
	what     string
}

func main() {
	repo := flag.String("repo", "", "")
	apply := flag.Int("apply", -1, "")
	flag.Parse()
	var files []string
	for _, d := range []string{"cnf", "compute", "query"} {
		filepath.Walk(filepath.Join(*repo, d), func(p string, fi os.FileInfo, err error) error {
			if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.Contains(p, "/internal/") {
				files = append(files, p)
			}
			return nil
		})
	}
	sort.Strings(files)
	var ms []mut
	for _, f := range files {
		ms = append(ms, muts(f)...)
	}
	if *apply >= 0 {
		m := ms[*apply]
		b, _ := os.ReadFile(m.file)
		var o bytes.Buffer
		o.Write(b[:m.off])
		o.WriteString(m.text)
		o.Write(b[m.end:])
		os.WriteFile(m.file, o.Bytes(), 0o644)
		return
	}
	for i, m := range ms {
		rel, _ := filepath.Rel(*repo, m.file)
		fmt.Printf("%d\t%s:%d\t%s\n", i, rel, m.line, strings.ReplaceAll(m.what, "\n", " "))
	}
}

func muts(file string) []mut {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var out []mut
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(a, b token.Pos, text, what string) {
		out = append(out, mut{file, off(a), off(b), text, fset.Position(a).Line, what})
	}
	rep := func(n ast.Node, text string) { add(n.Pos(), n.End(), text, txt(n)+"  ->  "+text) }
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, o := range swap[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, txt(x)+"  ->  "+o)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				rep(x, txt(x.X))
				rep(x, txt(x.Y))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, _ := strconv.Atoi(x.Value)
				rep(x, strconv.Itoa(v+1))
				if v > 0 {
					rep(x, strconv.Itoa(v-1))
				}
			}
			if x.Kind == token.STRING && len(x.Value) > 2 {
				rep(x, `""`)
			}
		case *ast.Ident:
			switch x.Name {
			case "true":
				rep(x, "false")
			case "false":
				rep(x, "true")
			case "ZERO":
				rep(x, "ONE")
			case "ONE":
				rep(x, "ZERO")
			case "BOT":
				rep(x, "ZERO")
			case "I1":
				rep(x, "I2")
			case "I2":
				rep(x, "I1")
			case "ZChild":
				rep(x, "OChild")
			case "OChild":
				rep(x, "ZChild")
			case "Q1":
				rep(x, "Q2")
			case "AppendSemantics":
				rep(x, "AppendConsistency")
			case "AppendConsistency":
				rep(x, "AppendSemantics")
			}
		case *ast.UnaryExpr:
			if x.Op == token.SUB {
				add(x.OpPos, x.OpPos+1, "", txt(x)+"  ->  no minus")
			}
			if x.Op == token.NOT {
				add(x.OpPos, x.OpPos+1, "", txt(x)+"  ->  no not")
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "if "+txt(x.Cond)+"  ->  negated")
			add(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && false", "if "+txt(x.Cond)+"  ->  false")
			add(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") || true", "if "+txt(x.Cond)+"  ->  true")
			if x.Else != nil {
				add(x.Body.End(), x.Else.End(), "", "no else of if "+txt(x.Cond))
			}
		case *ast.ForStmt:
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.BREAK {
				rep(x, "continue")
			}
			if x.Label == nil && x.Tok == token.CONTINUE {
				rep(x, "break")
			}
		case *ast.ReturnStmt:
			if len(x.Results) > 0 {
				last := x.Results[len(x.Results)-1]
				if id, ok := last.(*ast.Ident); ok && (id.Name == "err") {
					add(last.Pos(), last.End(), "error(nil)", txt(x)+"  ->  nil")
				}
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				del(s, src, off, add, txt)
			}
			for i := 0; i+1 < len(x.List); i++ {
				a, b := x.List[i], x.List[i+1]
				if simple(a) && simple(b) {
					add(a.Pos(), b.End(), txt(b)+"\n"+txt(a), "swapped: "+txt(a)+" / "+txt(b))
				}
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				del(s, src, off, add, txt)
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := x.Args[i], x.Args[i+1]
				if txt(a) != txt(b) {
					add(a.Pos(), b.End(), txt(b)+", "+txt(a), txt(x)+"  ->  arguments swapped")
				}
			}
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) > 0 {
				rep(x, txt(x.Args[0]))
			}
		case *ast.CompositeLit:
			if len(x.Elts) > 1 {
				for i, e := range x.Elts {
					if _, kv := e.(*ast.KeyValueExpr); kv {
						continue
					}
					end := e.End()
					if i+1 < len(x.Elts) {
						end = x.Elts[i+1].Pos()
					}
					add(e.Pos(), end, "", "element "+txt(e)+" dropped from "+txt(x))
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				add(x.Low.Pos(), x.Low.End(), "", txt(x)+"  ->  no low")
			}
			if x.High != nil && !x.Slice3 {
				add(x.High.Pos(), x.High.End(), "", txt(x)+"  ->  no high")
			}
		}
		return true
	})
	return out
}

func simple(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt:
		return true
	}
	return false
}

func del(s ast.Stmt, src []byte, off func(token.Pos) int, add func(a, b token.Pos, text, what string), txt func(ast.Node) string) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
		add(s.Pos(), s.End(), "", "deleted: "+txt(s))
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			add(s.Pos(), s.End(), "", "deleted: "+txt(s))
		}
	case *ast.IfStmt:
		add(s.Pos(), s.End(), "", "deleted: "+txt(s))
	case *ast.ForStmt, *ast.RangeStmt:
		add(s.Pos(), s.End(), "", "deleted: "+txt(s))
	}
}
