// mutate lists or applies small changes to the package files of a repository. It
// is used to measure what the checks detect; no check uses it.
//
//	mutate -repo DIR -list           one line per mutant
//	mutate -repo DIR -apply N        rewrites one file in DIR
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	file     string
	from, to int
	text     string
	line     int
	kind     string
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"+"},
}

func main() {
	repo := flag.String("repo", "", "repository")
	list := flag.Bool("list", false, "list the mutants")
	apply := flag.Int("apply", -1, "apply a mutant")
	flag.Parse()
	var files []string
	filepath.WalkDir(*repo, func(p string, d os.DirEntry, err error) error {
		if d.IsDir() && (d.Name() == "bench" || d.Name() == "testdata" || p != *repo && strings.HasPrefix(d.Name(), ".")) {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	var l []edit
	for _, f := range files {
		l = append(l, edits(f)...)
	}
	if *list {
		for i, e := range l {
			rel, _ := filepath.Rel(*repo, e.file)
			fmt.Printf("%d %s:%d %s -> %q\n", i, rel, e.line, e.kind, e.text)
		}
		return
	}
	e := l[*apply]
	b, _ := os.ReadFile(e.file)
	out := string(b[:e.from]) + e.text + string(b[e.to:])
	os.WriteFile(e.file, []byte(out), 0o644)
	rel, _ := filepath.Rel(*repo, e.file)
	fmt.Printf("%s:%d %s %q -> %q\n", rel, e.line, e.kind, b[e.from:e.to], e.text)
}

func edits(file string) (l []edit) {
	src, _ := os.ReadFile(file)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		return nil
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(from, to token.Pos, text, kind string) {
		l = append(l, edit{file, off(from), off(to), text, fs.Position(from).Line, kind})
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s := s.(type) {
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s.Pos(), s.End(), "", "delete")
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				add(s.Pos(), s.End(), "", "delete")
			case *ast.ForStmt, *ast.RangeStmt:
				add(s.Pos(), s.End(), "", "delete")
			case *ast.IfStmt:
				if s.Init == nil {
					add(s.Pos(), s.End(), "", "delete if")
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Name.Name == "String" {
				return false
			}
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
			if len(n.List) > 1 {
				for i, x := range n.List {
					if i == 0 {
						add(x.Pos(), n.List[1].Pos(), "", "case removed")
					} else {
						add(n.List[i-1].End(), x.End(), "", "case removed")
					}
				}
			}
		case *ast.IfStmt:
			c := string(src[off(n.Cond.Pos()):off(n.Cond.End())])
			add(n.Cond.Pos(), n.Cond.End(), "true || "+c, "always")
			add(n.Cond.Pos(), n.Cond.End(), "false && ("+c+")", "never")
		case *ast.BinaryExpr:
			for _, t := range swaps[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t, "operator "+n.Op.String())
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					add(n.Pos(), n.End(), fmt.Sprint(v+1), "literal "+n.Value)
					if v > 0 {
						add(n.Pos(), n.End(), fmt.Sprint(v-1), "literal "+n.Value)
					}
				}
			}
		case *ast.Ident:
			if n.Name == "true" {
				add(n.Pos(), n.End(), "false", "constant")
			} else if n.Name == "false" {
				add(n.Pos(), n.End(), "true", "constant")
			}
		case *ast.GenDecl:
			if n.Tok == token.VAR || n.Tok == token.IMPORT || n.Tok == token.TYPE {
				// tables and declarations
				return n.Tok == token.VAR
			}
		}
		return true
	})
	return l
}
