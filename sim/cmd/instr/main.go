// Command instr writes instrumented copies of the packages under test and an
// overlay file for the go command. Nothing is written into the repository.
//
// Before every statement a call verifhook.Y(id) is inserted on the same line:
// these are the scheduling, fault and step-counting points of the simulation.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	repo  = flag.String("repo", "/repo", "repository")
	out   = flag.String("out", "", "output directory")
	extra = flag.String("overlaysrc", "", "directory with verifhook and verifsync")
	work  = flag.Bool("work", false, "count the bytes given to library functions")
	plain = flag.Bool("plain", false, "no statement hooks (fallback)")
)

type ins struct {
	off int
	s   string
	del int
}

type loc struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Fn   string `json:"fn"`
}

func main() {
	flag.Parse()
	mod := modPath(filepath.Join(*repo, "go.mod"))
	overlay := map[string]string{}
	var locs []loc
	id := 1
	var files []string
	err := filepath.WalkDir(*repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			n := d.Name()
			if p != *repo && (n == "bench" || n == "testdata" || n == "vendor" || strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_")) {
				return filepath.SkipDir
			}
			if p != *repo {
				if _, e := os.Stat(filepath.Join(p, "go.mod")); e == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	die(err)
	sort.Strings(files)
	shared := packageVars(files)
	for _, p := range files {
		src, err := os.ReadFile(p)
		die(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			// The compiler will report it.
			continue
		}
		if f.Name.Name == "main" {
			continue
		}
		var edits []ins
		off := func(pos token.Pos) int { return fset.Position(pos).Offset }
		fn := ""
		y := func(pos token.Pos, f string) string {
			rel, _ := filepath.Rel(*repo, p)
			locs = append(locs, loc{id, rel, fset.Position(pos).Line, fn})
			s := "verifhook." + f + "(" + strconv.Itoa(id) + "); "
			id++
			return s
		}
		list := func(l []ast.Stmt, lbrace token.Pos) {
			if len(l) == 0 && lbrace.IsValid() {
				edits = append(edits, ins{off: off(lbrace) + 1, s: " " + y(lbrace, "Y")})
			}
			for _, s := range l {
				if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
					continue
				}
				edits = append(edits, ins{off: off(s.Pos()), s: y(s.Pos(), hookFor(s, shared[filepath.Dir(p)]))})
			}
		}
		usedHook := false
		if !*plain {
			// Blocks whose braces may only hold clauses.
			skip := map[*ast.BlockStmt]bool{}
			visit := func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.SwitchStmt:
					skip[n.Body] = true
				case *ast.TypeSwitchStmt:
					skip[n.Body] = true
				case *ast.SelectStmt:
					skip[n.Body] = true
				case *ast.BlockStmt:
					if !skip[n] {
						list(n.List, n.Lbrace)
					}
				case *ast.CaseClause:
					list(n.Body, n.Colon)
				case *ast.CommClause:
					list(n.Body, n.Colon)
				}
				return true
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Body == nil || hasDirective(d.Doc, "//go:nosplit", "//go:norace", "//go:systemstack") {
						continue
					}
					fn = d.Name.Name
					ast.Inspect(d.Body, visit)
				case *ast.GenDecl:
					fn = "var"
					ast.Inspect(d, visit)
				}
			}
			usedHook = len(edits) > 0
		}
		if *work {
			l := libCalls(f, off)
			edits = append(edits, l...)
			usedHook = usedHook || len(l) > 0
		}
		if l := clockCalls(f, off); len(l) > 0 {
			edits = append(edits, l...)
			usedHook = true
		}
		usesSync := false
		for _, im := range f.Imports {
			if v, _ := strconv.Unquote(im.Path.Value); v == "sync" && (im.Name == nil || (im.Name.Name != "_" && im.Name.Name != ".")) {
				edits = append(edits, ins{off: off(im.Path.Pos()), s: strconv.Quote(mod + "/verifsync"), del: len(im.Path.Value)})
				if im.Name == nil {
					edits[len(edits)-1].s = "sync " + edits[len(edits)-1].s
				}
				usesSync = true
			}
		}
		if !usedHook && !usesSync {
			continue
		}
		if usedHook {
			edits = append(edits, ins{off: off(f.Name.End()), s: "; import verifhook " + strconv.Quote(mod+"/verifhook")})
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
		var b bytes.Buffer
		last := 0
		for _, e := range edits {
			b.Write(src[last:e.off])
			b.WriteString(e.s)
			last = e.off + e.del
		}
		b.Write(src[last:])
		rel, _ := filepath.Rel(*repo, p)
		dst := filepath.Join(*out, "src", rel)
		die(os.MkdirAll(filepath.Dir(dst), 0o755))
		die(os.WriteFile(dst, b.Bytes(), 0o644))
		overlay[p] = dst
	}
	if !*plain {
		for dst, src := range varFiles(files, mod) {
			rel, _ := filepath.Rel(*repo, dst)
			tmp := filepath.Join(*out, "src", rel)
			die(os.MkdirAll(filepath.Dir(tmp), 0o755))
			die(os.WriteFile(tmp, []byte(src), 0o644))
			overlay[dst] = tmp
		}
	}
	for _, x := range []string{"verifhook/hook.go", "verifhook/work.go", "verifhook/vars.go", "verifhook/clock.go", "verifsync/sync.go"} {
		src, err := os.ReadFile(filepath.Join(*extra, x+".txt"))
		die(err)
		dst := filepath.Join(*out, "src", x)
		die(os.MkdirAll(filepath.Dir(dst), 0o755))
		die(os.WriteFile(dst, src, 0o644))
		overlay[filepath.Join(*repo, x)] = dst
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644))
	js, _ = json.Marshal(locs)
	die(os.WriteFile(filepath.Join(*out, "stmts.json"), js, 0o644))
	fmt.Printf("instr: %d files, %d statement hooks\n", len(overlay), id-1)
}

// clockCalls replaces the clock of the system by the simulated one.
func clockCalls(f *ast.File, off func(token.Pos) int) (l []ins) {
	name := ""
	for _, im := range f.Imports {
		if v, _ := strconv.Unquote(im.Path.Value); v == "time" {
			name = "time"
			if im.Name != nil {
				name = im.Name.Name
			}
		}
	}
	if name == "" || name == "_" || name == "." {
		return nil
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if x, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := x.X.(*ast.Ident); ok && id.Name == name && id.Obj == nil {
				switch x.Sel.Name {
				case "Now", "Since", "Until", "Sleep":
					l = append(l, ins{off: off(id.Pos()), s: "verifhook", del: len(name)})
				}
			}
		}
		return true
	})
	if len(l) > 0 {
		l = append(l, ins{off: off(f.End()), s: "\nvar _ " + name + ".Duration\n"})
	}
	return l
}

// packageVars lists the package-level variables by directory.
func packageVars(files []string) map[string]map[string]bool {
	all := map[string]map[string]bool{}
	constant, written := map[string]bool{}, map[string]bool{}
	for _, p := range files {
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		dir := filepath.Dir(p)
		if all[dir] == nil {
			all[dir] = map[string]bool{}
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					all[dir][n.Name] = true
					if len(vs.Values) == len(vs.Names) && neverChanges(vs.Values[i]) {
						constant[dir+"\x00"+n.Name] = true
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, x := range n.Lhs {
					written[dir+"\x00"+root(x)] = true
				}
			case *ast.RangeStmt:
				written[dir+"\x00"+root(n.Key)] = true
				written[dir+"\x00"+root(n.Value)] = true
			case *ast.IncDecStmt:
				written[dir+"\x00"+root(n.X)] = true
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					written[dir+"\x00"+root(n.X)] = true
				}
			case *ast.SliceExpr:
				written[dir+"\x00"+root(n.X)] = true
			}
			return true
		})
	}
	// Tables, types and errors that nothing is assigned to are no shared state.
	for dir, vars := range all {
		for n := range vars {
			if k := dir + "\x00" + n; constant[k] && !written[k] {
				delete(vars, n)
			}
		}
	}
	return all
}

// neverChanges is whether a variable with an initial value like this one is state only if
// something is assigned to it.
func neverChanges(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.CompositeLit:
		t, ok := x.Type.(*ast.ArrayType)
		if !ok || t.Len == nil {
			return false
		}
		id, ok := t.Elt.(*ast.Ident)
		return ok && types.Universe.Lookup(id.Name) != nil && id.Name != "any" && id.Name != "error"
	case *ast.CallExpr:
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && (id.Name == "errors" && s.Sel.Name == "New" || id.Name == "reflect" && s.Sel.Name == "TypeOf") {
				return true
			}
			return s.Sel.Name == "Elem" && neverChanges(s.X)
		}
	}
	return false
}

// root is the name of the variable that an expression is a part of.
func root(x ast.Expr) string {
	for {
		switch y := x.(type) {
		case *ast.Ident:
			return y.Name
		case *ast.IndexExpr:
			x = y.X
		case *ast.SelectorExpr:
			x = y.X
		case *ast.StarExpr:
			x = y.X
		case *ast.ParenExpr:
			x = y.X
		case *ast.SliceExpr:
			x = y.X
		default:
			return ""
		}
	}
}

// varFiles returns additional files, one per package, which make the package-level
// variables known to the simulator.
func varFiles(files []string, mod string) map[string]string {
	vars, names := map[string][]string{}, map[string]string{}
	for _, p := range files {
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil || f.Name.Name == "main" {
			continue
		}
		dir := filepath.Dir(p)
		if ok, err := build.Default.MatchFile(dir, filepath.Base(p)); err != nil || !ok {
			continue
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						vars[dir] = append(vars[dir], "&"+n.Name)
						names[dir] = f.Name.Name
					}
				}
			}
		}
	}
	out := map[string]string{}
	for dir, l := range vars {
		out[filepath.Join(dir, "zz_verif_vars.go")] = "package " + names[dir] + "\n\nimport verifhook " +
			strconv.Quote(mod+"/verifhook") + "\n\nfunc init() { verifhook.Vars(" + strings.Join(l, ", ") + ") }\n"
	}
	return out
}

// syncMethods are the methods of package sync and sync/atomic.
var syncMethods = map[string]bool{
	"Load": true, "Store": true, "CompareAndSwap": true, "Swap": true, "Add": true, "And": true, "Or": true,
	"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "TryLock": true, "TryRLock": true,
	"LoadOrStore": true, "LoadAndDelete": true, "Get": true, "Put": true, "Delete": true, "Do": true,
}

// hookFor returns the hook to call before a statement. It considers what the statement
// itself evaluates, statements within it have hooks of their own.
func hookFor(s ast.Stmt, vars map[string]bool) string {
	hook := "Y"
	visit := func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.SelectorExpr:
			if syncMethods[n.Sel.Name] {
				hook = "S"
			}
		case *ast.Ident:
			if vars[n.Name] && (n.Obj == nil || n.Obj.Kind == ast.Var && isPackageLevel(n.Obj)) {
				hook = "S"
			}
		}
		return true
	}
	ast.Inspect(s, visit)
	return hook
}

func isPackageLevel(o *ast.Object) bool {
	// Parameters and variables declared by := have other declarations. Local var
	// declarations are taken for package-level ones if the names are the same.
	_, ok := o.Decl.(*ast.ValueSpec)
	return ok
}

// libCalls makes calls of library functions count the bytes they are given.
func libCalls(f *ast.File, off func(token.Pos) int) (edits []ins) {
	imports := map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := p[strings.LastIndexByte(p, '/')+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		imports[n] = p
	}
	around := func(n ast.Node, fn, arg string) {
		edits = append(edits, ins{off: off(n.Pos()), s: "verifhook." + fn + "("}, ins{off: off(n.End()), s: arg + ")"})
	}
	visit := func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		switch fun := c.Fun.(type) {
		case *ast.Ident:
			if fun.Obj != nil {
				break
			}
			switch {
			case fun.Name == "copy" && len(c.Args) == 2:
				around(c, "N", "")
			case fun.Name == "append" && c.Ellipsis.IsValid():
				around(c.Args[len(c.Args)-1], "L", "")
			}
		case *ast.SelectorExpr:
			if x, ok := fun.X.(*ast.Ident); ok && x.Obj == nil {
				if w := libFuncs[imports[x.Name]+"."+fun.Sel.Name]; w != "" {
					around(fun, w[:3], ", '"+w[4:]+"'")
					break
				}
			}
			// The tokenizer's package.
			switch fun.Sel.Name {
			case "Tokenize", "Valid", "Validate", "Scan":
				if len(c.Args) > 0 {
					around(c.Args[0], "L", "")
				}
			}
		}
		return true
	}
	for _, d := range f.Decls {
		if d, ok := d.(*ast.FuncDecl); ok && d.Body != nil {
			ast.Inspect(d.Body, visit)
		}
	}
	return edits
}

func hasDirective(g *ast.CommentGroup, ds ...string) bool {
	if g == nil {
		return false
	}
	for _, c := range g.List {
		for _, d := range ds {
			if strings.HasPrefix(c.Text, d) {
				return true
			}
		}
	}
	return false
}

func modPath(p string) string {
	b, err := os.ReadFile(p)
	die(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	die(fmt.Errorf("no module line in %s", p))
	return ""
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}
