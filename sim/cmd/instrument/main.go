// instrument rewrites the current sources of /repo into an overlay for
// `go build -overlay`, without touching /repo:
//
//   - imports of os, os/exec, path/filepath, syscall, io/ioutil, time, sync, maps, math/rand
//     and crypto/rand become the simulated ones, so every
//     file, process and clock operation of the code under test goes to the simulator;
//   - a call to rt.Y(site) is put before every statement: a yield point for the
//     scheduler and a coverage counter;
//   - every `range` over a map draws its order from the run (rt.KV);
//   - every `go` statement starts a goroutine owned by the scheduler (rt.Go), and every
//     channel operation (send, receive, range, close, len, select) is the scheduler's.
//
// The rewriting is textual and keeps line numbers.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path, Dir string }
	Error      *struct{ Err string }
}

type edit struct {
	off, end int
	text     string
	prio     int
}

var simImports = map[string]string{
	"os":        "vsim/simos",
	"os/exec":   "vsim/simexec",
	"io/ioutil": "vsim/simioutil",
	"time":      "vsim/simtime",
	"sync":      "vsim/simsync",
	"maps":      "vsim/simmaps",
	"math/rand": "vsim/simrand",

	"math/rand/v2":  "vsim/simrand2",
	"crypto/rand":   "vsim/simcrand",
	"path/filepath": "vsim/simpath",
	"syscall":       "vsim/simsyscall",
	"context":       "vsim/simcontext",
	"runtime":       "vsim/simruntime",
	"hash/maphash":  "vsim/simmaphash",
}
var defaultName = map[string]string{"os": "os", "os/exec": "exec", "io/ioutil": "ioutil", "time": "time",
	"sync": "sync", "maps": "maps", "math/rand": "rand", "math/rand/v2": "rand", "crypto/rand": "rand",
	"path/filepath": "filepath", "syscall": "syscall", "context": "context", "runtime": "runtime", "hash/maphash": "maphash"}

// provided lists what each simulated package has; anything else of the real package
// (constants, pure functions, types) stays the real one.
var provided = map[string]map[string]bool{}

func readShims(dir string) {
	for path, to := range simImports {
		have := map[string]bool{}
		ms, _ := filepath.Glob(filepath.Join(dir, strings.TrimPrefix(to, "vsim/"), "*.go"))
		if len(ms) == 0 {
			fatal("no sources of %s in %s", to, dir)
		}
		for _, m := range ms {
			f, err := parser.ParseFile(token.NewFileSet(), m, nil, 0)
			if err != nil {
				fatal("%v", err)
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
		provided[path] = have
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "output directory")
	shims := flag.String("shims", ".", "directory of the simulated packages")
	flag.Parse()
	if *out == "" {
		fatal("-out missing")
	}
	readShims(*shims)
	cmd := exec.Command("go", "list", "-e", "-export", "-deps",
		"-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Module,Error", "./...")
	cmd.Dir = *repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	raw, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	var pkgs []listPkg
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if !p.Standard && p.Module != nil && p.Name != "main" && !strings.Contains(p.ImportPath, "/internal/test") {
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	overlay := map[string]string{}
	type siteInfo struct {
		Pos string `json:"pos"`
	}
	var sites []string
	for _, p := range pkgs {
		var files []*ast.File
		var srcs [][]byte
		for _, g := range p.GoFiles {
			path := filepath.Join(p.Dir, g)
			src, err := os.ReadFile(path)
			if err != nil {
				fatal("%v", err)
			}
			f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				fatal("parse: %v", err)
			}
			files = append(files, f)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
		cfg := types.Config{Importer: imp}
		if _, err := cfg.Check(p.ImportPath, fset, files, info); err != nil {
			fatal("type check %s: %v", p.ImportPath, err)
		}
		for i, f := range files {
			path := fset.Position(f.Package).Filename
			rel, _ := filepath.Rel(*repo, path)
			newSrc := rewrite(fset, f, srcs[i], info, rel, &sites)
			dst := filepath.Join(*out, "src", strings.ReplaceAll(rel, "/", "__"))
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				fatal("%v", err)
			}
			if err := os.WriteFile(dst, newSrc, 0o644); err != nil {
				fatal("%v", err)
			}
			overlay[path] = dst
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
	b, _ = json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}

func rewrite(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, rel string, sites *[]string) []byte {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(o, e int, t string, prio int) { edits = append(edits, edit{o, e, t, prio}) }

	// Imports.
	simName := map[string]string{}
	tail := ""
	add(off(f.Name.End()), off(f.Name.End()), "; import vrt \"vsim/rt\"", 0)
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if to, ok := simImports[path]; ok {
			t := strconv.Quote(to)
			name := defaultName[path]
			if im.Name == nil {
				t = name + " " + t
			} else {
				name = im.Name.Name
			}
			add(off(im.Path.Pos()), off(im.Path.End()), t, 0)
			if name != "_" && name != "." {
				simName[name] = path
				tail += "\nvar _ = " + name + ".VrtShim\n"
			}
		}
	}
	// What the simulated package lacks is taken from the real one.
	realUsed := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok {
			return true
		}
		if _, ok := info.Uses[id].(*types.PkgName); !ok {
			return true
		}
		path, ok := simName[id.Name]
		if !ok || provided[path][se.Sel.Name] {
			return true
		}
		add(off(id.Pos()), off(id.End()), "vrtreal_"+id.Name, 0)
		if !realUsed[id.Name] {
			realUsed[id.Name] = true
			add(off(f.Name.End()), off(f.Name.End()), fmt.Sprintf("; import vrtreal_%s %q", id.Name, path), 0)
			fmt.Fprintf(os.Stderr, "instrument: %s: %s.%s is not simulated\n", rel, path, se.Sel.Name)
		}
		return true
	})
	used := false
	tmp := 0
	isChan := func(e ast.Expr) bool {
		t := info.TypeOf(e)
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Chan)
		return ok
	}
	text := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	two := map[ast.Expr]bool{}  // receives with a second result
	comm := map[ast.Node]bool{} // channel operations of a select
	recvOf := func(e ast.Expr) *ast.UnaryExpr {
		u, _ := ast.Unparen(e).(*ast.UnaryExpr)
		if u != nil && u.Op == token.ARROW {
			return u
		}
		return nil
	}
	labeled := map[ast.Stmt]bool{}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			pos := fset.Position(s.Pos())
			id := len(*sites)
			*sites = append(*sites, fmt.Sprintf("%s:%d", rel, pos.Line))
			add(pos.Offset, pos.Offset, fmt.Sprintf("vrt.Y(%d); ", id), 1)
			used = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.LabeledStmt:
			labeled[x.Stmt] = true
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.ForStmt:
			// A loop without a body must still come up for air.
			id := len(*sites)
			*sites = append(*sites, fmt.Sprintf("%s:%d", rel, fset.Position(x.For).Line))
			add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, fmt.Sprintf(" vrt.Y(%d); ", id), 0)
			used = true
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.RangeStmt:
			t := info.TypeOf(x.X)
			if t == nil {
				return true
			}
			if isChan(x.X) {
				n := tmp
				tmp++
				add(off(x.For), off(x.X.Pos()), fmt.Sprintf("for vrtC%d := ", n), 2)
				add(off(x.X.End()), off(x.X.End()), "; ; ", 0)
				bind := fmt.Sprintf(" vrtV%d, vrtOK%d := vrt.Recv2(vrtC%d); if !vrtOK%d { break }; ", n, n, n, n)
				if isBlank(x.Key) {
					bind += fmt.Sprintf("_ = vrtV%d; ", n)
				} else if x.Tok == token.DEFINE {
					bind += fmt.Sprintf("%s := vrtV%d; ", text(x.Key), n)
				} else {
					bind += fmt.Sprintf("%s = vrtV%d; ", text(x.Key), n)
				}
				add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, bind, 0)
				used = true
				return true
			}
			if _, ok := t.Underlying().(*types.Map); !ok {
				return true
			}
			v := fmt.Sprintf("vrtE%d", tmp)
			tmp++
			bind := ""
			k, val := "", ""
			if x.Key != nil {
				k = text(x.Key)
			}
			if x.Value != nil {
				val = text(x.Value)
			}
			op := "="
			if x.Tok == token.DEFINE {
				op = ":="
			}
			none := func(s string) bool { return s == "" || s == "_" }
			if !none(k) && !none(val) {
				bind = fmt.Sprintf("%s, %s %s %s.K, %s.V(); ", k, val, op, v, v)
			} else if !none(k) {
				bind = fmt.Sprintf("%s %s %s.K; ", k, op, v)
			} else if !none(val) {
				bind = fmt.Sprintf("%s %s %s.V(); ", val, op, v)
			}
			// `for k, v := range ` -> `for _, e := range vrt.KV(`  X  `) {`...
			add(off(x.For), off(x.X.Pos()), fmt.Sprintf("for _, %s := range vrt.KV(", v), 2)
			add(off(x.X.End()), off(x.X.End()), ")", 0)
			add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, fmt.Sprintf(" if !%s.Live() { continue }; %s", v, bind), 0)
			used = true
		case *ast.GoStmt:
			// go f(a, b) -> vrt.Go(func() func() { vrtF := f; vrtA0, vrtA1 := a, b; return func() { vrtF(vrtA0, vrtA1) } }())
			c := x.Call
			used = true
			if plainFunc(c.Fun, info) && len(c.Args) == 0 {
				add(off(x.Go), off(c.Fun.Pos()), "vrt.Go(", 2)
				add(off(c.Fun.End()), off(x.End()), ")", 0)
				return true
			}
			if !plainFunc(c.Fun, info) {
				// A builtin or a generic function.
				add(off(x.Go), off(c.Fun.Pos()), "vrt.Go(func() { ", 2)
				add(off(x.End()), off(x.End()), " })", 0)
				return true
			}
			var lhs, call []string
			bound := false
			for i, a := range c.Args {
				tv := info.Types[a]
				if tv.Value != nil || tv.IsNil() {
					lhs = append(lhs, "_")
					call = append(call, text(a))
					add(off(a.Pos()), off(a.End()), "0", 0)
					continue
				}
				bound = true
				nm := fmt.Sprintf("vrtA%d", i)
				lhs = append(lhs, nm)
				call = append(call, nm)
			}
			ell := ""
			if c.Ellipsis.IsValid() {
				ell = "..."
			}
			op := ":="
			if !bound {
				op = "="
			}
			last := c.Args[len(c.Args)-1]
			add(off(x.Go), off(c.Fun.Pos()), "vrt.Go(func() func() { vrtF := ", 2)
			add(off(c.Lparen), off(c.Lparen)+1, fmt.Sprintf("; %s %s ", strings.Join(lhs, ", "), op), 0)
			add(off(last.End()), off(x.End()), fmt.Sprintf("; return func() { vrtF(%s%s) } }())", strings.Join(call, ", "), ell), 3)
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u := recvOf(x.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u := recvOf(x.Values[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.UnaryExpr:
			if x.Op != token.ARROW || comm[x] {
				return true
			}
			f := "vrt.Recv("
			if two[x] {
				f = "vrt.Recv2("
			}
			add(off(x.OpPos), off(x.OpPos)+2, f, 2)
			add(off(x.X.End()), off(x.X.End()), ")", 0)
			used = true
		case *ast.SendStmt:
			if comm[x] {
				return true
			}
			add(off(x.Chan.Pos()), off(x.Chan.Pos()), "vrt.Send(", 2)
			add(off(x.Chan.End()), off(x.Value.Pos()), ")(", 1)
			add(off(x.Value.End()), off(x.Value.End()), ")", 0)
			used = true
		case *ast.CallExpr:
			id, ok := ast.Unparen(x.Fun).(*ast.Ident)
			if !ok || len(x.Args) != 1 {
				return true
			}
			if _, ok := info.Uses[id].(*types.Builtin); !ok {
				return true
			}
			if id.Name == "close" {
				add(off(id.Pos()), off(id.End()), "vrt.Close", 2)
				used = true
			} else if id.Name == "len" && isChan(x.Args[0]) {
				add(off(id.Pos()), off(id.End()), "vrt.Len", 2)
				used = true
			}
		case *ast.SelectStmt:
			// select { case v := <-a: A; case b <- w: B; default: D } ->
			// switch vrtX0, vrtX1 := vrt.R(a), vrt.S(b)(w); vrt.Select(true, vrtX0, vrtX1) { case 0: v := vrtX0.V; A; case 1: B; default: D }
			var names, inits []string
			def := false
			for _, cl := range x.Body.List {
				cc := cl.(*ast.CommClause)
				if cc.Comm == nil {
					def = true
					continue
				}
				k := len(names)
				nm := fmt.Sprintf("vrtX%d_%d", tmp, k)
				names = append(names, nm)
				bind := ""
				switch st := cc.Comm.(type) {
				case *ast.SendStmt:
					comm[st] = true
					inits = append(inits, fmt.Sprintf("vrt.S(%s)(%s)", text(st.Chan), text(st.Value)))
				case *ast.ExprStmt:
					u := recvOf(st.X)
					comm[u] = true
					inits = append(inits, fmt.Sprintf("vrt.R(%s)", text(u.X)))
				case *ast.AssignStmt:
					u := recvOf(st.Rhs[0])
					comm[u] = true
					inits = append(inits, fmt.Sprintf("vrt.R(%s)", text(u.X)))
					var l, r []string
					for i, e := range st.Lhs {
						l = append(l, text(e))
						r = append(r, nm+[]string{".V", ".OK"}[i])
					}
					all := true
					for _, e := range st.Lhs {
						all = all && isBlank(e)
					}
					if !all || st.Tok == token.ASSIGN {
						bind = " " + strings.Join(l, ", ") + " " + st.Tok.String() + " " + strings.Join(r, ", ") + "; "
					}
				}
				add(off(cc.Case), off(cc.Colon)+1, fmt.Sprintf("case %d:%s", k, bind), 2)
			}
			tmp++
			used = true
			if !def {
				// Ends a function where the select did.
				add(off(x.Body.Rbrace), off(x.Body.Rbrace), "; default: panic(\"unreachable\") ", 0)
			}
			if len(names) == 0 {
				if !def {
					add(off(x.Select), off(x.Body.Lbrace), "for { vrt.Block() }; switch ", 2)
				} else {
					add(off(x.Select), off(x.Body.Lbrace), "switch ", 2)
				}
				return true
			}
			add(off(x.Select), off(x.Body.Lbrace), fmt.Sprintf("switch %s := %s; vrt.Select(%v, %s) ", strings.Join(names, ", "), strings.Join(inits, ", "), def, strings.Join(names, ", ")), 2)
		}
		return true
	})
	if !used {
		tail += "\nvar _ = vrt.Y\n"
	}
	if tail != "" {
		add(len(src), len(src), tail, 9)
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].prio < edits[j].prio
	})
	var b bytes.Buffer
	fmt.Fprintf(&b, "")
	cur := 0
	for _, e := range edits {
		if e.off < cur {
			continue // nested inside replaced text
		}
		b.Write(src[cur:e.off])
		b.WriteString(e.text)
		// keep line structure of replaced text
		if nl := bytes.Count(src[e.off:e.end], []byte("\n")); nl > 0 && strings.Count(e.text, "\n") < nl {
			b.WriteString(strings.Repeat("\n", nl-strings.Count(e.text, "\n")))
		}
		cur = e.end
	}
	b.Write(src[cur:])
	_ = labeled
	return b.Bytes()
}

// plainFunc is false for what can not be bound to a variable.
func plainFunc(f ast.Expr, info *types.Info) bool {
	f = ast.Unparen(f)
	id, _ := f.(*ast.Ident)
	if se, ok := f.(*ast.SelectorExpr); ok {
		id = se.Sel
	}
	if id == nil {
		return true
	}
	switch o := info.Uses[id].(type) {
	case *types.Builtin:
		return false
	case *types.Func:
		sig, ok := o.Type().(*types.Signature)
		return ok && sig.TypeParams().Len() == 0
	}
	return true
}
