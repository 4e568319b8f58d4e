// verifgen rewrites the Go sources of a checkout into an overlay in which
// every source of nondeterminism the model checker owns goes through a seam:
//
//   - import "sync", "sync/atomic", "time"  -> zzverif/vsync, vatomic, vtime
//   - import "math/rand", "math/rand/v2"    -> zzverif/vrand, vrand2
//   - go f(x)                               -> vrt.Go(func() { f(x) })
//   - for k, v := range <map>               -> iteration over vrt.MapKeys(m)
//   - in packages that use locks, memory accesses through pointers, maps and
//     slices are announced to the scheduler (vrt.Mem) before the statement
//
// Nothing else is touched and nothing is written into the checkout: the
// rewritten files, the shim packages and the harness are handed to the go
// command with -overlay.  The rewriting is purely syntactic/type driven and
// knows nothing about the names used in the checkout.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	repo   = flag.String("repo", "/repo", "checkout")
	src    = flag.String("src", "", "directory with the shim and harness packages")
	out    = flag.String("out", "", "scratch output directory")
	noMap  = flag.Bool("nomap", false, "leave map iteration alone")
	noGo   = flag.Bool("nogo", false, "leave go statements alone")
	noMem  = flag.Bool("nomem", false, "no scheduling points at memory accesses")
	logMem = flag.Bool("logmem", false, "scheduling points inside the logger, too")
	noSync = flag.Bool("nosync", false, "leave sync alone")
)

const shim = "zzverif"

type pkgInfo struct {
	dir   string
	path  string
	files []*ast.File
	names []string
	tpkg  *types.Package
	info  *types.Info
	busy  bool
	// instrument memory accesses
	shares bool
}

var (
	fset = token.NewFileSet()
	mod  string
	pkgs = map[string]*pkgInfo{}
)

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "verifgen:", err)
		os.Exit(3)
	}
}

func modName() string {
	b, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	fatal(err)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	fatal(fmt.Errorf("no module line in go.mod"))
	return ""
}

type imp struct{}

func (imp) Import(p string) (*types.Package, error) {
	if pi, ok := pkgs[p]; ok {
		check(pi)
		if pi.tpkg != nil {
			return pi.tpkg, nil
		}
	}
	return nil, fmt.Errorf("not loaded: %s", p)
}

func check(pi *pkgInfo) {
	if pi.tpkg != nil || pi.busy {
		return
	}
	pi.busy = true
	pi.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp{}, Error: func(error) {}, FakeImportC: true}
	pi.tpkg, _ = conf.Check(pi.path, fset, pi.files, pi.info)
	pi.busy = false
}

func main() {
	flag.Parse()
	mod = modName()
	overlay := map[string]string{}

	fatal(filepath.WalkDir(*repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			n := d.Name()
			if p != *repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		dir := filepath.Dir(p)
		rel, _ := filepath.Rel(*repo, dir)
		ip := path.Join(mod, filepath.ToSlash(rel))
		// files with another package clause in the same directory (ignored
		// or tool files) get their own bucket
		key := ip
		if pi, ok := pkgs[key]; ok && pi.files[0].Name.Name != f.Name.Name {
			key = ip + "#" + f.Name.Name
		}
		pi := pkgs[key]
		if pi == nil {
			pi = &pkgInfo{dir: dir, path: ip}
			pkgs[key] = pi
		}
		pi.files = append(pi.files, f)
		pi.names = append(pi.names, p)
		return nil
	}))
	keys := make([]string, 0, len(pkgs))
	for k := range pkgs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		check(pkgs[k])
		pkgs[k].shares = sharesMemory(pkgs[k])
	}
	nMap, nGo := 0, 0
	for _, k := range keys {
		pi := pkgs[k]
		for i, f := range pi.files {
			m, g := rewrite(pi, f)
			nMap += m
			nGo += g
			var buf bytes.Buffer
			fatal((&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, fset, f))
			b, err := format.Source(buf.Bytes())
			fatal(err)
			rel, _ := filepath.Rel(*repo, pi.names[i])
			o := filepath.Join(*out, "src", rel)
			fatal(os.MkdirAll(filepath.Dir(o), 0o755))
			fatal(os.WriteFile(o, b, 0o644))
			overlay[pi.names[i]] = o
		}
	}
	register := registrations(keys)
	// shims and harness, with the module path substituted
	fatal(filepath.WalkDir(*src, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		b = bytes.ReplaceAll(b, []byte(`"gRedis/`), []byte(`"`+mod+`/`))
		rel, _ := filepath.Rel(*src, p)
		o := filepath.Join(*out, "shim", rel)
		fatal(os.MkdirAll(filepath.Dir(o), 0o755))
		fatal(os.WriteFile(o, b, 0o644))
		overlay[filepath.Join(*repo, shim, rel)] = o
		return nil
	}))
	reg := filepath.Join(*out, "shim", "harness", "zzregister.go")
	fatal(os.WriteFile(reg, []byte(register), 0o644))
	overlay[filepath.Join(*repo, shim, "harness", "zzregister.go")] = reg
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	fatal(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	fmt.Printf("verifgen: %d files, %d map ranges, %d go statements\n", len(overlay), nMap, nGo)
}

// registrations writes the harness's registerAll: the calls without arguments
// and results that package main makes into the module's packages (in the order
// in which they are written), or, where it makes none, those of the exported
// functions of that shape called Register... .
func registrations(keys []string) string {
	type call struct{ pkg, fn string }
	var calls []call
	seen := map[call]bool{}
	add := func(o types.Object) {
		f, ok := o.(*types.Func)
		if !ok || f.Pkg() == nil || !f.Exported() {
			return
		}
		sig := f.Type().(*types.Signature)
		p := f.Pkg().Path()
		c := call{p, f.Name()}
		if sig.Recv() != nil || sig.TypeParams() != nil || sig.Params().Len() != 0 || sig.Results().Len() != 0 || !strings.HasPrefix(p, mod+"/") || seen[c] {
			return
		}
		seen[c] = true
		calls = append(calls, c)
	}
	for _, k := range keys {
		pi := pkgs[k]
		if pi.dir != filepath.Clean(*repo) || pi.files[0].Name.Name != "main" {
			continue
		}
		for _, f := range pi.files {
			// as a value too: a table of functions to call
			ast.Inspect(f, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && pi.info.Uses[id] != nil {
					add(pi.info.Uses[id])
				}
				return true
			})
		}
	}
	if len(calls) == 0 {
		for _, k := range keys {
			if pi := pkgs[k]; pi.tpkg != nil && pi.files[0].Name.Name != "main" {
				for _, n := range pi.tpkg.Scope().Names() {
					if strings.HasPrefix(n, "Register") {
						add(pi.tpkg.Scope().Lookup(n))
					}
				}
			}
		}
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n")
	alias := map[string]string{}
	for _, c := range calls {
		if alias[c.pkg] == "" {
			alias[c.pkg] = fmt.Sprintf("p%d", len(alias))
			fmt.Fprintf(&b, "\t%s %q\n", alias[c.pkg], c.pkg)
		}
	}
	b.WriteString(")\n\nfunc registerAll() {\n")
	for _, c := range calls {
		fmt.Fprintf(&b, "\t%s.%s()\n", alias[c.pkg], c.fn)
	}
	b.WriteString("}\n")
	return b.String()
}

var shimOf = map[string]string{"sync": "vsync", "sync/atomic": "vatomic", "time": "vtime", "math/rand": "vrand", "math/rand/v2": "vrand2"}

func rewrite(pi *pkgInfo, f *ast.File) (nMap, nGo int) {
	// 1. imports
	for _, is := range f.Imports {
		p, _ := strconv.Unquote(is.Path.Value)
		to, ok := shimOf[p]
		if !ok || (*noSync && p != "time") {
			continue
		}
		if is.Name == nil {
			is.Name = ast.NewIdent(path.Base(strings.TrimSuffix(p, "/v2")))
		}
		is.Path.Value = strconv.Quote(mod + "/" + shim + "/" + to)
		is.EndPos = 0
	}
	// 2. shared memory accesses
	need := memPass(pi, f)
	// 3. statements
	ctr := 0
	fresh := func() string { ctr++; return fmt.Sprintf("zzv%d_%d", ctr, len(f.Decls)) }

	isMap := func(e ast.Expr) bool {
		if pi.info == nil {
			return false
		}
		tv, ok := pi.info.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Map)
		return ok
	}

	var fix func(s ast.Stmt, labelled bool) ast.Stmt
	fix = func(s ast.Stmt, labelled bool) ast.Stmt {
		switch x := s.(type) {
		case *ast.LabeledStmt:
			x.Stmt = fix(x.Stmt, true)
			return x
		case *ast.RangeStmt:
			if *noMap || !isMap(x.X) {
				return s
			}
			need = true
			nMap++
			kn, mn, on, vn := fresh(), fresh(), fresh(), fresh()
			isBlank := func(e ast.Expr) bool {
				id, ok := e.(*ast.Ident)
				return e == nil || (ok && id.Name == "_")
			}
			orig := x.X
			var again ast.Expr = ast.NewIdent(mn)
			if labelled {
				again = orig // a labelled loop must stay the labelled statement
			}
			body := []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(vn), ast.NewIdent(on)}, Tok: token.DEFINE,
					Rhs: []ast.Expr{&ast.IndexExpr{X: again, Index: ast.NewIdent(kn)}}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(on)},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(vn)}},
			}
			if !isBlank(x.Key) {
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(kn)}})
			}
			if !isBlank(x.Value) {
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Value}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(vn)}})
			}
			body = append(body, x.Body)
			keysOf := func(e ast.Expr) ast.Expr {
				return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zzvrt"), Sel: ast.NewIdent("MapKeys")}, Args: []ast.Expr{e}}
			}
			x.Key, x.Value, x.Tok, x.X, x.Body = ast.NewIdent("_"), ast.NewIdent(kn), token.DEFINE, keysOf(again), &ast.BlockStmt{List: body}
			if labelled {
				return x
			}
			return &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(mn)}, Tok: token.DEFINE, Rhs: []ast.Expr{orig}},
				x,
			}}
		case *ast.GoStmt:
			if *noGo {
				return s
			}
			need = true
			nGo++
			call := x.Call
			var binds []ast.Stmt
			bind := func(e ast.Expr) ast.Expr {
				if pi.info != nil && pi.info.Types[e].Value != nil {
					return e
				}
				switch y := e.(type) {
				case *ast.BasicLit, *ast.FuncLit:
					return e
				case *ast.Ident:
					if y.Name == "nil" || y.Name == "true" || y.Name == "false" {
						return e
					}
				}
				n := fresh()
				binds = append(binds, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
				return ast.NewIdent(n)
			}
			switch fn := call.Fun.(type) {
			case *ast.FuncLit, *ast.Ident:
			case *ast.SelectorExpr:
				// method value or package function: bind once
				call.Fun = bind(fn)
			default:
				call.Fun = bind(fn)
			}
			for i := range call.Args {
				call.Args[i] = bind(call.Args[i])
			}
			g := &ast.ExprStmt{X: &ast.CallExpr{
				Fun: &ast.SelectorExpr{X: ast.NewIdent("zzvrt"), Sel: ast.NewIdent("Go")},
				Args: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}},
			}}
			if len(binds) == 0 {
				return g
			}
			return &ast.BlockStmt{List: append(binds, g)}
		}
		return s
	}
	fixList := func(l []ast.Stmt) {
		for i := range l {
			l[i] = fix(l[i], false)
		}
	}
	// collect blocks first (post-order so that inner rewrites happen once)
	var lists [][]ast.Stmt
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			lists = append(lists, x.List)
		case *ast.CaseClause:
			lists = append(lists, x.Body)
		case *ast.CommClause:
			lists = append(lists, x.Body)
		}
		return true
	})
	for i := len(lists) - 1; i >= 0; i-- {
		fixList(lists[i])
	}
	if need {
		addImport(f, "zzvrt", mod+"/"+shim+"/vrt")
	}
	// comments inside rewritten regions can be re-attached oddly by the
	// printer; they carry no behaviour except //go: directives, so keep only
	// directive comments and the ones before the package clause
	var keep []*ast.CommentGroup
	for _, cg := range f.Comments {
		dir := cg.End() < f.Package
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:") {
				dir = true
			}
		}
		if dir {
			keep = append(keep, cg)
		}
	}
	f.Comments = keep
	return
}

// sharesMemory: packages whose code runs on behalf of several clients at
// once: those that use locks and start no goroutines of their own.
func sharesMemory(pi *pkgInfo) bool {
	has, gos := false, false
	for _, f := range pi.files {
		for _, is := range f.Imports {
			p, _ := strconv.Unquote(is.Path.Value)
			if p == "sync" || p == mod+"/"+shim+"/vsync" {
				has = true
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.GoStmt); ok {
				gos = true
			}
			return true
		})
	}
	if path.Base(pi.path) == "logger" {
		return *logMem
	}
	return has && !gos
}

// memPass inserts vrt.Mem calls before statements that access memory through
// pointers, maps and slices.
func memPass(pi *pkgInfo, f *ast.File) bool {
	if *noMem || pi.info == nil || !pi.shares {
		return false
	}
	did := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			x.List = memList(pi, x.List, &did)
		case *ast.CaseClause:
			x.Body = memList(pi, x.Body, &did)
		case *ast.CommClause:
			x.Body = memList(pi, x.Body, &did)
		}
		return true
	})
	return did
}

type access struct {
	e     ast.Expr
	write bool
	addr  bool // e is a variable: its own memory
}

func memList(pi *pkgInfo, l []ast.Stmt, did *bool) []ast.Stmt {
	var out []ast.Stmt
	for _, st := range l {
		var acc []access
		switch st.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.BlockStmt, *ast.DeclStmt, *ast.BranchStmt, *ast.EmptyStmt:
		default:
			acc = accesses(pi, st)
			if *logMem && path.Base(pi.path) == "logger" && !inserted(st) {
				acc = append(acc, logAccesses(pi, st)...)
			}
		}
		if len(acc) > 0 {
			*did = true
			var body []ast.Stmt
			for _, a := range acc {
				fn := "R"
				if a.write {
					fn = "W"
				}
				if a.addr {
					x := copyExpr(a.e)
					if a.e.(*ast.Ident).Name == outside {
						x = &ast.SelectorExpr{X: ast.NewIdent("zzvrt"), Sel: ast.NewIdent("Outside")}
					}
					body = append(body, &ast.ExprStmt{X: &ast.CallExpr{
						Fun:  &ast.SelectorExpr{X: ast.NewIdent("zzvrt"), Sel: ast.NewIdent(fn + "P")},
						Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: x}}}})
					continue
				}
				switch pi.info.Types[a.e].Type.Underlying().(type) {
				case *types.Pointer:
					fn += "P"
				case *types.Map:
					fn += "M"
				case *types.Slice:
					fn += "S"
				}
				body = append(body, &ast.ExprStmt{X: &ast.CallExpr{
					Fun:  &ast.SelectorExpr{X: ast.NewIdent("zzvrt"), Sel: ast.NewIdent(fn)},
					Args: []ast.Expr{copyExpr(a.e)}}})
			}
			out = append(out, &ast.ExprStmt{X: &ast.CallExpr{
				Fun:  &ast.SelectorExpr{X: ast.NewIdent("zzvrt"), Sel: ast.NewIdent("Mem")},
				Args: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}},
			}})
		}
		out = append(out, st)
	}
	return out
}

// accesses lists the objects a statement reads or writes itself (not the
// blocks nested in it).
func accesses(pi *pkgInfo, st ast.Stmt) []access {
	var out []access
	add := func(e ast.Expr, write bool) {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
		}
		tv, ok := pi.info.Types[e]
		if !ok || tv.Type == nil || !simpleExpr(pi, e, st.Pos()) {
			return
		}
		switch tv.Type.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice:
		default:
			return
		}
		key := types.ExprString(e)
		for i := range out {
			if types.ExprString(out[i].e) == key {
				out[i].write = out[i].write || write
				return
			}
		}
		out = append(out, access{e, write, false})
	}
	// object whose memory the expression e denotes a part of
	var touch func(e ast.Expr, write bool)
	touch = func(e ast.Expr, write bool) {
		switch x := e.(type) {
		case *ast.ParenExpr:
			touch(x.X, write)
		case *ast.SelectorExpr:
			add(x.X, write)
		case *ast.IndexExpr:
			add(x.X, write)
		case *ast.StarExpr:
			add(x.X, write)
		}
	}
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
				return false
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					return false
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 {
					switch id.Name {
					case "delete", "clear", "copy":
						add(x.Args[0], true)
					case "len", "append":
						add(x.Args[0], false)
					}
				}
				for _, a := range x.Args {
					walk(a)
				}
				return false
			case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
				touch(n.(ast.Expr), false)
			}
			return true
		})
	}
	switch x := st.(type) {
	case *ast.AssignStmt:
		for _, e := range x.Lhs {
			if _, ok := e.(*ast.Ident); !ok {
				touch(e, true)
				walk(e)
			}
		}
		for _, e := range x.Rhs {
			walk(e)
		}
	case *ast.IncDecStmt:
		touch(x.X, true)
		walk(x.X)
	case *ast.RangeStmt:
		add(x.X, false)
		walk(x.X)
	case *ast.DeferStmt, *ast.GoStmt:
		return nil
	case *ast.LabeledStmt:
		return accesses(pi, x.Stmt)
	default:
		walk(st)
	}
	return out
}

// inserted: st is one of our own calls
func inserted(st ast.Stmt) bool {
	in := false
	ast.Inspect(st, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == "zzvrt" {
			in = true
		}
		return !in
	})
	return in
}

const outside = "·outside"

// logAccesses lists, for a statement of the logger, the package variables it
// uses and whether it calls into a package outside the module (other than the
// locks): such calls all count as writes to one object, so that every order of
// them that no lock rules out is explored.
func logAccesses(pi *pkgInfo, st ast.Stmt) []access {
	switch st.(type) {
	case *ast.DeferStmt, *ast.GoStmt:
		return nil
	}
	var out []access
	add := func(id *ast.Ident, write bool) {
		for i := range out {
			if out[i].e.(*ast.Ident).Name == id.Name {
				out[i].write = out[i].write || write
				return
			}
		}
		out = append(out, access{id, write, true})
	}
	written := map[*ast.Ident]bool{}
	if a, ok := st.(*ast.AssignStmt); ok {
		for _, l := range a.Lhs {
			if id, ok := l.(*ast.Ident); ok {
				written[id] = true
			}
		}
	}
	ast.Inspect(st, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.Ident:
			if v, ok := pi.info.Uses[x].(*types.Var); ok && v.Pkg() == pi.tpkg && v.Parent() == pi.tpkg.Scope() {
				add(x, written[x])
			}
		case *ast.CallExpr:
			// only the module itself is type checked: what is not resolved
			// belongs to other packages
			sel, ok := x.Fun.(*ast.SelectorExpr)
			if !ok || pi.info.Uses[sel.Sel] != nil {
				break
			}
			switch sel.Sel.Name {
			case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
				return true
			}
			if id, ok := sel.X.(*ast.Ident); ok {
				if pn, ok := pi.info.Uses[id].(*types.PkgName); ok && pureCall(pn.Imported().Path(), sel.Sel.Name) {
					return true
				}
			}
			add(ast.NewIdent(outside), true)
		}
		return true
	})
	return out
}

// pureCall: the function computes a value from its arguments.
func pureCall(pkg, fn string) bool {
	switch pkg {
	case "strings", "strconv", "errors", "path", "bytes", "slices", "unicode", "unicode/utf8", "math":
		return true
	case "path/filepath":
		return fn == "Join" || fn == "Base" || fn == "Dir" || fn == "Ext" || fn == "Clean"
	case "runtime":
		return fn == "Caller" || fn == "Callers" || fn == "FuncForPC"
	case "fmt":
		return strings.HasPrefix(fn, "Sprint") || fn == "Errorf"
	}
	return false
}

// simpleExpr: e can be evaluated again, before the statement at pos.
func simpleExpr(pi *pkgInfo, e ast.Expr, pos token.Pos) bool {
	switch x := e.(type) {
	case *ast.Ident:
		v, ok := pi.info.Uses[x].(*types.Var)
		return ok && (v.Pos() < pos || v.Parent() == pi.tpkg.Scope())
	case *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return simpleExpr(pi, x.X, pos)
	case *ast.StarExpr:
		return simpleExpr(pi, x.X, pos)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isVar := pi.info.Uses[id].(*types.Var); !isVar {
				return false
			}
		}
		return simpleExpr(pi, x.X, pos)
	case *ast.IndexExpr:
		return simpleExpr(pi, x.X, pos) && simpleExpr(pi, x.Index, pos)
	case *ast.BinaryExpr:
		return (x.Op == token.ADD || x.Op == token.SUB) && simpleExpr(pi, x.X, pos) && simpleExpr(pi, x.Y, pos)
	}
	return false
}

func copyExpr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return ast.NewIdent(x.Name)
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: x.Kind, Value: x.Value}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: copyExpr(x.X)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: copyExpr(x.X)}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: copyExpr(x.X), Sel: ast.NewIdent(x.Sel.Name)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: copyExpr(x.X), Index: copyExpr(x.Index)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: copyExpr(x.X), Op: x.Op, Y: copyExpr(x.Y)}
	}
	panic("copyExpr")
}

func addImport(f *ast.File, name, p string) {
	spec := &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}}
	gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	f.Decls = append([]ast.Decl{gd}, f.Decls...)
	f.Imports = append(f.Imports, spec)
}
