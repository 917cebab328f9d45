// Command vinstr makes an instrumented copy of a Go module and of the ANTLR
// runtime it uses. The copy behaves as the original does, except that
//
//   - a scheduling point precedes every statement (repository packages) or
//     opens every function and loop body (runtime package),
//   - sync, time.Now/Since/Until/Sleep, map iteration and go statements go
//     through packages owned by the simulator,
//   - every package has a SimReset function that puts all its package-level
//     state back to its initial value (a process restart).
//
// Edits are made in the text, so line numbers are those of the original.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct {
		Path, Dir string
		Main      bool
	}
	Error *struct{ Err string }
}

const antlrMod = "github.com/antlr/antlr4/runtime/Go/antlr"

type edit struct {
	off, end int // replace [off,end) with text; off==end inserts
	text     string
	prio     int // insertions at one offset: lower first
}

type fileEdits struct {
	src   []byte
	edits []edit
}

func (f *fileEdits) ins(off int, text string, prio int) {
	f.edits = append(f.edits, edit{off, off, text, prio})
}
func (f *fileEdits) rep(off, end int, text string) {
	f.edits = append(f.edits, edit{off, end, text, 50})
}

// render returns the edited text of [lo,hi).
func (f *fileEdits) render(lo, hi int) string {
	es := append([]edit(nil), f.edits...)
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		return es[i].prio < es[j].prio
	})
	var b strings.Builder
	p := lo
	for _, e := range es {
		if e.off < p || e.end > hi || e.off < lo {
			continue
		}
		if e.off == hi && e.off == e.end && hi != len(f.src) {
			continue
		}
		b.Write(f.src[p:e.off])
		b.WriteString(e.text)
		p = e.end
	}
	b.Write(f.src[p:hi])
	return b.String()
}

type site struct {
	Pkg  string
	File string
	Line int
	Kind string
}

var sites = []site{{}}

func newSite(pkg, file string, line int, kind string) int {
	sites = append(sites, site{pkg, file, line, kind})
	return len(sites) - 1
}

// raiseGo makes the copy of a module use a language version with type
// parameters. Before 1.22 loop variables keep their old meaning.
func raiseGo(gm string) string {
	lines := strings.Split(gm, "\n")
	for i, l := range lines {
		f := strings.Fields(l)
		if len(f) >= 2 && f[0] == "go" {
			v := strings.Split(f[1], ".")
			if len(v) >= 2 && v[0] == "1" {
				if n, err := strconv.Atoi(v[1]); err == nil && n < 18 {
					lines[i] = "go 1.18"
				}
			}
			return strings.Join(lines, "\n")
		}
	}
	return gm + "\ngo 1.18\n"
}

func fatal(args ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"vinstr:"}, args...)...)
	os.Exit(3)
}

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	flag.Parse()

	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Name,Dir,GoFiles,Export,Standard,Module,Error", "./...")
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	var pkgs []*listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(strings.NewReader(string(raw)))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && (p.Module.Main || p.Module.Path == antlrMod) && !p.Standard {
			q := p
			pkgs = append(pkgs, &q)
		}
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	done := map[string]*types.Package{}
	imp := impFunc(func(path string) (*types.Package, error) {
		if p, ok := done[path]; ok {
			return p, nil
		}
		return gc.Import(path)
	})
	instrumented := map[string]bool{}
	for _, p := range pkgs {
		instrumented[p.ImportPath] = true
	}

	modDirs := map[string]string{} // module path -> output dir
	var mainPath string
	var order []string
	for _, p := range pkgs {
		mode := "repo"
		outMod := filepath.Join(*out, "repo")
		if p.Module.Path == antlrMod {
			mode = "runtime"
			outMod = filepath.Join(*out, "antlr")
		} else {
			mainPath = p.Module.Path
		}
		if _, ok := modDirs[p.Module.Path]; !ok {
			modDirs[p.Module.Path] = outMod
			os.MkdirAll(outMod, 0o755)
			gm, err := os.ReadFile(filepath.Join(p.Module.Dir, "go.mod"))
			if err != nil {
				fatal(err)
			}
			g := raiseGo(string(gm))
			if err := os.WriteFile(filepath.Join(outMod, "go.mod"), []byte(g), 0o644); err != nil {
				fatal(err)
			}
		}
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		if err != nil {
			fatal(err)
		}
		od := filepath.Join(outMod, rel)
		os.MkdirAll(od, 0o755)
		copyOthers(p.Dir, od)
		instrument(fset, imp, done, p, mode, od, instrumented)
		if p.Name != "main" && !strings.Contains("/"+p.ImportPath+"/", "/internal/") {
			order = append(order, p.ImportPath)
		}
	}
	if mainPath == "" {
		fatal("no package found in", *src)
	}
	// The reset package calls every SimReset in dependency order. Internal
	// packages cannot be imported from it; they register themselves.
	var b strings.Builder
	b.WriteString("package simreset\n\nimport (\n\t\"verifsim/simrt\"\n")
	for _, p := range order {
		fmt.Fprintf(&b, "\t_ %q\n", p)
	}
	b.WriteString(")\n\n// All restarts the simulated process.\nfunc All() { simrt.ResetAll() }\n")
	rd := filepath.Join(*out, "rt", "simreset")
	os.MkdirAll(rd, 0o755)
	if err := os.WriteFile(filepath.Join(rd, "reset.go"), []byte(b.String()), 0o644); err != nil {
		fatal(err)
	}
	js, _ := json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), js, 0o644); err != nil {
		fatal(err)
	}
	fmt.Println(mainPath)
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(p string) (*types.Package, error) { return f(p) }

// copyOthers copies embedded data files and the like.
func copyOthers(from, to string) {
	es, err := os.ReadDir(from)
	if err != nil {
		fatal(err)
	}
	for _, e := range es {
		n := e.Name()
		if e.IsDir() || strings.HasSuffix(n, ".go") || n == "go.mod" || n == "go.sum" {
			continue
		}
		fi, err := e.Info()
		if err != nil || !fi.Mode().IsRegular() || fi.Size() > 1<<20 {
			continue
		}
		if b, err := os.ReadFile(filepath.Join(from, n)); err == nil {
			os.WriteFile(filepath.Join(to, n), b, 0o644)
		}
	}
}

func instrument(fset *token.FileSet, imp types.Importer, done map[string]*types.Package, p *listPkg, mode, od string, instrumented map[string]bool) {
	sort.Strings(p.GoFiles)
	var files []*ast.File
	var srcs [][]byte
	for _, n := range p.GoFiles {
		path := filepath.Join(p.Dir, n)
		b, err := os.ReadFile(path)
		if err != nil {
			fatal(err)
		}
		f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
		if err != nil {
			fatal(err)
		}
		files = append(files, f)
		srcs = append(srcs, b)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal("type check", p.ImportPath+":", err)
	}
	done[p.ImportPath] = tp

	w := &worker{fset: fset, info: info, pkg: tp, path: p.ImportPath, mode: mode}
	for i, f := range files {
		fe := &fileEdits{src: srcs[i]}
		w.file(f, fe, p.GoFiles[i], i)
	}
	// Package state: zero variables without initialiser, then initialisers in
	// the language's initialisation order, then init functions.
	type unit struct {
		fn string
	}
	var calls []string
	calls = append(calls, w.zeroFns...)
	owner := map[types.Object]string{}
	for fn, objs := range w.initFns {
		for _, o := range objs {
			owner[o] = fn
		}
	}
	seen := map[string]bool{}
	for _, in := range info.InitOrder {
		for _, l := range in.Lhs {
			if fn := owner[l]; fn != "" && !seen[fn] {
				seen[fn] = true
				calls = append(calls, fn)
			}
		}
	}
	calls = append(calls, w.userInits...)
	var z strings.Builder
	z.WriteString("//go:build go1.18\n\npackage " + p.Name + "\n\nimport (\n\tsimrt \"verifsim/simrt\"\n")
	if w.needSort {
		z.WriteString("\tsimsort \"sort\"\n")
	}
	z.WriteString(")\n\n")
	z.WriteString("func init() { simrt.RegisterReset(" + strconv.Quote(p.ImportPath) + ", SimReset) }\n\n")
	z.WriteString("// SimReset restores the package's initial state.\nfunc SimReset() {\n")
	for _, c := range calls {
		z.WriteString("\t" + c + "()\n")
	}
	z.WriteString("}\n\n" + w.helpers.String())
	for i := range files {
		txt := w.outs[i]
		if err := os.WriteFile(filepath.Join(od, p.GoFiles[i]), []byte(txt), 0o644); err != nil {
			fatal(err)
		}
	}
	if err := os.WriteFile(filepath.Join(od, "zz_simreset.go"), []byte(z.String()), 0o644); err != nil {
		fatal(err)
	}
}

type worker struct {
	fset      *token.FileSet
	info      *types.Info
	pkg       *types.Package
	path      string
	mode      string
	outs      []string
	zeroFns   []string
	initFns   map[string][]types.Object
	userInits []string
	helpers   strings.Builder
	needSort  bool
	nHelp     int
	fe        *fileEdits
	fname     string
	fidx      int
	tail      []func() string
	keep      map[string]bool
}

// seam is what stands in for an object of the standard library.
func seam(path string, o types.Object) string {
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != path {
		return ""
	}
	f, isFunc := o.(*types.Func)
	if isFunc && f.Parent() != o.Pkg().Scope() {
		return ""
	}
	switch path {
	case "time":
		switch o.Name() {
		case "Now", "Since", "Until", "Sleep", "AfterFunc":
			return "simrt." + o.Name()
		}
	case "runtime":
		if o.Name() == "Gosched" {
			return "simrt.Gosched"
		}
	case "math/rand":
		if isFunc && o.Name() != "New" && o.Name() != "NewSource" && o.Name() != "NewZipf" {
			return "simrt.Random()." + o.Name()
		}
	case "math/rand/v2":
		if isFunc && o.Name() != "N" && !strings.HasPrefix(o.Name(), "New") {
			return "simrt.RandomV2()." + o.Name()
		}
	case "crypto/rand":
		switch o.Name() {
		case "Reader":
			return "simrt.Entropy"
		case "Read":
			return "simrt.Entropy.Read"
		}
	}
	return ""
}

func (w *worker) off(p token.Pos) int { return w.fset.Position(p).Offset }

func (w *worker) file(f *ast.File, fe *fileEdits, name string, idx int) {
	if w.initFns == nil {
		w.initFns = map[string][]types.Object{}
	}
	w.fe, w.fname, w.fidx = fe, name, idx
	w.tail = nil
	w.keep = map[string]bool{}
	fe.ins(w.off(f.Name.End()), "; import simrt \"verifsim/simrt\"", 0)
	w.tail = append(w.tail, func() string { return "var _ = simrt.C" })

	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		local := ""
		if is.Name != nil {
			local = is.Name.Name
		}
		switch path {
		case "sync":
			np := "verifsim/ssync"
			if w.mode == "runtime" {
				np = "verifsim/nsync"
			}
			if local == "" {
				fe.rep(w.off(is.Path.Pos()), w.off(is.Path.End()), "sync "+strconv.Quote(np))
			} else {
				fe.rep(w.off(is.Path.Pos()), w.off(is.Path.End()), strconv.Quote(np))
			}
		case "time", "runtime", "math/rand", "math/rand/v2", "crypto/rand":
			// The file may use it for nothing but what is replaced.
			if local == "" {
				local = "rand"
				if path == "time" || path == "runtime" {
					local = path
				}
			}
			l := local + "."
			if local == "." {
				l = ""
			}
			if use := map[string]string{"time": "_ %sDuration", "runtime": "_ = %sGOOS", "math/rand": "_ = %sNewSource", "math/rand/v2": "_ = %sNewPCG", "crypto/rand": "_ = %sInt"}[path]; local != "_" {
				w.tail = append(w.tail, func() string { return "var " + fmt.Sprintf(use, l) })
			}
		}
	}
	// The clock and randomness.
	seen := map[*ast.Ident]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok {
				break
			}
			if pn, ok := w.info.Uses[id].(*types.PkgName); ok {
				if to := seam(pn.Imported().Path(), w.info.Uses[n.Sel]); to != "" {
					fe.rep(w.off(n.Pos()), w.off(n.End()), to)
				}
				seen[n.Sel] = true
			}
		case *ast.Ident:
			// from a dot import
			if o := w.info.Uses[n]; o != nil && o.Pkg() != nil && !seen[n] && o.Parent() == o.Pkg().Scope() {
				if to := seam(o.Pkg().Path(), o); to != "" {
					fe.rep(w.off(n.Pos()), w.off(n.End()), to)
				}
			}
		}
		return true
	})

	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if w.mode == "runtime" {
				start := d.Pos()
				fe.ins(w.off(start), "//go:norace\n", -1)
			}
			if d.Recv == nil && d.Name.Name == "init" {
				nn := fmt.Sprintf("simUserInit_%d_%d", idx, len(w.userInits))
				fe.rep(w.off(d.Name.Pos()), w.off(d.Name.End()), nn)
				w.userInits = append(w.userInits, nn)
				w.tail = append(w.tail, func() string { return "func init() { " + nn + "() }" })
			}
			if d.Body != nil {
				w.body(d.Body)
				if w.mode == "runtime" {
					w.point(d.Body.Lbrace+1, "C", "func")
				}
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, s := range d.Specs {
				vs := s.(*ast.ValueSpec)
				for _, v := range vs.Values {
					ast.Inspect(v, func(n ast.Node) bool {
						if fl, ok := n.(*ast.FuncLit); ok {
							w.body(fl.Body)
							return false
						}
						return true
					})
				}
				w.pkgVar(d, vs)
			}
		}
	}
	for _, t := range w.tail {
		fe.ins(len(fe.src), "\n"+t()+"\n", 90)
	}
	w.outs = append(w.outs, fe.render(0, len(fe.src)))
}

func hasEmbed(cg *ast.CommentGroup) bool {
	if cg == nil {
		return false
	}
	for _, c := range cg.List {
		if strings.HasPrefix(c.Text, "//go:embed") {
			return true
		}
	}
	return false
}

func (w *worker) pkgVar(d *ast.GenDecl, vs *ast.ValueSpec) {
	if hasEmbed(vs.Doc) || hasEmbed(d.Doc) {
		return
	}
	fe := w.fe
	all := true
	var objs []types.Object
	var names []string
	for _, n := range vs.Names {
		names = append(names, n.Name)
		if n.Name != "_" {
			all = false
			objs = append(objs, w.info.Defs[n])
		}
	}
	if all {
		return
	}
	if len(vs.Values) == 0 {
		fn := fmt.Sprintf("simZero_%d_%d", w.fidx, len(w.zeroFns))
		lo, hi := w.off(vs.Type.Pos()), w.off(vs.Type.End())
		w.zeroFns = append(w.zeroFns, fn)
		w.tail = append(w.tail, func() string {
			var b strings.Builder
			fmt.Fprintf(&b, "func %s() {", fn)
			for _, n := range names {
				if n != "_" {
					fmt.Fprintf(&b, " %s = *new(%s);", n, fe.render(lo, hi))
				}
			}
			b.WriteString(" }")
			return b.String()
		})
		return
	}
	if len(vs.Values) == len(vs.Names) {
		for i, n := range vs.Names {
			if n.Name == "_" {
				continue
			}
			fn := fmt.Sprintf("simInit_%d_%d", w.fidx, len(w.initFns))
			w.initFns[fn] = []types.Object{w.info.Defs[n]}
			lo, hi := w.off(vs.Values[i].Pos()), w.off(vs.Values[i].End())
			name := n.Name
			w.tail = append(w.tail, func() string {
				return fmt.Sprintf("func %s() { %s = %s }", fn, name, fe.render(lo, hi))
			})
		}
		return
	}
	fn := fmt.Sprintf("simInit_%d_%d", w.fidx, len(w.initFns))
	w.initFns[fn] = objs
	lo, hi := w.off(vs.Values[0].Pos()), w.off(vs.Values[0].End())
	w.tail = append(w.tail, func() string {
		return fmt.Sprintf("func %s() { %s = %s }", fn, strings.Join(names, ", "), fe.render(lo, hi))
	})
}

func (w *worker) point(p token.Pos, class, kind string) {
	id := newSite(w.path, w.fname, w.fset.Position(p).Line, kind)
	w.fe.ins(w.off(p), fmt.Sprintf("simrt.%s(%d);", class, id), 10)
}

// body instruments the statements of a function body.
func (w *worker) body(b *ast.BlockStmt) {
	// Receive operations of select statements, and those that yield two values.
	chosen, pair := map[ast.Expr]bool{}, map[ast.Expr]bool{}
	ast.Inspect(b, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			w.list(n.List)
		case *ast.CaseClause:
			w.list(n.Body)
		case *ast.CommClause:
			w.list(n.Body)
			w.fe.ins(w.off(n.Colon)+1, "simrt.AC();", 5)
			switch c := n.Comm.(type) {
			case *ast.ExprStmt:
				chosen[ast.Unparen(c.X)] = true
			case *ast.AssignStmt:
				chosen[ast.Unparen(c.Rhs[0])] = true
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				pair[ast.Unparen(n.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				pair[ast.Unparen(n.Values[0])] = true
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !chosen[n] {
				f := "simrt.Recv("
				if pair[n] {
					f = "simrt.Recv2("
				}
				w.fe.rep(w.off(n.OpPos), w.off(n.X.Pos()), f)
				w.fe.ins(w.off(n.End()), ")", 12)
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
				if _, ok := w.info.Uses[id].(*types.Builtin); ok {
					w.fe.rep(w.off(id.Pos()), w.off(id.End()), "simrt.Close")
				}
			}
		case *ast.ForStmt:
			w.loop(n.Body)
		case *ast.RangeStmt:
			w.loop(n.Body)
			w.mapRange(n)
			if tv, ok := w.info.Types[n.X]; ok {
				if _, ok := tv.Type.Underlying().(*types.Chan); ok {
					w.fe.ins(w.off(n.Body.Lbrace)+1, "simrt.AC();", 4)
					w.fe.ins(w.off(n.End()), ";simrt.AC()", 20)
				}
			}
		case *ast.GoStmt:
			w.goStmt(n)
		}
		return true
	})
}

func (w *worker) loop(b *ast.BlockStmt) {
	if w.mode == "runtime" {
		w.point(b.Lbrace+1, "C", "loop")
	} else if len(b.List) == 0 {
		w.point(b.Lbrace+1, "C", "loop")
	}
}

func (w *worker) list(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.SendStmt:
			w.fe.ins(w.off(s.End()), ";simrt.AC()", 20)
		}
		if w.mode == "runtime" {
			continue
		}
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		class := "R"
		kind := "stmt"
		if w.touchesShared(s) {
			class, kind = "G", "shared"
		} else if strings.HasSuffix(w.path, "/parser") {
			class = "C"
		}
		w.point(s.Pos(), class, kind)
	}
}

// own calls f for the parts of s that are evaluated by s itself: nested
// blocks are statements of their own.
func own(s ast.Node, f func(ast.Node) bool) {
	ast.Inspect(s, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		if n != s {
			switch n.(type) {
			case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
				return false
			}
		}
		return f(n)
	})
}

// touchesShared reports whether s mentions package-level variables of the
// module, synchronisation or the clock.
func (w *worker) touchesShared(s ast.Stmt) bool {
	found := false
	own(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.Ident:
			o := w.info.Uses[n]
			if o == nil || o.Pkg() == nil {
				return true
			}
			if v, ok := o.(*types.Var); ok && !v.IsField() && v.Parent() == o.Pkg().Scope() {
				if o.Pkg().Path() != antlrMod || true {
					found = true
				}
			}
			switch o.Pkg().Path() {
			case "sync", "sync/atomic":
				found = true
			case "time":
				if n.Name == "Now" || n.Name == "Since" || n.Name == "Sleep" {
					found = true
				}
			}
		case *ast.SelectorExpr:
			if sel := w.info.Selections[n]; sel != nil && sel.Obj().Pkg() != nil {
				switch sel.Obj().Pkg().Path() {
				case "sync", "sync/atomic":
					found = true
				}
			}
		}
		return true
	})
	return found
}

func (w *worker) goStmt(g *ast.GoStmt) {
	fe := w.fe
	call := g.Call
	at := w.off(g.Pos())
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		// go func() {...}()  ->  simrt.Go(func() {...})
		fe.rep(at, w.off(fl.Pos()), "simrt.Go(")
		fe.rep(w.off(fl.End()), w.off(g.End()), ")")
		return
	}
	if id, ok := call.Fun.(*ast.Ident); ok {
		if _, ok := w.info.Uses[id].(*types.Builtin); ok {
			fe.rep(at, w.off(call.Pos()), "simrt.Go(func() { ")
			fe.ins(w.off(g.End()), " })", 15)
			return
		}
	}
	// { simF, simA0 := f, a0; simrt.Go(func() { simF(simA0) }) }
	var lhs, rhs, use []string
	lo, hi := call.Fun.Pos(), call.Fun.End()
	type part struct{ lo, hi int }
	parts := []part{{w.off(lo), w.off(hi)}}
	lhs = append(lhs, "simF")
	for i, a := range call.Args {
		tv := w.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			use = append(use, string(fe.src[w.off(a.Pos()):w.off(a.End())]))
			continue
		}
		n := fmt.Sprintf("simA%d", i)
		lhs = append(lhs, n)
		parts = append(parts, part{w.off(a.Pos()), w.off(a.End())})
		if call.Ellipsis.IsValid() && i == len(call.Args)-1 {
			n += "..."
		}
		use = append(use, n)
	}
	// The edits inside the parts must survive, so only the text between them
	// is replaced.
	_ = rhs
	text := "{ " + strings.Join(lhs, ", ") + " := "
	fe.rep(at, parts[0].lo, text)
	for i := 1; i < len(parts); i++ {
		fe.rep(parts[i-1].hi, parts[i].lo, ", ")
	}
	fe.rep(parts[len(parts)-1].hi, w.off(g.End()), "; simrt.Go(func() { simF("+strings.Join(use, ", ")+") }) }")
}

// mapRange makes the iteration order of a map a decision of the simulator.
func (w *worker) mapRange(r *ast.RangeStmt) {
	tv, ok := w.info.Types[r.X]
	if !ok {
		return
	}
	m, ok := tv.Type.Underlying().(*types.Map)
	if !ok || r.Key == nil {
		return
	}
	basic, ok := m.Key().Underlying().(*types.Basic)
	if !ok || basic.Info()&types.IsOrdered == 0 {
		return
	}
	okTypes := true
	qual := func(p *types.Package) string {
		if p == w.pkg {
			return ""
		}
		okTypes = false
		return p.Name()
	}
	kt := types.TypeString(m.Key(), qual)
	vt := types.TypeString(m.Elem(), qual)
	mt := types.TypeString(tv.Type, qual)
	if !okTypes {
		return
	}
	if tpar(m.Key()) || tpar(m.Elem()) || local(w.pkg, m.Key()) || local(w.pkg, m.Elem()) || local(w.pkg, tv.Type) {
		return
	}
	w.nHelp++
	w.needSort = true
	h := fmt.Sprintf("simEntries_%d", w.nHelp)
	fmt.Fprintf(&w.helpers, `type %[1]s_t struct { K %[2]s; M %[4]s }
func (e %[1]s_t) get() (v %[3]s, ok bool) { v, ok = e.M[e.K]; return }
func %[1]s(m %[4]s) []%[1]s_t {
	out := make([]%[1]s_t, 0, len(m))
	for k := range m { out = append(out, %[1]s_t{k, m}) }
	simsort.Slice(out, func(i, j int) bool { return out[i].K < out[j].K })
	simrt.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

`, h, kt, vt, mt)
	fe := w.fe
	// for k, v := range X {  ->  for _, simE := range h(X) { k, v := simE.K, simE.V;
	var lhs, rhs []string
	add := func(e ast.Expr, f string) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return
		}
		lhs = append(lhs, string(fe.src[w.off(e.Pos()):w.off(e.End())]))
		rhs = append(rhs, f)
	}
	add(r.Key, "simE.K")
	add(r.Value, "simV")
	fe.rep(w.off(r.Key.Pos()), w.off(r.X.Pos()), "_, simE := range "+h+"(")
	fe.ins(w.off(r.X.End()), ")", 15)
	// An entry that was deleted meanwhile is not visited.
	text := "simV, simOK := simE.get(); if !simOK { continue }; _ = simV;"
	if len(lhs) > 0 {
		text += strings.Join(lhs, ", ") + " " + r.Tok.String() + " " + strings.Join(rhs, ", ") + ";"
	}
	fe.ins(w.off(r.Body.Lbrace)+1, text, 3)
}

func tpar(t types.Type) bool {
	_, ok := t.(*types.TypeParam)
	return ok
}

// local reports whether t is declared inside a function.
func local(p *types.Package, t types.Type) bool {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Named:
			o := u.Obj()
			return o.Pkg() == p && o.Parent() != p.Scope()
		default:
			return false
		}
	}
}
