// simgen generates, from the Go module in -repo, an instrumented build of it
// in which every source of nondeterminism goes through the simulator:
//
//   - each statement is preceded by a step of the simulated processor
//     (preemption point, work budget);
//   - imports of os, path/filepath, log, flag, fmt, sync, time, math/rand,
//     maps, ... are replaced by shims running on the simulated machine;
//   - ranging over a map draws its order from the simulator;
//   - go statements create simulated tasks;
//   - commands become packages with an entry point SimMain, so that they can
//     be run many times in one process;
//   - package variables can be reset to their initial values.
//
// Nothing is written to the repository: the result is an overlay file for
// go build -overlay.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	Imports    []string
	Deps       []string
	Module     *struct{ Path, Dir, GoVersion string }
	Error      *struct{ Err string }
}

type edit struct {
	off  int // byte offset in file
	end  int // end of the replaced text (== off for insertion)
	text string
	seq  int
}

func fatalf(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+format+"\n", args...)
	os.Exit(2)
}

var (
	repo    = flag.String("repo", "/repo", "repository")
	outDir  = flag.String("out", "", "output directory")
	rtDir   = flag.String("rt", "", "directory of the simulator runtime packages")
	hDir    = flag.String("harness", "", "directory of the harness")
	modfile = flag.String("modfile", "", "go.mod to use")
	noStep  = flag.Bool("nostep", false, "do not insert steps")
)

const simRel = "internal/verifsim"

// shimmed standard packages: import path -> runtime subdirectory.
var shims = map[string]string{
	"os":            "simos",
	"path/filepath": "simfilepath",
	"log":           "simlog",
	"fmt":           "simfmt",
	"sync":          "simsync",
	"time":          "simtime",
	"math/rand":     "simrand",
	"math/rand/v2":  "simrandv2",
	"maps":          "simmaps",
	"io/ioutil":     "simioutil",
}

// packages copied and instrumented like the repository.
var copied = map[string]string{
	"flag":                   "dep/flag",
	"github.com/mewpkg/clog": "dep/clog",
}

var modPath string

func goList(args ...string) []*pkgInfo {
	cmd := exec.Command("go", append([]string{"list", "-mod=mod", "-modfile=" + *modfile}, args...)...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatalf("go list: %v", err)
	}
	var res []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatalf("go list output: %v", err)
		}
		res = append(res, p)
	}
	return res
}

var overlay = map[string]string{}

func emit(virtual string, content []byte) {
	rel, err := filepath.Rel(*repo, virtual)
	if err != nil {
		fatalf("%v", err)
	}
	real := filepath.Join(*outDir, "src", rel)
	if err := os.MkdirAll(filepath.Dir(real), 0o755); err != nil {
		fatalf("%v", err)
	}
	if err := os.WriteFile(real, content, 0o644); err != nil {
		fatalf("%v", err)
	}
	overlay[virtual] = real
}

func main() {
	flag.Parse()
	all := goList("-deps", "-export", "-json=Dir,ImportPath,Name,Export,Standard,GoFiles,Imports,Deps,Module,Error", "./...", "fmt", "os", "path/filepath", "log", "flag", "sync", "time", "math/rand", "math/rand/v2", "maps", "io/ioutil", "unicode/utf16", "github.com/mewpkg/clog")
	exports := map[string]string{}
	byPath := map[string]*pkgInfo{}
	for _, p := range all {
		if p.Error != nil {
			fatalf("package %s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		byPath[p.ImportPath] = p
	}
	var repoPkgs []*pkgInfo
	for _, p := range all { // dependency order
		if p.Module != nil && sameDir(p.Module.Dir, *repo) {
			modPath = p.Module.Path
			repoPkgs = append(repoPkgs, p)
		}
	}
	if modPath == "" {
		fatalf("no packages found in %s", *repo)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", lookup)

	// runtime packages.
	copyRuntime(imp)

	// harness.
	hfiles, err := filepath.Glob(filepath.Join(*hDir, "*.go"))
	if err != nil || len(hfiles) == 0 {
		fatalf("no harness files in %s", *hDir)
	}
	for _, f := range hfiles {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		buf, err := os.ReadFile(f)
		if err != nil {
			fatalf("%v", err)
		}
		emit(filepath.Join(*repo, simRel, "harness", filepath.Base(f)), buf)
	}

	var resets []string // import paths with SimReset, in dependency order
	tools := map[string]string{}

	process := func(p *pkgInfo, importPath, dir string, isMain bool) {
		if instrument(fset, imp, p, importPath, dir, isMain) {
			resets = append(resets, importPath)
		}
	}
	for _, ip := range sortedKeys(copied) {
		p := byPath[ip]
		if p == nil {
			continue
		}
		process(p, modPath+"/"+simRel+"/"+copied[ip], filepath.Join(*repo, simRel, copied[ip]), false)
	}
	for _, p := range repoPkgs {
		if strings.HasPrefix(p.ImportPath, modPath+"/"+simRel) {
			continue
		}
		if p.Name == "main" {
			base := filepath.Base(p.Dir)
			ident := "tool_" + sanitize(base)
			ip := modPath + "/" + simRel + "/tools/" + ident
			tools[base] = ip
			process(p, ip, filepath.Join(*repo, simRel, "tools", ident), true)
			continue
		}
		process(p, p.ImportPath, p.Dir, false)
	}

	// registry.
	var b strings.Builder
	b.WriteString("// Code generated by simgen.\n\npackage gen\n\nimport (\n")
	for i, ip := range resets {
		fmt.Fprintf(&b, "\tr%d %q\n", i, ip)
	}
	names := sortedKeys(tools)
	for i, n := range names {
		fmt.Fprintf(&b, "\tt%d %q\n", i, tools[n])
	}
	b.WriteString(")\n\n// ResetAll sets every package variable of the instrumented packages to its initial value.\nfunc ResetAll() {\n")
	for i := range resets {
		fmt.Fprintf(&b, "\tr%d.SimReset()\n", i)
	}
	b.WriteString("}\n\n// Tools maps command names to their entry points.\nvar Tools = map[string]func(){\n")
	for i, n := range names {
		fmt.Fprintf(&b, "\t%q: t%d.SimMain,\n", n, i)
	}
	b.WriteString("}\n")
	emit(filepath.Join(*repo, simRel, "gen", "gen.go"), []byte(b.String()))

	buf, err := json.MarshalIndent(map[string]any{"Replace": overlay}, "", "\t")
	if err != nil {
		fatalf("%v", err)
	}
	if err := os.WriteFile(filepath.Join(*outDir, "overlay.json"), buf, 0o644); err != nil {
		fatalf("%v", err)
	}
}

func sameDir(a, b string) bool {
	x, err1 := filepath.EvalSymlinks(a)
	y, err2 := filepath.EvalSymlinks(b)
	return err1 == nil && err2 == nil && x == y
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// copyRuntime copies the runtime packages; every runtime package that shims a
// standard package gets aliases for all exported names it does not define.
func copyRuntime(imp types.Importer) {
	entries, err := os.ReadDir(*rtDir)
	if err != nil {
		fatalf("%v", err)
	}
	inv := map[string]string{}
	for ip, d := range shims {
		inv[d] = ip
	}
	for _, e := range entries {
		if !e.IsDir() {
			continue
		}
		dir := filepath.Join(*rtDir, e.Name())
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		if len(files) == 0 {
			continue
		}
		fset := token.NewFileSet()
		defined := map[string]bool{}
		name := ""
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			buf, err := os.ReadFile(f)
			if err != nil {
				fatalf("%v", err)
			}
			buf = bytes.ReplaceAll(buf, []byte("VERIFSIM/"), []byte(modPath+"/"+simRel+"/"))
			emit(filepath.Join(*repo, simRel, e.Name(), filepath.Base(f)), buf)
			af, err := parser.ParseFile(fset, f, buf, 0)
			if err != nil {
				fatalf("%v", err)
			}
			name = af.Name.Name
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						defined[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							defined[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								defined[n.Name] = true
							}
						}
					}
				}
			}
		}
		ip, ok := inv[e.Name()]
		if !ok {
			continue
		}
		pkg, err := imp.Import(ip)
		if err != nil {
			fatalf("import %q: %v", ip, err)
		}
		emit(filepath.Join(*repo, simRel, e.Name(), "zz_alias.go"), []byte(aliases(name, ip, pkg, defined)))
	}
}

// passthrough functions of os: those that touch nothing.
var osPure = map[string]bool{
	"IsExist": true, "IsNotExist": true, "IsPermission": true, "IsTimeout": true,
	"IsPathSeparator": true, "NewSyscallError": true, "Getpagesize": true, "Expand": true,
}

func aliases(name, ip string, pkg *types.Package, defined map[string]bool) string {
	var b strings.Builder
	imports := map[string]string{ip: "real"}
	qual := func(p *types.Package) string {
		if n, ok := imports[p.Path()]; ok {
			return n
		}
		n := fmt.Sprintf("q%d", len(imports))
		imports[p.Path()] = n
		return n
	}
	scope := pkg.Scope()
	for _, n := range scope.Names() {
		if !token.IsExported(n) || defined[n] {
			continue
		}
		switch o := scope.Lookup(n).(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.TypeName:
			if named, ok := o.Type().(*types.Named); ok && named.TypeParams().Len() > 0 {
				tps := named.TypeParams()
				var decl, use []string
				for i := 0; i < tps.Len(); i++ {
					tp := tps.At(i)
					decl = append(decl, tp.Obj().Name()+" "+types.TypeString(tp.Constraint(), qual))
					use = append(use, tp.Obj().Name())
				}
				fmt.Fprintf(&b, "type %s[%s] = real.%s[%s]\n", n, strings.Join(decl, ", "), n, strings.Join(use, ", "))
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		case *types.Func:
			sig := o.Type().(*types.Signature)
			if sig.TypeParams().Len() > 0 {
				fmt.Fprintf(&b, "// generic %s is not shimmed\n", n)
				continue
			}
			if ip == "os" && !osPure[n] {
				ts := types.TypeString(sig, qual)
				fmt.Fprintf(&b, "func %s%s { panic(sim.Unsupported(%q)) }\n", n, strings.TrimPrefix(ts, "func"), "os."+n)
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		}
	}
	var h strings.Builder
	fmt.Fprintf(&h, "// Code generated by simgen.\n\npackage %s\n\nimport (\n", name)
	for _, p := range sortedKeys(imports) {
		fmt.Fprintf(&h, "\t%s %q\n", imports[p], p)
	}
	body := b.String()
	if strings.Contains(body, "sim.Unsupported") {
		fmt.Fprintf(&h, "\t%q\n", modPath+"/"+simRel+"/sim")
	}
	h.WriteString(")\n\nvar _ = real." + anyName(pkg) + "\n\n")
	return h.String() + body
}

func anyName(pkg *types.Package) string {
	for _, n := range pkg.Scope().Names() {
		if !token.IsExported(n) {
			continue
		}
		switch o := pkg.Scope().Lookup(n).(type) {
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() == 0 {
				return n
			}
			if pkg.Path() == "maps" && n == "Keys" {
				return "Keys[map[int]int]"
			}
		case *types.Const, *types.Var:
			return n
		}
	}
	return "X"
}

// instrument emits the instrumented files of p at dir; it reports whether a
// SimReset function was generated.
func instrument(fset *token.FileSet, imp types.Importer, p *pkgInfo, importPath, dir string, isMain bool) bool {
	var files []*ast.File
	var srcs [][]byte
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			fatalf("%v", err)
		}
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatalf("%v", err)
		}
		files = append(files, f)
		srcs = append(srcs, src)
	}
	if len(files) == 0 {
		return false
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Defs:  map[*ast.Ident]types.Object{},
		Uses:  map[*ast.Ident]types.Object{},
	}
	gover := ""
	if p.Module != nil && p.Module.GoVersion != "" {
		gover = "go" + p.Module.GoVersion
	}
	conf := types.Config{Importer: imp, GoVersion: gover, Error: func(error) {}}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatalf("type-checking %s: %v", p.ImportPath, err)
	}
	if strings.HasSuffix(p.ImportPath, "/typst/syntax") {
		emit(filepath.Join(dir, "zz_verifsim.go"), []byte(access(pkg)))
	}
	g := &gen{fset: fset, info: info, isMain: isMain, pkgName: p.Name}
	if isMain {
		g.pkgName = "tool_" + sanitize(filepath.Base(p.Dir))
	}
	for i, f := range files {
		g.file(f, srcs[i])
	}
	// reset functions, in initialisation order.
	type initFn struct{ file, n int }
	extra := make([]strings.Builder, len(files))
	var order []string
	cnt := 0
	fileOf := func(pos token.Pos) int {
		tf := fset.File(pos)
		for i, f := range files {
			if fset.File(f.Pos()) == tf {
				return i
			}
		}
		return -1
	}
	seen := map[types.Object]bool{}
	for _, in := range info.InitOrder {
		var lhs []string
		skip := true
		for _, v := range in.Lhs {
			seen[v] = true
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				skip = false
			}
		}
		if skip {
			continue
		}
		fi := fileOf(in.Rhs.Pos())
		if fi < 0 {
			fatalf("initialiser outside the package")
		}
		text := g.render(fi, in.Rhs.Pos(), in.Rhs.End())
		fmt.Fprintf(&extra[fi], "\nfunc simreset_%d() { %s = %s }\n", cnt, strings.Join(lhs, ", "), text)
		order = append(order, fmt.Sprintf("simreset_%d()", cnt))
		cnt++
	}
	var zeros []string
	for i, f := range files {
		_ = i
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 {
					continue
				}
				if gd.Doc != nil && strings.Contains(gd.Doc.Text(), "go:embed") {
					continue
				}
				for _, n := range vs.Names {
					if n.Name != "_" {
						zeros = append(zeros, fmt.Sprintf("verifsim__.Zero(&%s)", n.Name))
					}
				}
			}
		}
	}
	// zero values first, then initialisers, then init functions.
	calls := append(append(zeros, order...), g.inits...)
	var tail strings.Builder
	tail.WriteString("\n// SimReset sets the variables of the package to their initial values.\nfunc SimReset() {\n")
	for _, c := range calls {
		tail.WriteString("\t" + c + "\n")
	}
	tail.WriteString("}\n")
	if len(g.inits) > 0 {
		tail.WriteString("\nfunc init() {\n")
		for _, c := range g.inits {
			tail.WriteString("\t" + c + "\n")
		}
		tail.WriteString("}\n")
	}
	extra[0].WriteString(tail.String())
	for i := range files {
		out := g.renderFile(i) + "\nvar _ = verifsim__.Step\n" + extra[i].String()
		emit(filepath.Join(dir, filepath.Base(p.GoFiles[i])), []byte(out))
	}
	return true
}

// access gives the harness the functions and methods of a package that are not
// exported, by name, as far as they exist.
func access(pkg *types.Package) string {
	var b strings.Builder
	fmt.Fprintf(&b, "// Code generated by simgen.\n\npackage %s\n\n// VerifSim returns functions and methods by name.\nfunc VerifSim() map[string]any {\n\treturn map[string]any{\n", pkg.Name())
	scope := pkg.Scope()
	for _, n := range scope.Names() {
		switch o := scope.Lookup(n).(type) {
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() == 0 {
				fmt.Fprintf(&b, "\t\t%q: %s,\n", n, n)
			}
		case *types.TypeName:
			named, ok := o.Type().(*types.Named)
			if !ok || o.IsAlias() || named.TypeParams().Len() > 0 || types.IsInterface(named) {
				continue
			}
			for i := 0; i < named.NumMethods(); i++ {
				m := named.Method(i).Name()
				fmt.Fprintf(&b, "\t\t%q: (*%s).%s,\n", n+"."+m, n, m)
			}
		}
	}
	b.WriteString("\t}\n}\n")
	return b.String()
}

type gen struct {
	fset    *token.FileSet
	info    *types.Info
	isMain  bool
	pkgName string
	srcs    [][]byte
	bases   []int
	edits   [][]edit
	inits   []string
	seq     int
	cur     int
}

func (g *gen) off(pos token.Pos) int { return g.fset.Position(pos).Offset }

func (g *gen) insert(pos token.Pos, text string) { g.replace(pos, pos, text) }

func (g *gen) replace(pos, end token.Pos, text string) {
	g.seq++
	tf := g.fset.File(pos)
	g.edits[g.cur] = append(g.edits[g.cur], edit{off: tf.Offset(pos), end: tf.Offset(end), text: text, seq: g.seq})
}

func (g *gen) file(f *ast.File, src []byte) {
	g.srcs = append(g.srcs, src)
	g.edits = append(g.edits, nil)
	g.cur = len(g.srcs) - 1
	// package clause.
	g.replace(f.Name.Pos(), f.Name.End(), g.pkgName+"; import verifsim__ "+strconv.Quote(modPath+"/"+simRel+"/sim"))
	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		var target, name string
		if d, ok := shims[path]; ok {
			target = modPath + "/" + simRel + "/" + d
			name = pkgBase(path)
		} else if d, ok := copied[path]; ok {
			target = modPath + "/" + simRel + "/" + d
			name = pkgBase(path)
		} else if path == "log/internal" {
			fatalf("log/internal")
		} else {
			continue
		}
		if is.Name == nil {
			g.replace(is.Path.Pos(), is.Path.End(), name+" "+strconv.Quote(target))
		} else {
			g.replace(is.Path.Pos(), is.Path.End(), strconv.Quote(target))
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			ast.Inspect(d, g.visit)
			continue
		}
		if fd.Recv == nil && fd.Name.Name == "init" {
			n := fmt.Sprintf("siminit_%d_%d", g.cur, g.seq)
			g.replace(fd.Name.Pos(), fd.Name.End(), n)
			g.inits = append(g.inits, n+"()")
		}
		if g.isMain && fd.Recv == nil && fd.Name.Name == "main" {
			g.replace(fd.Name.Pos(), fd.Name.End(), "SimMain")
		}
		ast.Inspect(fd, g.visit)
	}
}

func pkgBase(path string) string {
	if path == "math/rand/v2" {
		return "rand"
	}
	return filepath.Base(path)
}

func (g *gen) steps(list []ast.Stmt) {
	if *noStep {
		return
	}
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.LabeledStmt:
			// a label may be the target of goto; the step goes before it.
		}
		g.insert(s.Pos(), "verifsim__.Step(); ")
	}
}

func (g *gen) visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.FuncDecl:
		if n.Body != nil && len(n.Body.List) == 0 && !*noStep {
			g.insert(n.Body.Lbrace+1, " verifsim__.Step() ")
		}
	case *ast.FuncLit:
		if len(n.Body.List) == 0 && !*noStep {
			g.insert(n.Body.Lbrace+1, " verifsim__.Step() ")
		}
	case *ast.BlockStmt:
		// the bodies of switch and select statements hold clauses.
		clauses := false
		for _, s := range n.List {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				clauses = true
			}
		}
		if !clauses {
			g.steps(n.List)
		}
	case *ast.CaseClause:
		g.steps(n.Body)
	case *ast.CommClause:
		g.steps(n.Body)
	case *ast.ForStmt:
		if len(n.Body.List) == 0 && !*noStep {
			g.insert(n.Body.Lbrace+1, " verifsim__.Step() ")
		}
	case *ast.RangeStmt:
		switch under(g.info.Types[n.X].Type).(type) {
		case *types.Map:
			g.insert(n.X.Pos(), "verifsim__.MapRange(")
			g.insert(n.X.End(), ")")
		case *types.Chan:
			g.insert(n.X.Pos(), "verifsim__.RangeChan(")
			g.insert(n.X.End(), ")")
		}
		if len(n.Body.List) == 0 && !*noStep {
			g.insert(n.Body.Lbrace+1, " verifsim__.Step() ")
		}
	case *ast.GoStmt:
		g.goStmt(n)
		return false
	case *ast.SendStmt:
		g.insert(n.Chan.Pos(), "verifsim__.Send(")
		g.replace(n.Chan.End(), n.Value.Pos(), ")(")
		g.insert(n.Value.End(), ")")
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			f := "verifsim__.Recv("
			if _, ok := g.info.Types[n].Type.(*types.Tuple); ok {
				f = "verifsim__.Recv2("
			}
			g.replace(n.OpPos, n.X.Pos(), f)
			g.insert(n.X.End(), ")")
		}
	case *ast.CallExpr:
		g.call(n)
	case *ast.SelectStmt:
		g.selectStmt(n)
		return false
	}
	return true
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if _, ok := t.(*types.TypeParam); ok {
		return nil
	}
	return t.Underlying()
}

// builtin returns the name of the builtin function called, if it is one.
func (g *gen) builtin(n *ast.CallExpr) string {
	if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok {
		if b, ok := g.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

// call sends the operations on channels through the simulator.
func (g *gen) call(n *ast.CallExpr) {
	isChan := func(e ast.Expr) bool {
		_, ok := under(g.info.Types[e].Type).(*types.Chan)
		return ok
	}
	switch g.builtin(n) {
	case "make":
		if isChan(n.Args[0]) {
			g.insert(n.Pos(), "verifsim__.NewChan(")
			g.insert(n.End(), ")")
		}
	case "close":
		g.replace(n.Fun.Pos(), n.Fun.End(), "verifsim__.Close")
	case "len":
		if c, ok := under(g.info.Types[n.Args[0]].Type).(*types.Chan); ok {
			f := "verifsim__.ChanLen"
			if c.Dir() == types.SendOnly {
				f = "verifsim__.ChanLenSend"
			}
			g.replace(n.Fun.Pos(), n.Fun.End(), f)
		}
	}
}

// take returns the instrumented text of an expression and forgets its edits.
func (g *gen) take(e ast.Expr) string {
	before := len(g.edits[g.cur])
	ast.Inspect(e, g.visit)
	text := g.render(g.cur, e.Pos(), e.End())
	g.edits[g.cur] = g.edits[g.cur][:before]
	return text
}

// goStmt rewrites a go statement; the function and its arguments are evaluated
// at once.
func (g *gen) goStmt(n *ast.GoStmt) {
	call := n.Call
	var b strings.Builder
	b.WriteString("{ ")
	fun := g.take(call.Fun)
	hoist := true
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.FuncLit:
		hoist = false
	case *ast.Ident:
		_, v := g.info.Uses[f].(*types.Var)
		hoist = v
	case *ast.SelectorExpr:
		if x, ok := f.X.(*ast.Ident); ok {
			if _, ok := g.info.Uses[x].(*types.PkgName); ok {
				_, v := g.info.Uses[f.Sel].(*types.Var)
				hoist = v
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		// a function with type arguments, or an element.
		tv := g.info.Types[call.Fun]
		hoist = tv.Addressable()
		if ix, ok := f.(*ast.IndexExpr); ok {
			if _, ok := under(g.info.Types[ix.X].Type).(*types.Map); ok {
				hoist = true
			}
		}
	}
	if g.builtin(call) != "" {
		hoist = false
		if g.builtin(call) == "close" {
			fun = "verifsim__.Close"
		}
	}
	if hoist {
		fmt.Fprintf(&b, "gof__ := %s; ", fun)
		fun = "gof__"
	}
	var args []string
	k := 0
	for _, a := range call.Args {
		text := g.take(a)
		tv := g.info.Types[a]
		if tup, ok := tv.Type.(*types.Tuple); ok {
			var names []string
			for i := 0; i < tup.Len(); i++ {
				names = append(names, fmt.Sprintf("goa%d__", k))
				k++
			}
			fmt.Fprintf(&b, "%s := %s; ", strings.Join(names, ", "), text)
			args = append(args, names...)
			continue
		}
		if bt, ok := tv.Type.(*types.Basic); tv.IsType() || tv.Value != nil || tv.IsNil() || ok && bt.Info()&types.IsUntyped != 0 {
			args = append(args, text)
			continue
		}
		name := fmt.Sprintf("goa%d__", k)
		k++
		fmt.Fprintf(&b, "%s := %s; ", name, text)
		args = append(args, name)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	fmt.Fprintf(&b, "verifsim__.Go(func() { %s(%s%s) }) }", fun, strings.Join(args, ", "), ell)
	g.replace(n.Go, n.End(), b.String())
}

// selectStmt rewrites a select statement to a switch on the case the simulator
// takes.
func (g *gen) selectStmt(n *ast.SelectStmt) {
	var names, values []string
	def := false
	type clause struct {
		pos, end token.Pos
		text     string
		body     []ast.Stmt
	}
	var clauses []clause
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			clauses = append(clauses, clause{c.Case, c.Colon, "default:", c.Body})
			continue
		}
		name := fmt.Sprintf("sel%d__", len(names))
		head := fmt.Sprintf("case %d", len(names))
		recv := func(e ast.Expr) ast.Expr { return ast.Unparen(e).(*ast.UnaryExpr).X }
		set := ""
		switch s := c.Comm.(type) {
		case *ast.SendStmt:
			values = append(values, fmt.Sprintf("verifsim__.CaseSend(%s)(%s)", g.take(s.Chan), g.take(s.Value)))
		case *ast.ExprStmt:
			values = append(values, fmt.Sprintf("verifsim__.CaseRecv(%s)", g.take(recv(s.X))))
		case *ast.AssignStmt:
			values = append(values, fmt.Sprintf("verifsim__.CaseRecv(%s)", g.take(recv(s.Rhs[0]))))
			var l []string
			for _, e := range s.Lhs {
				l = append(l, g.take(e))
			}
			v := name + ".Val"
			if len(l) == 2 {
				v += ", " + name + ".OK"
			}
			set = fmt.Sprintf(" %s %s %s; ", strings.Join(l, ", "), s.Tok, v)
		default:
			fatalf("select: %T", s)
		}
		names = append(names, name)
		clauses = append(clauses, clause{c.Case, c.Colon, head + ":" + set, c.Body})
	}
	head := "switch "
	if len(names) > 0 {
		head += strings.Join(names, ", ") + " := " + strings.Join(values, ", ") + "; "
	}
	g.replace(n.Select, n.Body.Lbrace, fmt.Sprintf("%sverifsim__.Select(%s) ", head, strings.Join(append([]string{strconv.FormatBool(def)}, names...), ", ")))
	for _, c := range clauses {
		g.replace(c.pos, c.end+1, c.text)
		g.steps(c.body)
		for _, s := range c.body {
			ast.Inspect(s, g.visit)
		}
	}
	if !def {
		g.insert(n.Body.Rbrace, `default: panic("unreachable") `)
	}
}

func (g *gen) renderFile(i int) string {
	return g.renderRange(i, 0, len(g.srcs[i]))
}

func (g *gen) render(i int, pos, end token.Pos) string {
	tf := g.fset.File(pos)
	return g.renderRange(i, tf.Offset(pos), tf.Offset(end))
}

func (g *gen) renderRange(i, start, end int) string {
	es := append([]edit(nil), g.edits[i]...)
	sort.SliceStable(es, func(a, b int) bool {
		if es[a].off != es[b].off {
			return es[a].off < es[b].off
		}
		return es[a].seq < es[b].seq
	})
	var b strings.Builder
	at := start
	for _, e := range es {
		if e.off < start || e.end > end || (e.off == end && e.off != e.end) {
			continue
		}
		if e.off < at {
			fatalf("overlapping edits")
		}
		b.Write(g.srcs[i][at:e.off])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(g.srcs[i][at:end])
	return b.String()
}
