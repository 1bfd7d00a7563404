// Command simgen translates the Go source of the repository under test so that
// it runs on the deterministic simulation runtime (simmod/simrt).
//
//	simgen -src COPY_OF_REPO -out MODULE_DIR -verif VERIF_DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	Standard   bool
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	ImportMap  map[string]string
	Module     *struct {
		Path    string
		Main    bool
		Version string
	}
	Error *struct{ Err string }
}

// deps translated although they are not part of the repository: they hold
// process state or iterate over maps.
var transDeps = map[string]string{
	"gopkg.in/alecthomas/kingpin.v2": "simmod/dep/kingpin",
	"github.com/fogleman/simplify":   "simmod/dep/simplify",
}

var shims = map[string]string{
	"os": "os", "io/ioutil": "ioutil", "log": "log", "time": "time", "runtime": "runtime",
	"sync": "sync", "math/rand": "rand", "fmt": "fmt", "path/filepath": "filepath",
	"os/signal": "signal", "context": "context",
}

const rt = "simrt_"

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(3)
}

type pkgMode int

const (
	modeStmt pkgMode = iota // yield before every statement
	modeLoop                // yield at function entry and per loop iteration
	modeNone
)

type gen struct {
	fset    *token.FileSet
	out     string
	repoMod string
	paths   map[string]string // import path -> translated import path
	pkgs    map[string]*listPkg
	cache   map[string]*types.Package
	exp     types.ImporterFrom
}

func main() {
	src := flag.String("src", "", "copy of the repository")
	out := flag.String("out", "", "output module")
	verif := flag.String("verif", "", "verification directory")
	flag.Parse()

	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Name,Dir,Export,Standard,GoFiles,CgoFiles,Imports,ImportMap,Module,Error", "./...")
	cmd.Dir = *src
	var eb bytes.Buffer
	cmd.Stderr = &eb
	data, err := cmd.Output()
	if err != nil {
		die("go list failed: %v\n%s", err, eb.String())
	}
	g := &gen{fset: token.NewFileSet(), out: *out, paths: map[string]string{}, pkgs: map[string]*listPkg{}, cache: map[string]*types.Package{}}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("package %s: %s", p.ImportPath, p.Error.Err)
		}
		order = append(order, p)
		g.pkgs[p.ImportPath] = p
		if p.Module != nil && p.Module.Main {
			g.repoMod = p.Module.Path
		}
	}
	for p, s := range shims {
		g.paths[p] = "simmod/simrt/sh/" + s
	}
	var todo []*listPkg
	for _, p := range order {
		if p.Module != nil && p.Module.Main {
			rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, g.repoMod), "/")
			g.paths[p.ImportPath] = path.Join("simmod/goosli", rel)
			todo = append(todo, p)
		} else if t, ok := transDeps[p.ImportPath]; ok {
			g.paths[p.ImportPath] = t
			todo = append(todo, p)
		}
	}
	g.exp = importer.ForCompiler(g.fset, "gc", func(p string) (io.ReadCloser, error) {
		q := g.pkgs[p]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(q.Export)
	}).(types.ImporterFrom)

	var mains []*listPkg
	var libs []*listPkg
	for _, p := range todo { // dependencies come first
		mode := modeStmt
		switch p.ImportPath {
		case "gopkg.in/alecthomas/kingpin.v2":
			mode = modeNone
		case "github.com/fogleman/simplify":
			mode = modeLoop
		}
		g.translate(p, mode)
		if p.Name == "main" {
			mains = append(mains, p)
		} else {
			libs = append(libs, p)
		}
	}
	g.registry(libs, mains)
	g.data(*src)
	g.module(*src)
	g.copyTree(filepath.Join(*verif, "simrt"), filepath.Join(*out, "simrt"))
	g.copyTree(filepath.Join(*verif, "harness"), filepath.Join(*out, "harness"))
}

func (g *gen) copyTree(from, to string) {
	filepath.Walk(from, func(p string, in os.FileInfo, err error) error {
		if err != nil || in.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		g.write(filepath.Join(to, rel), b)
		return nil
	})
}

// write keeps the file untouched when the content is the same, so that the
// build cache stays effective.
func (g *gen) write(name string, b []byte) {
	if old, err := os.ReadFile(name); err == nil && bytes.Equal(old, b) {
		return
	}
	os.MkdirAll(filepath.Dir(name), 0755)
	if err := os.WriteFile(name, b, 0644); err != nil {
		die("%v", err)
	}
}

func (g *gen) module(src string) {
	b, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	var sb strings.Builder
	sb.WriteString("module simmod\n\ngo 1.20\n")
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 1 && (f[0] == "module" || f[0] == "go" || f[0] == "toolchain") {
			continue
		}
		sb.WriteString(l + "\n")
	}
	g.write(filepath.Join(g.out, "go.mod"), []byte(sb.String()))
	if s, err := os.ReadFile(filepath.Join(src, "go.sum")); err == nil {
		if _, err := os.Stat(filepath.Join(g.out, "go.sum")); err != nil {
			g.write(filepath.Join(g.out, "go.sum"), s)
		}
	}
}

// data embeds the repository's data files.
func (g *gen) data(src string) {
	var sb strings.Builder
	sb.WriteString("// Package data holds the repository's data files.\npackage data\n\n// Files by name.\nvar Files = map[string]string{\n")
	es, _ := os.ReadDir(filepath.Join(src, "data"))
	for _, e := range es {
		n := e.Name()
		if strings.HasSuffix(n, ".txt") || strings.HasSuffix(n, ".yaml") {
			b, err := os.ReadFile(filepath.Join(src, "data", n))
			if err != nil {
				die("%v", err)
			}
			if len(b) < 1<<16 {
				fmt.Fprintf(&sb, "\t%q: %q,\n", n, b)
			}
		}
	}
	sb.WriteString("}\n")
	g.write(filepath.Join(g.out, "reg", "data", "data.go"), []byte(sb.String()))
}

func (g *gen) registry(libs, mains []*listPkg) {
	// every translated package reachable from p, dependencies first
	deps := func(p *listPkg) []*listPkg {
		seen := map[string]bool{}
		var r []*listPkg
		var visit func(q *listPkg)
		visit = func(q *listPkg) {
			if q == nil || seen[q.ImportPath] {
				return
			}
			seen[q.ImportPath] = true
			im := append([]string(nil), q.Imports...)
			sort.Strings(im)
			for _, i := range im {
				if m, ok := q.ImportMap[i]; ok {
					i = m
				}
				if t := g.paths[i]; strings.HasPrefix(t, "simmod/goosli") || strings.HasPrefix(t, "simmod/dep") {
					visit(g.pkgs[i])
				}
			}
			r = append(r, q)
		}
		visit(p)
		return r
	}
	emit := func(dir string, roots []*listPkg, lib bool) {
		var sb strings.Builder
		imp := map[string]string{}
		for _, r := range roots {
			for _, d := range deps(r) {
				if _, ok := imp[d.ImportPath]; !ok {
					imp[d.ImportPath] = fmt.Sprintf("p%d", len(imp))
				}
			}
		}
		fmt.Fprintf(&sb, "// Package %s lists the translated programs.\npackage %s\n\nimport (\n", path.Base(dir), path.Base(dir))
		var ks []string
		for k := range imp {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&sb, "\t%s %q\n", imp[k], g.paths[k])
		}
		sb.WriteString(")\n\n")
		if lib {
			sb.WriteString("// Reset initialises the library packages.\nfunc Reset() {\n")
			seen := map[string]bool{}
			for _, r := range roots {
				for _, d := range deps(r) {
					if !seen[d.ImportPath] {
						seen[d.ImportPath] = true
						fmt.Fprintf(&sb, "\t%s.%s()\n", imp[d.ImportPath], resetName(g.paths[d.ImportPath]))
					}
				}
			}
			sb.WriteString("}\n")
		} else {
			sb.WriteString("// Prog is a translated program.\ntype Prog struct{ Reset, Main func() }\n\n// Progs maps program names to programs.\nvar Progs = map[string]Prog{\n")
			for _, r := range roots {
				fmt.Fprintf(&sb, "\t%q: {func() {\n", path.Base(r.ImportPath))
				for _, d := range deps(r) {
					fmt.Fprintf(&sb, "\t\t%s.%s()\n", imp[d.ImportPath], resetName(g.paths[d.ImportPath]))
				}
				fmt.Fprintf(&sb, "\t}, %s.SimMain},\n", imp[r.ImportPath])
			}
			sb.WriteString("}\n")
		}
		b, err := format.Source([]byte(sb.String()))
		if err != nil {
			die("registry: %v", err)
		}
		g.write(filepath.Join(g.out, "reg", dir, "reg.go"), b)
	}
	emit("lib", libs, true)
	emit("cli", mains, false)
}

// resetName is unique per package: packages may dot-import each other.
func resetName(p string) string {
	return "SimReset_" + strings.NewReplacer("/", "_", "-", "_", ".", "_").Replace(strings.TrimPrefix(p, "simmod/"))
}

type impFrom struct{ g *gen }

func (i impFrom) Import(p string) (*types.Package, error) { return i.ImportFrom(p, "", 0) }
func (i impFrom) ImportFrom(p, dir string, m types.ImportMode) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	if q, ok := i.g.cache[p]; ok {
		return q, nil
	}
	q, err := i.g.exp.ImportFrom(p, dir, m)
	if err == nil {
		i.g.cache[p] = q
	}
	return q, err
}

type fileCtx struct {
	f       *ast.File
	imports map[string]string // translated path -> local name, for generated type names
	extra   []string
	inits   []ast.Decl
}

type xl struct {
	g    *gen
	p    *listPkg
	info *types.Info
	tp   *types.Package
	mode pkgMode

	rangeKind map[*ast.RangeStmt]string
	recv      map[*ast.UnaryExpr]bool
	recv2     map[*ast.UnaryExpr]bool
	callKind  map[*ast.CallExpr]string
	isConst   map[ast.Expr]bool
	noteIdx   map[*ast.IndexExpr]bool
	selRecv   map[ast.Stmt]bool
	captured  map[types.Object]bool
	n         int
	cur       *fileCtx
}

func (g *gen) translate(p *listPkg, mode pkgMode) {
	if len(p.CgoFiles) > 0 {
		die("package %s uses cgo", p.ImportPath)
	}
	var files []*ast.File
	for _, n := range p.GoFiles {
		f, err := parser.ParseFile(g.fset, filepath.Join(p.Dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	cfg := &types.Config{Importer: impFrom{g}, GoVersion: "", Error: nil}
	tp, err := cfg.Check(p.ImportPath, g.fset, files, info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	x := &xl{g: g, p: p, info: info, tp: tp, mode: mode,
		rangeKind: map[*ast.RangeStmt]string{}, recv: map[*ast.UnaryExpr]bool{}, recv2: map[*ast.UnaryExpr]bool{},
		callKind: map[*ast.CallExpr]string{}, isConst: map[ast.Expr]bool{}, noteIdx: map[*ast.IndexExpr]bool{}, selRecv: map[ast.Stmt]bool{}, captured: map[types.Object]bool{}}

	initIdx := map[string]int{}
	for i, in := range info.InitOrder {
		initIdx[initKey(g.fset, in.Rhs)] = i
	}
	dir := filepath.Join(g.out, strings.TrimPrefix(g.paths[p.ImportPath], "simmod/"))
	want := map[string]bool{}
	var zero []string
	var userInits []string
	have := map[int]bool{}
	for fi, f := range files {
		fc := &fileCtx{f: f, imports: map[string]string{}}
		x.cur = fc
		for _, d := range f.Decls {
			x.annotate(d)
		}
		var decls []ast.Decl
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					d.Name.Name = fmt.Sprintf("simUserInit_%d_%d", fi, len(userInits))
					userInits = append(userInits, d.Name.Name)
				}
				if d.Body != nil {
					x.block(d.Body, true)
					if x.probed(d) {
						q := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path.Base(p.ImportPath) + "." + d.Name.Name)}
						d.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: rtc("Enter", q)}}, d.Body.List...)
					}
				}
				x.apply(d)
				if d.Recv == nil && d.Name.Name == "_" {
					continue
				}
				decls = append(decls, d)
			case *ast.GenDecl:
				if d.Tok == token.IMPORT {
					continue
				}
				if d.Tok == token.VAR {
					nd := &ast.GenDecl{Tok: token.VAR, Lparen: 1, Rparen: 1}
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						x.varSpec(vs, nd, initIdx, &zero, have)
					}
					if len(nd.Specs) > 0 {
						decls = append(decls, nd)
					}
				} else {
					x.apply(d)
					decls = append(decls, d)
				}
			}
		}
		decls = append(decls, fc.inits...)
		x.imports(f, fc)
		f.Decls = nil
		var buf bytes.Buffer
		if c := buildTag(filepath.Join(p.Dir, p.GoFiles[fi])); c != "" {
			_ = c // already selected by go list
		}
		name := f.Name.Name
		if name == "main" {
			name = "prog"
		}
		fmt.Fprintf(&buf, "// Translated by simgen from %s; do not edit.\n\npackage %s\n\nimport (\n", p.GoFiles[fi], name)
		for _, im := range f.Imports {
			if im.Path.Value == `"C"` {
				die("cgo")
			}
			n := ""
			if im.Name != nil {
				n = im.Name.Name + " "
			}
			fmt.Fprintf(&buf, "\t%s%s\n", n, im.Path.Value)
		}
		for _, e := range fc.extra {
			buf.WriteString("\t" + e + "\n")
		}
		fmt.Fprintf(&buf, "\t%s \"simmod/simrt\"\n)\n\nvar _ = %s.Y\n\n", rt, rt)
		for _, d := range decls {
			strip(d)
			if err := format.Node(&buf, token.NewFileSet(), d); err != nil {
				die("print %s: %v", p.GoFiles[fi], err)
			}
			buf.WriteString("\n\n")
		}
		out := "x_" + strings.TrimSuffix(p.GoFiles[fi], ".go")
		out = strings.NewReplacer("_linux", "-linux", "_unix", "-unix", "_amd64", "-amd64", "_test", "-test", "_windows", "-windows").Replace(out) + ".go"
		b, err := format.Source(buf.Bytes())
		if err != nil {
			os.WriteFile("/tmp/simgen_bad.go", buf.Bytes(), 0644)
			die("format %s: %v", p.GoFiles[fi], err)
		}
		g.write(filepath.Join(dir, out), b)
		want[out] = true
	}
	// reset
	var sb strings.Builder
	name := p.Name
	if name == "main" {
		name = "prog"
	}
	rn := resetName(g.paths[p.ImportPath])
	fmt.Fprintf(&sb, "// Generated by simgen; do not edit.\n\npackage %s\n\nimport %s \"simmod/simrt\"\n\n// %s runs the package's initialisation again.\nfunc %s() {\n\t%s.Y()\n", name, rt, rn, rn, rt)
	for _, z := range zero {
		fmt.Fprintf(&sb, "\t%s.SetZero(&%s)\n", rt, z)
	}
	for i := range info.InitOrder {
		if have[i] {
			fmt.Fprintf(&sb, "\tsimInit_%d()\n", i)
		}
	}
	for _, u := range userInits {
		fmt.Fprintf(&sb, "\t%s()\n", u)
	}
	sb.WriteString("}\n")
	if p.Name == "main" {
		sb.WriteString("\n// SimMain is the program.\nfunc SimMain() { main() }\n")
	}
	g.write(filepath.Join(dir, "zz_sim.go"), []byte(sb.String()))
	want["zz_sim.go"] = true
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if !e.IsDir() && !want[e.Name()] {
			os.Remove(filepath.Join(dir, e.Name()))
		}
	}
}

// probed says whether entering the function is an event of the run.
func (x *xl) probed(d *ast.FuncDecl) bool {
	if d.Recv != nil || !d.Name.IsExported() || x.mode != modeStmt {
		return false
	}
	if strings.HasSuffix(x.p.ImportPath, "/primitives") {
		switch d.Name.Name {
		case "LoadSTL", "SaveSTL", "PrepareDataFile", "DoInParallel", "DoInParallelAndWait":
			return true
		}
		return false
	}
	return true
}

func buildTag(name string) string {
	b, _ := os.ReadFile(name)
	for _, l := range strings.Split(string(b), "\n") {
		if constraint.IsGoBuild(l) {
			return l
		}
		if strings.HasPrefix(l, "package ") {
			break
		}
	}
	return ""
}

func initKey(fs *token.FileSet, e ast.Expr) string { return fs.Position(e.Pos()).String() }

// imports rewrites the import list of a file.
func (x *xl) imports(f *ast.File, fc *fileCtx) {
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		q := p
		if m, ok := x.p.ImportMap[p]; ok {
			q = m
		}
		if t, ok := x.g.paths[q]; ok {
			im.Path.Value = strconv.Quote(t)
			if im.Name == nil && path.Base(t) != x.g.pkgs[q].Name {
				im.Name = ast.NewIdent(x.g.pkgs[q].Name)
			}
		}
	}
}

// varSpec splits a package variable into a declaration without value and an
// initialiser function.
func (x *xl) varSpec(vs *ast.ValueSpec, nd *ast.GenDecl, idx map[string]int, zero *[]string, have map[int]bool) {
	typ := vs.Type
	if typ != nil {
		typ = x.expr(typ)
	}
	addVar := func(id *ast.Ident) {
		if id.Name == "_" {
			return
		}
		t := typ
		if t == nil {
			t = x.typeExpr(x.info.Defs[id].Type())
		}
		nd.Specs = append(nd.Specs, &ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(id.Name)}, Type: t})
		*zero = append(*zero, id.Name)
	}
	for _, id := range vs.Names {
		addVar(id)
	}
	mk := func(key string, lhs []ast.Expr, rhs ast.Expr) {
		i, ok := idx[key]
		if !ok {
			die("no initialisation order for %s", key)
		}
		have[i] = true
		as := &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}
		x.annotateStmtLate(as)
		rhs2 := x.expr(rhs)
		as.Rhs[0] = rhs2
		fd := &ast.FuncDecl{Name: ast.NewIdent(fmt.Sprintf("simInit_%d", i)), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{as}}}
		x.cur.inits = append(x.cur.inits, fd)
	}
	if len(vs.Values) == 0 {
		return
	}
	if len(vs.Values) == len(vs.Names) {
		for i, id := range vs.Names {
			if lit, ok := vs.Values[i].(*ast.Ident); ok && lit.Name == "nil" && id.Name == "_" {
				continue
			}
			mk(initKey(x.g.fset, vs.Values[i]), []ast.Expr{ast.NewIdent(id.Name)}, vs.Values[i])
		}
		return
	}
	var lhs []ast.Expr
	for _, id := range vs.Names {
		lhs = append(lhs, ast.NewIdent(id.Name))
	}
	mk(initKey(x.g.fset, vs.Values[0]), lhs, vs.Values[0])
}

func (x *xl) annotateStmtLate(as *ast.AssignStmt) {}

// typeExpr writes a type in terms of the translated packages.
func (x *xl) typeExpr(t types.Type) ast.Expr {
	s := x.typeStr(t)
	e, err := parser.ParseExpr(s)
	if err != nil {
		die("type %s: %v", s, err)
	}
	strip(e)
	return e
}

func (x *xl) qual(p *types.Package) string {
	if p == nil || p == x.tp {
		return ""
	}
	t := p.Path()
	if q, ok := x.g.paths[t]; ok {
		t = q
	}
	n, ok := x.cur.imports[t]
	if !ok {
		n = fmt.Sprintf("simt%d_", len(x.cur.imports))
		x.cur.imports[t] = n
		x.cur.extra = append(x.cur.extra, fmt.Sprintf("%s %q", n, t))
	}
	return n + "."
}

func (x *xl) typeStr(t types.Type) string {
	switch t := t.(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return x.qual(types.Unsafe) + "Pointer"
		}
		return t.Name()
	case *types.Alias:
		if t.Obj().Pkg() == nil {
			return t.Obj().Name()
		}
		return x.typeStr(types.Unalias(t))
	case *types.Named:
		o := t.Obj()
		if o.Pkg() != nil && o.Pkg() != x.tp && !o.Exported() {
			die("package variable of unexported foreign type %s", t)
		}
		if o.Pkg() == nil {
			return o.Name()
		}
		return x.qual(o.Pkg()) + o.Name()
	case *types.Pointer:
		return "*" + x.typeStr(t.Elem())
	case *types.Slice:
		return "[]" + x.typeStr(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), x.typeStr(t.Elem()))
	case *types.Map:
		return "map[" + x.typeStr(t.Key()) + "]" + x.typeStr(t.Elem())
	case *types.Chan:
		return "*" + rt + ".Chan[" + x.typeStr(t.Elem()) + "]"
	case *types.Signature:
		return "func" + x.sigStr(t)
	case *types.Interface:
		if t.Empty() {
			return "interface{}"
		}
		var sb strings.Builder
		sb.WriteString("interface{")
		for i := 0; i < t.NumEmbeddeds(); i++ {
			sb.WriteString(x.typeStr(t.EmbeddedType(i)) + ";")
		}
		for i := 0; i < t.NumExplicitMethods(); i++ {
			m := t.ExplicitMethod(i)
			sb.WriteString(m.Name() + x.sigStr(m.Type().(*types.Signature)) + ";")
		}
		return sb.String() + "}"
	case *types.Struct:
		var sb strings.Builder
		sb.WriteString("struct{")
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			if !f.Embedded() {
				sb.WriteString(f.Name() + " ")
			}
			sb.WriteString(x.typeStr(f.Type()))
			if tag := t.Tag(i); tag != "" {
				sb.WriteString(" " + strconv.Quote(tag))
			}
			sb.WriteString(";")
		}
		return sb.String() + "}"
	}
	die("cannot write type %s", t)
	return ""
}

func (x *xl) sigStr(s *types.Signature) string {
	var a []string
	for i := 0; i < s.Params().Len(); i++ {
		t := x.typeStr(s.Params().At(i).Type())
		if s.Variadic() && i == s.Params().Len()-1 {
			t = "..." + strings.TrimPrefix(t, "[]")
		}
		a = append(a, t)
	}
	var r []string
	for i := 0; i < s.Results().Len(); i++ {
		r = append(r, x.typeStr(s.Results().At(i).Type()))
	}
	return "(" + strings.Join(a, ",") + ") (" + strings.Join(r, ",") + ")"
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func hasPtr(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	switch t := t.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Interface:
		return true
	case *types.Basic:
		return t.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasPtr(t.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return hasPtr(t.Elem(), depth+1)
	}
	return false
}

// annotate records, before anything is rewritten, what rewriting needs types for.
func (x *xl) annotate(n ast.Node) {
	isRecv := func(e ast.Expr) *ast.UnaryExpr {
		u, ok := unparen(e).(*ast.UnaryExpr)
		if ok && u.Op == token.ARROW {
			return u
		}
		return nil
	}
	note := func(e ast.Expr) {
		ix, ok := unparen(e).(*ast.IndexExpr)
		if !ok {
			return
		}
		if m, ok := under(x.info.TypeOf(ix.X)).(*types.Map); ok && hasPtr(m.Key(), 0) {
			x.noteIdx[ix] = true
		}
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.RangeStmt:
			switch under(x.info.TypeOf(n.X)).(type) {
			case *types.Map:
				x.rangeKind[n] = "map"
			case *types.Chan:
				x.rangeKind[n] = "chan"
			}
		case *ast.FuncLit:
			ast.Inspect(n.Body, func(m ast.Node) bool {
				if i, ok := m.(*ast.Ident); ok {
					if o, ok := x.info.Uses[i].(*types.Var); ok && !o.IsField() && (o.Pos() < n.Pos() || o.Pos() >= n.End()) {
						x.captured[o] = true
					}
				}
				return true
			})
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				x.recv[n] = true
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := isRecv(n.Rhs[0]); u != nil {
					x.recv2[u] = true
				}
			}
			for _, l := range n.Lhs {
				note(l)
			}
		case *ast.IncDecStmt:
			note(n.X)
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := isRecv(n.Values[0]); u != nil {
					x.recv2[u] = true
				}
			}
		case *ast.CallExpr:
			if id, ok := unparen(n.Fun).(*ast.Ident); ok {
				if b, ok := x.info.Uses[id].(*types.Builtin); ok {
					switch b.Name() {
					case "print", "println":
						x.callKind[n] = b.Name()
					case "close":
						x.callKind[n] = "close"
					case "len", "cap":
						if _, ok := under(x.info.TypeOf(n.Args[0])).(*types.Chan); ok {
							x.callKind[n] = b.Name()
						}
					case "make":
						if _, ok := under(x.info.TypeOf(n.Args[0])).(*types.Chan); ok {
							x.callKind[n] = "make"
						}
					}
				}
			}
			for _, a := range n.Args {
				tv := x.info.Types[a]
				if tv.Value != nil || tv.IsNil() {
					x.isConst[a] = true
				}
			}
		}
		return true
	})
}

func (x *xl) tmp(s string) string {
	x.n++
	return fmt.Sprintf("sim%s%d_", s, x.n)
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func sel(e ast.Expr, s string) ast.Expr {
	return &ast.SelectorExpr{X: e, Sel: id(s)}
}
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func rtc(name string, a ...ast.Expr) *ast.CallExpr { return call(sel(id(rt), name), a...) }
func paren(e ast.Expr) ast.Expr {
	switch e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.ParenExpr, *ast.IndexExpr:
		return e
	}
	return &ast.ParenExpr{X: e}
}
func yield() ast.Stmt { return &ast.ExprStmt{X: rtc("Y")} }

// block inserts yields into a block (before children are rewritten).
func (x *xl) block(b *ast.BlockStmt, fn bool) {
	switch x.mode {
	case modeStmt:
		b.List = x.yields(b.List)
		if len(b.List) == 0 {
			b.List = []ast.Stmt{yield()}
		}
	case modeLoop:
		if fn {
			b.List = append([]ast.Stmt{yield()}, b.List...)
		}
	}
}

func (x *xl) yields(l []ast.Stmt) []ast.Stmt {
	var r []ast.Stmt
	for _, s := range l {
		r = append(r, yield(), x.split(s))
	}
	return r
}

// shared says whether e denotes a variable that other goroutines may reach and
// whose evaluation has no side effects.
func (x *xl) shared(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		o, ok := x.info.Uses[e].(*types.Var)
		return ok && (x.captured[o] || o.Parent() == x.tp.Scope())
	case *ast.SelectorExpr:
		base := unparen(e.X)
		if !x.simple(base) {
			return false
		}
		if _, ok := under(x.info.TypeOf(base)).(*types.Pointer); ok {
			_, isVar := x.info.Uses[e.Sel].(*types.Var)
			return isVar
		}
		return x.shared(base)
	case *ast.StarExpr:
		return x.simple(unparen(e.X))
	}
	return false
}

func (x *xl) simple(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		_, ok := x.info.Uses[e].(*types.Var)
		return ok
	case *ast.SelectorExpr:
		_, ok := x.info.Uses[e.Sel].(*types.Var)
		return ok && x.simple(e.X)
	}
	return false
}

// split makes reading, computing and writing a shared variable three steps.
func (x *xl) split(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if x.shared(s.X) {
			t := x.tmp("t")
			return &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}},
				&ast.IncDecStmt{X: id(t), Tok: s.Tok},
				&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}}}}
		}
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !x.shared(s.Lhs[0]) {
			return s
		}
		t := x.tmp("t")
		if s.Tok == token.ASSIGN {
			lhs := types.ExprString(unparen(s.Lhs[0]))
			self := false
			ast.Inspect(s.Rhs[0], func(n ast.Node) bool {
				if e, ok := n.(ast.Expr); ok && types.ExprString(e) == lhs {
					self = true
				}
				return !self
			})
			if !self {
				return s
			}
			return &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Rhs[0]}},
				&ast.AssignStmt{Lhs: []ast.Expr{s.Lhs[0]}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}}}}
		}
		if s.Tok != token.DEFINE {
			return &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Lhs[0]}},
				&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: s.Tok, Rhs: []ast.Expr{s.Rhs[0]}},
				&ast.AssignStmt{Lhs: []ast.Expr{s.Lhs[0]}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}}}}
		}
	}
	return s
}

// expr rewrites an expression tree.
func (x *xl) expr(e ast.Expr) ast.Expr {
	v := reflect.ValueOf(&e).Elem()
	x.walk(v)
	return e
}

func (x *xl) apply(n ast.Node) {
	v := reflect.ValueOf(n).Elem()
	x.fields(v)
}

func (x *xl) fields(v reflect.Value) {
	t := v.Type()
	for i := 0; i < v.NumField(); i++ {
		switch t.Field(i).Name {
		case "Obj", "Doc", "Comment", "Scope", "Unresolved", "Decl", "Data":
			continue
		}
		f := v.Field(i)
		if f.CanSet() {
			x.walk(f)
		}
	}
}

// walk rewrites the node stored in the addressable value v.
func (x *xl) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			x.walk(v.Index(i))
		}
		return
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return
		}
	default:
		return
	}
	n, ok := v.Interface().(ast.Node)
	if !ok {
		return
	}
	var key ast.Node = n
	// things that must look at the statement before its parts change
	switch s := n.(type) {
	case *ast.SelectStmt:
		r := x.selectStmt(s, nil)
		v.Set(reflect.ValueOf(r))
		return
	case *ast.LabeledStmt:
		if ss, ok := s.Stmt.(*ast.SelectStmt); ok {
			v.Set(reflect.ValueOf(x.selectStmt(ss, s.Label)))
			return
		}
	case *ast.FuncLit:
		x.block(s.Body, true)
	case *ast.GoStmt:
		v.Set(reflect.ValueOf(x.goStmt(s)))
		return
	case *ast.RangeStmt:
		v.Set(reflect.ValueOf(x.rangeStmt(s)))
		return
	case *ast.ForStmt:
		x.block(s.Body, true)
	case *ast.IfStmt:
		x.block(s.Body, false)
	case *ast.CaseClause:
		if x.mode == modeStmt {
			s.Body = x.yields(s.Body)
		}
	case *ast.CallExpr:
		if x.callKind[s] == "make" {
			ct, ok := unparen(s.Args[0]).(*ast.ChanType)
			if !ok {
				die("make of a named channel type is not supported")
			}
			var n ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
			if len(s.Args) > 1 {
				n = call(id("int"), x.expr(s.Args[1]))
			}
			r := call(&ast.IndexExpr{X: sel(id(rt), "MakeChan"), Index: x.expr(ct.Value)}, n)
			v.Set(reflect.ValueOf(ast.Expr(r)))
			return
		}
	}
	// plain nested blocks
	if b, ok := n.(*ast.BlockStmt); ok && v.Kind() == reflect.Interface {
		x.block(b, false)
	}
	rv := reflect.ValueOf(n).Elem()
	x.fields(rv)
	switch e := n.(type) {
	case *ast.ChanType:
		r := &ast.StarExpr{X: &ast.IndexExpr{X: sel(id(rt), "Chan"), Index: e.Value}}
		v.Set(reflect.ValueOf(ast.Expr(r)))
	case *ast.SendStmt:
		v.Set(reflect.ValueOf(ast.Stmt(&ast.ExprStmt{X: call(sel(paren(e.Chan), "Send"), e.Value)})))
	case *ast.UnaryExpr:
		if x.recv[e] {
			m := "Recv"
			if x.recv2[e] {
				m = "Recv2"
			}
			v.Set(reflect.ValueOf(ast.Expr(call(sel(paren(e.X), m)))))
		}
	case *ast.CallExpr:
		switch x.callKind[key.(*ast.CallExpr)] {
		case "print":
			e.Fun = sel(id(rt), "Print")
		case "println":
			e.Fun = sel(id(rt), "Println")
		case "close":
			v.Set(reflect.ValueOf(ast.Expr(call(sel(paren(e.Args[0]), "Close")))))
		case "len":
			v.Set(reflect.ValueOf(ast.Expr(call(sel(paren(e.Args[0]), "Len")))))
		case "cap":
			v.Set(reflect.ValueOf(ast.Expr(call(sel(paren(e.Args[0]), "Cap")))))
		}
	case *ast.IndexExpr:
		if x.noteIdx[e] {
			e.Index = rtc("NoteKey", e.Index)
		}
	case *ast.Ident:
	}
}

func (x *xl) stmts(l []ast.Stmt) {
	for i := range l {
		x.walk(reflect.ValueOf(&l[i]).Elem())
	}
}

func (x *xl) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	fl, isLit := unparen(c.Fun).(*ast.FuncLit)
	if isLit && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: rtc("Go", x.expr(fl))}
	}
	consts := make([]bool, len(c.Args))
	for i, a := range c.Args {
		consts[i] = x.isConst[a]
	}
	var e ast.Expr = c
	e = x.expr(e)
	c2, ok := e.(*ast.CallExpr)
	if !ok {
		return &ast.ExprStmt{X: rtc("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}})}
	}
	if len(consts) != len(c2.Args) { // close, rewritten to a method call
		consts = make([]bool, len(c2.Args))
	}
	b := &ast.BlockStmt{}
	fn := x.tmp("f")
	b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id(fn)}, Tok: token.DEFINE, Rhs: []ast.Expr{c2.Fun}})
	args := make([]ast.Expr, len(c2.Args))
	for i, a := range c2.Args {
		if consts[i] {
			args[i] = a
			continue
		}
		t := x.tmp("a")
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		args[i] = id(t)
	}
	nc := call(id(fn), args...)
	if c2.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	b.List = append(b.List, &ast.ExprStmt{X: rtc("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})})
	return b
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (x *xl) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	kind := x.rangeKind[s]
	if kind == "" {
		x.block(s.Body, true)
		x.fields(reflect.ValueOf(s).Elem())
		return s
	}
	x.block(s.Body, true)
	x.stmts(s.Body.List)
	X := x.expr(s.X)
	key, val := s.Key, s.Value
	if key != nil {
		key = x.expr(key)
	}
	if val != nil {
		val = x.expr(val)
	}
	pre := []ast.Stmt{}
	f := &ast.ForStmt{}
	if kind == "chan" {
		c := x.tmp("c")
		ok := x.tmp("k")
		var lhs ast.Expr = id("_")
		if blank(key) {
			f.Init = &ast.AssignStmt{Lhs: []ast.Expr{id(c)}, Tok: token.DEFINE, Rhs: []ast.Expr{X}}
		} else if s.Tok == token.DEFINE {
			f.Init = &ast.AssignStmt{Lhs: []ast.Expr{id(c), key}, Tok: token.DEFINE, Rhs: []ast.Expr{rtc("ChanVar", X)}}
			lhs = key
		} else {
			f.Init = &ast.AssignStmt{Lhs: []ast.Expr{id(c)}, Tok: token.DEFINE, Rhs: []ast.Expr{X}}
			lhs = key
		}
		pre = append(pre,
			&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(ok)}, Type: id("bool")}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{lhs, id(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(sel(id(c), "Recv2"))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
	} else {
		it := x.tmp("it")
		f.Cond = call(sel(id(it), "Next"))
		switch {
		case s.Tok == token.DEFINE && !blank(val):
			k := key
			if blank(key) {
				k = id("_")
			}
			f.Init = &ast.AssignStmt{Lhs: []ast.Expr{id(it), k, val}, Tok: token.DEFINE, Rhs: []ast.Expr{rtc("MapRange3", X)}}
		case s.Tok == token.DEFINE && !blank(key):
			f.Init = &ast.AssignStmt{Lhs: []ast.Expr{id(it), key}, Tok: token.DEFINE, Rhs: []ast.Expr{rtc("MapRange2", X)}}
		default:
			f.Init = &ast.AssignStmt{Lhs: []ast.Expr{id(it)}, Tok: token.DEFINE, Rhs: []ast.Expr{rtc("MapRange1", X)}}
		}
		if !blank(key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(sel(id(it), "K"))}})
		}
		if !blank(val) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{val}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(sel(id(it), "V"))}})
		}
	}
	f.Body = &ast.BlockStmt{List: append(pre, s.Body.List...)}
	return f
}

func (x *xl) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	out := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var cases []ast.Expr
	hasDef := false
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		body := cc.Body
		if x.mode == modeStmt {
			body = x.yields(body)
		}
		x.stmts(body)
		cl := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDef = true
			cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}
			cl.Body = body
			sw.Body.List = append(sw.Body.List, cl)
			continue
		}
		cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}
		n++
		cs := x.tmp("s")
		switch st := cc.Comm.(type) {
		case *ast.SendStmt:
			out.List = append(out.List, &ast.AssignStmt{Lhs: []ast.Expr{id(cs)}, Tok: token.DEFINE,
				Rhs: []ast.Expr{call(sel(paren(x.expr(st.Chan)), "SelSend"), x.expr(st.Value))}})
		default:
			var u *ast.UnaryExpr
			var as *ast.AssignStmt
			switch st := st.(type) {
			case *ast.ExprStmt:
				u = unparen(st.X).(*ast.UnaryExpr)
			case *ast.AssignStmt:
				as = st
				u = unparen(st.Rhs[0]).(*ast.UnaryExpr)
			}
			ch := x.tmp("c")
			out.List = append(out.List,
				&ast.AssignStmt{Lhs: []ast.Expr{id(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{x.expr(u.X)}},
				&ast.AssignStmt{Lhs: []ast.Expr{id(cs)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(sel(id(ch), "SelRecv"))}})
			if as != nil {
				m := "SelGot1"
				if len(as.Lhs) == 2 {
					m = "SelGot"
				}
				var lhs []ast.Expr
				for _, l := range as.Lhs {
					lhs = append(lhs, x.expr(l))
				}
				body = append([]ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: as.Tok, Rhs: []ast.Expr{call(sel(id(ch), m), id(cs))}}}, body...)
			}
		}
		cases = append(cases, id(cs))
		cl.Body = body
		sw.Body.List = append(sw.Body.List, cl)
	}
	d := "false"
	if hasDef {
		d = "true"
	}
	sw.Tag = rtc("Select", append([]ast.Expr{id(d)}, cases...)...)
	// a select without default always runs one of its cases: tell the compiler
	if !hasDef {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"select"`})}}})
	} else {
		for _, c := range sw.Body.List {
			cl := c.(*ast.CaseClause)
			if b, ok := cl.List[0].(*ast.BasicLit); ok && b.Value == "-1" {
				cl.List = nil // default
			}
		}
	}
	var st ast.Stmt = sw
	if label != nil {
		st = &ast.LabeledStmt{Label: id(label.Name), Stmt: sw}
	}
	out.List = append(out.List, st)
	return out
}

// strip clears positions and comments so that the printer lays the code out
// afresh.
func strip(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		v := reflect.ValueOf(n)
		if v.Kind() != reflect.Ptr || v.IsNil() {
			return true
		}
		v = v.Elem()
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				continue
			}
			name := v.Type().Field(i).Name
			if f.Type() == reflect.TypeOf(token.Pos(0)) {
				switch {
				case name == "Ellipsis" && f.Int() != 0, name == "Lparen" && v.Type() == reflect.TypeOf(ast.GenDecl{}) && f.Int() != 0,
					name == "Assign" && f.Int() != 0, name == "Arrow" && f.Int() != 0, name == "TypePos":
					f.SetInt(1)
				default:
					f.SetInt(0)
				}
			}
			switch name {
			case "Doc", "Comment":
				f.Set(reflect.Zero(f.Type()))
			}
		}
		return true
	})
}
