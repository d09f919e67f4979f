// Command instr rewrites the Go packages of the repository under test for deterministic
// simulation. It reads the working tree, writes rewritten files into a scratch directory and an
// overlay file for `go build -overlay`. It changes nothing in the tree.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	module  = "github.com/kitex-contrib/xds"
	simBase = module + "/verifsim"
	adsPkg  = module + "/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
)

// packages compiled with the scheduler underneath
var instrumented = []string{
	module,
	module + "/core/manager",
	module + "/core/manager/auth",
	module + "/core/xdsresource",
	module + "/xdssuite",
}

// packages whose variables a simulated process starts with anew
var resettable = map[string]bool{
	module: true, module + "/core/manager": true, module + "/core/xdsresource": true, module + "/xdssuite": true,
}

// files with nothing but fixtures of the repository's tests, which no code writes
var fixtures = map[string]bool{"testutil.go": true}

// dependencies compiled from instrumented copies
var copies = map[string]string{
	"github.com/cenkalti/backoff/v4": simBase + "/dep/backoff",
	"go.uber.org/atomic":             simBase + "/dep/uatomic",
	"golang.org/x/sync/errgroup":     simBase + "/dep/errgroup",
	"golang.org/x/sync/singleflight": simBase + "/dep/singleflight",
}

// imports replaced by shims
var shims = map[string]string{
	"sync":         simBase + "/shim/dsync",
	"sync/atomic":  simBase + "/shim/datomic",
	"time":         simBase + "/shim/dtime",
	"context":      simBase + "/shim/dcontext",
	"math/rand":    simBase + "/shim/drand",
	"math/rand/v2": simBase + "/shim/drandv2",
	"maps":         simBase + "/shim/dmaps",
	"os":           simBase + "/shim/dos",
	"github.com/bytedance/gopkg/lang/fastrand": simBase + "/shim/dfastrand",
	"github.com/bytedance/gopkg/util/gopool":   simBase + "/shim/dgopool",
}

type pkgInfo struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	Error      *struct{ Err string }
	Module     *struct{ Path string }
}

var (
	repo    = flag.String("repo", "/repo", "repository")
	simdir  = flag.String("sim", "/verif/sim", "simulator sources")
	out     = flag.String("out", "", "scratch directory")
	race    = flag.Bool("race", false, "for the race detector")
	debug   = flag.Bool("debug", false, "keep going on odd input")
	overlay = map[string]string{}
)

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	if *out == "" {
		fatal("-out required")
	}
	pk := golist()
	exports := map[string]string{}
	for _, p := range pk {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	byPath := map[string]*pkgInfo{}
	for _, p := range pk {
		byPath[p.ImportPath] = p
	}
	// every package of the module that is not generated API code is instrumented
	var list []string
	for _, p := range pk {
		if p.Module == nil || p.Module.Path != module || strings.HasPrefix(p.ImportPath, simBase) {
			continue
		}
		if strings.Contains(p.ImportPath, "/kitex_gen/") || strings.HasSuffix(p.ImportPath, "/mock") {
			continue
		}
		list = append(list, p.ImportPath)
	}
	for _, want := range instrumented {
		if byPath[want] == nil {
			fatal("package %s not found", want)
		}
	}
	for path := range copies {
		if byPath[path] != nil {
			list = append(list, path)
		}
	}
	sort.Strings(list)
	for _, path := range list {
		instrument(fset, imp, byPath[path])
	}
	ads(fset, byPath[adsPkg])
	simFiles()
	aliases(imp)
	if *race {
		pools()
	}
	data, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), data, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("instr: %d packages, %d files\n", len(list), len(overlay))
}

func golist() []*pkgInfo {
	args := []string{"list", "-e", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard,Error,Module"}
	args = append(args, "./...")
	for p := range copies {
		args = append(args, p)
	}
	args = append(args, "math/rand", "math/rand/v2", "maps", "context", "sync", "sync/atomic", "time", "os", "github.com/bytedance/gopkg/lang/fastrand")
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	var errb bytes.Buffer
	cmd.Stderr = &errb
	o, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, errb.String())
	}
	var pk []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		if p.Error != nil && p.Module != nil && p.Module.Path == module {
			fatal("%s: %s", p.ImportPath, p.Error.Err)
		}
		pk = append(pk, p)
	}
	return pk
}

// pools has sync.Pool keep nothing. An object that goes through a pool orders the goroutines that use it one
// after the other; where all run in turns that is nearly always the case, and hides races from the detector.
func pools() {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fatal("go env: %v", err)
	}
	f := filepath.Join(strings.TrimSpace(string(b)), "src/sync/pool.go")
	src, err := os.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}
	const drop = "if runtime_randn(4) == 0 {"
	if strings.Count(string(src), drop) != 1 {
		fatal("unexpected %s", f)
	}
	put(f, []byte(strings.Replace(string(src), drop, "if runtime_randn(4) < 4 {", 1)))
}

// put writes a generated file and maps it over (or adds it as) target.
func put(target string, data []byte) {
	rel := strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "__")
	f := filepath.Join(*out, "src", rel)
	if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(f, data, 0o644); err != nil {
		fatal("%v", err)
	}
	overlay[target] = f
}

// simFiles adds the runtime, the shims and the harness as packages of the module.
func simFiles() {
	err := filepath.Walk(*simdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*simdir, p)
		if fi.IsDir() {
			if rel == "instr" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") {
			overlay[filepath.Join(*repo, "verifsim", rel)] = p
		}
		return nil
	})
	if err != nil {
		fatal("%v", err)
	}
}

// aliases re-exports, in each shim, what the shim does not define itself.
func aliases(imp types.Importer) {
	for path, shim := range shims {
		dir := strings.TrimPrefix(shim, simBase+"/")
		own := map[string]bool{}
		fs := token.NewFileSet()
		pkgs, err := parser.ParseDir(fs, filepath.Join(*simdir, dir), nil, 0)
		if err != nil {
			fatal("%v", err)
		}
		name := ""
		for n, p := range pkgs {
			name = n
			for _, f := range p.Files {
				for _, d := range f.Decls {
					switch x := d.(type) {
					case *ast.FuncDecl:
						if x.Recv == nil {
							own[x.Name.Name] = true
						}
					case *ast.GenDecl:
						for _, sp := range x.Specs {
							switch y := sp.(type) {
							case *ast.TypeSpec:
								own[y.Name.Name] = true
							case *ast.ValueSpec:
								for _, i := range y.Names {
									own[i.Name] = true
								}
							}
						}
					}
				}
			}
		}
		pkg, err := imp.Import(path)
		if err != nil {
			fatal("import %s: %v", path, err)
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "//go:build go1.21\n\npackage %s\n\nimport real %q\n\n", name, path)
		n := 0
		for _, id := range pkg.Scope().Names() {
			if own[id] || !ast.IsExported(id) {
				continue
			}
			switch o := pkg.Scope().Lookup(id).(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = real.%s\n", id, id)
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = real.%s\n", id, id)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = real.%s\n", id, id)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = real.%s\n", id, id)
			}
			n++
		}
		if n > 0 {
			put(filepath.Join(*repo, "verifsim", dir, "zz_alias.go"), b.Bytes())
		}
	}
}

// ads puts the simulated network behind the ADS client constructor.
func ads(fset *token.FileSet, p *pkgInfo) {
	if p == nil {
		fatal("package %s not found", adsPkg)
	}
	done := false
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		af, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "NewClient" {
				fd.Name.Name = "newNetworkClient"
				var b bytes.Buffer
				if err := format.Node(&b, fset, af); err != nil {
					fatal("%v", err)
				}
				put(path, b.Bytes())
				done = true
			}
		}
	}
	if !done {
		fatal("aggregateddiscoveryservice.NewClient not found")
	}
	put(filepath.Join(p.Dir, "zz_verifsim.go"), []byte(`package aggregateddiscoveryservice

import client "github.com/cloudwego/kitex/client"

// SimClient, if set, gives the client of the simulated network.
var SimClient func(destService string, opts []client.Option) (Client, error)

func NewClient(destService string, opts ...client.Option) (Client, error) {
	if SimClient != nil {
		return SimClient(destService, opts)
	}
	return newNetworkClient(destService, opts...)
}
`))
}

func instrument(fset *token.FileSet, imp types.Importer, p *pkgInfo) {
	var files []*ast.File
	var paths []string
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		af, err := parser.ParseFile(fset, path, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, af)
		paths = append(paths, path)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal("type-checking %s: %v", p.ImportPath, err)
	}
	order := map[types.Object]int{}
	for i, in := range info.InitOrder {
		for _, v := range in.Lhs {
			order[v] = i + 1
		}
	}
	target := p.Dir
	copyTo, isCopy := copies[p.ImportPath]
	if isCopy {
		target = filepath.Join(*repo, "verifsim", strings.TrimPrefix(copyTo, simBase+"/"))
	}
	for i, af := range files {
		r := &rewriter{fset: fset, info: info, pkg: tp, file: af, path: p.ImportPath, order: order}
		r.fixture = fixtures[filepath.Base(paths[i])]
		r.run()
		af.Comments = keepComments(af)
		var b bytes.Buffer
		cfg := printer.Config{Mode: printer.SourcePos | printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
		if err := cfg.Fprint(&b, fset, af); err != nil {
			fatal("print %s: %v", paths[i], err)
		}
		put(filepath.Join(target, filepath.Base(paths[i])), b.Bytes())
	}
}

// keepComments keeps build constraints and compiler directives; other comments would only be
// displaced by the rewriting.
func keepComments(af *ast.File) []*ast.CommentGroup {
	var keep []*ast.CommentGroup
	for _, g := range af.Comments {
		var l []*ast.Comment
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:") && g.End() < af.Package {
				l = append(l, c)
			}
		}
		if len(l) > 0 {
			keep = append(keep, &ast.CommentGroup{List: l})
		}
	}
	// detach doc comments, the printer would look for them
	ast.Inspect(af, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
	af.Doc = nil
	return keep
}

type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	file    *ast.File
	path    string
	n       int
	usedDet bool
	order   map[types.Object]int // the place of a package variable in the initialisation
	fixture bool
}

const detName = "det__"

func (r *rewriter) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("%s__%d", p, r.n))
}

func (r *rewriter) det(name string) ast.Expr {
	r.usedDet = true
	return &ast.SelectorExpr{X: ast.NewIdent(detName), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func blank(e ...ast.Expr) ast.Stmt {
	var l []ast.Expr
	for range e {
		l = append(l, ast.NewIdent("_"))
	}
	return &ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: e}
}

func intLit(i int) ast.Expr {
	if i < 0 {
		return &ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(-i)}}
	}
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}
}

func (r *rewriter) run() {
	r.imports()
	for _, d := range r.file.Decls {
		r.decl(d)
	}
	if resettable[r.path] && !r.fixture {
		r.resets()
	}
	if r.usedDet {
		spec := &ast.ImportSpec{Name: ast.NewIdent(detName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simBase + "/det")}}
		gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}, TokPos: r.file.Name.End()}
		r.file.Decls = append([]ast.Decl{gd}, r.file.Decls...)
	}
}

// resets has the package variables of the file set to their initial values by det.Reset, in the
// order of the package's initialisation, and the init functions called after that, so that one
// process can simulate several.
func (r *rewriter) resets() {
	var regs []ast.Stmt
	fun := func(body ...ast.Stmt) ast.Expr {
		return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
	}
	set := func(id *ast.Ident, lhs []ast.Expr, rhs ...ast.Expr) {
		body := &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs}
		regs = append(regs, &ast.ExprStmt{X: call(r.det("OnReset"), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.path)},
			intLit(r.order[r.info.Defs[id]]), fun(body))})
	}
	for _, d := range r.file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
			name := r.tmp("init__" + strings.TrimSuffix(filepath.Base(r.fset.Position(r.file.Package).Filename), ".go"))
			name.Name = strings.Map(func(c rune) rune {
				if c == '.' || c == '-' {
					return '_'
				}
				return c
			}, name.Name)
			fd.Name = name
			regs = append(regs,
				&ast.ExprStmt{X: call(r.det("OnReset"), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.path)}, intLit(1<<20), ast.NewIdent(name.Name))},
				&ast.ExprStmt{X: call(ast.NewIdent(name.Name))})
			continue
		}
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			var names []ast.Expr
			var first *ast.Ident
			for _, n := range vs.Names {
				names = append(names, ast.NewIdent(n.Name))
				if n.Name != "_" && first == nil {
					first = n
				}
			}
			switch {
			case first == nil:
			case len(vs.Values) == 0:
				for i, n := range vs.Names {
					if n.Name != "_" {
						set(n, names[i:i+1], &ast.StarExpr{X: call(ast.NewIdent("new"), vs.Type)})
					}
				}
			case len(vs.Values) == len(names):
				for i, n := range vs.Names {
					if n.Name != "_" {
						set(n, names[i:i+1], vs.Values[i])
					}
				}
			default:
				set(first, names, vs.Values...)
			}
		}
	}
	if len(regs) == 0 {
		return
	}
	r.file.Decls = append(r.file.Decls, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: regs}})
}

func (r *rewriter) imports() {
	for _, d := range r.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, sp := range gd.Specs {
			is := sp.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			to, ok := shims[path]
			if !ok {
				to, ok = copies[path]
			}
			if !ok {
				continue
			}
			if is.Name == nil {
				name := filepath.Base(path)
				if m := strings.TrimPrefix(name, "v"); m != name && strings.Trim(m, "0123456789") == "" {
					name = filepath.Base(filepath.Dir(path)) // a major version
				}
				is.Name = ast.NewIdent(name)
			}
			is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to)}
		}
	}
}

func (r *rewriter) decl(d ast.Decl) {
	switch x := d.(type) {
	case *ast.FuncDecl:
		if x.Body != nil {
			r.block(x.Body)
		}
	case *ast.GenDecl:
		for _, sp := range x.Specs {
			if vs, ok := sp.(*ast.ValueSpec); ok {
				for i := range vs.Values {
					vs.Values[i] = r.expr(vs.Values[i])
				}
			}
		}
	}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		o = append(o, r.stmt(s, "")...)
	}
	return o
}

// one wraps several statements into one.
func one(l []ast.Stmt) ast.Stmt {
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func coreType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rewriter) stmt(s ast.Stmt, label string) []ast.Stmt {
	lab := func(x ast.Stmt) ast.Stmt {
		if label != "" {
			return &ast.LabeledStmt{Label: ast.NewIdent(label), Stmt: x}
		}
		return x
	}
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		switch x.Stmt.(type) {
		case *ast.SelectStmt, *ast.RangeStmt:
			return r.stmt(x.Stmt, x.Label.Name)
		}
		l := r.stmt(x.Stmt, "")
		x.Stmt = one(l)
		return []ast.Stmt{x}
	case *ast.BlockStmt:
		r.block(x)
	case *ast.ExprStmt:
		if u, ok := unparen(x.X).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			x.X = call(r.det("Recv"), r.expr(u.X))
			return []ast.Stmt{x}
		}
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		ch, v := r.expr(x.Chan), r.expr(x.Value)
		// the value must have the channel's element type: let inference use the channel
		return []ast.Stmt{&ast.ExprStmt{X: call(r.det("Send"), ch, v)}}
	case *ast.AssignStmt:
		for i := range x.Lhs {
			x.Lhs[i] = r.expr(x.Lhs[i])
		}
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				x.Rhs[0] = call(r.det("Recv2"), r.expr(u.X))
				return []ast.Stmt{x}
			}
		}
		for i := range x.Rhs {
			x.Rhs[i] = r.expr(x.Rhs[i])
		}
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		x.Call = r.deferCall(x.Call)
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = r.expr(x.Results[i])
		}
	case *ast.IfStmt:
		if x.Init != nil {
			x.Init = one(r.stmt(x.Init, ""))
		}
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = elseOne(r.stmt(x.Else, ""))
		}
	case *ast.ForStmt:
		if x.Init != nil {
			x.Init = one(r.stmt(x.Init, ""))
		}
		if x.Cond != nil {
			x.Cond = r.expr(x.Cond)
		}
		if x.Post != nil {
			x.Post = one(r.stmt(x.Post, ""))
		}
		r.block(x.Body)
	case *ast.SwitchStmt:
		if x.Init != nil {
			x.Init = one(r.stmt(x.Init, ""))
		}
		if x.Tag != nil {
			x.Tag = r.expr(x.Tag)
		}
		r.caseBodies(x.Body)
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			x.Init = one(r.stmt(x.Init, ""))
		}
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			a.Rhs[0] = r.expr(a.Rhs[0])
		case *ast.ExprStmt:
			a.X = r.expr(a.X)
		}
		r.caseBodies(x.Body)
	case *ast.DeclStmt:
		r.decl(x.Decl)
	case *ast.SelectStmt:
		return r.selectStmt(x, label)
	case *ast.RangeStmt:
		return r.rangeStmt(x, label)
	}
	return []ast.Stmt{lab(s)}
}

func elseOne(l []ast.Stmt) ast.Stmt {
	if len(l) == 1 {
		switch l[0].(type) {
		case *ast.BlockStmt, *ast.IfStmt:
			return l[0]
		}
	}
	return &ast.BlockStmt{List: l}
}

func (r *rewriter) caseBodies(b *ast.BlockStmt) {
	for _, c := range b.List {
		if cc, ok := c.(*ast.CaseClause); ok {
			for i := range cc.List {
				if tv, ok := r.info.Types[cc.List[i]]; ok && !tv.IsType() {
					cc.List[i] = r.expr(cc.List[i])
				}
			}
			cc.Body = r.stmts(cc.Body)
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// hoist evaluates e into a new variable, unless it is a constant, nil, a type or a function literal.
func (r *rewriter) hoist(e ast.Expr, pre *[]ast.Stmt) ast.Expr {
	if tv, ok := r.info.Types[e]; ok && (tv.Value != nil && tv.Value.Kind() != constant.Unknown || tv.IsNil() || tv.IsType() || tv.IsBuiltin()) {
		return r.expr(e)
	}
	if _, ok := e.(*ast.FuncLit); ok {
		return r.expr(e)
	}
	v := r.tmp("a")
	*pre = append(*pre, define([]ast.Expr{v}, r.expr(e)))
	return ast.NewIdent(v.Name)
}

func (r *rewriter) goStmt(x *ast.GoStmt) []ast.Stmt {
	c := x.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		r.block(fl.Body)
		return []ast.Stmt{&ast.ExprStmt{X: call(r.det("Go"), fl)}}
	}
	var pre []ast.Stmt
	var fun ast.Expr
	if tv, ok := r.info.Types[c.Fun]; ok && tv.IsBuiltin() {
		fun = c.Fun
	} else {
		fun = r.hoistFun(c.Fun, &pre)
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		args[i] = r.hoist(a, &pre)
	}
	inner := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	body := ast.Expr(inner)
	if id, ok := fun.(*ast.Ident); ok && id.Name == "close" {
		if tv, ok := r.info.Types[c.Fun]; ok && tv.IsBuiltin() {
			body = call(r.det("Close"), args...)
		}
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body}}}}
	pre = append(pre, &ast.ExprStmt{X: call(r.det("Go"), lit)})
	return []ast.Stmt{&ast.BlockStmt{List: pre}}
}

func (r *rewriter) hoistFun(f ast.Expr, pre *[]ast.Stmt) ast.Expr {
	if fl, ok := unparen(f).(*ast.FuncLit); ok {
		return r.expr(fl)
	}
	if id, ok := unparen(f).(*ast.Ident); ok {
		if _, isF := r.info.Uses[id].(*types.Func); isF {
			return id
		}
	}
	v := r.tmp("f")
	*pre = append(*pre, define([]ast.Expr{v}, r.expr(f)))
	return ast.NewIdent(v.Name)
}

// deferCall keeps the call's shape (arguments are evaluated at the defer statement).
func (r *rewriter) deferCall(c *ast.CallExpr) *ast.CallExpr {
	e := r.expr(c)
	return e.(*ast.CallExpr)
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, label string) []ast.Stmt {
	var pre []ast.Stmt
	var cases []ast.Expr
	var clauses []ast.Stmt
	hasDefault := false
	sel := r.tmp("sel")
	selName := sel.Name
	done := func() ast.Stmt {
		return &ast.ExprStmt{X: call(&ast.SelectorExpr{X: ast.NewIdent(selName), Sel: ast.NewIdent("Done")})}
	}
	idx := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		body := cc.Body
		var head []ast.Stmt
		caseNo := idx
		switch st := cc.Comm.(type) {
		case nil:
			hasDefault = true
			caseNo = -1
		case *ast.SendStmt:
			ch, v := r.tmp("c"), r.tmp("v")
			pre = append(pre, define([]ast.Expr{ch}, r.expr(st.Chan)))
			val := r.expr(st.Value)
			ident := ast.Expr(ast.NewIdent(v.Name))
			if tv, ok := r.info.Types[st.Value]; ok && (tv.Value != nil || tv.IsNil()) {
				ident = val
			} else {
				pre = append(pre, define([]ast.Expr{v}, val))
			}
			cases = append(cases, call(r.det("SendCase"), ast.NewIdent(ch.Name)))
			head = append(head, &ast.SendStmt{Chan: ast.NewIdent(ch.Name), Value: ident}, done())
			idx++
		default:
			var u *ast.UnaryExpr
			var asg *ast.AssignStmt
			switch y := st.(type) {
			case *ast.ExprStmt:
				u = unparen(y.X).(*ast.UnaryExpr)
			case *ast.AssignStmt:
				u = unparen(y.Rhs[0]).(*ast.UnaryExpr)
				asg = y
			}
			ch := r.tmp("c")
			pre = append(pre, define([]ast.Expr{ch}, r.expr(u.X)))
			cases = append(cases, call(r.det("RecvCase"), ast.NewIdent(ch.Name)))
			recv := &ast.UnaryExpr{Op: token.ARROW, X: ast.NewIdent(ch.Name)}
			if asg == nil {
				head = append(head, &ast.ExprStmt{X: recv}, done())
			} else {
				lhs := make([]ast.Expr, len(asg.Lhs))
				for i := range asg.Lhs {
					lhs[i] = r.expr(asg.Lhs[i])
				}
				head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: asg.Tok, Rhs: []ast.Expr{recv}}, done())
			}
			idx++
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{intLit(caseNo)}, Body: append(head, r.stmts(body)...)})
	}
	d := "false"
	if hasDefault {
		d = "true"
	}
	pre = append(pre, define([]ast.Expr{sel}, call(r.det("Select"), append([]ast.Expr{ast.NewIdent(d)}, cases...)...)))
	// the last clause becomes the default, so that "missing return" analysis still sees a
	// terminating statement
	if n := len(clauses); n > 0 {
		clauses[n-1].(*ast.CaseClause).List = nil
	}
	var sw ast.Stmt = &ast.SwitchStmt{Tag: &ast.SelectorExpr{X: ast.NewIdent(selName), Sel: ast.NewIdent("I")}, Body: &ast.BlockStmt{List: clauses}}
	if label != "" {
		sw = &ast.LabeledStmt{Label: ast.NewIdent(label), Stmt: sw}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, sw)}}
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt, label string) []ast.Stmt {
	t := coreType(r.typeOf(x.X))
	lab := func(s ast.Stmt) ast.Stmt {
		if label != "" {
			return &ast.LabeledStmt{Label: ast.NewIdent(label), Stmt: s}
		}
		return s
	}
	isBlank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	switch t.(type) {
	case *types.Map:
		m, k := r.tmp("m"), r.tmp("k")
		pre := []ast.Stmt{define([]ast.Expr{m}, r.expr(x.X))}
		v, ok := r.tmp("v"), r.tmp("ok")
		inner := []ast.Stmt{
			define([]ast.Expr{v, ok}, &ast.IndexExpr{X: ast.NewIdent(m.Name), Index: ast.NewIdent(k.Name)}),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			blank(ast.NewIdent(v.Name)),
		}
		var lhs, rhs, decl []ast.Expr
		if !isBlank(x.Key) {
			lhs = append(lhs, r.expr(x.Key))
			rhs = append(rhs, ast.NewIdent(k.Name))
		}
		if !isBlank(x.Value) {
			lhs = append(lhs, r.expr(x.Value))
			rhs = append(rhs, ast.NewIdent(v.Name))
		}
		if len(lhs) > 0 {
			if x.Tok == token.DEFINE {
				// one variable for the whole loop, as in the language version of the module
				kz, vz := ast.Expr(ast.NewIdent("_")), ast.Expr(ast.NewIdent("_"))
				if !isBlank(x.Key) {
					kz = ast.NewIdent(x.Key.(*ast.Ident).Name)
					decl = append(decl, ast.NewIdent(x.Key.(*ast.Ident).Name))
				}
				if !isBlank(x.Value) {
					vz = ast.NewIdent(x.Value.(*ast.Ident).Name)
					decl = append(decl, ast.NewIdent(x.Value.(*ast.Ident).Name))
				}
				pre = append(pre, define([]ast.Expr{kz, vz}, call(r.det("Zero"), ast.NewIdent(m.Name))), blank(decl...))
			}
			inner = append(inner, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs})
		}
		r.block(x.Body)
		inner = append(inner, x.Body.List...)
		loop := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: call(r.det("Keys"), ast.NewIdent(m.Name)), Body: &ast.BlockStmt{List: inner}}
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, lab(loop))}}
	case *types.Chan:
		ch, ok, v := r.tmp("c"), r.tmp("ok"), r.tmp("v")
		pre := []ast.Stmt{define([]ast.Expr{ch}, r.expr(x.X))}
		inner := []ast.Stmt{
			define([]ast.Expr{v, ok}, call(r.det("Recv2"), ast.NewIdent(ch.Name))),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			blank(ast.NewIdent(v.Name)),
		}
		if !isBlank(x.Key) {
			inner = append(inner, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(x.Key)}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
			if x.Tok == token.DEFINE {
				inner = append(inner, blank(ast.NewIdent(x.Key.(*ast.Ident).Name)))
			}
		}
		r.block(x.Body)
		inner = append(inner, x.Body.List...)
		loop := &ast.ForStmt{Body: &ast.BlockStmt{List: inner}}
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, lab(loop))}}
	}
	x.X = r.expr(x.X)
	if x.Tok == token.ASSIGN {
		if x.Key != nil {
			x.Key = r.expr(x.Key)
		}
		if x.Value != nil {
			x.Value = r.expr(x.Value)
		}
	}
	r.block(x.Body)
	return []ast.Stmt{lab(x)}
}

// expr rewrites channel receives, close calls and function literals inside an expression.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.det("Recv"), r.expr(x.X))
		}
		x.X = r.expr(x.X)
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.CallExpr:
		if id, ok := unparen(x.Fun).(*ast.Ident); ok && id.Name == "close" {
			if tv, ok := r.info.Types[x.Fun]; ok && tv.IsBuiltin() {
				return &ast.CallExpr{Fun: r.det("Close"), Args: []ast.Expr{r.expr(x.Args[0])}}
			}
		}
		if id, ok := unparen(x.Fun).(*ast.Ident); ok && id.Name == "make" && len(x.Args) == 2 {
			if tv, ok := r.info.Types[x.Fun]; ok && tv.IsBuiltin() && isChan(r.typeOf(x.Args[0])) {
				if cv := r.info.Types[x.Args[1]]; cv.Value != nil && constant.Compare(cv.Value, token.GEQ, constant.MakeInt64(256)) {
					// long queues are shortened in some runs
					return &ast.CallExpr{Fun: ast.NewIdent("make"), Args: []ast.Expr{r.expr(x.Args[0]), call(r.det("Cap"), x.Args[1])}}
				}
			}
		}
		if se, ok := unparen(x.Fun).(*ast.SelectorExpr); ok && se.Sel.Name == "Gosched" {
			if id, ok := se.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "runtime" {
					return call(r.det("Gosched"), ast.NewIdent("runtime.NumGoroutine"))
				}
			}
		}
		x.Fun = r.expr(x.Fun)
		for i := range x.Args {
			x.Args[i] = r.expr(x.Args[i])
		}
	case *ast.FuncLit:
		r.block(x.Body)
	case *ast.SelectorExpr:
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
	case *ast.SliceExpr:
		x.X, x.Low, x.High, x.Max = r.expr(x.X), r.exprOrNil(x.Low), r.exprOrNil(x.High), r.exprOrNil(x.Max)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
	case *ast.CompositeLit:
		for i := range x.Elts {
			x.Elts[i] = r.expr(x.Elts[i])
		}
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	}
	return e
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) exprOrNil(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return r.expr(e)
}
