package main

// The instrumenter rewrites a copy of the repository so that every source of nondeterminism goes
// through the simulator: goroutines, channels, select, sync, time, math/rand, the file system,
// standard output, map iteration order; and a yield point precedes every statement.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	Dir, ImportPath, Name, Export string
	GoFiles                       []string
	CgoFiles                      []string
	Standard                      bool
	Module                        *struct{ Path, Dir string }
	Imports                       []string
}

const verifDir = "zzverif"

// what happens to a name of a standard package: "rt:Name" goes to the simulator
var renames = map[string]map[string]string{
	"time": names("Time_", "Now Since Until Sleep After AfterFunc Tick NewTimer NewTicker",
		"Timer Ticker"),
	"math/rand":    names("Rand_", "Seed Int63 Uint32 Uint64 Int31 Int Int63n Int31n Intn Float64 Float32 NormFloat64 ExpFloat64 Shuffle Perm", ""),
	"math/rand/v2": names("Rand_", "Int Int64 Int32 Uint32 Uint64 IntN Int64N Int32N Uint64N UintN Float64 Float32 NormFloat64 ExpFloat64 Shuffle Perm", ""),
	"sync":         names("Sync_", "OnceFunc OnceValue OnceValues NewCond", "Mutex RWMutex WaitGroup Once Cond Pool Map Locker"),
	"os": names("Os_", "Open Create OpenFile ReadFile WriteFile Rename Remove RemoveAll Stat Lstat Chmod Truncate Mkdir MkdirAll CreateTemp MkdirTemp ReadDir Exit Getwd Getpid Hostname TempDir",
		"File Stdin Stdout Stderr"),
	"io/ioutil":              merge(names("Os_", "ReadFile WriteFile", ""), map[string]string{"TempFile": "Os_CreateTemp", "TempDir": "Os_MkdirTemp", "ReadAll": "Ioutil_ReadAll"}),
	"path/filepath":          names("Filepath_", "EvalSymlinks Abs", ""),
	"fmt":                    names("Fmt_", "Print Printf Println", ""),
	"log":                    names("Log_", "Print Printf Println Fatal Fatalf Fatalln Panic Panicf Panicln Output SetFlags SetPrefix SetOutput Flags Prefix Writer New Default", "Logger"),
	"context":                names("Context_", "WithCancel WithTimeout WithDeadline", ""),
	"runtime":                names("Runtime_", "Gosched NumGoroutine NumCPU GOMAXPROCS", ""),
	"os/signal":              names("Signal_", "Notify Stop Ignore Reset Ignored NotifyContext", ""),
	"github.com/spf13/cobra": {"OnInitialize": "OnInitialize"},
}

// names of these packages that must not be used because the simulator does not model them
var unsupported = map[string]string{
	"os":            "Symlink Link Readlink Chdir Pipe StartProcess FindProcess NewFile DirFS Chtimes Chown Lchown CopyFS OpenRoot",
	"io/ioutil":     "ReadDir",
	"path/filepath": "Walk WalkDir Glob",
	"fmt":           "Scan Scanf Scanln",
	"context":       "WithCancelCause WithTimeoutCause WithDeadlineCause AfterFunc WithoutCancel",
	"sync":          "",
	"os/exec":       "*",
	"net":           "*",
	"net/http":      "*",
	"crypto/rand":   "*",
	"syscall":       "Open Write Read Unlink Rename Kill Exec",
}

var cloned = map[string]bool{"container/list": true, "container/heap": true, "container/ring": true}

func names(prefix, funcs, types string) map[string]string {
	m := map[string]string{}
	for _, f := range strings.Fields(funcs) {
		m[f] = prefix + f
	}
	for _, t := range strings.Fields(types) {
		m[t] = t
	}
	return m
}

func merge(a, b map[string]string) map[string]string {
	for k, v := range b {
		a[k] = v
	}
	return a
}

type instr struct {
	src, dst string
	module   string
	fset     *token.FileSet
	exports  map[string]string
	imp      types.Importer
	resets   []string // import paths with ZZReset, dependencies first
	problems []string
	plots    bool // the tree stores figures
}

// instrument copies the module at src to dst and rewrites it there.
func instrument(src, dst string, env []string) (*instr, error) {
	in := &instr{src: src, dst: dst, fset: token.NewFileSet(), exports: map[string]string{}}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,CgoFiles,Standard,Module,Imports", "./...")
	cmd.Dir = src
	cmd.Env = env
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	var mine []*listPkg
	std := map[string]*listPkg{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		in.exports[p.ImportPath] = p.Export
		q := p
		if p.Standard {
			std[p.ImportPath] = &q
		} else if p.Module != nil && filepath.Clean(p.Module.Dir) == filepath.Clean(src) {
			in.module = p.Module.Path
			mine = append(mine, &q)
		}
	}
	if in.module == "" {
		return nil, fmt.Errorf("no module found in %s", src)
	}
	in.imp = importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
		f := in.exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(src, f))
		if err != nil {
			if f == "go.sum" {
				continue
			}
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(dst, f), b, 0644); err != nil {
			return nil, err
		}
	}
	used := map[string]bool{}
	for _, p := range mine {
		for _, i := range p.Imports {
			if cloned[i] {
				used[i] = true
			}
		}
	}
	used["container/list"] = true
	var todo []string
	for c := range used {
		todo = append(todo, c)
	}
	sort.Strings(todo)
	for _, c := range todo {
		p := std[c]
		if p == nil {
			continue
		}
		if err := in.pkg(p, filepath.Join(dst, verifDir, filepath.Base(c)), in.module+"/"+verifDir+"/"+filepath.Base(c), ""); err != nil {
			return nil, err
		}
	}
	for _, p := range mine {
		rel, _ := filepath.Rel(src, p.Dir)
		out := filepath.Join(dst, rel)
		path := p.ImportPath
		main := ""
		if p.Name == "main" {
			base := filepath.Base(p.Dir)
			if rel == "." {
				base = "root"
			}
			main = strings.NewReplacer("-", "_", ".", "_").Replace(base)
			out = filepath.Join(dst, verifDir, "mains", main)
			path = in.module + "/" + verifDir + "/mains/" + main
		}
		if len(p.CgoFiles) > 0 {
			in.problem("package %s uses cgo", p.ImportPath)
		}
		if err := in.pkg(p, out, path, main); err != nil {
			return nil, err
		}
		in.resets = append(in.resets, path)
	}
	return in, nil
}

func (in *instr) problem(f string, a ...any) {
	in.problems = append(in.problems, fmt.Sprintf(f, a...))
}

type fileRW struct {
	in    *instr
	info  *types.Info
	pkg   *types.Package
	n     int
	funcs []ast.Node // enclosing functions
	extra bytes.Buffer
	plots bool // the file stores figures
}

func (in *instr) pkg(p *listPkg, out, path, mainName string) error {
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, f))
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(in.fset, filepath.Join(p.Dir, f), b, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, a)
		srcs = append(srcs, b)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: in.imp}
	tp, err := conf.Check(p.ImportPath, in.fset, files, info)
	if err != nil {
		return fmt.Errorf("type check %s: %v", p.ImportPath, err)
	}
	if err := os.MkdirAll(out, 0755); err != nil {
		return err
	}
	// initialisers are found by their expression before rewriting
	initFile := map[ast.Expr]int{}
	for i, a := range files {
		for _, d := range a.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, v := range s.(*ast.ValueSpec).Values {
						initFile[v] = i
					}
				}
			}
		}
	}
	var reset bytes.Buffer
	pkgName := p.Name
	if mainName != "" {
		pkgName = "zzmain_" + mainName
	}
	fmt.Fprintf(&reset, "package %s\n\n// ZZReset gives the package its initial state.\nfunc ZZReset() {\n", pkgName)

	rws := make([]*fileRW, len(files))
	for i := range files {
		rws[i] = &fileRW{in: in, info: info, pkg: tp}
	}
	// zero the variables without initialiser
	for i, a := range files {
		k := 0
		for _, d := range a.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 {
					continue
				}
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					fmt.Fprintf(&rws[i].extra, "\nfunc zzzero_%d_%d() { zzrt.Zero(&%s) }\n", i, k, n.Name)
					fmt.Fprintf(&reset, "\tzzzero_%d_%d()\n", i, k)
					k++
				}
			}
		}
	}
	// rewrite
	type initFn struct{ file, k int }
	var initFns []initFn
	origRhs := map[ast.Expr]ast.Expr{}
	for i, a := range files {
		rw := rws[i]
		k := 0
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					d.Name = ast.NewIdent(fmt.Sprintf("zzinit_%d_%d", i, k))
					initFns = append(initFns, initFn{i, k})
					fmt.Fprintf(&rw.extra, "\nfunc init() { zzinit_%d_%d() }\n", i, k)
					k++
				}
				if d.Recv == nil && d.Name.Name == "main" && mainName != "" {
					d.Name = ast.NewIdent("Main")
				}
				rw.funcDecl(d)
			case *ast.GenDecl:
				if d.Tok == token.IMPORT {
					continue
				}
				for _, s := range d.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok {
						if vs.Type != nil {
							vs.Type = rw.expr(vs.Type)
						}
						for j, v := range vs.Values {
							nv := rw.expr(v)
							vs.Values[j] = nv
							origRhs[v] = nv
						}
					} else {
						rw.children(s)
					}
				}
			}
		}
	}
	for k, ini := range info.InitOrder {
		i, ok := initFile[ini.Rhs]
		if !ok {
			continue
		}
		var lhs []string
		for _, v := range ini.Lhs {
			lhs = append(lhs, v.Name())
		}
		var b bytes.Buffer
		if err := printer.Fprint(&b, in.fset, origRhs[ini.Rhs]); err != nil {
			return err
		}
		fmt.Fprintf(&rws[i].extra, "\nfunc zzvar_%d() { %s = %s }\n", k, strings.Join(lhs, ", "), b.String())
		fmt.Fprintf(&reset, "\tzzvar_%d()\n", k)
	}
	for _, f := range initFns {
		fmt.Fprintf(&reset, "\tzzinit_%d_%d()\n", f.file, f.k)
	}
	reset.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(out, "zzreset.go"), reset.Bytes(), 0644); err != nil {
		return err
	}
	for i, a := range files {
		rw := rws[i]
		a.Name = ast.NewIdent(pkgName)
		rw.imports(a)
		var b bytes.Buffer
		b.WriteString("//go:build go1.21\n\n")
		if bytes.Contains(srcs[i], []byte("//go:embed")) {
			in.problem("%s uses go:embed", p.GoFiles[i])
		}
		cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
		if err := cfg.Fprint(&b, in.fset, a); err != nil {
			return fmt.Errorf("print %s: %v", p.GoFiles[i], err)
		}
		b.WriteString("\n")
		b.Write(rw.extra.Bytes())
		b.WriteString("\nvar _ = zzrt.Y\n")
		if err := os.WriteFile(filepath.Join(out, p.GoFiles[i]), b.Bytes(), 0644); err != nil {
			return err
		}
	}
	return nil
}

// imports drops imports that are no longer used and adds the simulator.
func (rw *fileRW) imports(a *ast.File) {
	used := map[types.Object]bool{}
	ast.Inspect(a, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if o, ok := rw.info.Uses[id].(*types.PkgName); ok {
				used[o] = true
			}
		}
		return true
	})
	usedPath := map[string]bool{}
	for o := range used {
		usedPath[o.(*types.PkgName).Imported().Path()] = true
	}
	var decls []ast.Decl
	for _, d := range a.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			}
			if bad, ok := unsupported[path]; ok && bad == "*" {
				rw.in.problem("import of %s is not simulated", path)
			}
			if name != "_" && name != "." && !usedPath[path] {
				continue
			}
			if name == "." && (renames[path] != nil) {
				rw.in.problem("dot import of %s", path)
			}
			if cloned[path] {
				if name == "" {
					name = filepath.Base(path)
				}
				path = rw.in.module + "/" + verifDir + "/" + filepath.Base(path)
			}
			ns := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
			if name != "" {
				ns.Name = ast.NewIdent(name)
			}
			decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{ns}})
		}
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
		Name: ast.NewIdent("zzrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rw.in.module + "/" + verifDir + "/rt")}}}}
	if rw.plots {
		decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent("zzplot"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rw.in.module + "/" + verifDir + "/plotio")}}}}}, decls...)
	}
	a.Decls = append([]ast.Decl{imp}, decls...)
	a.Imports = nil
}

func (rw *fileRW) funcDecl(d *ast.FuncDecl) {
	if d.Recv != nil {
		rw.children(d.Recv)
	}
	rw.children(d.Type)
	if d.Body != nil {
		rw.funcs = append(rw.funcs, d)
		rw.block(d.Body)
		rw.funcs = rw.funcs[:len(rw.funcs)-1]
	}
}

func rt(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("zzrt"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func yield() ast.Stmt { return &ast.ExprStmt{X: call(rt("Y"))} }

func (rw *fileRW) fresh(p string) string {
	rw.n++
	return fmt.Sprintf("zz%s%d", p, rw.n)
}

func (rw *fileRW) typeOf(e ast.Expr) types.Type {
	if tv, ok := rw.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := rw.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (rw *fileRW) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = rw.info.Uses[id].(*types.Builtin)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

// children rewrites everything below a node.
func (rw *fileRW) children(n ast.Node) {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Interface:
			if f.IsNil() {
				continue
			}
			switch f.Type() {
			case exprT:
				f.Set(reflect.ValueOf(rw.expr(f.Interface().(ast.Expr))))
			case stmtT:
				f.Set(reflect.ValueOf(rw.simple(f.Interface().(ast.Stmt))))
			}
		case reflect.Slice:
			if f.Type().Elem() == stmtT {
				f.Set(reflect.ValueOf(rw.stmts(f.Interface().([]ast.Stmt))))
				continue
			}
			for j := 0; j < f.Len(); j++ {
				e := f.Index(j)
				if e.Type() == exprT {
					if !e.IsNil() {
						e.Set(reflect.ValueOf(rw.expr(e.Interface().(ast.Expr))))
					}
				} else if e.Type().Implements(nodeT) && !e.IsNil() {
					rw.node(e.Interface().(ast.Node))
				}
			}
		case reflect.Ptr:
			if f.IsNil() || !f.Type().Implements(nodeT) {
				continue
			}
			if _, ok := f.Interface().(*ast.Ident); ok {
				continue
			}
			rw.node(f.Interface().(ast.Node))
		}
	}
}

func (rw *fileRW) node(n ast.Node) {
	switch n := n.(type) {
	case *ast.BlockStmt:
		rw.block(n)
	case *ast.Ident, *ast.CommentGroup, *ast.Comment:
	default:
		rw.children(n)
	}
}

// expr rewrites an expression.
func (rw *fileRW) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident:
		return e
	case *ast.FuncLit:
		rw.children(e.Type)
		rw.funcs = append(rw.funcs, e)
		rw.block(e.Body)
		rw.funcs = rw.funcs[:len(rw.funcs)-1]
		return e
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if p, ok := rw.info.Uses[id].(*types.PkgName); ok {
				path := p.Imported().Path()
				if to, ok := renames[path][e.Sel.Name]; ok {
					return rt(to)
				}
				for _, bad := range strings.Fields(unsupported[path]) {
					if bad == e.Sel.Name {
						rw.in.problem("%s.%s is not simulated", path, bad)
					}
				}
				return e
			}
		}
		if o := rw.info.Selections[e]; o != nil {
			if m, ok := o.Obj().(*types.Func); ok && m.FullName() == "(*gonum.org/v1/plot.Plot).Save" {
				rw.in.plots, rw.plots = true, true
				if o.Kind() == types.MethodExpr {
					return &ast.SelectorExpr{X: ast.NewIdent("zzplot"), Sel: ast.NewIdent("Save")}
				}
				_, pointer := rw.typeOf(e.X).Underlying().(*types.Pointer)
				x := rw.expr(e.X)
				if len(o.Index()) > 1 {
					rw.in.problem("Save of an embedded plot is not simulated")
				}
				if !pointer {
					x = &ast.UnaryExpr{Op: token.AND, X: x}
				}
				return call(&ast.SelectorExpr{X: ast.NewIdent("zzplot"), Sel: ast.NewIdent("Bind")}, x)
			}
		}
		e.X = rw.expr(e.X)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(rt("R"), rw.expr(e.X))
		}
	case *ast.CallExpr:
		if len(e.Args) == 1 {
			if rw.isBuiltin(e.Fun, "close") {
				return call(rt("Close"), rw.expr(e.Args[0]))
			}
			if rw.isBuiltin(e.Fun, "len") && isChan(rw.typeOf(e.Args[0])) {
				return call(rt("Len"), rw.expr(e.Args[0]))
			}
		}
	}
	rw.children(e)
	return e
}

func (rw *fileRW) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = rw.stmts(b.List)
	}
}

func (rw *fileRW) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			rw.children(s)
			out = append(out, s)
			continue
		case *ast.EmptyStmt:
			out = append(out, s)
			continue
		}
		out = append(out, yield())
		out = append(out, rw.stmt(s)...)
	}
	return out
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

// simple rewrites a statement in a position that holds a simple statement.
func (rw *fileRW) simple(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(rt("S"), rw.expr(s.Chan)), rw.expr(s.Value))}
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := isRecv(s.Rhs[0]); ok {
				for i := range s.Lhs {
					s.Lhs[i] = rw.expr(s.Lhs[i])
				}
				s.Rhs[0] = call(rt("R2"), rw.expr(u.X))
				return s
			}
		}
	case *ast.DeferStmt:
		// the call may become another one, as close(c) does
		if c, ok := rw.expr(s.Call).(*ast.CallExpr); ok {
			s.Call = c
		}
		return s
	case *ast.BlockStmt:
		rw.block(s)
		return s
	}
	rw.children(s)
	return s
}

// stmt rewrites a statement of a statement list.
func (rw *fileRW) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		inner := rw.stmt(s.Stmt)
		// the label stays with the last statement, the one it belongs to
		s.Stmt = inner[len(inner)-1]
		return append(inner[:len(inner)-1], s)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u, ok := isRecv(vs.Values[0]); ok {
						vs.Values[0] = call(rt("R2"), rw.expr(u.X))
						continue
					}
				}
				rw.children(vs)
			}
			return []ast.Stmt{s}
		}
		rw.children(s.Decl)
		return []ast.Stmt{s}
	case *ast.GoStmt:
		return []ast.Stmt{rw.goStmt(s)}
	case *ast.SelectStmt:
		return []ast.Stmt{rw.selectStmt(s)}
	case *ast.RangeStmt:
		t := rw.typeOf(s.X)
		if isChan(t) {
			return []ast.Stmt{rw.rangeChan(s)}
		}
		if isMap(t) {
			return []ast.Stmt{rw.rangeMap(s)}
		}
		rw.children(s)
		rw.nonEmpty(s.Body)
		return []ast.Stmt{s}
	case *ast.ForStmt:
		rw.children(s)
		rw.nonEmpty(s.Body)
		return []ast.Stmt{s}
	case *ast.IncDecStmt:
		if rw.shared(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return []ast.Stmt{rw.split(s.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})}
		}
	case *ast.AssignStmt:
		if len(s.Lhs) == 1 && len(s.Rhs) == 1 && s.Tok != token.DEFINE && s.Tok != token.ASSIGN && rw.shared(s.Lhs[0]) && rw.pure(s.Rhs[0]) {
			return []ast.Stmt{rw.split(s.Lhs[0], s.Tok+(token.ADD-token.ADD_ASSIGN), s.Rhs[0])}
		}
		if len(s.Lhs) == 1 && len(s.Rhs) == 1 && s.Tok == token.ASSIGN && rw.shared(s.Lhs[0]) && rw.readsState(s.Rhs[0]) && rw.pure(s.Rhs[0]) {
			tl, tr := rw.typeOf(s.Lhs[0]), rw.typeOf(s.Rhs[0])
			if tl != nil && tr != nil && types.Identical(tl, tr) {
				v := rw.fresh("v")
				return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{rw.expr(s.Rhs[0])}},
					yield(),
					&ast.AssignStmt{Lhs: []ast.Expr{rw.expr(s.Lhs[0])}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v)}},
				}}}
			}
		}
	}
	return []ast.Stmt{rw.simple(s)}
}

func (rw *fileRW) nonEmpty(b *ast.BlockStmt) {
	if len(b.List) == 0 {
		b.List = []ast.Stmt{yield()}
	}
}

// shared tells whether a place may be visible to another goroutine and can be read and written
// through a pointer without further effect.
func (rw *fileRW) shared(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		o, ok := rw.info.Uses[e].(*types.Var)
		if !ok {
			return false
		}
		if o.Parent() == rw.pkg.Scope() {
			return true
		}
		// captured by a function literal
		if len(rw.funcs) > 0 {
			if f, ok := rw.funcs[len(rw.funcs)-1].(*ast.FuncLit); ok {
				return o.Pos() < f.Pos() || o.Pos() > f.End()
			}
		}
		return false
	case *ast.SelectorExpr:
		if sel := rw.info.Selections[e]; sel != nil && sel.Kind() == types.FieldVal {
			return rw.pure(e.X) && rw.addressable(e)
		}
		return false
	case *ast.StarExpr:
		return rw.pure(e.X)
	case *ast.IndexExpr:
		t := rw.typeOf(e.X)
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return rw.pure(e.X) && rw.pure(e.Index)
		case *types.Array:
			return rw.pure(e.X) && rw.pure(e.Index) && rw.shared(e.X)
		}
	}
	return false
}

func (rw *fileRW) addressable(e ast.Expr) bool {
	tv, ok := rw.info.Types[e]
	return ok && tv.Addressable()
}

// pure: no call (but conversions and harmless builtins), no receive, no function literal.
func (rw *fileRW) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if tv, is := rw.info.Types[n.Fun]; is && tv.IsType() {
				return true
			}
			for _, b := range []string{"len", "cap", "append", "min", "max"} {
				if rw.isBuiltin(n.Fun, b) && (len(n.Args) == 0 || !isChan(rw.typeOf(n.Args[0]))) {
					return true
				}
			}
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		case *ast.FuncLit:
			ok = false
		}
		return ok
	})
	return ok
}

// readsState: the expression reads a place other goroutines may write.
func (rw *fileRW) readsState(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if x, ok := n.(ast.Expr); ok && !found {
			switch x.(type) {
			case *ast.Ident, *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
				found = rw.shared(x)
			}
		}
		return !found
	})
	if tv, ok := rw.info.Types[e]; ok && tv.Value != nil {
		return false
	}
	return found
}

// split turns x op= y into a read, a yield point and a write.
func (rw *fileRW) split(x ast.Expr, op token.Token, y ast.Expr) ast.Stmt {
	p, v := rw.fresh("p"), rw.fresh("v")
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(p)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: rw.expr(x)}}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: &ast.StarExpr{X: ast.NewIdent(p)}, Op: op, Y: &ast.ParenExpr{X: rw.expr(y)}}}},
		yield(),
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: ast.NewIdent(p)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v)}},
	}}
}

func (rw *fileRW) isConst(e ast.Expr) bool {
	tv, ok := rw.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (rw *fileRW) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if lit, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && lit.Type.Results == nil {
		return &ast.ExprStmt{X: call(rt("Go"), rw.expr(lit))}
	}
	var lhs, rhs []ast.Expr
	bind := func(p string, e ast.Expr) ast.Expr {
		if rw.isConst(e) {
			return rw.expr(e)
		}
		n := rw.fresh(p)
		lhs = append(lhs, ast.NewIdent(n))
		rhs = append(rhs, rw.expr(e))
		return ast.NewIdent(n)
	}
	var fun ast.Expr
	direct := false
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		switch rw.info.Uses[id].(type) {
		case *types.Func, *types.Builtin, *types.TypeName:
			direct = true
		}
	}
	if sel, ok := unparen(c.Fun).(*ast.SelectorExpr); ok {
		if id, ok := sel.X.(*ast.Ident); ok {
			if _, ok := rw.info.Uses[id].(*types.PkgName); ok {
				direct = true
			}
		}
	}
	if direct {
		if rw.isBuiltin(c.Fun, "close") && len(c.Args) == 1 {
			a := bind("a", c.Args[0])
			return &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs},
				&ast.ExprStmt{X: call(rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(rt("Close"), a)}}}})},
			}}
		}
		fun = rw.expr(c.Fun)
	} else {
		fun = bind("f", c.Fun)
	}
	nc := &ast.CallExpr{Fun: fun, Ellipsis: c.Ellipsis}
	for _, a := range c.Args {
		nc.Args = append(nc.Args, bind("a", a))
	}
	g := &ast.ExprStmt{X: call(rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})}
	if len(lhs) == 0 {
		return g
	}
	return &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}, g}}
}

func (rw *fileRW) rangeChan(s *ast.RangeStmt) ast.Stmt {
	it, ok := rw.fresh("it"), rw.fresh("ok")
	v := "_"
	var pre []ast.Stmt
	if s.Key != nil {
		if id, isID := s.Key.(*ast.Ident); isID && s.Tok == token.DEFINE {
			v = id.Name
		} else if !isID || id.Name != "_" {
			v = rw.fresh("v")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{rw.expr(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v)}})
		}
	}
	x := rw.expr(s.X)
	rw.block(s.Body)
	body := s.Body
	if len(pre) > 0 {
		body = &ast.BlockStmt{List: append(pre, s.Body)}
	}
	rw.nonEmpty(body)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(it), ast.NewIdent(v), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(rt("RangeStart"), x)}},
		Cond: ast.NewIdent(ok),
		Post: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v), ast.NewIdent(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(ast.NewIdent(it))}},
		Body: body,
	}
}

func (rw *fileRW) rangeMap(s *ast.RangeStmt) ast.Stmt {
	e := rw.fresh("e")
	var lhs, rhs []ast.Expr
	blank := func(x ast.Expr) bool {
		id, ok := x.(*ast.Ident)
		return x == nil || (ok && id.Name == "_")
	}
	if s.Key != nil && !blank(s.Key) {
		lhs = append(lhs, rw.expr(s.Key))
		rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(e), Sel: ast.NewIdent("K")})
	}
	if s.Value != nil && !blank(s.Value) {
		lhs = append(lhs, rw.expr(s.Value))
		rhs = append(rhs, call(&ast.SelectorExpr{X: ast.NewIdent(e), Sel: ast.NewIdent("V")}))
	}
	x := rw.expr(s.X)
	rw.block(s.Body)
	list := []ast.Stmt{&ast.IfStmt{
		Cond: &ast.UnaryExpr{Op: token.NOT, X: call(&ast.SelectorExpr{X: ast.NewIdent(e), Sel: ast.NewIdent("Live")})},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}},
	}}
	if len(lhs) > 0 {
		list = append(list, &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: rhs})
	}
	list = append(list, yield(), s.Body)
	return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ast.NewIdent(e), Tok: token.DEFINE, X: call(rt("Entries"), x), Body: &ast.BlockStmt{List: list}}
}

func (rw *fileRW) selectStmt(s *ast.SelectStmt) ast.Stmt {
	var vars, inits []ast.Expr
	args := []ast.Expr{ast.NewIdent("false")}
	var clauses []ast.Stmt
	hasDefault := false
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			clauses = append(clauses, &ast.CaseClause{Body: rw.stmts(cc.Body)})
			continue
		}
		name := rw.fresh("c")
		var pre []ast.Stmt
		field := func(f string) ast.Expr {
			return &ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent(f)}
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, call(call(rt("CSend"), rw.expr(cm.Chan)), rw.expr(cm.Value)))
		case *ast.ExprStmt:
			u, _ := isRecv(cm.X)
			inits = append(inits, call(rt("CRecv"), rw.expr(u.X)))
		case *ast.AssignStmt:
			u, _ := isRecv(cm.Rhs[0])
			inits = append(inits, call(rt("CRecv"), rw.expr(u.X)))
			as := &ast.AssignStmt{Tok: cm.Tok}
			for i, l := range cm.Lhs {
				as.Lhs = append(as.Lhs, rw.expr(l))
				as.Rhs = append(as.Rhs, field([]string{"V", "OK"}[i]))
			}
			pre = append(pre, as)
		}
		vars = append(vars, ast.NewIdent(name))
		args = append(args, ast.NewIdent(name))
		body := rw.stmts(cc.Body)
		if len(pre) > 0 {
			// the body keeps its own scope inside the scope of the received value
			body = append(pre, body...)
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body})
		idx++
	}
	if hasDefault {
		args[0] = ast.NewIdent("true")
	} else if len(clauses) > 0 {
		clauses[len(clauses)-1].(*ast.CaseClause).List = nil
	} else {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	sw := &ast.SwitchStmt{Tag: call(rt("Select"), args...), Body: &ast.BlockStmt{List: clauses}}
	if len(vars) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: vars, Tok: token.DEFINE, Rhs: inits}
	}
	return sw
}
