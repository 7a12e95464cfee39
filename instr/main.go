// instr copies the non-test Go packages of the repository into a scratch module and
// rewrites them so that every synchronisation, channel, timer, random, file and network
// operation goes through the controlled runtime (package mc). It works on the typed
// syntax tree, so it follows the code wherever it moves.
//
//	instr -repo /repo -out DIR -mc /verif/mc -harness /verif/harness
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/lxdlam/vertex"
const mcPath = modPath + "/mc"
const mcName = "mcrt"

// selectors that are replaced: package path -> name -> name in package mc
var table = map[string]map[string]string{
	"sync": same("Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "NewCond", "Pool", "Map", "Locker", "OnceFunc"),
	"sync/atomic": merge(same("AddInt32", "AddInt64", "AddUint32", "AddUint64", "LoadInt32", "LoadInt64", "LoadUint32", "LoadUint64",
		"StoreInt32", "StoreInt64", "StoreUint32", "StoreUint64", "SwapInt32", "SwapInt64", "SwapUint32", "SwapUint64",
		"CompareAndSwapInt32", "CompareAndSwapInt64", "CompareAndSwapUint32", "CompareAndSwapUint64"),
		map[string]string{"Int32": "AInt32", "Int64": "AInt64", "Uint32": "AUint32", "Uint64": "AUint64", "Bool": "ABool", "Value": "AValue", "Pointer": "APointer"}),
	"time": same("After", "Sleep", "Now", "Since", "Until", "NewTimer", "Timer", "AfterFunc", "Tick", "NewTicker", "Ticker"),
	"math/rand": {"New": "NewRand", "NewSource": "NewSource", "Source": "Source", "Source64": "Source64", "Rand": "Rand", "Intn": "RandIntn", "Int": "RandInt",
		"Int31": "RandInt31", "Int31n": "RandInt31n", "Int63": "RandInt63", "Int63n": "RandInt63n", "Uint32": "RandUint32", "Float64": "RandFloat64",
		"Float32": "RandFloat32", "Perm": "RandPerm", "Shuffle": "RandShuffle", "Seed": "RandSeed", "Read": "RandRead"},
	"math/rand/v2": {"IntN": "RandIntn", "Int": "RandInt", "Int64": "RandInt63", "Int64N": "RandInt63n", "Int32": "RandInt31", "Int32N": "RandInt31n",
		"Uint32": "RandUint32", "Float64": "RandFloat64", "Float32": "RandFloat32", "Perm": "RandPerm", "Shuffle": "RandShuffle"},
	"crypto/rand": {"Read": "CryptoRead", "Reader": "CryptoReader"},
	"os": merge(same("File", "OpenFile", "Open", "Create", "Stderr", "Stdout", "Stdin", "Stat", "Remove", "RemoveAll", "Rename", "Truncate",
		"Mkdir", "MkdirAll", "ReadDir", "Chmod", "Chtimes", "ReadFile", "WriteFile", "CreateTemp", "MkdirTemp", "TempDir", "Exit"), map[string]string{"Lstat": "Stat"}),
	"io/ioutil":                 {"ReadFile": "ReadFile", "WriteFile": "WriteFile", "TempFile": "CreateTemp", "TempDir": "MkdirTemp"},
	"net":                       {"ListenTCP": "ListenTCP", "Listen": "Listen", "TCPListener": "TCPListener", "Dial": "Dial", "DialTimeout": "DialTimeout", "DialTCP": "DialTCP", "TCPConn": "Conn", "Interfaces": "Interfaces", "Dialer": "Dialer", "ListenConfig": "ListenConfig"},
	"context":                   same("Context", "CancelFunc", "Background", "TODO", "WithCancel", "WithDeadline", "WithTimeout", "WithValue"),
	"fmt":                       same("Print", "Printf", "Println", "Scan", "Scanf", "Scanln"),
	"os/signal":                 {"Notify": "SignalNotify", "Stop": "SignalStop", "NotifyContext": "NotifyContext"},
	"runtime":                   {"Gosched": "Gosched"},
	"github.com/satori/go.uuid": {"NewV4": "NewV4", "NewV1": "NewV1"},
}

// selectors that must not reach the real system
var denied = map[string]map[string]bool{
	"os":          set("Chdir", "Chown", "Link", "Symlink", "StartProcess", "FindProcess", "NewFile", "Pipe", "Setenv", "Lchown", "DirFS", "CopyFS"),
	"net":         set("ListenUDP", "ListenPacket", "DialUDP", "ListenUnix", "DialUnix", "Pipe", "Lookup", "LookupHost", "FileListener"),
	"os/exec":     nil,
	"context":     set("WithCancelCause", "WithDeadlineCause", "WithTimeoutCause", "AfterFunc", "Cause", "WithoutCancel"),
	"sync/atomic": set("AddUintptr", "LoadPointer", "StorePointer", "SwapPointer", "CompareAndSwapPointer", "LoadUintptr"),
	"sync":        set("OnceValue", "OnceValues"),
	"os/signal":   set("Ignore", "Reset"),
	"time":        nil,
}

func same(n ...string) map[string]string {
	m := map[string]string{}
	for _, x := range n {
		m[x] = x
	}
	return m
}
func merge(a, b map[string]string) map[string]string {
	for k, v := range b {
		a[k] = v
	}
	return a
}
func set(n ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range n {
		m[x] = true
	}
	return m
}

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Imports    []string
	Export     string
	Standard   bool
	DepOnly    bool
	Error      *struct{ Err string }
}

// soft makes die give up the current package only
var soft bool

func die(format string, a ...interface{}) {
	if soft {
		panic(fmt.Sprintf(format, a...))
	}
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	mc := flag.String("mc", "", "")
	harness := flag.String("harness", "", "")
	flag.Parse()

	pk := list(*repo)
	exports := map[string]string{}
	local := map[string]*pkgInfo{}
	for _, p := range pk {
		if strings.HasPrefix(p.ImportPath, modPath+"/") {
			local[p.ImportPath] = p
		} else if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	// dependency order
	var order []*pkgInfo
	seen := map[string]bool{}
	var visit func(p *pkgInfo)
	visit = func(p *pkgInfo) {
		if seen[p.ImportPath] {
			return
		}
		seen[p.ImportPath] = true
		for _, i := range p.Imports {
			if q := local[i]; q != nil {
				visit(q)
			}
		}
		order = append(order, p)
	}
	var names []string
	for n := range local {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		visit(local[n])
	}

	fset := token.NewFileSet()
	imp := &multiImporter{local: map[string]*types.Package{}}
	imp.gc = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	do := func(p *pkgInfo) {
		rel := strings.TrimPrefix(p.ImportPath, modPath+"/")
		if p.Name == "main" {
			// programs become packages, with Main; one that cannot be is left out
			soft = true
			defer func() {
				soft = false
				if e := recover(); e != nil {
					fmt.Fprintf(os.Stderr, "instr: %s is left out: %v\n", p.ImportPath, e)
				}
			}()
			rel += "/vmain"
		}
		var files []*ast.File
		var fnames []string
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			fnames = append(fnames, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, FakeImportC: true, GoVersion: "go1.20"}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		imp.local[p.ImportPath] = tp
		if p.Name == "main" {
			for _, f := range files {
				f.Name = ident("vmain")
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
						fd.Name = ident("Main")
					}
				}
			}
			tp.SetName("vmain")
		}
		rewritePackage(fset, p, tp, info, files, fnames, filepath.Join(*out, rel))
	}
	for _, p := range order {
		do(p)
	}
	copyMC(*mc, filepath.Join(*out, "mc"))
	copyHarness(*harness, *out)
	// module files
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	lines := strings.Split(string(gm), "\n")
	for i, l := range lines {
		if strings.HasPrefix(strings.TrimSpace(l), "go 1.") {
			lines[i] = "go 1.20"
		}
	}
	write(filepath.Join(*out, "go.mod"), []byte(strings.Join(lines, "\n")))
	gs, _ := os.ReadFile(filepath.Join(*repo, "go.sum"))
	write(filepath.Join(*out, "go.sum"), gs)
}

type multiImporter struct {
	gc    types.Importer
	local map[string]*types.Package
}

func (m *multiImporter) Import(path string) (*types.Package, error) {
	if p := m.local[path]; p != nil {
		return p, nil
	}
	return m.gc.Import(path)
}

func list(repo string) []*pkgInfo {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Imports,Export,Standard,DepOnly,Error", "./pkg/...", "./cmd/...")
	cmd.Dir = repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var r []*pkgInfo
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		r = append(r, p)
	}
	return r
}

func write(path string, b []byte) {
	_ = os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, b, 0644); err != nil {
		die("%v", err)
	}
}

func copyMC(from, to string) {
	ents, err := os.ReadDir(from)
	if err != nil {
		die("%v", err)
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err != nil {
			die("%v", err)
		}
		// the runtime's own accesses are serialised by the scheduler, not by
		// synchronisation the race detector knows
		var o []string
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func ") {
				o = append(o, "//go:norace")
			}
			o = append(o, l)
		}
		write(filepath.Join(to, e.Name()), []byte(strings.Join(o, "\n")))
	}
}

func copyHarness(from, to string) {
	_ = filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, "vharness", rel)
		if strings.HasPrefix(rel, "client"+string(filepath.Separator)) {
			dst = filepath.Join(to, "cmd", "client", "vharness", strings.TrimPrefix(rel, "client"+string(filepath.Separator)))
		}
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		write(dst, b)
		return nil
	})
}

// ---------------------------------------------------------------- rewriting

type rw struct {
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	n      int
	usesMC bool
	pbFile bool
}

func ident(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *rw) mc(name string) ast.Expr {
	r.usesMC = true
	return &ast.SelectorExpr{X: ident(mcName), Sel: ident(name)}
}

func call(fn ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: fn, Args: args} }

func method(x ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	return call(&ast.SelectorExpr{X: x, Sel: ident(name)}, args...)
}

func (r *rw) isChan(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rw) builtin(e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) recvOf(e ast.Expr) *ast.UnaryExpr {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rw) pos(n ast.Node) string { return r.fset.Position(n.Pos()).String() }

// expr rewrites an expression (children first, unless the node is special).
func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if to, ok := table[path][x.Sel.Name]; ok {
					return r.mc(to)
				}
				if d, ok := denied[path]; ok {
					if (d == nil && path != "time") || d[x.Sel.Name] {
						die("%s: %s.%s is not supported by the instrumentation", r.pos(x), path, x.Sel.Name)
					}
				}
				return x
			}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.mc("Chan"), Index: r.expr(x.Value)}}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return method(call(r.mc("C"), r.expr(x.X)), "Recv")
		}
		x.X = r.expr(x.X)
		return x
	case *ast.CallExpr:
		switch r.builtin(x.Fun) {
		case "close":
			return method(call(r.mc("C"), r.expr(x.Args[0])), "Close")
		case "len", "cap":
			if r.isChan(x.Args[0]) {
				name := "Len"
				if r.builtin(x.Fun) == "cap" {
					name = "Cap"
				}
				return method(call(r.mc("C"), r.expr(x.Args[0])), name)
			}
		case "make":
			if t := r.info.TypeOf(x.Args[0]); t != nil {
				if _, ok := t.Underlying().(*types.Chan); ok {
					ct, lit := unparen(x.Args[0]).(*ast.ChanType)
					var args []ast.Expr
					for _, a := range x.Args[1:] {
						args = append(args, call(ident("int"), r.expr(a)))
					}
					if lit {
						return call(&ast.IndexExpr{X: r.mc("MakeChan"), Index: r.expr(ct.Value)}, args...)
					}
					die("%s: make of a named channel type is not supported", r.pos(x))
				}
			}
		}
		r.children(x)
		return x
	}
	r.children(e)
	return e
}

var exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
var declT = reflect.TypeOf((*ast.Decl)(nil)).Elem()
var specT = reflect.TypeOf((*ast.Spec)(nil)).Elem()
var nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()

// children rewrites everything below a node, in place.
func (r *rw) children(n interface{}) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	v = v.Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		name := v.Type().Field(i).Name
		if name == "Obj" || name == "Doc" || name == "Comment" || name == "Scope" || name == "Unresolved" || name == "Imports" || name == "Comments" {
			continue
		}
		r.value(f)
	}
}

func (r *rw) value(f reflect.Value) {
	switch {
	case f.Kind() == reflect.Interface && f.Type() == exprT:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
		}
	case f.Kind() == reflect.Interface && f.Type() == stmtT:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(r.stmt(f.Interface().(ast.Stmt))))
		}
	case f.Kind() == reflect.Interface && (f.Type() == declT || f.Type() == specT):
		if !f.IsNil() {
			r.node(f.Interface())
		}
	case f.Kind() == reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			r.value(f.Index(i))
		}
	case f.Kind() == reflect.Ptr && f.Type().Implements(nodeT):
		if !f.IsNil() {
			if id, ok := f.Interface().(*ast.Ident); ok {
				_ = id
				return
			}
			r.node(f.Interface())
		}
	}
}

// node handles nodes that stay what they are.
func (r *rw) node(n interface{}) {
	switch x := n.(type) {
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u := r.recvOf(x.Values[0]); u != nil {
				if x.Type != nil {
					x.Type = r.expr(x.Type)
				}
				x.Values[0] = method(call(r.mc("C"), r.expr(u.X)), "Recv2")
				return
			}
		}
	case *ast.CallExpr: // in go and defer statements
		switch r.builtin(x.Fun) {
		case "close":
			nx := r.expr(x).(*ast.CallExpr)
			*x = *nx
			return
		}
	case *ast.ImportSpec:
		return
	}
	r.children(n)
}

func (r *rw) name(base string) string {
	r.n++
	return "mc" + base + strconv.Itoa(r.n)
}

func (r *rw) stmt(st ast.Stmt) ast.Stmt {
	switch x := st.(type) {
	case *ast.SendStmt:
		ch := r.expr(x.Chan)
		v := r.expr(x.Value)
		return &ast.ExprStmt{X: method(call(r.mc("C"), ch), "Send", v)}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := r.recvOf(x.Rhs[0]); u != nil {
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				x.Rhs[0] = method(call(r.mc("C"), r.expr(u.X)), "Recv2")
				return x
			}
		}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.RangeStmt:
		t := r.info.TypeOf(x.X)
		if t != nil {
			switch t.Underlying().(type) {
			case *types.Chan:
				return r.rangeChan(x)
			case *types.Map:
				return r.rangeMap(x)
			}
		}
	}
	r.children(st)
	return st
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			r.children(fl)
			return &ast.ExprStmt{X: call(r.mc("Go"), fl)}
		}
	}
	if r.builtin(c.Fun) != "" {
		nc := r.expr(c)
		return &ast.ExprStmt{X: call(r.mc("Go"), funcLit(&ast.ExprStmt{X: nc}))}
	}
	var lhs, rhs []ast.Expr
	var args []ast.Expr
	ftv := r.info.Types[c.Fun]
	var fun ast.Expr
	if ftv.IsType() { // conversion
		fun = r.expr(c.Fun)
	} else {
		id, isID := unparen(c.Fun).(*ast.Ident)
		_, isFn := r.info.Uses[id].(*types.Func)
		sel, isSel := unparen(c.Fun).(*ast.SelectorExpr)
		pkgFn := false
		if isSel {
			if pid, ok := sel.X.(*ast.Ident); ok {
				_, pkgFn = r.info.Uses[pid].(*types.PkgName)
			}
		}
		f := r.expr(c.Fun)
		if (isID && isFn) || pkgFn {
			fun = f
		} else {
			n := r.name("f")
			lhs = append(lhs, ident(n))
			rhs = append(rhs, f)
			fun = ident(n)
		}
	}
	for _, a := range c.Args {
		tv := r.info.Types[a]
		if _, isTuple := tv.Type.(*types.Tuple); isTuple {
			die("%s: go f(g()) with a multi-value g is not supported", r.pos(x))
		}
		ra := r.expr(a)
		if tv.Value != nil || tv.IsNil() {
			args = append(args, ra)
			continue
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			args = append(args, ra)
			continue
		}
		n := r.name("a")
		lhs = append(lhs, ident(n))
		rhs = append(rhs, ra)
		args = append(args, ident(n))
	}
	nc := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	run := &ast.ExprStmt{X: call(r.mc("Go"), funcLit(&ast.ExprStmt{X: nc}))}
	if len(lhs) == 0 {
		return run
	}
	return &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}, run}}
}

func funcLit(body ...ast.Stmt) *ast.FuncLit {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	var lhs, rhs, args []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := "false"
	var def *ast.CaseClause
	idx := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		var pre []ast.Stmt
		if cc.Comm == nil {
			hasDef = "true"
			def = &ast.CaseClause{Body: r.stmts(cc.Body)}
			continue
		}
		n := r.name("c")
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			lhs = append(lhs, ident(n))
			rhs = append(rhs, method(call(r.mc("C"), r.expr(c.Chan)), "CaseSend", r.expr(c.Value)))
		case *ast.ExprStmt:
			u := r.recvOf(c.X)
			lhs = append(lhs, ident(n))
			rhs = append(rhs, method(call(r.mc("C"), r.expr(u.X)), "CaseRecv"))
		case *ast.AssignStmt:
			u := r.recvOf(c.Rhs[0])
			lhs = append(lhs, ident(n))
			rhs = append(rhs, method(call(r.mc("C"), r.expr(u.X)), "CaseRecv"))
			m := "Val"
			if len(c.Lhs) == 2 {
				m = "Val2"
			}
			var l []ast.Expr
			for _, e := range c.Lhs {
				l = append(l, r.expr(e))
			}
			pre = append(pre, &ast.AssignStmt{Lhs: l, Tok: c.Tok, Rhs: []ast.Expr{method(ident(n), m)}})
		}
		args = append(args, ident(n))
		body := append(pre, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body})
		idx++
	}
	if def == nil {
		def = &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ident("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"mc: unreachable"`})}}}
	}
	sw.Body.List = append(sw.Body.List, def)
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = call(r.mc("Sel"), append([]ast.Expr{ident(hasDef)}, args...)...)
	return sw
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, x := range l {
		o = append(o, r.stmt(x))
	}
	return o
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func addr(e ast.Expr) ast.Expr {
	if blank(e) {
		return ident("nil")
	}
	return &ast.UnaryExpr{Op: token.AND, X: e}
}

func (r *rw) rangeMap(x *ast.RangeStmt) ast.Stmt {
	m := r.expr(x.X)
	r.children(x.Body)
	it := r.name("it")
	f := &ast.ForStmt{Body: x.Body}
	k, v := x.Key, x.Value
	if x.Tok == token.DEFINE {
		switch {
		case !blank(k) && !blank(v):
			f.Init = define(call(r.mc("Range3"), m), k, v, ident(it))
		case !blank(k):
			f.Init = define(call(r.mc("Range2"), m), k, ident(it))
		case !blank(v):
			f.Init = define(call(r.mc("Range2V"), m), v, ident(it))
		default:
			f.Init = define(call(r.mc("Range1"), m), ident(it))
		}
	} else {
		if k != nil {
			k = r.expr(k)
		}
		if v != nil {
			v = r.expr(v)
		}
		f.Init = define(call(r.mc("Range1"), m), ident(it))
	}
	f.Cond = method(ident(it), "Next", addr(k), addr(v))
	return f
}

func define(rhs ast.Expr, lhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
}

func (r *rw) rangeChan(x *ast.RangeStmt) ast.Stmt {
	c := r.expr(x.X)
	r.children(x.Body)
	it := r.name("it")
	f := &ast.ForStmt{Body: x.Body}
	k := x.Key
	if x.Tok == token.DEFINE && !blank(k) {
		f.Init = define(call(r.mc("RangeChan2"), c), k, ident(it))
	} else {
		if k != nil {
			k = r.expr(k)
		}
		f.Init = define(call(r.mc("RangeChan1"), c), ident(it))
	}
	f.Cond = method(ident(it), "Next", addr(k))
	return f
}

// rewritePackage writes the rewritten files of one package.
func rewritePackage(fset *token.FileSet, p *pkgInfo, tp *types.Package, info *types.Info, files []*ast.File, fnames []string, dir string) {
	pb := map[*ast.File]bool{}
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return i
			}
		}
		return -1
	}
	for i, f := range files {
		pb[f] = strings.HasSuffix(fnames[i], ".pb.go")
	}
	// which initialisers can be run again
	type ini struct {
		file int
		lhs  []*types.Var
		rhs  ast.Expr
	}
	var inits []ini
	hasInit := map[*types.Var]bool{}
	keep := map[*types.Var]bool{}
	for _, in := range info.InitOrder {
		fi := fileOf(in.Rhs.Pos())
		for _, v := range in.Lhs {
			hasInit[v] = true
		}
		if fi < 0 || pb[files[fi]] || immutable(info, in.Rhs) {
			for _, v := range in.Lhs {
				keep[v] = true
			}
			continue
		}
		inits = append(inits, ini{fi, in.Lhs, in.Rhs})
	}
	var zero, globals []string
	for _, n := range tp.Scope().Names() {
		v, ok := tp.Scope().Lookup(n).(*types.Var)
		if !ok || keep[v] {
			continue
		}
		fi := fileOf(v.Pos())
		if fi < 0 || pb[files[fi]] {
			continue
		}
		if n != "_" {
			globals = append(globals, n)
		}
		if !hasInit[v] {
			zero = append(zero, n)
		}
	}
	userInits := 0
	rws := make([]*rw, len(files))
	for i, f := range files {
		r := &rw{fset: fset, info: info, pkg: tp}
		rws[i] = r
		if pb[f] {
			continue
		}
		// locate the new initialiser expressions after rewriting: rewrite in place
		for _, d := range f.Decls {
			r.node(d)
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				fd.Name = ident("mcUserInit" + strconv.Itoa(userInits))
				userInits++
			}
		}
	}
	var calls []string
	for k, in := range inits {
		// the rewritten right-hand side is found through the declaration
		rhs := findRHS(files[in.file], in.lhs, info)
		if rhs == nil {
			continue
		}
		var lhs []ast.Expr
		for _, v := range in.lhs {
			lhs = append(lhs, ident(v.Name()))
		}
		fn := "mcInit" + strconv.Itoa(k)
		files[in.file].Decls = append(files[in.file].Decls, &ast.FuncDecl{Name: ident(fn), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}}})
		calls = append(calls, fn+"()")
	}
	for i, f := range files {
		r := rws[i]
		if pb[f] {
			b, err := os.ReadFile(filepath.Join(p.Dir, fnames[i]))
			if err != nil {
				die("%v", err)
			}
			write(filepath.Join(dir, fnames[i]), b)
			continue
		}
		fixImports(r, f, info)
		f.Comments = nil
		stripDocs(f)
		var buf bytes.Buffer
		if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
			die("print %s: %v", fnames[i], err)
		}
		write(filepath.Join(dir, fnames[i]), buf.Bytes())
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport %s %q\n\n", tp.Name(), mcName, mcPath)
	b.WriteString("func init() {\n")
	for i := 0; i < userInits; i++ {
		fmt.Fprintf(&b, "\tmcUserInit%d()\n", i)
	}
	for _, n := range globals {
		fmt.Fprintf(&b, "\t%s.Global(&%s)\n", mcName, n)
	}
	fmt.Fprintf(&b, "\t%s.RegisterReset(mcReset)\n}\n\nfunc mcReset() {\n", mcName)
	for _, z := range zero {
		fmt.Fprintf(&b, "\t%s.Zero(&%s)\n", mcName, z)
	}
	for _, c := range calls {
		fmt.Fprintf(&b, "\t%s\n", c)
	}
	for i := 0; i < userInits; i++ {
		fmt.Fprintf(&b, "\tmcUserInit%d()\n", i)
	}
	b.WriteString("}\n")
	write(filepath.Join(dir, "zz_mc_reset.go"), []byte(b.String()))
}

// immutable reports whether an initialiser makes a value whose identity matters and that
// never changes (errors).
func immutable(info *types.Info, e ast.Expr) bool {
	t := info.TypeOf(e)
	if t != nil && t.String() == "error" {
		return true
	}
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		return false
	}
	return false
}

func findRHS(f *ast.File, lhs []*types.Var, info *types.Info) ast.Expr {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			for i, n := range vs.Names {
				obj := info.Defs[n]
				if len(lhs) > 0 && obj == lhs[0] || (n.Name == "_" && len(lhs) == 0) {
					if len(vs.Values) == len(vs.Names) {
						return vs.Values[i]
					}
					if len(vs.Values) == 1 {
						return vs.Values[0]
					}
				}
			}
		}
	}
	return nil
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

// fixImports drops imports that are no longer used and adds the runtime's.
func fixImports(r *rw, f *ast.File, info *types.Info) {
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := info.Uses[id].(*types.PkgName); ok {
					used[pn.Name()+" "+pn.Imported().Path()] = true
				}
			}
		}
		return true
	})
	var specs []ast.Spec
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			name := ""
			var obj types.Object
			if is.Name != nil {
				name = is.Name.Name
				obj = info.Defs[is.Name]
			} else {
				obj = info.Implicits[is]
			}
			if name == "." {
				die("dot imports are not supported")
			}
			if name == "_" {
				specs = append(specs, &ast.ImportSpec{Name: ident("_"), Path: is.Path})
				continue
			}
			pn, ok := obj.(*types.PkgName)
			if !ok {
				continue
			}
			if used[pn.Name()+" "+path] {
				specs = append(specs, &ast.ImportSpec{Name: ident(pn.Name()), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}})
			}
		}
	}
	if r.usesMC {
		specs = append(specs, &ast.ImportSpec{Name: ident(mcName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(mcPath)}})
	}
	var decls []ast.Decl
	for _, s := range specs {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
	}
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
	f.Imports = nil
}
