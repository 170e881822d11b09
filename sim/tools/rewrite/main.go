// rewrite copies the system under test (and the two dependencies that block, lock or do I/O)
// into a build tree in which every source of nondeterminism goes through the simulator:
// imports of os, sync, time, net, ... become the shims, go statements, channel operations,
// select and map iteration become calls of the runtime, and statement-level preemption points
// are inserted into the system's own packages. It works on syntax and types only, so it does
// not depend on how the code is written.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const shimBase = "verif.local/sim/shim/"

var shims = map[string]string{
	"os": "os", "os/exec": "os/exec", "os/signal": "os/signal", "io/ioutil": "io/ioutil", "path/filepath": "path/filepath",
	"time": "time", "sync": "sync", "syscall": "syscall", "runtime": "runtime", "math/rand": "math/rand", "math/rand/v2": "math/rand/v2",
	"net": "net", "net/http": "net/http", "archive/zip": "archive/zip", "context": "context",
	"github.com/radu-munteanu/fsnotify":           "fsnotify",
	"github.com/coreos/go-systemd/v22/activation": "activation",
	"github.com/coreos/go-systemd/v22/daemon":     "daemon",
}

// Imports the simulator does not control; their appearance in the system under test is reported.
var uncontrolled = map[string]bool{"crypto/rand": true, "plugin": true, "net/rpc": true, "unsafe": false, "testing": true}

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Imports    []string
	Module     *struct{ Path, Dir, GoVersion string }
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"rewrite:"}, a...)...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	sim := flag.String("sim", "/verif/sim", "")
	flag.Parse()
	list := func(more ...string) ([]byte, error) {
		cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Export,Standard,Module,Imports",
			"./src/ferryd", "./src/ferryd/...", "./src/libferry", "./src/libdb", "./src/libeopkg"}, more...)...)
		cmd.Dir = *repo
		var eb bytes.Buffer
		cmd.Stderr = &eb
		b, err := cmd.Output()
		if err != nil {
			err = fmt.Errorf("%w %s", err, eb.String())
		}
		return b, err
	}
	b, err := list("./src/ferryctl/cmd")
	if err != nil { // the client alone does not keep the daemon from being checked
		if b, err = list(); err != nil {
			fatal("go list:", err)
		}
	}
	pkgs := map[string]*pkgInfo{}
	var order []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
	}
	mainMod := ""
	for _, p := range order {
		if p.Module != nil && p.Module.Dir == *repo {
			mainMod = p.Module.Path
		}
	}
	mods := map[string]string{ // module path -> output sub directory
		mainMod: "repo", "github.com/syndtr/goleveldb": "goleveldb", "github.com/sirupsen/logrus": "logrus",
	}
	gover := map[string]string{}
	tmp := *out + ".new"
	os.RemoveAll(tmp)
	lookup := func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", lookup)
	for _, p := range order {
		if p.Module == nil {
			continue
		}
		sub, ok := mods[p.Module.Path]
		if !ok {
			continue
		}
		gv := p.Module.GoVersion
		if gv == "" {
			gv = "1.18"
		}
		gover[p.Module.Path] = gv
		rel, _ := filepath.Rel(p.Module.Dir, p.Dir)
		dst := filepath.Join(tmp, sub, rel)
		if err := os.MkdirAll(dst, 0o755); err != nil {
			fatal(err)
		}
		// The commands of the client are a process of their own, without other threads; their
		// flags are reset by the scenario.
		ctl := sub == "repo" && strings.Contains(p.ImportPath, "/ferryctl")
		r := &rewriter{fset: fset, pt: sub == "repo" && !ctl, reset: sub != "goleveldb" && !ctl, ctl: ctl, pkg: p}
		if err := r.run(imp, dst); err != nil {
			fatal(p.ImportPath, err)
		}
	}
	// go.mod of every rewritten module, and the main module file.
	for mp, sub := range mods {
		gm := fmt.Sprintf("module %s\n\ngo %s\n", mp, atLeast(gover[mp], "1.18"))
		if err := os.WriteFile(filepath.Join(tmp, sub, "go.mod"), []byte(gm), 0o644); err != nil {
			fatal(err)
		}
	}
	src, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		fatal(err)
	}
	var req []string
	in := false
	for _, l := range strings.Split(string(src), "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "require ("):
			in = true
		case t == ")":
			in = false
		case in && t != "":
			req = append(req, t)
		case strings.HasPrefix(t, "require "):
			req = append(req, strings.TrimPrefix(t, "require "))
		}
	}
	var gm bytes.Buffer
	fmt.Fprintf(&gm, "module verif.local/sim\n\ngo 1.24\n\nrequire (\n")
	for _, r := range req {
		fmt.Fprintf(&gm, "\t%s\n", r)
	}
	fmt.Fprintf(&gm, "\t%s v0.0.0\n\tgithub.com/anishathalye/porcupine v1.3.1\n)\n\nreplace (\n", mainMod)
	var ms []string
	for mp := range mods {
		ms = append(ms, mp)
	}
	sort.Strings(ms)
	for _, mp := range ms {
		fmt.Fprintf(&gm, "\t%s => %s\n", mp, filepath.Join(*out, mods[mp]))
	}
	fmt.Fprintf(&gm, ")\n")
	if err := os.WriteFile(filepath.Join(tmp, "go.mod"), gm.Bytes(), 0o644); err != nil {
		fatal(err)
	}
	sum, _ := os.ReadFile(filepath.Join(*repo, "go.sum"))
	extra, _ := os.ReadFile(filepath.Join(*sim, "extra.sum"))
	if err := os.WriteFile(filepath.Join(tmp, "go.sum"), append(append(sum, '\n'), extra...), 0o644); err != nil {
		fatal(err)
	}
	os.RemoveAll(*out)
	if err := os.Rename(tmp, *out); err != nil {
		fatal(err)
	}
}

func atLeast(v, min string) string {
	var a, b, c, d int
	fmt.Sscanf(v, "%d.%d", &a, &b)
	fmt.Sscanf(min, "%d.%d", &c, &d)
	if a > c || a == c && b >= d {
		return v
	}
	return min
}

type rewriter struct {
	fset   *token.FileSet
	pt     bool
	reset  bool
	ctl    bool
	pkg    *pkgInfo
	info   *types.Info
	n      int
	useRT  bool
	useCDN bool
	nInit  int
}

func (r *rewriter) run(imp types.Importer, dst string) error {
	var files []*ast.File
	for _, g := range r.pkg.GoFiles {
		f, err := parser.ParseFile(r.fset, filepath.Join(r.pkg.Dir, g), nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, f)
	}
	r.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	gv := ""
	if r.pkg.Module != nil && r.pkg.Module.GoVersion != "" {
		gv = "go" + r.pkg.Module.GoVersion
	}
	conf := types.Config{Importer: imp, GoVersion: gv}
	tp, err := conf.Check(r.pkg.ImportPath, r.fset, files, r.info)
	if err != nil {
		return err
	}
	_ = tp
	// Which file declares what, for the reset functions.
	fileOf := map[*ast.File][]ast.Stmt{}
	var resetCalls []string
	var zero []string
	if r.reset {
		for _, f := range files {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							zero = append(zero, n.Name)
						}
					}
				}
			}
		}
	}
	type initFn struct {
		file *ast.File
		name string
		lhs  []string
		rhs  ast.Expr
	}
	var inits []initFn
	if r.reset {
		for i, in := range r.info.InitOrder {
			var lhs []string
			some := false
			for _, v := range in.Lhs {
				lhs = append(lhs, v.Name())
				some = some || v.Name() != "_"
			}
			if !some {
				continue
			}
			var ff *ast.File
			for _, f := range files {
				if f.FileStart <= in.Rhs.Pos() && in.Rhs.Pos() < f.FileEnd {
					ff = f
				}
			}
			name := fmt.Sprintf("verifInitVar%d", i)
			inits = append(inits, initFn{ff, name, lhs, in.Rhs})
			resetCalls = append(resetCalls, name)
		}
	}
	rhsNew := map[ast.Expr]ast.Expr{}
	for fi, f := range files {
		r.useRT, r.useCDN = false, false
		r.file(f, rhsNew)
		// init functions
		var extra []ast.Decl
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && r.reset {
				nm := fmt.Sprintf("verifInitFunc%d", r.nInit)
				r.nInit++
				fd.Name = ast.NewIdent(nm)
				resetCalls = append(resetCalls, nm)
				extra = append(extra, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(nm)}}}}})
			}
		}
		for _, in := range inits {
			if in.file != f {
				continue
			}
			rhs := in.rhs
			if n, ok := rhsNew[rhs]; ok {
				rhs = n
			}
			var lhs []ast.Expr
			for _, l := range in.lhs {
				lhs = append(lhs, ast.NewIdent(l))
			}
			extra = append(extra, &ast.FuncDecl{Name: ast.NewIdent(in.name), Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}}})
		}
		f.Decls = append(f.Decls, extra...)
		_ = fileOf
		r.imports(f)
		if f.Name.Name == "main" {
			f.Name = ast.NewIdent("ferrydmain")
		}
		var b bytes.Buffer
		if err := format.Node(&b, token.NewFileSet(), f); err != nil {
			return fmt.Errorf("%s: %w", r.pkg.GoFiles[fi], err)
		}
		if err := os.WriteFile(filepath.Join(dst, r.pkg.GoFiles[fi]), b.Bytes(), 0o644); err != nil {
			return err
		}
	}
	if r.reset {
		name := r.pkg.Name
		var b bytes.Buffer
		if name == "main" {
			name = "ferrydmain"
		}
		fmt.Fprintf(&b, "package %s\n\nimport verifrt \"verif.local/sim/rt\"\n\n// VerifReset gives the package the state of a fresh process.\nfunc VerifReset() {\n", name)
		for _, z := range zero {
			fmt.Fprintf(&b, "\tverifrt.Zero(&%s)\n", z)
		}
		for _, c := range resetCalls {
			fmt.Fprintf(&b, "\t%s()\n", c)
		}
		fmt.Fprintf(&b, "}\n\nvar _ = verifrt.NumCPU\n")
		if r.pkg.Name == "main" {
			fmt.Fprintf(&b, "\n// VerifMain runs the program.\nfunc VerifMain() { main() }\n")
		}
		if err := os.WriteFile(filepath.Join(dst, "zz_verif_reset.go"), b.Bytes(), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func (r *rewriter) imports(f *ast.File) {
	var decls []ast.Decl
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			if uncontrolled[p] && r.pt {
				fmt.Fprintf(os.Stderr, "rewrite: note: %s imports %s, which the simulator does not control\n", r.pkg.ImportPath, p)
			}
			n := &ast.ImportSpec{Name: is.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: is.Path.Value}}
			sh, ok := shims[p]
			if p == "fmt" && r.ctl {
				sh, ok = "fmt", true
			}
			if ok {
				n.Path.Value = strconv.Quote(shimBase + sh)
				if n.Name == nil {
					base := filepath.Base(p)
					if p == "math/rand/v2" {
						base = "rand"
					}
					n.Name = ast.NewIdent(base)
				}
			}
			decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{n}})
		}
	}
	var pre []ast.Decl
	if r.useRT {
		pre = append(pre, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("verifrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif.local/sim/rt"`}}}})
	}
	if r.useCDN {
		pre = append(pre, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("verifcdn"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif.local/sim/shim/cdn"`}}}})
	}
	f.Decls = append(pre, decls...)
	f.Imports = nil
}

func (r *rewriter) file(f *ast.File, rhsNew map[ast.Expr]ast.Expr) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				d.Body.List = r.stmts(d.Body.List)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for i, v := range vs.Values {
						n := r.expr(v)
						rhsNew[v] = n
						vs.Values[i] = n
					}
				}
			}
		}
	}
}

func (r *rewriter) rt(name string) ast.Expr {
	r.useRT = true
	return &ast.SelectorExpr{X: ast.NewIdent("verifrt"), Sel: ast.NewIdent(name)}
}
func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}
func (r *rewriter) tmp(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("verif_%s%d", s, r.n))
}

func (r *rewriter) typ(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok {
		if id, ok := e.(*ast.Ident); ok {
			if o := r.info.Uses[id]; o != nil {
				return o.Type()
			}
			if o := r.info.Defs[id]; o != nil {
				return o.Type()
			}
		}
		return nil
	}
	return tv.Type
}
func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.typ(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}
func (r *rewriter) isMap(e ast.Expr) bool {
	t := r.typ(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
func recvOf(e ast.Expr) *ast.UnaryExpr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// stmts rewrites a statement list.
func (r *rewriter) stmts(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if r.pt {
			switch s.(type) {
			case *ast.DeclStmt, *ast.EmptyStmt, *ast.BranchStmt:
			default:
				out = append(out, &ast.ExprStmt{X: r.call("Pt")})
			}
		}
		out = append(out, r.stmt(s, true)...)
	}
	return out
}

// one rewrites a statement in a position that takes exactly one.
func (r *rewriter) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	o := r.stmt(s, false)
	if len(o) == 1 {
		return o[0]
	}
	return &ast.BlockStmt{List: o}
}

func (r *rewriter) stmt(s ast.Stmt, list bool) []ast.Stmt {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		// The label must stay on the loop itself.
		o := r.stmt(s.Stmt, false)
		last := len(o) - 1
		s.Stmt = o[last]
		o[last] = s
		return o
	case *ast.GoStmt:
		return []ast.Stmt{r.goStmt(s)}
	case *ast.SendStmt:
		return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("S", r.expr(s.Chan)), Args: []ast.Expr{r.expr(s.Value)}}}}
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u := recvOf(s.Rhs[0]); u != nil {
				for i := range s.Lhs {
					s.Lhs[i] = r.expr(s.Lhs[i])
				}
				s.Rhs[0] = r.call("Recv2", r.expr(u.X))
				return []ast.Stmt{s}
			}
		}
		if list && r.pt && len(s.Lhs) == 1 && s.Tok != token.ASSIGN && s.Tok != token.DEFINE && r.sharedPlace(s.Lhs[0]) {
			if op, ok := binOp[s.Tok]; ok {
				return r.split(s.Lhs[0], op, r.expr(s.Rhs[0]))
			}
		}
		r.children(s)
		return []ast.Stmt{s}
	case *ast.IncDecStmt:
		if list && r.pt && r.sharedPlace(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return r.split(s.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
		}
		r.children(s)
		return []ast.Stmt{s}
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.ForStmt:
		r.children(s)
		if r.pt { // also in bodies that are empty or begin with a branch
			s.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: r.call("Pt")}}, s.Body.List...)
		}
		return []ast.Stmt{s}
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.BlockStmt:
		s.List = r.stmts(s.List)
		return []ast.Stmt{s}
	default:
		r.children(s)
		return []ast.Stmt{s}
	}
}

var binOp = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.MUL_ASSIGN: token.MUL}

// sharedPlace reports whether e is a plain selector chain (no calls or indexing).
func (r *rewriter) sharedPlace(e ast.Expr) bool {
	sel := false
	for {
		switch x := unparen(e).(type) {
		case *ast.SelectorExpr:
			sel = true
			e = x.X
		case *ast.Ident:
			return sel
		case *ast.StarExpr:
			sel = true
			e = x.X
		default:
			return false
		}
	}
}

// split makes a read-modify-write interruptible, as it is on real hardware.
func (r *rewriter) split(x ast.Expr, op token.Token, y ast.Expr) []ast.Stmt {
	t := r.tmp("rmw")
	return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: x, Op: op, Y: &ast.ParenExpr{X: y}}}},
		&ast.ExprStmt{X: r.call("Pt")},
		&ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
	}}}
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		fl.Body.List = r.stmts(fl.Body.List)
		return &ast.ExprStmt{X: r.call("Go", fl)}
	}
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		t := r.tmp("go")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return t
	}
	if r.builtin(c.Fun) != "" {
		n := r.expr(c).(*ast.CallExpr)
		return &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: n}}}})}
	}
	fun := bind(r.expr(c.Fun))
	var args []ast.Expr
	for _, a := range c.Args {
		tv := r.info.Types[a]
		if tv.IsNil() || tv.Value != nil {
			args = append(args, a) // constants keep their untyped nature
			continue
		}
		args = append(args, bind(r.expr(a)))
	}
	call := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		call.Ellipsis = 1
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	pre = append(pre, &ast.ExprStmt{X: r.call("Go", body)})
	return &ast.BlockStmt{List: pre}
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) []ast.Stmt {
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	switch {
	case r.isChan(s.X):
		c := r.tmp("ch")
		pre := &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(s.X)}}
		v, ok := r.tmp("v"), r.tmp("ok")
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", c)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		if blank(s.Key) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
		} else {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Key)}, Tok: s.Tok, Rhs: []ast.Expr{v}})
		}
		body = append(body, r.stmts(s.Body.List)...)
		return []ast.Stmt{pre, &ast.ForStmt{Body: &ast.BlockStmt{List: body}}}
	case r.isMap(s.X) && !(blank(s.Key) && blank(s.Value)):
		m := r.tmp("m")
		pre := &ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(s.X)}}
		k, v, ok := r.tmp("k"), r.tmp("v"), r.tmp("ok")
		fn := "Keys"
		if !r.pt {
			fn = "SortedKeys"
		}
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: k}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		}
		if !blank(s.Key) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Key)}, Tok: s.Tok, Rhs: []ast.Expr{k}})
			if id, isID := s.Key.(*ast.Ident); isID && s.Tok == token.DEFINE {
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(id.Name)}})
			}
		}
		if !blank(s.Value) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Value)}, Tok: s.Tok, Rhs: []ast.Expr{v}})
		} else {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
		}
		body = append(body, r.stmts(s.Body.List)...)
		return []ast.Stmt{pre, &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: r.call(fn, m), Body: &ast.BlockStmt{List: body}}}
	}
	s.X = r.expr(s.X)
	if s.Key != nil {
		s.Key = r.expr(s.Key)
	}
	if s.Value != nil {
		s.Value = r.expr(s.Value)
	}
	s.Body.List = r.stmts(s.Body.List)
	return []ast.Stmt{s}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) []ast.Stmt {
	var lhs, rhs, args []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	def := "false"
	i := 0
	for _, cs := range s.Body.List {
		cc := cs.(*ast.CommClause)
		var body []ast.Stmt
		idx := strconv.Itoa(i)
		switch c := cc.Comm.(type) {
		case nil:
			def, idx = "true", ""
		case *ast.SendStmt:
			t := r.tmp("c")
			lhs = append(lhs, t)
			rhs = append(rhs, &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.call("CS", r.expr(c.Chan)), Sel: ast.NewIdent("With")}, Args: []ast.Expr{r.expr(c.Value)}})
			args = append(args, t)
		case *ast.ExprStmt:
			t := r.tmp("c")
			lhs = append(lhs, t)
			rhs = append(rhs, r.call("CR", r.expr(recvOf(c.X).X)))
			args = append(args, t)
		case *ast.AssignStmt:
			t := r.tmp("c")
			lhs = append(lhs, t)
			rhs = append(rhs, r.call("CR", r.expr(recvOf(c.Rhs[0]).X)))
			args = append(args, t)
			m := "Val"
			if len(c.Lhs) == 2 {
				m = "Val2"
			}
			for j := range c.Lhs {
				c.Lhs[j] = r.expr(c.Lhs[j])
			}
			body = append(body, &ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: t, Sel: ast.NewIdent(m)}}}})
		}
		body = append(body, r.stmts(cc.Body)...)
		cl := &ast.CaseClause{Body: body}
		if idx != "" {
			cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: idx}}
			i++
		}
		sw.Body.List = append(sw.Body.List, cl)
	}
	sw.Tag = r.call("Select", append([]ast.Expr{ast.NewIdent(def)}, args...)...)
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	if def == "false" {
		// keeps functions that end in a blocking select terminating statements
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}}}}}})
	}
	return []ast.Stmt{sw}
}

func (r *rewriter) builtin(e ast.Expr) string {
	id, ok := unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

// expr rewrites an expression.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return r.call("Recv", r.expr(x.X))
		}
	case *ast.CallExpr:
		if b := r.builtin(x.Fun); b != "" && len(x.Args) == 1 && r.isChan(x.Args[0]) {
			switch b {
			case "close":
				return r.call("Close", r.expr(x.Args[0]))
			case "len":
				return r.call("Len", r.expr(x.Args[0]))
			}
		}
		if r.cdnCall(x) {
			r.children(e)
			r.useCDN = true
			x.Args = append(x.Args, &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifcdn"), Sel: ast.NewIdent("Sim")}})
			return e
		}
	case *ast.FuncLit:
		x.Body.List = r.stmts(x.Body.List)
		return x
	}
	r.children(e)
	return e
}

var (
	exprT  = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT  = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeT  = reflect.TypeOf((*ast.Node)(nil)).Elem()
	blockT = reflect.TypeOf((*ast.BlockStmt)(nil))
)

// cdnCall: a call that makes a client of the Cloudflare library.
func (r *rewriter) cdnCall(x *ast.CallExpr) bool {
	sel, ok := x.Fun.(*ast.SelectorExpr)
	if !ok || x.Ellipsis.IsValid() {
		return false
	}
	f, ok := r.info.Uses[sel.Sel].(*types.Func)
	if !ok || f.Pkg() == nil || f.Pkg().Path() != "github.com/cloudflare/cloudflare-go" {
		return false
	}
	sig := f.Type().(*types.Signature)
	if !sig.Variadic() || sig.Recv() != nil {
		return false
	}
	sl, ok := sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice)
	if !ok {
		return false
	}
	n, ok := sl.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Option"
}

// children rewrites the parts of a node in place.
func (r *rewriter) children(n ast.Node) {
	if vs, ok := n.(*ast.ValueSpec); ok && len(vs.Names) == 2 && len(vs.Values) == 1 {
		if u := recvOf(vs.Values[0]); u != nil {
			vs.Values[0] = r.call("Recv2", r.expr(u.X))
			return
		}
	}
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Pointer || v.IsNil() {
		return
	}
	v = v.Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch {
		case f.Type() == exprT:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
			}
		case f.Type() == stmtT:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.one(f.Interface().(ast.Stmt))))
			}
		case f.Type() == blockT:
			if !f.IsNil() {
				b := f.Interface().(*ast.BlockStmt)
				if _, sw := n.(*ast.SwitchStmt); sw {
					r.clauses(b)
				} else if _, sw := n.(*ast.TypeSwitchStmt); sw {
					r.clauses(b)
				} else {
					b.List = r.stmts(b.List)
				}
			}
		case f.Kind() == reflect.Slice && f.Type().Elem() == exprT:
			for j := 0; j < f.Len(); j++ {
				if e, ok := f.Index(j).Interface().(ast.Expr); ok && e != nil {
					f.Index(j).Set(reflect.ValueOf(r.expr(e)))
				}
			}
		case f.Kind() == reflect.Slice && f.Type().Elem() == stmtT:
			var l []ast.Stmt
			for j := 0; j < f.Len(); j++ {
				l = append(l, f.Index(j).Interface().(ast.Stmt))
			}
			f.Set(reflect.ValueOf(r.stmts(l)))
		case f.Kind() == reflect.Slice && f.Type().Elem().Implements(nodeT):
			for j := 0; j < f.Len(); j++ {
				r.children(f.Index(j).Interface().(ast.Node))
			}
		case f.Kind() == reflect.Pointer && f.Type().Implements(nodeT):
			if !f.IsNil() {
				switch c := f.Interface().(type) {
				case *ast.CallExpr:
					if n2, ok := r.expr(c).(*ast.CallExpr); ok {
						f.Set(reflect.ValueOf(n2))
					}
				case *ast.Ident, *ast.CommentGroup, *ast.BasicLit:
				default:
					r.children(c.(ast.Node))
				}
			}
		case f.Kind() == reflect.Interface && f.Type().Implements(nodeT) && !f.IsNil():
			r.children(f.Interface().(ast.Node))
		}
	}
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, s := range b.List {
		cc := s.(*ast.CaseClause)
		for i := range cc.List {
			cc.List[i] = r.expr(cc.List[i])
		}
		cc.Body = r.stmts(cc.Body)
	}
}
