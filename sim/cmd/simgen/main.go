// simgen instruments the packages of v2pro/plz for the simulator.
//
// It reads the current working tree, type-checks it against the compiler's export data and
// writes instrumented copies plus a build overlay; the tree itself is not touched.
//
//	simgen -repo /repo -out /verif/.build [-sim /verif/sim]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/v2pro/plz"

// packages whose code runs under the simulator
var targets = []string{
	"", "clock", "concurrent", "countlog", "countlog/loglog", "countlog/output", "countlog/output/async",
	"countlog/output/compact", "countlog/output/hrf", "countlog/output/json", "countlog/output/printf",
	"countlog/output/lumberjack", "countlog/spi", "countlog/stats", "gls", "msgfmt", "msgfmt/jsonfmt",
	"parse", "parse/read", "parse/skip",
}

// its functions without a body are the runtime's; its init functions only list types
const reflect2 = mod + "/reflect2"

var shims = map[string]string{
	"sync": "sync", "sync/atomic": "atomic", "time": "time", "os": "os", "io/ioutil": "ioutil",
	"path/filepath": "filepath", "math/rand": "rand", "math/rand/v2": "randv2", "context": "context",
	"fmt": "fmt", "runtime": "runtime", "runtime/debug": "debug", "log": "log", "compress/gzip": "gzip",
}

// standard packages with behaviour the simulator would have to model but does not
var forbidden = map[string]bool{"net": true, "net/http": true, "os/exec": true, "os/signal": true, "plugin": true}

type listPkg struct {
	Dir, ImportPath, Export, Name string
	GoFiles, SFiles, CgoFiles     []string
	Imports                       []string
	Standard                      bool
	Error                         *struct{ Err string }
}

type overlay struct {
	Replace map[string]string
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simgen: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "working tree")
	out := flag.String("out", "/verif/.build", "output directory")
	simDir := flag.String("sim", "/verif/sim", "simulator module")
	flag.Parse()

	args := []string{"list", "-deps", "-export", "-json"}
	for _, t := range targets {
		if t == "" {
			args = append(args, ".")
		} else {
			args = append(args, "./"+t)
		}
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	data, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, stderr.String())
	}
	pkgs := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		q := p
		pkgs[p.ImportPath] = &q
		order = append(order, &q)
	}
	ov := overlay{Replace: map[string]string{}}
	genDir := filepath.Join(*out, "gen")
	os.RemoveAll(genDir)
	g := &gen{fset: token.NewFileSet(), pkgs: pkgs, out: genDir, ov: &ov, sites: nil}
	g.imp = importer.ForCompiler(g.fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	// every package of the module that the targets pull in is instrumented
	for _, p := range order {
		if p.ImportPath == mod || strings.HasPrefix(p.ImportPath, mod+"/") {
			g.instrument(p)
		}
	}
	js, _ := json.MarshalIndent(ov, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0644))
	st, _ := json.Marshal(g.sites)
	must(os.WriteFile(filepath.Join(*out, "sites.json"), st, 0644))
	// module file for the simulated build
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	var lines []string
	for _, l := range strings.Split(string(gm), "\n") {
		if strings.HasPrefix(strings.TrimSpace(l), "go ") {
			l = "go 1.21"
		}
		if strings.HasPrefix(strings.TrimSpace(l), "toolchain ") {
			continue
		}
		lines = append(lines, l)
	}
	lines = append(lines, "require verifsim v0.0.0", "replace verifsim => "+*simDir, "")
	must(os.WriteFile(filepath.Join(*out, "go.mod"), []byte(strings.Join(lines, "\n")), 0644))
	gs, _ := os.ReadFile(filepath.Join(*repo, "go.sum"))
	must(os.WriteFile(filepath.Join(*out, "go.sum"), gs, 0644))
	fmt.Printf("simgen: %d packages, %d files, %d sites\n", g.npkg, g.nfile, len(g.sites))
}

// mapIterInit finds direct uses of the map iterator of the runtime.
var mapIterInit = regexp.MustCompile(`(?m)^//go:linkname (\w+) reflect\.mapiterinit$`)

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

type gen struct {
	fset  *token.FileSet
	pkgs  map[string]*listPkg
	imp   types.Importer
	out   string
	ov    *overlay
	sites []string
	npkg  int
	nfile int
}

func (g *gen) emit(p *listPkg, name, text string) {
	d := filepath.Join(g.out, filepath.FromSlash(p.ImportPath))
	must(os.MkdirAll(d, 0755))
	f := filepath.Join(d, name)
	must(os.WriteFile(f, []byte(text), 0644))
	g.ov.Replace[filepath.Join(p.Dir, name)] = f
	g.nfile++
}

type file struct {
	g      *gen
	p      *listPkg
	name   string
	src    []byte
	ast    *ast.File
	base   int
	info   *types.Info
	pkg    *types.Package
	simImp bool
	tmp    int
	inits  []string
	extra  []string
	capt   map[types.Object]bool
	fn     []*fnCtx
	label  string
}

type fnCtx struct {
	noYield bool
}

func (g *gen) instrument(p *listPkg) {
	if len(p.CgoFiles) > 0 {
		fatal("%s uses cgo", p.ImportPath)
	}
	g.npkg++
	var files []*file
	var asts []*ast.File
	for _, n := range p.GoFiles {
		full := filepath.Join(p.Dir, n)
		src, err := os.ReadFile(full)
		must(err)
		a, err := parser.ParseFile(g.fset, full, src, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		f := &file{g: g, p: p, name: n, src: src, ast: a, base: g.fset.File(a.Pos()).Base()}
		files = append(files, f)
		asts = append(asts, a)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Scopes: map[ast.Node]*types.Scope{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: g.imp, Sizes: types.SizesFor("gc", "amd64"), Error: func(error) {}}
	pkg, err := conf.Check(p.ImportPath, g.fset, asts, info)
	if err != nil {
		fatal("type-check %s: %v", p.ImportPath, err)
	}
	capt := map[types.Object]bool{}
	for _, f := range files {
		f.info, f.pkg, f.capt = info, pkg, capt
		f.findCaptured()
	}
	keep := map[types.Object]bool{}
	if p.ImportPath == reflect2 {
		keep = initVars(asts, info, pkg)
	}
	// reset function: initialisers in initialisation order, then init functions
	var resetBody []string
	initFile := map[*ast.File]*file{}
	for _, f := range files {
		initFile[f.ast] = f
	}
	fileOf := func(pos token.Pos) *file {
		for _, f := range files {
			if f.ast.FileStart <= pos && pos <= f.ast.FileEnd {
				return f
			}
		}
		return nil
	}
	texts := map[*file]string{}
	for _, f := range files {
		texts[f] = f.renderFile()
	}
	for _, f := range files {
		for _, d := range f.ast.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) != 0 || vs.Type == nil {
					continue
				}
				for _, id := range vs.Names {
					if id.Name == "_" || keep[info.Defs[id]] {
						continue
					}
					fn := fmt.Sprintf("_simzero_%s", id.Name)
					f.extra = append(f.extra, fmt.Sprintf("func %s() { %s = *new(%s) }", fn, id.Name, f.raw(vs.Type.Pos(), vs.Type.End())))
					resetBody = append(resetBody, fn+"()")
				}
			}
		}
	}
	for i, in := range info.InitOrder {
		f := fileOf(in.Rhs.Pos())
		var lhs []string
		all := true
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" && !keep[v] {
				all = false
			}
		}
		if all {
			continue
		}
		fn := fmt.Sprintf("_simvar_%d", i)
		f.fn = append(f.fn, &fnCtx{noYield: true})
		rhs := f.render(in.Rhs)
		f.fn = f.fn[:len(f.fn)-1]
		f.extra = append(f.extra, fmt.Sprintf("func %s() { %s = %s }", fn, strings.Join(lhs, ", "), rhs))
		resetBody = append(resetBody, fn+"()")
	}
	var initCalls []string
	for _, f := range files {
		initCalls = append(initCalls, f.inits...)
	}
	for _, c := range initCalls {
		if p.ImportPath != reflect2 {
			resetBody = append(resetBody, c+"()")
		}
	}
	for _, f := range files {
		t := texts[f]
		if len(f.extra) > 0 {
			t += "\n" + strings.Join(f.extra, "\n") + "\n"
		}
		// the import of the simulator goes on the package line so that line numbers stay
		at := int(f.ast.Name.End()) - f.base
		t = mapIterInit.ReplaceAllString(t, "//go:linkname $1 verifsim/sim.MapIterInit")
		t = t[:at] + `; import sim "verifsim/sim"` + t[at:] + "\nvar _ = sim.Y\n"
		g.emit(p, f.name, t)
	}
	reg := "package " + pkg.Name() + "\n\nimport sim \"verifsim/sim\"\n\nfunc init() {\n"
	for _, c := range initCalls {
		reg += "\t" + c + "()\n"
	}
	reg += "\tsim.RegisterReset(" + strconv.Quote(p.ImportPath) + ", func() {\n"
	for _, c := range resetBody {
		reg += "\t\t" + c + "\n"
	}
	reg += "\t})\n"
	// integer package variables can be set by the harness (sizes, limits)
	for _, n := range pkg.Scope().Names() {
		v, ok := pkg.Scope().Lookup(n).(*types.Var)
		if !ok || n == "_" {
			continue
		}
		if b, ok := v.Type().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Int64) {
			reg += "\tsim.RegisterVar(" + strconv.Quote(p.ImportPath+"."+n) + ", &" + n + ")\n"
		}
	}
	reg += "}\n"
	g.emit(p, "zz_verifsim_reset.go", reg)
	if len(p.SFiles) > 0 && p.ImportPath != reflect2 {
		for _, s := range p.SFiles {
			g.ov.Replace[filepath.Join(p.Dir, s)] = ""
		}
		// also files for other architectures, so that the package counts as pure Go
		m, _ := filepath.Glob(filepath.Join(p.Dir, "*.s"))
		for _, s := range m {
			g.ov.Replace[s] = ""
		}
	}
}

// initVars lists the package variables used by functions reachable from init functions.
func initVars(asts []*ast.File, info *types.Info, pkg *types.Package) map[types.Object]bool {
	decls := map[types.Object]*ast.FuncDecl{}
	var todo []*ast.FuncDecl
	for _, a := range asts {
		for _, d := range a.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				if fd.Recv == nil && fd.Name.Name == "init" {
					todo = append(todo, fd)
				} else {
					decls[info.Defs[fd.Name]] = fd
				}
			}
		}
	}
	vars := map[types.Object]bool{}
	for len(todo) > 0 {
		fd := todo[0]
		todo = todo[1:]
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				o := info.Uses[id]
				if v, ok := o.(*types.Var); ok && v.Parent() == pkg.Scope() {
					vars[v] = true
				}
				if next := decls[o]; next != nil {
					delete(decls, o)
					todo = append(todo, next)
				}
			}
			return true
		})
	}
	return vars
}

// findCaptured records local variables used by a function literal that does not declare them.
func (f *file) findCaptured() {
	var stack []*ast.FuncLit
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			stack = append(stack, x)
			ast.Inspect(x.Body, visit)
			stack = stack[:len(stack)-1]
			return false
		case *ast.Ident:
			if len(stack) == 0 {
				return true
			}
			o, ok := f.info.Uses[x].(*types.Var)
			if !ok || o.IsField() {
				return true
			}
			l := stack[len(stack)-1]
			if o.Parent() != nil && o.Parent() != f.pkg.Scope() && (o.Pos() < l.Pos() || o.Pos() > l.End()) {
				f.capt[o] = true
			}
		}
		return true
	}
	ast.Inspect(f.ast, visit)
}

func (f *file) raw(from, to token.Pos) string {
	return string(f.src[int(from)-f.base : int(to)-f.base])
}

func (f *file) site(n ast.Node) int {
	p := f.g.fset.Position(n.Pos())
	f.g.sites = append(f.g.sites, fmt.Sprintf("%s/%s:%d", strings.TrimPrefix(f.p.ImportPath, mod), f.name, p.Line))
	return len(f.g.sites)
}

func (f *file) renderFile() string {
	start, end := f.ast.FileStart, f.ast.FileEnd
	var b strings.Builder
	pos := start
	for _, d := range f.ast.Decls {
		b.WriteString(f.raw(pos, d.Pos()))
		b.WriteString(f.renderDecl(d))
		pos = d.End()
	}
	b.WriteString(f.raw(pos, end))
	return b.String()
}

func (f *file) renderDecl(d ast.Decl) string {
	switch x := d.(type) {
	case *ast.GenDecl:
		if x.Tok == token.IMPORT {
			var b strings.Builder
			pos := x.Pos()
			for _, s := range x.Specs {
				b.WriteString(f.raw(pos, s.Pos()))
				b.WriteString(f.renderImport(s.(*ast.ImportSpec)))
				pos = s.End()
			}
			b.WriteString(f.raw(pos, x.End()))
			return b.String()
		}
		if x.Tok == token.VAR {
			f.fn = append(f.fn, &fnCtx{noYield: true})
			defer func() { f.fn = f.fn[:len(f.fn)-1] }()
			return f.generic(x)
		}
		return f.raw(x.Pos(), x.End())
	case *ast.FuncDecl:
		return f.renderFunc(x)
	}
	return f.raw(d.Pos(), d.End())
}

func (f *file) renderImport(s *ast.ImportSpec) string {
	path, _ := strconv.Unquote(s.Path.Value)
	if forbidden[path] {
		fatal("%s imports %s, which the simulator does not model", f.p.ImportPath, path)
	}
	sh, ok := shims[path]
	if !ok {
		return f.raw(s.Pos(), s.End())
	}
	name := filepath.Base(path)
	if path == "math/rand/v2" {
		name = "rand"
	}
	if s.Name != nil {
		name = s.Name.Name
		if name == "_" {
			return f.raw(s.Pos(), s.End())
		}
	}
	return name + ` "verifsim/shim/` + sh + `"`
}

func hasUintptr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uintptr
}

func sigNoYield(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if hasUintptr(sig.Params().At(i).Type()) {
			return true
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if hasUintptr(sig.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

func (f *file) renderFunc(x *ast.FuncDecl) string {
	ctx := &fnCtx{}
	obj, _ := f.info.Defs[x.Name].(*types.Func)
	if obj != nil {
		ctx.noYield = sigNoYield(obj.Type().(*types.Signature))
	}
	if x.Doc != nil {
		for _, c := range x.Doc.List {
			if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:linkname") || strings.HasPrefix(c.Text, "//go:norace") {
				ctx.noYield = true
			}
		}
	}
	// a function that keeps an address in a uintptr variable must not be interrupted
	if x.Body != nil {
		ast.Inspect(x.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := f.info.Defs[id].(*types.Var); ok && hasUintptr(v.Type()) {
					ctx.noYield = true
				}
			}
			return true
		})
	}
	if x.Body == nil {
		if f.p.ImportPath == reflect2 {
			return f.raw(x.Pos(), x.End())
		}
		sig := obj.Type().(*types.Signature)
		h := f.raw(x.Pos(), x.End())
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 && hasUintptr(sig.Results().At(0).Type()) {
			return h + " { return sim.FakeG() }"
		}
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 {
			if _, ok := sig.Results().At(0).Type().Underlying().(*types.Pointer); ok || sig.Results().At(0).Type() == types.Typ[types.UnsafePointer] {
				return h + " { return (" + f.raw(x.Type.Results.List[0].Type.Pos(), x.Type.Results.List[0].Type.End()) + ")(sim.FakeGPtr()) }"
			}
		}
		fatal("%s: function %s has no body and is not modelled", f.p.ImportPath, x.Name.Name)
	}
	f.fn = append(f.fn, ctx)
	defer func() { f.fn = f.fn[:len(f.fn)-1] }()
	head := f.raw(x.Pos(), x.Body.Pos())
	if x.Recv == nil && x.Name.Name == "init" {
		nm := fmt.Sprintf("_siminit_%s_%d", ident(f.name), len(f.inits))
		f.inits = append(f.inits, nm)
		head = f.raw(x.Pos(), x.Name.Pos()) + nm + f.raw(x.Name.End(), x.Body.Pos())
	}
	return head + f.render(x.Body)
}

func ident(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

// children lists the direct children of a node in source order.
func children(n ast.Node) []ast.Node {
	var out []ast.Node
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c != nil {
			switch c.(type) {
			case *ast.Comment, *ast.CommentGroup:
				return false
			}
			out = append(out, c)
		}
		return false
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func (f *file) generic(n ast.Node) string {
	var b strings.Builder
	pos := n.Pos()
	for _, c := range children(n) {
		if c.Pos() < pos { // overlapping helper node (e.g. FuncType)
			continue
		}
		b.WriteString(f.raw(pos, c.Pos()))
		b.WriteString(f.render(c))
		pos = c.End()
	}
	b.WriteString(f.raw(pos, n.End()))
	return b.String()
}

func (f *file) noYield() bool {
	for _, c := range f.fn {
		if c.noYield {
			// a literal inside a package-level initialiser is a normal function
		}
	}
	return len(f.fn) == 0 || f.fn[len(f.fn)-1].noYield
}

func (f *file) yieldAt(n ast.Node) string { return fmt.Sprintf("sim.%s(%d); ", f.y(), f.site(n)) }

// y names the scheduling point: those of reflect2 can be switched off.
func (f *file) y() string {
	if f.p.ImportPath == reflect2 {
		return "Z"
	}
	return "Y"
}

func (f *file) t() int { f.tmp++; return f.tmp }

func (f *file) render(n ast.Node) string {
	switch x := n.(type) {
	case *ast.FuncLit:
		ctx := &fnCtx{}
		if sig, ok := f.info.TypeOf(x).(*types.Signature); ok {
			ctx.noYield = sigNoYield(sig)
		}
		f.fn = append(f.fn, ctx)
		s := f.raw(x.Pos(), x.Body.Pos()) + f.render(x.Body)
		f.fn = f.fn[:len(f.fn)-1]
		return s
	case *ast.BlockStmt:
		return f.stmtList(x.Pos(), x.Lbrace+1, x.List, x.End(), "")
	case *ast.CaseClause:
		var b strings.Builder
		pos := x.Pos()
		for _, e := range x.List {
			b.WriteString(f.raw(pos, e.Pos()))
			b.WriteString(f.render(e))
			pos = e.End()
		}
		b.WriteString(f.raw(pos, x.Colon+1))
		return b.String() + f.stmtList(x.Colon+1, x.Colon+1, x.Body, x.End(), "")
	case *ast.SelectStmt:
		return f.renderSelect(x)
	case *ast.SendStmt:
		return "sim.SendTo(" + f.render(x.Chan) + ")(" + f.render(x.Value) + ")"
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return "sim.Recv(" + f.render(x.X) + ")"
		}
	case *ast.AssignStmt:
		if s, ok := f.recv2(x.Lhs, x.Rhs); ok {
			return f.lhs(x.Lhs) + " " + x.Tok.String() + " " + s
		}
		return f.renderAssign(x, false)
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				return f.raw(x.Pos(), x.Values[0].Pos()) + "sim.Recv2(" + f.render(u.X) + ")"
			}
		}
	case *ast.IncDecStmt:
		if ix, ok := f.mapIndex(x.X); ok {
			// where only a simple statement may stand
			return "sim.MW(" + f.render(ix.X) + ")[" + f.render(ix.Index) + "]" + x.Tok.String()
		}
	case *ast.RangeStmt:
		return f.renderRange(x)
	case *ast.ForStmt:
		return f.loop(x)
	case *ast.GoStmt:
		return f.renderGo(x)
	case *ast.CallExpr:
		return f.renderCall(x)
	case *ast.IndexExpr:
		if ix, ok := f.mapIndex(x); ok {
			return "sim.MR(" + f.render(ix.X) + ")[" + f.render(ix.Index) + "]"
		}
	case *ast.Ident, *ast.BasicLit:
		return f.raw(n.Pos(), n.End())
	case *ast.FuncType, *ast.StructType, *ast.InterfaceType, *ast.ImportSpec:
		return f.raw(n.Pos(), n.End())
	}
	return f.generic(n)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (f *file) mapIndex(e ast.Expr) (*ast.IndexExpr, bool) {
	ix, ok := unparen(e).(*ast.IndexExpr)
	if !ok {
		return nil, false
	}
	t := f.info.TypeOf(ix.X)
	if t == nil {
		return nil, false
	}
	_, ok = t.Underlying().(*types.Map)
	return ix, ok
}

func (f *file) recv2(lhs, rhs []ast.Expr) (string, bool) {
	if len(lhs) == 2 && len(rhs) == 1 {
		if u, ok := unparen(rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return "sim.Recv2(" + f.render(u.X) + ")", true
		}
	}
	return "", false
}

func (f *file) lhs(list []ast.Expr) string {
	var s []string
	for _, e := range list {
		if ix, ok := f.mapIndex(e); ok {
			s = append(s, "sim.MW("+f.render(ix.X)+")["+f.render(ix.Index)+"]")
		} else {
			s = append(s, f.render(e))
		}
	}
	return strings.Join(s, ", ")
}

func (f *file) mapOp(ix *ast.IndexExpr, op, rhs string) string {
	n := f.t()
	return fmt.Sprintf("{ _vm%d := %s; _vk%d := sim.MKey(_vm%d, %s); _vv%d := sim.MR(_vm%d)[_vk%d]; _vv%d %s %s; sim.MW(_vm%d)[_vk%d] = _vv%d }",
		n, f.render(ix.X), n, n, f.render(ix.Index), n, n, n, n, op, rhs, n, n, n)
}

// renderAssign renders an assignment; list tells whether it stands in a statement list.
func (f *file) renderAssign(x *ast.AssignStmt, list bool) string {
	if x.Tok == token.DEFINE {
		return f.generic(x)
	}
	var rhs []string
	for _, e := range x.Rhs {
		rhs = append(rhs, f.render(e))
	}
	r := strings.Join(rhs, ", ")
	if x.Tok != token.ASSIGN { // op=
		if ix, ok := f.mapIndex(x.Lhs[0]); ok {
			if list {
				return f.mapOp(ix, x.Tok.String(), "("+r+")")
			}
			return "sim.MW(" + f.render(ix.X) + ")[" + f.render(ix.Index) + "] " + x.Tok.String() + " " + r
		}
		if list && !f.noYield() && f.sharedLvalue(x.Lhs[0]) {
			n := f.t()
			return fmt.Sprintf("{ _vp%d := &(%s); _vt%d := *_vp%d; _vt%d %s (%s); sim.%s(%d); *_vp%d = _vt%d }",
				n, f.render(x.Lhs[0]), n, n, n, x.Tok.String(), r, f.y(), f.site(x), n, n)
		}
		return f.render(x.Lhs[0]) + " " + x.Tok.String() + " " + r
	}
	if len(x.Lhs) == 1 && len(x.Rhs) == 1 && list && !f.noYield() {
		if ix, ok := f.mapIndex(x.Lhs[0]); ok {
			_ = ix
		} else if f.sharedLvalue(x.Lhs[0]) && (f.touches(x.Rhs[0]) || f.hasCall(x.Rhs[0])) {
			return fmt.Sprintf("sim.Asg"+f.y()+"(&(%s), %d)(%s)", f.render(x.Lhs[0]), f.site(x), r)
		}
	}
	return f.lhs(x.Lhs) + " = " + r
}

// sharedLvalue: an addressable place another goroutine could reach.
func (f *file) sharedLvalue(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		if x.Name == "_" {
			return false
		}
		v, ok := f.info.ObjectOf(x).(*types.Var)
		if !ok {
			return false
		}
		return f.sharedVar(v)
	case *ast.SelectorExpr:
		if sel, ok := f.info.Selections[x]; ok {
			if sel.Kind() != types.FieldVal {
				return false
			}
			if _, ptr := f.info.TypeOf(x.X).Underlying().(*types.Pointer); ptr || sel.Indirect() {
				return true
			}
			return f.sharedLvalue(x.X)
		}
		v, ok := f.info.Uses[x.Sel].(*types.Var) // package-qualified variable
		return ok && !v.IsField()
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		switch t := f.info.TypeOf(x.X).Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			_ = t
			return f.sharedLvalue(x.X)
		}
	}
	return false
}

func (f *file) sharedVar(v *types.Var) bool {
	if v.IsField() {
		return false
	}
	return v.Parent() == v.Pkg().Scope() || f.capt[v]
}

// touches tells whether evaluating the node itself (not nested blocks or function literals)
// reads or writes state that another goroutine could reach.
func (f *file) touches(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(c ast.Node) bool {
		if found {
			return false
		}
		switch x := c.(type) {
		case *ast.FuncLit, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause, *ast.CompositeLit:
			if _, ok := c.(*ast.CompositeLit); ok {
				// keys of struct literals look like identifiers of fields; values still count
				for _, e := range x.(*ast.CompositeLit).Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						e = kv.Value
					}
					if f.touches(e) {
						found = true
					}
				}
			}
			return false
		case *ast.Ident:
			if v, ok := f.info.Uses[x].(*types.Var); ok && f.sharedVar(v) {
				found = true
			}
		case *ast.SelectorExpr:
			if sel, ok := f.info.Selections[x]; ok && sel.Kind() == types.FieldVal {
				if _, ptr := f.info.TypeOf(x.X).Underlying().(*types.Pointer); ptr || sel.Indirect() {
					found = true
				}
			}
		case *ast.StarExpr:
			if tv, ok := f.info.Types[x]; ok && tv.IsValue() {
				found = true
			}
		case *ast.IndexExpr, *ast.SliceExpr:
			var base ast.Expr
			if ix, ok := x.(*ast.IndexExpr); ok {
				base = ix.X
			} else {
				base = x.(*ast.SliceExpr).X
			}
			if t := f.info.TypeOf(base); t != nil {
				switch t.Underlying().(type) {
				case *types.Slice, *types.Map, *types.Pointer:
					found = true
				}
			}
		}
		return true
	})
	return found
}

func (f *file) hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			return false
		}
		if c, ok := n.(*ast.CallExpr); ok {
			if tv, ok := f.info.Types[c.Fun]; ok && !tv.IsType() && !tv.IsBuiltin() {
				found = true
			}
		}
		return !found
	})
	return found
}

// stmtList renders "{ ... }" (or a case body) with scheduling points before statements.
func (f *file) stmtList(from, after token.Pos, list []ast.Stmt, end token.Pos, prefix string) string {
	var b strings.Builder
	b.WriteString(f.raw(from, after))
	b.WriteString(prefix)
	pos := after
	for _, s := range list {
		b.WriteString(f.raw(pos, s.Pos()))
		b.WriteString(f.stmt(s))
		pos = s.End()
	}
	b.WriteString(f.raw(pos, end))
	return b.String()
}

func (f *file) stmt(s ast.Stmt) string {
	pre := ""
	if !f.noYield() {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.DeclStmt, *ast.BlockStmt, *ast.LabeledStmt, *ast.BranchStmt:
			if d, ok := s.(*ast.DeclStmt); ok {
				if g, ok := d.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR && f.touches(g) {
					pre = f.yieldAt(s)
				}
			}
		default:
			if f.touches(s) {
				pre = f.yieldAt(s)
			}
		}
	}
	switch x := s.(type) {
	case *ast.AssignStmt:
		if _, ok := f.recv2(x.Lhs, x.Rhs); !ok {
			return pre + f.renderAssign(x, true)
		}
	case *ast.IncDecStmt:
		if ix, ok := f.mapIndex(x.X); ok {
			op := "+="
			if x.Tok == token.DEC {
				op = "-="
			}
			return pre + f.mapOp(ix, op, "1")
		}
		if !f.noYield() && !f.noYield() && f.sharedLvalue(x.X) {
			n := f.t()
			return pre + fmt.Sprintf("{ _vp%d := &(%s); _vt%d := *_vp%d; _vt%d%s; sim.%s(%d); *_vp%d = _vt%d }",
				n, f.render(x.X), n, n, n, x.Tok.String(), f.y(), f.site(x), n, n)
		}
	case *ast.DeclStmt:
		return pre + f.generic(x)
	}
	return pre + f.render(s)
}

func (f *file) loop(x *ast.ForStmt) string {
	var b strings.Builder
	pos := x.Pos()
	for _, c := range []ast.Node{stmtOrNil(x.Init), exprOrNil(x.Cond), stmtOrNil(x.Post)} {
		if c == nil {
			continue
		}
		b.WriteString(f.raw(pos, c.Pos()))
		b.WriteString(f.render(c))
		pos = c.End()
	}
	b.WriteString(f.raw(pos, x.Body.Pos()))
	b.WriteString(f.body(x.Body))
	return b.String()
}

func stmtOrNil(s ast.Stmt) ast.Node {
	if s == nil {
		return nil
	}
	return s
}
func exprOrNil(s ast.Expr) ast.Node {
	if s == nil {
		return nil
	}
	return s
}

// body renders a loop body with a scheduling point at its start.
func (f *file) body(x *ast.BlockStmt) string {
	pre := ""
	if !f.noYield() {
		pre = " " + f.yieldAt(x)
	}
	return f.stmtList(x.Pos(), x.Lbrace+1, x.List, x.End(), pre)
}

func (f *file) renderRange(x *ast.RangeStmt) string {
	t := f.info.TypeOf(x.X).Underlying()
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return f.render(e)
	}
	addr := func(e ast.Expr) string {
		if e == nil {
			return "nil"
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return "nil"
		}
		return "&" + f.render(e)
	}
	switch t.(type) {
	case *types.Map:
		n := f.t()
		if x.Tok == token.DEFINE {
			return fmt.Sprintf("for %s, %s, _it%d := sim.MapIter(%s); _it%d.Next(%s, %s); %s", name(x.Key), name(x.Value), n,
				f.render(x.X), n, addr(x.Key), addr(x.Value), f.body(x.Body))
		}
		return fmt.Sprintf("for _, _, _it%d := sim.MapIter(%s); _it%d.Next(%s, %s); %s", n, f.render(x.X), n,
			addr(x.Key), addr(x.Value), f.body(x.Body))
	case *types.Chan:
		n := f.t()
		if x.Tok == token.DEFINE {
			return fmt.Sprintf("for %s, _it%d := sim.ChanIter(%s); _it%d.Next(%s); %s", name(x.Key), n, f.render(x.X), n, addr(x.Key), f.body(x.Body))
		}
		return fmt.Sprintf("for _, _it%d := sim.ChanIter(%s); _it%d.Next(%s); %s", n, f.render(x.X), n, addr(x.Key), f.body(x.Body))
	}
	return f.raw(x.Pos(), x.X.Pos()) + f.render(x.X) + f.raw(x.X.End(), x.Body.Pos()) + f.body(x.Body)
}

func (f *file) renderSelect(x *ast.SelectStmt) string {
	if len(x.Body.List) == 0 {
		return "for { sim.BlockForever() }"
	}
	n := f.t()
	hasDefault := false
	var defs, names []string
	i := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			continue
		}
		nm := fmt.Sprintf("_vc%d_%d", n, i)
		i++
		names = append(names, nm)
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			defs = append(defs, "sim.CSend("+f.render(s.Chan)+")("+f.render(s.Value)+")")
		case *ast.ExprStmt:
			defs = append(defs, "sim.CRecv("+f.render(unparen(s.X).(*ast.UnaryExpr).X)+")")
		case *ast.AssignStmt:
			defs = append(defs, "sim.CRecv("+f.render(unparen(s.Rhs[0]).(*ast.UnaryExpr).X)+")")
		}
	}
	var b strings.Builder
	if len(names) > 0 {
		fmt.Fprintf(&b, "switch %s := %s; sim.Select(%v, %s) {", strings.Join(names, ", "), strings.Join(defs, ", "), hasDefault, strings.Join(names, ", "))
	} else {
		fmt.Fprintf(&b, "switch sim.Select(%v) {", hasDefault)
	}
	pos := x.Body.Lbrace + 1
	i = 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		b.WriteString(f.raw(pos, cc.Pos()))
		pre := ""
		if cc.Comm == nil {
			b.WriteString("default:")
		} else {
			fmt.Fprintf(&b, "case %d:", i)
			if s, ok := cc.Comm.(*ast.AssignStmt); ok {
				v := names[i] + ".V"
				if len(s.Lhs) == 2 {
					v += ", " + names[i] + ".OK"
				}
				pre = " " + f.lhs(s.Lhs) + " " + s.Tok.String() + " " + v + "; "
			}
			// keep the line structure of multi-line communications
			pre += strings.Repeat("\n", strings.Count(f.raw(cc.Pos(), cc.Colon+1), "\n"))
			i++
		}
		b.WriteString(f.stmtList(cc.Colon+1, cc.Colon+1, cc.Body, cc.End(), pre))
		pos = cc.End()
	}
	if !hasDefault {
		b.WriteString("\ndefault: panic(\"unreachable\")")
	}
	b.WriteString(f.raw(pos, x.End()))
	return b.String()
}

func (f *file) renderGo(x *ast.GoStmt) string {
	call := x.Call
	if lit, ok := unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 {
		if lit.Type.Results == nil || len(lit.Type.Results.List) == 0 {
			return "sim.Go(" + f.render(lit) + ")"
		}
		return "sim.Go(func() { " + f.render(lit) + "() })"
	}
	if tv, ok := f.info.Types[call.Fun]; ok && tv.IsBuiltin() {
		return "sim.Go(func() { " + f.renderCall(call) + " })"
	}
	n := f.t()
	var b strings.Builder
	fmt.Fprintf(&b, "{ _gf%d := %s; ", n, f.render(call.Fun))
	var args []string
	for i, a := range call.Args {
		tv := f.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, f.render(a))
			continue
		}
		if _, multi := tv.Type.(*types.Tuple); multi {
			fatal("%s: go f(g()) with several results is not supported", f.g.fset.Position(x.Pos()))
		}
		nm := fmt.Sprintf("_ga%d_%d", n, i)
		fmt.Fprintf(&b, "%s := %s; ", nm, f.render(a))
		args = append(args, nm)
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	fmt.Fprintf(&b, "sim.Go(func() { _gf%d(%s%s) }) }", n, strings.Join(args, ", "), dots)
	return b.String()
}

func (f *file) renderCall(x *ast.CallExpr) string {
	if id, ok := unparen(x.Fun).(*ast.Ident); ok {
		if bi, ok := f.info.Uses[id].(*types.Builtin); ok {
			switch bi.Name() {
			case "close":
				return "sim.Close(" + f.render(x.Args[0]) + ")"
			case "delete":
				return "delete(sim.MW(" + f.render(x.Args[0]) + "), " + f.render(x.Args[1]) + ")"
			case "len":
				if t := f.info.TypeOf(x.Args[0]); t != nil {
					if _, ok := t.Underlying().(*types.Map); ok {
						return "len(sim.MR(" + f.render(x.Args[0]) + "))"
					}
				}
			case "print", "println":
				return "sim.Discard(" + f.args(x) + ")"
			}
		}
	}
	if sel, ok := unparen(x.Fun).(*ast.SelectorExpr); ok && sel.Sel.Name == "MapKeys" && len(x.Args) == 0 {
		if t := f.info.TypeOf(sel.X); t != nil && t.String() == "reflect.Value" {
			return "sim.MapKeys(" + f.render(sel.X) + ")"
		}
	}
	return f.generic(x)
}

func (f *file) args(x *ast.CallExpr) string {
	var s []string
	for _, a := range x.Args {
		s = append(s, f.render(a))
	}
	return strings.Join(s, ", ")
}
