package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Level says how much of a package is instrumented.
type Level struct {
	Yield  bool // preemption points (otherwise steps are only counted)
	Split  bool // read-modify-write of package variables in two steps
	Maps   bool // overlap check on map accesses
	Reset  bool // package state is initialised anew for every run
	Main   bool // package main becomes importable
	Rename string
}

type Pkg struct {
	Path  string
	Dir   string
	Level Level
	names []string
	srcs  [][]byte
	files []*ast.File
	tpkg  *types.Package
	info  *types.Info
	deps  []string
}

type Loader struct {
	fset    *token.FileSet
	mods    map[string]string // module path -> directory
	pkgs    map[string]*Pkg
	order   []*Pkg
	std     types.Importer
	exports map[string]string
	level   func(path string) (Level, bool)
	sites   []string
	display func(file string) string
	errs    []string
	mutable map[string]bool // package variables that functions change
}

func newLoader() *Loader {
	return &Loader{fset: token.NewFileSet(), pkgs: map[string]*Pkg{}}
}

func (l *Loader) dirOf(path string) string {
	best, dir := "", ""
	for m, d := range l.mods {
		if (path == m || strings.HasPrefix(path, m+"/")) && len(m) > len(best) {
			best, dir = m, filepath.Join(d, strings.TrimPrefix(path[len(m):], "/"))
		}
	}
	return dir
}

// parse reads a package and, first, everything it imports from the modules.
func (l *Loader) parse(path string) error {
	if l.pkgs[path] != nil {
		return nil
	}
	dir := l.dirOf(path)
	ctx := build.Default
	ctx.CgoEnabled = false
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		return fmt.Errorf("%s: %v", path, err)
	}
	p := &Pkg{Path: path, Dir: dir}
	l.pkgs[path] = p
	for _, f := range bp.GoFiles {
		src, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(l.fset, filepath.Join(dir, f), src, parser.ParseComments)
		if err != nil {
			return err
		}
		p.names = append(p.names, filepath.Join(dir, f))
		p.srcs = append(p.srcs, src)
		p.files = append(p.files, af)
	}
	for _, imp := range bp.Imports {
		if l.dirOf(imp) != "" {
			if err := l.parse(imp); err != nil {
				return err
			}
			p.deps = append(p.deps, imp)
		}
	}
	l.order = append(l.order, p)
	return nil
}

// loadStd gets export data for the standard packages that are imported.
func (l *Loader) loadStd(env []string) error {
	need := map[string]bool{}
	for _, p := range l.order {
		for _, f := range p.files {
			for _, s := range f.Imports {
				v, _ := strconv.Unquote(s.Path.Value)
				if l.dirOf(v) == "" && v != "C" && v != "unsafe" {
					need[v] = true
				}
			}
		}
	}
	args := []string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}
	var ns []string
	for n := range need {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	cmd := exec.Command("go", append(args, ns...)...)
	cmd.Env = env
	cmd.Dir = os.TempDir()
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v %s", err, eb.String())
	}
	l.exports = map[string]string{}
	for _, line := range strings.Split(string(out), "\n") {
		f := strings.Split(line, "\t")
		if len(f) == 2 {
			l.exports[f[0]] = f[1]
		}
	}
	l.std = importer.ForCompiler(l.fset, "gc", func(path string) (io.ReadCloser, error) {
		f := l.exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	return nil
}

func (l *Loader) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := l.pkgs[path]; p != nil {
		if p.tpkg == nil {
			return nil, fmt.Errorf("%s is not checked yet", path)
		}
		return p.tpkg, nil
	}
	return l.std.Import(path)
}

func (l *Loader) check(p *Pkg) {
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: l, Error: func(err error) { l.errs = append(l.errs, err.Error()) }, GoVersion: "go1.23"}
	p.tpkg, _ = conf.Check(p.Path, l.fset, p.files, p.info)
}

// ---- edits ----

type edit struct {
	off, end int
	text     string
	seq      int
	close    bool // belongs to a node that ends here
}

type rewriter struct {
	l       *Loader
	p       *Pkg
	fi      int
	src     []byte
	file    *ast.File
	edits   []edit
	tail    []string // appended to the file
	keep    map[string]bool
	renamed map[string]bool
}

func (r *rewriter) off(p token.Pos) int { return r.l.fset.Position(p).Offset }

func (r *rewriter) ins(p token.Pos, text string) {
	o := r.off(p)
	r.edits = append(r.edits, edit{o, o, text, len(r.edits), false})
}

// insEnd inserts behind a node; the inner of two nodes that end together comes first.
func (r *rewriter) insEnd(p token.Pos, text string) {
	o := r.off(p)
	r.edits = append(r.edits, edit{o, o, text, len(r.edits), true})
}

func (r *rewriter) repl(a, b token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(a), r.off(b), text, len(r.edits), false})
}

func (r *rewriter) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rewriter) sortEdits() {
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].off != r.edits[j].off {
			return r.edits[i].off < r.edits[j].off
		}
		a, b := r.edits[i], r.edits[j]
		if a.close != b.close {
			return a.close
		}
		if a.close {
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
}

// render applies the edits inside [a,b).
func (r *rewriter) render(a, b int) string {
	var sb strings.Builder
	pos := a
	for _, e := range r.edits {
		if e.off < a || e.end > b || (e.off == b && e.off != e.end) {
			continue
		}
		if e.off < pos {
			continue // inside a replaced range
		}
		sb.Write(r.src[pos:e.off])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.Write(r.src[pos:b])
	return sb.String()
}

func (r *rewriter) site(p token.Pos) int {
	pos := r.l.fset.Position(p)
	r.l.sites = append(r.l.sites, fmt.Sprintf("%s:%d", r.l.display(pos.Filename), pos.Line))
	return len(r.l.sites)
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.p.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.p.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) pkgVar(e ast.Expr) bool {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			v, ok := r.p.info.ObjectOf(x).(*types.Var)
			return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
		case *ast.SelectorExpr:
			if v, ok := r.p.info.ObjectOf(x.Sel).(*types.Var); ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				return r.l.pkgs[v.Pkg().Path()] != nil
			}
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		default:
			return false
		}
	}
}

// pkgVarOf is the package variable that an expression is or belongs to.
func (l *Loader) pkgVarOf(p *Pkg, e ast.Expr) string {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			if v, ok := p.info.ObjectOf(x).(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				return v.Pkg().Path() + "." + v.Name()
			}
			return ""
		case *ast.SelectorExpr:
			if v, ok := p.info.ObjectOf(x.Sel).(*types.Var); ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				return v.Pkg().Path() + "." + v.Name()
			}
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		default:
			return ""
		}
	}
}

// findMutable finds the package variables that functions change.
func (l *Loader) findMutable() {
	l.mutable = map[string]bool{}
	for _, p := range l.order {
		if !p.Level.Yield {
			continue
		}
		note := func(e ast.Expr) {
			if v := l.pkgVarOf(p, e); v != "" {
				l.mutable[v] = true
			}
		}
		for _, f := range p.files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.AssignStmt:
						if x.Tok != token.DEFINE {
							for _, e := range x.Lhs {
								note(e)
							}
						}
					case *ast.IncDecStmt:
						note(x.X)
					case *ast.RangeStmt:
						if x.Tok == token.ASSIGN {
							note(x.Key)
							note(x.Value)
						}
					case *ast.UnaryExpr:
						if x.Op == token.AND {
							note(x.X)
						}
					case *ast.CallExpr:
						if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 && (id.Name == "delete" || id.Name == "clear" || id.Name == "copy") {
							note(x.Args[0])
						}
						if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
							if s := p.info.Selections[sel]; s != nil && s.Kind() == types.MethodVal {
								if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
									if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
										note(sel.X)
									}
								}
							}
						}
					}
					return true
				})
			}
		}
	}
}

// changing tells whether a statement touches a package variable that functions change.
func (r *rewriter) changing(s ast.Stmt) bool {
	found := false
	header(s, func(n ast.Node) bool {
		if e, ok := n.(ast.Expr); ok && !found {
			switch e.(type) {
			case *ast.Ident, *ast.SelectorExpr:
				found = r.l.mutable[r.l.pkgVarOf(r.p, e)]
			}
		}
		return !found
	})
	return found
}

// plain is an expression without calls or side effects.
func plain(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return plain(x.X)
	case *ast.ParenExpr:
		return plain(x.X)
	case *ast.StarExpr:
		return plain(x.X)
	case *ast.IndexExpr:
		return plain(x.X) && plain(x.Index)
	}
	return false
}

// header visits the parts of a statement that run when control reaches it.
func header(s ast.Stmt, f func(n ast.Node) bool) {
	ast.Inspect(s, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return n == ast.Node(s) && false
		case nil:
			return false
		}
		return f(n)
	})
}

func (r *rewriter) shared(s ast.Stmt) bool {
	found := false
	lhs := func(e ast.Expr) {
		switch x := e.(type) {
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
			_ = x
			found = true
		}
	}
	header(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.Ident:
			if r.pkgVar(x) {
				found = true
			}
		case *ast.SelectorExpr:
			if r.pkgVar(x) {
				found = true
			}
		case *ast.AssignStmt:
			for _, e := range x.Lhs {
				lhs(e)
			}
		case *ast.IncDecStmt:
			lhs(x.X)
		}
		return !found
	})
	return found
}

// mapUses announces the map accesses of a statement.
func (r *rewriter) mapUses(s ast.Stmt) string {
	if !r.p.Level.Maps {
		return ""
	}
	type use struct {
		text  string
		write bool
	}
	var uses []use
	seen := map[use]bool{}
	writes := map[ast.Expr]bool{}
	header(s, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok {
			for _, e := range a.Lhs {
				writes[e] = true
			}
		}
		if a, ok := n.(*ast.IncDecStmt); ok {
			writes[a.X] = true
		}
		return true
	})
	add := func(m ast.Expr, write bool) {
		if !plain(m) || !isMap(r.typeOf(m)) {
			return
		}
		ok := true
		ast.Inspect(m, func(n ast.Node) bool {
			if id, isID := n.(*ast.Ident); isID {
				o := r.p.info.ObjectOf(id)
				if o == nil || (o.Pos() >= s.Pos() && o.Pos() < s.End()) {
					ok = false
				}
			}
			return true
		})
		u := use{r.text(m), write}
		if ok && !seen[u] {
			seen[u] = true
			uses = append(uses, u)
		}
	}
	header(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.IndexExpr:
			add(x.X, writes[x])
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 {
				if b, ok := r.p.info.ObjectOf(id).(*types.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
					add(x.Args[0], true)
				}
			}
		}
		return true
	})
	if len(uses) == 0 || len(uses) > 6 {
		return ""
	}
	out := "if simrt.Multi { "
	for _, u := range uses {
		fn := "MR"
		if u.write {
			fn = "MW"
		}
		out += fmt.Sprintf("simrt.Guard(func() { simrt.%s(%s) }); ", fn, u.text)
	}
	return out + "}; "
}

func (r *rewriter) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			continue
		}
		if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
			continue
		}
		if !r.p.Level.Yield {
			r.ins(s.Pos(), "simrt.Yd(); ")
			continue
		}
		inner := s
		if ls, ok := s.(*ast.LabeledStmt); ok {
			inner = ls.Stmt
		}
		fn := "Y"
		if r.shared(inner) {
			fn = "Y2"
		}
		if r.changing(inner) {
			fn = "Y3"
		}
		r.ins(s.Pos(), fmt.Sprintf("simrt.%s(%d); %s", fn, r.site(s.Pos()), r.mapUses(inner)))
	}
}

func (r *rewriter) stdCall(e ast.Expr, pkg, name string) bool {
	sel, ok := e.(*ast.SelectorExpr)
	if !ok || sel.Sel.Name != name {
		return false
	}
	id, ok := sel.X.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := r.p.info.ObjectOf(id).(*types.PkgName)
	return ok && pn.Imported().Path() == pkg
}

func (r *rewriter) visit(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.BlockStmt:
		r.stmts(x.List)
	case *ast.CaseClause:
		r.stmts(x.Body)
	case *ast.CommClause:
		r.stmts(x.Body)
	case *ast.ForStmt:
		if len(x.Body.List) == 0 {
			r.ins(x.Body.Rbrace, "simrt.Yd(); ")
		}
	case *ast.RangeStmt:
		r.rangeStmt(x)
	case *ast.GoStmt:
		r.goStmt(x)
	case *ast.SendStmt:
		if !r.inComm(x) {
			r.ins(x.Pos(), "simrt.Send(")
			r.repl(x.Arrow, x.Arrow+2, ",")
			r.insEnd(x.End(), ")")
		}
	case *ast.SelectStmt:
		r.selectStmt(x)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 && !r.inComm(x) {
			if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				recv2[u] = true
			}
		}
		r.split(x)
	case *ast.IncDecStmt:
		if r.p.Level.Split && r.pkgVar(x.X) && plain(x.X) && !r.isHeaderPart(x) {
			op := "+"
			if x.Tok == token.DEC {
				op = "-"
			}
			t := r.text(x.X)
			r.repl(x.Pos(), x.End(), fmt.Sprintf("{ simT := %s; simrt.Y3(%d); %s = simT %s 1 }", t, r.site(x.Pos()), t, op))
			return false
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW && !comm[x] {
			fn := "simrt.Recv("
			if recv2[x] {
				fn = "simrt.Recv2("
			}
			r.repl(x.Pos(), x.Pos()+2, fn)
			r.insEnd(x.End(), ")")
		}
	case *ast.CallExpr:
		r.call(x)
	}
	return true
}

var recv2 = map[*ast.UnaryExpr]bool{}
var comm = map[ast.Node]bool{}
var headerPart = map[ast.Node]bool{}

func (r *rewriter) inComm(n ast.Node) bool       { return comm[n] }
func (r *rewriter) isHeaderPart(n ast.Node) bool { return headerPart[n] }

// prepass marks statements that sit in positions where only a simple statement may stand.
func (r *rewriter) prepass() {
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ForStmt:
			if x.Init != nil {
				headerPart[x.Init] = true
			}
			if x.Post != nil {
				headerPart[x.Post] = true
			}
		case *ast.IfStmt:
			if x.Init != nil {
				headerPart[x.Init] = true
			}
		case *ast.SwitchStmt:
			if x.Init != nil {
				headerPart[x.Init] = true
			}
		case *ast.TypeSwitchStmt:
			if x.Init != nil {
				headerPart[x.Init] = true
			}
			headerPart[x.Assign] = true
		case *ast.LabeledStmt:
			headerPart[x.Stmt] = true
		case *ast.CommClause:
			if x.Comm != nil {
				comm[x.Comm] = true
				headerPart[x.Comm] = true
				switch c := x.Comm.(type) {
				case *ast.ExprStmt:
					comm[unparen(c.X)] = true
				case *ast.AssignStmt:
					comm[unparen(c.Rhs[0])] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := x.Values[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					recv2[u] = true
				}
			}
		}
		return true
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) split(x *ast.AssignStmt) {
	if !r.p.Level.Split || r.isHeaderPart(x) || x.Tok == token.DEFINE || len(x.Lhs) != 1 || len(x.Rhs) != 1 {
		return
	}
	l, v := x.Lhs[0], x.Rhs[0]
	if !r.pkgVar(l) || !plain(l) {
		return
	}
	lt := r.typeOf(l)
	if lt == nil {
		return
	}
	tv := r.p.info.Types[v]
	if tv.Type == nil || tv.IsNil() || tv.IsBuiltin() {
		return
	}
	if x.Tok == token.ASSIGN {
		if tv.Value != nil {
			return
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return
		}
		if n, ok := lt.(*types.Named); ok {
			if _, basic := n.Underlying().(*types.Basic); basic {
				return
			}
		}
		r.ins(x.Pos(), "{ simT := ")
		r.repl(x.Pos(), v.Pos(), "")
		r.insEnd(x.End(), fmt.Sprintf("; simrt.Y3(%d); %s = simT }", r.site(x.Pos()), r.text(l)))
		return
	}
	op := strings.TrimSuffix(x.Tok.String(), "=")
	t := r.text(l)
	r.ins(x.Pos(), fmt.Sprintf("{ simT := %s %s (", t, op))
	r.repl(x.Pos(), v.Pos(), "")
	r.insEnd(x.End(), fmt.Sprintf("); simrt.Y3(%d); %s = simT }", r.site(x.Pos()), t))
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) {
	t := r.typeOf(x.X)
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	if isChan(t) {
		if !plain(x.X) {
			return
		}
		c := r.text(x.X)
		k := "_"
		if !blank(x.Key) {
			k = r.text(x.Key)
		}
		switch {
		case k == "_":
			r.repl(x.Pos(), x.Body.Lbrace, fmt.Sprintf("for _, simOK := simrt.Recv2(%s); simOK; _, simOK = simrt.Recv2(%s) ", c, c))
		case x.Tok == token.DEFINE:
			r.repl(x.Pos(), x.Body.Lbrace, fmt.Sprintf("for %s, simOK := simrt.Recv2(%s); simOK; %s, simOK = simrt.Recv2(%s) ", k, c, k, c))
		}
		return
	}
	if !isMap(t) {
		if len(x.Body.List) == 0 {
			r.ins(x.Body.Rbrace, "simrt.Yd(); ")
		}
		return
	}
	kb, vb := blank(x.Key), blank(x.Value)
	var vars, fn, args string
	def := x.Tok == token.DEFINE
	switch {
	case kb && vb:
		fn = "IterN"
	case vb:
		fn, vars, args = "IterK", r.text(x.Key), "&"+r.text(x.Key)
	case kb:
		fn, vars, args = "IterV", r.text(x.Value), "&"+r.text(x.Value)
	default:
		fn, vars, args = "Iter", r.text(x.Key)+", "+r.text(x.Value), "&"+r.text(x.Key)+", &"+r.text(x.Value)
	}
	if vars != "" {
		if def {
			vars = ", " + vars
		} else {
			vars = ""
			fn = strings.Replace(fn, "Iter", "IterA", 1)
		}
	}
	r.repl(x.Pos(), x.X.Pos(), fmt.Sprintf("for simE%s := simrt.%s(", vars, fn))
	r.insEnd(x.X.End(), fmt.Sprintf("); simE.Next(%s); ", args))
	if len(x.Body.List) == 0 {
		r.ins(x.Body.Rbrace, "simrt.Yd(); ")
	}
}

func (r *rewriter) goStmt(x *ast.GoStmt) {
	c := x.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.repl(x.Pos(), fl.Pos(), "simrt.Go(")
		r.repl(fl.End(), c.End(), ")")
		return
	}
	// { f, a := F, A; simrt.Go(func() { f(a) }) }
	r.repl(x.Pos(), c.Fun.Pos(), "{ simF := ")
	call := "simF("
	prev := c.Fun.End()
	for i, a := range c.Args {
		if i > 0 {
			call += ", "
		}
		tv := r.p.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			call += r.text(a)
			r.repl(prev, a.End(), "")
		} else {
			r.repl(prev, a.Pos(), fmt.Sprintf("; simA%d := ", i))
			call += fmt.Sprintf("simA%d", i)
		}
		prev = a.End()
	}
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	r.repl(prev, c.End(), "; simrt.Go(func() { "+call+") }) }")
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) {
	def := "false"
	var cases []string
	i := 0
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			def = "true"
			r.repl(cc.Case, cc.Colon, "case -1")
			continue
		}
		bind := ""
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			cases = append(cases, fmt.Sprintf("simrt.CaseSend(%s, %s)", r.text(c.Chan), r.text(c.Value)))
		case *ast.ExprStmt:
			u := unparen(c.X).(*ast.UnaryExpr)
			cases = append(cases, fmt.Sprintf("simrt.CaseRecv(%s)", r.text(u.X)))
		case *ast.AssignStmt:
			u := unparen(c.Rhs[0]).(*ast.UnaryExpr)
			cases = append(cases, fmt.Sprintf("simrt.CaseRecv(%s)", r.text(u.X)))
			val := fmt.Sprintf("simrt.SelVal(%s, simS)", r.text(u.X))
			bind = " " + r.text(c.Lhs[0])
			if len(c.Lhs) == 2 {
				bind += ", " + r.text(c.Lhs[1])
				val += ", simS.OK"
			}
			bind += " " + c.Tok.String() + " " + val + "; "
		}
		r.repl(cc.Case, cc.Colon+1, fmt.Sprintf("case %d:%s", i, bind))
		i++
	}
	all := strings.Join(cases, ", ")
	if all != "" {
		all = ", " + all
	}
	r.repl(x.Select, x.Body.Lbrace, fmt.Sprintf("switch simS := simrt.Select(%s%s); simS.I ", def, all))
}

func (r *rewriter) call(x *ast.CallExpr) {
	fun := unparen(x.Fun)
	if id, ok := fun.(*ast.Ident); ok && len(x.Args) == 1 {
		if b, ok := r.p.info.ObjectOf(id).(*types.Builtin); ok && isChan(r.typeOf(x.Args[0])) {
			switch b.Name() {
			case "close":
				r.repl(id.Pos(), id.End(), "simrt.CloseChan")
			case "len":
				r.repl(id.Pos(), id.End(), "simrt.LenChan")
			}
		}
		return
	}
	if ix, ok := fun.(*ast.IndexExpr); ok {
		fun = ix.X
	}
	for _, m := range stdRepl {
		if r.stdCall(fun, m.pkg, m.name) {
			r.repl(fun.Pos(), fun.End(), m.to)
			r.keep[r.text(fun.(*ast.SelectorExpr).X)+"."+m.keep] = true
			return
		}
	}
	if sel, ok := fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "MapKeys" && len(x.Args) == 0 {
		if t := r.typeOf(sel.X); t != nil && t.String() == "reflect.Value" {
			r.ins(x.Pos(), "simrt.MapKeys(")
			r.insEnd(x.End(), ")")
		}
	}
}

var stdRepl = []struct{ pkg, name, to, keep string }{
	{"time", "Sleep", "simrt.Sleep", "Sleep"},
	{"time", "After", "simrt.After", "Sleep"},
	{"maps", "Keys", "simrt.MapsKeys", "Copy[map[int]int, map[int]int]"},
	{"maps", "Values", "simrt.MapsValues", "Copy[map[int]int, map[int]int]"},
	{"maps", "All", "simrt.MapsAll", "Copy[map[int]int, map[int]int]"},
}

// rewrite instruments the package in place.
func (l *Loader) rewrite(p *Pkg) error {
	var rs []*rewriter
	for i, f := range p.files {
		r := &rewriter{l: l, p: p, fi: i, src: p.srcs[i], file: f, keep: map[string]bool{}}
		r.prepass()
		r.ins(f.Name.End(), "; import simrt \"simrt\"")
		for _, s := range f.Imports {
			v, _ := strconv.Unquote(s.Path.Value)
			if v == "sync" && s.Name == nil {
				r.repl(s.Pos(), s.End(), "sync \"simrt/ssync\"")
			} else if v == "sync" {
				r.repl(s.Path.Pos(), s.Path.End(), "\"simrt/ssync\"")
			}
		}
		if p.Level.Main {
			r.repl(f.Name.Pos(), f.Name.End(), p.Level.Rename)
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				return true
			}
			return r.visit(n)
		})
		rs = append(rs, r)
	}
	// init functions get names so that they can run again
	var inits []string
	for _, r := range rs {
		for _, d := range r.file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if fd.Name.Name == "init" && p.Level.Reset {
				n := fmt.Sprintf("simInitFunc%d", len(inits))
				inits = append(inits, n)
				r.repl(fd.Name.Pos(), fd.Name.End(), n)
			}
			if fd.Name.Name == "main" && p.Level.Main {
				r.repl(fd.Name.Pos(), fd.Name.End(), "SimMain")
			}
		}
	}
	for _, r := range rs {
		r.sortEdits()
	}
	if p.Level.Reset {
		l.resets(p, rs, inits)
	}
	for i, r := range rs {
		out := r.render(0, len(r.src)) + "\n\nvar _ = simrt.Y\n"
		var ks []string
		for k := range r.keep {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out += "var _ = " + k + "\n"
		}
		for _, t := range r.tail {
			out += t
		}
		if err := os.WriteFile(p.names[i], []byte(out), 0644); err != nil {
			return err
		}
	}
	return nil
}

// resets writes a function that puts the package variables back to their
// initial values in initialisation order and runs the init functions.
func (l *Loader) resets(p *Pkg, rs []*rewriter, inits []string) {
	byFile := map[string]*rewriter{}
	for i, r := range rs {
		byFile[p.names[i]] = r
	}
	at := func(pos token.Pos) *rewriter { return byFile[l.fset.Position(pos).Filename] }
	withInit := map[types.Object]bool{}
	for _, in := range p.info.InitOrder {
		for _, v := range in.Lhs {
			withInit[v] = true
		}
	}
	var calls []string
	n := 0
	for _, r := range rs {
		for _, d := range r.file.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 || embedded(gd, vs) {
					continue
				}
				for _, id := range vs.Names {
					if id.Name == "_" || withInit[p.info.Defs[id]] {
						continue
					}
					fn := fmt.Sprintf("simReset%d", n)
					n++
					r.tail = append(r.tail, fmt.Sprintf("\nfunc %s() { %s = *new(%s) }\n", fn, id.Name, r.text(vs.Type)))
					calls = append(calls, fn)
				}
			}
		}
	}
	for _, in := range p.info.InitOrder {
		r := at(in.Rhs.Pos())
		if r == nil {
			continue
		}
		var ls []string
		blank := true
		for _, v := range in.Lhs {
			ls = append(ls, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		fn := fmt.Sprintf("simReset%d", n)
		n++
		rhs := r.render(r.off(in.Rhs.Pos()), r.off(in.Rhs.End()))
		r.tail = append(r.tail, fmt.Sprintf("\nfunc %s() { %s = %s }\n", fn, strings.Join(ls, ", "), rhs))
		calls = append(calls, fn)
	}
	var sb strings.Builder
	sb.WriteString("\nfunc simResetAll() {\n")
	for _, c := range calls {
		sb.WriteString("\t" + c + "()\n")
	}
	for _, c := range inits {
		sb.WriteString("\t" + c + "()\n")
	}
	sb.WriteString("}\n\nfunc init() {\n\tsimrt.RegisterReset(simResetAll)\n")
	for _, c := range inits {
		sb.WriteString("\t" + c + "()\n")
	}
	sb.WriteString("}\n")
	rs[len(rs)-1].tail = append(rs[len(rs)-1].tail, sb.String())
}

func embedded(gd *ast.GenDecl, vs *ast.ValueSpec) bool {
	for _, cg := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
		if cg == nil {
			continue
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:embed") {
				return true
			}
		}
	}
	return false
}
