// Command instr writes an instrumented copy of the repository: every statement
// becomes a yield point of the simulator's scheduler, and sync, time, go
// statements, channel operations and map iteration go through it.
//
//	instr -repo /repo -out DIR -simrt DIR -stubs DIR
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var (
	repo  = flag.String("repo", "/repo", "repository")
	out   = flag.String("out", "", "output directory")
	simrt = flag.String("simrt", "", "simulator runtime")
	stubs = flag.String("stubs", "", "stand-ins for dependencies")
)

type pkg struct {
	path  string
	dir   string
	files []string
	asts  []*ast.File
	types *types.Package
	info  *types.Info
	busy  bool
}

var (
	fset    = token.NewFileSet()
	module  string
	pkgs    = map[string]*pkg{}
	std     types.Importer
	sites   []string
	nsites  int
	skipDir = map[string]bool{".git": true, "examples": true, "test": true, "tests": true, "testdata": true, "vendor": true}
)

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(3)
}

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := pkgs[path]; ok {
		return check(p)
	}
	return std.Import(path)
}

func check(p *pkg) (*types.Package, error) {
	if p.types != nil {
		return p.types, nil
	}
	if p.busy {
		return nil, fmt.Errorf("import cycle through %s", p.path)
	}
	p.busy = true
	for _, f := range p.files {
		a, err := parser.ParseFile(fset, f, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		p.asts = append(p.asts, a)
	}
	p.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp{}}
	t, err := conf.Check(p.path, fset, p.asts, p.info)
	if err != nil {
		return nil, err
	}
	p.types = t
	return t, nil
}

func addPkg(path, dir string) *pkg {
	ents, err := os.ReadDir(dir)
	if err != nil {
		die("%v", err)
	}
	p := &pkg{path: path, dir: dir}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, _ := build.Default.MatchFile(dir, n); !ok {
			continue
		}
		p.files = append(p.files, filepath.Join(dir, n))
	}
	if len(p.files) == 0 {
		return nil
	}
	pkgs[path] = p
	return p
}

type edit struct {
	at, end int
	text    string
	seq     int
}

type rewriter struct {
	p     *pkg
	src   []byte
	base  int
	edits []edit
	cut   map[ast.Node]bool // channel operations inside select, left alone

	labelled map[*ast.SelectStmt]token.Pos
}

func (r *rewriter) off(p token.Pos) int { return int(p) - r.base }

func (r *rewriter) ins(p token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(p), r.off(p), s, len(r.edits)})
}

func (r *rewriter) repl(a, b token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(a), r.off(b), s, len(r.edits)})
}

func (r *rewriter) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func site(p token.Pos) int {
	nsites++
	pos := fset.Position(p)
	rel, err := filepath.Rel(*repo, pos.Filename)
	if err != nil {
		rel = pos.Filename
	}
	sites = append(sites, fmt.Sprintf("%s:%d", rel, pos.Line))
	return nsites
}

func (r *rewriter) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		r.ins(s.Pos(), fmt.Sprintf("zzsim.Y(%d); ", site(s.Pos())))
	}
}

// pure tells whether evaluating the expression twice is the same as once.
func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.IndexExpr:
		return pure(e.X) && pure(e.Index)
	case *ast.StarExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	}
	return false
}

func (r *rewriter) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.Ident:
		o := r.p.info.Uses[e]
		return o != nil && o.Parent() == r.p.types.Scope()
	}
	return false
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Map:
		return true
	case *types.Interface: // type parameter
		if _, ok := t.(*types.TypeParam); ok {
			all := u.NumEmbeddeds() > 0
			for i := 0; i < u.NumEmbeddeds(); i++ {
				et := u.EmbeddedType(i)
				if un, ok := et.(*types.Union); ok {
					for j := 0; j < un.Len(); j++ {
						if _, ok := un.Term(j).Type().Underlying().(*types.Map); !ok {
							all = false
						}
					}
				} else if _, ok := et.Underlying().(*types.Map); !ok {
					all = false
				}
			}
			return all
		}
	}
	return false
}

func (r *rewriter) assign(s *ast.AssignStmt) {
	if len(s.Lhs) != 1 || len(s.Rhs) != 1 || s.Tok == token.DEFINE || !r.shared(s.Lhs[0]) {
		return
	}
	lhs, rhs := s.Lhs[0], s.Rhs[0]
	if s.Tok != token.ASSIGN {
		if !pure(lhs) {
			return
		}
		op := strings.TrimSuffix(s.Tok.String(), "=")
		r.repl(s.TokPos, s.TokPos+token.Pos(len(s.Tok.String())), "= zzsim.V("+r.text(lhs)+" "+op+" (")
		r.ins(s.End(), fmt.Sprintf("), %d)", site(s.Pos())))
		return
	}
	tv := r.p.info.Types[rhs]
	if tv.Value != nil || tv.IsNil() || tv.Type == nil {
		return
	}
	if b, ok := rhs.(*ast.BinaryExpr); ok {
		switch b.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.SHL, token.SHR, token.LAND, token.LOR:
			return
		}
	}
	if u, ok := rhs.(*ast.UnaryExpr); ok && (u.Op == token.NOT || u.Op == token.ARROW) {
		return
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return
	}
	if _, ok := tv.Type.(*types.Tuple); ok {
		return
	}
	if lt := r.p.info.Types[lhs].Type; lt != nil && !types.Identical(lt, tv.Type) {
		return
	}
	r.ins(rhs.Pos(), "zzsim.V(")
	r.ins(rhs.End(), fmt.Sprintf(", %d)", site(s.Pos())))
}

func (r *rewriter) visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.BlockStmt:
		r.stmts(n.List)
	case *ast.CaseClause:
		r.stmts(n.Body)
	case *ast.CommClause:
		r.stmts(n.Body)
		if n.Comm != nil {
			ast.Inspect(n.Comm, func(m ast.Node) bool {
				if m != nil {
					r.cut[m] = true
				}
				return true
			})
		}
	case *ast.ForStmt:
		if len(n.Body.List) == 0 {
			r.ins(n.Body.Lbrace+1, fmt.Sprintf(" zzsim.Y(%d) ", site(n.Pos())))
		}
	case *ast.RangeStmt:
		if len(n.Body.List) == 0 {
			r.ins(n.Body.Lbrace+1, fmt.Sprintf(" zzsim.Y(%d) ", site(n.Pos())))
		}
		if t := r.p.info.Types[n.X].Type; isMap(t) {
			r.ins(n.X.Pos(), "zzsim.MapRange(")
			r.ins(n.X.End(), ")")
		} else if _, ok := t.Underlying().(*types.Chan); ok {
			r.ins(n.X.Pos(), "zzsim.ChanRange(")
			r.ins(n.X.End(), ")")
		}
	case *ast.AssignStmt:
		if r.cut[n] {
			return true
		}
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := n.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.cut[u] = true
				r.repl(u.OpPos, u.X.Pos(), "zzsim.Recv2(")
				r.ins(u.X.End(), ")")
			}
		}
		r.assign(n)
	case *ast.IncDecStmt:
		if r.cut[n] || !r.shared(n.X) || !pure(n.X) {
			return true
		}
		op := n.Tok.String()[:1]
		r.repl(n.TokPos, n.TokPos+2, fmt.Sprintf(" = zzsim.V(%s %s 1, %d)", r.text(n.X), op, site(n.Pos())))
	case *ast.GoStmt:
		r.goStmt(n)
	case *ast.SendStmt:
		if r.cut[n] {
			return true
		}
		r.ins(n.Pos(), "zzsim.Send(")
		r.repl(n.Arrow, n.Arrow+2, ",")
		r.ins(n.End(), ")")
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !r.cut[n] {
			r.repl(n.OpPos, n.X.Pos(), "zzsim.Recv(")
			r.ins(n.X.End(), ")")
		}
	case *ast.SelectStmt:
		r.selectStmt(n)
	case *ast.LabeledStmt:
		if sel, ok := n.Stmt.(*ast.SelectStmt); ok {
			r.labelled[sel] = n.Pos()
		}
	}
	return true
}

// goStmt keeps the language's order of evaluation: the function and its
// arguments are evaluated by the go statement, not by the new task.
func (r *rewriter) goStmt(n *ast.GoStmt) {
	c := n.Call
	fun := c.Fun
	for {
		pe, ok := fun.(*ast.ParenExpr)
		if !ok {
			break
		}
		fun = pe.X
	}
	_, lit := fun.(*ast.FuncLit)
	late := r.p.info.Types[fun].IsBuiltin() || (lit && len(c.Args) == 0)
	if len(c.Args) == 1 {
		if _, ok := r.p.info.Types[c.Args[0]].Type.(*types.Tuple); ok {
			late = true
		}
	}
	if late {
		r.repl(n.Go, c.Pos(), "zzsim.Go(func() { ")
		r.ins(c.End(), " })")
		return
	}
	// A function named directly may be generic: it is named again in the call.
	direct := false
	base := fun
	if ix, ok := base.(*ast.IndexExpr); ok {
		base = ix.X
	} else if ix, ok := base.(*ast.IndexListExpr); ok {
		base = ix.X
	}
	switch f := base.(type) {
	case *ast.Ident:
		_, direct = r.p.info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if _, sel := r.p.info.Selections[f]; !sel {
			_, direct = r.p.info.Uses[f.Sel].(*types.Func)
		}
	}
	call := ""
	if direct {
		call = r.text(c.Fun)
		r.repl(n.Go, c.Fun.End(), "func() { ")
	} else {
		call = "zzf"
		r.repl(n.Go, c.Fun.Pos(), "func() { zzf := ")
	}
	prev := c.Fun.End()
	var names []string
	for i, a := range c.Args {
		tv := r.p.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			names = append(names, r.text(a))
			r.repl(prev, a.End(), "; ")
			prev = a.End()
			continue
		}
		name := fmt.Sprintf("zza%d", i)
		names = append(names, name)
		r.repl(prev, a.Pos(), "; "+name+" := ")
		prev = a.End()
	}
	args := strings.Join(names, ", ")
	if c.Ellipsis.IsValid() {
		args += "..."
	}
	r.repl(prev, c.End(), "; zzsim.Go(func() { "+call+"("+args+") }) }()")
}

// selectStmt makes a select try its cases one at a time, in a seeded order.
func (r *rewriter) selectStmt(n *ast.SelectStmt) {
	nsites++
	sites = append(sites, fset.Position(n.Pos()).String())
	id := nsites
	at := n.Pos()
	if p, ok := r.labelled[n]; ok {
		at = p
	}
	cases, def := 0, false
	pre := ""
	for _, cl := range n.Body.List {
		c := cl.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			r.ins(c.Colon+1, fmt.Sprintf(" if zzs%d.Next() { goto zzl%d }; ", id, id))
			continue
		}
		var ch ast.Expr
		kind := "R"
		switch s := c.Comm.(type) {
		case *ast.SendStmt:
			ch, kind = s.Chan, "S"
		case *ast.ExprStmt:
			ch = ast.Unparen(s.X).(*ast.UnaryExpr).X
		case *ast.AssignStmt:
			ch = ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr).X
		}
		pre += fmt.Sprintf("zzc%d_%d := %s; ", id, cases, r.text(ch))
		if s, ok := c.Comm.(*ast.SendStmt); ok {
			if tv := r.p.info.Types[s.Value]; tv.Value == nil && !tv.IsNil() {
				pre += fmt.Sprintf("zzv%d_%d := %s; ", id, cases, r.text(s.Value))
				r.repl(s.Value.Pos(), s.Value.End(), fmt.Sprintf("zzv%d_%d", id, cases))
			}
		}
		r.repl(ch.Pos(), ch.End(), fmt.Sprintf("zzsim.Sel%s(zzs%d, %d, zzc%d_%d)", kind, id, cases, id, cases))
		cases++
	}
	pre = fmt.Sprintf("zzs%d := zzsim.NewSel(%d, %v); ", id, cases, def) + pre
	r.ins(at, pre+fmt.Sprintf("zzl%d: ", id))
	if !def {
		r.ins(n.Body.Rbrace, fmt.Sprintf("\n default: zzs%d.Next(); goto zzl%d\n", id, id))
	}
}

func (r *rewriter) apply() []byte {
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.at != b.at {
			return a.at < b.at
		}
		// What closes an expression that ends here comes before a replacement
		// of what follows it.
		ca, cb := a.at == a.end && isClosing(a.text), b.at == b.end && isClosing(b.text)
		if ca != cb && (a.at != a.end || b.at != b.end) {
			return ca
		}
		return a.seq < b.seq
	})
	// Suffix insertions at one place close in the reverse order of opening.
	for i := 0; i < len(r.edits); {
		j := i
		for j < len(r.edits) && r.edits[j].at == r.edits[i].at && r.edits[j].end == r.edits[j].at {
			j++
		}
		if j > i+1 {
			var closing, opening []edit
			for _, e := range r.edits[i:j] {
				if isClosing(e.text) {
					closing = append(closing, e)
				} else {
					opening = append(opening, e)
				}
			}
			for a, b := 0, len(closing)-1; a < b; a, b = a+1, b-1 {
				closing[a], closing[b] = closing[b], closing[a]
			}
			copy(r.edits[i:], append(closing, opening...))
		}
		if j == i {
			j++
		}
		i = j
	}
	return r.render(0, len(r.src))
}

// render is the rewritten text of a part of the file; a replacement wins over
// edits inside what it replaces.
func (r *rewriter) render(from, to int) []byte {
	var o []byte
	pos := from
	for _, e := range r.edits {
		if e.at < pos || e.end > to || (e.at == from && from > 0 && e.end == e.at && isClosing(e.text)) || (e.at == to && to < len(r.src) && e.end == e.at && !isClosing(e.text)) {
			continue
		}
		o = append(o, r.src[pos:e.at]...)
		o = append(o, e.text...)
		pos = e.end
	}
	return append(o, r.src[pos:to]...)
}

func isClosing(s string) bool {
	return strings.HasPrefix(s, ")") || strings.HasPrefix(s, ", ") || strings.HasPrefix(s, " })")
}

var swap = map[string]string{"sync": "verif/simrt/simsync", "time": "verif/simrt/simtime", "maps": "verif/simrt/simmaps"}

func (p *pkg) write(rel string) {
	dir := filepath.Join(*out, rel)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	var rs []*rewriter
	var inits []string
	for fi, f := range p.asts {
		src, err := os.ReadFile(p.files[fi])
		if err != nil {
			die("%v", err)
		}
		r := &rewriter{p: p, src: src, base: int(fset.File(f.Pos()).Base()), cut: map[ast.Node]bool{}, labelled: map[*ast.SelectStmt]token.Pos{}}
		r.ins(f.Name.End(), "; import zzsim \"verif/simrt\"")
		for _, im := range f.Imports {
			path := strings.Trim(im.Path.Value, "\"`")
			if to, ok := swap[path]; ok {
				r.repl(im.Path.Pos(), im.Path.End(), "\""+to+"\"")
			}
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				if fd.Recv == nil && fd.Name.Name == "init" {
					name := fmt.Sprintf("zzinit%d", len(inits)+1)
					inits = append(inits, name+"()")
					r.repl(fd.Name.Pos(), fd.Name.End(), name)
				}
				ast.Inspect(fd, r.visit)
			} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				ast.Inspect(gd, r.visit)
			}
		}
		rs = append(rs, r)
	}
	text := make([][]byte, len(rs))
	for i, r := range rs {
		text[i] = r.apply()
	}
	// Code that gives the variables their initial values again.
	resets := map[int][]string{}
	varFile := map[types.Object]int{}
	varCode := map[types.Object]string{}
	var calls []string
	n := 0
	add := func(fi int, code string) {
		n++
		name := fmt.Sprintf("zzreset%d", n)
		resets[fi] = append(resets[fi], fmt.Sprintf("func %s() { %s }", name, code))
		calls = append(calls, name+"()")
	}
	for fi, f := range p.asts {
		r := rs[fi]
		code := func(e ast.Expr) string { return string(r.render(r.off(e.Pos()), r.off(e.End()))) }
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				if len(v.Values) == 0 {
					for _, n := range v.Names {
						if n.Name != "_" {
							add(fi, fmt.Sprintf("%s = *new(%s)", n.Name, r.text(v.Type)))
						}
					}
					continue
				}
				if len(v.Values) == len(v.Names) {
					for i, n := range v.Names {
						if n.Name == "_" {
							continue
						}
						o := p.info.Defs[n]
						varFile[o] = fi
						varCode[o] = n.Name + " = " + code(v.Values[i])
					}
					continue
				}
				var names []string
				for _, n := range v.Names {
					names = append(names, n.Name)
				}
				for _, n := range v.Names {
					if n.Name == "_" {
						continue
					}
					o := p.info.Defs[n]
					varFile[o] = fi
					varCode[o] = strings.Join(names, ", ") + " = " + code(v.Values[0])
				}
			}
		}
	}
	for _, in := range p.info.InitOrder {
		for _, l := range in.Lhs {
			if c, ok := varCode[l]; ok {
				add(varFile[l], c)
				break
			}
		}
	}
	calls = append(calls, inits...)
	for fi := range p.asts {
		o := append(text[fi], "\nvar _ = zzsim.Y\n"...)
		for _, c := range resets[fi] {
			o = append(o, c+"\n"...)
		}
		if err := os.WriteFile(filepath.Join(dir, filepath.Base(p.files[fi])), o, 0o644); err != nil {
			die("%v", err)
		}
	}
	if len(calls) > 0 {
		code := fmt.Sprintf("package %s\n\nimport \"verif/simrt\"\n\nfunc init() {\n\t%s\n\tsimrt.OnReset(func() {\n\t\t%s\n\t})\n}\n", p.types.Name(), strings.Join(inits, "\n\t"), strings.Join(calls, "\n\t\t"))
		if err := os.WriteFile(filepath.Join(dir, "zz_reset.go"), []byte(code), 0o644); err != nil {
			die("%v", err)
		}
	}
}

func main() {
	flag.Parse()
	build.Default.CgoEnabled = false
	std = importer.ForCompiler(fset, "source", nil)
	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(mod)
	if m == nil {
		die("no module line")
	}
	module = string(m[1])
	rels := map[*pkg]string{}
	err = filepath.Walk(*repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			return nil
		}
		if path != *repo && (skipDir[fi.Name()] || strings.HasPrefix(fi.Name(), ".")) {
			return filepath.SkipDir
		}
		rel, _ := filepath.Rel(*repo, path)
		ip := module
		if rel != "." {
			ip = module + "/" + filepath.ToSlash(rel)
		}
		if p := addPkg(ip, path); p != nil {
			rels[p] = rel
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	addPkg("verif/simrt", *simrt)
	addPkg("github.com/oarkflow/xsync", filepath.Join(*stubs, "xsync"))
	addPkg("github.com/oarkflow/maps", filepath.Join(*stubs, "maps"))
	var order []*pkg
	for p := range rels {
		order = append(order, p)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].path < order[j].path })
	for _, p := range order {
		if _, err := check(p); err != nil {
			die("%v", err)
		}
	}
	for _, p := range order {
		if p.types.Name() == "main" {
			continue
		}
		p.write(rels[p])
	}
	gomod := fmt.Sprintf("module %s\n\ngo 1.24\n\nrequire (\n\tgithub.com/oarkflow/maps v0.0.0\n\tgithub.com/oarkflow/xsync v0.0.0\n\tverif/simrt v0.0.0\n)\n", module)
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), []byte(gomod), 0o644); err != nil {
		die("%v", err)
	}
	js, _ := json.Marshal(append([]string{""}, sites...))
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), js, 0o644); err != nil {
		die("%v", err)
	}
}
