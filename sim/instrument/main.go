// Command instrument copies the non-test Go sources of a module and rewrites the
// copy so that every source of nondeterminism goes through the simulator:
// scheduling points before every statement, go statements, channel operations,
// select, map iteration order, sizes given to make, and the packages sync,
// sync/atomic, os, io/ioutil, time, runtime and math/rand.
//
// usage: instrument [-full|-light] SRCDIR DSTDIR SIMDIR
//
// -light rewrites less, for code -full cannot handle: one scheduling point per
// block instead of per statement, map iteration and make left as they are.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var shims = map[string]string{
	"sync":        "zsim/shim/sync",
	"sync/atomic": "zsim/shim/atomic",
	"os":          "zsim/shim/os",
	"io/ioutil":   "zsim/shim/ioutil",
	"time":        "zsim/shim/time",
	"runtime":     "zsim/shim/runtime",
	"math/rand":   "zsim/shim/rand",

	"path/filepath": "zsim/shim/filepath",
}

type pkg struct {
	path, dir string
	files     []*ast.File
	names     []string
	src       [][]byte
	imports   map[string]bool
	types     *types.Package
	info      *types.Info
}

var (
	fset   = token.NewFileSet()
	module string
	nuniq  int
	npoint int
	light  bool
	stats  = map[string]int{}
	noY    = map[*ast.BlockStmt]bool{} // bodies of switch statements
)

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
}

func main() {
	for len(os.Args) > 1 && strings.HasPrefix(os.Args[1], "-") {
		light = os.Args[1] == "-light"
		os.Args = os.Args[1:]
	}
	src, dst, sim := os.Args[1], os.Args[2], os.Args[3]
	mod, err := os.ReadFile(filepath.Join(src, "go.mod"))
	fatal(err)
	gover := "1.21"
	var requires string
	for _, l := range strings.Split(string(mod), "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 && f[0] == "module" {
			module = strings.Trim(f[1], `"`)
		}
		if len(f) == 2 && f[0] == "go" && newer(f[1], gover) {
			gover = f[1]
		}
	}
	pkgs := load(src)
	check(pkgs)
	for _, p := range pkgs {
		rel, _ := filepath.Rel(src, p.dir)
		out := filepath.Join(dst, rel)
		fatal(os.MkdirAll(out, 0755))
		for i := range p.files {
			r := &rewriter{p: p, file: p.files[i], src: p.src[i]}
			fatal(os.WriteFile(filepath.Join(out, p.names[i]), r.rewrite(), 0644))
		}
		// embedded or assembly material is carried over as it is
		es, _ := os.ReadDir(p.dir)
		for _, e := range es {
			if ext := filepath.Ext(e.Name()); !e.IsDir() && (ext == ".s" || ext == ".h" || ext == ".c") {
				b, err := os.ReadFile(filepath.Join(p.dir, e.Name()))
				fatal(err)
				fatal(os.WriteFile(filepath.Join(out, e.Name()), b, 0644))
			}
		}
	}
	gm := fmt.Sprintf("module %s\n\ngo %s\n\nrequire zsim v0.0.0\nreplace zsim => %s\n%s", module, gover, sim, requires)
	fatal(os.WriteFile(filepath.Join(dst, "go.mod"), []byte(gm), 0644))
	var ks []string
	for k := range stats {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("%s=%d ", k, stats[k])
	}
	fmt.Println()
}

func newer(a, b string) bool {
	p := func(s string) int {
		f := strings.Split(s, ".")
		if len(f) < 2 {
			return 0
		}
		n, _ := strconv.Atoi(f[1])
		return n
	}
	return p(a) > p(b)
}

func load(src string) []*pkg {
	var pkgs []*pkg
	filepath.WalkDir(src, func(path string, d os.DirEntry, err error) error {
		fatal(err)
		if !d.IsDir() {
			return nil
		}
		n := d.Name()
		if path != src && (n == "testdata" || n == "vendor" || strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_")) {
			return filepath.SkipDir
		}
		if path != src {
			if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
				return filepath.SkipDir
			}
		}
		es, err := os.ReadDir(path)
		fatal(err)
		rel, _ := filepath.Rel(src, path)
		ip := module
		if rel != "." {
			ip = module + "/" + filepath.ToSlash(rel)
		}
		p := &pkg{path: ip, dir: path, imports: map[string]bool{}}
		for _, e := range es {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(path, e.Name()); err != nil || !ok {
				continue
			}
			b, err := os.ReadFile(filepath.Join(path, e.Name()))
			fatal(err)
			f, err := parser.ParseFile(fset, filepath.Join(path, e.Name()), b, parser.ParseComments)
			fatal(err)
			if f.Name.Name == "main" {
				continue
			}
			for _, i := range f.Imports {
				s, _ := strconv.Unquote(i.Path.Value)
				p.imports[s] = true
			}
			p.files = append(p.files, f)
			p.names = append(p.names, e.Name())
			p.src = append(p.src, b)
		}
		if len(p.files) > 0 {
			pkgs = append(pkgs, p)
		}
		return nil
	})
	return pkgs
}

type mixed struct {
	own map[string]*types.Package
	std types.Importer
}

func (m mixed) Import(p string) (*types.Package, error) {
	if t := m.own[p]; t != nil {
		return t, nil
	}
	return m.std.Import(p)
}

func check(pkgs []*pkg) {
	byPath := map[string]*pkg{}
	std := map[string]bool{}
	for _, p := range pkgs {
		byPath[p.path] = p
	}
	for _, p := range pkgs {
		for i := range p.imports {
			if byPath[i] == nil && i != "unsafe" && i != "C" {
				std[i] = true
			}
		}
	}
	exports := map[string]string{}
	if len(std) > 0 {
		args := []string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}
		for i := range std {
			args = append(args, i)
		}
		sort.Strings(args[5:])
		cmd := exec.Command("go", args...)
		cmd.Dir = pkgs[0].dir
		var eb bytes.Buffer
		cmd.Stderr = &eb
		out, err := cmd.Output()
		if err != nil {
			fmt.Fprintln(os.Stderr, eb.String())
		}
		for _, l := range strings.Split(string(out), "\n") {
			if f := strings.Split(l, "\t"); len(f) == 2 {
				exports[f[0]] = f[1]
			}
		}
	}
	lookup := func(p string) (io.ReadCloser, error) {
		if e := exports[p]; e != "" {
			return os.Open(e)
		}
		return nil, fmt.Errorf("no export data for %s", p)
	}
	m := mixed{map[string]*types.Package{}, importer.ForCompiler(fset, "gc", lookup)}
	var visit func(p *pkg)
	seen := map[*pkg]bool{}
	visit = func(p *pkg) {
		if seen[p] {
			return
		}
		seen[p] = true
		var is []string
		for i := range p.imports {
			is = append(is, i)
		}
		sort.Strings(is)
		for _, i := range is {
			if q := byPath[i]; q != nil {
				visit(q)
			}
		}
		p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: m, Error: func(err error) { fmt.Fprintln(os.Stderr, "instrument: type check:", err) }, Sizes: types.SizesFor("gc", "amd64")}
		t, _ := conf.Check(p.path, fset, p.files, p.info)
		p.types = t
		m.own[p.path] = t
	}
	for _, p := range pkgs {
		visit(p)
	}
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type rewriter struct {
	p    *pkg
	file *ast.File
	src  []byte
}

func (r *rewriter) off(p token.Pos) int { return fset.Position(p).Offset }

func (r *rewriter) rewrite() []byte {
	var es []edit
	for _, im := range r.file.Imports {
		s, _ := strconv.Unquote(im.Path.Value)
		if n, ok := shims[s]; ok {
			t := strconv.Quote(n)
			if im.Name == nil {
				t = filepath.Base(s) + " " + t
			}
			es = append(es, edit{pos: r.off(im.Path.Pos()), end: r.off(im.Path.End()), text: t})
			stats["import"]++
		}
	}
	es = append(es, edit{pos: r.off(r.file.Name.End()), end: r.off(r.file.Name.End()), text: "; import zrt \"zsim/rt\""})
	for _, d := range r.file.Decls {
		r.collect(d, &es)
	}
	tail := r.restart(&es)
	out := apply(r.src, 0, len(r.src), es)
	return append(out, []byte("\nvar _ = zrt.Y\n"+tail)...)
}

// restart makes the code that repeats the initialisation of the file's package
// variables, as a fresh process would, and its init functions.
func (r *rewriter) restart(es *[]edit) string {
	order := map[types.Object]int{}
	for i, in := range r.p.info.InitOrder {
		for _, v := range in.Lhs {
			order[v] = i + 1
		}
	}
	t := ""
	add := func(n int, body string) {
		t += fmt.Sprintf("\tzrt.OnRestart(%q, %d, func() { %s })\n", r.p.path, n, body)
		stats["restart"]++
	}
	embedded := func(g *ast.CommentGroup) bool {
		for g != nil && len(g.List) > 0 {
			for _, c := range g.List {
				if strings.HasPrefix(c.Text, "//go:embed") {
					return true
				}
			}
			break
		}
		return false
	}
	inits := 0
	for _, d := range r.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
				name := uniq("init")
				r.repl(es, d.Name, name)
				inits++
				add(1<<20+inits, name+"()")
				t += "\t" + name + "()\n"
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, sp := range d.Specs {
				v, ok := sp.(*ast.ValueSpec)
				if !ok || embedded(d.Doc) || embedded(v.Doc) {
					continue
				}
				var names, zeros []string
				n, named := 1<<19, false
				for _, id := range v.Names {
					names = append(names, id.Name)
					zeros = append(zeros, "z")
					if id.Name != "_" {
						named = true
					}
					if k := order[r.p.info.Defs[id]]; k > 0 && k < n {
						n = k
					}
				}
				switch {
				case !named:
				case len(v.Values) == 0:
					add(0, fmt.Sprintf("var z %s; %s = %s", r.text(v.Type), strings.Join(names, ", "), strings.Join(zeros, ", ")))
				case len(v.Values) == len(v.Names):
					for i, x := range v.Values {
						if names[i] == "_" {
							continue
						}
						n := order[r.p.info.Defs[v.Names[i]]]
						if n == 0 {
							n = 1 << 19
						}
						add(n, names[i]+" = "+r.text(x))
					}
				default:
					add(n, strings.Join(names, ", ")+" = "+r.text(v.Values[0]))
				}
			}
		}
	}
	if t == "" {
		return ""
	}
	return "\nfunc init() {\n" + t + "}\n"
}

func apply(src []byte, from, to int, es []edit) []byte {
	for i := range es {
		es[i].seq = i
	}
	sort.Slice(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		// insertions first
		a, b := es[i].pos == es[i].end, es[j].pos == es[j].end
		if a != b {
			return a
		}
		return es[i].seq < es[j].seq
	})
	var out []byte
	at := from
	for _, e := range es {
		if e.pos < at {
			panic(fmt.Sprintf("overlapping edits at %d: %q", e.pos, e.text))
		}
		out = append(out, src[at:e.pos]...)
		out = append(out, e.text...)
		at = e.end
	}
	return append(out, src[at:to]...)
}

// text renders a node with all rewrites inside it applied.
func (r *rewriter) text(n ast.Node) string {
	var es []edit
	r.collect(n, &es)
	return string(apply(r.src, r.off(n.Pos()), r.off(n.End()), es))
}

func (r *rewriter) repl(es *[]edit, n ast.Node, t string) {
	*es = append(*es, edit{pos: r.off(n.Pos()), end: r.off(n.End()), text: t})
}

func (r *rewriter) under(e ast.Expr) types.Type {
	tv, ok := r.p.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	t := tv.Type.Underlying()
	if i, ok := t.(*types.Interface); ok {
		// a type parameter: use the core type when every term has the same one
		var core types.Type
		for k := 0; k < i.NumEmbeddeds(); k++ {
			switch u := i.EmbeddedType(k).(type) {
			case *types.Union:
				for j := 0; j < u.Len(); j++ {
					core = u.Term(j).Type().Underlying()
				}
			default:
				if _, isI := u.Underlying().(*types.Interface); !isI {
					core = u.Underlying()
				}
			}
		}
		if core != nil {
			return core
		}
	}
	return t
}

func (r *rewriter) isChan(e ast.Expr) bool { _, ok := r.under(e).(*types.Chan); return ok }

func (r *rewriter) builtin(e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.p.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func arrow(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// point is a call for the next statement; 0 is no statement.
func point() string { npoint++; return fmt.Sprintf("zrt.Y(%d); ", npoint) }

func uniq(s string) string { nuniq++; return fmt.Sprintf("z%s%d", s, nuniq) }

func (r *rewriter) yields(list []ast.Stmt, es *[]edit) {
	for _, s := range list {
		if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
			continue
		}
		p := r.off(s.Pos())
		*es = append(*es, edit{pos: p, end: p, text: point()})
		stats["point"]++
		if light {
			break
		}
	}
}

func (r *rewriter) collect(root ast.Node, es *[]edit) {
	ast.Inspect(root, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			noY[n.Body] = true
		case *ast.TypeSwitchStmt:
			noY[n.Body] = true
		case *ast.BlockStmt:
			if noY[n] {
				break
			}
			r.yields(n.List, es)
			if len(n.List) == 0 {
				p := r.off(n.Lbrace) + 1
				*es = append(*es, edit{pos: p, end: p, text: " " + point()})
			}
		case *ast.CaseClause:
			r.yields(n.Body, es)
		case *ast.GoStmt:
			r.repl(es, n, r.goStmt(n))
			stats["go"]++
			return false
		case *ast.SendStmt:
			r.repl(es, n, "zrt.Send("+r.text(n.Chan)+")("+r.text(n.Value)+")")
			stats["send"]++
			return false
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := arrow(n.Rhs[0]); u != nil {
					r.collect(n.Lhs[0], es)
					r.collect(n.Lhs[1], es)
					r.repl(es, n.Rhs[0], "zrt.Recv2("+r.text(u.X)+")")
					stats["recv"]++
					return false
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := arrow(n.Values[0]); u != nil {
					r.repl(es, n.Values[0], "zrt.Recv2("+r.text(u.X)+")")
					stats["recv"]++
					return false
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				r.repl(es, n, "zrt.Recv("+r.text(n.X)+")")
				stats["recv"]++
				return false
			}
		case *ast.CallExpr:
			if t, ok := r.call(n); ok {
				r.repl(es, n, t)
				return false
			}
		case *ast.SelectStmt:
			r.repl(es, n, r.selectStmt(n))
			stats["select"]++
			return false
		case *ast.RangeStmt:
			if t, ok := r.rangeStmt(n); ok {
				r.repl(es, n, t)
				return false
			}
		}
		return true
	})
}

func (r *rewriter) goStmt(n *ast.GoStmt) string {
	c := n.Call
	if b := r.builtin(c.Fun); b != "" {
		return "zrt.Go(func() { " + r.text(c) + " })"
	}
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return "zrt.Go(" + r.text(fl) + ")"
	}
	t := "zrt.GoCall(" + r.text(c.Fun) + ", " + strconv.FormatBool(c.Ellipsis.IsValid())
	for _, a := range c.Args {
		t += ", " + r.text(a)
	}
	return t + ")"
}

func (r *rewriter) call(n *ast.CallExpr) (string, bool) {
	switch r.builtin(n.Fun) {
	case "close":
		stats["close"]++
		return "zrt.Close(" + r.text(n.Args[0]) + ")", true
	case "len":
		if len(n.Args) == 1 && r.isChan(n.Args[0]) {
			return "zrt.Len(" + r.text(n.Args[0]) + ")", true
		}
	case "make":
		if len(n.Args) == 0 {
			return "", false
		}
		ty := r.text(n.Args[0])
		var size int64 = 8
		switch t := r.under(n.Args[0]).(type) {
		case *types.Chan:
			a := "make(" + ty
			for _, x := range n.Args[1:] {
				a += ", " + r.text(x)
			}
			stats["makechan"]++
			return "(" + ty + ")(zrt.MkChan(" + a + ")))", true
		case *types.Slice:
			if light {
				return "", false
			}
			size = safeSize(t.Elem())
		case *types.Map:
			if light {
				return "", false
			}
			size = 16
		default:
			return "", false
		}
		a := "make(" + ty
		changed := false
		for _, x := range n.Args[1:] {
			tv := r.p.info.Types[x]
			if tv.Value == nil && tv.Type != nil {
				a += fmt.Sprintf(", zrt.N(%s, %d)", r.text(x), size)
				changed = true
			} else {
				a += ", " + r.text(x)
			}
		}
		if changed {
			stats["make"]++
			return a + ")", true
		}
	}
	return "", false
}

func safeSize(t types.Type) (n int64) {
	defer func() {
		if recover() != nil {
			n = 8
		}
	}()
	n = types.SizesFor("gc", "amd64").Sizeof(t)
	return n
}

func (r *rewriter) body(b *ast.BlockStmt, pre string) string {
	t := r.text(b)
	return "{ " + pre + t[1:]
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) (string, bool) {
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return r.text(e)
	}
	ref := func(s string) string {
		if s == "_" {
			return "nil"
		}
		return "&" + s
	}
	switch r.under(n.X).(type) {
	case *types.Map:
		if light {
			return "", false
		}
		stats["rangemap"]++
		it, k, v := uniq("it"), name(n.Key), name(n.Value)
		pre := ""
		if n.Tok == token.ASSIGN && (k != "_" || v != "_") {
			zk, zv := uniq("k"), uniq("v")
			pre = k + ", " + v + " = " + zk + ", " + zv + "; "
			k, v = zk, zv
		}
		return "for " + it + ", " + k + ", " + v + " := zrt.RangeMap(" + r.text(n.X) + "); " + it + ".Next(" + ref(k) + ", " + ref(v) + "); " + r.body(n.Body, pre), true
	case *types.Chan:
		stats["rangechan"]++
		it, k := uniq("it"), name(n.Key)
		pre := ""
		if n.Tok == token.ASSIGN && k != "_" {
			zk := uniq("k")
			pre = k + " = " + zk + "; "
			k = zk
		}
		return "for " + it + ", " + k + " := zrt.RangeChan(" + r.text(n.X) + "); " + it + ".Next(" + ref(k) + "); " + r.body(n.Body, pre), true
	}
	return "", false
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) string {
	var vars, inits []string
	var body strings.Builder
	def := false
	if len(n.Body.List) == 0 {
		return "for { zrt.BlockForever() }"
	}
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			def = true
		}
	}
	idx := 0
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		var es []edit
		r.yields(c.Body, &es)
		stmts := ""
		if len(c.Body) > 0 {
			for _, b := range c.Body {
				r.collect(b, &es)
			}
			stmts = string(apply(r.src, r.off(c.Body[0].Pos()), r.off(c.Body[len(c.Body)-1].End()), es))
		}
		if c.Comm == nil {
			body.WriteString("\ndefault: " + stmts)
			continue
		}
		v := uniq("c")
		vars = append(vars, v)
		pre := ""
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, "zrt.SendCase("+r.text(m.Chan)+")("+r.text(m.Value)+")")
		case *ast.ExprStmt:
			inits = append(inits, "zrt.RecvCase("+r.text(arrow(m.X).X)+")")
		case *ast.AssignStmt:
			inits = append(inits, "zrt.RecvCase("+r.text(arrow(m.Rhs[0]).X)+")")
			if len(m.Lhs) == 2 {
				pre = r.text(m.Lhs[0]) + ", " + r.text(m.Lhs[1]) + " " + m.Tok.String() + " " + v + ".Val2(); "
			} else {
				pre = r.text(m.Lhs[0]) + " " + m.Tok.String() + " " + v + ".Val(); "
			}
		}
		fmt.Fprintf(&body, "\ncase %d: %s%s", idx, pre, stmts)
		idx++
	}
	if !def {
		body.WriteString("\ndefault: panic(\"unreachable\")")
	}
	head := "switch "
	if len(vars) > 0 {
		head += strings.Join(vars, ", ") + " := " + strings.Join(inits, ", ") + "; "
	}
	args := strconv.FormatBool(def)
	if len(vars) > 0 {
		args += ", " + strings.Join(vars, ", ")
	}
	return head + "zrt.Select(" + args + ") {" + body.String() + "\n}"
}
