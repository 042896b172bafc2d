// Command instrument copies the library packages of a module into a build
// directory and puts the simulator's seams into the copy: a scheduling point
// before every statement, and calls of verifsim/rt instead of go statements,
// channel operations, select, iteration over maps, and the packages sync and
// time.  The original is only read.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	DepOnly    bool
	Imports    []string
}

type edit struct {
	at, end int    // bytes replaced
	text    string // replacement
	ord     int    // order among edits at the same place
	seq     int
}

type inst struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	src   []byte
	file  *ast.File
	tf    *token.File
	edits []edit
	seq   int
	sites *[]string
	rel   string
	name  map[string]string // import path -> name in this file
	tail  string
	err   error
}

func main() {
	repo := flag.String("repo", "/repo", "module to copy")
	out := flag.String("out", "", "directory to write")
	rt := flag.String("rt", "", "directory of module verifsim")
	skip := flag.String("skip", "etc", "comma separated package directories to leave out")
	flag.Parse()
	if err := run(*repo, *out, *rt, strings.Split(*skip, ",")); err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}

func run(repo, out, rt string, skip []string) error {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,DepOnly,Imports", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && strings.HasPrefix(p.Dir, repo+string(filepath.Separator)) {
			rel, _ := filepath.Rel(repo, p.Dir)
			keep := true
			for _, s := range skip {
				if rel == s {
					keep = false
				}
			}
			if keep {
				pkgs = append(pkgs, p)
			}
		}
	}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	modPath := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(l, "module ") {
			modPath = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	if err := os.RemoveAll(out); err != nil {
		return err
	}
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	gomod := "module " + modPath + "\n\ngo 1.21\n\nrequire verifsim v0.0.0\n\nreplace verifsim => " + rt + "\n"
	if err := os.WriteFile(filepath.Join(out, "go.mod"), []byte(gomod), 0o644); err != nil {
		return err
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	sites := []string{"harness"}
	for _, p := range pkgs { // in dependency order
		rel, _ := filepath.Rel(repo, p.Dir)
		dir := filepath.Join(out, rel)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return err
		}
		var files []*ast.File
		var srcs [][]byte
		for _, g := range p.GoFiles {
			src, err := os.ReadFile(filepath.Join(p.Dir, g))
			if err != nil {
				return err
			}
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, g), src, parser.ParseComments)
			if err != nil {
				return err
			}
			files = append(files, f)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.21", Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			return fmt.Errorf("type check %s: %v", p.ImportPath, err)
		}
		var ins []*inst
		for i, f := range files {
			in := &inst{fset: fset, info: info, pkg: tp, src: srcs[i], file: f, tf: fset.File(f.Pos()), sites: &sites, rel: filepath.Join(rel, p.GoFiles[i]), name: map[string]string{}}
			if err := in.do(); err != nil {
				return fmt.Errorf("%s: %v", in.rel, err)
			}
			ins = append(ins, in)
		}
		resets(p.Name, ins, info)
		for i, in := range ins {
			res, err := in.apply()
			if err != nil {
				return fmt.Errorf("%s: %v", in.rel, err)
			}
			if err := os.WriteFile(filepath.Join(dir, p.GoFiles[i]), res, 0o644); err != nil {
				return err
			}
		}
	}
	if len(sites) >= 1<<16 {
		return fmt.Errorf("too many scheduling points: %d", len(sites))
	}
	b, _ := json.Marshal(sites)
	return os.WriteFile(filepath.Join(out, "sites.json"), b, 0o644)
}

func (in *inst) off(p token.Pos) int { return in.tf.Offset(p) }

func (in *inst) rep(at, end token.Pos, text string) { in.add(in.off(at), in.off(end), text, 0) }

// open inserts text before the node which starts at p; outer nodes come first.
func (in *inst) open(p token.Pos, text string) { in.add(in.off(p), in.off(p), text, 0) }

// shut inserts text after the node which ends at p; outer nodes come last.
func (in *inst) shut(p token.Pos, text string) { in.add(in.off(p), in.off(p), text, 1) }

func (in *inst) add(at, end int, text string, ord int) {
	in.seq++
	in.edits = append(in.edits, edit{at, end, text, ord, in.seq})
}

func (in *inst) fail(n ast.Node, f string, a ...interface{}) {
	if in.err == nil {
		in.err = fmt.Errorf("%v: unsupported: %s", in.fset.Position(n.Pos()), fmt.Sprintf(f, a...))
	}
}

func (in *inst) site(p token.Pos) string {
	*in.sites = append(*in.sites, fmt.Sprintf("%s:%d", in.rel, in.fset.Position(p).Line))
	return fmt.Sprintf("simrt.Y(%d); ", len(*in.sites)-1)
}

func (in *inst) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

// typ writes a type so that it can stand in this file; "" if it cannot.
func (in *inst) typ(t types.Type) string {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == in.pkg {
			return ""
		}
		if n, has := in.name[p.Path()]; has {
			return n
		}
		ok = false
		return p.Name()
	})
	if !ok {
		return ""
	}
	return s
}

func (in *inst) inst(t types.Type) string {
	if s := in.typ(t); s != "" {
		return "[" + s + "]"
	}
	return ""
}

func (in *inst) chanOf(e ast.Expr) *types.Chan {
	tv, ok := in.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	c, _ := tv.Type.Underlying().(*types.Chan)
	return c
}

func (in *inst) builtin(c *ast.CallExpr) string {
	f := ast.Unparen(c.Fun)
	id, ok := f.(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := in.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (in *inst) do() error {
	for _, s := range in.file.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		name := ""
		if s.Name != nil {
			name = s.Name.Name
		} else {
			for _, p := range in.pkg.Imports() {
				if p.Path() == path {
					name = p.Name()
				}
			}
		}
		if name == "." {
			in.name[path] = ""
		} else if name != "" && name != "_" {
			in.name[path] = name
		}
		switch path {
		case "sync":
			in.rep(s.Path.Pos(), s.Path.End(), `"verifsim/rt/simsync"`)
		case "time":
			in.rep(s.Path.Pos(), s.Path.End(), `"verifsim/rt/simtime"`)
		case "math/rand":
			in.rep(s.Path.Pos(), s.Path.End(), `"verifsim/rt/simrand"`)
		case "math/rand/v2":
			in.rep(s.Path.Pos(), s.Path.End(), `"verifsim/rt/simrandv2"`)
		case "context":
			in.rep(s.Path.Pos(), s.Path.End(), `"verifsim/rt/simcontext"`)
		case "C":
			in.fail(s, "import of %s", path)
		}
	}
	in.open(in.file.Name.End(), `; import simrt "verifsim/rt"`)
	in.tail += "\n\nvar _ = simrt.Y\n"
	for _, d := range in.file.Decls {
		in.node(d)
	}
	return in.err
}

func (in *inst) apply() ([]byte, error) {
	b, err := in.render(0, len(in.src))
	if err != nil {
		return nil, err
	}
	return append(b, in.tail...), nil
}

// render gives the instrumented text of a part of the file.
func (in *inst) render(from, to int) ([]byte, error) {
	var es []edit
	for _, e := range in.edits {
		if e.at >= from && e.end <= to {
			es = append(es, e)
		}
	}
	// At one offset: closings (inner first; they are registered after those
	// within), then openings and replacements (outer first).
	sort.SliceStable(es, func(a, b int) bool {
		x, y := es[a], es[b]
		if x.at != y.at {
			return x.at < y.at
		}
		if x.ord != y.ord {
			return x.ord > y.ord
		}
		return x.seq < y.seq
	})
	var b bytes.Buffer
	pos := from
	for _, e := range es {
		if e.at < pos {
			return nil, fmt.Errorf("overlapping edits at byte %d", e.at)
		}
		b.Write(in.src[pos:e.at])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(in.src[pos:to])
	return b.Bytes(), nil
}

// resets adds functions which initialise the variables of the package anew,
// so that no run sees what an earlier one left behind.
func resets(pkg string, ins []*inst, info *types.Info) {
	if len(ins) == 0 {
		return
	}
	of := func(p token.Pos) *inst {
		for _, in := range ins {
			if in.tf.Base() <= int(p) && int(p) <= in.tf.Base()+in.tf.Size() {
				return in
			}
		}
		return nil
	}
	var calls []string
	k := 0
	fun := func(in *inst, body string) {
		k++
		f := fmt.Sprintf("simReset%d", k)
		in.tail += fmt.Sprintf("\nfunc %s() { %s }\n", f, body)
		calls = append(calls, f+"()")
	}
	inited := map[types.Object]bool{}
	for _, x := range info.InitOrder {
		for _, v := range x.Lhs {
			inited[v] = true
		}
	}
	for _, in := range ins {
		for _, d := range in.file.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if vs.Type == nil || len(vs.Values) > 0 {
					continue
				}
				t, err := in.render(in.off(vs.Type.Pos()), in.off(vs.Type.End()))
				if err != nil {
					in.err = err
					continue
				}
				for _, n := range vs.Names {
					if n.Name != "_" && !inited[info.Defs[n]] {
						fun(in, fmt.Sprintf("%s = *new(%s)", n.Name, t))
					}
				}
			}
		}
	}
	for _, x := range info.InitOrder {
		in := of(x.Rhs.Pos())
		if in == nil {
			continue
		}
		var l []string
		for _, v := range x.Lhs {
			l = append(l, v.Name())
		}
		t, err := in.render(in.off(x.Rhs.Pos()), in.off(x.Rhs.End()))
		if err != nil {
			in.err = err
			continue
		}
		fun(in, strings.Join(l, ", ")+" = "+string(t))
	}
	for _, in := range ins {
		for _, d := range in.file.Decls {
			if f, ok := d.(*ast.FuncDecl); ok && f.Recv == nil && f.Name.Name == "init" {
				k++
				n := fmt.Sprintf("simInit%d", k)
				in.rep(f.Name.Pos(), f.Name.End(), n)
				in.tail += fmt.Sprintf("\nfunc init() { %s() }\n", n)
				calls = append(calls, n+"()")
			}
		}
	}
	if len(calls) > 0 {
		ins[0].tail += "\nfunc init() { simrt.OnStart(func() { " + strings.Join(calls, "; ") + " }) }\n"
	}
}

func (in *inst) list(ss []ast.Stmt) {
	for _, s := range ss {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
		default:
			in.open(s.Pos(), in.site(s.Pos()))
		}
		in.node(s)
	}
}

func (in *inst) body(b *ast.BlockStmt, loop bool) {
	if b == nil {
		return
	}
	if loop {
		in.open(b.Lbrace+1, " "+in.site(b.Lbrace))
	}
	in.list(b.List)
}

// node registers the edits for n and everything below it.
func (in *inst) node(n ast.Node) {
	if n == nil || in.err != nil {
		return
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil || in.err != nil {
			return false
		}
		return in.visit(x)
	})
}

// visit handles x and says whether its children are to be visited as usual.
func (in *inst) visit(x ast.Node) bool {
	switch s := x.(type) {
	case *ast.BlockStmt:
		in.list(s.List)
		return false
	case *ast.CaseClause:
		for _, e := range s.List {
			in.node(e)
		}
		in.list(s.Body)
		return false
	case *ast.ForStmt:
		if s.Init != nil {
			in.node(s.Init)
		}
		if s.Cond != nil {
			in.node(s.Cond)
		}
		if s.Post != nil {
			in.node(s.Post)
		}
		in.body(s.Body, true)
		return false
	case *ast.RangeStmt:
		in.rng(s)
		return false
	case *ast.GoStmt:
		in.goStmt(s)
		return false
	case *ast.SelectStmt:
		in.sel(s)
		return false
	case *ast.SendStmt:
		c := in.chanOf(s.Chan)
		if c == nil {
			in.fail(s, "send")
			return false
		}
		in.open(s.Pos(), "simrt.Send"+in.inst(c.Elem())+"(")
		in.rep(s.Arrow, s.Arrow+2, ",")
		in.node(s.Chan)
		in.node(s.Value)
		in.shut(s.End(), ")")
		return false
	case *ast.UnaryExpr:
		if s.Op == token.ARROW {
			in.recv(s)
			return false
		}
	case *ast.CallExpr:
		return in.call(s)
	case *ast.SelectorExpr:
		if id, ok := s.X.(*ast.Ident); ok {
			if pn, ok := in.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "runtime" && simRuntime[s.Sel.Name] {
				in.rep(s.Pos(), s.End(), "simrt."+s.Sel.Name)
				in.tail += "\nvar _ = " + id.Name + ".Gosched\n"
				return false
			}
		}
	}
	return true
}

var simRuntime = map[string]bool{"Gosched": true, "SetFinalizer": true}

func (in *inst) recv(s *ast.UnaryExpr) {
	c := in.chanOf(s.X)
	if c == nil {
		in.fail(s, "receive")
		return
	}
	f := "simrt.Recv"
	if _, ok := in.info.Types[s].Type.(*types.Tuple); ok {
		f = "simrt.Recv2"
	}
	in.rep(s.OpPos, s.OpPos+2, f+in.inst(c.Elem())+"(")
	in.node(s.X)
	in.shut(s.End(), ")")
}

func (in *inst) call(s *ast.CallExpr) bool {
	switch in.builtin(s) {
	case "make":
		t := in.info.Types[s.Args[0]].Type
		c, ok := t.Underlying().(*types.Chan)
		if !ok {
			return true
		}
		full, elem := in.typ(t), in.typ(c.Elem())
		if full == "" || elem == "" {
			in.fail(s, "channel type %v", t)
			return false
		}
		head := "(" + full + ")(simrt.MakeChan[" + elem + "]("
		if len(s.Args) == 1 {
			in.rep(s.Pos(), s.End(), head+"0))")
			return false
		}
		in.rep(s.Pos(), s.Args[1].Pos(), head+"int(")
		in.node(s.Args[1])
		in.rep(s.Args[1].End(), s.End(), ")))")
		return false
	case "close":
		in.rep(s.Fun.Pos(), s.Fun.End(), "simrt.Close")
		for _, a := range s.Args {
			in.node(a)
		}
		return false
	case "len":
		if c := in.chanOf(s.Args[0]); c != nil {
			if c.Dir() == types.SendOnly {
				in.fail(s, "len of a send-only channel")
				return false
			}
			in.rep(s.Fun.Pos(), s.Fun.End(), "simrt.Len")
		}
	}
	return true
}

func (in *inst) rng(s *ast.RangeStmt) {
	t := in.info.Types[s.X].Type
	if t == nil {
		in.fail(s, "range")
		return
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	switch u := t.Underlying().(type) {
	case *types.Chan:
		T := in.inst(u.Elem())
		v, assign := "_", ""
		if !blank(s.Key) {
			if s.Tok == token.DEFINE {
				v = in.text(s.Key)
			} else {
				v = "simx"
				assign = " " + in.text(s.Key) + " = simx; "
			}
		}
		in.rep(s.For, s.X.Pos(), "for "+v+", simok, simc := simrt.RangeInit"+T+"(")
		in.node(s.X)
		in.shut(s.X.End(), "); simok; "+v+", simok = simrt.Recv2"+T+"(simc)")
		if assign != "" {
			in.open(s.Body.Lbrace+1, assign)
		}
		in.body(s.Body, true)
	case *types.Map:
		k, v := "_", "_"
		if !blank(s.Key) {
			k = in.text(s.Key)
		}
		if !blank(s.Value) {
			v = in.text(s.Value)
		}
		in.rep(s.For, s.X.Pos(), "for _, sime := range simrt.MapEntries(")
		in.node(s.X)
		in.shut(s.X.End(), ")")
		if s.Tok == token.DEFINE {
			in.open(s.Body.Lbrace+1, " "+k+", "+v+", simo := sime.Get(); if !simo { continue }; ")
		} else {
			in.open(s.Body.Lbrace+1, " var simo bool; "+k+", "+v+", simo = sime.Get(); if !simo { continue }; ")
		}
		in.body(s.Body, true)
	default:
		if s.Key != nil {
			in.node(s.Key)
		}
		if s.Value != nil {
			in.node(s.Value)
		}
		in.node(s.X)
		in.body(s.Body, true)
	}
}

func (in *inst) goStmt(s *ast.GoStmt) {
	c := s.Call
	if lit, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		if lit.Type.Results == nil || len(lit.Type.Results.List) == 0 {
			in.rep(s.Go, c.Fun.Pos(), "simrt.Go(")
			in.node(c.Fun)
			in.rep(c.Fun.End(), c.End(), ")")
			return
		}
	}
	if b := in.builtin(c); b != "" {
		if len(c.Args) != 1 || (b != "close" && b != "panic") {
			in.fail(s, "go %s", b)
			return
		}
		in.rep(s.Go, c.Args[0].Pos(), "{ simg0 := ")
		in.node(c.Args[0])
		f := "panic"
		if b == "close" {
			f = "simrt.Close"
		}
		in.rep(c.Args[0].End(), c.End(), "; simrt.Go(func() { "+f+"(simg0) }) }")
		return
	}
	sig, ok := in.info.Types[c.Fun].Type.Underlying().(*types.Signature)
	if !ok {
		in.fail(s, "go of a conversion")
		return
	}
	if len(c.Args) == 1 {
		if _, tup := in.info.Types[c.Args[0]].Type.(*types.Tuple); tup {
			in.fail(s, "go f(g()) with several values")
			return
		}
	}
	head, params := "{ simgf", ""
	for i := range c.Args {
		head += fmt.Sprintf(", simg%d", i)
		if i > 0 {
			params += ", "
		}
		params += fmt.Sprintf("simg%d", i)
	}
	if c.Ellipsis.IsValid() {
		params += "..."
	}
	in.rep(s.Go, c.Fun.Pos(), head+" := ")
	in.node(c.Fun)
	prev := c.Fun.End()
	for i, a := range c.Args {
		var pt types.Type
		np := sig.Params().Len()
		if sig.Variadic() && i >= np-1 {
			pt = sig.Params().At(np - 1).Type()
			if !c.Ellipsis.IsValid() {
				pt = pt.(*types.Slice).Elem()
			}
		} else {
			pt = sig.Params().At(i).Type()
		}
		open, shut := "", ""
		tv := in.info.Types[a]
		if tv.IsNil() || tv.Value != nil {
			T := in.typ(pt)
			if T == "" {
				in.fail(s, "parameter type %v", pt)
				return
			}
			open, shut = "("+T+")(", ")"
		}
		in.rep(prev, a.Pos(), ", "+open)
		in.node(a)
		if shut != "" {
			in.shut(a.End(), shut)
		}
		prev = a.End()
	}
	in.rep(prev, c.End(), "; simrt.Go(func() { simgf("+params+") }) }")
}

func (in *inst) sel(s *ast.SelectStmt) {
	def := false
	// The channel and value expressions are evaluated in the head.
	args := ""
	type commCase struct {
		head string
	}
	var cases []commCase
	i := 0
	plain := func(e ast.Expr) string {
		n := len(in.edits)
		in.node(e)
		t, err := in.render(in.off(e.Pos()), in.off(e.End()))
		if err != nil && in.err == nil {
			in.err = err
		}
		in.edits = in.edits[:n]
		return string(t)
	}
	for _, st := range s.Body.List {
		c := st.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			cases = append(cases, commCase{"default: _, _ = simsv, simsok; "})
			continue
		}
		head := fmt.Sprintf("case %d: _, _ = simsv, simsok; ", i)
		if i++; i == len(s.Body.List) {
			// a switch has to have it to be a terminating statement
			head = "default: _, _ = simsv, simsok; "
		}
		recvOf := func(e ast.Expr) (*ast.UnaryExpr, *types.Chan) {
			u, ok := ast.Unparen(e).(*ast.UnaryExpr)
			if !ok || u.Op != token.ARROW {
				in.fail(c, "select case")
				return nil, nil
			}
			return u, in.chanOf(u.X)
		}
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			ch := in.chanOf(m.Chan)
			args += ", simrt.SendCase" + in.inst(ch.Elem()) + "(" + plain(m.Chan) + ", " + plain(m.Value) + ")"
		case *ast.ExprStmt:
			u, ch := recvOf(m.X)
			if u == nil {
				return
			}
			args += ", simrt.RecvCase" + in.inst(ch.Elem()) + "(" + plain(u.X) + ")"
		case *ast.AssignStmt:
			u, ch := recvOf(m.Rhs[0])
			if u == nil {
				return
			}
			T := in.typ(ch.Elem())
			if T == "" {
				in.fail(c, "element type %v", ch.Elem())
				return
			}
			args += ", simrt.RecvCase" + in.inst(ch.Elem()) + "(" + plain(u.X) + ")"
			head += in.text(m.Lhs[0])
			if len(m.Lhs) == 2 {
				head += ", " + in.text(m.Lhs[1])
			}
			head += " " + m.Tok.String() + " simrt.SelVal[" + T + "](simsv)"
			if len(m.Lhs) == 2 {
				head += ", simsok"
			}
			head += "; "
		}
		cases = append(cases, commCase{head})
	}
	if in.err != nil {
		return
	}
	if len(s.Body.List) == 0 {
		in.rep(s.Pos(), s.End(), "simrt.Select(false); panic(0)")
		return
	}
	in.rep(s.Select, s.Body.Lbrace, fmt.Sprintf("switch simsi, simsv, simsok := simrt.Select(%v%s); simsi ", def, args))
	for k, st := range s.Body.List {
		c := st.(*ast.CommClause)
		in.rep(c.Case, c.Colon+1, cases[k].head)
		in.list(c.Body)
	}
}
