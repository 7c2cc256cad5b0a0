// Command instr prepares an instrumented build of the repository.
//
// It reads the current source of every package of the repository, inserts
// preemption points, puts locks, goroutines, map iteration order, file access
// and process exit behind the simulator's seams and writes the result together
// with an overlay file for go build. The repository itself is not modified.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	ImportMap  map[string]string
	Module     *struct{ Path, GoVersion string }
	Standard   bool
}

type edit struct {
	off, end int
	text     string
	seq      int
}

const modPath = "terorie.dev/nimiq"

func main() {
	if len(os.Args) != 4 {
		fmt.Fprintln(os.Stderr, "usage: instr <module dir> <out dir> full|nofs|none")
		os.Exit(2)
	}
	if err := run(os.Args[1], os.Args[2], os.Args[3]); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func run(modDir, out, mode string) error {
	args := []string{"list", "-json=ImportPath,Name,Dir,Export,GoFiles,ImportMap,Module,Standard", "-deps"}
	if mode != "none" {
		args = append(args, "-export")
	}
	args = append(args, modPath+"/...")
	cmd := exec.Command("go", args...)
	cmd.Dir = modDir
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	raw, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %w\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	var pkgs []*pkg
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == modPath {
			pkgs = append(pkgs, p)
		}
	}
	overlay := struct{ Replace map[string]string }{map[string]string{}}
	report := map[string]int{}
	for i, p := range pkgs {
		if err := instrument(p, exports, mode, out, i, overlay.Replace, report); err != nil {
			return fmt.Errorf("%s: %w", p.ImportPath, err)
		}
	}
	js, _ := json.MarshalIndent(overlay, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644); err != nil {
		return err
	}
	report["packages"] = len(pkgs)
	js, _ = json.Marshal(report)
	return os.WriteFile(filepath.Join(out, "instr.json"), js, 0o644)
}

// initialiser is a package-level initialisation to be repeated before every run.
type initialiser struct {
	name, lhs string
	from, to  token.Pos
}

type inst struct {
	p       *pkg
	fset    *token.FileSet
	info    *types.Info
	tpkg    *types.Package
	src     []byte
	base    int
	edits   []edit
	yields  bool
	fs      bool
	report  map[string]int
	tmp     int
	osUsed  string // the name under which the file imports os, if calls were redirected
	logged  string
	readers string
	addFlg  bool
}

func instrument(p *pkg, exports map[string]string, mode, out string, idx int, overlay map[string]string, report map[string]int) error {
	isMain := p.Name == "main"
	if mode == "none" && !isMain {
		return nil
	}
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, f)
		srcs = append(srcs, src)
	}
	in := &inst{p: p, fset: fset, report: report, yields: mode != "none", fs: mode == "full"}
	in.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	if mode != "none" {
		lookup := func(path string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[path]; ok {
				path = m
			}
			e, ok := exports[path]
			if !ok || e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup)}
		var err error
		in.tpkg, err = conf.Check(p.ImportPath, fset, files, in.info)
		if err != nil {
			return err
		}
	}
	// Which file does each package-level initialiser live in?
	resetCalls := []string{}
	perFile := make([]strings.Builder, len(files))
	inits := make([][]initialiser, len(files))
	if mode != "none" {
		fileOf := func(pos token.Pos) int {
			for i, f := range files {
				if f.FileStart <= pos && pos < f.FileEnd {
					return i
				}
			}
			return -1
		}
		inited := map[types.Object]bool{}
		embeds := map[types.Object]bool{}
		for fi, f := range files {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					if hasEmbed(gd.Doc) || hasEmbed(vs.Doc) {
						for _, n := range vs.Names {
							embeds[in.info.Defs[n]] = true
						}
					}
					if len(vs.Values) > 0 {
						for _, n := range vs.Names {
							inited[in.info.Defs[n]] = true
						}
					}
				}
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					for _, n := range vs.Names {
						o := in.info.Defs[n]
						if n.Name == "_" || embeds[o] || inited[o] {
							continue
						}
						fmt.Fprintf(&perFile[fi], "\nfunc simZero_%s() { simrt.Zero(&%s) }\n", n.Name, n.Name)
						resetCalls = append(resetCalls, "simZero_"+n.Name+"()")
					}
				}
			}
		}
		for k, init := range initOrder(in, files, p, exports) {
			fi := fileOf(init.Rhs.Pos())
			if fi < 0 {
				continue
			}
			var lhs []string
			blank := true
			for _, v := range init.Lhs {
				lhs = append(lhs, v.Name())
				if v.Name() != "_" {
					blank = false
				}
			}
			if blank {
				continue
			}
			inits[fi] = append(inits[fi], initialiser{fmt.Sprintf("simInit_%d", k), strings.Join(lhs, ", "), init.Rhs.Pos(), init.Rhs.End()})
			resetCalls = append(resetCalls, fmt.Sprintf("simInit_%d()", k))
		}
	}
	ninit := 0
	dir := p.Dir
	if isMain {
		dir = filepath.Join(rootDir(p), "zz_sim_"+filepath.Base(p.Dir))
	}
	for fi, f := range files {
		in.src = srcs[fi]
		in.base = int(f.FileStart)
		in.edits = nil
		in.osUsed, in.logged, in.readers = "", "", ""
		if isMain {
			in.ins(f.Name.Pos(), f.Name.End(), "simmain")
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Body == nil {
				continue
			}
			if isMain && fd.Name.Name == "main" {
				in.ins(fd.Name.Pos(), fd.Name.End(), "Main")
			}
			if fd.Name.Name == "init" && mode != "none" {
				n := fmt.Sprintf("simInitFunc_%d", ninit)
				ninit++
				in.ins(fd.Name.Pos(), fd.Name.End(), n)
				fmt.Fprintf(&perFile[fi], "\nfunc init() { %s() }\n", n)
				resetCalls = append(resetCalls, n+"()")
			}
		}
		if mode != "none" {
			in.file(f)
		}
		if in.yields {
			// Import the runtime next to the package clause.
			in.ins(f.Name.End(), f.Name.End(), "; import simrt \"nimsim/simrt\"; import simos \"nimsim/simos\"")
			perFile[fi].WriteString("\nvar _ = simrt.Y\nvar _ = simos.Exit\n")
			// Redirected calls may have been the only use of an import.
			if in.osUsed != "" {
				perFile[fi].WriteString("\nvar _ = " + in.osUsed + ".Args\n")
			}
			if in.logged != "" {
				perFile[fi].WriteString("\nvar _ = " + in.logged + ".Println\n")
			}
			if in.readers != "" {
				perFile[fi].WriteString("\nvar _ = " + in.readers + ".ReadAll\n")
			}
		}
		for _, i := range inits[fi] {
			fmt.Fprintf(&perFile[fi], "\nfunc %s() { %s = %s }\n", i.name, i.lhs, in.apply(in.off(i.from), in.off(i.to)))
		}
		text := in.apply(0, len(in.src))
		if in.yields {
			text = fixBuildLine(text)
		}
		text += perFile[fi].String()
		dst := filepath.Join(out, fmt.Sprintf("p%d_%d.go", idx, fi))
		if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(dir, filepath.Base(p.GoFiles[fi]))] = dst
		report["files"]++
	}
	if mode != "none" {
		pn := p.Name
		if isMain {
			pn = "simmain"
		}
		text := fmt.Sprintf("//go:build go1.18\n\npackage %s\n\nimport simrt \"nimsim/simrt\"\n\nfunc init() {\n\tsimrt.OnReset(func() {\n\t\t%s\n\t})\n}\n",
			pn, strings.Join(resetCalls, "\n\t\t"))
		dst := filepath.Join(out, fmt.Sprintf("p%d_reset.go", idx))
		if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(dir, "zz_sim_reset.go")] = dst
	}
	return nil
}

// initOrder type-checks once more to obtain the initialisation order.
func initOrder(in *inst, files []*ast.File, p *pkg, exports map[string]string) []*types.Initializer {
	return in.info.InitOrder
}

func rootDir(p *pkg) string {
	rel := strings.TrimPrefix(p.ImportPath, modPath)
	return strings.TrimSuffix(p.Dir, rel)
}

func hasEmbed(g *ast.CommentGroup) bool {
	if g == nil {
		return false
	}
	for _, c := range g.List {
		if strings.HasPrefix(c.Text, "//go:embed") {
			return true
		}
	}
	return false
}

// fixBuildLine raises the language version of the file so that it may call generic functions.
func fixBuildLine(text string) string {
	lines := strings.SplitN(text, "\n", 200)
	for i, l := range lines {
		if strings.HasPrefix(l, "//go:build ") {
			lines[i] = "//go:build (" + strings.TrimPrefix(l, "//go:build ") + ") && go1.18"
			return strings.Join(lines, "\n")
		}
		if strings.HasPrefix(l, "package ") {
			break
		}
	}
	return "//go:build go1.18\n\n" + text
}

func (in *inst) off(p token.Pos) int { return int(p) - in.base }

func (in *inst) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

func (in *inst) ins(from, to token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(from), in.off(to), text, len(in.edits)})
}

// apply renders a range of the source with the edits inside of it.
func (in *inst) apply(from, to int) string {
	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].off != in.edits[j].off {
			return in.edits[i].off < in.edits[j].off
		}
		// Insertions in front of replacements.
		if (in.edits[i].end == in.edits[i].off) != (in.edits[j].end == in.edits[j].off) {
			return in.edits[i].end == in.edits[i].off
		}
		return in.edits[i].seq < in.edits[j].seq
	})
	var b strings.Builder
	pos := from
	for _, e := range in.edits {
		if e.off < pos || e.end > to {
			continue // outside or inside of a replaced range
		}
		b.Write(in.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(in.src[pos:to])
	return b.String()
}

func (in *inst) file(f *ast.File) {
	for _, imp := range f.Imports {
		if imp.Path.Value == `"sync"` {
			if imp.Name == nil {
				in.ins(imp.Pos(), imp.End(), `sync "nimsim/simsync"`)
			} else {
				in.ins(imp.Path.Pos(), imp.Path.End(), `"nimsim/simsync"`)
			}
			in.report["sync_imports"]++
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			in.list(n.List)
		case *ast.CaseClause:
			in.list(n.Body)
		case *ast.CommClause:
			if n.Comm != nil && in.yields && len(n.Body) > 0 {
				in.ins(n.Body[0].Pos(), n.Body[0].Pos(), "simrt.Y(); ")
			}
			in.list(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				in.ins(n.Body.Lbrace+1, n.Body.Lbrace+1, " simrt.Y() ")
			}
		case *ast.RangeStmt:
			in.rangeStmt(n)
		case *ast.GoStmt:
			in.goStmt(n)
		case *ast.SelectorExpr:
			in.selector(n)
		}
		return true
	})
}

var osFuncs = map[string]bool{"Open": true, "OpenFile": true, "ReadFile": true, "Stat": true, "DirFS": true, "Exit": true, "File": true, "Stdout": true, "Stderr": true}

func (in *inst) selector(n *ast.SelectorExpr) {
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := in.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	switch pn.Imported().Path() {
	case "os":
		if osFuncs[n.Sel.Name] && (in.fs || n.Sel.Name == "Exit") {
			in.ins(id.Pos(), id.End(), "simos")
			in.osUsed = id.Name
			in.report["os_calls"]++
		}
	case "io/ioutil":
		if n.Sel.Name == "ReadFile" && in.fs {
			in.ins(id.Pos(), id.End(), "simos")
			in.readers = id.Name
			in.report["os_calls"]++
		}
	case "log":
		if strings.HasPrefix(n.Sel.Name, "Fatal") {
			in.ins(id.Pos(), n.Sel.End(), "simos.Log"+n.Sel.Name)
			in.logged = id.Name
		}
	}
}

func (in *inst) goStmt(n *ast.GoStmt) {
	// go f(a, b)  =>  { f, a, b evaluated now } simrt.Go(func() { f(a, b) })
	var b strings.Builder
	c := n.Call
	if len(c.Args) == 0 {
		if fl, ok := c.Fun.(*ast.FuncLit); ok {
			in.ins(n.Pos(), fl.Pos(), "simrt.Go(")
			in.ins(fl.End(), n.End(), ")")
			in.report["go_stmts"]++
			return
		}
	}
	if c.Ellipsis.IsValid() {
		return
	}
	in.tmp++
	if fl, ok := c.Fun.(*ast.FuncLit); ok {
		// Keep the literal in place so that its body stays instrumented.
		fmt.Fprintf(&b, "{ simF%d := ", in.tmp)
		in.ins(n.Pos(), fl.Pos(), b.String())
		var t strings.Builder
		var names []string
		for i, a := range c.Args {
			fmt.Fprintf(&t, "; simA%d_%d := %s", in.tmp, i, in.text(a))
			names = append(names, fmt.Sprintf("simA%d_%d", in.tmp, i))
		}
		fmt.Fprintf(&t, "; simrt.Go(func() { simF%d(%s) }) }", in.tmp, strings.Join(names, ", "))
		in.ins(fl.End(), n.End(), t.String())
		in.report["go_stmts"]++
		return
	}
	fmt.Fprintf(&b, "{ simF%d := %s", in.tmp, in.text(c.Fun))
	var names []string
	for i, a := range c.Args {
		fmt.Fprintf(&b, "; simA%d_%d := %s", in.tmp, i, in.text(a))
		names = append(names, fmt.Sprintf("simA%d_%d", in.tmp, i))
	}
	fmt.Fprintf(&b, "; simrt.Go(func() { simF%d(%s) }) }", in.tmp, strings.Join(names, ", "))
	in.ins(n.Pos(), n.End(), b.String())
	in.report["go_stmts"]++
}

func (in *inst) rangeStmt(n *ast.RangeStmt) {
	t := in.info.TypeOf(n.X)
	isMap := false
	if t != nil {
		_, isMap = t.Underlying().(*types.Map)
	}
	if !isMap {
		if len(n.Body.List) == 0 {
			in.ins(n.Body.Lbrace+1, n.Body.Lbrace+1, " simrt.Y() ")
		}
		return
	}
	in.report["map_ranges"]++
	in.tmp++
	e := fmt.Sprintf("simE%d", in.tmp)
	if n.Key == nil {
		in.ins(n.Range, n.X.Pos(), fmt.Sprintf("_, %s := range simrt.Entries(", e))
	} else {
		in.ins(n.Key.Pos(), n.X.Pos(), fmt.Sprintf("_, %s := range simrt.Entries(", e))
	}
	in.ins(n.X.End(), n.X.End(), ")")
	var b strings.Builder
	fmt.Fprintf(&b, " if !%s.Live() { continue };", e)
	tok := n.Tok.String()
	blank := func(x ast.Expr) bool {
		if x == nil {
			return true
		}
		id, ok := x.(*ast.Ident)
		return ok && id.Name == "_"
	}
	if !blank(n.Key) {
		fmt.Fprintf(&b, " %s %s %s.K;", in.text(n.Key), tok, e)
	}
	if !blank(n.Value) {
		fmt.Fprintf(&b, " %s %s %s.Val();", in.text(n.Value), tok, e)
	}
	b.WriteString(" simrt.Y(); ")
	in.ins(n.Body.Lbrace+1, n.Body.Lbrace+1, b.String())
}

func (in *inst) list(stmts []ast.Stmt) {
	if !in.yields {
		return
	}
	for _, s := range stmts {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		if hasChanOp(s) {
			in.tmp++
			v := fmt.Sprintf("simT%d", in.tmp)
			in.ins(s.Pos(), s.Pos(), fmt.Sprintf("%s := simrt.ChanEnter(); ", v))
			switch s.(type) {
			case *ast.ReturnStmt:
				in.ins(s.Pos(), s.Pos(), fmt.Sprintf("_ = %s; ", v))
			default:
				in.ins(s.End(), s.End(), fmt.Sprintf("; simrt.ChanExit(%s)", v))
			}
			in.report["chan_stmts"]++
			continue
		}
		y := "simrt.Y(); "
		if in.hot(s) {
			y = "simrt.H(); "
			in.report["hot_yields"]++
		}
		in.report["yields"]++
		in.ins(s.Pos(), s.Pos(), y)
		in.split(s)
	}
}

// hasChanOp reports whether the statement itself (not a nested block) uses a channel.
func hasChanOp(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.SendStmt:
		return true
	case *ast.ExprStmt, *ast.AssignStmt, *ast.ReturnStmt:
		found := false
		ast.Inspect(s, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					found = true
				}
			}
			return true
		})
		return found
	default:
		return false
	}
}

// hot reports whether the statement, without nested blocks, touches package-level variables.
func (in *inst) hot(s ast.Stmt) bool {
	hot := false
	ast.Inspect(s, func(n ast.Node) bool {
		if hot {
			return false
		}
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause, *ast.FuncLit:
			return false
		case *ast.Ident:
			if in.isGlobal(in.info.Uses[n]) {
				hot = true
			}
		}
		return true
	})
	return hot
}

func (in *inst) isGlobal(o types.Object) bool {
	v, ok := o.(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil {
		return false
	}
	if !strings.HasPrefix(v.Pkg().Path(), modPath) {
		return false
	}
	return v.Parent() == v.Pkg().Scope()
}

// shared reports whether the target of an assignment can be visible to other threads.
func (in *inst) shared(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.Ident:
		return in.isGlobal(in.info.Uses[x])
	case *ast.ParenExpr:
		return in.shared(x.X)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		if t := in.info.TypeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				return true
			}
		}
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := in.info.Uses[id].(*types.PkgName); ok {
				return in.isGlobal(in.info.Uses[x.Sel])
			}
		}
		return in.shared(x.X)
	case *ast.IndexExpr:
		if t := in.info.TypeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				return in.shared(x.X)
			}
		}
		return true
	}
	return false
}

func simple(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return simple(x.X)
	case *ast.StarExpr:
		return simple(x.X)
	case *ast.SelectorExpr:
		return simple(x.X)
	case *ast.IndexExpr:
		return simple(x.X) && simple(x.Index)
	case *ast.BinaryExpr:
		return simple(x.X) && simple(x.Y)
	}
	return false
}

func noFuncLit(x ast.Node) bool {
	ok := true
	ast.Inspect(x, func(n ast.Node) bool {
		if _, is := n.(*ast.FuncLit); is {
			ok = false
		}
		return ok
	})
	return ok
}

// split puts a preemption point between the read and the write of an update of shared state.
func (in *inst) split(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if !in.shared(s.X) || !simple(s.X) {
			return
		}
		op := "+"
		if s.Tok == token.DEC {
			op = "-"
		}
		in.tmp++
		t := in.text(s.X)
		in.ins(s.Pos(), s.End(), fmt.Sprintf("{ simV%d := %s %s 1; simrt.H(); %s = simV%d }", in.tmp, t, op, t, in.tmp))
		in.report["split_updates"]++
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || s.Tok == token.DEFINE {
			return
		}
		l, r := s.Lhs[0], s.Rhs[0]
		if in.hasSeam(r) {
			return
		}
		if !in.shared(l) || !simple(l) || !noFuncLit(r) {
			return
		}
		in.tmp++
		lt := in.text(l)
		if s.Tok == token.ASSIGN {
			tl, tr := in.info.TypeOf(l), in.info.Types[r]
			if tl == nil || tr.Type == nil || tr.Value != nil || tr.IsNil() || !types.Identical(tl, tr.Type) {
				return
			}
			in.ins(s.Pos(), s.End(), fmt.Sprintf("{ simV%d := %s; simrt.H(); %s = simV%d }", in.tmp, in.text(r), lt, in.tmp))
		} else {
			op := strings.TrimSuffix(s.Tok.String(), "=")
			in.ins(s.Pos(), s.End(), fmt.Sprintf("{ simV%d := %s %s (%s); simrt.H(); %s = simV%d }", in.tmp, lt, op, in.text(r), lt, in.tmp))
		}
		in.report["split_updates"]++
	}
}

// hasSeam reports whether calls in the expression are redirected.
func (in *inst) hasSeam(x ast.Expr) (found bool) {
	ast.Inspect(x, func(n ast.Node) bool {
		if sel, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := sel.X.(*ast.Ident); ok {
				if pn, ok := in.info.Uses[id].(*types.PkgName); ok {
					switch pn.Imported().Path() {
					case "os", "io/ioutil", "log":
						found = true
					}
				}
			}
		}
		return !found
	})
	return
}
