// Command mutation lists small edits of the non-test sources of a Go tree.
// usage: mutation DIR          prints one edit per line: id file offset length replacement
//
//	mutation DIR ID       applies one
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	file     string
	off, end int
	with     string
	what     string
}

func main() {
	dir := os.Args[1]
	var files []string
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	var all []edit
	for _, f := range files {
		all = append(all, edits(f)...)
	}
	if len(os.Args) > 2 {
		i, _ := strconv.Atoi(os.Args[2])
		e := all[i]
		b, _ := os.ReadFile(e.file)
		out := string(b[:e.off]) + e.with + string(b[e.end:])
		if err := os.WriteFile(e.file, []byte(out), 0o644); err != nil {
			panic(err)
		}
		return
	}
	for i, e := range all {
		rel, _ := filepath.Rel(dir, e.file)
		b, _ := os.ReadFile(e.file)
		line := 1 + strings.Count(string(b[:e.off]), "\n")
		fmt.Printf("%d\t%s:%d\t%s\t%q -> %q\n", i, rel, line, e.what, cut(string(b[e.off:e.end])), cut(e.with))
	}
}

func cut(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 60 {
		s = s[:60] + "..."
	}
	return s
}

var swap = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.XOR: {"|"},
}

func edits(file string) (out []edit) {
	src, _ := os.ReadFile(file)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		panic(err)
	}
	at := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(a, b token.Pos, with, what string) {
		out = append(out, edit{file, at(a), at(b), with, what})
	}
	text := func(n ast.Node) string { return string(src[at(n.Pos()):at(n.End())]) }
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt:
				add(s.Pos(), s.End(), "", "drop")
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					var l []string
					for _, e := range s.Rhs {
						l = append(l, text(e))
					}
					add(s.Pos(), s.End(), strings.Repeat("_, ", len(l)-1)+"_ = "+strings.Join(l, ", "), "drop")
				}
			case *ast.DeferStmt:
				add(s.Pos(), s.End(), "", "drop")
			case *ast.BranchStmt:
				if s.Tok == token.CONTINUE {
					add(s.Pos(), s.End(), "break", "branch")
				} else if s.Tok == token.BREAK {
					add(s.Pos(), s.End(), "", "drop")
				}
			case *ast.ReturnStmt:
				if n := len(s.Results); n > 0 && text(s.Results[n-1]) == "err" {
					e := s.Results[n-1]
					add(e.Pos(), e.End(), "nil", "no error")
				}
			}
			_ = i
		}
	}
	var skip func(n ast.Node) bool
	skip = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.FuncDecl:
			if n.Name.Name == "String" || n.Name.Name == "Error" {
				return false
			}
		case *ast.BinaryExpr:
			for _, w := range swap[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), w, "operator")
			}
			if n.Op == token.ADD || n.Op == token.SUB {
				if _, ok := n.Y.(*ast.BasicLit); ok {
					add(n.X.End(), n.End(), "", "no offset")
				}
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				v, err := strconv.ParseUint(strings.ReplaceAll(n.Value, "_", ""), 0, 64)
				if err == nil {
					add(n.Pos(), n.End(), strconv.FormatUint(v+1, 10), "literal")
					if v > 0 {
						add(n.Pos(), n.End(), strconv.FormatUint(v-1, 10), "literal")
					}
				}
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never")
			add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always")
		case *ast.Ident:
			if n.Name == "true" {
				add(n.Pos(), n.End(), "false", "literal")
			} else if n.Name == "false" {
				add(n.Pos(), n.End(), "true", "literal")
			}
		case *ast.CompositeLit:
			for _, e := range n.Elts {
				if kv, ok := e.(*ast.KeyValueExpr); ok && len(n.Elts) > 1 {
					if _, ok := kv.Key.(*ast.Ident); ok {
						end := kv.End()
						for src[at(end)] != ',' && src[at(end)] != '}' {
							end++
						}
						if src[at(end)] == ',' {
							end++
						}
						add(kv.Pos(), end, "", "no field")
					}
				}
			}
		case *ast.CaseClause:
			stmts(n.Body)
			if len(n.List) > 1 {
				e := n.List[len(n.List)-1]
				add(n.List[len(n.List)-2].End(), e.End(), "", "no case")
			}
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.SliceExpr:
			if n.High != nil {
				add(n.High.Pos(), n.High.End(), "("+text(n.High)+")-1", "bound")
			}
			if n.Low != nil {
				add(n.Low.Pos(), n.Low.End(), "("+text(n.Low)+")+1", "bound")
			}
		case *ast.Field:
			if n.Tag != nil && strings.Contains(n.Tag.Value, "beserial") {
				for _, kv := range [][2]string{{"uint8", "uint16"}, {"uint16", "uint8"}, {"uint32", "uint16"}, {"optional", ""}} {
					if strings.Contains(n.Tag.Value, "="+kv[0]) || kv[0] == "optional" && strings.Contains(n.Tag.Value, kv[0]) {
						if kv[1] != "" {
							add(n.Tag.Pos(), n.Tag.End(), strings.Replace(n.Tag.Value, "="+kv[0], "="+kv[1], 1), "tag")
						}
					}
				}
			}
		}
		return true
	}
	ast.Inspect(f, skip)
	return out
}
