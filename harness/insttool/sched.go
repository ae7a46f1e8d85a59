package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

const schedPath = "verif.local/vsched"

// rewriteSched redirects sync to vsync, go statements to the scheduler, and,
// where points is set, inserts a scheduling point before every statement.
func rewriteSched(p string, src []byte, points, closures, channels bool) []byte {
	fs, f, info := parseTyped(p, src, channels)
	off := func(n ast.Node) int { return fs.Position(n.Pos()).Offset }
	end := func(n ast.Node) int { return fs.Position(n.End()).Offset }
	var edits []edit
	used := false
	for _, im := range f.Imports {
		name := map[string]string{`"sync"`: "vsync", `"sync/atomic"`: "vatomic"}[im.Path.Value]
		if name == "" {
			continue
		}
		text := fmt.Sprintf("%q", schedPath+"/"+name)
		if im.Name == nil {
			if name == "vsync" {
				text = "sync " + text
			} else {
				text = "atomic " + text
			}
		}
		edits = append(edits, edit{off(im.Path), end(im.Path), text})
	}
	point := func(s ast.Stmt) {
		switch s.(type) {
		case *ast.DeclStmt, *ast.LabeledStmt, *ast.EmptyStmt:
			return
		}
		if points {
			used = true
			edits = append(edits, edit{off(s), off(s), "vsched__.Point();"})
		}
	}
	text := func(n ast.Node) string { return string(src[off(n):end(n)]) }
	simple := func(e ast.Expr) bool {
		ok := true
		ast.Inspect(e, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CallExpr, *ast.FuncLit:
				ok = false
			}
			return true
		})
		return ok
	}
	// split lets other tasks run between the read and the write of a
	// statement that does both.
	split := func(s ast.Stmt) {
		if !points {
			return
		}
		switch s := s.(type) {
		case *ast.IncDecStmt:
			if simple(s.X) {
				used = true
				edits = append(edits, edit{off(s), end(s), fmt.Sprintf("%s = vsched__.Split(%s) %c 1", text(s.X), text(s.X), s.Tok.String()[0])})
			}
		case *ast.AssignStmt:
			if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !simple(s.Lhs[0]) {
				return
			}
			x := s.Lhs[0]
			if op := s.Tok.String(); op != "=" && op != ":=" {
				used = true
				edits = append(edits,
					edit{end(x), off(s.Rhs[0]), fmt.Sprintf(" = vsched__.Split(%s) %s (", text(x), op[:len(op)-1])},
					edit{end(s.Rhs[0]), end(s.Rhs[0]), ")"})
			} else if c, ok := s.Rhs[0].(*ast.CallExpr); ok && op == "=" && len(c.Args) > 0 {
				if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "append" && text(c.Args[0]) == text(x) {
					used = true
					edits = append(edits,
						edit{off(c.Args[0]), off(c.Args[0]), "vsched__.Split("},
						edit{end(c.Args[0]), end(c.Args[0]), ")"})
				}
			}
		}
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			point(s)
			split(s)
		}
	}
	done := map[ast.Node]bool{} // copied as they stand
	replace := func(from, to int, text string) {
		used = true
		edits = append(edits, edit{from, to, text})
	}
	offset := func(p token.Pos) int { return fs.Position(p).Offset }
	receive := func(e ast.Expr) (ast.Expr, bool) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.UnaryExpr:
				return x.X, x.Op == token.ARROW
			}
			return nil, false
		}
	}
	two := map[ast.Node]bool{} // receives that give two values
	both := func(lhs int, rhs []ast.Expr) {
		if lhs == 2 && len(rhs) == 1 {
			e := rhs[0]
			for {
				if p, ok := e.(*ast.ParenExpr); ok {
					e = p.X
					continue
				}
				break
			}
			two[e] = true
		}
	}
	// selects redirects a select statement, as a switch over what was done.
	selects := func(n *ast.SelectStmt) {
		var names, values []string
		head := "switch "
		for _, c := range n.Body.List {
			cc := c.(*ast.CommClause)
			after := offset(cc.Colon) + 1
			var body string
			var value string
			switch s := cc.Comm.(type) {
			case nil:
				continue
			case *ast.SendStmt:
				value = "vsched__.S(" + text(s.Chan) + ")(" + text(s.Value) + ")"
			case *ast.ExprStmt:
				x, _ := receive(s.X)
				value = "vsched__.R(" + text(x) + ")"
			case *ast.AssignStmt:
				x, _ := receive(s.Rhs[0])
				value = "vsched__.R(" + text(x) + ")"
				body = text(s.Lhs[0])
				given := fmt.Sprintf("case%d__.V", len(names))
				if len(s.Lhs) == 2 {
					body += ", " + text(s.Lhs[1])
					given += fmt.Sprintf(", case%d__.OK", len(names))
				}
				body += " " + s.Tok.String() + " " + given + ";"
			}
			replace(offset(cc.Case), after, fmt.Sprintf("case %d: %s", len(names), body))
			done[cc.Comm] = true
			names = append(names, fmt.Sprintf("case%d__", len(names)))
			values = append(values, value)
		}
		otherwise := len(names) < len(n.Body.List)
		if len(names) > 0 {
			head += strings.Join(names, ", ") + " := " + strings.Join(values, ", ") + "; "
		}
		head += fmt.Sprintf("vsched__.Select(%v", otherwise)
		for _, name := range names {
			head += ", " + name
		}
		replace(offset(n.Select), offset(n.Body.Lbrace)+1, head+") {")
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if n != nil && done[n] {
			return false
		}
		if info != nil {
			switch n := n.(type) {
			case *ast.SelectStmt:
				selects(n)
			case *ast.SendStmt:
				replace(off(n), off(n), "vsched__.Send(")
				replace(end(n.Chan), off(n.Value), ")(")
				replace(end(n.Value), end(n.Value), ")")
			case *ast.AssignStmt:
				both(len(n.Lhs), n.Rhs)
			case *ast.ValueSpec:
				both(len(n.Names), n.Values)
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					name := "Recv"
					if two[n] {
						name = "Recv2"
					}
					replace(off(n), off(n.X), "vsched__."+name+"(")
					replace(end(n.X), end(n.X), ")")
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
					if _, ok := info.Uses[id].(*types.Builtin); ok {
						replace(off(id), end(id), "vsched__.Close")
					}
				}
			case *ast.RangeStmt:
				if tv, ok := info.Types[n.X]; ok && tv.Type != nil {
					if _, ok := tv.Type.Underlying().(*types.Chan); ok {
						first, op, next := "_", ":=", "nil"
						if n.Key != nil && text(n.Key) != "_" {
							next = "&" + text(n.Key)
							if n.Tok == token.DEFINE {
								first = text(n.Key)
							}
						}
						replace(offset(n.For), off(n.X), fmt.Sprintf("for range__, %s %s vsched__.Iter(", first, op))
						replace(end(n.X), offset(n.Body.Lbrace)+1, "); range__.Next("+next+"); {")
						if n.Key != nil {
							done[n.Key] = true
						}
					}
				}
			}
		}
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.SwitchStmt:
			// A switch body holds clauses, not statements.
			for _, c := range n.Body.List {
				ast.Inspect(c, func(ast.Node) bool { return false })
			}
		case *ast.GoStmt:
			used = true
			c := n.Call
			if closures || c.Ellipsis.IsValid() {
				// The arguments are evaluated before, like those of a go
				// statement, except for what has no type of its own.
				before := "{ "
				for i, a := range c.Args {
					if id, ok := a.(*ast.Ident); ok && id.Name == "nil" {
						continue
					}
					if _, ok := a.(*ast.BasicLit); ok {
						continue
					}
					name := fmt.Sprintf("arg%d__", i)
					before += fmt.Sprintf("%s := %s; ", name, text(a))
					edits = append(edits, edit{off(a), end(a), name})
				}
				if s, ok := c.Fun.(*ast.SelectorExpr); ok && closures {
					before += fmt.Sprintf("fun__ := %s; ", text(s))
					edits = append(edits, edit{off(s), end(s), "fun__"})
				}
				edits = append(edits, edit{off(n), off(c), before + "vsched__.Go(func() { "}, edit{end(c), end(c), " }) }"})
				for _, a := range c.Args {
					done[a] = true
				}
				return true
			}
			edits = append(edits, edit{off(n), off(c.Fun), "vsched__.Go("})
			if len(c.Args) == 0 {
				edits = append(edits, edit{end(c.Fun), end(c), ")"})
			} else {
				edits = append(edits, edit{end(c.Fun), off(c.Args[0]), ", "})
			}
		}
		return true
	})
	// Clauses were visited as statements of the switch's block: drop points
	// put before case and default.
	drop := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CaseClause:
			drop[off(n)] = true
		case *ast.CommClause:
			drop[off(n)] = true
		}
		return true
	})
	var keep []edit
	for _, e := range edits {
		if e.text == "vsched__.Point();" && drop[e.from] {
			continue
		}
		keep = append(keep, e)
	}
	if used {
		at := end(f.Name)
		keep = append(keep, edit{at, at, fmt.Sprintf("; import vsched__ %q", schedPath)})
	}
	if keep == nil {
		return nil
	}
	return apply(src, keep)
}

// imported is where the types of packages of the standard library are from.
var imported types.Importer

// parseTyped gives types too, where a file's package uses channels.
func parseTyped(p string, src []byte, channels bool) (*token.FileSet, *ast.File, *types.Info) {
	fs, f := parse(p, src)
	if !channels {
		return fs, f, nil
	}
	var files []*ast.File
	has := false
	entries, _ := os.ReadDir(filepath.Dir(p))
	for _, e := range entries {
		q := filepath.Join(filepath.Dir(p), e.Name())
		if !strings.HasSuffix(q, ".go") || strings.HasSuffix(q, "_test.go") {
			continue
		}
		g := f
		if q != p {
			var err error
			if g, err = parser.ParseFile(fs, q, nil, 0); err != nil {
				return fs, f, nil
			}
		}
		if g.Name.Name != f.Name.Name {
			continue
		}
		files = append(files, g)
		ast.Inspect(g, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ChanType, *ast.SendStmt, *ast.SelectStmt:
				has = true
			case *ast.UnaryExpr:
				has = has || n.Op == token.ARROW
			}
			return !has
		})
	}
	if !has {
		return fs, f, nil
	}
	if imported == nil {
		imported = importer.ForCompiler(token.NewFileSet(), "source", nil)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: standard{}, Error: func(error) {}, FakeImportC: true}
	conf.Check(f.Name.Name, fs, files, info)
	return fs, f, info
}

type standard struct{}

func (standard) Import(path string) (pkg *types.Package, err error) {
	if strings.Contains(path, ".") {
		return nil, fmt.Errorf("no types of %s", path)
	}
	defer func() {
		if recover() != nil {
			pkg, err = nil, fmt.Errorf("no types of %s", path)
		}
	}()
	return imported.Import(path)
}
