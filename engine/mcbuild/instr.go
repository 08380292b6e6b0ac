package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
)

// instr inserts a scheduling point in front of every statement that can synchronise, communicate, or touch
// shared state. It keeps line numbers.
type instr struct{ sites []string }

type insertion struct {
	off  int
	text string
}

var quiet = map[string]bool{
	"Log": true, "WithPrefix": true, "Errorf": true, "Sprintf": true, "Sprint": true, "Error": true, "String": true,
	"TypeOf": true, "ValueOf": true, "Kind": true, "New": true, "ToLower": true, "Itoa": true, "NumIn": true, "Bytes": true,
}

var builtins = map[string]bool{
	"append": true, "len": true, "cap": true, "make": true, "new": true, "string": true, "byte": true, "int": true,
	"float64": true, "copy": true, "panic": true, "recover": true, "uint64": true, "int64": true,
}

func (in *instr) file(src, dst string) bool {
	b, err := os.ReadFile(src)
	must(err)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, src, b, parser.ParseComments)
	if err != nil {
		// let the compiler tell
		return false
	}
	pkgs := map[string]bool{}
	for _, im := range f.Imports {
		if im.Name != nil {
			pkgs[im.Name.Name] = true
		} else {
			p := im.Path.Value
			p = p[1 : len(p)-1]
			pkgs[filepath.Base(p)] = true
		}
	}
	var ins []insertion
	base := filepath.Base(src)
	add := func(s ast.Stmt) {
		pos := fset.Position(s.Pos())
		id := len(in.sites)
		in.sites = append(in.sites, fmt.Sprintf("%d %s:%d", id, base, pos.Line))
		ins = append(ins, insertion{pos.Offset, fmt.Sprintf("zzmcrt.MCPoint(%d); ", id)})
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if in.interesting(s, pkgs) {
				add(s)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.SwitchStmt:
			for _, c := range n.Body.List {
				ast.Inspect(c, func(ast.Node) bool { return false })
			}
		}
		return true
	})
	if len(ins) == 0 {
		must(os.WriteFile(dst, b, 0o644))
		return true
	}
	ins = append(ins, insertion{fset.Position(f.Name.End()).Offset, `; import zzmcrt "runtime"`})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var buf bytes.Buffer
	last := 0
	for _, i := range ins {
		buf.Write(b[last:i.off])
		buf.WriteString(i.text)
		last = i.off
	}
	buf.Write(b[last:])
	must(os.WriteFile(dst, buf.Bytes(), 0o644))
	return true
}

// interesting looks at the statement itself, or, for a compound statement, at its header.
func (in *instr) interesting(s ast.Stmt, pkgs map[string]bool) bool {
	switch s := s.(type) {
	case *ast.SelectStmt, *ast.GoStmt, *ast.SendStmt:
		return true
	case *ast.CaseClause, *ast.CommClause, *ast.BlockStmt, *ast.EmptyStmt, *ast.BranchStmt:
		return false
	case *ast.LabeledStmt:
		return in.interesting(s.Stmt, pkgs)
	case *ast.DeferStmt:
		return false
	case *ast.RangeStmt:
		return in.expr(s.X, pkgs) || true
	case *ast.IfStmt:
		return s.Init != nil && in.node(s.Init, pkgs) || in.expr(s.Cond, pkgs)
	case *ast.ForStmt:
		return s.Init != nil && in.node(s.Init, pkgs) || s.Cond != nil && in.expr(s.Cond, pkgs)
	case *ast.SwitchStmt:
		return s.Init != nil && in.node(s.Init, pkgs) || s.Tag != nil && in.expr(s.Tag, pkgs)
	case *ast.TypeSwitchStmt:
		return s.Init != nil && in.node(s.Init, pkgs)
	}
	return in.node(s, pkgs)
}

func (in *instr) expr(e ast.Expr, pkgs map[string]bool) bool { return in.node(e, pkgs) }

func (in *instr) node(n ast.Node, pkgs map[string]bool) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if found {
			return false
		}
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
				return false
			}
		case *ast.CallExpr:
			switch fn := n.Fun.(type) {
			case *ast.Ident:
				if fn.Name == "close" || fn.Name == "delete" || fn.Name == "cancel" {
					found = true
					return false
				}
				if !builtins[fn.Name] {
					found = true
				}
			case *ast.SelectorExpr:
				if quiet[fn.Sel.Name] {
					for _, a := range n.Args {
						if in.node(a, pkgs) {
							found = true
						}
					}
					return false
				}
				if id, ok := fn.X.(*ast.Ident); ok && pkgs[id.Name] {
					switch id.Name {
					case "fmt", "errors", "strings", "bytes", "reflect", "strconv", "json", "binary":
						return true
					}
				}
				found = true
			case *ast.FuncLit:
				return true
			}
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok && pkgs[id.Name] {
				return false
			}
			found = true
			return false
		}
		return !found
	})
	return found
}
