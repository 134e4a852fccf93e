// automut lists edits of the Go files of a directory, as JSON lines
// {"file","from","to","text","what"}: mode "bug" changes behaviour (mostly),
// mode "ok" does not.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

var (
	fset *token.FileSet
	src  []byte
	file string
	mode string
	info *types.Info
	pkg  *types.Package
	seq  int
)

func off(p token.Pos) int { return fset.Position(p).Offset }
func text(n ast.Node) string {
	return string(src[off(n.Pos()):off(n.End())])
}

func emit(what string, n ast.Node, s string) { emitAt(what, n.Pos(), n.End(), s) }
func emitAt(what string, a, b token.Pos, s string) {
	old := string(src[off(a):off(b)])
	if old == s {
		return
	}
	seq++
	j, _ := json.Marshal(map[string]any{"file": file, "from": off(a), "to": off(b), "text": s, "line": fset.Position(a).Line, "what": what, "old": old})
	fmt.Println(string(j))
}

func main() {
	mode = os.Args[1]
	for _, dir := range os.Args[2:] {
		run(dir)
	}
}

func run(dir string) {
	fset = token.NewFileSet()
	var files []*ast.File
	var names []string
	ms, _ := filepath.Glob(dir + "/*.go")
	for _, m := range ms {
		if strings.HasSuffix(m, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, m, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		files = append(files, f)
		names = append(names, m)
	}
	info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	pkg, _ = conf.Check(dir, fset, files, info)
	for i, f := range files {
		file = names[i]
		src, _ = os.ReadFile(file)
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			if mode == "bug" {
				bug(fd)
			} else {
				okay(fd)
			}
		}
	}
}

func str(n any) string {
	var b bytes.Buffer
	printer.Fprint(&b, fset, n)
	return b.String()
}

func isInt(e ast.Expr) bool {
	t := info.Types[e].Type
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBool(e ast.Expr) bool {
	t := info.Types[e].Type
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
	token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
}

func bug(fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BinaryExpr:
			for _, o := range swaps[n.Op] {
				emitAt("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o)
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				emit("drop right", n, text(n.X))
				emit("drop left", n, text(n.Y))
			}
			if isInt(n) && (n.Op == token.ADD || n.Op == token.SUB) {
				emit("drop term", n, text(n.X))
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				emit("lit+1", n, "("+n.Value+"+1)")
				emit("lit-1", n, "("+n.Value+"-1)")
			}
		case *ast.IfStmt:
			emit("negate", n.Cond, "!("+text(n.Cond)+")")
			emit("never", n.Cond, "false && ("+text(n.Cond)+")")
			emit("always", n.Cond, "true || ("+text(n.Cond)+")")
		case *ast.ForStmt:
			if n.Cond != nil {
				emit("never loop", n.Cond, "false && ("+text(n.Cond)+")")
			}
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.DeferStmt:
			emit("no defer", n, text(n.Call))
		case *ast.GoStmt:
			emit("no go", n, text(n.Call))
		case *ast.CallExpr:
			for i := 0; i+1 < len(n.Args); i++ {
				a, b := n.Args[i], n.Args[i+1]
				ta, tb := info.Types[a].Type, info.Types[b].Type
				if ta != nil && tb != nil && types.Identical(ta, tb) {
					emitAt("swap args", a.Pos(), b.End(), text(b)+", "+text(a))
				}
			}
			if s, ok := n.Fun.(*ast.SelectorExpr); ok {
				switch s.Sel.Name {
				case "Broadcast":
					emit("signal", s.Sel, "Signal")
				}
			}
		case *ast.ReturnStmt:
			for i, r := range n.Results {
				if isBool(r) {
					emit("negate result", r, "!("+text(r)+")")
				}
				if isInt(r) {
					emit("result+1", r, "("+text(r)+")+1")
				}
				if i+1 < len(n.Results) {
					emitAt("swap results", r.Pos(), n.Results[i+1].End(), text(n.Results[i+1])+", "+text(r))
				}
			}
		case *ast.IncDecStmt:
			if n.Tok == token.INC {
				emit("dec", n, text(n.X)+"--")
			} else {
				emit("inc", n, text(n.X)+"++")
			}
		case *ast.AssignStmt:
			if n.Tok == token.ADD_ASSIGN || n.Tok == token.SUB_ASSIGN {
				emitAt("assign op", n.TokPos, n.TokPos+2, "=")
			}
			for i, r := range n.Rhs {
				if isInt(r) {
					emit("rhs+1", r, "("+text(r)+")+1")
					emit("rhs-1", r, "("+text(r)+")-1")
				}
				if isBool(r) {
					emit("negate rhs", r, "!("+text(r)+")")
				}
				if i+1 < len(n.Rhs) {
					emitAt("swap rhs", r.Pos(), n.Rhs[i+1].End(), text(n.Rhs[i+1])+", "+text(r))
				}
			}
		case *ast.BranchStmt:
			switch n.Tok {
			case token.BREAK:
				emitAt("break", n.TokPos, n.TokPos+5, "continue")
			case token.CONTINUE:
				emitAt("continue", n.TokPos, n.TokPos+8, "break")
			}
		case *ast.Ident:
			ident(fd, n)
		case *ast.SelectorExpr:
			// other field of the same type
			sel := info.Selections[n]
			if sel == nil || sel.Kind() != types.FieldVal {
				break
			}
			t := sel.Recv()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if st, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					if f.Name() != n.Sel.Name && types.Identical(f.Type(), sel.Type()) {
						emit("other field", n.Sel, f.Name())
					}
				}
			}
		}
		return true
	})
}

func stmts(l []ast.Stmt) {
	for i, s := range l {
		switch s := s.(type) {
		case *ast.DeclStmt, *ast.LabeledStmt:
			continue
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				emit("delete", s, "")
			}
		case *ast.ReturnStmt:
			if i > 0 || len(l) == 1 {
				emit("delete", s, "")
			}
		default:
			emit("delete", s, "")
		}
		if i+1 < len(l) {
			t := l[i+1]
			if _, ok := t.(*ast.LabeledStmt); ok {
				continue
			}
			emitAt("swap statements", s.Pos(), t.End(), text(t)+"\n"+text(s))
		}
	}
}

func ident(fd *ast.FuncDecl, id *ast.Ident) {
	o, ok := info.Uses[id].(*types.Var)
	if !ok || o.IsField() || o.Pkg() != pkg {
		return
	}
	sc := pkg.Scope().Innermost(id.Pos())
	n := 0
	for ; sc != nil && sc != pkg.Scope(); sc = sc.Parent() {
		for _, nm := range sc.Names() {
			v, ok := sc.Lookup(nm).(*types.Var)
			if !ok || v == o || nm == id.Name || v.Pos() > id.Pos() || nm == "_" || !types.Identical(v.Type(), o.Type()) {
				continue
			}
			if n < 3 {
				emit("other variable", id, nm)
				n++
			}
		}
	}
}
