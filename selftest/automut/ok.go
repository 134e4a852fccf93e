package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

var mirror = map[token.Token]string{token.LSS: ">", token.LEQ: ">=", token.GTR: "<", token.GEQ: "<=", token.EQL: "==", token.NEQ: "!="}
var inverse = map[token.Token]string{token.LSS: ">=", token.LEQ: ">", token.GTR: "<=", token.GEQ: "<", token.EQL: "!=", token.NEQ: "=="}

func not(e ast.Expr) string {
	if b, ok := e.(*ast.BinaryExpr); ok && inverse[b.Op] != "" {
		if !isInt(b.X) && b.Op != token.EQL && b.Op != token.NEQ {
			return "!(" + text(e) + ")"
		}
		return text(b.X) + " " + inverse[b.Op] + " " + text(b.Y)
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		return text(u.X)
	}
	return "!(" + text(e) + ")"
}

// pure: no calls, receives or function literals
func pure(e ast.Node) bool {
	r := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "int") {
				return true
			}
			r = false
		case *ast.FuncLit:
			r = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				r = false
			}
		}
		return true
	})
	return r
}

// jumps: the statements contain return, break, continue, goto or defer
func jumps(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt:
			r = true
		}
		return true
	})
	return r
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return true
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func defines(l []ast.Stmt) bool {
	for _, s := range l {
		switch s := s.(type) {
		case *ast.DeclStmt:
			return true
		case *ast.AssignStmt:
			if s.Tok == token.DEFINE {
				return true
			}
		case *ast.LabeledStmt:
			return true
		}
	}
	return false
}

func hasResult(t *ast.FuncType) bool { return t.Results != nil && len(t.Results.List) > 0 }

func body(l []ast.Stmt) string {
	if len(l) == 0 {
		return ""
	}
	return string(src[off(l[0].Pos()):off(l[len(l)-1].End())])
}

func okay(fd *ast.FuncDecl) {
	okBody(fd.Type, fd.Body)
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			okBody(n.Type, n.Body)
			if s := text(n); len(n.Body.List) > 0 {
				_ = s
			}
		case *ast.BinaryExpr:
			if m := mirror[n.Op]; m != "" && pure(n) {
				emit("mirror", n, text(n.Y)+" "+m+" "+text(n.X))
			}
			if (n.Op == token.ADD) && isInt(n) && pure(n) {
				y := text(n.Y)
				x := text(n.X)
				if b, ok := n.X.(*ast.BinaryExpr); ok {
					_ = b
					x = "(" + x + ")"
				}
				emit("commute", n, "("+y+" + "+x+")")
			}
			if (n.Op == token.LAND || n.Op == token.LOR) && pure(n) {
				emit("commute", n, text(n.Y)+" "+n.Op.String()+" "+text(n.X))
				o := "||"
				if n.Op == token.LOR {
					o = "&&"
				}
				emit("de morgan", n, "!(!("+text(n.X)+") "+o+" !("+text(n.Y)+"))")
			}
		case *ast.IfStmt:
			if n.Else != nil {
				if eb, ok := n.Else.(*ast.BlockStmt); ok {
					init := ""
					if n.Init != nil {
						init = text(n.Init) + "; "
					}
					emit("invert", n, "if "+init+not(n.Cond)+" "+text(eb)+" else "+text(n.Body))
				}
				if n.Init == nil && terminates(n.Body.List) {
					if eb, ok := n.Else.(*ast.BlockStmt); ok && !defines(eb.List) {
						emit("no else", n, "if "+text(n.Cond)+" "+text(n.Body)+"\n"+body(eb.List))
					} else if ei, ok := n.Else.(*ast.IfStmt); ok && ei.Init == nil {
						emit("no else if", n, "if "+text(n.Cond)+" "+text(n.Body)+"\n"+text(ei))
					}
				}
			} else if b, ok := n.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND && n.Init == nil {
				emit("nest", n, "if "+text(b.X)+" {\nif "+text(b.Y)+" "+text(n.Body)+"\n}")
			}
			seq++
			v := fmt.Sprintf("cond%d", seq)
			if n.Init != nil {
				emitAt("name condition", n.Init.Pos(), n.Cond.End(), text(n.Cond))
				break
			}
			emit("name condition", n, "if "+v+" := "+text(n.Cond)+"; "+v+" "+string(src[off(n.Body.Pos()):off(n.End())]))
			emit("switch", n, switchOf(n))
			emit("closure condition", n.Cond, "func() bool { return "+text(n.Cond)+" }()")
		case *ast.ForStmt:
			if n.Cond != nil && !strings.Contains(text(n.Cond), "{") {
				init, post := "", ""
				if n.Init != nil {
					init = text(n.Init)
				}
				if n.Post != nil {
					post = text(n.Post)
				}
				emitAt("cond in body", n.For, n.Body.Lbrace+1, "for "+init+"; ; "+post+" {\nif "+not(n.Cond)+" {\nbreak\n}\n")
				emit("named for cond", n.Cond, "func() bool { return "+text(n.Cond)+" }()")
			}
		case *ast.RangeStmt:
			rangeOK(n)
		case *ast.BlockStmt:
			okStmts(n.List)
		case *ast.CaseClause:
			okStmts(n.Body)
		case *ast.CommClause:
			okStmts(n.Body)
		case *ast.IncDecStmt:
			o := " += 1"
			if n.Tok == token.DEC {
				o = " -= 1"
			}
			emit("inc", n, text(n.X)+o)
		case *ast.AssignStmt:
			if n.Tok == token.ADD_ASSIGN && pure(n.Lhs[0]) {
				emit("assign op", n, text(n.Lhs[0])+" = "+text(n.Lhs[0])+" + ("+text(n.Rhs[0])+")")
			}
			if n.Tok == token.DEFINE && len(n.Lhs) == 1 && len(n.Rhs) == 1 {
				if _, ok := n.Rhs[0].(*ast.TypeAssertExpr); !ok {
					if t := info.Types[n.Rhs[0]].Type; t != nil {
						if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped == 0 {
							emit("var", n, "var "+text(n.Lhs[0])+" "+b.Name()+" = "+text(n.Rhs[0]))
						}
					}
				}
			}
		case *ast.GoStmt:
			if fl, ok := n.Call.Fun.(*ast.FuncLit); ok && len(n.Call.Args) == 0 {
				seq++
				v := fmt.Sprintf("task%d", seq)
				emit("named task", n, v+" := "+text(fl)+"\ngo "+v+"()")
			}
		case *ast.ReturnStmt:
			if len(n.Results) == 1 {
				if _, ok := n.Results[0].(*ast.Ident); !ok {
					seq++
					v := fmt.Sprintf("ret%d", seq)
					emit("name result", n, "{\n"+v+" := "+text(n.Results[0])+"\nreturn "+v+"\n}")
				}
			}
		case *ast.CallExpr:
			if t := info.Types[n.Fun]; t.IsType() || t.IsBuiltin() {
				break
			}
			if tv := info.Types[n]; tv.Type != nil {
				if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped == 0 && b.Kind() != types.Invalid {
					if text(n) == "recover()" {
break
}
emit("closure call", n, "func() "+b.Name()+" { return "+text(n)+" }()")
				}
			}
		case *ast.BasicLit:
			if n.Kind == token.INT && n.Value != "0" && !strings.HasPrefix(n.Value, "0x") {
				emit("lit", n, "("+n.Value+"+1-1)")
			}
		}
		return true
	})
}

func switchOf(n *ast.IfStmt) string {
	bad := false
	ast.Inspect(n, func(m ast.Node) bool {
		if b, ok := m.(*ast.BranchStmt); ok && b.Tok == token.BREAK && b.Label == nil {
			bad = true
		}
		return true
	})
	if bad {
		return text(n)
	}
	if n.Else == nil {
		return "switch {\ncase " + text(n.Cond) + ":\n" + body(n.Body.List) + "\n}"
	}
	if eb, ok := n.Else.(*ast.BlockStmt); ok {
		return "switch {\ncase " + text(n.Cond) + ":\n" + body(n.Body.List) + "\ndefault:\n" + body(eb.List) + "\n}"
	}
	return text(n)
}

func rangeOK(n *ast.RangeStmt) {
	t := info.Types[n.X].Type
	if t == nil || n.Tok == token.ASSIGN {
		return
	}
	seq++
	k, x := fmt.Sprintf("k%d", seq), fmt.Sprintf("x%d", seq)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		key := k
		if id, ok := n.Key.(*ast.Ident); ok && id.Name != "_" {
			key = id.Name
		}
		s := "for " + key + " := 0; " + key + " < len(" + x + "); " + key + "++ {\n"
		if id, ok := n.Value.(*ast.Ident); ok && id.Name != "_" {
			s += id.Name + " := " + x + "[" + key + "]\n"
		}
		if labelled[n.Pos()] {
			return
		}
		emitAt("index loop", n.For, n.Body.Lbrace+1, x+" := "+text(n.X)+"\n"+s)
		s2 := strings.ReplaceAll(s, x, text(n.X))
		if pure(n.X) {
			emitAt("index loop 2", n.For, n.Body.Lbrace+1, s2)
		}
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			key := k
			if id, ok := n.Key.(*ast.Ident); ok && id.Name != "_" {
				key = id.Name
			}
			if pure(n.X) {
				emitAt("counted loop", n.For, n.Body.Lbrace+1, "for "+key+" := 0; "+key+" < "+text(n.X)+"; "+key+"++ {\n")
			}
		}
	}
}

var labelled = map[token.Pos]bool{}

func okBody(ft *ast.FuncType, b *ast.BlockStmt) {
	// the whole body in a closure
	if len(b.List) == 0 {
		return
	}
	rec := false
	ast.Inspect(b, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "recover" {
				rec = true
			}
		}
		return true
	})
	if !rec && !hasResult(ft) {
		emitAt("body in closure", b.Lbrace+1, b.Rbrace, "\nfunc() {\n"+body(b.List)+"\n}()\n")
	}
}

func okStmts(l []ast.Stmt) {
	for i, s := range l {
		if ls, ok := s.(*ast.LabeledStmt); ok {
			labelled[ls.Stmt.Pos()] = true
			continue
		}
		_ = i
		emit("block", s, "{\n"+text(s)+"\n}")
		if !jumps(s) && !defines(l[i:i+1]) && !strings.Contains(text(s), "recover()") {
			emit("closure", s, "func() {\n"+text(s)+"\n}()")
			seq++
			v := fmt.Sprintf("step%d", seq)
			emit("named closure", s, v+" := func() {\n"+text(s)+"\n}\n"+v+"()")
		}
		// early exit instead of nesting at the end of a function or loop body
		emitAt("nop", s.Pos(), s.Pos(), "_ = 0\n")
		// arguments into variables
		if es, ok := s.(*ast.ExprStmt); ok {
			if c, ok := es.X.(*ast.CallExpr); ok {
				argsOut(s, c)
			}
		}
		if i+1 < len(l) {
			if a, ok := s.(*ast.AssignStmt); ok {
				if b, ok := l[i+1].(*ast.AssignStmt); ok && pure(a) && pure(b) && independent(a, b) {
					emitAt("swap statements", a.Pos(), b.End(), text(b)+"\n"+text(a))
				}
			}
		}
	}
}

func argsOut(s ast.Stmt, c *ast.CallExpr) {
	if t := info.Types[c.Fun]; t.IsBuiltin() || c.Ellipsis.IsValid() || len(c.Args) == 0 {
		return
	}
	pre, call := "", text(c.Fun)+"("
	for i, a := range c.Args {
		seq++
		v := fmt.Sprintf("arg%d", seq)
		if info.Types[a].IsNil() {
			return
		}
		if tv := info.Types[a]; tv.Value != nil {
			v = text(a)
		} else {
			pre += v + " := " + text(a) + "\n"
		}
		if i > 0 {
			call += ", "
		}
		call += v
	}
	emit("named arguments", s, "{\n"+pre+call+")\n}")
}

func independent(a, b *ast.AssignStmt) bool {
	w := map[string]bool{}
	ok := true
	for _, x := range a.Lhs {
		id, is := x.(*ast.Ident)
		if !is {
			return false
		}
		w[id.Name] = true
	}
	for _, x := range b.Lhs {
		id, is := x.(*ast.Ident)
		if !is {
			return false
		}
		if w[id.Name] {
			return false
		}
		for _, y := range a.Rhs {
			ast.Inspect(y, func(n ast.Node) bool {
				if i, is := n.(*ast.Ident); is && i.Name == id.Name {
					ok = false
				}
				return true
			})
		}
	}
	for _, y := range b.Rhs {
		ast.Inspect(y, func(n ast.Node) bool {
			if i, is := n.(*ast.Ident); is && w[i.Name] {
				ok = false
			}
			return true
		})
	}
	return ok
}
