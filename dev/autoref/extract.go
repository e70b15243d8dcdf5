package main

import (
	"go/ast"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ast/astutil"
)

type span struct{ from, to token.Pos }

func (s span) in(p token.Pos) bool { return p >= s.from && p < s.to }

// piece: what a run of statements needs from and gives to the function around it.
type piece struct {
	free     []*types.Var
	assigned []*types.Var
	ok       bool
}

func isLocalVar(o types.Object) bool {
	v, ok := o.(*types.Var)
	return ok && !v.IsField() && v.Parent() != nil && v.Pkg() == pkg.Types && v.Parent() != pkg.Types.Scope()
}

func rootIdent(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.ParenExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func analyse(nodes []ast.Node, sp span, fn ast.Node, tail bool) piece {
	info := pkg.TypesInfo
	p := piece{ok: true}
	seen, asg := map[*types.Var]bool{}, map[*types.Var]bool{}
	mark := func(e ast.Expr) {
		if id := rootIdent(e); id != nil {
			if v, ok := info.ObjectOf(id).(*types.Var); ok && isLocalVar(v) && !sp.in(v.Pos()) && !asg[v] {
				asg[v] = true
				p.assigned = append(p.assigned, v)
			}
		}
	}
	for _, nd := range nodes {
		ast.Inspect(nd, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.Ident:
				o := info.ObjectOf(x)
				if o == nil || o.Pkg() != pkg.Types || o.Parent() == pkg.Types.Scope() || sp.in(o.Pos()) {
					return true
				}
				if v, ok := o.(*types.Var); ok {
					if v.IsField() || !isLocalVar(v) {
						return true
					}
					if !seen[v] {
						seen[v] = true
						p.free = append(p.free, v)
					}
				} else if o.Parent() != nil {
					if _, isFn := o.(*types.Func); !isFn {
						if _, isPkg := o.(*types.PkgName); !isPkg {
							p.ok = false
						}
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(x.X)
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					mark(x.Key)
					if x.Value != nil {
						mark(x.Value)
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					mark(x.X)
					if id := rootIdent(x.X); id != nil {
						p.ok = false
					}
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "recover" {
					p.ok = false
				}
			case *ast.LabeledStmt:
				p.ok = false
			}
			return true
		})
	}
	for _, v := range p.free {
		if typeExpr(v.Type()) == nil {
			p.ok = false
		}
		switch v.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			p.ok = false
		}
	}
	// variables that closures use keep their place
	lits := map[*types.Var]bool{}
	ast.Inspect(fn, func(x ast.Node) bool {
		if fl, ok := x.(*ast.FuncLit); ok && x != fn {
			ast.Inspect(fl, func(y ast.Node) bool {
				if id, ok := y.(*ast.Ident); ok {
					if v, ok := info.ObjectOf(id).(*types.Var); ok {
						lits[v] = true
					}
				}
				return true
			})
		}
		if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.AND {
			if id := rootIdent(u.X); id != nil {
				if v, ok := info.ObjectOf(id).(*types.Var); ok {
					lits[v] = true
				}
			}
		}
		return true
	})
	for _, v := range p.assigned {
		if lits[v] {
			p.ok = false
		}
	}
	return p
}

func use(v *types.Var) *ast.Ident {
	id := ast.NewIdent(v.Name())
	pkg.TypesInfo.Uses[id] = v
	return id
}

func params(vs []*types.Var) *ast.FieldList {
	fl := &ast.FieldList{}
	for _, v := range vs {
		id := ast.NewIdent(v.Name())
		pkg.TypesInfo.Defs[id] = v
		fl.List = append(fl.List, &ast.Field{Names: []*ast.Ident{id}, Type: typeExpr(v.Type())})
	}
	return fl
}

func args(vs []*types.Var) (l []ast.Expr) {
	for _, v := range vs {
		l = append(l, use(v))
	}
	return
}

// escapes: statements leave the block other than at its end.
func escapes(b ast.Node, contIsReturn bool) (bad, conts bool) {
	var walk func(x ast.Node, brk, cont bool)
	walk = func(x ast.Node, brk, cont bool) {
		ast.Inspect(x, func(y ast.Node) bool {
			if y == x {
				return true
			}
			switch y := y.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt, *ast.DeferStmt:
				bad = true
			case *ast.ForStmt, *ast.RangeStmt:
				walk(y, true, true)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(y, true, cont)
				return false
			case *ast.BranchStmt:
				switch {
				case y.Label != nil || y.Tok == token.GOTO:
					bad = true
				case y.Tok == token.BREAK && !brk:
					bad = true
				case y.Tok == token.CONTINUE && !cont:
					if contIsReturn {
						conts = true
					} else {
						bad = true
					}
				}
			}
			return true
		})
	}
	walk(b, false, false)
	return
}

func returnsForConts(b *ast.BlockStmt, vs []*types.Var) {
	depth := 0
	astutil.Apply(b, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.FuncLit:
			return false
		case *ast.ForStmt, *ast.RangeStmt:
			depth++
		case *ast.BranchStmt:
			if x.Tok == token.CONTINUE && depth == 0 {
				c.Replace(&ast.ReturnStmt{Results: args(vs)})
			}
		}
		return true
	}, func(c *astutil.Cursor) bool {
		switch c.Node().(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			depth--
		}
		return true
	})
}

// outline moves statements to a function of their own and returns what takes their place.
func outline(f *ast.File, l []ast.Stmt, fn ast.Node, contIsReturn bool) []ast.Stmt {
	if len(l) == 0 {
		return nil
	}
	sp := span{l[0].Pos(), l[len(l)-1].End()}
	if !sp.from.IsValid() {
		return nil
	}
	var nodes []ast.Node
	for _, s := range l {
		nodes = append(nodes, s)
	}
	p := analyse(nodes, sp, fn, false)
	var live []*types.Var
	for _, v := range p.assigned {
		used := false
		ast.Inspect(fn, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.Ident:
				used = used || x.Pos() >= sp.to && pkg.TypesInfo.ObjectOf(x) == v
			case *ast.ForStmt:
				used = used || x.Pos() > v.Pos() && span{x.Pos(), x.End()}.in(sp.from)
			case *ast.RangeStmt:
				used = used || x.Pos() > v.Pos() && span{x.Pos(), x.End()}.in(sp.from)
			}
			return true
		})
		if used {
			live = append(live, v)
		}
	}
	p.assigned = live
	blk := &ast.BlockStmt{List: l}
	bad, conts := escapes(blk, contIsReturn)
	if !p.ok || bad || len(p.assigned) > 3 {
		return nil
	}
	if conts {
		returnsForConts(blk, p.assigned)
	}
	d := &ast.FuncDecl{Name: fresh("outlined" + fileTag()), Type: &ast.FuncType{Params: params(p.free)}, Body: blk}
	call := &ast.CallExpr{Fun: ast.NewIdent(d.Name.Name), Args: args(p.free)}
	f.Decls = append(f.Decls, d)
	if len(p.assigned) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: call}}
	}
	d.Type.Results = &ast.FieldList{}
	for _, v := range p.assigned {
		d.Type.Results.List = append(d.Type.Results.List, &ast.Field{Type: typeExpr(v.Type())})
	}
	if len(blk.List) == 0 || !terminates(blk) {
		blk.List = append(blk.List, &ast.ReturnStmt{Results: args(p.assigned)})
	}
	return []ast.Stmt{&ast.AssignStmt{Lhs: args(p.assigned), Tok: token.ASSIGN, Rhs: []ast.Expr{call}}}
}

func fileTag() string {
	s := pkg.Fset.Position(file.Package).Filename
	out := []byte{}
	for i := len(s) - 4; i >= 0 && s[i] != '/'; i-- {
		if s[i] >= 'a' && s[i] <= 'z' {
			out = append([]byte{s[i]}, out...)
		}
	}
	return string(out)
}

func funcsOf(f *ast.File) []*ast.FuncDecl {
	var out []*ast.FuncDecl
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			out = append(out, fd)
		}
	}
	return out
}

func extract(mode string, f *ast.File) {
	info := pkg.TypesInfo
	for _, fd := range funcsOf(f) {
		fd := fd
		switch mode {
		case "extractif", "extractloop", "extractfor":
			astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
				switch x := c.Node().(type) {
				case *ast.IfStmt:
					if mode == "extractif" {
						if n := outline(f, x.Body.List, fd, false); n != nil {
							x.Body = &ast.BlockStmt{List: n}
						}
					}
				case *ast.ForStmt, *ast.RangeStmt:
					if mode == "extractfor" && c.Index() >= 0 {
						if n := outline(f, []ast.Stmt{x.(ast.Stmt)}, fd, false); n != nil {
							c.Replace(n[0])
						}
						return true
					}
					if mode != "extractloop" {
						return true
					}
					switch x := x.(type) {
					case *ast.ForStmt:
						if n := outline(f, x.Body.List, fd, true); n != nil {
							x.Body = &ast.BlockStmt{List: n}
						}
					case *ast.RangeStmt:
						if n := outline(f, x.Body.List, fd, true); n != nil {
							x.Body = &ast.BlockStmt{List: n}
						}
					}
				}
				return true
			})
		case "extracttail", "extracttail1":
			l := fd.Body.List
			k := len(l) / 2
			if mode == "extracttail1" {
				k = 1
			}
			if len(l) < 2 || k == 0 {
				continue
			}
			named := false
			if fd.Type.Results != nil {
				for _, r := range fd.Type.Results.List {
					named = named || len(r.Names) > 0
				}
			}
			sp := span{l[k].Pos(), l[len(l)-1].End()}
			var nodes []ast.Node
			for _, s := range l[k:] {
				nodes = append(nodes, s)
			}
			p := analyse(nodes, sp, fd, true)
			if named || !p.ok {
				continue
			}
			// variables assigned in the tail must not be used by closures of the head: analyse has checked
			d := &ast.FuncDecl{Name: fresh("tail" + fileTag()), Type: &ast.FuncType{Params: params(p.free), Results: fd.Type.Results}, Body: &ast.BlockStmt{List: append([]ast.Stmt(nil), l[k:]...)}}
			call := &ast.CallExpr{Fun: ast.NewIdent(d.Name.Name), Args: args(p.free)}
			f.Decls = append(f.Decls, d)
			if fd.Type.Results == nil || len(fd.Type.Results.List) == 0 {
				fd.Body.List = append(l[:k:k], &ast.ExprStmt{X: call})
			} else {
				fd.Body.List = append(l[:k:k], &ast.ReturnStmt{Results: []ast.Expr{call}})
			}
		case "extractcond":
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				i, ok := x.(*ast.IfStmt)
				if !ok {
					return true
				}
				if _, isId := i.Cond.(*ast.Ident); isId {
					return true
				}
				sp := span{i.Cond.Pos(), i.Cond.End()}
				p := analyse([]ast.Node{i.Cond}, sp, fd, false)
				if !p.ok || len(p.assigned) > 0 {
					return true
				}
				d := &ast.FuncDecl{Name: fresh("cond" + fileTag()), Type: &ast.FuncType{Params: params(p.free), Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("bool")}}}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{i.Cond}}}}}
				f.Decls = append(f.Decls, d)
				i.Cond = &ast.CallExpr{Fun: ast.NewIdent(d.Name.Name), Args: args(p.free)}
				return true
			})
		case "caserev":
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.SwitchStmt:
					if x.Tag == nil {
						return true
					}
					for _, c := range x.Body.List {
						for _, e := range c.(*ast.CaseClause).List {
							if info.Types[e].Value == nil {
								return true
							}
						}
						for _, s := range c.(*ast.CaseClause).Body {
							if b, ok := s.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
								return true
							}
						}
					}
					rev(x.Body.List)
				case *ast.TypeSwitchStmt:
					for _, c := range x.Body.List {
						for _, e := range c.(*ast.CaseClause).List {
							if t := info.TypeOf(e); t == nil || types.IsInterface(t) {
								return true
							}
						}
					}
					rev(x.Body.List)
				case *ast.SelectStmt:
					rev(x.Body.List)
				}
				return true
			})
		case "keyrev":
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				cl, ok := x.(*ast.CompositeLit)
				if !ok || len(cl.Elts) < 2 {
					return true
				}
				for _, e := range cl.Elts {
					if _, ok := e.(*ast.KeyValueExpr); !ok {
						return true
					}
				}
				for i, j := 0, len(cl.Elts)-1; i < j; i, j = i+1, j-1 {
					cl.Elts[i], cl.Elts[j] = cl.Elts[j], cl.Elts[i]
				}
				return true
			})
		case "structset":
			lists(f, func(l []ast.Stmt) []ast.Stmt { return l })
			done := func(l []ast.Stmt) []ast.Stmt {
				var out []ast.Stmt
				for _, s := range l {
					a, ok := s.(*ast.AssignStmt)
					if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
						out = append(out, s)
						continue
					}
					id, isId := a.Lhs[0].(*ast.Ident)
					u, isU := a.Rhs[0].(*ast.UnaryExpr)
					var cl *ast.CompositeLit
					if isU && u.Op == token.AND {
						cl, _ = u.X.(*ast.CompositeLit)
					} else {
						cl, _ = a.Rhs[0].(*ast.CompositeLit)
					}
					if !isId || cl == nil || id.Name == "_" {
						out = append(out, s)
						continue
					}
					st, isSt := info.TypeOf(cl).Underlying().(*types.Struct)
					mp, isMap := info.TypeOf(cl).Underlying().(*types.Map)
					_ = st
					_ = mp
					ok = isSt || isMap && !isU
					for _, e := range cl.Elts {
						_, kv := e.(*ast.KeyValueExpr)
						ok = ok && kv
					}
					if !ok {
						out = append(out, s)
						continue
					}
					elts := cl.Elts
					cl.Elts = nil
					out = append(out, s)
					for _, e := range elts {
						kv := e.(*ast.KeyValueExpr)
						var lhs ast.Expr
						if isSt {
							lhs = &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent(kv.Key.(*ast.Ident).Name)}
						} else {
							lhs = &ast.IndexExpr{X: ast.NewIdent(id.Name), Index: kv.Key}
						}
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
					}
				}
				return out
			}
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.BlockStmt:
					x.List = done(x.List)
				case *ast.CaseClause:
					x.Body = done(x.Body)
				case *ast.CommClause:
					x.Body = done(x.Body)
				}
				return true
			})
		}
	}
	if mode == "hoistlit" {
		var specs []ast.Spec
		byVal := map[string]string{}
		for _, fd := range funcsOf(f) {
			astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
				switch x := c.Node().(type) {
				case *ast.GenDecl:
					return false
				case *ast.BasicLit:
					if x.Value == "0" || x.Value == "1" || x.Value == `""` {
						return true
					}
					name, ok := byVal[x.Value]
					if !ok {
						name = fresh("lit" + fileTag()).Name
						byVal[x.Value] = name
						specs = append(specs, &ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(name)}, Values: []ast.Expr{&ast.BasicLit{Kind: x.Kind, Value: x.Value}}})
					}
					c.Replace(ast.NewIdent(name))
				}
				return true
			}, nil)
		}
		for _, s := range specs {
			f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.CONST, Specs: []ast.Spec{s}})
		}
	}
	if mode == "swapstmt" {
		pure := func(e ast.Expr) bool {
			ok := true
			ast.Inspect(e, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.CallExpr:
					if tv := info.Types[x.Fun]; !tv.IsType() && !tv.IsBuiltin() {
						ok = false
					}
				case *ast.IndexExpr, *ast.SliceExpr, *ast.TypeAssertExpr, *ast.StarExpr, *ast.FuncLit:
					ok = false
				case *ast.UnaryExpr:
					ok = ok && x.Op != token.ARROW && x.Op != token.AND
				case *ast.BinaryExpr:
					ok = ok && x.Op != token.QUO && x.Op != token.REM
				}
				return true
			})
			return ok
		}
		ids := func(es []ast.Expr) map[types.Object]bool {
			m := map[types.Object]bool{}
			for _, e := range es {
				ast.Inspect(e, func(x ast.Node) bool {
					if id, ok := x.(*ast.Ident); ok {
						m[info.ObjectOf(id)] = true
					}
					return true
				})
			}
			return m
		}
		simple := func(s ast.Stmt) *ast.AssignStmt {
			a, ok := s.(*ast.AssignStmt)
			if !ok {
				return nil
			}
			for _, e := range a.Lhs {
				switch l := e.(type) {
				case *ast.Ident:
				case *ast.SelectorExpr:
					if _, ok := l.X.(*ast.Ident); !ok {
						return nil
					}
				default:
					return nil
				}
			}
			for _, e := range a.Rhs {
				if !pure(e) {
					return nil
				}
			}
			return a
		}
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			for i := 0; i+1 < len(l); i++ {
				a, b := simple(l[i]), simple(l[i+1])
				if a == nil || b == nil {
					continue
				}
				la, lb, ra, rb := ids(a.Lhs), ids(b.Lhs), ids(a.Rhs), ids(b.Rhs)
				clash := false
				for o := range la {
					if _, isF := o.(*types.Var); isF && (lb[o] && !o.(*types.Var).IsField() && len(la) == 1 || rb[o] && (len(la) == 1 || o.(*types.Var).IsField())) {
						clash = true
					}
				}
				for o := range lb {
					if v, isV := o.(*types.Var); isV && ra[o] && (len(lb) == 1 || v.IsField()) {
						clash = true
					}
				}
				if !clash {
					l[i], l[i+1] = l[i+1], l[i]
					i++
				}
			}
			return l
		})
	}
}

func rev(l []ast.Stmt) {
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
}
