// autoref rewrites a copy of the repository without changing what it does:
//
//	autoref MODE DIR
//
// Development only: every check must stay quiet on the result.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	pkg  *packages.Package
	file *ast.File
	n    int
)

func fresh(p string) *ast.Ident { n++; return ast.NewIdent(fmt.Sprintf("%s%d", p, n)) }

func qual(p *types.Package) string {
	if p == pkg.Types {
		return ""
	}
	for _, im := range file.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if path == p.Path() {
			if im.Name != nil {
				return im.Name.Name
			}
			return p.Name()
		}
	}
	return "\x00"
}

func typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, qual)
	if strings.Contains(s, "\x00") || strings.Contains(s, "untyped") || strings.Contains(s, "invalid") {
		return nil
	}
	return ast.NewIdent(s)
}

func terminates(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ReturnStmt, *ast.BranchStmt:
		return true
	case *ast.BlockStmt:
		return len(s.List) > 0 && terminates(s.List[len(s.List)-1])
	case *ast.IfStmt:
		return s.Else != nil && terminates(s.Body) && terminates(s.Else)
	}
	return false
}

func hasLabelUse(b ast.Node, breaks bool) bool {
	f := false
	var walk func(ast.Node, bool)
	walk = func(x ast.Node, in bool) {
		ast.Inspect(x, func(y ast.Node) bool {
			switch y := y.(type) {
			case *ast.FuncLit:
				return false
			case *ast.LabeledStmt:
				f = true
			case *ast.BranchStmt:
				if y.Label != nil || breaks && y.Tok == token.BREAK {
					f = true
				}
			}
			return true
		})
	}
	walk(b, true)
	return f
}

func lists(f *ast.File, fn func(l []ast.Stmt) []ast.Stmt) {
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			x.List = fn(x.List)
		case *ast.CaseClause:
			x.Body = fn(x.Body)
		case *ast.CommClause:
			x.Body = fn(x.Body)
		}
		return true
	})
}

func main() {
	mode, dir := os.Args[1], os.Args[2]
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	used := map[string]bool{} // names in tests
	for _, p := range pkgs {
		if len(p.GoFiles) == 0 {
			continue
		}
		ents, _ := os.ReadDir(strings.TrimSuffix(p.GoFiles[0], "/"+p.GoFiles[0][strings.LastIndex(p.GoFiles[0], "/")+1:]))
		d := p.GoFiles[0][:strings.LastIndex(p.GoFiles[0], "/")]
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), "_test.go") {
				b, _ := os.ReadFile(d + "/" + e.Name())
				for _, w := range strings.FieldsFunc(string(b), func(r rune) bool {
					return !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
				}) {
					used[w] = true
				}
			}
		}
	}
	for _, p := range pkgs {
		pkg = p
		for i, f := range p.Syntax {
			file = f
			f.Comments = nil
			ast.Inspect(f, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.FuncDecl:
					x.Doc = nil
				case *ast.GenDecl:
					x.Doc = nil
				case *ast.Field:
					x.Doc, x.Comment = nil, nil
				case *ast.ValueSpec:
					x.Doc, x.Comment = nil, nil
				case *ast.TypeSpec:
					x.Doc, x.Comment = nil, nil
				case *ast.ImportSpec:
					x.Doc, x.Comment = nil, nil
				}
				return true
			})
			f.Doc = nil
			transform(mode, f, used)
			var b bytes.Buffer
			if err := format.Node(&b, p.Fset, f); err != nil {
				panic(err)
			}
			os.WriteFile(p.CompiledGoFiles[i], b.Bytes(), 0644)
		}
	}
}

func local(o types.Object) bool {
	return o != nil && o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), "github.com/GalaIO/")
}

func transform(mode string, f *ast.File, used map[string]bool) {
	info := pkg.TypesInfo
	for _, m := range strings.Split(mode, "+") {
		one(m, f, used, info)
	}
}

func one(mode string, f *ast.File, used map[string]bool, info *types.Info) {
	switch mode {
	case "none":
	case "extractif", "extractloop", "extractfor", "extracttail", "extracttail1", "extractcond", "caserev", "keyrev", "structset", "hoistlit", "swapstmt":
		extract(mode, f)
	case "rename":
		ast.Inspect(f, func(x ast.Node) bool {
			id, ok := x.(*ast.Ident)
			if !ok {
				return true
			}
			o := info.ObjectOf(id)
			if !local(o) || o.Exported() || used[o.Name()] || o.Name() == "init" || o.Name() == "main" || o.Name() == "_" {
				return true
			}
			if _, ok := o.(*types.PkgName); ok {
				return true
			}
			if v, ok := o.(*types.Var); ok && v.Embedded() {
				return true
			}
			id.Name = o.Name() + "Zz"
			return true
		})
	case "reverse":
		var a, b []ast.Decl
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name != "init" {
				b = append([]ast.Decl{d}, b...)
			} else {
				a = append(a, d)
			}
		}
		f.Decls = append(a, b...)
	case "nop":
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			if len(l) > 0 {
				if _, ok := l[0].(*ast.CaseClause); ok {
					return l
				}
				if _, ok := l[0].(*ast.CommClause); ok {
					return l
				}
			}
			return append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}}, l...)
		})
	case "invert":
		ast.Inspect(f, func(x ast.Node) bool {
			i, ok := x.(*ast.IfStmt)
			if !ok {
				return true
			}
			c := &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: i.Cond}}
			var els *ast.BlockStmt
			switch e := i.Else.(type) {
			case nil:
				els = &ast.BlockStmt{}
			case *ast.BlockStmt:
				els = e
			default:
				els = &ast.BlockStmt{List: []ast.Stmt{e}}
			}
			i.Cond, i.Body, i.Else = c, els, i.Body
			return true
		})
	case "elsify":
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			for k, s := range l {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Else != nil || !terminates(i.Body) || k+1 >= len(l) {
					continue
				}
				i.Else = &ast.BlockStmt{List: append([]ast.Stmt(nil), l[k+1:]...)}
				return l[:k+1]
			}
			return l
		})
	case "retvar":
		var sigs []*types.Signature
		astutil.Apply(f, func(c *astutil.Cursor) bool {
			switch x := c.Node().(type) {
			case *ast.FuncDecl:
				sigs = append(sigs, info.Defs[x.Name].Type().(*types.Signature))
			case *ast.FuncLit:
				sigs = append(sigs, info.TypeOf(x).(*types.Signature))
			case *ast.ReturnStmt:
				sig := sigs[len(sigs)-1]
				if len(x.Results) == 0 || len(x.Results) != sig.Results().Len() || c.Index() < 0 {
					return true
				}
				var ids []ast.Expr
				for i, e := range x.Results {
					t := typeExpr(sig.Results().At(i).Type())
					if t == nil {
						return true
					}
					id := fresh("ret")
					c.InsertBefore(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id}, Type: t, Values: []ast.Expr{e}}}}})
					ids = append(ids, ast.NewIdent(id.Name))
				}
				x.Results = ids
			}
			return true
		}, func(c *astutil.Cursor) bool {
			switch c.Node().(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				sigs = sigs[:len(sigs)-1]
			}
			return true
		})
	case "delegate":
		var more []ast.Decl
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" || fd.Name.Name == "main" {
				continue
			}
			direct := false // recover must stay where it is
			ast.Inspect(fd.Body, func(y ast.Node) bool {
				if _, ok := y.(*ast.FuncLit); ok {
					return false
				}
				if c, ok := y.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "recover" {
						direct = true
					}
				}
				return true
			})
			if direct {
				continue
			}
			in := &ast.FuncDecl{Recv: fd.Recv, Name: ast.NewIdent(fd.Name.Name + "Inner"), Type: fd.Type, Body: fd.Body}
			if ast.IsExported(in.Name.Name) {
				in.Name.Name = "do" + in.Name.Name
			}
			var fun ast.Expr = in.Name
			cp := func(fl *ast.FieldList, named bool) (*ast.FieldList, []ast.Expr, bool) {
				if fl == nil {
					return nil, nil, false
				}
				o := &ast.FieldList{}
				var as []ast.Expr
				va := false
				for _, q := range fl.List {
					c := len(q.Names)
					if c == 0 {
						c = 1
					}
					for i := 0; i < c; i++ {
						nf := &ast.Field{Type: q.Type}
						if named {
							id := fresh("p")
							nf.Names = []*ast.Ident{id}
							as = append(as, ast.NewIdent(id.Name))
						}
						if _, ok := q.Type.(*ast.Ellipsis); ok {
							va = true
						}
						o.List = append(o.List, nf)
					}
				}
				return o, as, va
			}
			ps, args, va := cp(fd.Type.Params, true)
			rs, _, _ := cp(fd.Type.Results, false)
			recv, ra, _ := cp(fd.Recv, true)
			if recv != nil {
				fun = &ast.SelectorExpr{X: ra[0], Sel: ast.NewIdent(in.Name.Name)}
			}
			call := &ast.CallExpr{Fun: fun, Args: args}
			if va {
				call.Ellipsis = 1
			}
			var body ast.Stmt = &ast.ExprStmt{X: call}
			if rs != nil && len(rs.List) > 0 {
				body = &ast.ReturnStmt{Results: []ast.Expr{call}}
			}
			fd.Recv, fd.Type, fd.Body = recv, &ast.FuncType{Params: ps, Results: rs}, &ast.BlockStmt{List: []ast.Stmt{body}}
			more = append(more, in)
		}
		f.Decls = append(f.Decls, more...)
	case "forbreak":
		ast.Inspect(f, func(x ast.Node) bool {
			l, ok := x.(*ast.ForStmt)
			if !ok || l.Cond == nil {
				return true
			}
			l.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: l.Cond}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, l.Body.List...)
			l.Cond = nil
			return true
		})
	case "rangeidx":
		astutil.Apply(f, func(c *astutil.Cursor) bool {
			l, ok := c.Node().(*ast.RangeStmt)
			if !ok || c.Index() < 0 || l.Tok != token.DEFINE {
				return true
			}
			if _, ok := info.TypeOf(l.X).Underlying().(*types.Slice); !ok {
				return true
			}
			xs, i := fresh("xs"), fresh("i")
			c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{xs}, Tok: token.DEFINE, Rhs: []ast.Expr{l.X}})
			var pre []ast.Stmt
			def := func(e ast.Expr, v ast.Expr) {
				if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{v}})
				}
			}
			def(l.Key, ast.NewIdent(i.Name))
			def(l.Value, &ast.IndexExpr{X: ast.NewIdent(xs.Name), Index: ast.NewIdent(i.Name)})
			c.Replace(&ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{i}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
				Cond: &ast.BinaryExpr{X: ast.NewIdent(i.Name), Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{ast.NewIdent(xs.Name)}}},
				Post: &ast.IncDecStmt{X: ast.NewIdent(i.Name), Tok: token.INC},
				Body: &ast.BlockStmt{List: append(pre, l.Body.List...)},
			})
			return true
		}, nil)
	case "swapcmp":
		ast.Inspect(f, func(x ast.Node) bool {
			b, ok := x.(*ast.BinaryExpr)
			if !ok {
				return true
			}
			op, ok := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[b.Op]
			if ok {
				b.X, b.Op, b.Y = b.Y, op, b.X
			}
			return true
		})
	case "splitif":
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Init == nil {
					out = append(out, s)
					continue
				}
				in := i.Init
				i.Init = nil
				out = append(out, &ast.BlockStmt{List: []ast.Stmt{in, i}})
			}
			return out
		})
	case "andif": // if a && b {..} without else: nested
		ast.Inspect(f, func(x ast.Node) bool {
			i, ok := x.(*ast.IfStmt)
			if !ok || i.Else != nil {
				return true
			}
			if b, ok := i.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
				i.Cond = b.X
				i.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: i.Body}}}
			}
			return true
		})
	case "condvar":
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				if i, ok := s.(*ast.IfStmt); ok && i.Init == nil {
					id := fresh("cond")
					out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{i.Cond}})
					i.Cond = ast.NewIdent(id.Name)
				}
				out = append(out, s)
			}
			return out
		})
	case "switchif":
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			sw, ok := c.Node().(*ast.SwitchStmt)
			if !ok || sw.Tag == nil || hasLabelUse(sw.Body, true) {
				return true
			}
			tag := fresh("tag")
			blk := &ast.BlockStmt{}
			if sw.Init != nil {
				blk.List = append(blk.List, sw.Init)
			}
			blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{tag}, Tok: token.DEFINE, Rhs: []ast.Expr{sw.Tag}})
			var def *ast.BlockStmt
			var first, last *ast.IfStmt
			for _, s := range sw.Body.List {
				cc := s.(*ast.CaseClause)
				b := &ast.BlockStmt{List: cc.Body}
				if cc.List == nil {
					def = b
					continue
				}
				var cond ast.Expr
				for _, e := range cc.List {
					q := ast.Expr(&ast.BinaryExpr{X: ast.NewIdent(tag.Name), Op: token.EQL, Y: e})
					if cond == nil {
						cond = q
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: q}
					}
				}
				i := &ast.IfStmt{Cond: cond, Body: b}
				if first == nil {
					first = i
				} else {
					last.Else = i
				}
				last = i
			}
			if first == nil {
				return true
			}
			if def != nil {
				last.Else = def
			}
			blk.List = append(blk.List, first)
			c.Replace(blk)
			return true
		})
	case "ifswitch":
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			i, ok := c.Node().(*ast.IfStmt)
			if !ok || c.Name() == "Else" || hasLabelUse(i, true) {
				return true
			}
			sw := &ast.SwitchStmt{Init: i.Init, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.CaseClause{List: []ast.Expr{i.Cond}, Body: i.Body.List}}}}
			if i.Else != nil {
				sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{i.Else}})
			}
			c.Replace(sw)
			return true
		})
	case "tmpargs":
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				var call *ast.CallExpr
				switch x := s.(type) {
				case *ast.ExprStmt:
					call, _ = x.X.(*ast.CallExpr)
				case *ast.AssignStmt:
					if len(x.Rhs) == 1 {
						call, _ = x.Rhs[0].(*ast.CallExpr)
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 1 {
						call, _ = x.Results[0].(*ast.CallExpr)
					}
				}
				if call != nil && !info.Types[call.Fun].IsType() && !info.Types[call.Fun].IsBuiltin() {
					if len(call.Args) == 1 {
						if _, ok := info.TypeOf(call.Args[0]).(*types.Tuple); ok {
							out = append(out, s)
							continue
						}
					}
					for k, a := range call.Args {
						switch y := a.(type) {
						case *ast.CallExpr, *ast.SelectorExpr, *ast.CompositeLit, *ast.BinaryExpr, *ast.SliceExpr:
							_ = y
							t := info.TypeOf(a)
							if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 || t == nil {
								continue
							}
							if info.Types[a].Value != nil {
								continue
							}
							id := fresh("arg")
							out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
							call.Args[k] = ast.NewIdent(id.Name)
						}
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "deferfn":
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				if d, ok := s.(*ast.DeferStmt); ok {
					if fl, ok := d.Call.Fun.(*ast.FuncLit); ok && len(d.Call.Args) == 0 {
						id := fresh("cleanup")
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{fl}})
						d.Call.Fun = ast.NewIdent(id.Name)
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "gofn":
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				if d, ok := s.(*ast.GoStmt); ok && len(d.Call.Args) == 0 {
					if _, ok := d.Call.Fun.(*ast.FuncLit); !ok {
						d.Call.Fun = &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: d.Call.Fun}}}}}
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "recvvar": // copies of the receiver and the parameters
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil || len(fd.Recv.List[0].Names) == 0 {
				continue
			}
			old := fd.Recv.List[0].Names[0]
			if _, ptr := fd.Recv.List[0].Type.(*ast.StarExpr); !ptr || old.Name == "_" {
				continue
			}
			nw := fresh("recv")
			name := old.Name
			fd.Recv.List[0].Names[0] = nw
			fd.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{ast.NewIdent(nw.Name)}},
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(name)}}}, fd.Body.List...)
		}
	case "closure": // the body of every function becomes a closure that is called at once
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" || fd.Name.Name == "main" {
				continue
			}
			has := false
			ast.Inspect(fd.Body, func(y ast.Node) bool {
				if id, ok := y.(*ast.Ident); ok && id.Name == "recover" {
					has = true
				}
				return true
			})
			if has || fd.Type.Results != nil && len(fd.Type.Results.List) > 0 && len(fd.Type.Results.List[0].Names) > 0 {
				continue
			}
			call := &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}, Body: fd.Body}}
			var s ast.Stmt = &ast.ExprStmt{X: call}
			if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
				s = &ast.ReturnStmt{Results: []ast.Expr{call}}
			}
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{s}}
		}
	default:
		panic(mode)
	}
}
