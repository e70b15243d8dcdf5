// inlineall DIR: inlines every call of an unexported function of the repository in DIR, where that
// needs no function literal, and removes the functions that are then unused. It uses an internal
// package of x/tools, so it is built inside a copy of that module (dev/autoref.sh does).
package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/inspector"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/types/typeutil"
	"golang.org/x/tools/internal/refactor/inline"
)

func load(dir string) []*packages.Package {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	return pkgs
}

func main() {
	dir := os.Args[1]
	skip := map[string]bool{}
	total := 0
	for pass := 0; pass < 60; pass++ {
		pkgs := load(dir)
		done := 0
		for _, p := range pkgs {
			if len(p.Errors) > 0 {
				fmt.Println("ERR", p.Errors[0])
				os.Exit(1)
			}
			decls := map[types.Object]*ast.FuncDecl{}
			src := map[*ast.FuncDecl][]byte{}
			calls := map[types.Object]map[types.Object]bool{}
			for _, f := range p.Syntax {
				b, _ := os.ReadFile(p.Fset.File(f.Pos()).Name())
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
						o := p.TypesInfo.Defs[fd.Name]
						decls[o] = fd
						src[fd] = b
						calls[o] = map[types.Object]bool{}
						ast.Inspect(fd, func(x ast.Node) bool {
							if c, ok := x.(*ast.CallExpr); ok {
								if g := typeutil.StaticCallee(p.TypesInfo, c); g != nil {
									calls[o][g] = true
								}
							}
							return true
						})
					}
				}
			}
			reach := func(a, b types.Object) bool {
				seen := map[types.Object]bool{}
				var w func(o types.Object) bool
				w = func(o types.Object) bool {
					for g := range calls[o] {
						if g == b {
							return true
						}
						if !seen[g] {
							seen[g] = true
							if w(g) {
								return true
							}
						}
					}
					return false
				}
				return w(a)
			}
			for _, f := range p.Syntax {
				name := p.Fset.File(f.Pos()).Name()
				content, _ := os.ReadFile(name)
				in := inspector.New([]*ast.File{f})
				for cur := range in.Root().Preorder((*ast.CallExpr)(nil)) {
					c := cur.Node().(*ast.CallExpr)
					g := typeutil.StaticCallee(p.TypesInfo, c)
					if g == nil || decls[g] == nil || g.Exported() || g.Name() == "init" {
						continue
					}
					var encl *ast.FuncDecl
					for e := range cur.Enclosing((*ast.FuncDecl)(nil)) {
						encl = e.Node().(*ast.FuncDecl)
					}
					if encl == nil || reach(g, g) {
						continue
					}
					key := fmt.Sprint(name, encl.Name.Name, " ", g.FullName(), " ", p.Fset.Position(c.Pos()).Offset-p.Fset.Position(encl.Pos()).Offset)
					if skip[key] {
						continue
					}
					callee, err := inline.AnalyzeCallee(func(string, ...any) {}, p.Fset, p.Types, p.TypesInfo, decls[g], src[decls[g]])
					if err != nil {
						skip[key] = true
						continue
					}
					res, err := inline.Inline(&inline.Caller{Fset: p.Fset, Types: p.Types, Info: p.TypesInfo, Call: cur,
						CountUses: func(pn *types.PkgName) int {
							n := 0
							for _, o := range p.TypesInfo.Uses {
								if o == pn {
									n++
								}
							}
							return n
						}}, callee, &inline.Options{Recover: true})
					if err != nil || res.Literalized {
						skip[key] = true
						continue
					}
					type ed struct {
						a, b int
						t    string
					}
					var eds []ed
					for _, e := range res.Edits {
						eds = append(eds, ed{p.Fset.Position(e.Pos).Offset, p.Fset.Position(e.End).Offset, string(e.NewText)})
					}
					sort.Slice(eds, func(i, j int) bool { return eds[i].a > eds[j].a })
					out := string(content)
					for _, e := range eds {
						out = out[:e.a] + e.t + out[e.b:]
					}
					os.WriteFile(name, []byte(out), 0644)
					if chk := load(dir); broken(chk) {
						os.WriteFile(name, content, 0644)
						skip[key] = true
						continue
					}
					done++
					total++
					break
				}
			}
		}
		if done == 0 {
			break
		}
	}
	fmt.Println("inlined", total)
	// remove what is unused
	for {
		pkgs := load(dir)
		removed := 0
		for _, p := range pkgs {
			used := map[types.Object]bool{}
			for _, o := range p.TypesInfo.Uses {
				used[o] = true
			}
			names := map[string]bool{}
			if len(p.GoFiles) == 0 {
				continue
			}
			d := p.GoFiles[0][:strings.LastIndex(p.GoFiles[0], "/")]
			ents, _ := os.ReadDir(d)
			for _, e := range ents {
				if strings.HasSuffix(e.Name(), "_test.go") {
					b, _ := os.ReadFile(d + "/" + e.Name())
					for _, w := range strings.FieldsFunc(string(b), func(r rune) bool {
						return !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
					}) {
						names[w] = true
					}
				}
			}
			for _, f := range p.Syntax {
				name := p.Fset.File(f.Pos()).Name()
				content, _ := os.ReadFile(name)
				for i := len(f.Decls) - 1; i >= 0; i-- {
					fd, ok := f.Decls[i].(*ast.FuncDecl)
					if !ok || fd.Name.IsExported() || fd.Name.Name == "init" || fd.Name.Name == "main" || names[fd.Name.Name] || used[p.TypesInfo.Defs[fd.Name]] {
						continue
					}
					a, b := p.Fset.Position(fd.Pos()).Offset, p.Fset.Position(fd.End()).Offset
					if fd.Doc != nil {
						a = p.Fset.Position(fd.Doc.Pos()).Offset
					}
					out := string(content[:a]) + string(content[b:])
					os.WriteFile(name, []byte(out), 0644)
					if broken(load(dir)) {
						os.WriteFile(name, content, 0644)
						continue
					}
					fmt.Println("removed", fd.Name.Name)
					removed++
					content = []byte(out)
				}
			}
		}
		if removed == 0 {
			break
		}
	}
}

func broken(pkgs []*packages.Package) bool {
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return true
		}
	}
	return false
}
