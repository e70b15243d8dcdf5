package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked SSA form of the repository under analysis.
type Program struct {
	configDirs map[string]bool // where the configuration is kept (C32)
	Dir        string
	Module     string
	Fset       *token.FileSet
	Pkgs       []*packages.Package
	Prog       *ssa.Program
	Repo       map[*ssa.Package]bool
	Funcs      []*ssa.Function // every function of the repository with a body, closures included
	byPkg      map[string]*ssa.Package

	modset    map[*ssa.Function]map[string]bool
	sites     map[*ssa.Function][]ssa.CallInstruction
	invoked   map[string]bool
	callees   map[*ssa.Function][]*ssa.Function
	addrTaken map[*ssa.Function]bool
	globals   map[*ssa.Global]*globalInfo
	implCache map[string][]*ssa.Function
	opCache   map[string]string
}

type globalInfo struct {
	initStores []*ssa.Store
	otherStore []*ssa.Store
	escapes    bool // address used other than by load/store
}

func LoadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadSyntax | packages.NeedModule,
		Dir:   dir,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Prog: prog, Pkgs: pkgs, Repo: map[*ssa.Package]bool{}, byPkg: map[string]*ssa.Package{}, implCache: map[string][]*ssa.Function{}}
	p.Fset = prog.Fset
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		p.Repo[sp] = true
		if pkgs[i].Module != nil {
			p.Module = pkgs[i].Module.Path
		}
	}
	for sp := range p.Repo {
		rel := strings.TrimPrefix(strings.TrimPrefix(sp.Pkg.Path(), p.Module), "/")
		p.byPkg[rel] = sp
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if fn.Blocks == nil {
			continue
		}
		if p.InRepo(fn) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	// methods that are never referenced are not in AllFunctions when their type is not converted
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		seen[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil || seen[f] {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for sp := range p.Repo {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && p.InRepo(f) && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.FuncName(p.Funcs[i]) < p.FuncName(p.Funcs[j]) })
	p.index()
	return p, nil
}

// InRepo reports whether fn is declared in the repository (closures and wrappers included).
func (p *Program) InRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if fn.Pkg != nil {
		return p.Repo[fn.Pkg]
	}
	if fn.Parent() != nil {
		return p.InRepo(fn.Parent())
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), p.Module)
	}
	return false
}

// Pkg finds a repository package by its path relative to the module.
func (p *Program) Pkg(rel string) *ssa.Package { return p.byPkg[rel] }

func (p *Program) FuncName(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, p.Module+"/", "")
	return s
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (p *Program) InstrPos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	if i.Pos().IsValid() {
		return p.Pos(i.Pos())
	}
	// fall back on the nearest positioned instruction of the block, then the function
	b := i.Block()
	if b != nil {
		found := false
		best := token.NoPos
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				best = x.Pos()
			}
			if x == i {
				found = true
			}
			if found && best.IsValid() {
				return p.Pos(best)
			}
		}
	}
	return p.Pos(i.Parent().Pos())
}

// Func finds a package level function: Func("dht/krpc", "NewRpcServer").
func (p *Program) Func(rel, name string) *ssa.Function {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Method finds a method by receiver type name, pointer or value receiver.
func (p *Program) Method(rel, typ, name string) *ssa.Function {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	t := sp.Type(typ)
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		sel := p.Prog.MethodSets.MethodSet(tt).Lookup(sp.Pkg, name)
		if sel != nil {
			f := p.Prog.MethodValue(sel)
			if f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

func (p *Program) NamedType(rel, name string) types.Type {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

// index computes call edges, address-taken functions, field write sets and global facts.
func (p *Program) index() {
	p.callees = map[*ssa.Function][]*ssa.Function{}
	p.addrTaken = map[*ssa.Function]bool{}
	p.globals = map[*ssa.Global]*globalInfo{}
	ginfo := func(g *ssa.Global) *globalInfo {
		gi := p.globals[g]
		if gi == nil {
			gi = &globalInfo{}
			p.globals[g] = gi
		}
		return gi
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				var calleeOp *ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					calleeOp = &c.Common().Value
				}
				for _, o := range ops {
					if o == nil || *o == nil {
						continue
					}
					if f, ok := (*o).(*ssa.Function); ok {
						if calleeOp == nil || o != calleeOp {
							if _, isMC := in.(*ssa.MakeClosure); !isMC {
								p.addrTaken[f] = true
							} else {
								p.addrTaken[f] = true
							}
						}
					}
					if g, ok := (*o).(*ssa.Global); ok {
						gi := ginfo(g)
						switch x := in.(type) {
						case *ssa.UnOp:
						case *ssa.Store:
							if x.Addr == g {
								if fn.Name() == "init" && fn.Synthetic != "" {
									gi.initStores = append(gi.initStores, x)
								} else {
									gi.otherStore = append(gi.otherStore, x)
								}
							} else {
								gi.escapes = true
							}
						default:
							gi.escapes = true
						}
					}
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		set := map[*ssa.Function]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, f := range p.Callees(c) {
						set[f] = true
					}
				}
			}
		}
		for f := range set {
			p.callees[fn] = append(p.callees[fn], f)
		}
		sort.Slice(p.callees[fn], func(i, j int) bool { return p.FuncName(p.callees[fn][i]) < p.FuncName(p.callees[fn][j]) })
	}
	p.modset = map[*ssa.Function]map[string]bool{}
	for _, fn := range p.Funcs {
		p.modset[fn] = map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					for _, k := range addrKeys(st.Addr) {
						p.modset[fn][k] = true
					}
				}
				if mu, ok := in.(*ssa.MapUpdate); ok {
					p.modset[fn]["map:"+mu.Map.Type().Underlying().String()] = true
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
						p.modset[fn]["map:"+c.Common().Args[0].Type().Underlying().String()] = true
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.Funcs {
			m := p.modset[fn]
			for _, c := range p.callees[fn] {
				for k := range p.modset[c] {
					if !m[k] {
						m[k] = true
						changed = true
					}
				}
			}
		}
	}
}

func addrKeys(a ssa.Value) []string {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		st := derefStruct(a.X.Type())
		if st == nil {
			return nil
		}
		return []string{fieldKey(a.X.Type(), st.Field(a.Field).Name())}
	case *ssa.Global:
		return []string{"global:" + a.String()}
	case *ssa.Alloc:
		// whole-struct store
		return []string{"type:" + a.Type().Underlying().(*types.Pointer).Elem().String()}
	case *ssa.IndexAddr:
		return []string{"elem:" + a.Type().String()}
	}
	if pt, ok := a.Type().Underlying().(*types.Pointer); ok {
		return []string{"type:" + pt.Elem().String()}
	}
	return nil
}

func derefStruct(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func fieldKey(base types.Type, name string) string {
	return "field:" + derefType(base).String() + "." + name
}

// Implementations returns the repository methods an interface call can reach.
func (p *Program) Implementations(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	return p.ImplementationsOf(it, c.Method)
}

func (p *Program) ImplementationsOf(it *types.Interface, m *types.Func) []*ssa.Function {
	key := it.String() + "#" + m.Name()
	if r, ok := p.implCache[key]; ok {
		return r
	}
	var out []*ssa.Function
	for sp := range p.Repo {
		for _, mem := range sp.Members {
			t, ok := mem.(*ssa.Type)
			if !ok {
				continue
			}
			if _, isI := t.Type().Underlying().(*types.Interface); isI {
				continue
			}
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.Implements(tt, it) {
					sel := p.Prog.MethodSets.MethodSet(tt).Lookup(m.Pkg(), m.Name())
					if sel == nil {
						continue
					}
					if f := p.Prog.MethodValue(sel); f != nil {
						out = append(out, f)
						break
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return p.FuncName(out[i]) < p.FuncName(out[j]) })
	p.implCache[key] = out
	return out
}

// Callees resolves a call: static callee, closures, class hierarchy for interfaces,
// address-taken functions of the same signature for function values.
func (p *Program) Callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if cc.IsInvoke() {
		return p.Implementations(cc)
	}
	if f := cc.StaticCallee(); f != nil {
		if f.Blocks != nil && (p.InRepo(f) || f.Synthetic != "") {
			return []*ssa.Function{f}
		}
		return nil
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	return p.dynCallees(cc)
}

// dynCallees: the functions a function value can be.
func (p *Program) dynCallees(cc *ssa.CallCommon) []*ssa.Function {
	if fs, ok := p.funcTargets(cc.Value, 6); ok {
		var out []*ssa.Function
		for _, f := range fs {
			if f.Blocks != nil && (p.InRepo(f) || f.Synthetic != "") {
				out = append(out, f)
			}
		}
		return out
	}
	return p.FuncValues(cc.Value.Type())
}

// staticSites: where a function is called by name, and the method names called through interfaces.
func (p *Program) staticSites() (map[*ssa.Function][]ssa.CallInstruction, map[string]bool) {
	if p.sites == nil {
		p.sites, p.invoked = map[*ssa.Function][]ssa.CallInstruction{}, map[string]bool{}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if c.Common().IsInvoke() {
						p.invoked[c.Common().Method.Name()] = true
					} else if f := c.Common().StaticCallee(); f != nil {
						p.sites[f] = append(p.sites[f], c)
					}
				}
			}
		}
	}
	return p.sites, p.invoked
}

// funcTargets resolves a function value to the functions that flow into it, when all of them are visible.
func (p *Program) funcTargets(v ssa.Value, depth int) ([]*ssa.Function, bool) {
	if depth == 0 {
		return nil, false
	}
	join := func(vs []ssa.Value) ([]*ssa.Function, bool) {
		var out []*ssa.Function
		seen := map[*ssa.Function]bool{}
		for _, x := range vs {
			fs, ok := p.funcTargets(x, depth-1)
			if !ok {
				return nil, false
			}
			for _, f := range fs {
				if !seen[f] {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
		return out, true
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}, true
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}, true
	case *ssa.ChangeType:
		return p.funcTargets(x.X, depth)
	case *ssa.Phi:
		return join(x.Edges)
	case *ssa.Const:
		return nil, x.IsNil()
	case *ssa.Parameter:
		fn := x.Parent()
		sites, invoked := p.staticSites()
		if p.addrTaken[fn] || fn.Parent() != nil || fn.Signature.Recv() != nil && invoked[fn.Name()] || len(sites[fn]) == 0 {
			return nil, false
		}
		var vs []ssa.Value
		for i, q := range fn.Params {
			if q != x {
				continue
			}
			for _, c := range sites[fn] {
				if i >= len(c.Common().Args) {
					return nil, false
				}
				vs = append(vs, c.Common().Args[i])
			}
		}
		return join(vs)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, false
		}
		return p.cellTargets(x.X, depth, join)
	case *ssa.FreeVar:
		b, ok := p.bindings(x)
		if !ok {
			return nil, false
		}
		return join(b)
	}
	return nil, false
}

// bindings: the values a captured variable is bound to.
func (p *Program) bindings(x *ssa.FreeVar) ([]ssa.Value, bool) {
	fn := x.Parent()
	i := -1
	for j, fv := range fn.FreeVars {
		if fv == x {
			i = j
		}
	}
	if fn.Parent() == nil || i < 0 {
		return nil, false
	}
	var vs []ssa.Value
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				vs = append(vs, mc.Bindings[i])
			}
		}
	}
	return vs, len(vs) > 0
}

// cellTargets: the functions stored in a local variable.
func (p *Program) cellTargets(a ssa.Value, depth int, join func([]ssa.Value) ([]*ssa.Function, bool)) ([]*ssa.Function, bool) {
	switch x := a.(type) {
	case *ssa.FreeVar:
		b, ok := p.bindings(x)
		if !ok || len(b) != 1 || depth < 2 {
			return nil, false
		}
		return p.cellTargets(b[0], depth-1, join)
	case *ssa.Alloc:
		var vs []ssa.Value
		var scan func(cell ssa.Value) bool
		scan = func(cell ssa.Value) bool {
			if cell.Referrers() == nil {
				return false
			}
			for _, r := range *cell.Referrers() {
				switch in := r.(type) {
				case *ssa.DebugRef, *ssa.UnOp:
				case *ssa.Store:
					if in.Addr != cell {
						return false
					}
					vs = append(vs, in.Val)
				case *ssa.MakeClosure:
					for i, b := range in.Bindings {
						if b == cell && !scan(in.Fn.(*ssa.Function).FreeVars[i]) {
							return false
						}
					}
				default:
					return false
				}
			}
			return true
		}
		if !scan(x) {
			return nil, false
		}
		return join(vs)
	}
	return nil, false
}

// FuncValues lists the repository functions whose value is taken and whose signature is t's.
func (p *Program) FuncValues(t types.Type) []*ssa.Function {
	sig, ok := t.Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if !p.addrTaken[f] {
			continue
		}
		if f.Signature.Recv() == nil && types.Identical(stripRecv(f.Signature), stripRecv(sig)) {
			out = append(out, f)
		}
	}
	return out
}

func stripRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// Reachable returns the functions reachable from the roots, go statements and closures created included.
func (p *Program) Reachable(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	push := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !seen[f] {
			seen[f] = true
			work = append(work, f)
		}
	}
	for _, r := range roots {
		push(r)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range p.callees[f] {
			push(c)
		}
		if p.callees[f] == nil {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						for _, g := range p.Callees(c) {
							push(g)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			push(a)
		}
	}
	return seen
}

// CalleeName is the resolved full name of what a call calls, e.g. "(*sync.Mutex).Lock",
// "net.DialTimeout", "(net.Conn).Write" for interface calls, "builtin:close" or "dynamic".
func (p *Program) CalleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "(" + typeStr(cc.Value.Type(), p) + ")." + cc.Method.Name()
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return "builtin:" + f.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return p.FuncName(f)
	}
	return "dynamic"
}

func typeStr(t types.Type, p *Program) string {
	return strings.ReplaceAll(types.TypeString(t, nil), p.Module+"/", "")
}
