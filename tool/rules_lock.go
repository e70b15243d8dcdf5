package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "lockset analysis: every access to a mutable field of a lock-protected type (and to mutable package-level maps and slices) happens while the lock of the same object is held, writes under the exclusive lock, and a decision taken in one critical section is not acted on in another without being taken again",
		func(p *Program, r *Report) { locks(p, r, NewReport("C12")) })
	register("C12", "lock typestate: on every way out of every function (panics of callbacks included) each taken lock was released exactly once, no lock is taken again while held, the lock classes are acquired in an acyclic order, and nothing that can block on network, files, channels or waiting is called while a lock is held",
		func(p *Program, r *Report) { locks(p, NewReport("C11"), r) })
}

func isSyncType(t types.Type, names ...string) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if n.Obj().Pkg().Path() != "sync" && n.Obj().Pkg().Path() != "sync/atomic" {
		return false
	}
	if len(names) == 0 {
		return true
	}
	for _, x := range names {
		if n.Obj().Name() == x {
			return true
		}
	}
	return false
}

// guards describes which fields of which types are shared and mutable.
type guards struct {
	p       *Program
	mutex   map[string][]string        // type -> mutex fields
	fields  map[string]map[string]bool // type -> guarded fields
	globals map[*ssa.Global]bool
}

func ssaRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		default:
			return v
		}
	}
}

// memberOf: the field (or global) whose value v was loaded from or points into.
func memberOf(v ssa.Value) (fa *ssa.FieldAddr, g *ssa.Global) {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			return x, nil
		case *ssa.Global:
			return nil, x
		default:
			return nil, nil
		}
	}
}

func isInitFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		if !calledInPlace(f) {
			return false // kept while the package is initialised, runs later
		}
		f = f.Parent()
	}
	return f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

// calledInPlace: a function literal that its function only calls (or defers) itself.
func calledInPlace(f *ssa.Function) bool {
	var only func(v ssa.Value, in ssa.Instruction) bool
	only = func(v ssa.Value, in ssa.Instruction) bool {
		switch i := in.(type) {
		case *ssa.DebugRef:
			return true
		case *ssa.Call:
			return i.Call.Value == v
		case *ssa.Defer:
			return i.Call.Value == v
		case *ssa.MakeClosure:
			for _, u := range *i.Referrers() {
				if !only(i, u) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(f) && !only(f, in) {
					return false
				}
			}
		}
	}
	return true
}

func newGuards(p *Program) *guards {
	g := &guards{p: p, mutex: map[string][]string{}, fields: map[string]map[string]bool{}, globals: map[*ssa.Global]bool{}}
	cand := map[string]map[string]bool{} // type -> mutated fields
	mut := func(v ssa.Value, fn *ssa.Function, direct bool) {
		fa, gl := memberOf(v)
		if fa != nil {
			if _, ok := ssaRoot(fa).(*ssa.Alloc); ok {
				// a local variable that holds a pointer is an Alloc too: look whether the struct itself is local
				if _, ok := fa.X.(*ssa.Alloc); ok {
					return
				}
				if u, ok := fa.X.(*ssa.UnOp); ok {
					if al, ok := u.X.(*ssa.Alloc); ok && onlyFresh(al) {
						return
					}
				}
			}
			t := derefType(fa.X.Type())
			st := derefStruct(fa.X.Type())
			if st == nil {
				return
			}
			f := st.Field(fa.Field)
			if isSyncType(f.Type()) || f.Type().String() == "context.Context" {
				return
			}
			if cand[t.String()] == nil {
				cand[t.String()] = map[string]bool{}
			}
			cand[t.String()][f.Name()] = true
		}
		if gl != nil && !isInitFn(fn) && gl.Pkg != nil && p.Repo[gl.Pkg] {
			switch derefType(gl.Type()).Underlying().(type) {
			case *types.Map, *types.Slice:
				g.globals[gl] = true
			}
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr, *ssa.Global:
						mut(a, fn, true)
					case *ssa.IndexAddr:
						mut(a.X, fn, false)
					}
				case *ssa.MapUpdate:
					mut(in.Map, fn, false)
				case ssa.CallInstruction:
					if bi, ok := in.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy") {
						mut(in.Common().Args[0], fn, false)
					}
				}
			}
		}
	}
	must := map[string]bool{}
	for _, n := range [][2]string{{"misc", "SyncMap"}, {"dht", "RouteTable"}, {"dht", "Bucket"}, {"dht", "TxIdGenerator"}} {
		if t := p.NamedType(n[0], n[1]); t != nil {
			must[t.String()] = true
		}
	}
	logger, clean := p.NamedType("misc", "Logger"), p.NamedType("misc", "CleanFunc")
	for sp := range p.Repo {
		for _, m := range sp.Members {
			tm, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := tm.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			k := tm.Type().String()
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if isSyncType(f.Type(), "Mutex", "RWMutex") {
					g.mutex[k] = append(g.mutex[k], f.Name())
				}
				if mt, ok := f.Type().Underlying().(*types.Map); ok && logger != nil && types.Identical(mt.Elem(), logger) {
					must[k] = true
				}
				if sl, ok := f.Type().Underlying().(*types.Slice); ok && clean != nil && types.Identical(sl.Elem(), clean) {
					must[k] = true
				}
			}
			if (len(g.mutex[k]) > 0 || must[k]) && len(cand[k]) > 0 {
				g.fields[k] = cand[k]
			}
		}
	}
	return g
}

// onlyFresh: a local variable that only ever holds objects created in this function.
func onlyFresh(al *ssa.Alloc) bool {
	if al.Referrers() == nil {
		return false
	}
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == al {
			if _, ok := st.Val.(*ssa.Alloc); !ok {
				return false
			}
		}
	}
	return true
}

func (g *guards) guardedField(addr *Term) (typ, field string, ok bool) {
	if addr.op != "fieldaddr" {
		return
	}
	i := strings.IndexByte(addr.aux, '#')
	field, typ = addr.aux[:i], addr.aux[i+1:]
	return typ, field, g.fields[typ][field]
}

func guardsBase(l, base *Term) bool {
	return l.op == "fieldaddr" && l.sub[0] == base || l.op == "load" && l.sub[0].op == "fieldaddr" && l.sub[0].sub[0] == base
}

// acquire forgets what the lock taken by c protects: other goroutines may have changed it.
func (g *guards) acquire(s *Sim, st *State, c *CallEv) {
	l := c.Args[0]
	if !(l.op == "fieldaddr" || l.op == "load" && l.sub[0].op == "fieldaddr") {
		return
	}
	s.havocIf(st, s.siteID(c.Frame, c.Instr, "lock"), func(k *Term) bool {
		if k.op == "mapelem" || k.op == "mapabsent" {
			k = k.sub[0]
			if k.op == "load" {
				k = k.sub[0]
			}
		}
		if k.op != "fieldaddr" || !guardsBase(l, k.sub[0]) {
			return false
		}
		_, _, ok := g.guardedField(k)
		return ok
	})
}

func lockOp(name string) (op string) {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		return "lock"
	case "(*sync.RWMutex).RLock":
		return "rlock"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		return "unlock"
	case "(*sync.RWMutex).RUnlock":
		return "runlock"
	}
	return ""
}

// blockingCall: library operations that wait for the network, a file, a timer or another goroutine.
func blockingCall(n string) bool {
	switch n {
	case "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "io.ReadFull", "io.ReadAtLeast", "io.ReadAll", "io.Copy", "io/ioutil.ReadAll", "io.WriteString",
		"net.Dial", "net.DialTimeout", "net.DialTCP", "net.DialUDP", "(*net.Dialer).Dial", "(*net.Dialer).DialContext", "net.ResolveUDPAddr", "net.ResolveTCPAddr", "net.LookupHost", "net.LookupIP", "net.ListenUDP", "net.Listen",
		"os.Open", "os.OpenFile", "os.Create", "os.Rename", "os.Remove", "os.RemoveAll", "os.Mkdir", "os.MkdirAll", "os.ReadFile", "os.WriteFile", "os.ReadDir", "os.CreateTemp", "io/ioutil.ReadFile", "io/ioutil.WriteFile", "io/ioutil.ReadDir", "io/ioutil.TempFile",
		"(*os.File).Read", "(*os.File).Write", "(*os.File).Sync", "(*os.File).WriteString", "(*os.File).ReadAt", "(*os.File).WriteAt",
		"net/http.ListenAndServe", "(*net/http.Server).ListenAndServe", "net/http.Get", "(*net/http.Client).Do", "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Wait":
		return true
	}
	m := shortName(n)
	if strings.HasPrefix(n, "(*net.UDPConn).") || strings.HasPrefix(n, "(*net.TCPConn).") || strings.HasPrefix(n, "(net.Conn).") || strings.HasPrefix(n, "(net.PacketConn).") || strings.HasPrefix(n, "(io.Reader).") || strings.HasPrefix(n, "(io.Writer).") || strings.HasPrefix(n, "(*net.conn).") {
		return strings.HasPrefix(m, "Read") || strings.HasPrefix(m, "Write")
	}
	return strings.HasPrefix(n, "(net.Listener).Accept")
}

// bindsAccess: the function touches locks or guarded state itself.
func (g *guards) relevant(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				if st := derefStruct(in.X.Type()); st != nil && g.fields[derefType(in.X.Type()).String()][st.Field(in.Field).Name()] {
					return true
				}
			case ssa.CallInstruction:
				if lockOp(g.p.CalleeName(in.Common())) != "" {
					return true
				}
			}
			var ops []*ssa.Value
			for _, o := range in.Operands(ops) {
				if o == nil {
					continue
				}
				if gl, ok := (*o).(*ssa.Global); ok && g.globals[gl] && !isInitFn(fn) {
					return true
				}
			}
		}
	}
	return false
}

// directCallers lists repository functions that call fn directly.
func (p *Program) directCallers(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		for _, c := range p.callees[f] {
			if c == fn {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

// entry functions: they may be called from outside or as a value, with unknown arguments.
func (p *Program) isEntry(fn *ssa.Function) bool {
	if fn.Object() != nil && fn.Object().Exported() {
		return true
	}
	if p.addrTaken[fn] && fn.Parent() == nil {
		return true
	}
	if fn.Name() == "main" || isInitFn(fn) {
		return true
	}
	return false
}

// onlyCalled: the parameter is called before the function returns and goes nowhere else.
func onlyCalled(fn *ssa.Function, i, depth int) bool {
	if i >= len(fn.Params) || depth > 3 || fn.Params[i].Referrers() == nil {
		return false
	}
	for _, r := range *fn.Params[i].Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		c, ok := r.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isGo := r.(*ssa.Go); isGo {
			return false
		}
		if c.Common().Value == ssa.Value(fn.Params[i]) {
			continue
		}
		callee := c.Common().StaticCallee()
		if callee == nil || callee.Blocks == nil {
			return false
		}
		for j, a := range c.Common().Args {
			if a == ssa.Value(fn.Params[i]) && !onlyCalled(callee, j, depth+1) {
				return false
			}
		}
	}
	return true
}

// closureRuns: closures that run on their own.
func (p *Program) closureRuns(fn *ssa.Function) bool {
	if fn.Parent() == nil {
		return false
	}
	par := fn.Parent()
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if ok && mc.Fn == fn || !ok {
				var uses []ssa.Instruction
				if ok {
					if mc.Referrers() != nil {
						uses = *mc.Referrers()
					}
				} else {
					var ops []*ssa.Value
					hit := false
					for _, o := range in.Operands(ops) {
						if o != nil && *o == ssa.Value(fn) {
							hit = true
						}
					}
					if hit {
						uses = []ssa.Instruction{in}
					}
				}
				for _, u := range uses {
					c, isCall := u.(ssa.CallInstruction)
					if !isCall {
						return true
					}
					if _, isGo := u.(*ssa.Go); isGo {
						return true
					}
					v := c.Common().Value
					if v == ssa.Value(fn) || ok && v == ssa.Value(mc) {
						continue
					}
					callee := c.Common().StaticCallee()
					only := callee != nil && callee.Blocks != nil
					for i, a := range c.Common().Args {
						if a == ssa.Value(fn) || ok && a == ssa.Value(mc) {
							only = only && onlyCalled(callee, i, 0)
						}
					}
					if only {
						continue
					}
					return true
				}
			}
		}
	}
	return false
}

func locks(p *Program, r11, r12 *Report) {
	g := newGuards(p)
	var tn []string
	for t := range g.fields {
		tn = append(tn, t)
	}
	sort.Strings(tn)
	short := func(t string) string { return strings.ReplaceAll(t, p.Module+"/", "") }
	for _, t := range tn {
		var fs []string
		for f := range g.fields[t] {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		r11.Ob("protected type", short(t))
		r11.Note("%s: lock %v protects %v", short(t), g.mutex[t], fs)
		if len(g.mutex[t]) == 0 {
			r11.Bad("protected type", short(t), "?", "the shared mutable fields "+strings.Join(fs, ", ")+" have no lock", nil)
			delete(g.fields, t)
		}
	}
	rel := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if g.relevant(f) {
			rel[f] = true
		}
	}
	// entries from which the relevant functions are entered
	roots := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var climb func(f *ssa.Function)
	climb = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if p.isEntry(f) || p.closureRuns(f) {
			roots[f] = true
			return
		}
		cs := p.directCallers(f)
		if f.Parent() != nil {
			cs = append(cs, f.Parent())
		}
		if len(cs) == 0 && f.Object() == nil {
			roots[f] = true // otherwise it is never called
		}
		for _, c := range cs {
			climb(c)
		}
	}
	for f := range rel {
		climb(f)
	}
	// functions that need not be looked into
	interesting := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if rel[f] {
			interesting[f] = true
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send, *ssa.Select, *ssa.Panic:
					interesting[f] = true
				case *ssa.UnOp:
					if x.Op.String() == "<-" {
						interesting[f] = true
					}
				case ssa.CallInstruction:
					n := p.CalleeName(x.Common())
					if blockingCall(n) || noReturnName(n) != "" || n == "dynamic" {
						interesting[f] = true
					}
				}
			}
		}
	}
	reach := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if interesting[f] {
			reach[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			if reach[f] {
				continue
			}
			hit := false
			for _, c := range p.callees[f] {
				hit = hit || reach[c]
			}
			for _, c := range f.AnonFuncs {
				hit = hit || reach[c]
			}
			if hit {
				reach[f] = true
				ch = true
			}
		}
	}
	recvType := func(f *ssa.Function) string {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Signature.Recv() == nil {
			return ""
		}
		return derefType(f.Signature.Recv().Type()).String()
	}
	className := func(l *Term) string {
		switch l.op {
		case "fieldaddr":
			i := strings.IndexByte(l.aux, '#')
			return short(l.aux[i+1:]) + "." + l.aux[:i]
		case "global":
			return shortAux(l.aux)
		case "load":
			if l.sub[0].op == "fieldaddr" || l.sub[0].op == "global" {
				l = l.sub[0]
				if l.op == "global" {
					return shortAux(l.aux)
				}
				i := strings.IndexByte(l.aux, '#')
				return short(l.aux[i+1:]) + "." + l.aux[:i]
			}
		}
		return "lock " + l.String()
	}
	type acc struct {
		locks map[string]bool
		write bool
		where string
		path  []string
		fn    string
	}
	globAcc := map[string][]acc{}
	type oedge struct{ a, b string }
	order := map[oedge]string{}

	var rootList []*ssa.Function
	for f := range roots {
		rootList = append(rootList, f)
	}
	sort.Slice(rootList, func(i, j int) bool { return p.FuncName(rootList[i]) < p.FuncName(rootList[j]) })
	for _, root := range rootList {
		root := root
		name := p.FuncName(root)
		init := isInitFn(root)
		held := func(st *State) []*Term { return append(append([]*Term(nil), st.L["W"]...), st.L["R"]...) }
		access := func(s *Sim, st *State, in ssa.Instruction, addr *Term, write bool) {
			typ, field, ok := g.guardedField(addr)
			if !ok {
				if addr.op == "global" {
					if gl := s.globalOf(addr); gl != nil && g.globals[gl] && !init {
						a := acc{locks: map[string]bool{}, write: write, where: p.InstrPos(in), path: st.path(8), fn: p.FuncName(in.Parent())}
						for _, l := range st.L["W"] {
							a.locks[className(l)] = true
						}
						if !write {
							for _, l := range st.L["R"] {
								a.locks[className(l)] = true
							}
						}
						globAcc[shortAux(addr.aux)] = append(globAcc[shortAux(addr.aux)], a)
					}
				}
				return
			}
			base := addr.sub[0]
			if baseObj(base).op == "obj" || init {
				return
			}
			key := p.FuncName(in.Parent()) + ": " + field
			r11.Ob("access under lock", key)
			w, rd := false, false
			for _, l := range st.L["W"] {
				w = w || guardsBase(l, base)
			}
			for _, l := range st.L["R"] {
				rd = rd || guardsBase(l, base)
			}
			kind := "read"
			if write {
				kind = "written"
			}
			switch {
			case w:
			case rd && !write:
			case rd:
				r11.Bad("access under lock", key+" written under read lock", p.InstrPos(in), short(typ)+"."+field+" is written while its lock is only held for reading", st.path(10))
			default:
				r11.Bad("access under lock", key+" "+kind+" without lock", p.InstrPos(in), short(typ)+"."+field+" is "+kind+" without holding the lock of the same object", st.path(10))
			}
		}
		exclusive := func(st *State, except *Term) *Term {
			for _, l := range st.L["W"] {
				if l != except {
					return l
				}
			}
			return nil
		}
		// a write: decisions about this location must have been taken in this critical section
		act := func(s *Sim, st *State, in ssa.Instruction, addr, mapKey, val *Term) {
			if _, _, ok := g.guardedField(addr); !ok {
				return
			}
			key := p.FuncName(in.Parent()) + ": " + addr.aux[:strings.IndexByte(addr.aux, '#')]
			r11.Ob("check and act in one section", key)
			if st.HasL("oldB", addr) && !st.HasL("curB", addr) {
				r11.Bad("check and act in one section", key, p.InstrPos(in), "the decision was taken in an earlier critical section and is not taken again before the write", st.path(12))
				return
			}
			if mapKey != nil {
				e := s.mapElem(addr, mapKey)
				if st.HasL("oldK", e) && !st.HasL("curK", e) {
					r11.Bad("check and act in one section", key, p.InstrPos(in), "the entry was looked up in an earlier critical section and is not looked up again before it is changed", st.path(12))
				}
			} else if val != nil {
				for _, o := range st.L["oldV"] {
					if o.sub[0] == addr && val.has(o.sub[1]) {
						r11.Bad("check and act in one section", key, p.InstrPos(in), "the value written is computed from what was read in an earlier critical section", st.path(12))
						break
					}
				}
			}
		}
		mapAddr := func(s *Sim, st *State, m *Term) *Term {
			if m.op == "load" {
				return m.sub[0]
			}
			for k, v := range st.heap {
				if v == m && (k.op == "fieldaddr" || k.op == "global") {
					return k
				}
			}
			return nil
		}
		var h Hooks
		h.Load = func(s *Sim, st *State, in ssa.Instruction, addr *Term) {
			access(s, st, in, addr, false)
			if _, _, ok := g.guardedField(addr); ok && len(held(st)) > 0 {
				st.AddL("curR", addr)
				if pt, ok := addr.typ.Underlying().(*types.Pointer); ok {
					if v := s.load(st, addr, pt.Elem()); !v.isConst() && !v.isNil() {
						st.AddL("curV", s.tt.mk("attr:val", "", nil, addr, v))
					}
				}
			}
		}
		h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			a := addr
			for a.op == "indexaddr" {
				a = a.sub[0]
				for a.op == "slice" {
					a = a.sub[0]
				}
				if a.op == "load" {
					a = a.sub[0]
				}
			}
			access(s, st, in, a, true)
			act(s, st, in, a, nil, val)
		}
		h.MapRead = func(s *Sim, st *State, in ssa.Instruction, m, k *Term) {
			if a := mapAddr(s, st, m); a != nil {
				access(s, st, in, a, false)
				if _, _, ok := g.guardedField(a); ok && k != nil && len(held(st)) > 0 {
					st.AddL("curK", s.mapElem(a, k))
				}
			}
		}
		h.MapUpdate = func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
			if a := mapAddr(s, st, m); a != nil {
				access(s, st, in, a, true)
				act(s, st, in, a, k, v)
			}
		}
		h.Cond = func(s *Sim, st *State, in *ssa.If, c *Term) {
			for _, a := range st.L["curR"] {
				if st.HasL("curB", a) {
					continue
				}
				pt, ok := a.typ.Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				v := s.tt.mk("load", "", pt.Elem(), a)
				hv := st.heap[a]
				if c.has(v) || hv != nil && c.has(hv) && !hv.isConst() {
					st.AddL("curB", a)
				}
			}
		}
		release := func(s *Sim, st *State, l *Term) {
			move := func(from, to string, base func(t *Term) *Term) {
				for _, a := range append([]*Term(nil), st.L[from]...) {
					if !guardsBase(l, base(a)) {
						continue
					}
					st.DelL(from, a)
					if o := exclusive(st, l); o != nil {
						st.AddL(to+"@", s.tt.mk("attr:under", "", nil, o, a))
					} else {
						st.AddL(to, a)
					}
				}
				for _, u := range append([]*Term(nil), st.L[to+"@"]...) {
					if u.sub[0] == l {
						st.DelL(to+"@", u)
						st.AddL(to, u.sub[1])
					}
				}
			}
			fb := func(t *Term) *Term {
				if t.op == "fieldaddr" {
					return t.sub[0]
				}
				return t
			}
			move("curB", "oldB", fb)
			for _, a := range append([]*Term(nil), st.L["curR"]...) {
				if guardsBase(l, a.sub[0]) {
					st.DelL("curR", a)
				}
			}
			move("curV", "oldV", func(t *Term) *Term { return fb(t.sub[0]) })
			move("curK", "oldK", func(t *Term) *Term { return fb(t.sub[0]) })
		}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			if op := lockOp(c.Name); op != "" {
				l := c.Args[0]
				cn := className(l)
				site := p.FuncName(c.Frame.fn) + ": " + cn
				switch op {
				case "lock", "rlock":
					// other goroutines may have changed what this lock protects
					g.acquire(s, st, c)
					r12.Ob("lock taken", site)
					for _, x := range held(st) {
						if x == l {
							r12.Bad("not taken twice", site, p.InstrPos(c.Instr), "the lock is already held by this goroutine", st.path(12))
							return &Verdict{Stop: true}
						}
						order[oedge{className(x), cn}] = p.InstrPos(c.Instr)
					}
					if op == "lock" {
						st.AddL("W", l)
					} else {
						st.AddL("R", l)
					}
				case "unlock", "runlock":
					k := "W"
					if op == "runlock" {
						k = "R"
					}
					if !st.HasL(k, l) {
						r12.Bad("released once", site, p.InstrPos(c.Instr), "a lock is released that is not held (in this mode)", st.path(12))
						return &Verdict{Stop: true}
					}
					st.DelL(k, l)
					release(s, st, l)
				}
				return nil
			}
			if c.Name == "builtin:delete" {
				if a := mapAddr(s, st, c.Args[0]); a != nil {
					access(s, st, c.Instr, a, true)
					act(s, st, c.Instr, a, c.Args[1], nil)
				}
				return nil
			}
			hs := held(st)
			if len(hs) > 0 && c.Fn == nil {
				r12.Ob("call under lock", p.FuncName(c.Frame.fn)+": "+c.Name)
				if blockingCall(c.Name) {
					r12.Bad("no blocking under lock", p.FuncName(c.Frame.fn)+": "+c.Name, p.InstrPos(c.Instr), c.Name+" may block while "+className(hs[0])+" is held", st.path(12))
				}
			}
			if len(hs) == 0 && c.Fn != nil && roots[c.Fn] && (recvType(c.Fn) == "" || recvType(c.Fn) != recvType(root)) {
				return &Verdict{Opaque: true}
			}
			return nil
		}
		chanOp := func(s *Sim, st *State, in ssa.Instruction, blocking bool, what string) {
			if !blocking {
				return
			}
			if hs := held(st); len(hs) > 0 {
				r12.Bad("no blocking under lock", p.FuncName(in.Parent())+": "+what, p.InstrPos(in), "a channel "+what+" may block while "+className(hs[0])+" is held", st.path(12))
			}
		}
		h.Send = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
			chanOp(s, st, in, blocking, "send")
		}
		h.Recv = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
			chanOp(s, st, in, blocking, "receive")
		}
		exit := func(s *Sim, st *State, how string) {
			r12.Ob("released on every way out", name)
			for _, l := range held(st) {
				r12.Bad("released on every way out", name+": "+className(l)+" "+how, p.Pos(root.Pos()), "the lock is still held when the function is left by "+how, st.path(12))
			}
		}
		h.Return = func(s *Sim, st *State, res []*Term) { exit(s, st, "return") }
		h.PanicOut = func(s *Sim, st *State, v *Term) { exit(s, st, "panic") }
		o := Opts{MaxStates: 60000, MayPanic: func(c *CallEv) bool { return c.Name == "dynamic" }, Opaque: func(fn *ssa.Function) bool { return !reach[fn] }}
		rep := NewReport("")
		rep.explore(p, root, h, o, nil)
		r12.States += rep.States
		r11.States += rep.States
		r11.Notes = append(r11.Notes, rep.Notes...)
		r12.Notes = append(r12.Notes, rep.Notes...)
		for f := range rep.Funcs {
			r11.Funcs[f], r12.Funcs[f] = true, true
		}
	}
	// package-level maps and slices: one lock common to all accesses
	var gs []string
	for k := range globAcc {
		gs = append(gs, k)
	}
	sort.Strings(gs)
	for _, k := range gs {
		as := globAcc[k]
		votes := map[string]int{}
		for _, a := range as {
			for l := range a.locks {
				votes[l]++
			}
		}
		best, n := "", 0
		for l, c := range votes {
			if c > n || c == n && l < best {
				best, n = l, c
			}
		}
		for _, a := range as {
			r11.Ob("access under lock", a.fn+": "+k)
			if best == "" || !a.locks[best] {
				r11.Bad("access under lock", a.fn+": "+k, a.where, "the shared variable "+k+" is accessed without the lock that protects it ("+best+")", a.path)
			}
		}
	}
	// acyclic order
	next := map[string][]string{}
	for e := range order {
		next[e.a] = append(next[e.a], e.b)
	}
	for e, where := range order {
		r12.Ob("lock order", e.a+" before "+e.b)
		seen := map[string]bool{}
		var walk func(x string) bool
		walk = func(x string) bool {
			if x == e.a {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, y := range next[x] {
				if walk(y) {
					return true
				}
			}
			return false
		}
		if walk(e.b) {
			r12.Bad("lock order", e.a+" and "+e.b, where, "these locks are taken in both orders (or two of the same class at once)", nil)
		}
	}
	r11.Need("protected type", 4)
	r11.Need("access under lock", 12)
	r12.Need("lock taken", 8)
}
