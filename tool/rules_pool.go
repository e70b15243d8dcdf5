package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "ownership typestate of pooled buffers over all paths: after a buffer (or what holds it) was returned to a pool or handed to another goroutine, no value that shares its bytes (slices, zero-copy strings, what was decoded from those) is read, written, passed on, returned or returned to a pool again; when it is returned no data that outlives the step refers to it; a variable captured by a task is not shared between the tasks of a loop",
		ruleOwnership)
	register("C17", "class invariant of the pool's channels: each is filed under a size, only slices whose length is proved equal to that size are sent on it, so what is received has it too; every result is proved to have the requested length; channel operations are non-blocking and channels are made with the configured capacity",
		ruleBytesPool)
}

// pointerful: values of the type can share memory.
func pointerful(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerful(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerful(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerful(u.At(i).Type()) {
				return true
			}
		}
		return false
	case *types.Signature:
		return true
	}
	return true
}

// holdsBytes: the type is, or contains, a byte slice.
func holdsBytes(t types.Type, depth int) bool {
	if depth > 4 {
		return false
	}
	if isBytesType(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return holdsBytes(u.Elem(), depth+1)
	case *types.Slice:
		return holdsBytes(u.Elem(), depth+1)
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !hasPrefixAny(n.Obj().Pkg().Path(), "github.com/GalaIO") && depth > 0 {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if holdsBytes(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// sharing: library functions whose result shares memory with an argument.
func sharing(n string) bool {
	return hasPrefixAny(n, "strings.Trim", "bytes.Trim", "strings.Split", "bytes.Split", "strings.Fields", "bytes.Fields", "strings.Cut", "bytes.Cut", "bytes.NewBuffer", "bytes.NewReader", "strings.NewReader", "bufio.New", "io.TeeReader", "io.LimitReader")
}

type own struct {
	p *Program
	r *Report
}

// shares: t refers to the memory of buffer b.
func (o *own) shares(s *Sim, st *State, t, b *Term, seen map[*Term]bool) bool {
	if t == b {
		return true
	}
	if t.isNil() || t.isConst() {
		return false
	}
	if seen[t] || t.typ != nil && !pointerful(t.typ) {
		return false
	}
	seen[t] = true
	for _, d := range st.L["derived"] {
		if d.sub[0] == t && o.shares(s, st, d.sub[1], b, seen) {
			return true
		}
	}
	sub := func(ts ...*Term) bool {
		for _, x := range ts {
			if o.shares(s, st, x, b, seen) {
				return true
			}
		}
		return false
	}
	switch t.op {
	case "slice", "stale", "alias", "iface", "assert", "ext", "tuple", "field", "list", "closure", "index", "lookup":
		if t.op == "slice" {
			return sub(t.sub[0])
		}
		return sub(t.sub...)
	case "conv":
		return sub(t.sub...)
	case "append":
		if sub(t.sub[0]) {
			return true
		}
		if sl, ok := t.typ.Underlying().(*types.Slice); ok && !pointerful(sl.Elem()) {
			return false
		}
		return sub(t.sub[1])
	case "load":
		a := t.sub[0]
		for a.op == "fieldaddr" || a.op == "indexaddr" {
			a = a.sub[0]
		}
		return sub(a)
	case "obj":
		for k, v := range st.heap {
			if hasPrefixAny(k.op, "attr:") || k != t && !under(k, t) && !((k.op == "mapelem" || k.op == "mapabsent") && k.sub[0] == t) {
				continue
			}
			if sub(v) {
				return true
			}
		}
	case "res":
		if i := len(t.aux); i > 0 {
			for _, n := range []string{"strings.", "bytes.", "bufio.", "io."} {
				if j := indexOf(t.aux, n); j >= 0 && sharing(t.aux[j:]) {
					return sub(t.sub...)
				}
			}
		}
	case "app":
		if sharing(t.aux) {
			return sub(t.sub...)
		}
	}
	return false
}

func indexOf(s, x string) int {
	for i := 0; i+len(x) <= len(s); i++ {
		if s[i:i+len(x)] == x {
			return i
		}
	}
	return -1
}

// bufOf strips the slicing from a buffer.
func bufOf(t *Term) *Term {
	for {
		switch {
		case t.op == "slice" || t.op == "alias" || t.op == "iface" || t.op == "conv":
			t = t.sub[0]
		default:
			return t
		}
	}
}

// buffersIn collects the buffers (and pointers to what may hold one) a value gives access to.
func (o *own) buffersIn(s *Sim, st *State, t *Term, seen map[*Term]bool, out *[]*Term) {
	if seen[t] || t.typ != nil && !pointerful(t.typ) {
		return
	}
	seen[t] = true
	switch t.op {
	case "slice", "alias", "conv", "iface", "assert", "tuple", "list", "closure":
		for i, x := range t.sub {
			if t.op == "slice" && i > 0 {
				break
			}
			o.buffersIn(s, st, x, seen, out)
		}
		return
	case "append":
		o.buffersIn(s, st, t.sub[0], seen, out)
		return
	case "fn", "const", "nil", "global", "copy", "concat":
		return
	case "obj":
		if _, ok := t.typ.Underlying().(*types.Slice); !ok {
			for k, v := range st.heap {
				if !hasPrefixAny(k.op, "attr:") && (k == t || under(k, t)) {
					o.buffersIn(s, st, v, seen, out)
				}
			}
			return
		}
	}
	if t.typ != nil && holdsBytes(t.typ, 0) {
		*out = append(*out, t)
	}
}

func (o *own) isPool(fn *ssa.Function) bool {
	return fn != nil && fn.Signature.Recv() != nil && o.p.isPtrTo(fn.Signature.Recv().Type(), "misc", "BytesPool")
}

// sharedCapture: a variable captured by a task that the loop starting the task assigns again.
func sharedCapture(site ssa.Instruction, al *ssa.Alloc) bool {
	if al.Referrers() == nil || al.Parent() != site.Parent() {
		return false
	}
	reach := func(from, to *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var w []*ssa.BasicBlock
		w = append(w, from.Succs...)
		for len(w) > 0 {
			b := w[len(w)-1]
			w = w[:len(w)-1]
			if seen[b] || b == al.Block() {
				continue
			}
			if b == to {
				return true
			}
			seen[b] = true
			w = append(w, b.Succs...)
		}
		return false
	}
	tb := site.Block()
	for _, u := range *al.Referrers() {
		x, ok := u.(*ssa.Store)
		if !ok || x.Addr != ssa.Value(al) {
			continue
		}
		if reach(tb, x.Block()) && (x.Block() == tb || reach(x.Block(), tb)) {
			return true
		}
		if x.Block() == tb && al.Block() == tb && instrIndex(x) > instrIndex(site) {
			return true
		}
	}
	return false
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func ruleOwnership(p *Program, r *Report) {
	o := &own{p, r}
	// functions that take or return buffers, and where to look at them from
	uses := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if o.isPool(f) {
			continue
		}
		for _, c := range p.callees[f] {
			if o.isPool(c) && (c.Name() == "Put" || c.Name() == "Get" || c.Name() == "GetBySize") {
				uses[f] = true
			}
		}
	}
	roots := map[*ssa.Function]bool{}
	packet := map[*ssa.Function]bool{}
	for _, f := range p.packetRoots() {
		packet[f] = true
	}
	started := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, t := range p.tasks(f) {
			started[t.Fn] = true
		}
	}
	var climb func(f *ssa.Function, seen map[*ssa.Function]bool)
	climb = func(f *ssa.Function, seen map[*ssa.Function]bool) {
		if seen[f] {
			return
		}
		seen[f] = true
		if started[f] {
			roots[f] = true
			return
		}
		if f.Parent() != nil {
			if p.closureRuns(f) {
				roots[f] = true
			} else {
				climb(f.Parent(), seen)
			}
			return
		}
		cs := p.directCallers(f)
		if len(cs) == 0 || packet[f] || f.Object() != nil && f.Object().Exported() && !o.isHelper(f) {
			roots[f] = true
			return
		}
		for _, c := range cs {
			climb(c, seen)
		}
	}
	for f := range uses {
		climb(f, map[*ssa.Function]bool{})
	}
	// what hands packets to tasks
	for _, f := range p.Funcs {
		for _, t := range p.tasks(f) {
			if t.MC != nil {
				for _, b := range t.MC.Bindings {
					if holdsBytes(derefType(b.Type()), 0) {
						roots[f] = true
					}
				}
			}
			for _, a := range t.In.Common().Args {
				if t.Go && holdsBytes(a.Type(), 0) {
					roots[f] = true
				}
			}
		}
	}
	var rs []*ssa.Function
	for f := range roots {
		rs = append(rs, f)
	}
	sort.Slice(rs, func(i, j int) bool { return p.FuncName(rs[i]) < p.FuncName(rs[j]) })
	for _, f := range rs {
		o.check(f)
	}
	const shared = "a captured buffer belongs to one task"
	for _, f := range p.Funcs {
		for _, t := range p.tasks(f) {
			if t.MC == nil {
				continue
			}
			for _, b := range t.MC.Bindings {
				al, ok := b.(*ssa.Alloc)
				if !ok || !holdsBytes(derefType(al.Type()), 0) {
					continue
				}
				key := p.FuncName(f) + ": " + al.Comment
				r.Ob(shared, key)
				if sharedCapture(t.In, al) {
					r.Bad(shared, key, p.InstrPos(t.In), "the task captures a variable that the loop assigns again for the next task: two tasks use and return the same buffer", nil)
				}
			}
		}
	}
	r.Need("buffer returned", 1)
	if len(uses) == 0 {
		r.Bad("anchors", "buffer pool uses", "?", "no function that takes or returns pooled buffers was found", nil)
	}
}

// isHelper: an exported function that hands out or takes a buffer is looked at from its callers.
func (o *own) isHelper(f *ssa.Function) bool {
	if len(o.p.directCallers(f)) == 0 {
		return false
	}
	sig := f.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		if isBytesType(sig.Params().At(i).Type()) && sig.Params().Len() <= 2 && sig.Results().Len() == 0 {
			return true
		}
	}
	return sig.Params().Len() <= 1 && sig.Results().Len() == 1 && isBytesType(sig.Results().At(0).Type())
}

func (o *own) check(fn *ssa.Function) {
	p, r := o.p, o.r
	const (
		use    = "no use after a buffer was given away"
		twice  = "buffer returned once"
		keep   = "nothing keeps a returned buffer"
		retrn  = "buffer returned"
		handed = "buffer handed over"
	)
	gone := func(s *Sim, st *State, u *Term) (*Term, string) {
		for _, k := range []string{"put", "sent"} {
			for _, b := range st.L[k] {
				if o.shares(s, st, u, b, map[*Term]bool{}) {
					if k == "put" {
						return b, "returned to the pool"
					}
					return b, "handed to another goroutine"
				}
			}
		}
		return nil, ""
	}
	used := func(s *Sim, st *State, in ssa.Instruction, u *Term, what string) {
		if len(st.L["put"])+len(st.L["sent"]) == 0 {
			return
		}
		r.Ob(use, p.site(in, what))
		if b, how := gone(s, st, u); b != nil {
			r.Bad(use, p.site(in, what), p.InstrPos(in), what+" of a buffer that was already "+how, st.path(10))
		}
	}
	bytesLike := func(t *Term) bool {
		u := t
		if u.op == "iface" {
			u = u.sub[0]
		}
		if u.op == "alias" || u.op == "slice" {
			return true
		}
		return u.typ != nil && (isBytesType(u.typ) || isStringType(u.typ))
	}
	give := func(s *Sim, st *State, in ssa.Instruction, v *Term) {
		var bs []*Term
		o.buffersIn(s, st, v, map[*Term]bool{}, &bs)
		for _, b := range bs {
			r.Ob(handed, p.site(in, "hand-over"))
			if x, how := gone(s, st, b); x != nil {
				r.Bad(use, p.site(in, "hand-over"), p.InstrPos(in), "a buffer is handed over that was already "+how, st.path(10))
			}
			if !st.HasL("sent", b) {
				st.AddL("sent", b)
			}
		}
	}
	retained := func(s *Sim, st *State, where, at string, res []*Term, frames bool) {
		if len(st.L["put"]) == 0 {
			return
		}
		c := st.clone()
		puts := append([]*Term(nil), st.L["put"]...)
		if frames {
			s.prune(c.top())
			for k := range c.L {
				if k != "keep" {
					delete(c.L, k)
				}
			}
			c.L["derived"] = st.L["derived"]
		} else {
			c.frames = nil
			c.L = map[string][]*Term{"res": res, "derived": st.L["derived"]}
		}
		s.gc(c)
		for k, v := range c.heap {
			if hasPrefixAny(k.op, "attr:") || k.op == "obj" || k.op == "mapabsent" {
				continue
			}
			if base := baseObj(k); base.op == "obj" && base.typ != nil {
				if frames && localOnly(base) {
					continue
				}
			}
			for _, b := range puts {
				if o.shares(s, c, v, b, map[*Term]bool{}) {
					r.Bad(keep, where+": "+memberOfAddr(k), at, "data that lives on ("+memberOfAddr(k)+") refers to a buffer that was returned to the pool", st.path(10))
				}
			}
		}
	}
	h := Hooks{}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if o.isPool(c.Fn) {
			if c.Fn.Name() == "Put" && len(c.Args) > 1 {
				b := bufOf(c.Args[1])
				if b.isNil() || b.isConst() {
					return &Verdict{Opaque: true}
				}
				r.Ob(retrn, p.site(c.Instr, "Put"))
				r.Ob(twice, p.site(c.Instr, "Put"))
				if x, how := gone(s, st, b); x != nil {
					r.Bad(twice, p.site(c.Instr, "Put"), p.InstrPos(c.Instr), "the buffer is returned to the pool, but it was already "+how, st.path(10))
				}
				for _, l := range st.L["lent"] {
					if o.shares(s, st, l, b, map[*Term]bool{}) {
						r.Bad(keep, p.site(c.Instr, "Put")+": lent", p.InstrPos(c.Instr), "handlers were given values that share the memory of the buffer (a zero-copy string or what was decoded from one) and may keep them", st.path(10))
					}
				}
				if !st.HasL("put", b) {
					st.AddL("put", b)
				}
			}
			return &Verdict{Opaque: true}
		}
		if c.Name == "(*misc.WorkPool).AsyncSubmit" && len(c.Args) > 1 {
			give(s, st, c.Instr, c.Args[1])
			return &Verdict{Opaque: true}
		}
		if isDecode(c.Name) || c.Fn == nil && !hasPrefixAny(c.Name, "builtin:") || c.Fn != nil && p.isLoggerMethod(c.Fn) || c.Name == "builtin:append" || c.Name == "builtin:copy" {
			for i, a := range c.Args {
				if c.Name == "builtin:append" && i == 0 {
					continue
				}
				if bytesLike(a) {
					used(s, st, c.Instr, a, "use in a call of "+c.Name)
				} else if a.op == "obj" || a.op == "list" {
					if len(st.L["put"])+len(st.L["sent"]) > 0 && !frameOwn(a) {
						for k, v := range st.heap {
							if k.op == "mapelem" && k.sub[0] == a && bytesLike(v) {
								used(s, st, c.Instr, v, "use in a call of "+c.Name)
							}
						}
					}
				}
			}
		}
		if c.Name == "dynamic" || c.Fn == nil && c.Instr.Common().IsInvoke() && !hasPrefixAny(c.Name, "(net.", "(io.", "(error)", "(context.", "(misc.Logger)") {
			for _, a := range c.Args {
				if !bytesLike(a) || unface(a).op == "alias" {
					if a.op != "const" && a.op != "nil" && a.op != "param" && (a.typ == nil || pointerful(a.typ)) && !st.HasL("lent", a) && len(st.L["lent"]) < 12 {
						if o.hasAlias(s, st, a) {
							st.AddL("lent", a)
						}
					}
				}
			}
		}
		return nil
	}
	h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
		if isDecode(c.Name) && len(res) > 0 && !res[0].isNil() && len(c.Args) > 0 && o.hasAlias(s, st, c.Args[0]) && len(st.L["derived"]) < 8 {
			st.AddL("derived", s.tt.mk("pair", "", nil, res[0], c.Args[0]))
		}
		// an append whose term was cut off for its size
		if c.Name == "builtin:append" && len(res) > 0 && len(c.Args) > 0 && res[0].op == "top" && len(st.L["derived"]) < 8 {
			var bs []*Term
			o.buffersIn(s, st, c.Args[0], map[*Term]bool{}, &bs)
			for _, b := range bs {
				st.AddL("derived", s.tt.mk("pair", "", nil, res[0], b))
			}
		}
	}
	h.Step = func(s *Sim, st *State, in ssa.Instruction) {
		if len(st.L["put"])+len(st.L["sent"]) == 0 {
			return
		}
		f := st.top()
		switch in := in.(type) {
		case *ssa.Convert:
			if isStringType(in.Type()) && isBytesType(in.X.Type()) || isBytesType(in.Type()) && isStringType(in.X.Type()) {
				used(s, st, in, s.eval(st, f, in.X), "conversion")
			}
		case *ssa.IndexAddr:
			if isBytesType(in.X.Type()) {
				used(s, st, in, s.eval(st, f, in.X), "element access")
			}
		case *ssa.Lookup:
			if isStringType(in.X.Type()) {
				used(s, st, in, s.eval(st, f, in.X), "element access")
			}
		case *ssa.Range:
			if isStringType(in.X.Type()) {
				used(s, st, in, s.eval(st, f, in.X), "iteration")
			}
		case *ssa.BinOp:
			if isStringType(in.X.Type()) && (in.Op == token.ADD || in.Op == token.EQL || in.Op == token.NEQ) {
				used(s, st, in, s.eval(st, f, in.X), "string operation")
				used(s, st, in, s.eval(st, f, in.Y), "string operation")
			}
		}
	}
	h.Send = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) { give(s, st, in, v) }
	h.Go = func(s *Sim, st *State, in *ssa.Go, f *Term, args []*Term) {
		give(s, st, in, f)
		for _, a := range args {
			give(s, st, in, a)
		}
	}
	h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) {
		retained(s, st, p.FuncName(from.Parent()), p.FuncName(from.Parent()), nil, true)
		// what nothing refers to any more needs no tracking
		c := st.clone()
		s.prune(c.top())
		for _, k := range []string{"put", "sent", "lent", "derived"} {
			delete(c.L, k)
		}
		s.gc(c)
		live := func(b *Term) bool {
			for _, f := range c.frames {
				for _, v := range f.env {
					if o.shares(s, c, v, b, map[*Term]bool{}) {
						return true
					}
				}
			}
			for k, v := range c.heap {
				if !hasPrefixAny(k.op, "attr:") && o.shares(s, c, v, b, map[*Term]bool{}) {
					return true
				}
			}
			return false
		}
		for _, k := range []string{"put", "sent", "lent"} {
			for _, b := range append([]*Term(nil), st.L[k]...) {
				if !live(b) {
					st.DelL(k, b)
				}
			}
		}
		for _, d := range append([]*Term(nil), st.L["derived"]...) {
			if !live(d.sub[0]) && !live(bufOf(d.sub[1])) {
				st.DelL("derived", d)
			}
		}
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		if len(st.L["put"]) == 0 {
			return
		}
		r.Ob(keep, p.FuncName(fn)+": return")
		for _, x := range res {
			for _, b := range st.L["put"] {
				if o.shares(s, st, x, b, map[*Term]bool{}) {
					r.Bad(keep, p.FuncName(fn)+": result", p.Pos(fn.Pos()), "the result refers to a buffer that was returned to the pool", st.path(10))
				}
			}
		}
		retained(s, st, p.FuncName(fn), p.Pos(fn.Pos()), res, false)
	}
	h.PanicOut = func(s *Sim, st *State, v *Term) { retained(s, st, p.FuncName(fn), p.Pos(fn.Pos()), nil, false) }
	r.explore(p, fn, h, Opts{MaxStates: 150000}, nil)
}

// frameOwn: nothing to look into.
func frameOwn(t *Term) bool { return t.op == "list" && len(t.sub) == 0 }

// hasAlias: the value gives access to a zero-copy view of bytes.
func (o *own) hasAlias(s *Sim, st *State, t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "alias" && t.typ != nil && isStringType(t.typ) {
			return true
		}
		for _, d := range st.L["derived"] {
			if d.sub[0] == t {
				return true
			}
		}
		if t.op == "copy" || t.op == "concat" {
			return false
		}
		if t.op == "obj" {
			for k, v := range st.heap {
				if !hasPrefixAny(k.op, "attr:") && (k == t || under(k, t) || k.op == "mapelem" && k.sub[0] == t) && f(v) {
					return true
				}
			}
			return false
		}
		if t.op == "res" || t.op == "app" {
			return false
		}
		for _, x := range t.sub {
			if f(x) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func memberOfAddr(k *Term) string {
	for {
		switch k.op {
		case "fieldaddr":
			return "field " + fieldNameOf(k)
		case "global":
			return "variable " + shortAux(k.aux)
		case "indexaddr", "mapelem", "load":
			k = k.sub[0]
		default:
			return k.op
		}
	}
}

func fieldNameOf(k *Term) string {
	for i := 0; i < len(k.aux); i++ {
		if k.aux[i] == '#' {
			return k.aux[:i]
		}
	}
	return k.aux
}

// localOnly: the object is a variable of a function.
func localOnly(o *Term) bool {
	pt, ok := o.typ.(*types.Pointer)
	if !ok {
		return false
	}
	_, isStruct := pt.Elem().Underlying().(*types.Struct)
	return !isStruct
}

// ---- C17

func ruleBytesPool(p *Program, r *Report) {
	const (
		length = "results have the requested length"
		filed  = "buffers are filed under their length"
		block  = "channel operations do not block"
		bound  = "capacity is the configured number"
	)
	ctor := p.Func("misc", "NewBytesPool")
	if ctor == nil {
		r.Bad("anchors", "NewBytesPool", "?", "the constructor of the buffer pool was not found", nil)
		return
	}
	isChan := func(t types.Type) bool {
		c, ok := t.Underlying().(*types.Chan)
		return ok && isBytesType(c.Elem())
	}
	// what the constructor's parameters become
	role := map[string]int{} // field key -> parameter
	h := Hooks{}
	chanMake := func(isCap func(s *Sim, st *State, n *Term) bool) func(s *Sim, st *State, in ssa.Instruction, kind string, n *Term) {
		return func(s *Sim, st *State, in ssa.Instruction, kind string, n *Term) {
			mc, ok := in.(*ssa.MakeChan)
			if kind != "chan" || !ok || !isChan(mc.Type()) {
				return
			}
			key := p.site(in, "make(chan)")
			r.Ob(bound, key)
			if !isCap(s, st, n) && (n.isConst() || understood2(n)) {
				r.Bad(bound, key, p.InstrPos(in), "a channel that keeps buffers is made with a capacity other than the configured number of buffers", st.path(6))
			}
		}
	}
	keyed := func(s *Sim, st *State, ch *Term) *Term {
		c := ch
		for {
			switch c.op {
			case "assert", "iface", "conv", "stale":
				c = c.sub[0]
				continue
			case "poolchan":
				return c.sub[1]
			case "lookup":
				return c.sub[1]
			}
			break
		}
		for _, d := range st.L["filed"] {
			if d.sub[0] == c {
				return d.sub[1]
			}
		}
		return nil
	}
	file := func(s *Sim, st *State, k, v *Term) {
		v = unface(v)
		k = unface(k)
		if v.op == "obj" {
			st.AddL("filed", s.tt.mk("pair", "", nil, v, k))
		}
	}
	call := func(s *Sim, st *State, c *CallEv) *Verdict {
		switch c.Name {
		case "(*sync.Map).Load", "(*sync.Map).LoadOrStore", "(*sync.Map).LoadAndDelete":
			k := unface(c.Args[1])
			ch := s.tt.mk("poolchan", "", nil, c.Args[0], k)
			var bt types.Type = types.Typ[types.Bool]
			okT := s.fresh(st, s.tt.mk("res", s.siteID(c.Frame, c.Instr, "ok"), bt))
			if c.Name == "(*sync.Map).LoadOrStore" {
				// the stored value and the found one are filed alike
				file(s, st, k, c.Args[2])
			}
			return &Verdict{Outcomes: []Outcome{{Res: []*Term{ch, okT}}}}
		case "(*sync.Map).Store", "(*sync.Map).Swap":
			file(s, st, c.Args[1], c.Args[2])
		}
		return nil
	}
	h.Call = call
	h.MapUpdate = func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) { file(s, st, k, v) }
	h.Make = chanMake(func(s *Sim, st *State, n *Term) bool { return len(s.Params) > 0 && n == s.Params[0] })
	h.Return = func(s *Sim, st *State, res []*Term) {
		if len(res) == 0 {
			return
		}
		for k, v := range st.heap {
			if k.op == "fieldaddr" && k.sub[0] == res[0] {
				for i, q := range s.Params {
					if v == q {
						role[fieldNameOf(k)] = i
					}
				}
			}
		}
	}
	r.explore(p, ctor, h, Opts{Numeric: true}, nil)
	maxF, defF := "", ""
	for f, i := range role {
		if i == 0 {
			maxF = f
		} else if i == 1 {
			defF = f
		}
	}
	if maxF == "" || defF == "" {
		r.Bad(bound, "NewBytesPool", p.Pos(ctor.Pos()), "the pool does not keep the configured number and length of buffers", nil)
		return
	}
	field := func(n *Term, name string) bool {
		if n.op != "load" || n.sub[0].op != "fieldaddr" {
			return false
		}
		return fieldNameOf(n.sub[0]) == name
	}
	nt := p.NamedType("misc", "BytesPool")
	for _, f := range p.Funcs {
		rv := f.Signature.Recv()
		if rv == nil || nt == nil || !p.isPtrTo(rv.Type(), "misc", "BytesPool") || f.Parent() != nil {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() || f.Synthetic != "" {
			continue
		}
		fn := f
		h := Hooks{Call: call, MapUpdate: h.MapUpdate}
		h.Make = chanMake(func(s *Sim, st *State, n *Term) bool { return field(n, maxF) })
		h.Recv = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
			if v.typ == nil || !isBytesType(v.typ) {
				return
			}
			key := p.site(in, "receive")
			r.Ob(block, key)
			if blocking {
				r.Bad(block, key, p.InstrPos(in), "getting a buffer waits until one is returned", st.path(6))
			}
			if k := keyed(s, st, ch); k != nil {
				s.addEq(st, s.lenTerm(st, v), k)
			}
		}
		h.Send = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
			if v.typ == nil || !isBytesType(v.typ) {
				if v.op != "slice" {
					return
				}
			}
			key := p.site(in, "send")
			r.Ob(block, key)
			if blocking {
				r.Bad(block, key, p.InstrPos(in), "returning a buffer waits until one is taken", st.path(6))
			}
			k := keyed(s, st, ch)
			if k == nil {
				r.Note("%s: what size the channel is for was not understood", key)
				return
			}
			r.Ob(filed, key)
			n := s.lenTerm(st, v)
			if !(s.entailsLe(st, n, k, 0) && s.entailsLe(st, k, n, 0)) {
				r.Bad(filed, key, p.InstrPos(in), "a buffer is filed under a size that is not proved to be its length", st.path(6))
			}
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			if len(res) != 1 || !isBytesType(fn.Signature.Results().At(0).Type()) {
				return
			}
			want := (*Term)(nil)
			name := "the requested size"
			for i, q := range fn.Params {
				if i > 0 && isIntType(q.Type()) {
					want = s.Params[i]
				}
			}
			n := s.lenTerm(st, res[0])
			key := p.FuncName(fn)
			r.Ob(length, key)
			if want == nil {
				name = "the default length"
				ok := false
				for k := range st.num.vars {
					if field(k, defF) && s.entailsLe(st, n, k, 0) && s.entailsLe(st, k, n, 0) {
						ok = true
					}
				}
				if ok || field(n, defF) {
					return
				}
			} else if s.entailsLe(st, n, want, 0) && s.entailsLe(st, want, n, 0) {
				return
			}
			b := bufOf(res[0])
			if b.op == "recv" && keyed(s, st, b.sub[0]) == nil || b.op == "load" || b.op == "index" || b.op == "hv" {
				r.Note("%s: where the result comes from was not understood", key)
				return
			}
			r.Bad(length, key, p.Pos(fn.Pos()), "the buffer is not proved to have "+name, st.path(8))
		}
		r.explore(p, fn, h, Opts{Numeric: true, Opaque: func(f *ssa.Function) bool { return p.isLoggerMethod(f) }}, func(s *Sim, st *State) {
			for i, q := range fn.Params {
				if i > 0 && isIntType(q.Type()) {
					s.addLe(st, s.Params[i], s.tt.Int(1<<40), 0)
				}
			}
		})
	}
	r.Need(length, 2)
}

func understood2(t *Term) bool {
	return !t.any(func(x *Term) bool {
		return x.op == "hv" || x.op == "top" || x.op == "lookup" || x.op == "recv" || x.op == "res"
	})
}
