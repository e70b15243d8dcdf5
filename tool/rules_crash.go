package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "every task that handles network input, and every loop that receives it, is simulated with failing operations: no panic leaves it (nor the worker that runs it); sizes taken from input are bounded before they are allocated; no call on the call graph ends the process", ruleCrash)
}

const maxAlloc = int64(1) << 28

// taskValue resolves what is run as a task, also when it is made by a function.
func (p *Program) taskValue(v ssa.Value) []*ssa.Function {
	if f, _ := funcOf(v); f != nil {
		return []*ssa.Function{f}
	}
	for {
		if c, ok := v.(*ssa.ChangeType); ok {
			v = c.X
			continue
		}
		break
	}
	if c, ok := v.(*ssa.Call); ok {
		if g := c.Common().StaticCallee(); g != nil && p.InRepo(g) {
			var out []*ssa.Function
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
					out = append(out, p.taskValue(ret.Results[0])...)
				}
			}
			return out
		}
	}
	return nil
}

// startedIn: what fn hands to a pool or starts as a goroutine.
func (p *Program) startedIn(fn *ssa.Function) (fs []*ssa.Function, unknown []ssa.Instruction) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			var v ssa.Value
			if g, ok := in.(*ssa.Go); ok {
				v = g.Call.Value
				if g.Call.IsInvoke() {
					continue
				}
			} else if p.CalleeName(c.Common()) == "(*misc.WorkPool).AsyncSubmit" {
				v = c.Common().Args[1]
			} else {
				continue
			}
			got := p.taskValue(v)
			if len(got) == 0 {
				unknown = append(unknown, in)
			}
			for _, f := range got {
				if p.InRepo(f) || f.Synthetic != "" {
					fs = append(fs, f)
				}
			}
		}
	}
	return
}

func ruleCrash(p *Program, r *Report) {
	const (
		stays  = "a failure stays in its task"
		loop   = "a receive loop does not fail on input"
		alloc  = "announced sizes are bounded before they are allocated"
		exits  = "network input does not end the process"
		unread = "nothing is read without a limit"
	)
	listen := p.Method("dht/krpc", "RpcServer", "Listen")
	fetch := p.Func("dht/peerwire", "FetchMetaData")
	if listen == nil || fetch == nil {
		r.Bad("anchors", "Listen, FetchMetaData", "?", "RpcServer.Listen or peerwire.FetchMetaData was not found", nil)
		return
	}
	poolType := p.NamedType("misc", "WorkPool")
	isPool := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Name() == "NewWorkPool" {
			return true
		}
		rv := f.Signature.Recv()
		return rv != nil && poolType != nil && types.Identical(derefType(rv.Type()), poolType)
	}
	tableType := p.NamedType("dht", "RouteTable")
	isTable := func(f *ssa.Function) bool {
		rv := f.Signature.Recv()
		return rv != nil && tableType != nil && types.Identical(derefType(rv.Type()), tableType)
	}
	type root struct {
		fn   *ssa.Function
		task bool
	}
	seen := map[*ssa.Function]bool{}
	var roots []root
	var queue []*ssa.Function
	add := func(f *ssa.Function, task bool) {
		if f == nil || seen[f] || isPool(f) || f.Blocks == nil {
			return
		}
		seen[f] = true
		roots = append(roots, root{f, task})
		queue = append(queue, f)
	}
	inDht := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f.Pkg != nil && (f.Pkg == p.Pkg("dht") || f.Pkg == p.Pkg("dht/krpc") || f.Pkg == p.Pkg("dht/peerwire"))
	}
	add(listen, false)
	for _, f := range p.Funcs {
		if !inDht(f) {
			continue
		}
		fs, unk := p.startedIn(f)
		for _, g := range fs {
			add(g, true)
		}
		for _, in := range unk {
			r.Note("what is started at %s is not known: it is not examined on its own", p.InstrPos(in))
		}
	}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		var reach []*ssa.Function
		for g := range p.staticReach(f) {
			reach = append(reach, g)
		}
		sort.Slice(reach, func(i, j int) bool { return p.FuncName(reach[i]) < p.FuncName(reach[j]) })
		for _, g := range reach {
			if isPool(g) || !p.InRepo(g) {
				continue
			}
			fs, _ := p.startedIn(g)
			for _, x := range fs {
				add(x, true)
			}
		}
	}
	sort.Slice(roots, func(i, j int) bool { return p.FuncName(roots[i].fn) < p.FuncName(roots[j].fn) })

	// a loop that never ends by itself and that waits for input is not a task
	blocks := func(f *ssa.Function) bool {
		for g := range p.directReach(f, "dht/krpc") {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(p.CalleeName(c.Common()), "(*net.UDPConn).Read") {
						return true
					}
				}
			}
		}
		return false
	}

	closedFields := p.closedChans()
	contained, checkedPool := false, false
	workerContains := func() bool {
		if !checkedPool {
			checkedPool = true
			contained = p.workerContains(r, isPool)
		}
		return contained
	}

	// allocation sizes
	stored := map[string]bool{} // integer fields that only ever hold bounded values
	unboundedField := map[string]string{}
	type pend struct {
		key, where, msg string
		path            []string
		field           string
	}
	var pending []pend
	var bounded func(s *Sim, st *State, t *Term) bool
	bounded = func(s *Sim, st *State, t *Term) bool {
		if v, ok := t.intVal(); ok {
			return v <= maxAlloc
		}
		if s.bound(st, t, s.tt.Int(0)) <= maxAlloc {
			return true
		}
		switch t.op {
		case "len", "cap":
			return true
		case "conv":
			return bounded(s, st, t.sub[0]) || narrow(t.sub[0].typ)
		case "add":
			for _, x := range t.sub {
				if !bounded(s, st, x) {
					return false
				}
			}
			return true
		case "quo", "shr", "rem":
			return bounded(s, st, t.sub[0])
		case "bin":
			if t.aux == "&" {
				return bounded(s, st, t.sub[0]) || bounded(s, st, t.sub[1])
			}
			if t.aux == "/" || t.aux == ">>" {
				return bounded(s, st, t.sub[0])
			}
			if t.aux == "%" {
				return bounded(s, st, t.sub[0]) || bounded(s, st, t.sub[1])
			}
		case "index":
			return true
		}
		// not more than something that is already in memory
		for x := range st.num.vars {
			if (x.op == "len" || x.op == "cap") && s.entailsLe(st, t, x, 1024) {
				return true
			}
		}
		return narrow(t.typ)
	}
	announced := func(t *Term) bool {
		return t.any(func(x *Term) bool {
			switch x.op {
			case "app", "res":
				return strings.Contains(x.aux, "Uint16") || strings.Contains(x.aux, "Uint32") || strings.Contains(x.aux, "Uint64") || strings.Contains(x.aux, "misc.Decode") || strings.HasPrefix(x.aux, "strconv.") || strings.Contains(x.aux, "strconv.")
			}
			return false
		})
	}
	// own: a value this program has put into a container itself
	own := func(t *Term) bool {
		return !announced(t) && t.any(func(x *Term) bool {
			switch x.op {
			case "app", "res":
				return strings.Contains(x.aux, "sync.Map") || strings.Contains(x.aux, "atomic.Value") || strings.Contains(x.aux, "sync.Pool") || strings.Contains(x.aux, "list.") || strings.Contains(x.aux, "misc.SyncMap")
			case "lookup", "recv":
				return true
			}
			return false
		})
	}
	sized := func(s *Sim, st *State, in ssa.Instruction, what string, n *Term) {
		where := p.InstrPos(in)
		key := p.site(in, what)
		r.Ob(alloc, where)
		if bounded(s, st, n) {
			return
		}
		msg := fmt.Sprintf("%s of size %s, which comes from the peer and has no constant bound here", what, n)
		if announced(n) {
			r.Bad(alloc, key, where, msg, st.path(14))
			return
		}
		for k, v := range st.heap {
			if k.op == "fieldaddr" && v == n {
				pending = append(pending, pend{key, where, msg, st.path(14), k.sub[0].typ.String() + "." + k.aux})
				return
			}
		}
		if !n.any(func(x *Term) bool { return x.op == "load" || x.op == "global" || x.op == "field" }) {
			r.Note("the size %s allocated at %s is not known: not decided", n, where)
		}
	}

	for _, rt := range roots {
		name := p.FuncName(rt.fn)
		rule := stays
		if rt.fn == listen || blocks(rt.fn) {
			rule = loop
		}
		r.Ob(rule, name)
		reach := p.Reachable(rt.fn)
		h := Hooks{}
		h.PanicOut = func(s *Sim, st *State, val *Term) {
			x := val
			if x.op == "iface" && len(x.sub) > 0 {
				x = x.sub[0]
			}
			if x.op == "rterr" && x.aux == "type assertion" && len(x.sub) > 0 && own(x.sub[0]) {
				return
			}
			if rule == stays && workerContains() {
				return
			}
			what := val.String()
			if x.op == "rterr" {
				what = "a run-time error (" + x.aux + ")"
			}
			r.Bad(rule, name, p.Pos(rt.fn.Pos()), fmt.Sprintf("%s is not recovered and ends the process", what), st.path(20))
		}
		unprotected := func(st *State) bool {
			for _, f := range st.frames {
				for _, d := range f.defers {
					if d.fnT != nil && p.recovers(d) {
						return false
					}
				}
			}
			return true
		}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			if c.Fn != nil && p.InRepo(c.Fn) && !unprotected(st) {
				return &Verdict{Opaque: true} // whatever fails in it is recovered
			}
			return nil
		}
		h.Send = func(s *Sim, st *State, in ssa.Instruction, ch, val *Term, blocking bool) {
			if k := chanField(ch); k != "" && closedFields[k] != "" && unprotected(st) && rule == loop {
				r.Bad(rule, name, p.InstrPos(in), "a send on a channel that is closed at "+closedFields[k]+" ends the process", st.path(12))
			}
		}
		h.Load = func(s *Sim, st *State, in ssa.Instruction, addr *Term) {
			if addr.op != "fieldaddr" || addr.sub[0].op != "ext" || rule != loop || !unprotected(st) {
				return
			}
			// the result of a call whose error has not been looked at
			x := addr.sub[0]
			base := x.sub[0]
			for c := range st.facts {
				if c.op == "isnil" && c.sub[0].op == "ext" && c.sub[0] != x && c.sub[0].sub[0] == base {
					if v, k := s.truth(st, c); k && v {
						return
					}
				}
			}
			if s.nonNil(st, x) {
				return
			}
			if base.op != "res" {
				return
			}
			r.Bad(rule, name, p.InstrPos(in), "a result of "+shortName(base.aux)+" is used although the operation may have failed: a nil dereference ends the process", st.path(12))
		}
		o := Opts{Numeric: true, ImplicitPanics: true, MayPanic: func(c *CallEv) bool {
			return c.Name == "dynamic" || c.Fn != nil && p.InRepo(c.Fn) && !(c.Fn.Pkg == p.Pkg("config") || isPool(c.Fn))
		}, Opaque: func(f *ssa.Function) bool { return f.Pkg == p.Pkg("config") || isPool(f) }}
		r.explore(p, rt.fn, h, o, nil)

		// exits
		var fs []*ssa.Function
		for g := range reach {
			fs = append(fs, g)
		}
		sort.Slice(fs, func(i, j int) bool { return p.FuncName(fs[i]) < p.FuncName(fs[j]) })
		for _, g := range fs {
			if !p.InRepo(g) || g.Pkg == p.Pkg("config") || g.Parent() == nil && g.Pkg == nil {
				continue
			}
			r.Ob(exits, name)
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if n := p.CalleeName(c.Common()); isExit(n) {
						r.Bad(exits, p.site(in, n), p.InstrPos(in), n+" is reachable from "+name+": network input can end the process", nil)
					}
				}
			}
		}
	}
	// sizes: downloads on their own
	var starts []*ssa.Function
	for _, rt := range roots {
		starts = append(starts, rt.fn)
	}
	if !seen[fetch] {
		starts = append(starts, fetch)
	}
	for _, f := range p.Funcs {
		if inDht(f) && f.Parent() == nil && p.addrTaken[f] && !seen[f] {
			for _, q := range f.Params {
				if p.isPtrTo(q.Type(), "dht/krpc", "RpcContext") {
					starts = append(starts, f)
					break
				}
			}
		}
	}
	for _, start := range starts {
		start := start
		h := Hooks{}
		h.Make = func(s *Sim, st *State, in ssa.Instruction, kind string, size *Term) {
			if kind == "slice" || kind == "chan" || kind == "map" {
				sized(s, st, in, "make "+kind, size)
			}
		}
		h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == "fieldaddr" && val.typ != nil && isIntType(val.typ) {
				k := addr.sub[0].typ.String() + "." + addr.aux
				stored[k] = true
				if !bounded(s, st, val) && announced(val) {
					unboundedField[k] = p.InstrPos(in) + " stores " + short(val.String(), 100)
				}
			}
		}
		h.Cond = func(s *Sim, st *State, in *ssa.If, c *Term) {
			for c.op == "not" {
				c = c.sub[0]
			}
			if c.op != "lt" && c.op != "le" && c.op != "eq" {
				return
			}
			if !p.growing(in.Block()) {
				return
			}
			r.Ob(alloc, p.InstrPos(in))
			for _, x := range c.sub {
				for x.op == "add" && len(x.sub) > 0 {
					x = x.sub[0]
				}
				if announced(x) && x.op != "len" && !bounded(s, st, x) {
					r.Bad(alloc, p.site(in, "loop"), p.InstrPos(in), fmt.Sprintf("a list grows until it has the size %s, which comes from the peer and has no constant bound here", short(x.String(), 200)), st.path(14))
				}
			}
		}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			switch {
			case strings.HasSuffix(c.Name, ".Grow") && len(c.Args) == 2 || c.Name == "slices.Grow":
				sized(s, st, c.Instr, "growing a buffer", c.Args[1])
			case c.Name == "strings.Repeat" || c.Name == "bytes.Repeat":
				sized(s, st, c.Instr, "repeating", c.Args[1])
			case c.Name == "io/ioutil.ReadAll" || c.Name == "io.ReadAll" || c.Name == "io.Copy" || c.Name == "(*bytes.Buffer).ReadFrom" || c.Name == "(*bufio.Reader).ReadBytes" || c.Name == "(*bufio.Reader).ReadString":
				src := c.Args[0]
				if c.Name == "io.Copy" || c.Name == "(*bytes.Buffer).ReadFrom" {
					src = c.Args[1]
				}
				src = unface(src)
				r.Ob(unread, p.InstrPos(c.Instr))
				if src.any(func(x *Term) bool { return x.op == "res" && strings.Contains(x.aux, "net.Dial") }) && !src.any(func(x *Term) bool {
					return strings.Contains(x.aux, "LimitReader") || strings.Contains(x.aux, "LimitedReader")
				}) {
					r.Bad(unread, p.site(c.Instr, c.Name), p.InstrPos(c.Instr), "everything the peer sends is read into memory", st.path(14))
				}
			}
			return nil
		}
		r.explore(p, start, h, Opts{Numeric: true, Opaque: func(f *ssa.Function) bool {
			return f.Pkg == p.Pkg("config") || isPool(f) || isTable(f) || f == fetch && f != start
		}}, nil)

	}
	for _, x := range pending {
		switch {
		case unboundedField[x.field] != "":
			r.Bad(alloc, x.key, x.where, x.msg+" ("+unboundedField[x.field]+")", x.path)
		case !stored[x.field]:
			r.Note("the size allocated at %s is the field %s, which no path stores: not decided", x.where, x.field)
		}
	}
	r.Need(stays, 2)
	r.Need(loop, 1)
	r.Need(alloc, 1)

	// the decoders, with their inferred contracts
	decoders(p, NewReport("C02"), NewReport("C03"), func(s *Sim, st *State, in ssa.Instruction, kind string, n *Term) {
		where := p.InstrPos(in)
		r.Ob(alloc, where)
		if bounded(s, st, n) {
			return
		}
		for _, q := range s.Params {
			if q.typ != nil && (isStringType(q.typ) || isBytesType(q.typ)) && s.entailsLe(st, n, s.lenTerm(st, q), 1024) {
				return
			}
		}
		if understood(n) {
			r.Bad(alloc, p.site(in, "make "+kind), where, fmt.Sprintf("make %s of size %s, which the input announces and which is not bounded by the length of the input", kind, n), st.path(14))
		} else {
			r.Note("the size allocated at %s is not tracked: not decided", where)
		}
	})
}

// growing: the condition decides alone when a loop ends that appends to a list.
func (p *Program) growing(b *ssa.BasicBlock) bool {
	isHead := false
	for _, q := range b.Preds {
		isHead = isHead || b.Dominates(q)
	}
	if !isHead {
		return false
	}
	in := map[*ssa.BasicBlock]bool{}
	for _, x := range b.Parent().Blocks {
		for _, h := range loopsOf(x) {
			if h == b {
				in[x] = true
			}
		}
	}
	grows := false
	for x := range in {
		for _, i := range x.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			switch n := p.CalleeName(c.Common()); {
			case n == "builtin:append":
				grows = true
			case strings.HasPrefix(n, "builtin:"):
			default:
				if g := c.Common().StaticCallee(); g == nil || p.InRepo(g) {
					return false // it may fail, and end the loop
				}
			}
		}
		for _, y := range x.Succs {
			if x != b && !in[y] {
				return false
			}
		}
	}
	return grows
}

func narrow(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Uint8, types.Int8, types.Uint16, types.Int16:
		return true
	}
	return false
}

func isExit(n string) bool {
	switch n {
	case "os.Exit", "syscall.Exit", "syscall.Kill", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln",
		"(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "(*os.Process).Kill", "(*os.Process).Signal":
		return true
	}
	return strings.HasPrefix(n, "(*go.uber.org/zap.") && strings.Contains(n, ".Fatal")
}

// recovers: the deferred function calls recover itself.
func (p *Program) recovers(d *Deferred) bool {
	var fn *ssa.Function
	cc := d.instr.Common()
	if g, _ := funcOf(cc.Value); g != nil {
		fn = g
	}
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && p.CalleeName(c.Common()) == "builtin:recover" {
				return true
			}
		}
	}
	return false
}

func chanField(ch *Term) string {
	if ch.op == "load" && ch.sub[0].op == "fieldaddr" {
		a := ch.sub[0]
		if a.sub[0].typ != nil {
			return derefType(a.sub[0].typ).String() + "." + a.aux
		}
	}
	return ""
}

// closedChans: the channel fields that are closed somewhere.
func (p *Program) closedChans() map[string]string {
	out := map[string]string{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || p.CalleeName(c.Common()) != "builtin:close" {
					continue
				}
				if u, ok := c.Common().Args[0].(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						t := derefType(fa.X.Type())
						if str, ok := t.Underlying().(*types.Struct); ok {
							out[t.String()+"."+str.Field(fa.Field).Name()] = p.InstrPos(in)
						}
					}
				}
			}
		}
	}
	return out
}

// workerContains: a panic of a task does not leave the worker that runs it.
func (p *Program) workerContains(r *Report, isPool func(*ssa.Function) bool) bool {
	mk := p.Func("misc", "NewWorkPool")
	if mk == nil {
		return false
	}
	ok, runs := true, false
	for _, f := range p.goStarted(mk) {
		if !isPool(f) {
			continue
		}
		h := Hooks{}
		dyn := false
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			if c.Name == "dynamic" {
				dyn = true
			}
			return nil
		}
		out := false
		h.PanicOut = func(s *Sim, st *State, val *Term) { out = true }
		r.explore(p, f, h, Opts{MayPanic: func(c *CallEv) bool { return c.Name == "dynamic" }}, nil)
		if dyn {
			runs = true
			if out {
				ok = false
			}
		}
	}
	return ok && runs
}

// staticReach: the repository functions reached by direct calls, and the closures made on the way.
func (p *Program) staticReach(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !p.InRepo(f) && f.Synthetic == "" {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					walk(c.Common().StaticCallee())
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g, _ := mc.Fn.(*ssa.Function)
					walk(g)
				}
			}
		}
	}
	walk(fn)
	return seen
}
