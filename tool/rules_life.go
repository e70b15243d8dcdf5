package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "typestate of tasks and of the pool's status by path-sensitive simulation: a submission sends its task once and only after the status was read as running; a worker runs each task it receives exactly once itself and ends only after the stop signal and after it then found the queue empty, signing off once; one worker is started per count of the wait group; only the caller that moved the status from running in one critical section closes the stop channel; the wait is a selection that includes the timeout, and the status ends as shut down; cancellation leads to shutdown",
		ruleWorkPool)
}

// ---- atomics as values

type atomics struct {
	p     *Program
	types map[string]types.Type // member -> type stored in an atomic.Value
}

func newAtomics(p *Program) *atomics {
	a := &atomics{p, map[string]types.Type{}}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := p.CalleeName(c.Common())
				if n != "(*sync/atomic.Value).Store" && n != "(*sync/atomic.Value).CompareAndSwap" && n != "(*sync/atomic.Value).Swap" {
					continue
				}
				args := c.Common().Args
				mi, ok := args[len(args)-1].(*ssa.MakeInterface)
				if !ok {
					continue
				}
				fa, g := memberOf(args[0])
				if fa != nil {
					a.types[derefStruct(fa.X.Type()).Field(fa.Field).Name()+"#"+derefType(fa.X.Type()).String()] = mi.X.Type()
				} else if g != nil {
					a.types[p.shortGlobal(g)] = mi.X.Type()
				}
			}
		}
	}
	return a
}

// cell names the member an atomic operation works on.
func cellOf(addr *Term) string {
	addr = unstale(addr)
	if addr.op == "load" {
		addr = unstale(addr.sub[0])
	}
	if addr.op == "fieldaddr" || addr.op == "global" {
		return addr.aux
	}
	return addr.String()
}

func atomicOp(n string) string {
	m := ""
	switch {
	case strings.HasPrefix(n, "(*sync/atomic."):
		m = n[strings.LastIndex(n, ".")+1:]
	case strings.HasPrefix(n, "sync/atomic."):
		m = strings.TrimPrefix(n, "sync/atomic.")
	default:
		return ""
	}
	for _, k := range []string{"Load", "Store", "CompareAndSwap", "Swap", "Add"} {
		if strings.HasPrefix(m, k) {
			return k
		}
	}
	return ""
}

type atomicHooks struct {
	load  func(s *Sim, st *State, c *CallEv, cell string, v *Term)
	store func(s *Sim, st *State, in ssa.Instruction, cell string, v *Term)
	cas   func(s *Sim, st *State, c *CallEv, cell string, from, to *Term, won bool)
}

// call models an atomic operation; nil when the call is none.
func (a *atomics) call(s *Sim, st *State, c *CallEv, h atomicHooks) *Verdict {
	op := atomicOp(c.Name)
	if op == "" || len(c.Args) == 0 {
		return nil
	}
	cell := cellOf(c.Args[0])
	var t types.Type
	wrap := func(v *Term) *Term { return v }
	if strings.HasPrefix(c.Name, "(*sync/atomic.Value).") {
		t = a.types[cell]
		if t == nil {
			for k, x := range a.types {
				if shortAux(k) == shortAux(cell) {
					t = x
				}
			}
		}
		if t == nil {
			if op == "Store" {
				if h.store != nil {
					h.store(s, st, c.Instr, cell, unface(c.Args[1]))
				}
				return &Verdict{Outcomes: []Outcome{{}}}
			}
			return nil
		}
		tt := t
		wrap = func(v *Term) *Term { return s.tt.mk("iface", tt.String(), tt, v) }
	} else if sig := c.Instr.Common().Signature(); sig.Results().Len() == 1 {
		t = sig.Results().At(0).Type()
	}
	switch op {
	case "Load":
		v := s.fresh(st, s.tt.mk("res", s.siteID(c.Frame, c.Instr, "atomic load"), t))
		if h.load != nil {
			h.load(s, st, c, cell, v)
		}
		return &Verdict{Outcomes: []Outcome{{Res: []*Term{wrap(v)}}}}
	case "Store":
		if h.store != nil {
			h.store(s, st, c.Instr, cell, unface(c.Args[1]))
		}
		return &Verdict{Outcomes: []Outcome{{}}}
	case "CompareAndSwap":
		from, to := unface(c.Args[1]), unface(c.Args[2])
		return &Verdict{Outcomes: []Outcome{
			{Res: []*Term{s.tt.Bool(true)}, Apply: func(st *State) bool {
				if h.cas != nil {
					h.cas(s, st, c, cell, from, to, true)
				}
				return true
			}},
			{Res: []*Term{s.tt.Bool(false)}, Apply: func(st *State) bool {
				if h.cas != nil {
					h.cas(s, st, c, cell, from, to, false)
				}
				return true
			}},
		}}
	case "Swap":
		v := s.fresh(st, s.tt.mk("res", s.siteID(c.Frame, c.Instr, "atomic load"), t))
		if h.load != nil {
			h.load(s, st, c, cell, v)
		}
		if h.store != nil {
			h.store(s, st, c.Instr, cell, unface(c.Args[1]))
		}
		return &Verdict{Outcomes: []Outcome{{Res: []*Term{wrap(v)}}}}
	}
	return nil
}

// constInt is the value of a package-level constant.
func (p *Program) constInt(rel, name string) (int64, bool) {
	sp := p.Pkg(rel)
	if sp == nil {
		return 0, false
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok || c.Val().Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Val())
}

// timeoutChan: the channel fires after the given duration.
func timeoutChan(ch, d *Term) bool {
	return ch.any(func(x *Term) bool {
		if x.op != "res" && x.op != "app" {
			return false
		}
		if !strings.Contains(x.aux, "time.After") && !strings.Contains(x.aux, "time.NewTimer") && !strings.Contains(x.aux, "context.WithTimeout") && !strings.Contains(x.aux, "time.Tick") {
			return false
		}
		for _, y := range x.sub {
			if y == d {
				return true
			}
		}
		return false
	})
}

// countLoop finds the loop counter behind an index: index = phi + off.
func countPhi(t *Term) (phi *Term, off int64) {
	if t.op == "phi" {
		return t, 0
	}
	if t.op == "add" && len(t.sub) == 2 {
		if v, ok := t.sub[1].intVal(); ok && t.sub[0].op == "phi" {
			return t.sub[0], v
		}
		if v, ok := t.sub[0].intVal(); ok && t.sub[1].op == "phi" {
			return t.sub[1], v
		}
	}
	return nil, 0
}

// unit: the counter starts at a constant and goes up by one.
func (l *loopInfo) unit(phi *Term) (init int64, ok bool) {
	rec := l.m[phi]
	if rec == nil || len(rec.init) == 0 || len(rec.body) == 0 {
		return 0, false
	}
	for i, x := range rec.init {
		v, k := x.intVal()
		if !k || i > 0 && v != init {
			return 0, false
		}
		init = v
	}
	for _, x := range rec.body {
		if x.op != "add" && x.op != "addw" || len(x.sub) != 2 {
			return 0, false
		}
		a, b := unstale(x.sub[0]), unstale(x.sub[1])
		if v, k := a.intVal(); k {
			a, b = b, a
			_ = v
		}
		v, k := b.intVal()
		if !k || v != 1 || a != phi {
			return 0, false
		}
	}
	return init, true
}

// goStarted: functions started with go, reachable from fn through direct calls and closures.
func (p *Program) goStarted(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		for _, t := range p.tasks(f) {
			if t.Go {
				dup := false
				for _, o := range out {
					dup = dup || o == t.Fn
				}
				if !dup {
					out = append(out, t.Fn)
				}
			}
			visit(t.Fn)
		}
		for _, c := range p.callees[f] {
			if p.InRepo(c) {
				visit(c)
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	sort.Slice(out, func(i, j int) bool { return p.FuncName(out[i]) < p.FuncName(out[j]) })
	return out
}

func isFuncType(t types.Type) bool {
	if t == nil {
		return false
	}
	sig, ok := t.Underlying().(*types.Signature)
	return ok && sig.Params().Len() == 0 && sig.Results().Len() == 0
}

func isTaskChan(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	c, ok := t.typ.Underlying().(*types.Chan)
	return ok && isFuncType(c.Elem())
}

func isTimeOrDone(n string) bool { return n == "(context.Context).Done" }

// ---- C22

func ruleWorkPool(p *Program, r *Report) {
	const (
		submit  = "a task is accepted once and only while running"
		runs    = "each received task is run once by the worker"
		ends    = "a worker ends only when stopped and drained"
		signs   = "a worker signs off once, after its last task"
		counts  = "one worker per count of the wait group"
		once    = "one caller shuts down"
		bounded = "waiting is limited by the timeout"
		final   = "the status ends as shut down"
		starts  = "the pool is running once constructed"
		cancel  = "cancellation shuts the pool down"
	)
	at := newAtomics(p)
	ctor := p.Func("misc", "NewWorkPool")
	async := p.Method("misc", "WorkPool", "AsyncSubmit")
	shut := p.Method("misc", "WorkPool", "Shutdown")
	if ctor == nil || async == nil || shut == nil {
		r.Bad("anchors", "WorkPool", "?", "constructor, AsyncSubmit or Shutdown of the work pool was not found", nil)
		return
	}
	running, ok1 := p.constInt("misc", "Running")
	shutted, ok2 := p.constInt("misc", "Shutdowned")
	stT := p.NamedType("misc", "ShutdownStatus")
	if !ok1 || !ok2 || stT == nil {
		r.Bad("anchors", "ShutdownStatus", "?", "the status values were not found", nil)
		return
	}
	isStatus := func(t types.Type) bool { return t != nil && types.Identical(t, stT) }
	// a status kept in a plain atomic integer
	intStatus := map[string]bool{}
	if pt := p.NamedType("misc", "WorkPool"); pt != nil && !p.storesStatusAtomicValue() {
		if ps, ok := pt.Underlying().(*types.Struct); ok {
			typed := false
			for i := 0; i < ps.NumFields(); i++ {
				typed = typed || isStatus(ps.Field(i).Type())
			}
			for i := 0; i < ps.NumFields() && !typed; i++ {
				f := ps.Field(i)
				if n, ok := f.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" || isIntType(f.Type()) && strings.Contains(strings.ToLower(f.Name()), "stat") {
					intStatus[f.Name()] = true
				}
			}
		}
	}
	isCell := func(cell string, v *Term) bool {
		for k, t := range at.types {
			if shortAux(k) == shortAux(cell) && isStatus(t) {
				return true
			}
		}
		return isStatus(v.typ) || intStatus[shortAux(cell)] && v.typ != nil && isIntType(v.typ)
	}
	is := func(s *Sim, st *State, v *Term, c int64) (bool, bool) {
		return s.truth(st, s.eqT(v, s.tt.Const(constant.MakeInt64(c), stT)))
	}
	isRunning := func(s *Sim, st *State, v *Term) bool {
		t, k := is(s, st, v, running)
		if k {
			return t
		}
		for _, n := range []string{"Shutdowning", "Shutdowned"} {
			c, _ := p.constInt("misc", n)
			if t, k := is(s, st, v, c); !k || t {
				return false
			}
		}
		return true
	}
	// submission
	{
		h := Hooks{}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			return at.call(s, st, c, atomicHooks{load: func(s *Sim, st *State, c *CallEv, cell string, v *Term) {
				if isCell(cell, v) {
					st.AddL("status", v)
				}
			}})
		}
		h.Load = func(s *Sim, st *State, in ssa.Instruction, addr *Term) {
			if addr.op == "fieldaddr" && isStatus(derefTypeOf(addr)) {
				v := s.load(st, addr, stT)
				if !st.HasL("status", v) {
					st.AddL("status", v)
				}
			}
		}
		h.Send = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
			if v.typ == nil || !isFuncType(v.typ) {
				return
			}
			key := p.site(in, "send")
			r.Ob(submit, key)
			if v != s.Params[1] && (v.op == "const" || v.op == "nil") {
				r.Bad(submit, key+" value", p.InstrPos(in), "something other than the task is queued", st.path(6))
			}
			if st.F["sent"] > 0 {
				r.Bad(submit, key+" twice", p.InstrPos(in), "the task is queued twice", st.path(6))
			}
			st.F["sent"] = 1
			for _, x := range st.L["status"] {
				if isRunning(s, st, x) {
					return
				}
			}
			r.Bad(submit, key+" status", p.InstrPos(in), "a task is queued on a path on which the pool was not found to be running", st.path(6))
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			r.Ob(submit, "return")
			if st.F["sent"] == 0 && len(res) == 0 {
				r.Bad(submit, "return", p.Pos(async.Pos()), "the submission returns normally without having queued the task", st.path(6))
			}
		}
		r.explore(p, async, h, Opts{}, nil)
	}
	// goroutines of the pool
	workers := map[*ssa.Function]bool{}
	started := p.goStarted(ctor)
	usesWG := false
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && p.CalleeName(c.Common()) == "(*sync.WaitGroup).Add" && f.Pkg == p.Pkg("misc") {
					if fa, _ := memberOf(c.Common().Args[0]); fa != nil {
						usesWG = true
					}
				}
			}
		}
	}
	listeners := 0
	for _, f := range started {
		fn := f
		recvs := false
		h := Hooks{}
		pend := func(s *Sim, st *State, in ssa.Instruction, at string) {
			for _, t := range st.L["task"] {
				ok, known := s.truth(st, s.tt.mk("ext", "ok", types.Typ[types.Bool], t))
				if known && !ok {
					continue
				}
				r.Bad(runs, p.FuncName(fn)+": dropped", at, "a task is received but not run", st.path(8))
			}
			delete(st.L, "task")
		}
		h.Recv = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
			if isTaskChan(ch) {
				recvs = true
				pend(s, st, in, p.InstrPos(in))
				st.L["task"] = []*Term{v}
				st.F["empty"] = 0
				r.Ob(runs, p.FuncName(fn)+": "+p.FuncName(in.Parent()))
				if st.F["signed"] > 0 {
					r.Bad(signs, p.FuncName(fn), p.InstrPos(in), "the worker takes tasks after it signed off", st.path(8))
				}
				return
			}
			st.F["down"] = 1
			st.F["empty"] = 0
			if strings.Contains(ch.String(), "Done") {
				st.F["ctxdone"] = 1
			}
		}
		h.SelectHead = func(s *Sim, st *State, in *ssa.Select, chans []*Term) {
			for _, c := range chans {
				if isTaskChan(c) && !in.Blocking {
					st.F["empty"] = 1 // unless a task is received
				}
			}
		}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			if c.Fn == shut {
				st.F["shut"] = 1
				return &Verdict{Opaque: true}
			}
			if c.Name == "builtin:len" && isTaskChan(c.Args[0]) {
				st.F["len"] = 1
			}
			if c.Name == "(*sync.WaitGroup).Done" {
				r.Ob(signs, p.FuncName(fn))
				st.F["signed"]++
				if st.F["signed"] > 1 {
					r.Bad(signs, p.FuncName(fn), p.InstrPos(c.Instr), "the worker signs off twice", st.path(8))
					st.dead = true
				}
			}
			if c.Name == "dynamic" {
				for _, t := range st.L["task"] {
					if c.FnT == t {
						st.DelL("task", t)
						if len(st.L["task"]) == 0 {
							delete(st.L, "task")
						}
						st.L["ran"] = []*Term{t}
						return nil
					}
				}
				for _, t := range st.L["ran"] {
					if c.FnT == t {
						r.Bad(runs, p.FuncName(fn)+": twice", p.InstrPos(c.Instr), "a task is run twice", st.path(8))
					}
				}
			}
			return at.call(s, st, c, atomicHooks{})
		}
		h.Go = func(s *Sim, st *State, in *ssa.Go, f *Term, args []*Term) {
			for _, t := range st.L["task"] {
				if f == t || f.has(t) {
					r.Bad(runs, p.FuncName(fn)+": go", p.InstrPos(in), "the worker starts the task in another goroutine: shutdown does not wait for it", st.path(8))
					delete(st.L, "task")
				}
			}
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			if st.F["ctxdone"] == 1 && !recvs {
				r.Ob(cancel, p.FuncName(fn))
				listeners++
				if st.F["shut"] == 0 {
					r.Bad(cancel, p.FuncName(fn), p.Pos(fn.Pos()), "the goroutine that waits for cancellation ends without shutting the pool down", st.path(8))
				}
			}
			if !recvs {
				return
			}
			pend(s, st, nil, p.Pos(fn.Pos()))
			key := p.FuncName(fn)
			r.Ob(ends, key)
			closedQ := false
			for k, v := range st.facts {
				if k.op == "ext" && k.aux == "ok" && !v && k.sub[0].op == "recv" && len(k.sub[0].sub) > 0 && isTaskChan(k.sub[0].sub[0]) {
					closedQ = true
				}
			}
			if !closedQ {
				if st.F["down"] == 0 {
					r.Bad(ends, key+": running", p.Pos(fn.Pos()), "a worker ends although the pool was not stopped", st.path(8))
				} else if st.F["empty"] == 0 && st.F["len"] == 0 {
					r.Bad(ends, key+": drained", p.Pos(fn.Pos()), "a worker ends without having found the queue empty after the stop: accepted tasks are lost", st.path(8))
				}
			}
			if usesWG {
				r.Ob(signs, key)
				if st.F["signed"] != 1 {
					r.Bad(signs, key, p.Pos(fn.Pos()), "a worker ends without signing off at the wait group: shutdown waits for it until the timeout", st.path(8))
				}
			}
		}
		h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) {
			pend(s, st, nil, p.FuncName(from.Parent()))
			delete(st.L, "ran")
		}
		r.explore(p, fn, h, Opts{MayPanic: func(c *CallEv) bool { return c.Name == "dynamic" }}, nil)
		if recvs {
			workers[fn] = true
		}
	}
	if len(workers) == 0 {
		r.Bad("anchors", "worker", p.Pos(ctor.Pos()), "the constructor starts no goroutine that receives tasks", nil)
	}
	r.Ob(cancel, "listener")
	if listeners == 0 {
		r.Bad(cancel, "listener", p.Pos(ctor.Pos()), "no goroutine started by the constructor shuts the pool down on cancellation of its context", nil)
	}
	// construction
	{
		li := newLoopInfo()
		type goAt struct {
			key string
			pos string
			phi *Term
			n   int64 // phi <= count + n
			cnt *Term
		}
		var gos []goAt
		understoodAll, others := true, false
		h := Hooks{}
		li.hooks(&h)
		lp := h.LoopPhi
		h.LoopPhi = func(s *Sim, st *State, ph *ssa.Phi, t, in *Term, back bool) {
			lp(s, st, ph, t, in, back)
			if isIntType(ph.Type()) {
				st.L["keep "+ph.Name()] = []*Term{t}
			}
		}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			if c.Name == "(*sync.WaitGroup).Add" {
				if v, ok := c.Args[1].intVal(); ok && v == 1 {
					st.F["addone"]++
				} else {
					st.L["added"] = []*Term{c.Args[1]}
				}
			}
			return at.call(s, st, c, atomicHooks{store: func(s *Sim, st *State, in ssa.Instruction, cell string, v *Term) {
				if !isCell(cell, v) {
					return
				}
				st.F["stored"] = 2
				if x, ok := v.intVal(); ok && x == running {
					st.F["stored"] = 1
				}
			}})
		}
		h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, v *Term) {
			if addr.op == "fieldaddr" && isStatus(derefTypeOf(addr)) {
				st.F["stored"] = 2
				if x, ok := v.intVal(); ok && x == running {
					st.F["stored"] = 1
				}
			}
		}
		h.Go = func(s *Sim, st *State, in *ssa.Go, f *Term, args []*Term) {
			r.Ob(starts, "before goroutines")
			if st.F["stored"] != 1 && p.storesStatus(ctor) {
				r.Bad(starts, "before goroutines", p.InstrPos(in), "a goroutine of the pool is started before the status is set to running", st.path(6))
			}
			if f.fn == nil || !workers[f.fn] {
				if f.fn != nil && p.reachesCall(f.fn, "(*sync.WaitGroup).Done") {
					others = true
				}
				return
			}
			key := p.site(in, "go "+p.FuncName(f.fn))
			if !usesWG {
				return
			}
			r.Ob(counts, key)
			if st.F["addone"] > 0 {
				st.F["addone"]--
				return
			}
			if len(st.L["added"]) == 0 {
				r.Bad(counts, key, p.InstrPos(in), "a worker is started without being counted in the wait group", st.path(6))
				return
			}
			cnt := s.unwrap(st.L["added"][0])
			found := false
			for phi := range li.m {
				if phi.typ == nil || !isIntType(phi.typ) {
					continue
				}
				if b := s.bound(st, phi, cnt); b < inf && phi.op == "phi" {
					gos = append(gos, goAt{key, p.InstrPos(in), phi, b, cnt})
					found = true
				}
			}
			understoodAll = understoodAll && found
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			r.Ob(starts, "return")
			if st.F["stored"] != 1 && running != 0 || st.F["stored"] == 2 {
				r.Bad(starts, "return", p.Pos(ctor.Pos()), "the constructed pool is not running", st.path(6))
			}
			if st.F["stored"] == 0 && p.storesStatusAtomicValue() {
				r.Bad(starts, "return", p.Pos(ctor.Pos()), "the status is never set to running", st.path(6))
			}
			if st.F["addone"] > 0 {
				r.Bad(counts, "Add(1)", p.Pos(ctor.Pos()), "the wait group counts a worker that is not started", st.path(6))
			}
		}
		r.explore(p, ctor, h, Opts{Numeric: true}, nil)
		// the largest bound over the iterations
		worst := map[string]goAt{}
		for _, g := range gos {
			k := g.key + g.phi.aux
			if w, ok := worst[k]; !ok || g.n > w.n {
				worst[k] = g
			}
		}
		for _, g := range worst {
			init, ok := li.unit(g.phi)
			if !ok {
				r.Note("%s: the loop that starts the workers was not understood", g.key)
				continue
			}
			// iterations phi = init .. cnt+n
			if w := init - g.n; w != 1 && others {
				r.Note("%s: other goroutines sign off at the wait group too", g.key)
			} else if w != 1 {
				r.Bad(counts, g.key, g.pos, "the number of workers started differs from the count given to the wait group", nil)
			}
		}
		if !understoodAll {
			r.Note("the loop that starts the workers was not understood")
		}
	}
	// shutdown
	{
		h := Hooks{}
		chk := func(st *State, v *Term) {
			if st.F["held"] > 0 {
				st.AddL("checked", v)
			}
		}
		stored := func(s *Sim, st *State, in ssa.Instruction, v *Term) {
			x, ok := v.intVal()
			if !ok {
				return
			}
			if x == shutted {
				st.F["final"] = 1
				r.Ob(final, p.FuncName(in.Parent()))
				if st.F["waited"] == 0 {
					r.Bad(final, "early", p.InstrPos(in), "the status becomes shut down before the workers were waited for", st.path(8))
				}
			} else {
				st.F["final"] = 0
			}
			if x == running {
				r.Bad(final, "running again", p.InstrPos(in), "shutdown sets the status to running", st.path(8))
				return
			}
			if st.F["held"] > 0 {
				for _, c := range st.L["checked"] {
					if isRunning(s, st, c) {
						st.F["won"] = 1
					}
				}
			}
			if st.F["won"] == 0 && st.F["once"] == 0 {
				r.Bad(once, "status", p.InstrPos(in), "the status is changed by a caller that did not find the pool running in the same critical section", st.path(8))
			}
		}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			switch lockOp(c.Name) {
			case "lock":
				st.F["held"]++
				return nil
			case "unlock":
				st.F["held"]--
				delete(st.L, "checked")
				return nil
			}
			switch {
			case c.Name == "(*sync.Once).Do":
				st.F["once"] = 1
				st.F["won"] = 1
				r.Note("shutdown uses sync.Once")
			case c.Name == "builtin:close":
				if isTaskChan(c.Args[0]) {
					r.Bad(once, "queue closed", p.InstrPos(c.Instr), "the task queue is closed while submitters may send on it", st.path(8))
				}
				r.Ob(once, p.site(c.Instr, "close"))
				if st.F["won"] == 0 {
					r.Bad(once, p.site(c.Instr, "close"), p.InstrPos(c.Instr), "the stop channel can be closed by several callers: the status was not moved from running by this caller in one critical section", st.path(8))
				}
				if st.F["closed"] == 1 {
					r.Bad(once, p.site(c.Instr, "close twice"), p.InstrPos(c.Instr), "a channel is closed twice", st.path(8))
				}
				st.F["closed"] = 1
			case c.FnT != nil && c.Name == "dynamic" && st.F["won"] == 1:
				st.F["closed"] = 1 // a cancel function
			case c.Name == "(*sync.WaitGroup).Wait" || c.Name == "time.Sleep" || c.Name == "(*sync.Cond).Wait":
				r.Bad(bounded, p.site(c.Instr, c.Name), p.InstrPos(c.Instr), "shutdown waits without the timeout in "+c.Name, st.path(8))
			}
			return at.call(s, st, c, atomicHooks{
				load: func(s *Sim, st *State, c *CallEv, cell string, v *Term) {
					if isCell(cell, v) {
						chk(st, v)
						st.AddL("seen", v)
					}
				},
				store: func(s *Sim, st *State, in ssa.Instruction, cell string, v *Term) {
					if isCell(cell, v) {
						stored(s, st, in, v)
					}
				},
				cas: func(s *Sim, st *State, c *CallEv, cell string, from, to *Term, won bool) {
					if x, ok := from.intVal(); ok && x == running && won {
						st.F["won"] = 1
					}
				},
			})
		}
		h.Load = func(s *Sim, st *State, in ssa.Instruction, addr *Term) {
			if addr.op == "fieldaddr" && isStatus(derefTypeOf(addr)) {
				v := s.load(st, addr, stT)
				chk(st, v)
				if !st.HasL("seen", v) {
					st.AddL("seen", v)
				}
			}
		}
		h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, v *Term) {
			if addr.op == "fieldaddr" && isStatus(derefTypeOf(addr)) {
				stored(s, st, in, v)
			}
		}
		h.SelectHead = func(s *Sim, st *State, in *ssa.Select, chans []*Term) {
			if !in.Blocking {
				return
			}
			r.Ob(bounded, p.FuncName(in.Parent()))
			st.F["insel"] = 1
			for _, c := range chans {
				if timeoutChan(c, s.Params[1]) {
					st.F["waited"] = 1
					return
				}
			}
			r.Bad(bounded, p.FuncName(in.Parent()), p.InstrPos(in), "shutdown waits without its timeout", st.path(8))
		}
		h.Recv = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
			if _, ok := in.(*ssa.UnOp); ok && !timeoutChan(ch, s.Params[1]) {
				r.Bad(bounded, p.site(in, "receive"), p.InstrPos(in), "shutdown waits without its timeout", st.path(8))
			}
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			r.Ob(final, "return")
			if st.F["once"] == 1 {
				return
			}
			if st.F["won"] == 0 {
				// somebody else shuts down
				for _, v := range st.L["seen"] {
					if !isRunning(s, st, v) {
						return
					}
				}
				if len(st.L["seen"]) > 0 {
					r.Bad(once, "return", p.Pos(shut.Pos()), "shutdown returns although the pool was running", st.path(8))
				}
				return
			}
			if st.F["closed"] == 0 {
				r.Bad(once, "stop", p.Pos(shut.Pos()), "shutdown returns without having told the workers to stop", st.path(8))
			}
			if st.F["waited"] == 0 {
				r.Bad(final, "wait", p.Pos(shut.Pos()), "shutdown returns without having waited for the workers", st.path(8))
			}
			if st.F["final"] == 0 {
				r.Bad(final, "return", p.Pos(shut.Pos()), "the status is not shut down when shutdown returns", st.path(8))
			}
		}
		r.explore(p, shut, h, Opts{}, nil)
	}
	// what announces that the workers are gone waits for them
	for _, f := range p.goStarted(shut) {
		fn := f
		h := Hooks{}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			if c.Name == "(*sync.WaitGroup).Wait" {
				st.F["wg"] = 1
			}
			if c.Name == "builtin:close" {
				r.Ob(final, p.FuncName(fn))
				if st.F["wg"] == 0 {
					r.Bad(final, p.FuncName(fn), p.InstrPos(c.Instr), "completion is announced before all workers signed off", st.path(6))
				}
			}
			return nil
		}
		h.Send = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
			r.Ob(final, p.FuncName(fn))
			if st.F["wg"] == 0 {
				r.Bad(final, p.FuncName(fn), p.InstrPos(in), "completion is announced before all workers signed off", st.path(6))
			}
		}
		r.explore(p, fn, h, Opts{}, nil)
	}
	r.Need(submit, 2)
	r.Need(runs, 1)
	r.Need(ends, 1)
	r.Need(final, 2)
}

// derefTypeOf is the type behind an address term.
func derefTypeOf(addr *Term) types.Type {
	if addr.typ == nil {
		return nil
	}
	if pt, ok := addr.typ.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return nil
}

func (p *Program) storesStatus(ctor *ssa.Function) bool { return p.storesStatusAtomicValue() }

// storesStatusAtomicValue: the pool's status lives in an atomic.Value, which is empty until stored.
func (p *Program) storesStatusAtomicValue() bool {
	t := p.NamedType("misc", "WorkPool")
	if t == nil {
		return false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isSyncType(st.Field(i).Type(), "Value") {
			return true
		}
	}
	return false
}

// reachesCall: fn or a function of the repository it calls itself calls name.
func (p *Program) reachesCall(fn *ssa.Function, name string) bool {
	for f := range p.staticReach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && p.CalleeName(c.Common()) == name {
					return true
				}
			}
		}
	}
	return false
}
