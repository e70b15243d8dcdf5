package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "typestate of shutting down by path-sensitive simulation: the waiter begins only on the notified signal channel or the cancelled context, moves the status to shutting-down before anything is cleaned, starts the clean-up once, waits only in selections that include the one timeout and the completion, and moves the status to shut down after that; the fan-out starts one goroutine per registered action (counted by difference bounds) and announces completion only after all signed off; each goroutine runs its own action once and signs off after it; registering appends",
		ruleShutdown)
}

// isCleanFunc: the type of clean-up actions.
func isCleanFunc(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "CleanFunc"
}

func isCleanList(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && (isCleanFunc(s.Elem()) || isFuncType(s.Elem()))
}

// isPlainFunc: func() under whatever name.
func isPlainFunc(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 0 && s.Results().Len() == 0
}

func ruleShutdown(p *Program, r *Report) {
	const (
		trigger  = "shutdown begins on signal or cancellation only"
		notified = "SIGINT and SIGTERM arrive at the waiter"
		order    = "the status is shutting-down before the clean-up starts"
		onceAll  = "the clean-up is started once"
		bounded  = "waiting for the clean-up is limited by the timeout"
		ends     = "the wait ends when all finished or the timeout expired"
		final    = "the status becomes shut down after the wait"
		each     = "every registered action is started exactly once"
		complete = "completion is announced when all actions finished"
		runs     = "the started goroutine runs its action once"
		reg      = "registering keeps every action"
	)
	at := newAtomics(p)
	wait := p.Func("misc", "Wait4Shutdown")
	ctor := p.Func("misc", "WithShutdownContext")
	regf := p.Func("misc", "RegisterShutDownClean")
	initf := p.Func("misc", "InitShutdownCtx")
	stT := p.NamedType("misc", "ShutdownStatus")
	begun, ok1 := p.constInt("misc", "Shutdowning")
	done, ok2 := p.constInt("misc", "Shutdowned")
	if wait == nil || ctor == nil || regf == nil || initf == nil || stT == nil || !ok1 || !ok2 {
		r.Bad("anchors", "shutdown", "?", "Wait4Shutdown, WithShutdownContext, RegisterShutDownClean, InitShutdownCtx or the status values were not found", nil)
		return
	}
	isStatus := func(t types.Type) bool { return t != nil && types.Identical(t, stT) }
	isSigChan := func(ch *Term) bool {
		if ch == nil || ch.typ == nil {
			return false
		}
		c, ok := ch.typ.Underlying().(*types.Chan)
		return ok && c.Elem().String() == "os.Signal"
	}
	isDone := func(ch *Term) bool {
		return ch.any(func(x *Term) bool { return strings.Contains(x.aux, "(context.Context).Done") })
	}
	notifyCtx := false // signals arrive as cancellation
	for f := range p.directReach(ctor, "misc") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && p.CalleeName(c.Common()) == "os/signal.NotifyContext" {
					notifyCtx = true
				}
			}
		}
	}
	// goroutines that run one action (runners), goroutines that start those (fans)
	callsAction := func(f *ssa.Function) (calls int, looped bool) {
		for g := range p.directReach(f, "misc") {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok || c.Call.IsInvoke() || c.Call.StaticCallee() != nil {
						continue
					}
					if !isPlainFunc(c.Call.Value.Type()) {
						continue
					}
					if f0, _ := funcOf(c.Call.Value); f0 != nil {
						continue
					}
					calls++
					li := b
					seen := map[*ssa.BasicBlock]bool{}
					w := append([]*ssa.BasicBlock(nil), li.Succs...)
					for len(w) > 0 {
						x := w[0]
						w = w[1:]
						if seen[x] {
							continue
						}
						seen[x] = true
						looped = looped || x == b
						w = append(w, x.Succs...)
					}
				}
			}
		}
		return
	}
	startsAction := func(f *ssa.Function) bool {
		for g := range p.directReach(f, "misc") {
			for _, t := range p.tasks(g) {
				if n, _ := callsAction(t.Fn); t.Go && n > 0 {
					return true
				}
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch c := in.(type) {
					case *ssa.Go:
						if isPlainFunc(c.Call.Value.Type()) && c.Call.StaticCallee() == nil {
							return true
						}
					case *ssa.Call:
						if p.CalleeName(&c.Call) == "(*sync.WaitGroup).Go" {
							return true
						}
					}
				}
			}
		}
		return false
	}
	fans := map[*ssa.Function]bool{}
	runners := map[*ssa.Function]taskSite{}
	for f := range p.directReach(wait, "misc") {
		for _, t := range p.tasks(f) {
			if !t.Go {
				continue
			}
			if startsAction(t.Fn) {
				fans[t.Fn] = true
			} else if n, loop := callsAction(t.Fn); n > 0 {
				if loop {
					fans[t.Fn] = true
				} else {
					runners[t.Fn] = t
				}
			}
		}
	}
	direct := len(fans) == 0 // the waiter fans out itself
	for f := range fans {
		for g := range p.directReach(f, "misc") {
			for _, t := range p.tasks(g) {
				if n, _ := callsAction(t.Fn); t.Go && n > 0 {
					runners[t.Fn] = t
				}
			}
		}
	}
	usesWG := false
	receives := map[*ssa.Function]bool{} // counts the ends by receiving; not decided further
	for f := range fans {
		for g := range p.directReach(f, "misc") {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
						receives[f] = true
					}
					if c, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(p.CalleeName(c.Common()), "(*sync.WaitGroup)") {
						usesWG = true
					}
				}
			}
		}
	}
	if direct {
		for g := range p.directReach(wait, "misc") {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(p.CalleeName(c.Common()), "(*sync.WaitGroup)") {
						usesWG = true
					}
				}
			}
		}
	}
	// whole: the value is the list of all registered actions
	listField := ""
	var whole func(s *Sim, st *State, v *Term, depth int) (yes, known bool)
	whole = func(s *Sim, st *State, v *Term, depth int) (bool, bool) {
		if v == nil || depth > 5 {
			return false, false
		}
		v = unstale(v)
		if v.isNil() {
			return false, true
		}
		for i, d := range st.L["copy to"] {
			if d != v {
				continue
			}
			y, k := whole(s, st, st.L["copy of"][i], depth+1)
			if y && k && !s.entailsLe(st, s.lenTerm(st, st.L["copy of"][i]), s.lenTerm(st, v), 0) {
				return false, false
			}
			return y, k
		}
		switch v.op {
		case "load":
			if n, ok := memberOfTerm(v); ok {
				if listField == "" {
					listField = n
				}
				return n == listField, true
			}
		case "append":
			base, parts := flattenAppend(v)
			if len(parts) == 1 && (base.isNil() || base.op == "makeslice" || base.op == "obj" || s.entailsLe(st, s.lenTerm(st, base), s.tt.Int(0), 0)) {
				return whole(s, st, parts[0], depth+1)
			}
			for _, x := range append([]*Term{base}, parts...) {
				if y, k := whole(s, st, x, depth+1); k && y {
					return true, true
				}
			}
		case "slice":
			lo, hi := v.sub[1], v.sub[2]
			full := true
			if z, k := lo.intVal(); lo.op != "none" && !(k && z == 0) {
				full = false
			}
			if hi.op != "none" {
				l := s.lenTerm(st, v.sub[0])
				full = full && s.entailsLe(st, l, hi, 0)
			}
			if y, k := whole(s, st, v.sub[0], depth+1); k && y {
				return full, true
			}
		}
		return false, false
	}
	copies := func(st *State, c *CallEv) {
		if c.Name == "builtin:copy" && len(c.Args) == 2 && isCleanList(c.Args[0].typ) {
			st.AddL("copy to", unstale(c.Args[0]))
			st.AddL("copy of", c.Args[1])
		}
	}
	// fan-out: used for the goroutine, or for the waiter when it fans out itself
	type goAt struct {
		key, pos string
		phi      *Term
		n        int64
		hdr      *ssa.BasicBlock
	}
	fanOut := func(fn *ssa.Function, base Hooks, opts Opts) {
		li := newLoopInfo()
		hdr := map[*Term]*ssa.BasicBlock{}
		var gos []goAt
		notes := 0
		type backAt struct {
			to      *ssa.BasicBlock
			spawned bool
			elemNil bool
			path    []string
		}
		var backs []backAt
		type exitAt struct {
			st    *State
			where string
			le    map[*Term]int64 // len - phi
		}
		var exits []exitAt
		var lens *Term
		h := base
		li.hooks(&h)
		lp := h.LoopPhi
		h.LoopPhi = func(s *Sim, st *State, ph *ssa.Phi, t, in *Term, back bool) {
			lp(s, st, ph, t, in, back)
			hdr[t] = ph.Block()
			if isIntType(ph.Type()) {
				st.L["keep "+ph.Name()] = []*Term{t}
			}
		}
		spawn := func(s *Sim, st *State, in ssa.Instruction, key string, elem *Term, counted bool) {
			r.Ob(each, key)
			st.F["spawned"]++
			if st.F["spawned"] > 1 {
				r.Bad(each, key+" twice", p.InstrPos(in), "an action is started twice", st.path(8))
			}
			if !counted {
				if st.F["addone"] > 0 {
					st.F["addone"]--
				} else if usesWG && len(st.L["added"]) == 0 {
					r.Bad(complete, key+" counted", p.InstrPos(in), "a goroutine is started without being counted in the wait group", st.path(8))
				}
			}
			if elem == nil {
				notes++
				return
			}
			e := unstale(elem)
			lst, idx := elemTerm(e)
			if lst == nil {
				notes++
				return
			}
			if lst.op == "load" && (lst.sub[0].op == "free" || lst.sub[0].op == "freevar") || lst.op == "free" || lst.op == "param" {
				// given to this function; judged where it is started
			} else if y, k := whole(s, st, lst, 0); k && !y {
				r.Bad(each, key+" list", p.InstrPos(in), "the list whose actions are started is not the list of all registered actions", st.path(8))
			}
			l := s.lenTerm(st, lst)
			lens = l
			st.L["keep len"] = []*Term{l}
			if len(st.L["added"]) > 0 {
				a := st.L["added"][0]
				if !(s.entailsLe(st, a, l, 0) && s.entailsLe(st, l, a, 0)) {
					r.Bad(complete, key+" count", p.InstrPos(in), "the wait group does not count as many goroutines as there are actions", st.path(8))
				}
			}
			phi, off := countPhi(idx)
			if phi == nil {
				if _, k := idx.intVal(); k {
					r.Bad(each, key+" index", p.InstrPos(in), "always the same action is started", st.path(8))
				}
				notes++
				return
			}
			if b := s.bound(st, phi, l); b < inf {
				gos = append(gos, goAt{key, p.InstrPos(in), phi, b, hdr[phi]})
			} else {
				notes++
			}
			if init, ok := li.unit(phi); ok && init+off != 0 {
				r.Bad(each, key+" first", p.InstrPos(in), "the first action is not started", st.path(8))
			}
		}
		elemOf := func(s *Sim, st *State, vals []*Term) *Term {
			for _, v := range vals {
				if v == nil || v.typ == nil {
					continue
				}
				if isPlainFunc(v.typ) && v.op != "closure" && v.op != "fn" {
					return v
				}
				if pt, ok := v.typ.Underlying().(*types.Pointer); ok && isPlainFunc(pt.Elem()) {
					if x := s.load(st, v, pt.Elem()); x != nil {
						return x
					}
				}
			}
			return nil
		}
		atExit := func(s *Sim, st *State, where string) {
			e := exitAt{st: st, where: where, le: map[*Term]int64{}}
			if lens != nil {
				for phi := range hdr {
					if phi.typ != nil && isIntType(phi.typ) {
						e.le[phi] = s.bound(st, lens, phi)
					}
				}
			}
			exits = append(exits, e)
		}
		inner := h.Call
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			switch c.Name {
			case "(*sync.WaitGroup).Add":
				if v, ok := c.Args[1].intVal(); ok && v == 1 {
					st.F["addone"]++
				} else {
					st.L["added"] = []*Term{c.Args[1]}
				}
				if st.F["wg"] == 1 {
					r.Bad(complete, "Add after Wait", p.InstrPos(c.Instr), "goroutines are counted after the wait group was waited for", st.path(8))
				}
			case "(*sync.WaitGroup).Go":
				spawn(s, st, c.Instr, p.site(c.Instr, "wg.Go"), elemOf(s, st, append(append([]*Term(nil), c.Args[1:]...), c.Args[1].sub...)), true)
			case "(*sync.WaitGroup).Wait":
				st.F["wg"] = 1
				if st.F["addone"] > 0 {
					r.Bad(complete, "Add", p.InstrPos(c.Instr), "the wait group counts a goroutine that is not started: completion is never announced", st.path(8))
				}
				atExit(s, st, p.InstrPos(c.Instr))
			case "dynamic":
				if c.FnT != nil && isPlainFunc(c.FnT.typ) && c.FnT.op != "closure" && c.FnT.op != "fn" {
					r.Bad(each, "sequential: "+p.FuncName(c.Instr.Parent()), p.InstrPos(c.Instr), "an action runs in the goroutine that starts the others: when it hangs the others are never started", st.path(8))
					st.F["spawned"]++
					return &Verdict{Opaque: true}
				}
			case "builtin:close":
				if !direct {
					st.F["announced"] = 1
					r.Ob(complete, p.FuncName(c.Instr.Parent()))
					if st.F["wg"] == 0 && (usesWG || !receives[fn]) {
						r.Bad(complete, p.FuncName(c.Instr.Parent()), p.InstrPos(c.Instr), "completion is announced before all actions finished", st.path(8))
					}
				}
			}
			if inner != nil {
				return inner(s, st, c)
			}
			return nil
		}
		ig := h.Go
		h.Go = func(s *Sim, st *State, in *ssa.Go, f *Term, args []*Term) {
			isRun := false
			if f.fn != nil {
				_, isRun = runners[f.fn]
			} else {
				isRun = isPlainFunc(f.typ)
			}
			if isRun {
				vals := append([]*Term(nil), args...)
				if f.fn == nil {
					vals = append(vals, f)
				} else {
					vals = append(vals, f.sub...)
				}
				spawn(s, st, in, p.site(in, "go"), elemOf(s, st, vals), false)
			}
			if ig != nil {
				ig(s, st, in, f, args)
			}
		}
		isd := h.Send
		h.Send = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
			if !direct {
				st.F["announced"] = 1
				r.Ob(complete, p.FuncName(in.Parent()))
				if st.F["wg"] == 0 && (usesWG || !receives[fn]) {
					r.Bad(complete, p.FuncName(in.Parent()), p.InstrPos(in), "completion is announced before all actions finished", st.path(8))
				}
			}
			if isd != nil {
				isd(s, st, in, ch, v, blocking)
			}
		}
		h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) {
			en := false
			for c, v := range st.facts {
				if v && c.op == "isnil" && isPlainFunc(c.sub[0].typ) {
					en = true
				}
			}
			backs = append(backs, backAt{to, st.F["spawned"] > 0, en, st.path(6)})
			st.F["spawned"] = 0
		}
		ir := h.Return
		h.Return = func(s *Sim, st *State, res []*Term) {
			if st.F["wg"] == 0 {
				atExit(s, st, p.Pos(fn.Pos()))
			}
			if ir != nil {
				ir(s, st, res)
			}
		}
		opts.Numeric = true
		r.explore(p, fn, h, opts, nil)
		worst := map[string]goAt{}
		for _, g := range gos {
			k := g.key + g.phi.aux
			if w, ok := worst[k]; !ok || g.n > w.n {
				worst[k] = g
			}
		}
		hdrs := map[*ssa.BasicBlock]bool{}
		for _, g := range worst {
			hdrs[g.hdr] = true
			init, ok := li.unit(g.phi)
			if !ok {
				r.Note("%s: the loop that starts the actions was not understood", g.key)
				continue
			}
			if w := init - g.n; w != 1 {
				r.Bad(each, g.key+" range", g.pos, "the number of actions started differs from the number registered", nil)
			}
			for _, e := range exits {
				if d, ok := e.le[g.phi]; ok && d < inf && d > -(g.n+1) || ok && d >= inf {
					r.Bad(each, g.key+" early", e.where, "starting the actions can end before all were started", e.st.path(8))
				}
			}
		}
		for _, b := range backs {
			if hdrs[b.to] && !b.spawned && !b.elemNil {
				r.Bad(each, p.FuncName(b.to.Parent())+": skipped", p.Pos(fn.Pos()), "an action may be skipped", b.path)
			}
		}
		if notes > 0 && len(worst) == 0 {
			r.Note("%s: the loop that starts the actions was not understood", p.FuncName(fn))
		}
	}
	// the waiter
	var ctxField, sigField, waitBase string
	{
		h := Hooks{}
		// noneLeft: the path found that there is no action
		noneLeft := func(s *Sim, st *State) bool {
			for c, v := range st.facts {
				if v && c.has(s.tt.Int(0)) && (c.op == "eq" || c.op == "le") {
					return true
				}
			}
			return false
		}
		isCell := func(cell string, v *Term) bool {
			for k, t := range at.types {
				if shortAux(k) == shortAux(cell) && isStatus(t) {
					return true
				}
			}
			return isStatus(v.typ)
		}
		stored := func(s *Sim, st *State, in ssa.Instruction, v *Term) {
			x, ok := v.intVal()
			if !ok {
				return
			}
			switch x {
			case begun:
				r.Ob(trigger, p.FuncName(in.Parent()))
				if st.F["begun"] == 0 {
					r.Bad(trigger, p.FuncName(in.Parent()), p.InstrPos(in), "the status becomes shutting-down although neither signal nor cancellation arrived", st.path(8))
				}
				st.F["status"] = 1
			case done:
				r.Ob(final, p.FuncName(in.Parent()))
				if st.F["waited"] == 0 {
					r.Bad(final, p.FuncName(in.Parent())+": early", p.InstrPos(in), "the status becomes shut down before the wait ended", st.path(8))
				}
				st.F["status"] = 2
			default:
				st.F["status"] = 0
				if st.F["begun"] == 1 {
					r.Bad(final, p.FuncName(in.Parent())+": back", p.InstrPos(in), "the status moves back during shutdown", st.path(8))
				}
			}
		}
		member := func(ch *Term) string {
			out := ""
			ch.any(func(x *Term) bool {
				if x.op == "load" && x.sub[0].op == "fieldaddr" {
					out = shortAux(x.sub[0].aux)
					if b := x.sub[0].sub[0]; b.op == "load" && b.sub[0].op == "global" {
						waitBase = b.sub[0].aux
					}
				}
				return false
			})
			return out
		}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			copies(st, c)
			if st.F["begun"] == 1 {
				if c.Name == "builtin:close" && len(c.Args) > 0 && !c.Deferred && !isDone(c.Args[0]) {
					if !direct && !noneLeft(s, st) && !st.HasL("own", c.Args[0]) {
						st.AddL("own", c.Args[0])
					}
				}
				switch {
				case c.Name == "(*sync.WaitGroup).Wait" || c.Name == "time.Sleep" || c.Name == "(*sync.Cond).Wait":
					r.Bad(bounded, p.site(c.Instr, c.Name), p.InstrPos(c.Instr), "the waiter blocks outside of the timeout in "+c.Name, st.path(8))
				case strings.HasPrefix(c.Name, "time.After") || strings.HasPrefix(c.Name, "time.NewTimer") || c.Name == "context.WithTimeout":
					if st.F["selected"] == 1 {
						r.Bad(bounded, "timer restarted", p.InstrPos(c.Instr), "the timeout starts anew while waiting", st.path(8))
					}
				case c.Name == "dynamic" && c.FnT != nil && isPlainFunc(c.FnT.typ) && c.FnT.op != "closure" && c.FnT.op != "fn":
					if !c.Deferred && !c.FnT.any(func(x *Term) bool {
						return strings.Contains(x.aux, "context.With") || strings.Contains(x.aux, "NotifyContext")
					}) {
						r.Bad(bounded, p.site(c.Instr, "action"), p.InstrPos(c.Instr), "the waiter runs an action itself: the timeout does not limit it", st.path(8))
						return &Verdict{Opaque: true}
					}
				}
			} else if c.Name == "os/signal.Stop" || c.Name == "os/signal.Reset" || c.Name == "os/signal.Ignore" {
				r.Bad(notified, "stopped", p.InstrPos(c.Instr), "signals are no longer delivered while the waiter waits for them", st.path(8))
			}
			return at.call(s, st, c, atomicHooks{store: func(s *Sim, st *State, in ssa.Instruction, cell string, v *Term) {
				if isCell(cell, v) {
					stored(s, st, in, v)
				}
			}, cas: func(s *Sim, st *State, c *CallEv, cell string, from, to *Term, won bool) {
				if won && isCell(cell, to) {
					stored(s, st, c.Instr, to)
				}
			}})
		}
		h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
			if c.Name == "(context.Context).Err" && len(res) > 0 {
				st.F["errseen"] = 1
			}
		}
		h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, v *Term) {
			if addr.op == "fieldaddr" && isStatus(derefTypeOf(addr)) {
				stored(s, st, in, v)
			}
		}
		// what the waiter announces itself: right where there is no action, and
		// otherwise wrong when it then waits for that
		ownSend := func(s *Sim, st *State, in ssa.Instruction, ch *Term) {
			if direct || noneLeft(s, st) {
				return
			}
			if !st.HasL("own", ch) {
				st.AddL("own", ch)
			}
		}
		ownWait := func(s *Sim, st *State, in ssa.Instruction, ch *Term) {
			if st.HasL("own", ch) && !noneLeft(s, st) {
				r.Bad(complete, p.FuncName(in.Parent())+": own", p.InstrPos(in), "completion is announced before all actions finished: the waiter announces it itself", st.path(8))
			}
		}
		h.SelectHead = func(s *Sim, st *State, in *ssa.Select, chans []*Term) {
			if st.F["begun"] == 1 {
				for _, c := range chans {
					ownWait(s, st, in, c)
				}
			}
			if !in.Blocking {
				return
			}
			key := p.FuncName(in.Parent())
			if st.F["begun"] == 0 {
				r.Ob(trigger, key+": select")
				sig, ctx := false, false
				for _, c := range chans {
					if isSigChan(c) {
						sig = true
						if m := member(c); m != "" {
							sigField = m
						}
					} else if isDone(c) {
						ctx = true
						if m := member(c); m != "" {
							ctxField = m
						}
					}
				}
				if !sig && !notifyCtx {
					r.Bad(trigger, key+": signal", p.InstrPos(in), "the waiter does not wait for the signal", st.path(8))
				}
				if !ctx {
					r.Bad(trigger, key+": cancellation", p.InstrPos(in), "the waiter does not wait for cancellation", st.path(8))
				}
				return
			}
			r.Ob(bounded, key)
			st.F["selected"] = 1
			tmo, comp := false, false
			for _, c := range chans {
				switch {
				case timeoutChan(c, s.Params[0]):
					tmo = true
				case isDone(c) || isSigChan(c):
				default:
					comp = true
					if l := st.L["doneCh"]; len(l) > 0 {
						for _, x := range l {
							if x == c {
								st.F["match"] = 1
							}
						}
					}
				}
			}
			if !tmo {
				r.Bad(bounded, key, p.InstrPos(in), "the waiter waits without the timeout it was given", st.path(8))
			}
			if !comp {
				r.Bad(ends, key, p.InstrPos(in), "the waiter does not wait for the completion of the actions: shutdown always takes the whole timeout", st.path(8))
			} else if len(st.L["doneCh"]) > 0 && st.F["match"] == 0 {
				r.Bad(ends, key+": channel", p.InstrPos(in), "the waiter does not wait for the channel on which completion is announced", st.path(8))
			}
		}
		h.Recv = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
			if st.F["begun"] == 0 {
				if isSigChan(ch) || isDone(ch) {
					st.F["begun"] = 1
				}
				if _, ok := in.(*ssa.UnOp); ok && !(notifyCtx && isDone(ch)) {
					r.Bad(trigger, p.site(in, "receive"), p.InstrPos(in), "the waiter waits for one of signal and cancellation only", st.path(8))
				}
				return
			}
			ownWait(s, st, in, ch)
			tmo := timeoutChan(ch, s.Params[0])
			if _, ok := in.(*ssa.UnOp); ok && !tmo && blocking {
				r.Bad(bounded, p.site(in, "receive"), p.InstrPos(in), "the waiter waits without the timeout it was given", st.path(8))
			}
			if isSigChan(ch) || isDone(ch) && !tmo {
				st.F["early"] = 1
				return
			}
			st.F["waited"] = 1
			r.Ob(ends, p.FuncName(in.Parent()))
		}
		h.Send = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
			if st.F["begun"] == 1 {
				ownSend(s, st, in, ch)
			}
		}
		h.Go = func(s *Sim, st *State, in *ssa.Go, f *Term, args []*Term) {
			if f.fn == nil && !isPlainFunc(f.typ) {
				return
			}
			_, run := runners[f.fn]
			if f.fn != nil && !fans[f.fn] && !run {
				return
			}
			key := p.FuncName(in.Parent())
			r.Ob(order, key)
			if st.F["status"] != 1 {
				r.Bad(order, key, p.InstrPos(in), "the clean-up is started before the status became shutting-down", st.path(8))
			}
			if f.fn == nil || !fans[f.fn] {
				return
			}
			st.F["fans"]++
			r.Ob(onceAll, key)
			if st.F["fans"] > 1 {
				r.Bad(onceAll, key, p.InstrPos(in), "the clean-up is started twice", st.path(8))
			}
			// what the goroutine is given
			for i, v := range append(append([]*Term(nil), args...), f.sub...) {
				if v == nil || v.typ == nil {
					continue
				}
				_ = i
				x := v
				if pt, ok := v.typ.Underlying().(*types.Pointer); ok {
					if isCleanList(pt.Elem()) {
						x = s.load(st, v, pt.Elem())
					} else if _, ok := pt.Elem().Underlying().(*types.Chan); ok {
						x = s.load(st, v, pt.Elem())
					}
				}
				if x == nil || x.typ == nil {
					continue
				}
				if _, ok := x.typ.Underlying().(*types.Chan); ok {
					st.AddL("doneCh", x)
				}
				if isCleanList(x.typ) {
					r.Ob(each, key+": list")
					if y, k := whole(s, st, x, 0); k && !y {
						r.Bad(each, key+": list", p.InstrPos(in), "the list given to the clean-up is not the list of all registered actions", st.path(8))
					} else if !k {
						r.Note("the list given to the clean-up was not understood")
					}
				}
			}
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			r.Ob(final, "return")
			if st.F["begun"] == 0 {
				if st.F["errseen"] == 0 {
					r.Bad(trigger, "return", p.Pos(wait.Pos()), "the waiter returns without signal or cancellation", st.path(8))
				}
				return
			}
			if st.F["fans"] == 0 && !direct {
				if !noneLeft(s, st) {
					r.Bad(onceAll, "return", p.Pos(wait.Pos()), "shutdown ends without having started the clean-up", st.path(8))
				}
				return
			}
			if st.F["early"] == 1 && st.F["waited"] == 0 {
				r.Bad(ends, "return", p.Pos(wait.Pos()), "the wait ends although neither all actions finished nor the timeout expired", st.path(8))
			}
			if st.F["status"] != 2 {
				r.Bad(final, "return", p.Pos(wait.Pos()), "the status is not shut down when the wait returns", st.path(8))
			}
		}
		h.PanicOut = func(s *Sim, st *State, v *Term) {
			r.Bad(final, "panic", p.Pos(wait.Pos()), "waiting for shutdown panics", st.path(8))
		}
		if direct {
			fanOut(wait, h, Opts{})
		} else {
			r.explore(p, wait, h, Opts{}, nil)
		}
	}
	for f := range fans {
		fn := f
		h := Hooks{}
		h.Return = func(s *Sim, st *State, res []*Term) {
			r.Ob(complete, p.FuncName(fn)+": return")
			if st.F["announced"] == 0 {
				r.Bad(complete, p.FuncName(fn)+": silent", p.Pos(fn.Pos()), "the clean-up ends without announcing completion: the waiter waits for the whole timeout", st.path(8))
			}
		}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			copies(st, c)
			return at.call(s, st, c, atomicHooks{store: func(s *Sim, st *State, in ssa.Instruction, cell string, v *Term) {
				if x, ok := v.intVal(); ok && x == done && isStatus(v.typ) && st.F["wg"] == 0 {
					r.Bad(final, p.FuncName(fn), p.InstrPos(in), "the status becomes shut down while actions are running", st.path(8))
				}
			}})
		}
		fanOut(fn, h, Opts{})
	}
	// captured variables
	for _, t := range runners {
		r.Ob(each, p.FuncName(t.Fn)+": captures")
		if t.MC == nil {
			continue
		}
		for _, b := range t.MC.Bindings {
			if al, ok := b.(*ssa.Alloc); ok && sharedCapture(t.In, al) {
				if pt, ok := al.Type().Underlying().(*types.Pointer); ok && !isPlainFunc(pt.Elem()) && !isIntType(pt.Elem()) {
					continue
				}
				r.Bad(each, p.FuncName(t.Fn)+": captures", p.InstrPos(t.In), "the goroutines share the variable the loop assigns: an action may be started several times and others never", nil)
			}
		}
	}
	// one goroutine, one action
	for f := range runners {
		fn := f
		h := Hooks{}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			if c.Name == "(*sync.WaitGroup).Done" {
				st.F["done"]++
				for c, v := range st.facts {
					if v && c.op == "isnil" && isPlainFunc(c.sub[0].typ) {
						st.F["ran"]++
					}
				}
				if st.F["ran"] == 0 && !c.Unwind {
					r.Bad(complete, p.FuncName(fn)+": early", p.InstrPos(c.Instr), "the goroutine signs off before its action ran", st.path(6))
				}
				if st.F["done"] > 1 {
					r.Bad(complete, p.FuncName(fn)+": twice", p.InstrPos(c.Instr), "the goroutine signs off twice", st.path(6))
				}
			}
			if c.Name == "dynamic" && c.FnT != nil && isPlainFunc(c.FnT.typ) && c.FnT.op != "closure" && c.FnT.op != "fn" {
				st.F["ran"]++
				st.F["called"]++
				r.Ob(runs, p.FuncName(fn))
				if st.F["called"] > 1 {
					r.Bad(runs, p.FuncName(fn)+": twice", p.InstrPos(c.Instr), "the action is run twice", st.path(6))
				}
				return &Verdict{Opaque: true}
			}
			return nil
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			if st.F["ran"] == 0 {
				for c, v := range st.facts {
					if v && c.op == "isnil" && isPlainFunc(c.sub[0].typ) {
						st.F["ran"] = 1
					}
				}
				if st.F["ran"] == 0 {
					r.Bad(runs, p.FuncName(fn), p.Pos(fn.Pos()), "the goroutine ends without having run its action", st.path(6))
				}
			}
			if usesWG && st.F["done"] == 0 && !r.wgGo(p, fn) {
				r.Bad(complete, p.FuncName(fn)+": silent", p.Pos(fn.Pos()), "the goroutine ends without signing off: completion is never announced", st.path(6))
			}
		}
		r.explore(p, fn, h, Opts{}, nil)
	}
	// signals
	{
		h := Hooks{}
		h.Make = func(s *Sim, st *State, in ssa.Instruction, kind string, size *Term) {
			if mc, ok := in.(*ssa.MakeChan); ok && mc.Type().Underlying().(*types.Chan).Elem().String() == "os.Signal" {
				if n, ok := size.intVal(); ok && n == 0 {
					r.Bad(notified, "buffer", p.InstrPos(in), "the signal channel has no buffer: a signal that arrives while nobody waits is lost", st.path(6))
				}
			}
		}
		h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
			switch c.Name {
			case "os/signal.Notify", "os/signal.NotifyContext":
			case "os/signal.Stop", "os/signal.Reset", "os/signal.Ignore":
				st.F["stopped"] = 1
				return
			default:
				return
			}
			r.Ob(notified, c.Name)
			lst := c.Args[1]
			st.L["notified"] = []*Term{c.Args[0]}
			if lst.isNil() {
				return // every signal
			}
			got := map[string]bool{}
			exact := true
			n, ok := s.lenTerm(st, lst).intVal()
			if !ok {
				r.Note("the list of signals was not understood")
				return
			}
			b, off := lst, int64(0)
			if b.op == "slice" {
				if z, k := b.sub[1].intVal(); k {
					off = z
				}
				b = b.sub[0]
			}
			for i := int64(0); i < n; i++ {
				var v *Term
				if b.op == "list" && i+off < int64(len(b.sub)) {
					v = unface(b.sub[i+off])
				}
				for k, x := range st.heap {
					if k.op == "indexaddr" && k.sub[0] == b {
						if z, ok := k.sub[1].intVal(); ok && z == i+off {
							v = unface(x)
						}
					}
				}
				if v == nil {
					exact = false
					continue
				}
				if z, ok := v.intVal(); ok {
					switch z {
					case 2:
						got["SIGINT"] = true
					case 15:
						got["SIGTERM"] = true
					}
				} else if strings.Contains(v.String(), "os.Interrupt") {
					got["SIGINT"] = true
				} else {
					exact = false
				}
			}
			for _, n := range []string{"SIGINT", "SIGTERM"} {
				if !got[n] && exact {
					r.Bad(notified, n, p.InstrPos(c.Instr), n+" is not among the signals that are delivered", st.path(6))
				} else if !got[n] {
					r.Note("whether %s is delivered was not understood", n)
				}
			}
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			r.Ob(notified, "constructed")
			if len(st.L["notified"]) == 0 {
				r.Bad(notified, "constructed", p.Pos(ctor.Pos()), "no signal is delivered to the shutdown context", st.path(6))
				return
			}
			if st.F["stopped"] == 1 {
				r.Bad(notified, "stopped", p.Pos(ctor.Pos()), "the delivery of signals is stopped again", st.path(6))
			}
			if sigField == "" || len(res) != 1 {
				return
			}
			v := s.fieldOf(st, res[0], res[0].typ, sigField)
			if v != nil && v != st.L["notified"][0] {
				r.Bad(notified, "channel", p.Pos(ctor.Pos()), "the signals are delivered to another channel than the waiter reads", st.path(6))
			}
		}
		r.explore(p, ctor, h, Opts{}, nil)
		h = Hooks{}
		if ctxField != "" {
			chk := func(fn *ssa.Function) func(s *Sim, st *State, in ssa.Instruction, addr, v *Term) {
				return func(s *Sim, st *State, in ssa.Instruction, addr, v *Term) {
					if addr.op == "fieldaddr" && shortAux(addr.aux) == ctxField && addr.sub[0].op != "obj" && (v == s.Params[0] || v.has(s.Params[0])) {
						st.F["set"] = 1
					}
					if addr.op == "global" && addr.aux == waitBase {
						st.F["set"] = 1
					}
				}
			}
			h.Store = chk(initf)
			h.Return = func(s *Sim, st *State, res []*Term) {
				r.Ob(trigger, "context given")
				if st.F["set"] == 0 {
					r.Bad(trigger, "context given", p.Pos(initf.Pos()), "the context given for cancellation is not the one the waiter watches", st.path(6))
				}
			}
			r.explore(p, initf, h, Opts{}, nil)
		}
	}
	// registering
	if listField != "" {
		h := Hooks{}
		h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, v *Term) {
			if addr.op != "fieldaddr" || shortAux(addr.aux) != listField {
				return
			}
			r.Ob(reg, p.FuncName(in.Parent()))
			if b := addr.sub[0]; waitBase != "" && b.op == "load" && b.sub[0].op == "global" && b.sub[0].aux != waitBase {
				r.Bad(reg, "other list", p.InstrPos(in), "the actions are registered in another context than the one the waiter cleans", st.path(6))
			}
			base, parts := flattenAppend(v)
			all := append([]*Term{base}, parts...)
			old, given := false, false
			for x := unstale(base); x.op == "slice"; x = unstale(x.sub[0]) {
				lo, hi := s.tt.Int(0), (*Term)(nil)
				for i, b := range x.sub[1:] {
					if i == 0 && b.op != "none" {
						lo = b
					}
					if i == 1 && b.op != "none" {
						hi = b
					}
				}
				if v, ok := lo.intVal(); ok && v > 0 {
					r.Bad(reg, "dropped", p.InstrPos(in), "registering drops the actions registered before", st.path(6))
					return
				}
				if hi != nil {
					if v, ok := hi.intVal(); ok && !s.entailsLe(st, s.lenTerm(st, x.sub[0]), s.tt.Int(v), 0) {
						r.Bad(reg, "dropped", p.InstrPos(in), "registering drops the actions registered before", st.path(6))
						return
					}
				}
			}
			for _, x := range st.L["list"] {
				old = old || v.has(x)
			}
			st.L["list"] = []*Term{v}
			for _, x := range all {
				x = unstale(x)
				if n, ok := memberOfTerm(x); ok && n == listField {
					old = true
				}
				if x == s.Params[0] {
					given = true
				}
				if x.has(s.Params[0]) && x != s.Params[0] {
					if x.op == "slice" {
						if y := x.sub[0]; y == s.Params[0] {
							r.Bad(reg, "part", p.InstrPos(in), "only a part of the actions is registered", st.path(6))
						}
					} else if _, idx := elemTerm(x); idx != nil {
						if _, k := idx.intVal(); !k {
							given = true
							r.Note("actions are registered one by one")
						}
					}
				}
				if x.op == "append" && x.has(s.Params[0]) {
					given = true
				}
			}
			if v.isNil() {
				r.Bad(reg, "dropped", p.InstrPos(in), "registering drops the actions registered before", st.path(6))
				return
			}
			if !old && v.op == "append" && base.op != "makeslice" && base.op != "obj" && base.op != "phi" {
				r.Bad(reg, "dropped", p.InstrPos(in), "registering drops the actions registered before", st.path(6))
			}
			if v == s.Params[0] {
				r.Bad(reg, "dropped", p.InstrPos(in), "registering drops the actions registered before", st.path(6))
			}
			if given {
				st.F["wrote"]++
				if st.F["wrote"] > 1 {
					r.Note("actions are registered in several steps")
				}
			}
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			r.Ob(reg, "return")
			if st.F["wrote"] == 0 && !s.entailsLe(st, s.lenTerm(st, s.Params[0]), s.tt.Int(0), 0) {
				r.Bad(reg, "return", p.Pos(regf.Pos()), "registering returns without having stored the actions", st.path(6))
			}
		}
		r.explore(p, regf, h, Opts{Numeric: true}, nil)
		r.Need(reg, 2)
	} else {
		r.Note("where the registered actions are kept was not understood")
	}
	r.Need(trigger, 2)
	r.Need(notified, 2)
	r.Need(order, 1)
	r.Need(bounded, 1)
	r.Need(ends, 1)
	r.Need(final, 2)
}

// wgGo: the function is started with (*sync.WaitGroup).Go, which signs off itself.
func (r *Report) wgGo(p *Program, fn *ssa.Function) bool {
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && p.CalleeName(c.Common()) == "(*sync.WaitGroup).Go" {
					if g, _ := funcOf(c.Common().Args[1]); g == fn {
						return true
					}
				}
			}
		}
	}
	return false
}

// elemTerm: the list and index of an element.
func elemTerm(e *Term) (lst, idx *Term) {
	e = unstale(e)
	if e.op == "index" && len(e.sub) == 2 {
		return unstale(e.sub[0]), e.sub[1]
	}
	if (e.op == "load" || e.op == "hv" && len(e.sub) == 1) && e.sub[0].op == "indexaddr" {
		return unstale(e.sub[0].sub[0]), e.sub[0].sub[1]
	}
	return nil, nil
}
