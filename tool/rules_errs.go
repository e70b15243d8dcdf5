package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C33: failures are not swallowed. Every call that reports an error, in every function: on no path does
// the function go on without having looked at the error, use what the failed call returned, report
// success itself, or carry on with what the failed step was about.

func init() {
	register("C33", "path-sensitive error typestate over SSA at every fallible call site (looked at, result unused after a failure, not turned into success, step abandoned)", ruleErrs)
}

const (
	c33Look  = "every reported failure is looked at"
	c33Use   = "the result of a failed operation is not used"
	c33Ok    = "a failure is not reported as success"
	c33Abort = "a failed step is abandoned"
)

// errExempt: operations whose failure carries nothing a caller relies on.
func errExempt(n string) bool {
	base := n[strings.LastIndex(n, ".")+1:]
	switch base {
	case "Close", "Remove", "RemoveAll", "Mkdir", "MkdirAll", "SetDeadline", "SetReadDeadline", "SetWriteDeadline", "SetKeepAlive", "Signal", "Release":
		return true
	}
	for _, p := range []string{"fmt.", "(*bytes.Buffer).", "(*strings.Builder).", "(hash.", "math/rand.", "(*math/rand.", "crypto/rand.", "errors.", "flag.", "(context.", "runtime", "(*os.Process)", "(*log.", "(*go.uber.org/zap"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return strings.HasPrefix(n, "builtin:")
}

type errGroup struct {
	consts map[int]*Term // results that are constant
	err    int           // 1 nil, 2 non-nil, 0 either
}

type errRule struct {
	p      *Program
	r      *Report
	groups map[*ssa.Function][]errGroup
	busy   map[*ssa.Function]bool
	exempt map[*ssa.Function]bool
	sites  map[string]*errSite
}

type errSite struct {
	name string
	fn   *ssa.Function
	in   ssa.Instruction
}

// fallible: the call reports an error that matters.
func (x *errRule) fallible(c *CallEv) bool {
	sig := c.Instr.Common().Signature()
	if errIndex(sig) < 0 {
		return false
	}
	if c.Fn != nil {
		if c.Fn.Blocks != nil && x.p.InRepo(c.Fn) {
			return !x.exemptFn(c.Fn) && !x.p.isLoggerMethod(c.Fn)
		}
	}
	return !errExempt(c.Name) && c.Name != "dynamic"
}

// exemptFn: a function of the repository that only passes on the errors of exempt calls.
func (x *errRule) exemptFn(fn *ssa.Function) bool {
	if v, ok := x.exempt[fn]; ok {
		return v
	}
	x.exempt[fn] = true
	ok := true
	ei := errIndex(fn.Signature)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case ssa.CallInstruction:
				cc := i.Common()
				if errIndex(cc.Signature()) < 0 {
					if cc.Signature().Results().Len() == 1 && isErrorType(cc.Signature().Results().At(0).Type()) {
						ok = false
					}
					continue
				}
				if f := cc.StaticCallee(); f != nil && f.Blocks != nil && x.p.InRepo(f) {
					ok = ok && x.exemptFn(f)
				} else if !errExempt(x.p.CalleeName(cc)) || strings.HasPrefix(x.p.CalleeName(cc), "errors.") || strings.HasPrefix(x.p.CalleeName(cc), "fmt.Errorf") {
					ok = false
				}
			case *ssa.MakeInterface:
				if isErrorType(i.Type()) {
					ok = false
				}
			case *ssa.Return:
				if ei >= 0 && ei < len(i.Results) {
					if u, isLoad := i.Results[ei].(*ssa.UnOp); isLoad {
						if _, isG := u.X.(*ssa.Global); isG {
							ok = false
						}
					}
				}
			}
		}
	}
	x.exempt[fn] = ok
	return ok
}

// outcomes of a fallible call: fresh results, related to the error as the callee relates them.
func (x *errRule) outcomes(s *Sim, st *State, c *CallEv) *Verdict {
	sig := c.Instr.Common().Signature()
	n := sig.Results().Len()
	groups := []errGroup{{}}
	if c.Fn != nil && c.Fn.Blocks != nil && x.p.InRepo(c.Fn) {
		groups = x.groupsOf(c.Fn)
	}
	res := make([]*Term, n)
	for i := range res {
		res[i] = s.fresh(st, s.tt.mk("res", s.siteID(c.Frame, c.Instr, "r"+itoa(int64(i))), sig.Results().At(i).Type()))
	}
	v := &Verdict{Opaque: true}
	for _, g := range groups {
		g := g
		out := append([]*Term(nil), res...)
		for i, t := range g.consts {
			out[i] = s.tt.Const(t.cval, t.typ)
		}
		if g.err == 1 {
			out[n-1] = s.tt.Nil(sig.Results().At(n - 1).Type())
		}
		v.Outcomes = append(v.Outcomes, Outcome{Res: out, Apply: func(t *State) bool {
			s.opaqueEffects(t, c)
			if g.err == 2 {
				return s.assume(t, s.tt.mk("isnil", "", nil, out[n-1]), false)
			}
			return true
		}})
	}
	return v
}

// groupsOf: how the constant results of a function go with its error.
func (x *errRule) groupsOf(fn *ssa.Function) []errGroup {
	if g, ok := x.groups[fn]; ok {
		return g
	}
	if x.busy[fn] {
		return []errGroup{{}}
	}
	x.busy[fn] = true
	defer delete(x.busy, fn)
	sig := fn.Signature
	has := false
	for i := 0; i < sig.Results().Len(); i++ {
		has = has || isBoolType(sig.Results().At(i).Type())
	}
	out := []errGroup{{}}
	if has {
		m := map[string]*errGroup{}
		seen := map[string]int{}
		h := Hooks{}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			if x.fallible(c) {
				return x.outcomes(s, st, c)
			}
			return nil
		}
		whole := true
		h.Return = func(s *Sim, st *State, res []*Term) {
			g := errGroup{consts: map[int]*Term{}, err: s.errState(st, res[len(res)-1])}
			k := ""
			for i, t := range res[:len(res)-1] {
				if b, ok := t.boolVal(); ok && isBoolType(sig.Results().At(i).Type()) {
					g.consts[i] = t
					k += fmt.Sprintf(" %d=%v", i, b)
				} else if isBoolType(sig.Results().At(i).Type()) {
					whole = false
				}
			}
			if o := m[k]; o != nil {
				if o.err != g.err {
					o.err = 0
				}
			} else {
				m[k] = &g
			}
			seen[k] |= 1 << uint(g.err)
		}
		s := NewSim(x.p, nil, h, Opts{MaxStates: 20000})
		if err := s.Run(fn, nil); err == nil && whole && len(m) > 0 {
			out = nil
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				out = append(out, *m[k])
			}
		}
	}
	x.groups[fn] = out
	return out
}

func ruleErrs(p *Program, r *Report) {
	x := &errRule{p: p, r: r, groups: map[*ssa.Function][]errGroup{}, busy: map[*ssa.Function]bool{}, exempt: map[*ssa.Function]bool{}}
	for _, fn := range p.Funcs {
		if fn.Blocks == nil || isInitFn(fn) || onlyOneCall(fn) {
			continue
		}
		if errIndex(fn.Signature) < 0 && (fn.Parent() == nil && !p.isEntry(fn) && p.callsItself(fn) || fn.Parent() != nil && p.callsItself(outermost(fn))) {
			continue // a step of a recursive operation is judged where it is taken
		}
		direct := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && errIndex(c.Common().Signature()) >= 0 {
					f := c.Common().StaticCallee()
					direct = direct || x.fallible(&CallEv{Instr: c, Fn: f, Name: p.CalleeName(c.Common())})
				}
			}
		}
		if direct {
			x.check(fn)
		}
	}
	r.Need(c33Look, 10)
}

// again: a step of a recursive operation on what it already holds (not on what it was given): whether
// that can fail is decided by the rules of the structure, not here.
func (x *errRule) again(s *Sim, c *CallEv) bool {
	if c.Fn == nil || c.Frame.fn == c.Fn || !x.p.staticReach(c.Fn)[c.Frame.fn] {
		return false
	}
	for i, a := range c.Args {
		if i == 0 && c.Fn.Signature.Recv() != nil {
			continue
		}
		for _, q := range s.Params {
			if unface(a) == q || c.Fn.Signature.Recv() == nil && a.has(q) {
				return false
			}
		}
	}
	return true
}

// carries: the value is, contains, or points to a structure holding v.
func carries(st *State, t, v *Term) bool {
	if t == nil {
		return false
	}
	if t.has(v) {
		return true
	}
	o := unface(t)
	if o.op != "obj" {
		return false
	}
	for a, x := range st.heap {
		if x != nil && x.has(v) && a.op == "fieldaddr" && baseObj(a) == o {
			return true
		}
	}
	return false
}

func isCount(n string, t types.Type) bool {
	base := n[strings.LastIndex(n, ".")+1:]
	return isIntType(t) && (strings.HasPrefix(base, "Read") || strings.HasPrefix(base, "Write") || strings.HasPrefix(base, "Copy"))
}

func (x *errRule) check(fn *ssa.Function) {
	p, r := x.p, x.r
	name := p.FuncName(fn)
	x.sites = map[string]*errSite{}
	keys := func(st *State) []string {
		var ks []string
		for k := range st.L {
			if strings.HasPrefix(k, "e:") {
				ks = append(ks, k[2:])
			}
		}
		sort.Strings(ks)
		return ks
	}
	desc := func(k string) string { return x.sites[k].name }
	at := func(k string) string { return p.InstrPos(x.sites[k].in) }
	judge := func(s *Sim, st *State, k string, told bool) {
		e := st.L["e:"+k]
		if len(e) == 0 || told {
			return
		}
		if s.errState(st, e[0]) == 0 && !st.HasL("esc", e[0]) {
			r.Bad(c33Look, name+" "+desc(k), at(k), "the error of "+desc(k)+" is not looked at", st.path(20))
		} else {
			r.Ob(c33Look, name+" "+desc(k))
		}
	}
	used := func(s *Sim, st *State, in ssa.Instruction, what string, known bool, ts ...*Term) {
		for _, f := range st.frames {
			if f.kind != frCall {
				return // cleaning up
			}
		}
		for _, k := range keys(st) {
			e := st.L["e:"+k]
			es := s.errState(st, e[0])
			if es == 1 || known && es != 2 {
				continue
			}
			for _, v := range e[1:] {
				for _, t := range ts {
					if carries(st, t, v) {
						m := "may have failed"
						if es == 2 {
							m = "failed"
						}
						r.Bad(c33Use, name+" "+desc(k), p.InstrPos(in), "what "+desc(k)+" returned is "+what+" although it "+m, st.path(20))
						return
					}
				}
			}
		}
	}
	escape := func(st *State, ts ...*Term) {
		for _, k := range keys(st) {
			e := st.L["e:"+k][0]
			for _, t := range ts {
				if t != nil && t.has(e) && !st.HasL("esc", e) {
					st.AddL("esc", e)
				}
			}
		}
	}
	// passedOn: a helper that gets the error with the result looks at it on the caller's behalf
	passedOn := func(st *State, c *CallEv) bool {
		if c.Fn == nil || c.Fn.Blocks == nil || !p.InRepo(c.Fn) || p.isLoggerMethod(c.Fn) {
			return false
		}
		for i, a := range c.Args {
			if i >= len(c.Fn.Params) || !isErrorType(c.Fn.Params[i].Type()) {
				continue
			}
			for _, k := range keys(st) {
				if a == st.L["e:"+k][0] {
					return true
				}
			}
		}
		return false
	}
	h := Hooks{}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		fallible := x.fallible(c)
		if fallible && passedOn(st, c) {
			st.F["inlined "+s.siteID(c.Frame, c.Instr, "")] = 1
			return nil
		}
		inlined := !fallible && c.Fn != nil && c.Fn.Blocks != nil && p.InRepo(c.Fn) && !s.opaqueByDefault(c.Fn)
		base := c.Name[strings.LastIndex(c.Name, ".")+1:]
		if !inlined {
			escape(st, c.Args...)
			quiet := strings.HasPrefix(c.Name, "builtin:") || pureFuncs[c.Name] || base == "Close" || base == "Put" || c.Deferred || base == "String" || base == "Error" ||
				c.Fn != nil && p.isLoggerMethod(c.Fn) || strings.HasPrefix(c.Name, "(misc.Logger)") || noReturnName(c.Name) != ""
			if !quiet {
				used(s, st, c.Instr, "passed to "+c.Name, false, c.Args...)
			}
		}
		if !fallible {
			return nil
		}
		// carrying on with what a failed step was about
		for _, k := range keys(st) {
			e := st.L["e:"+k][0]
			switch s.errState(st, e) {
			case 1:
				continue
			case 0:
				if !st.HasL("logged", e) {
					continue
				}
			}
			if x.sites[k].in == ssa.Instruction(c.Instr) && !(base == "Write" && c.Name != "(*net.UDPConn).Write") {
				continue // a new attempt at the same place is not carrying on
			}
			for _, a := range st.L["a:"+k] {
				for _, t := range c.Args {
					if unface(t).has(a) {
						r.Bad(c33Abort, name+" "+desc(k), p.InstrPos(c.Instr), "although "+desc(k)+" failed, "+c.Name+" goes on with the same "+typeStr(a.typ, p), st.path(20))
					}
				}
			}
		}
		key := s.siteID(c.Frame, c.Instr, "")
		x.sites[key] = &errSite{name: c.Name, fn: c.Frame.fn, in: c.Instr}
		judge(s, st, key, false)
		return x.outcomes(s, st, c)
	}
	h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
		if !x.fallible(c) || x.again(s, c) {
			return
		}
		key := s.siteID(c.Frame, c.Instr, "")
		if st.F["inlined "+key] > 0 {
			delete(st.F, "inlined "+key)
			return
		}
		e := res[len(res)-1]
		delete(st.L, "e:"+key)
		delete(st.L, "a:"+key)
		if e.isNil() {
			return
		}
		if x.sites[key] == nil {
			x.sites[key] = &errSite{name: c.Name, fn: c.Frame.fn, in: c.Instr}
		}
		l := []*Term{e}
		for _, t := range res[:len(res)-1] {
			if t.op == "res" && !isCount(c.Name, t.typ) {
				l = append(l, t)
			}
		}
		st.L["e:"+key] = l
		var as []*Term
		for _, a := range c.Args {
			a = unface(a)
			if a.typ == nil {
				continue
			}
			_, isP := a.typ.Underlying().(*types.Pointer)
			_, isI := a.typ.Underlying().(*types.Interface)
			if isP || isI {
				if a.any(func(t *Term) bool { return t.op == "global" }) || a.isNil() {
					continue
				}
				as = append(as, a)
			}
		}
		if len(as) > 0 {
			st.L["a:"+key] = as
		}
	}
	h.Store = func(s *Sim, st *State, in ssa.Instruction, a, v *Term) {
		if a.op == "obj" && a.typ != nil && isErrorType(derefType(a.typ)) {
			return // the variable the error is kept in
		}
		escape(st, v)
		if b := baseObj(a); b.op != "obj" {
			for _, k := range keys(st) {
				for _, t := range st.L["e:"+k][1:] {
					if v.has(t) {
						if !st.HasL("kept:"+k, t) {
							st.AddL("kept:"+k, t)
						}
					}
				}
			}
		}
	}
	h.MapUpdate = func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
		escape(st, v)
		if m.op == "obj" {
			for _, k := range keys(st) {
				if e := st.L["e:"+k][0]; v.has(e) && !st.HasL("logged", e) {
					st.AddL("logged", e)
				}
			}
		}
	}
	h.Send = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
		escape(st, v)
		used(s, st, in, "sent", false, v)
	}
	h.Go = func(s *Sim, st *State, in *ssa.Go, f *Term, args []*Term) {
		escape(st, args...)
		used(s, st, in, "handed to a goroutine", false, args...)
	}
	h.Load = func(s *Sim, st *State, in ssa.Instruction, a *Term) {
		for _, k := range keys(st) {
			e := st.L["e:"+k]
			if s.errState(st, e[0]) == 1 {
				continue
			}
			for _, v := range e[1:] {
				if a == v || a.op == "fieldaddr" && a.sub[0] == v {
					r.Bad(c33Use, name+" "+desc(k), p.InstrPos(in), "what "+desc(k)+" returned is dereferenced although it may have failed", st.path(20))
				}
			}
		}
	}
	h.MapRead = func(s *Sim, st *State, in ssa.Instruction, m, k *Term) { used(s, st, in, "read", true, m) }
	h.Index = func(s *Sim, st *State, in ssa.Instruction, b, i *Term, ok bool) { used(s, st, in, "read", true, b) }
	h.Slice = func(s *Sim, st *State, in ssa.Instruction, b, lo, hi, mx *Term, ok bool) {
		used(s, st, in, "read", true, b)
	}
	h.LoopPhi = func(s *Sim, st *State, ph *ssa.Phi, t, in *Term, back bool) {
		if back {
			escape(st, in)
		}
	}
	h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) {
		for _, k := range keys(st) {
			b := x.sites[k].in.Block()
			if b.Parent() == to.Parent() && to.Dominates(b) && b.Index >= to.Index {
				judge(s, st, k, false)
			}
		}
	}
	ei := errIndex(fn.Signature)
	h.Return = func(s *Sim, st *State, res []*Term) {
		escape(st, res...)
		told := ei >= 0 && s.errState(st, res[ei]) != 1
		for i := 0; i < fn.Signature.Results().Len() && ei < 0; i++ {
			if isBoolType(fn.Signature.Results().At(i).Type()) {
				told = true
			}
		}
		for _, k := range keys(st) {
			judge(s, st, k, ei >= 0 && s.errState(st, res[ei]) == 2)
			e := st.L["e:"+k]
			es := s.errState(st, e[0])
			if es == 1 || told {
				if ei >= 0 && es == 2 && told {
					r.Ob(c33Ok, name+" "+desc(k))
				}
				continue
			}
			if es == 2 && ei >= 0 {
				r.Bad(c33Ok, name+" "+desc(k), at(k), desc(k)+" failed, but "+name+" reports success", st.path(20))
			}
			for _, t := range e[1:] {
				for i, v := range res {
					if i != ei && carries(st, v, t) {
						r.Bad(c33Use, name+" "+desc(k), at(k), "what "+desc(k)+" returned is given out although it may have failed", st.path(20))
					}
				}
			}
			if len(st.L["kept:"+k]) > 0 {
				r.Bad(c33Use, name+" "+desc(k), at(k), "what "+desc(k)+" returned is kept although it may have failed", st.path(20))
			}
		}
	}
	r.explore(p, fn, h, Opts{MaxStates: 60000}, nil)
}

// onlyOneCall: go func() { f() }() is go f(): nobody is there to look at the error.
func onlyOneCall(fn *ssa.Function) bool {
	if fn.Parent() == nil || len(fn.Blocks) != 1 || fn.Signature.Results().Len() > 0 {
		return false
	}
	calls := 0
	for _, in := range fn.Blocks[0].Instrs {
		if _, ok := in.(ssa.CallInstruction); ok {
			calls++
		}
		if _, ok := in.(*ssa.Store); ok {
			return false
		}
	}
	if calls != 1 || fn.Parent().Blocks == nil {
		return false
	}
	started := 0
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(fn) {
					started++
					mc, isMC := in.(*ssa.MakeClosure)
					if _, isGo := in.(*ssa.Go); !isGo && !(isMC && onlyGone(mc)) {
						return false
					}
				}
			}
		}
	}
	return started > 0
}

func onlyGone(mc *ssa.MakeClosure) bool {
	for _, u := range *mc.Referrers() {
		g, ok := u.(*ssa.Go)
		if _, dbg := u.(*ssa.DebugRef); dbg {
			continue
		}
		if !ok || g.Call.Value != ssa.Value(mc) {
			return false
		}
	}
	return true
}

// callsItself: the function is part of a cycle of calls.
func (p *Program) callsItself(fn *ssa.Function) bool {
	for _, c := range p.callees[fn] {
		if p.staticReach(c)[fn] {
			return true
		}
	}
	return false
}

func outermost(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}
