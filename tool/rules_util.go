package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// explore runs a simulation and accounts for it.
func (r *Report) explore(p *Program, fn *ssa.Function, h Hooks, o Opts, setup func(s *Sim, st *State)) *Sim {
	return r.exploreTT(p, nil, fn, h, o, setup)
}

func (r *Report) exploreTT(p *Program, tt *TermTable, fn *ssa.Function, h Hooks, o Opts, setup func(s *Sim, st *State)) *Sim {
	s := NewSim(p, tt, h, o)
	err := s.Run(fn, setup)
	r.States += s.States
	for f := range s.Inlined {
		r.Funcs[p.FuncName(f)] = true
	}
	if err != nil {
		r.Note("not explored completely: %v", err)
	}
	return s
}

func (r *Report) Note(f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	for _, n := range r.Notes {
		if n == m {
			return
		}
	}
	r.Notes = append(r.Notes, m)
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func isBytesType(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// errIndex is the position of the error result, or -1.
func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrorType(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// exported package functions of a repository package.
func (p *Program) exported(rel string, match func(name string) bool) []*ssa.Function {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg == sp && f.Parent() == nil && f.Signature.Recv() == nil && f.Object() != nil && f.Object().Exported() && match(f.Name()) {
			out = append(out, f)
		}
	}
	return out
}

// understood reports whether an integer term consists of values the numeric domain tracks.
func understood(t *Term) bool {
	return !t.any(func(x *Term) bool {
		switch x.op {
		case "load", "hv", "top", "lookup", "recv", "global", "obj", "field":
			return true
		}
		return false
	})
}

func unstale(t *Term) *Term {
	for t.op == "stale" {
		t = t.sub[0]
	}
	return t
}

func (p *Program) isNamed(t types.Type, rel, name string) bool {
	nt := p.NamedType(rel, name)
	return nt != nil && t != nil && types.Identical(t, nt)
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, x := range ps {
		if strings.HasPrefix(s, x) {
			return true
		}
	}
	return false
}

// site names a construct without line numbers: function and what is there.
func (p *Program) site(in ssa.Instruction, what string) string {
	return p.FuncName(in.Parent()) + ": " + what
}

// loops collects what flows into loop values: initial values and values after one iteration.
type loopRec struct {
	init, body []*Term
}
type loopInfo struct {
	m map[*Term]*loopRec
}

func newLoopInfo() *loopInfo { return &loopInfo{m: map[*Term]*loopRec{}} }

func (l *loopInfo) add(t, in *Term, back bool) {
	r := l.m[t]
	if r == nil {
		r = &loopRec{}
		l.m[t] = r
	}
	lst := &r.init
	if back {
		lst = &r.body
	}
	for _, x := range *lst {
		if x == in {
			return
		}
	}
	*lst = append(*lst, in)
}

func (l *loopInfo) hooks(h *Hooks) {
	h.LoopPhi = func(s *Sim, st *State, ph *ssa.Phi, t, in *Term, back bool) { l.add(t, in, back) }
	h.LoopBuf = func(s *Sim, st *State, hdr *ssa.BasicBlock, key, t, in *Term, back bool) { l.add(t, in, back) }
}

// initValues: the constant texts package variables have after initialisation, unless they are assigned later.
func (p *Program) initValues(rel string) map[*ssa.Global]string {
	out := map[*ssa.Global]string{}
	pkg := p.Pkg(rel)
	if pkg == nil || pkg.Func("init") == nil {
		return out
	}
	h := Hooks{}
	rets := 0
	h.Return = func(s *Sim, st *State, res []*Term) {
		rets++
		for _, mem := range pkg.Members {
			g, ok := mem.(*ssa.Global)
			if !ok || p.globalWritten(g) || strings.HasPrefix(g.Name(), "init$") {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			if !isStringType(t) && !isBytesType(t) {
				continue
			}
			v := s.content(st, s.load(st, s.globalAddr(g), t))
			if c, ok := v.strVal(); ok {
				if old, dup := out[g]; rets == 1 || dup && old == c {
					out[g] = c
					continue
				}
			}
			delete(out, g)
		}
	}
	s := NewSim(p, nil, h, Opts{Numeric: true})
	s.Run(pkg.Func("init"), func(s *Sim, st *State) {
		for _, mem := range pkg.Members {
			if g, ok := mem.(*ssa.Global); ok && g.Name() == "init$guard" {
				st.heap[s.globalAddr(g)] = s.tt.Bool(false)
			}
		}
	})
	return out
}

// setGlobals gives package variables the values they have after initialisation.
func (s *Sim) setGlobals(st *State, vals map[*ssa.Global]string) {
	for g, v := range vals {
		t := g.Type().(*types.Pointer).Elem()
		x := s.tt.Str(v)
		if !isStringType(t) {
			x = s.tt.mk("copy", "", t, x)
		}
		st.heap[s.globalAddr(g)] = x
	}
}
