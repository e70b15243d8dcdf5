package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// eachElem decides whether something is done for every element of a list: the
// element is reached through a counter that starts at the first element and goes
// up by one, no iteration comes to its end without it, and no way out of the
// function leaves the counter below the length of the list.
type eachElem struct {
	p      *Program
	name   string
	li     *loopInfo
	blk    map[*Term]*ssa.BasicBlock
	loops  map[string]*eachLoop
	missed map[*ssa.BasicBlock][]string
	fixed  []eachLoop          // elements with a fixed index
	size   func(t *Term) *Term // t is the number of elements of a list in the object that is returned
	ends   []*State
	ends2  []string
	s      *Sim
}

type eachLoop struct {
	phi   *Term
	off   int64
	lsts  []*Term
	where string
}

type eachProblem struct {
	what  string // counting, skipped, all, odd
	where string
	path  []string
}

func newEach(p *Program, name string) *eachElem {
	return &eachElem{p: p, name: name, li: newLoopInfo(), blk: map[*Term]*ssa.BasicBlock{}, loops: map[string]*eachLoop{}, missed: map[*ssa.BasicBlock][]string{}}
}

// phi is to be called from the LoopPhi hook.
func (e *eachElem) phi(s *Sim, st *State, ph *ssa.Phi, t, in *Term, back bool) {
	e.li.add(t, in, back)
	if isIntType(ph.Type()) {
		e.blk[t] = ph.Block()
		st.L["cnt "+itoa(int64(t.id))] = []*Term{t}
	}
}

// cond is to be called from the Cond hook: what bounds the counter stays known.
func (e *eachElem) cond(s *Sim, st *State, in *ssa.If, c *Term) {
	if !c.any(func(y *Term) bool {
		return y.op == "len" && isElemList(y.sub[0].typ) || e.size != nil && e.size(y) != nil
	}) {
		return
	}
	for k, ts := range st.L {
		if strings.HasPrefix(k, "cnt ") && c.any(func(y *Term) bool { return y == ts[0] }) {
			st.L["lim "+k] = []*Term{c}
			return
		}
	}
	st.L["lim"] = []*Term{c}
}

func isElemList(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// lens are the lengths of lists like lst that are known in this state.
func (e *eachElem) lens(s *Sim, st *State, lsts []*Term) (ns []*Term) {
	for _, l := range lsts {
		ns = append(ns, e.lensOf(s, st, l)...)
	}
	return
}

func (e *eachElem) lensOf(s *Sim, st *State, lst *Term) []*Term {
	ns := []*Term{s.lenTerm(st, lst)}
	for k, ts := range st.L {
		if strings.HasPrefix(k, "lim") {
			ts[0].any(func(y *Term) bool {
				if e.size != nil && e.size(y) != nil && lst.any(func(z *Term) bool { return z == e.size(y) }) {
					ns = append(ns, y)
				}
				if y.op == "len" && y.sub[0].typ != nil && lst.typ != nil && types.Identical(y.sub[0].typ, lst.typ) {
					ns = append(ns, y)
				}
				return false
			})
		}
	}
	return ns
}

// done: it was done for the element idx of lst.
func (e *eachElem) done(s *Sim, st *State, in ssa.Instruction, lst, idx *Term) {
	e.s = s
	phi, off := countPhi(idx)
	if phi == nil {
		if v, ok := idx.intVal(); ok {
			e.fixed = append(e.fixed, eachLoop{nil, v, []*Term{unstale(lst)}, e.p.InstrPos(in)})
		}
		return
	}
	e.loop(phi, off, lst, e.p.InstrPos(in))
	st.AddL("each "+e.name, idx)
}

func (e *eachElem) loop(phi *Term, off int64, lst *Term, where string) {
	k := phi.String() + "+" + s64(off)
	if e.loops[k] == nil {
		e.loops[k] = &eachLoop{phi: phi, off: off, where: where}
	}
	lst = unstale(lst)
	for _, x := range e.loops[k].lsts {
		if x == lst {
			return
		}
	}
	e.loops[k].lsts = append(e.loops[k].lsts, lst)
}

// doneHere: it was done in the current iteration of the loop with this header.
func (e *eachElem) doneHere(st *State, to *ssa.BasicBlock) bool {
	for _, q := range st.L["each "+e.name] {
		if phi, _ := countPhi(q); phi != nil && e.blk[phi] == to {
			return true
		}
	}
	return false
}

// back is to be called from the LoopBack hook.
func (e *eachElem) back(st *State, to *ssa.BasicBlock) {
	if !e.doneHere(st, to) {
		if e.missed[to] == nil {
			e.missed[to] = append(st.path(10), "")
		}
	}
	delete(st.L, "each "+e.name)
}

// end is to be called where everything must have been done; must tells that
// there is a list whether a loop was reached or not.
func (e *eachElem) end(s *Sim, st *State, where string, must bool) {
	e.s = s
	if len(e.ends) < 3000 {
		if must {
			st.F["must "+e.name] = 1
		}
		e.ends = append(e.ends, st.clone())
		e.ends2 = append(e.ends2, where)
	}
}

func (e *eachElem) problems() (out []eachProblem) {
	if e.s == nil {
		return nil
	}
	var ks []string
	for k := range e.loops {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	unknown := false
	skipped := map[*ssa.BasicBlock]bool{}
	for _, k := range ks {
		l := e.loops[k]
		switch init, ok := e.li.unit(l.phi); {
		case ok && init+l.off != 0:
			out = append(out, eachProblem{"counting", l.where, nil})
		case !ok:
			what := "unknown"
			if rec := e.li.m[l.phi]; rec != nil {
				for _, x := range rec.body {
					if x.op == "add" && len(x.sub) == 2 && unstale(x.sub[0]) == l.phi {
						if v, k := x.sub[1].intVal(); k && v > 1 {
							what = "counting"
						}
					}
				}
			}
			out = append(out, eachProblem{what, l.where, nil})
			if what == "unknown" {
				unknown = true
			}
		}
		b := e.blk[l.phi]
		if pth, bad := e.missed[b]; bad && !skipped[b] {
			skipped[b] = true
			out = append(out, eachProblem{"skipped", l.where, pth[:len(pth)-1]})
		}
	}
	s := e.s
	if len(e.loops) == 0 && len(e.fixed) > 0 {
		for i, st := range e.ends {
			ok := false
			for _, l := range e.fixed {
				for _, n := range e.lens(s, st, l.lsts) {
					ok = ok || s.entailsLe(st, n, s.tt.Int(l.off+1), 0)
				}
			}
			if !ok {
				return append(out, eachProblem{"all", e.ends2[i], st.path(12)})
			}
		}
	}
	if len(e.loops) == 0 || unknown {
		return
	}
	for i, st := range e.ends {
		ok, in := false, false
		for _, l := range e.loops {
			for _, n := range e.lens(s, st, l.lsts) {
				if s.entailsLe(st, n, s.tt.Int(0), 0) {
					ok = true
				}
				for k, ts := range st.L {
					if !strings.HasPrefix(k, "cnt ") || len(ts) == 0 || ts[0] != l.phi {
						continue
					}
					in = true
					ok = ok || s.entailsLe(st, n, s.add(ts[0], s.tt.Int(l.off)), 0)
				}
			}
		}
		if !ok && (in || st.F["must "+e.name] > 0) {
			out = append(out, eachProblem{"all", e.ends2[i], st.path(12)})
			break
		}
	}
	return
}
