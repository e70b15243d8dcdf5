package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is a call string.
type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
}

// Deferred is a pending deferred call.
type Deferred struct {
	instr ssa.CallInstruction
	fnT   *Term
	args  []*Term
}

const (
	frCall = iota
	frDefer
	frUnwind
)

// Frame is one activation.
type Frame struct {
	fn      *ssa.Function
	ctx     *Ctx
	env     map[ssa.Value]*Term
	closure *Term
	block   *ssa.BasicBlock
	idx     int
	defers  []*Deferred
	call    ssa.Value // bound in the caller on return
	callIn  ssa.Instruction
	kind    int

	unwinding  bool
	panicVal   *Term
	recovered  bool
	resumeTo   *Term   // outcome override for wrappers
	wrapResult []*Term // result to bind in the caller instead of the callee's
	wrapSet    bool
}

// State is one abstract state: a control location, finite facts, a symbolic store and numeric bounds.
type State struct {
	frames []*Frame
	heap   map[*Term]*Term
	facts  map[*Term]bool
	num    *DBM
	F      map[string]int     // rule automaton
	L      map[string][]*Term // rule data
	trace  *traceNode
	dead   bool
}

type traceNode struct {
	prev *traceNode
	pos  string
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{
		frames: make([]*Frame, len(st.frames)),
		heap:   make(map[*Term]*Term, len(st.heap)),
		facts:  make(map[*Term]bool, len(st.facts)),
		num:    st.num.clone(),
		F:      make(map[string]int, len(st.F)),
		L:      make(map[string][]*Term, len(st.L)),
		trace:  st.trace,
	}
	for i, f := range st.frames {
		c := *f
		c.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			c.env[k] = v
		}
		c.defers = append([]*Deferred(nil), f.defers...)
		n.frames[i] = &c
	}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.facts {
		n.facts[k] = v
	}
	for k, v := range st.F {
		n.F[k] = v
	}
	for k, v := range st.L {
		n.L[k] = append([]*Term(nil), v...)
	}
	return n
}

func (st *State) note(pos string) {
	if st.trace != nil && st.trace.pos == pos {
		return
	}
	st.trace = &traceNode{prev: st.trace, pos: pos}
}

func (st *State) path(max int) []string {
	var out []string
	for t := st.trace; t != nil && len(out) < max; t = t.prev {
		out = append(out, t.pos)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// AddL adds a term to a rule list once.
func (st *State) AddL(k string, t *Term) {
	for _, x := range st.L[k] {
		if x == t {
			return
		}
	}
	st.L[k] = append(st.L[k], t)
}

func (st *State) HasL(k string, t *Term) bool {
	for _, x := range st.L[k] {
		if x == t {
			return true
		}
	}
	return false
}

func (st *State) DelL(k string, t *Term) bool {
	for i, x := range st.L[k] {
		if x == t {
			st.L[k] = append(append([]*Term(nil), st.L[k][:i]...), st.L[k][i+1:]...)
			if len(st.L[k]) == 0 {
				delete(st.L, k)
			}
			return true
		}
	}
	return false
}

// rename replaces a term throughout the state.
func (s *Sim) rename(st *State, from, to *Term) {
	memo := map[*Term]*Term{}
	sub := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return s.tt.subst(t, from, to, memo)
	}
	for _, f := range st.frames {
		for k, v := range f.env {
			if v == from || v.hasLeaf(from) {
				f.env[k] = sub(v)
			}
		}
		f.closure = sub(f.closure)
		f.panicVal = sub(f.panicVal)
		for i, d := range f.defers {
			nd := *d
			nd.fnT = sub(d.fnT)
			nd.args = append([]*Term(nil), d.args...)
			for j := range nd.args {
				nd.args[j] = sub(nd.args[j])
			}
			f.defers[i] = &nd
		}
		for i, w := range f.wrapResult {
			f.wrapResult[i] = sub(w)
		}
	}
	nh := make(map[*Term]*Term, len(st.heap))
	for k, v := range st.heap {
		nh[sub(k)] = sub(v)
	}
	st.heap = nh
	nf := make(map[*Term]bool, len(st.facts))
	for k, v := range st.facts {
		nf[sub(k)] = v
	}
	st.facts = nf
	for k, l := range st.L {
		for i := range l {
			l[i] = sub(l[i])
		}
		// keep lists duplicate free
		seen := map[*Term]bool{}
		var o []*Term
		for _, t := range l {
			if !seen[t] {
				seen[t] = true
				o = append(o, t)
			}
		}
		st.L[k] = o
	}
	st.num.rename(s.tt, from, to)
}

// present reports whether the instance occurs in the state.
func (st *State) present(t *Term) bool {
	h := func(x *Term) bool { return x != nil && (x == t || x.hasLeaf(t)) }
	for _, f := range st.frames {
		for _, v := range f.env {
			if h(v) {
				return true
			}
		}
		if h(f.closure) || h(f.panicVal) {
			return true
		}
		for _, d := range f.defers {
			if h(d.fnT) {
				return true
			}
			for _, a := range d.args {
				if h(a) {
					return true
				}
			}
		}
	}
	for k, v := range st.heap {
		if h(k) || h(v) {
			return true
		}
	}
	for k := range st.facts {
		if h(k) {
			return true
		}
	}
	for _, l := range st.L {
		for _, x := range l {
			if h(x) {
				return true
			}
		}
	}
	for v := range st.num.vars {
		if h(v) {
			return true
		}
	}
	return false
}

// fresh makes t denote a new instance: an older one of the same name becomes stale.
func (s *Sim) fresh(st *State, t *Term) *Term {
	if st.present(t) {
		old := s.tt.mk("stale", "", t.typ, t)
		if st.present(old) {
			// several earlier instances share one name: forget what is known of it
			s.forget(st, old)
		}
		s.rename(st, t, old)
	}
	return t
}

// forget drops facts and bounds on a term.
func (s *Sim) forget(st *State, t *Term) {
	for k := range st.facts {
		if k.hasLeaf(t) {
			delete(st.facts, k)
		}
	}
	for v := range st.num.vars {
		if v.hasLeaf(t) {
			st.num.remove(v)
		}
	}
	for k := range st.heap {
		if k.hasLeaf(t) {
			delete(st.heap, k)
			if b := baseObj(k); !b.hasLeaf(t) {
				s.dropped(st, k)
			}
		}
	}
}

// gc drops facts, store entries and bounds about instances that are no longer reachable.
func (s *Sim) gc(st *State) {
	live := map[*Term]bool{}
	add := func(t *Term) {
		if t == nil {
			return
		}
		for _, l := range t.leaves {
			live[l] = true
		}
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			add(v)
		}
		add(f.closure)
		add(f.panicVal)
		for _, d := range f.defers {
			add(d.fnT)
			for _, a := range d.args {
				add(a)
			}
		}
		for _, w := range f.wrapResult {
			add(w)
		}
	}
	for _, l := range st.L {
		for _, t := range l {
			add(t)
		}
	}
	ok := func(t *Term) bool {
		for _, l := range t.leaves {
			if !live[l] && l.op != "param" && l.op != "free" {
				return false
			}
		}
		return true
	}
	done := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for k, v := range st.heap {
			if !done[k] && ok(k) {
				done[k] = true
				n := len(live)
				add(v)
				if len(live) != n {
					changed = true
				}
			}
		}
	}
	for k := range st.heap {
		if !done[k] && !ok(k) {
			delete(st.heap, k)
			if throughElem(k) && ok(baseObj(k)) {
				s.dropped(st, k)
			}
		}
	}
	for k := range st.facts {
		if !ok(k) {
			delete(st.facts, k)
		}
	}
	for v := range st.num.vars {
		if !ok(v) {
			st.num.remove(v)
		}
	}
}

func (s *Sim) keyOf(st *State) string {
	var sb strings.Builder
	for _, f := range st.frames {
		fmt.Fprintf(&sb, "F%d.%d.%d.%d", f.ctx.id, f.block.Index, f.idx, f.kind)
		if f.unwinding {
			sb.WriteString("U")
			if f.panicVal != nil {
				fmt.Fprintf(&sb, "%d", f.panicVal.id)
			}
			if f.recovered {
				sb.WriteString("R")
			}
		}
		if f.closure != nil {
			fmt.Fprintf(&sb, "c%d", f.closure.id)
		}
		var ks []string
		for v, t := range f.env {
			ks = append(ks, fmt.Sprintf("%s=%d", v.Name(), t.id))
		}
		sort.Strings(ks)
		sb.WriteString("{" + strings.Join(ks, " ") + "}")
		for _, d := range f.defers {
			fmt.Fprintf(&sb, "D%p", d.instr)
			for _, a := range d.args {
				fmt.Fprintf(&sb, ",%d", a.id)
			}
			if d.fnT != nil {
				fmt.Fprintf(&sb, ";%d", d.fnT.id)
			}
		}
	}
	sb.WriteString("\n")
	sb.WriteString(heapKey(st.heap))
	var fs []int
	for k, v := range st.facts {
		n := k.id * 2
		if v {
			n++
		}
		fs = append(fs, n)
	}
	sort.Ints(fs)
	fmt.Fprintf(&sb, "|%v|", fs)
	sb.WriteString(monKey(st))
	return sb.String()
}

func heapKey(h map[*Term]*Term) string {
	ks := make([]*Term, 0, len(h))
	for k := range h {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%d:%d ", k.id, h[k].id)
	}
	return sb.String()
}

func monKey(st *State) string {
	var ks []string
	for k, v := range st.F {
		if v != 0 {
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
	}
	for k, l := range st.L {
		var ids []int
		for _, t := range l {
			ids = append(ids, t.id)
		}
		if !strings.HasPrefix(k, "seq:") {
			sort.Ints(ids)
		}
		ks = append(ks, fmt.Sprintf("%s:%v", k, ids))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// liveness

type liveInfo struct {
	in  map[*ssa.BasicBlock]map[ssa.Value]bool
	out map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (s *Sim) liveness(fn *ssa.Function) *liveInfo {
	if l, ok := s.live[fn]; ok {
		return l
	}
	l := &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, out: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
		l.out[b] = map[ssa.Value]bool{}
	}
	interesting := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, *ssa.FreeVar:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := l.out[b]
			for _, sc := range b.Succs {
				pi := -1
				for k, p := range sc.Preds {
					if p == b {
						pi = k
					}
				}
				for v := range l.in[sc] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				for _, in := range sc.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, e := range ph.Edges {
						if sc.Preds[k] == b && interesting(e) && !out[e] {
							out[e] = true
							changed = true
						}
					}
				}
				_ = pi
			}
			cur := map[ssa.Value]bool{}
			for v := range out {
				cur[v] = true
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if o != nil && *o != nil && interesting(*o) {
						cur[*o] = true
					}
				}
			}
			// values used by the recover block stay live everywhere
			if fn.Recover != nil {
				for v := range l.in[fn.Recover] {
					cur[v] = true
				}
			}
			for v := range cur {
				if !l.in[b][v] {
					l.in[b][v] = true
					changed = true
				}
			}
		}
	}
	s.live[fn] = l
	return l
}

// prune keeps the values live before instruction idx of the frame's block.
func (s *Sim) prune(f *Frame) {
	l := s.liveness(f.fn)
	need := map[ssa.Value]bool{}
	for v := range l.out[f.block] {
		need[v] = true
	}
	if f.fn.Recover != nil {
		for v := range l.in[f.fn.Recover] {
			need[v] = true
		}
	}
	for k := len(f.block.Instrs) - 1; k >= f.idx; k-- {
		in := f.block.Instrs[k]
		if v, ok := in.(ssa.Value); ok {
			delete(need, v)
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		var ops []*ssa.Value
		for _, o := range in.Operands(ops) {
			if o != nil && *o != nil {
				need[*o] = true
			}
		}
	}
	for v := range f.env {
		if !need[v] {
			delete(f.env, v)
		}
	}
}

func isPointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Chan, *types.Map, *types.Slice:
		return true
	}
	return false
}
