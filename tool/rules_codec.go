package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "every index, slice, allocation, assertion, map write and panic reachable from a public decoder is safe for every input, recursion consumes input and every loop makes bounded progress (difference bounds over SSA, inductive contracts for the recursive functions)",
		func(p *Program, r *Report) { decoders(p, r, NewReport("C03"), nil) })
	register("C03", "at every success return of a public decoder the whole announced extent was consumed, containers ended with their terminator and are not nil, string contents have the announced length, no decoded element is dropped and no nested failure is swallowed",
		func(p *Program, r *Report) {
			x := NewReport("C02")
			decoders(p, x, r, nil)
			r.States, r.Funcs = x.States, x.Funcs
		})
	register("C04", "every encoder's success result has the shape that decoding expects for its kind, only supported kinds succeed, failures are propagated without output, nothing panics",
		func(p *Program, r *Report) { encoders(p, r, NewReport("C05")) })
	register("C05", "no encoder appends output while it iterates over a map", func(p *Program, r *Report) {
		x := NewReport("C04")
		encoders(p, x, r)
		r.States, r.Funcs = x.States, x.Funcs
	})
}

// candidate facts about a function of a recursive component
type cand struct {
	name string
	ok   func(s *Sim, st *State, args, res []*Term) bool
	set  func(s *Sim, st *State, args, res []*Term) bool
	cond func(s *Sim, st *State, res []*Term) *Term // the fact holds only then
	dead bool
}

type recContract struct {
	fn        *ssa.Function
	pre, post []*cand
	src, pos  int // parameter indices of the input and the position, or -1
}

func newContract(fn *ssa.Function) *recContract {
	c := &recContract{fn: fn, src: -1, pos: -1}
	sig := fn.Signature
	ei := errIndex(sig)
	for i, q := range fn.Params {
		if !isStringType(q.Type()) && !isBytesType(q.Type()) {
			continue
		}
		if c.src < 0 {
			c.src = i
		}
		for j, n := range fn.Params {
			if !isIntType(n.Type()) {
				continue
			}
			if c.pos < 0 {
				c.pos = j
			}
			i, j := i, j
			le := func(k int64) *cand {
				return &cand{name: fmt.Sprintf("pre %d<=len%d%+d", j, i, k),
					ok:  func(s *Sim, st *State, a, _ []*Term) bool { return s.entailsLe(st, a[j], s.lenTerm(st, a[i]), k) },
					set: func(s *Sim, st *State, a, _ []*Term) bool { return s.addLe(st, a[j], s.lenTerm(st, a[i]), k) }}
			}
			c.pre = append(c.pre, le(0), le(-1), &cand{name: fmt.Sprintf("pre 0<=%d", j),
				ok:  func(s *Sim, st *State, a, _ []*Term) bool { return s.entailsLe(st, s.tt.Int(0), a[j], 0) },
				set: func(s *Sim, st *State, a, _ []*Term) bool { return s.addLe(st, s.tt.Int(0), a[j], 0) }})
			for _, ch := range "lide" {
				ch := ch
				tag := func(s *Sim, st *State, a []*Term) *Term {
					return s.eqT(s.indexTerm(st, a[i], a[j], types.Typ[types.Uint8]), s.tt.Int(int64(ch)))
				}
				c.post = append(c.post, &cand{name: fmt.Sprintf("tag %c", ch),
					ok: func(s *Sim, st *State, a, _ []*Term) bool {
						v, k := s.truth(st, tag(s, st, a))
						return k && v
					},
					set: func(s *Sim, st *State, a, _ []*Term) bool { return s.assume(st, tag(s, st, a), true) }})
			}
			for k := 0; k < sig.Results().Len(); k++ {
				if !isIntType(sig.Results().At(k).Type()) {
					continue
				}
				k := k
				for _, d := range []int64{0, -1} {
					d := d
					c.post = append(c.post, &cand{name: fmt.Sprintf("advance %d", -d),
						ok:  func(s *Sim, st *State, a, r []*Term) bool { return s.entailsLe(st, a[j], r[k], d) },
						set: func(s *Sim, st *State, a, r []*Term) bool { return s.addLe(st, a[j], r[k], d) }})
				}
			}
		}
		for k := 0; k < sig.Results().Len(); k++ {
			if !isIntType(sig.Results().At(k).Type()) {
				continue
			}
			i, k := i, k
			c.post = append(c.post, &cand{name: "consumed within input",
				ok:  func(s *Sim, st *State, a, r []*Term) bool { return s.entailsLe(st, r[k], s.lenTerm(st, a[i]), 0) },
				set: func(s *Sim, st *State, a, r []*Term) bool { return s.addLe(st, r[k], s.lenTerm(st, a[i]), 0) }},
				&cand{name: "consumed not negative",
					ok:  func(s *Sim, st *State, a, r []*Term) bool { return s.entailsLe(st, s.tt.Int(0), r[k], 0) },
					set: func(s *Sim, st *State, a, r []*Term) bool { return s.addLe(st, s.tt.Int(0), r[k], 0) }})
			// a successful string leaves at least one byte, the terminator of its container
			for m := 0; m < sig.Results().Len(); m++ {
				m := m
				if m == ei {
					continue
				}
				cond := func(s *Sim, st *State, r []*Term) *Term { return s.isTypeT(r[m], types.Typ[types.String]) }
				if !types.IsInterface(sig.Results().At(m).Type()) {
					if !isStringType(sig.Results().At(m).Type()) {
						continue
					}
					cond = nil
				}
				c.post = append(c.post, &cand{name: "string ends before the input", cond: cond,
					ok: func(s *Sim, st *State, a, r []*Term) bool {
						if cond != nil {
							x := r[m]
							if x.op == "iface" {
								if x.sub[0].typ != nil && !isStringType(x.sub[0].typ) {
									return true
								}
							} else if v, k := s.truth(st, cond(s, st, r)); k && !v {
								return true
							}
						}
						return s.entailsLe(st, r[k], s.lenTerm(st, a[i]), -1)
					},
					set: func(s *Sim, st *State, a, r []*Term) bool { return s.addLe(st, r[k], s.lenTerm(st, a[i]), -1) }})
			}
			term := func(s *Sim, st *State, a, r []*Term) *Term {
				return s.eqT(s.indexTerm(st, a[i], s.sub(r[k], s.tt.Int(1)), types.Typ[types.Uint8]), s.tt.Int('e'))
			}
			c.post = append(c.post, &cand{name: "terminated",
				ok: func(s *Sim, st *State, a, r []*Term) bool {
					v, k := s.truth(st, term(s, st, a, r))
					return k && v
				},
				set: func(s *Sim, st *State, a, r []*Term) bool { return s.assume(st, term(s, st, a, r), true) }})
		}
	}
	for k := 0; k < sig.Results().Len(); k++ {
		if k == ei || !isPointerLike(sig.Results().At(k).Type()) {
			continue
		}
		k := k
		c.post = append(c.post, &cand{name: "not nil",
			ok: func(s *Sim, st *State, a, r []*Term) bool { return s.nonNil(st, r[k]) },
			set: func(s *Sim, st *State, a, r []*Term) bool {
				return s.assume(st, s.tt.mk("isnil", "", types.Typ[types.Bool], r[k]), false)
			}})
	}
	return c
}

func (c *recContract) has(name string) bool {
	for _, x := range c.post {
		if x.name == name && !x.dead {
			return true
		}
	}
	return false
}

// partOfCaller: an unexported function with a single call site is read as part of its caller.
func (p *Program) partOfCaller(fn *ssa.Function) bool {
	if p.isEntry(fn) {
		return false
	}
	n := 0
	for _, g := range p.directCallers(fn) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
					n++
					if g == fn {
						return false
					}
				}
			}
		}
	}
	return n == 1
}

// decoders decides C02 and C03 together.
func decoders(p *Program, r2, r3 *Report, alloc func(s *Sim, st *State, in ssa.Instruction, kind string, n *Term)) {
	roots := p.exported("misc", func(n string) bool { return strings.HasPrefix(n, "Decode") })
	comp, comps := p.recursive(roots...)
	contracts := map[*ssa.Function]*recContract{}
	for _, cs := range comps {
		for _, f := range cs {
			if f.Pkg == p.Pkg("misc") && errIndex(f.Signature) >= 0 && !p.partOfCaller(f) {
				contracts[f] = newContract(f)
			}
		}
	}
	var all []*ssa.Function
	all = append(all, roots...)
	isRoot := map[*ssa.Function]bool{}
	for _, f := range roots {
		isRoot[f] = true
	}
	for _, cs := range comps {
		for _, f := range cs {
			if contracts[f] != nil && !isRoot[f] {
				all = append(all, f)
			}
		}
	}
	type edge struct{ a, b *ssa.Function }
	nonstrict := map[edge]ssa.Instruction{}

	run := func(final bool) (changed bool) {
		nonstrict = map[edge]ssa.Instruction{}
		for _, root := range all {
			root := root
			con := contracts[root]
			consumed := map[*Term][]*Term{} // contract result -> input, position, consumed
			var h Hooks
			h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
				if final && r3.Prop == "C03" || final {
					switch c.Name {
					case "builtin:append":
						for _, v := range append([]*Term(nil), st.L["vals"]...) {
							if len(c.Args) > 1 && c.Args[1].has(v) {
								st.DelL("vals", v)
							}
						}
					}
				}
				k := contracts[c.Fn]
				if k == nil {
					return nil
				}
				for _, x := range k.pre {
					if !x.dead && !x.ok(s, st, c.Args, nil) {
						x.dead = true
						changed = true
					}
				}
				// recursion must consume
				if con != nil && comp[root] == comp[c.Fn] {
					if con.src >= 0 && k.src >= 0 {
						q, qq := s.Params[con.src], c.Args[k.src]
						less, le := false, false
						if q == qq && con.pos >= 0 && k.pos >= 0 {
							less = s.entailsLe(st, s.Params[con.pos], c.Args[k.pos], -1)
							le = s.entailsLe(st, s.Params[con.pos], c.Args[k.pos], 0)
						} else if q != qq {
							less = s.entailsLe(st, s.lenTerm(st, qq), s.lenTerm(st, q), -1)
							le = s.entailsLe(st, s.lenTerm(st, qq), s.lenTerm(st, q), 0)
						} else if con.pos < 0 {
							le = true
						}
						if final {
							r2.Ob("recursion consumes", p.FuncName(root)+" -> "+p.FuncName(c.Fn))
						}
						if !less {
							nonstrict[edge{root, c.Fn}] = c.Instr
							if !le && final {
								r2.Bad("recursion consumes", p.FuncName(root)+" -> "+p.FuncName(c.Fn), p.InstrPos(c.Instr), "the recursive call may be made at an earlier position of the input", st.path(8))
							}
						}
					} else if final {
						r2.Note("recursion of %s is not decided: no input parameter", p.FuncName(root))
					}
				}
				res := c.Fn.Signature.Results()
				n := res.Len()
				base := s.fresh(st, s.tt.mk("res", s.siteID(c.Frame, c.Instr, c.Name), nil, c.Args...))
				var good, bad []*Term
				for i := 0; i < n; i++ {
					x := s.tt.mk("ext", fmt.Sprint(i), res.At(i).Type(), base)
					if i == n-1 {
						good, bad = append(good, s.tt.Nil(nil)), append(bad, x)
					} else {
						good, bad = append(good, x), append(bad, x)
					}
				}
				inf := []*Term{nil, nil, nil}
				if k.src >= 0 {
					inf[0] = c.Args[k.src]
				}
				if k.pos >= 0 {
					inf[1] = c.Args[k.pos]
				}
				for i := 0; i < n; i++ {
					if isIntType(res.At(i).Type()) {
						inf[2] = good[i]
					}
				}
				consumed[base] = inf
				outs := []Outcome{
					{Res: bad, Apply: func(t *State) bool {
						t.facts[s.tt.mk("isnil", "", nil, bad[n-1])] = false
						t.F["failed"] = 1
						return true
					}}}
				conds := []bool{true}
				for _, x := range k.post {
					if !x.dead && x.cond != nil {
						conds = []bool{true, false}
					}
				}
				for _, cv := range conds {
					cv := cv
					outs = append(outs, Outcome{Res: good, Apply: func(t *State) bool {
						for _, x := range k.post {
							if x.dead {
								continue
							}
							if x.cond != nil {
								if !s.assume(t, x.cond(s, t, good), cv) {
									return false
								}
								if !cv {
									continue
								}
							}
							if !x.set(s, t, c.Args, good) {
								return false
							}
						}
						if final {
							t.AddL("vals", good[0])
						}
						return true
					}})
				}
				return &Verdict{Outcomes: outs}
			}
			h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
				if c.Fn == nil && strings.HasPrefix(c.Name, "strconv.") && len(res) == 2 && isErrorType(c.Instr.Common().Signature().Results().At(1).Type()) {
					st.AddL("errs", res[1])
				}
			}
			h.Leave = func(s *Sim, st *State, f *Frame, res []*Term) {
				if ei := errIndex(f.fn.Signature); ei >= 0 && res != nil && len(st.frames) > 1 {
					if s.nonNil(st, res[ei]) {
						st.F["failed"] = 1
					}
				}
				if !final || res == nil {
					return
				}
				checkString(p, r3, s, st, f, res)
			}
			h.MapUpdate = func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
				if final {
					r2.Ob("map write", p.site(in, "map write"))
					if m.isNil() {
						r2.Bad("map write", p.site(in, "map write"), p.InstrPos(in), "assignment to an entry of a nil map", st.path(8))
					}
					for _, x := range append([]*Term(nil), st.L["vals"]...) {
						if k.has(x) || v.has(x) {
							st.DelL("vals", x)
						}
					}
				}
			}
			h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
				for _, x := range append([]*Term(nil), st.L["vals"]...) {
					if val.has(x) && baseObj(addr).op == "obj" && !strings.Contains(baseObj(addr).aux, "varargs") {
						st.DelL("vals", x)
					}
				}
			}
			prove := func(rule string, s *Sim, st *State, in ssa.Instruction, what string, ok bool, ts ...*Term) {
				if !final {
					return
				}
				r2.Ob(rule, p.InstrPos(in)+" "+what)
				if ok {
					return
				}
				for _, t := range ts {
					if !understood(t) {
						r2.Note("%s at %s depends on memory the numeric domain does not track", rule, p.InstrPos(in))
						return
					}
				}
				r2.Bad(rule, p.site(in, what), p.InstrPos(in), "not proved for every input: "+what, st.path(10))
			}
			h.Index = func(s *Sim, st *State, in ssa.Instruction, b, i *Term, ok bool) {
				prove("index in bounds", s, st, in, fmt.Sprintf("%v[%v]", b, i), ok, b, i)
			}
			h.Slice = func(s *Sim, st *State, in ssa.Instruction, b, lo, hi, mx *Term, ok bool) {
				prove("slice in bounds", s, st, in, fmt.Sprintf("%v[%v:%v]", b, lo, hi), ok, b, lo, hi)
			}
			h.Make = func(s *Sim, st *State, in ssa.Instruction, kind string, n *Term) {
				if final && alloc != nil {
					alloc(s, st, in, kind, n)
				}
				ok := s.entailsLe(st, s.tt.Int(0), n, 0) && s.bound(st, n, s.tt.Int(0)) <= maxLen
				prove("allocation bounded", s, st, in, fmt.Sprintf("make of size %v", n), ok, n)
			}
			h.Assert = func(s *Sim, st *State, in *ssa.TypeAssert, x *Term, known bool) {
				if !in.CommaOk {
					prove("type assertion", s, st, in, fmt.Sprintf("%v.(%v)", x, in.AssertedType), known)
				}
			}
			h.PanicOut = func(s *Sim, st *State, v *Term) {
				if final {
					in := st.top().block.Instrs[0]
					r2.Bad("no panic", p.FuncName(root)+": panic", p.InstrPos(in), fmt.Sprintf("a panic (%v) leaves %s", v, p.FuncName(root)), st.path(10))
				}
			}
			h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) {
				if !final {
					return
				}
				if final {
					for _, v := range st.L["vals"] {
						r3.Bad("no element dropped", p.FuncName(to.Parent())+": loop", p.InstrPos(to.Instrs[0]), fmt.Sprintf("the decoded element %v is not part of the result", v), st.path(10))
					}
					st.L["vals"] = nil
					delete(st.L, "vals")
				}
				checkProgress(p, r2, s, st, from, to)
			}
			h.Return = func(s *Sim, st *State, res []*Term) {
				ei := errIndex(root.Signature)
				if ei < 0 {
					return
				}
				if s.nonNil(st, res[ei]) {
					return
				}
				if con != nil {
					for _, x := range con.post {
						if !x.dead && !x.ok(s, st, s.Params, res) {
							x.dead = true
							changed = true
						}
					}
				}
				if !final {
					return
				}
				name := p.FuncName(root)
				where := p.Pos(root.Pos())
				r3.Ob("failures propagate", name)
				bad := func(rule, msg string) {
					r3.Bad(rule, name, where, msg, st.path(12))
				}
				if st.F["failed"] != 0 {
					bad("failures propagate", "success is reported although a nested element failed to decode")
				}
				for _, e := range st.L["errs"] {
					if v, k := s.truth(st, s.tt.mk("isnil", "", types.Typ[types.Bool], e)); !k || !v {
						bad("failures propagate", "success is reported although a number conversion may have failed: "+e.String())
					}
				}
				for _, v := range st.L["vals"] {
					found := false
					for _, x := range res {
						if x.has(v) {
							found = true
						}
					}
					if !found {
						bad("no element dropped", fmt.Sprintf("the decoded element %v is not part of the result", v))
					}
				}
				checkResult(p, r3, s, st, root, con, contracts, consumed, res)
			}
			setup := func(s *Sim, st *State) {
				if con != nil {
					for _, x := range con.pre {
						if !x.dead {
							x.set(s, st, s.Params, nil)
						}
					}
				}
			}
			rep := r2
			if !final {
				rep = NewReport("")
			}
			rep.explore(p, root, h, Opts{Numeric: true, InlineCodec: true}, setup)
			if !final {
				r2.States += rep.States
			}
		}
		return changed
	}
	for i := 0; i < 12; i++ {
		if !run(false) {
			break
		}
	}
	run(true)
	// non-consuming call edges must not form a cycle
	for e0, in := range nonstrict {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			if f == e0.a {
				return true
			}
			if seen[f] {
				return false
			}
			seen[f] = true
			for e := range nonstrict {
				if e.a == f && walk(e.b) {
					return true
				}
			}
			return false
		}
		if walk(e0.b) {
			r2.Bad("recursion consumes", "cycle through "+p.FuncName(e0.a), p.InstrPos(in), "recursion may return to the same function without consuming input", nil)
		}
	}
	for _, k := range contracts {
		var ps []string
		for _, x := range append(append([]*cand(nil), k.pre...), k.post...) {
			if !x.dead {
				ps = append(ps, x.name)
			}
		}
		r2.Note("inductive contract of %s: %s", p.FuncName(k.fn), strings.Join(ps, ", "))
	}
	r2.Need("index in bounds", 3)
	r3.Need("failures propagate", 4)
}

// checkProgress: an integer of the loop moves towards a bound, or the remaining input shrinks.
func checkProgress(p *Program, r *Report, s *Sim, st *State, from, to *ssa.BasicBlock) {
	f := st.top()
	name := p.FuncName(to.Parent()) + ": loop"
	r.Ob("loop makes progress", p.InstrPos(to.Instrs[0])+" "+name)
	ei := -1
	for i, q := range to.Preds {
		if q == from {
			ei = i
		}
	}
	seen := false
	for _, in := range to.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return
		}
		ph, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		t := s.tt.mk("phi", s.siteID(f, ph, phiName(ph)), ph.Type())
		v := s.eval(st, f, ph.Edges[ei])
		if isIntType(ph.Type()) {
			seen = true
			if s.entailsLe(st, t, v, -1) && s.bound(st, v, s.tt.Int(0)) <= maxLen+1 {
				return
			}
			if s.entailsLe(st, v, t, -1) && s.bound(st, s.tt.Int(0), v) <= maxLen+1 {
				return
			}
		} else if hasLen(ph.Type()) {
			seen = true
			if s.entailsLe(st, s.lenTerm(st, v), s.lenTerm(st, t), -1) {
				return
			}
		}
	}
	// a range over a map or string
	for _, b := range to.Parent().Blocks {
		if !to.Dominates(b) {
			continue
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Next); ok && b == to {
				return
			}
		}
	}
	if !seen {
		r.Note("progress of %s is not decided: no loop value", name)
		return
	}
	r.Bad("loop makes progress", name, p.InstrPos(to.Instrs[0]), "one iteration may neither consume input nor come closer to a bound", st.path(10))
}

// checkString: a function that returns a substring with the consumed length returns exactly the announced content.
func checkString(p *Program, r *Report, s *Sim, st *State, f *Frame, res []*Term) {
	sig := f.fn.Signature
	ei := errIndex(sig)
	if ei < 1 || !res[ei].isNil() || !isStringType(sig.Results().At(0).Type()) {
		return
	}
	// result 0 is content; find the position result, if any
	v := res[0]
	name := p.FuncName(f.fn)
	if len(f.fn.Params) == 0 {
		return
	}
	hasStr := false
	for _, q := range f.fn.Params {
		if isStringType(q.Type()) {
			hasStr = true
		}
	}
	if !hasStr || v.op == "const" {
		return
	}
	base, lo, hi := v, s.tt.Int(0), s.lenTerm(st, v)
	if v.op == "slice" {
		base, lo, hi = v.sub[0], v.sub[1], v.sub[2]
		if hi.op == "none" {
			hi = s.lenTerm(st, base)
		}
	}
	r.Ob("string content has the announced length", name)
	atois := map[*Term]bool{}
	collect := func(t *Term) {
		t.any(func(x *Term) bool {
			if x.op == "ext" && x.sub[0].op == "app" && (x.sub[0].aux == "strconv.Atoi" || x.sub[0].aux == "strconv.ParseInt" || x.sub[0].aux == "strconv.ParseUint") && x.aux == "0" {
				atois[x] = true
			}
			return false
		})
	}
	for x := range st.num.vars {
		collect(x)
	}
	for x := range st.facts {
		collect(x)
	}
	for _, e := range st.L["errs"] {
		if e.op == "ext" {
			collect(s.tt.mk("ext", "0", types.Typ[types.Int], e.sub[0]))
		}
	}
	if len(atois) == 0 {
		if v.op == "ext" || v.op == "res" {
			return
		}
		r.Note("%s: no announced length is converted on this path", name)
		return
	}
	ok := false
	for a := range atois {
		n := s.lenTerm(st, v)
		if s.entailsLe(st, n, a, 0) && s.entailsLe(st, a, n, 0) {
			ok = true
		}
	}
	if !ok {
		r.Bad("string content has the announced length", name, p.Pos(f.fn.Pos()), fmt.Sprintf("the returned string %v need not have the announced length", v), st.path(10))
	}
	// where the content ends
	for k := 0; k < ei; k++ {
		if isIntType(sig.Results().At(k).Type()) {
			r.Ob("string consumed exactly", name)
			if v.op == "slice" && !(s.entailsLe(st, hi, res[k], 0) && s.entailsLe(st, res[k], hi, 0)) {
				r.Bad("string consumed exactly", name, p.Pos(f.fn.Pos()), fmt.Sprintf("the consumed position %v is not the end %v of the content", res[k], hi), st.path(10))
			}
		}
	}
	_ = lo
}

// checkResult: whole-input forms consumed everything, containers are complete.
func checkResult(p *Program, r *Report, s *Sim, st *State, root *ssa.Function, con *recContract, contracts map[*ssa.Function]*recContract, consumed map[*Term][]*Term, res []*Term) {
	name := p.FuncName(root)
	where := p.Pos(root.Pos())
	sig := root.Signature
	ei := errIndex(sig)
	if con != nil && root.Object() != nil && !root.Object().Exported() {
		// functions that build a container
		switch sig.Results().At(0).Type().Underlying().(type) {
		case *types.Map, *types.Slice:
		default:
			return
		}
		if con.src < 0 || con.pos < 0 {
			r.Note("%s: no position parameter, container completeness not decided here", name)
			return
		}
		for _, need := range []string{"terminated", "consumed within input", "not nil", "advance 1"} {
			r.Ob("container complete: "+need, name)
			if !con.has(need) {
				r.Bad("container complete: "+need, name, where, "a container result is returned without: "+need, st.path(10))
			}
		}
		r.Ob("container tag", name)
		if !con.has("tag l") && !con.has("tag d") {
			r.Bad("container tag", name, where, "a container is decoded without its tag", st.path(10))
		}
		return
	}
	if con != nil {
		return
	}
	src := s.Params[0]
	v := res[0]
	whole := ei == 1
	fact := func(i *Term, ch byte) bool {
		c := s.eqT(s.indexTerm(st, src, i, types.Typ[types.Uint8]), s.tt.Int(int64(ch)))
		if x, k := s.truth(st, c); k && x {
			return true
		}
		for f, val := range st.facts {
			if val && f.op == "eq" {
				for j := 0; j < 2; j++ {
					a, b := f.sub[j], f.sub[1-j]
					if n, ok := b.intVal(); ok && n == int64(ch) && a.op == "index" && a.sub[0] == src && s.entailsLe(st, a.sub[1], i, 0) && s.entailsLe(st, i, a.sub[1], 0) {
						return true
					}
				}
			}
		}
		return false
	}
	bad := func(rule, msg string) { r.Bad(rule, name, where, msg, st.path(12)) }
	n := s.lenTerm(st, src)
	switch {
	case v.op == "ext" && consumed[v.sub[0]] != nil:
		inf := consumed[v.sub[0]]
		r.Ob("result not nil", name)
		if isPointerLike(sig.Results().At(0).Type()) && !s.nonNil(st, v) {
			bad("result not nil", "success may be reported with a nil result")
		}
		if inf[0] != src || inf[2] == nil {
			r.Note("%s: decodes %v, consumption not decided", name, inf[0])
			return
		}
		r.Ob("starts at the beginning", name)
		if inf[1] != nil {
			if z, ok := inf[1].intVal(); !ok || z != 0 {
				bad("starts at the beginning", fmt.Sprintf("decoding starts at %v", inf[1]))
			}
		}
		if whole {
			r.Ob("whole input consumed", name)
			if !(s.entailsLe(st, inf[2], n, 0) && s.entailsLe(st, n, inf[2], 0)) {
				bad("whole input consumed", "success may be reported although input is left over or missing")
			}
		} else {
			r.Ob("consumed length within input", name)
			k := res[1]
			if !(s.entailsLe(st, k, inf[2], 0) && s.entailsLe(st, inf[2], k, 0)) {
				bad("consumed length within input", "the reported length is not what was consumed")
			}
			if !s.entailsLe(st, k, n, 0) || !s.entailsLe(st, s.tt.Int(1), k, 0) {
				bad("consumed length within input", "the reported length may lie outside the input")
			}
		}
	case isIntType(sig.Results().At(0).Type()) && v.op == "ext" && v.sub[0].op == "app" && strings.HasPrefix(v.sub[0].aux, "strconv."):
		a := v.sub[0].sub[0]
		if a.op != "slice" || a.sub[0] != src {
			r.Note("%s: converts %v, extent not decided", name, a)
			return
		}
		r.Ob("whole input consumed", name)
		hi := a.sub[2]
		if hi.op == "none" {
			hi = n
		}
		if z, ok := a.sub[1].intVal(); !ok || z != 1 || !(s.entailsLe(st, hi, n, -1) && s.entailsLe(st, n, hi, 1)) {
			bad("whole input consumed", fmt.Sprintf("the converted digits %v are not everything between tag and terminator", a))
		}
		r.Ob("tag and terminator", name)
		if !fact(s.tt.Int(0), 'i') || !fact(hi, 'e') {
			bad("tag and terminator", "an integer may be accepted without its tag or terminator")
		}
	case isStringType(sig.Results().At(0).Type()):
		r.Ob("whole input consumed", name)
		switch {
		case v.op == "index" && v.sub[0].op == "app" && v.sub[0].aux == "strings.SplitN" && v.sub[0].sub[0] == src:
			if k, ok := v.sub[1].intVal(); ok {
				if c, ok := v.sub[0].sub[2].intVal(); !ok || k != c-1 || k != 1 {
					bad("whole input consumed", "the content is not everything behind the first separator")
				}
			}
		case v.op == "slice":
			b, hi := v.sub[0], v.sub[2]
			if b == src {
				if hi.op != "none" && !(s.entailsLe(st, hi, n, 0) && s.entailsLe(st, n, hi, 0)) {
					bad("whole input consumed", "input behind the content is accepted")
				}
			} else if b.op == "index" && hi.op != "none" {
				m := s.lenTerm(st, b)
				if !(s.entailsLe(st, hi, m, 0) && s.entailsLe(st, m, hi, 0)) {
					bad("whole input consumed", "input behind the content is accepted")
				}
			} else {
				r.Note("%s: extent of %v not decided", name, v)
			}
		default:
			r.Note("%s: extent of %v not decided", name, v)
		}
	default:
		r.Note("%s: result %v not decided", name, v)
	}
}

// encoders decides C04 and C05 together.
func encoders(p *Program, r4, r5 *Report) {
	roots := p.exported("misc", func(n string) bool { return strings.HasPrefix(n, "Encode") })
	reach := p.Reachable(roots...)
	// C05: output appended while a map is iterated
	for _, f := range p.Funcs {
		if !reach[f] || f.Pkg == nil || f.Pkg != p.Pkg("misc") {
			continue
		}
		r5.Ob("encoder function", p.FuncName(f))
	}
	kinds := map[string]bool{}
	supported := []string{"int", "string", "misc.List", "misc.Dict"}
	tname := func(aux string) string { return strings.ReplaceAll(aux, p.Module+"/", "") }
	encName := func(t *Term) bool { // result of an encoder call
		return t.op == "ext" && t.aux == "0" && t.sub[0].op == "res" && strings.HasPrefix(shortAux(t.sub[0].aux), "misc.Encode") ||
			t.op == "app" && t.aux == "enc"
	}
	for _, root := range roots {
		root := root
		name := p.FuncName(root)
		where := p.Pos(root.Pos())
		li := newLoopInfo()
		var h Hooks
		li.hooks(&h)
		rangeBody := func(t, in *Term, back bool, s *Sim) {
			if !back {
				return
			}
			var src *Term
			in.any(func(x *Term) bool {
				if x.op == "ext" && x.sub[0].op == "range" {
					src = x.sub[0].sub[0].sub[0]
				}
				return false
			})
			if src == nil || src.typ == nil {
				return
			}
			if _, ok := src.typ.Underlying().(*types.Map); !ok {
				return
			}
			key := "map entries in " + name
			if p.isNamed(src.typ, "misc", "Dict") {
				key = "dictionary entries"
			}
			r5.Bad("map order reaches output", key, where, "output is appended in map iteration order", nil)
		}
		lp := h.LoopPhi
		h.LoopPhi = func(s *Sim, st *State, ph *ssa.Phi, t, in *Term, back bool) {
			lp(s, st, ph, t, in, back)
			if isStringType(ph.Type()) || isBytesType(ph.Type()) {
				rangeBody(t, in, back, s)
			}
		}
		lb := h.LoopBuf
		h.LoopBuf = func(s *Sim, st *State, hdr *ssa.BasicBlock, key, t, in *Term, back bool) {
			lb(s, st, hdr, key, t, in, back)
			rangeBody(t, in, back, s)
		}
		h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
			if c.Fn != nil && len(res) > 0 {
				if ei := errIndex(c.Fn.Signature); ei >= 0 && ei < len(res) && s.nonNil(st, res[ei]) {
					st.F["failed"] = 1
				}
			}
		}
		h.Assert = func(s *Sim, st *State, in *ssa.TypeAssert, x *Term, known bool) {
			r4.Ob("type assertion", p.site(in, in.AssertedType.String()))
			if !in.CommaOk && !known {
				r4.Bad("no panic", p.site(in, "assertion to "+in.AssertedType.String()), p.InstrPos(in), "an assertion may panic for some value", st.path(8))
			}
		}
		h.PanicOut = func(s *Sim, st *State, v *Term) {
			r4.Bad("no panic", name, where, fmt.Sprintf("a panic (%v) leaves the encoder", v), st.path(10))
		}
		h.Leave = func(s *Sim, st *State, f *Frame, res []*Term) {
			ei := errIndex(f.fn.Signature)
			if res == nil || ei < 0 {
				return
			}
			if s.nonNil(st, res[ei]) {
				st.F["failed"] = 1
			}
			// dynamic dispatch: only supported kinds may succeed
			for i, q := range f.fn.Params {
				if _, ok := q.Type().Underlying().(*types.Interface); !ok || isErrorType(q.Type()) || !res[ei].isNil() {
					continue
				}
				arg := f.env[q]
				if arg == nil {
					arg = leaveArg(s, st, f, i)
				}
				if arg == nil {
					continue
				}
				r4.Ob("only supported kinds succeed", p.FuncName(f.fn))
				kind := ""
				for k, v := range st.facts {
					if v && k.op == "istype" && k.sub[0] == arg {
						kind = tname(k.aux)
					}
				}
				ok := false
				for _, k := range supported {
					if k == kind {
						ok = true
						kinds[k] = true
					}
				}
				if !ok {
					r4.Bad("only supported kinds succeed", p.FuncName(f.fn)+": "+kind, p.Pos(f.fn.Pos()), fmt.Sprintf("a value of unsupported kind %q is encoded without an error", kind), st.path(10))
				}
			}
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			ei := errIndex(root.Signature)
			if ei != 1 {
				return
			}
			r4.Ob("encoder result", name)
			bad := func(rule, msg string) { r4.Bad(rule, name, where, msg, st.path(12)) }
			if s.nonNil(st, res[1]) {
				if v, ok := res[0].strVal(); !ok || v != "" {
					bad("no partial output", fmt.Sprintf("an error is returned together with output %v", res[0]))
				}
				return
			}
			if st.F["failed"] != 0 {
				bad("failures propagate", "success is reported although an element could not be encoded")
			}
			x := s.Params[0]
			out := s.content(st, res[0])
			switch {
			case isIntType(x.typ):
				want := s.concat(s.tt.Str("i"), s.tt.mk("app", "strconv.Itoa", types.Typ[types.String], x), s.tt.Str("e"))
				if !sameOut(s, st, out, want) {
					bad("integer form", fmt.Sprintf("an integer is written as %v", out))
				}
			case isStringType(x.typ):
				want := s.concat(s.tt.mk("app", "strconv.Itoa", types.Typ[types.String], s.lenTerm(st, x)), s.tt.Str(":"), x)
				if !sameOut(s, st, out, want) {
					bad("string form", fmt.Sprintf("a string is written as %v", out))
				}
			default:
				_, isMap := x.typ.Underlying().(*types.Map)
				if v, k := s.truth(st, s.tt.mk("isnil", "", types.Typ[types.Bool], x)); !k || v {
					bad("nil container rejected", "a nil container is encoded without an error")
				}
				r4.Ob("container form", name)
				checkContainer(p, r4, s, st, li, encName, name, where, x, out, isMap)
			}
		}
		o := Opts{}
		o.OnRecursion = func(s *Sim, st *State, c *CallEv) *Verdict {
			sig := c.Fn.Signature
			n := sig.Results().Len()
			ei := errIndex(sig)
			base := s.fresh(st, s.tt.mk("res", s.siteID(c.Frame, c.Instr, "misc.Encode"), nil, c.Args...))
			enc := s.tt.mk("ext", "0", types.Typ[types.String], base)
			mk := func(good bool) Outcome {
				var res []*Term
				for i := 0; i < n; i++ {
					switch {
					case i == ei && good:
						res = append(res, s.tt.Nil(nil))
					case i == ei:
						res = append(res, s.tt.mk("ext", "err", nil, base))
					case isStringType(sig.Results().At(i).Type()) && good:
						res = append(res, enc)
					case isBytesType(sig.Results().At(i).Type()) && good:
						var buf *Term
						for _, a := range c.Args {
							if isBytesType(a.typ) {
								buf = a
							}
						}
						e := s.tt.mk("copy", "bytes", sig.Results().At(i).Type(), enc)
						if buf != nil {
							e = s.tt.mk("append", "", sig.Results().At(i).Type(), buf, e)
						}
						res = append(res, e)
					default:
						res = append(res, s.zero(sig.Results().At(i).Type()))
					}
				}
				return Outcome{Res: res, Apply: func(t *State) bool {
					if !good {
						t.facts[s.tt.mk("isnil", "", nil, res[ei])] = false
						t.F["failed"] = 1
						return true
					}
					for _, a := range c.Args {
						k := s.tt.mk("attr:buf", "", nil, a)
						if v, ok := t.heap[k]; ok {
							t.heap[k] = s.concat(v, enc)
						}
					}
					return true
				}}
			}
			if ei < 0 {
				return &Verdict{Outcomes: []Outcome{mk(true)}}
			}
			return &Verdict{Outcomes: []Outcome{mk(false), mk(true)}}
		}
		r4.explore(p, root, h, o, nil)
	}
	for _, k := range supported {
		if len(kinds) > 0 && !kinds[k] {
			r4.Bad("every supported kind is encoded", k, "misc", "no value of kind "+k+" is encoded successfully inside a container", nil)
		}
	}
	r4.Need("encoder result", 4)
}

// leaveArg finds a parameter's value when liveness dropped it.
func leaveArg(s *Sim, st *State, f *Frame, i int) *Term {
	if f.callIn == nil {
		if i < len(s.Params) {
			return s.Params[i]
		}
		return nil
	}
	if len(st.frames) < 2 {
		return nil
	}
	p := st.frames[len(st.frames)-2]
	ci, ok := f.callIn.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	cc := ci.Common()
	args := cc.Args
	if i < len(args) {
		t := s.eval(st, p, args[i])
		if t.op != "top" {
			return t
		}
	}
	return nil
}

func sameOut(s *Sim, st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != "concat" || b.op != "concat" || len(a.sub) != len(b.sub) {
		return false
	}
	for i := range a.sub {
		x, y := a.sub[i], b.sub[i]
		if x == y {
			continue
		}
		if x.op == "app" && y.op == "app" && x.aux == y.aux && len(x.sub) == 1 && s.entailsLe(st, x.sub[0], y.sub[0], 0) && s.entailsLe(st, y.sub[0], x.sub[0], 0) {
			continue
		}
		return false
	}
	return true
}

func parts(t *Term) []*Term {
	if t.op == "concat" {
		return t.sub
	}
	return []*Term{t}
}

// checkContainer: tag, elements in loop order, terminator.
func checkContainer(p *Program, r *Report, s *Sim, st *State, li *loopInfo, isEnc func(*Term) bool, name, where string, x, out *Term, isMap bool) {
	tag := "l"
	if isMap {
		tag = "d"
	}
	bad := func(rule, msg string) { r.Bad(rule, name, where, msg, st.path(12)) }
	note := func(msg string) { r.Note("%s: %s", name, msg) }
	// split into prefix, loop symbol, suffix
	ps := parts(out)
	var pre, suf []*Term
	var loop *Term
	for _, q := range ps {
		u := unstale(q)
		if u.op == "phi" && li.m[u] != nil {
			if loop != nil {
				note("more than one loop contributes to the output")
				return
			}
			loop = u
			continue
		}
		if loop == nil {
			pre = append(pre, q)
		} else {
			suf = append(suf, q)
		}
	}
	if loop == nil {
		// an empty container
		if v, ok := out.strVal(); ok {
			if v != tag+"e" {
				bad("container form", fmt.Sprintf("an empty container is written as %q", v))
			}
			return
		}
		note(fmt.Sprintf("shape of %v not understood", out))
		return
	}
	rec := li.m[loop]
	for _, in := range rec.init {
		head := s.concat(append(append([]*Term(nil), pre...), in)...)
		tail := s.concat(suf...)
		hv, ok1 := head.strVal()
		tv, ok2 := tail.strVal()
		if !ok1 || !ok2 {
			note(fmt.Sprintf("shape %v ... %v not understood", head, tail))
			return
		}
		if hv != tag || tv != "e" {
			bad("container form", fmt.Sprintf("a container is written as %q elements %q", hv, tv))
		}
	}
	for _, b := range rec.body {
		bp := parts(b)
		if len(bp) == 0 || unstale(bp[0]) != loop {
			if unstale(b) == loop {
				bad("container form", "an element is left out of the output")
				continue
			}
			if b.any(func(y *Term) bool { return unstale(y) == loop }) {
				bad("container form", fmt.Sprintf("elements are not written in order: %v", b))
			} else {
				bad("container form", fmt.Sprintf("earlier elements are lost: %v", b))
			}
			continue
		}
		for _, q := range bp[1:] {
			if u := unstale(q); u.op == "phi" && u != loop && li.m[u] != nil && isStringType(orType(u.typ)) {
				bad("element form", fmt.Sprintf("text of an earlier element (%v) is written in place of this one's", u))
			}
		}
		checkElems(p, r, s, st, isEnc, name, where, x, bp[1:], isMap)
	}
}

// element of an encoder result: the value it encodes and the kind of encoding.
func checkElems(p *Program, r *Report, s *Sim, st *State, isEnc func(*Term) bool, name, where string, x *Term, ps []*Term, isMap bool) {
	bad := func(rule, msg string) { r.Bad(rule, name, where, msg, st.path(12)) }
	type el struct {
		v    *Term
		kind string
	}
	var els []el
	strip := func(t *Term) *Term {
		for t.op == "assert" {
			t = t.sub[0]
		}
		return t
	}
	isItoa := func(t *Term) bool { return t.op == "app" && t.aux == "strconv.Itoa" }
	for i := 0; i < len(ps); {
		q := ps[i]
		switch {
		case isEnc(q):
			arg := q.sub[0]
			k := ""
			if arg.op == "res" {
				n := shortAux(arg.aux)
				k = strings.TrimPrefix(n, "misc.Encode")
				if len(arg.sub) == 0 {
					r.Note("%s: element %v not understood", name, q)
					return
				}
				v := arg.sub[len(arg.sub)-1]
				for _, c := range arg.sub {
					if c.any(func(y *Term) bool { return y.op == "range" || y.op == "index" || y.op == "load" || y.op == "lookup" }) {
						v = c
					}
				}
				els = append(els, el{strip(v), k})
			}
			i++
		case isItoa(q) && i+2 < len(ps):
			c, ok := ps[i+1].strVal()
			if !ok || c != ":" {
				r.Note("%s: element at %v not understood", name, q)
				return
			}
			v := ps[i+2]
			l := q.sub[0]
			want := s.lenTerm(st, v)
			if l != want {
				bad("string form", fmt.Sprintf("a string is written with length prefix %v", l))
			}
			els = append(els, el{strip(v), "String"})
			i += 3
		default:
			if c, ok := q.strVal(); ok && c == "i" && i+2 < len(ps) && isItoa(ps[i+1]) {
				if e, ok := ps[i+2].strVal(); ok && strings.HasPrefix(e, "e") {
					els = append(els, el{strip(ps[i+1].sub[0]), "Integer"})
					if e != "e" {
						r.Note("%s: element at %v not understood", name, q)
						return
					}
					i += 3
					continue
				}
			}
			r.Note("%s: element %v not understood", name, q)
			return
		}
	}
	r.Ob("element form", name)
	rangeOf := func(t *Term) (*Term, string) {
		if t.op == "ext" && t.sub[0].op == "range" {
			return t.sub[0], t.aux
		}
		return nil, ""
	}
	if !isMap {
		if len(els) != 1 {
			bad("element form", fmt.Sprintf("one list element is written as %d items", len(els)))
			return
		}
		v := els[0].v
		if !v.any(func(y *Term) bool { return y == x }) {
			bad("element form", fmt.Sprintf("what is written (%v) is not an element of the list", v))
		}
		return
	}
	if len(els) != 2 {
		bad("element form", fmt.Sprintf("one dictionary entry is written as %d items", len(els)))
		return
	}
	if els[0].kind != "String" {
		bad("element form", "a key is not written as a string")
	}
	k, v := els[0].v, els[1].v
	kr, ka := rangeOf(k)
	vr, va := rangeOf(v)
	switch {
	case kr != nil && vr != nil:
		if kr != vr || ka != "key" || va != "val" {
			bad("element form", fmt.Sprintf("key %v and value %v are not of the same entry", k, v))
		}
	case v.op == "lookup" && v.sub[0] == x:
		if v.sub[1] != k {
			bad("element form", fmt.Sprintf("key %v is followed by the value of key %v", k, v.sub[1]))
		}
	default:
		r.Note("%s: entry %v, %v not understood", name, k, v)
	}
}
