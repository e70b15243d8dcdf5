package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: transaction ids. The generator advances its counter by one and takes its value in one critical
// section, the text made of the value is injective on 16 bits and of fixed width, and every query takes
// an id no other query took.

func init() {
	register("C28", "one critical section per id that advances the shared counter by one and takes its value; the rendering keeps 16 bits at fixed width; every query carries an id of its own from the one generator", ruleTxId)
}

const (
	c28Adv    = "the counter advances by one and gives its value in one critical section"
	c28Render = "the id is a fixed-width text that keeps 16 bits"
	c28Only   = "nothing else moves the counter"
	c28Fresh  = "every query takes a fresh id"
	c28One    = "all ids come from one generator"
)

const genType = "TxIdGenerator"

// rendering follows a text back to the number it shows.
type rendering struct {
	leaf  *Term
	bits  int
	fixed bool
	bad   string
}

func intBits(t types.Type) int {
	if t == nil {
		return 64
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8, types.Int8:
			return 8
		case types.Uint16, types.Int16:
			return 16
		case types.Uint32, types.Int32:
			return 32
		}
	}
	return 64
}

func (s *Sim) rendering(st *State, t *Term) rendering {
	r := rendering{bits: 64, fixed: true}
	for i := 0; i < 30; i++ {
		if t.typ != nil && isIntType(t.typ) && t.op != "const" {
			if b := intBits(t.typ); b < r.bits {
				r.bits = b
			}
		}
		switch {
		case t.op == "copy" || t.op == "alias" || t.op == "iface" || t.op == "byte":
			if t.op == "byte" {
				r.bits = min(r.bits, 8)
			}
			t = t.sub[0]
		case t.op == "conv":
			if isStringType(t.typ) && t.sub[0].typ != nil && isIntType(t.sub[0].typ) {
				r.bad = "the id is the character of a number: surrogates and large values all become U+FFFD"
				return r
			}
			t = t.sub[0]
		case t.op == "be" || t.op == "le":
			r.bits = min(r.bits, 8*atoi(t.aux))
			t = t.sub[0]
		case t.op == "app" && (strings.HasSuffix(shortAux(t.aux), ".EncodeToString")):
			t = t.sub[len(t.sub)-1]
			if c := s.content(st, t); c != t {
				t = c
			}
		case t.op == "app" && strings.HasPrefix(t.aux, "fmt:"):
			f, _, _ := strings.Cut(strings.TrimPrefix(shortAux(t.aux), "fmt:"), ":")
			if f == "" {
				r.leaf = t
				return r
			}
			need := map[byte]int{'x': 4, 'X': 4, 'd': 5, 'o': 6, 'b': 16}[f[len(f)-1]]
			if need == 0 {
				r.leaf = t
				return r
			}
			w := atoi(strings.TrimLeft(f[:len(f)-1], "0"))
			if w < need {
				r.fixed = false
			}
			t = t.sub[0]
		case (t.op == "app" || t.op == "res") && hasPrefixAny(shortAux(t.aux), "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint"):
			r.fixed = false
			t = t.sub[0]
		case t.op == "concat":
			var x *Term
			for _, y := range t.sub {
				if !y.isConst() {
					if x != nil {
						r.leaf = t
						return r
					}
					x = y
				}
			}
			if x == nil {
				r.leaf = t
				return r
			}
			t = x
		case t.op == "rem" && len(t.sub) == 2:
			if v, ok := t.sub[1].intVal(); ok && v < 65536 {
				r.bad = fmt.Sprintf("the id shows the counter modulo %d", v)
				return r
			}
			t = t.sub[0]
		case t.op == "quo" && len(t.sub) == 2:
			r.bad = "the id shows a quotient of the counter"
			return r
		case t.op == "bin" && len(t.sub) == 2 && (t.aux == "&" || t.aux == ">>" || t.aux == "|"):
			v, ok := t.sub[1].intVal()
			x := t.sub[0]
			if !ok {
				v, ok = x.intVal()
				x = t.sub[1]
			}
			if !ok {
				r.leaf = t
				return r
			}
			if t.aux == "&" && v&0xffff == 0xffff {
				t = x
				continue
			}
			r.bad = fmt.Sprintf("the id shows the counter %s %#x, which leaves out bits of it", t.aux, v)
			return r
		case t.op == "slice" && (t.sub[0].op == "app" || t.sub[0].op == "concat" || t.sub[0].op == "res"):
			full := t.sub[2].op == "none" || t.sub[2] == s.lenTerm(st, t.sub[0])
			if v, ok := t.sub[1].intVal(); ok && v == 0 && full {
				t = t.sub[0]
				continue
			}
			r.bad = "the id is only a part of the text of the counter"
			return r
		case t.op == "slice":
			// a part of the bytes a number was put into
			lo, hi, x := int64(0), int64(-1), t
			for x.op == "slice" {
				a, ok := x.sub[1].intVal()
				if !ok && x.sub[1].op != "none" {
					break
				}
				if b, ok := x.sub[2].intVal(); ok {
					if hi < 0 || a+hi > b {
						hi = b
					} else {
						hi += a
					}
				} else if x.sub[2].op != "none" && x.sub[2] != s.lenTerm(st, x.sub[0]) {
					break
				} else if hi >= 0 {
					hi += a
				}
				lo += a
				x = x.sub[0]
			}
			c := s.content(st, x)
			if n := int64(atoi(c.aux)); (c.op == "be" || c.op == "le") && n > 0 {
				if hi < 0 || hi > n {
					hi = n
				}
				if c.op == "be" && hi == n && n-lo >= 2 || c.op == "le" && lo == 0 && hi >= 2 {
					t = c
					continue
				}
				r.bad = fmt.Sprintf("the id shows %d of the %d bytes of the counter", hi-lo, n)
				return r
			}
			r.leaf = t
			return r
		default:
			r.leaf = t
			return r
		}
	}
	r.leaf = t
	return r
}

func (p *Program) isGenMethod(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Signature.Recv() != nil && types.Identical(derefType(fn.Signature.Recv().Type()), p.NamedType("dht", genType))
}

func ruleTxId(p *Program, r *Report) {
	gt := p.NamedType("dht", genType)
	next := p.Method("dht", genType, "Next")
	if gt == nil || next == nil {
		r.Bad("the generator exists", genType, "dht/node.go", "dht."+genType+" with a method Next is not declared: how ids are made cannot be located", nil)
		return
	}
	p.checkNext(r, next)
	p.checkCounterStores(r, next)
	p.checkQueryIds(r)
}

// checkNext: one id.
func (p *Program) checkNext(r *Report, next *ssa.Function) {
	at := p.FuncName(next)
	genT := p.NamedType("dht", genType)
	counter := func(a *Term) bool {
		if a.op != "fieldaddr" || a.typ == nil {
			return false
		}
		pt, ok := a.typ.Underlying().(*types.Pointer)
		return ok && isIntType(pt.Elem()) && strings.HasSuffix(a.aux, genT.String()) && a.sub[0].op != "obj"
	}
	held := func(st *State) bool {
		for _, l := range st.L["held"] {
			if baseObj(l).op != "obj" {
				return true
			}
		}
		return false
	}
	pair := func(v, cur *Term) (int64, bool) { // v = cur + k
		if v == cur {
			return 0, true
		}
		if (v.op == "addw" || v.op == "add") && len(v.sub) == 2 {
			for i := 0; i < 2; i++ {
				if k, ok := v.sub[i].intVal(); ok && v.sub[1-i] == cur {
					return k, true
				}
			}
		}
		if v.op == "subw" || v.op == "sub" {
			if k, ok := v.sub[1].intVal(); ok && v.sub[0] == cur {
				return -k, true
			}
		}
		return 0, false
	}
	seen := map[string]bool{}
	h := Hooks{}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if c.Fn != nil && p.isGenMethod(c.Fn) {
			return nil
		}
		switch lockOp(c.Name) {
		case "lock":
			if len(c.Args) > 0 {
				st.AddL("held", c.Args[0])
			}
			// the other goroutines ran before
			for a := range st.heap {
				if counter(a) {
					delete(st.heap, a)
				}
			}
			st.L["cur"] = nil
			st.F["section"]++
			return &Verdict{Opaque: true}
		case "unlock":
			if len(c.Args) > 0 {
				st.DelL("held", c.Args[0])
			}
			delete(st.L, "cur")
			return &Verdict{Opaque: true}
		case "rlock", "runlock":
			return &Verdict{Opaque: true}
		}
		n := c.Name
		atomicAdd := strings.HasPrefix(n, "sync/atomic.Add") || strings.HasPrefix(n, "(*sync/atomic.") && strings.HasSuffix(n, ").Add")
		if atomicAdd && len(c.Args) == 2 {
			k, ok := c.Args[1].intVal()
			if ok && k == 1 {
				st.F["adv"]++
				st.F["atomic"] = 1
			} else {
				r.Bad(c28Adv, at, p.InstrPos(c.Instr), "the counter is advanced by "+c.Args[1].String(), st.path(20))
			}
			return &Verdict{Outcomes: []Outcome{{Res: []*Term{s.fresh(st, s.tt.mk("res", s.siteID(c.Frame, c.Instr, "atomic add"), c.Instr.Common().Signature().Results().At(0).Type()))}}}}
		}
		return nil
	}
	h.Load = func(s *Sim, st *State, in ssa.Instruction, a *Term) {
		if !counter(a) {
			return
		}
		if !held(st) {
			r.Bad(c28Adv, at, p.InstrPos(in), "the counter is read without the lock: two callers can take the same value", st.path(20))
			return
		}
		if len(st.L["cur"]) == 0 {
			v := s.fresh(st, s.tt.mk("hv", s.siteID(st.top(), in, "counter"), a.typ.Underlying().(*types.Pointer).Elem()))
			st.heap[a] = v
			st.L["cur"] = []*Term{v}
		}
	}
	h.Store = func(s *Sim, st *State, in ssa.Instruction, a, v *Term) {
		if !counter(a) {
			return
		}
		if !held(st) {
			r.Bad(c28Adv, at, p.InstrPos(in), "the counter is written without the lock: an advance can be lost", st.path(20))
			return
		}
		if len(st.L["cur"]) == 0 {
			if st.F["adv"] == 0 {
				r.Bad(c28Adv, at, p.InstrPos(in), "the counter is set to "+short(v.String(), 80)+", which was not read in this critical section", st.path(20))
			}
			return
		}
		k, ok := pair(v, st.L["cur"][0])
		switch {
		case ok && k == 1:
			st.F["adv"]++
			st.L["base"] = []*Term{st.L["cur"][0]}
			st.L["new"] = []*Term{v}
		case ok:
			r.Bad(c28Adv, at, p.InstrPos(in), fmt.Sprintf("the counter is advanced by %d", k), st.path(20))
		case v.isConst() && intBits(a.typ.Underlying().(*types.Pointer).Elem()) > 16:
			r.Note("%s", at+": the counter is set to a constant on some path: that 65536 ids pass before is not decided")
			st.F["adv"]++
		default:
			r.Bad(c28Adv, at, p.InstrPos(in), "the counter is set to "+short(v.String(), 80)+", not to the value after the last one", st.path(20))
		}
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		if len(res) == 0 {
			return
		}
		x := s.rendering(st, s.content(st, res[0]))
		switch {
		case st.F["adv"] == 0 && x.leaf != nil && x.leaf.any(func(t *Term) bool { return t.op == "recv" || t.op == "res" || t.op == "lookup" }) && x.bad == "":
			if !seen["src"] {
				seen["src"] = true
				r.Note("%s", at+": ids come from "+short(x.leaf.String(), 80)+": not decided")
			}
			r.Ob(c28Adv, at)
			r.Ob(c28Render, at)
			return
		case st.F["adv"] == 0:
			r.Bad(c28Adv, at, at, "an id is given out without advancing the shared counter", st.path(20))
		case st.F["adv"] > 1:
			r.Bad(c28Adv, at, at, "the counter is advanced more than once for one id", st.path(20))
		default:
			r.Ob(c28Adv, at)
		}
		if x.bad != "" {
			r.Bad(c28Render, at, at, x.bad+": different ids look alike", st.path(20))
			return
		}
		if x.bits < 16 {
			r.Bad(c28Render, at, at, fmt.Sprintf("only %d bits of the counter are shown: ids repeat before 65536", x.bits), st.path(20))
			return
		}
		if !x.fixed {
			r.Bad(c28Render, at, at, "the text of the counter has no fixed width", st.path(20))
			return
		}
		own := x.leaf != nil && st.F["atomic"] > 0 && x.leaf.op == "res"
		for _, b := range append(append([]*Term(nil), st.L["base"]...), st.L["new"]...) {
			if x.leaf == b {
				own = true
			}
			if _, ok := pair(x.leaf, b); ok {
				own = true
			}
		}
		if own {
			r.Ob(c28Render, at)
			return
		}
		if x.leaf.isConst() || x.leaf.op == "load" || x.leaf.any(func(y *Term) bool { return y.op == "hv" && strings.Contains(y.aux, "counter") }) {
			r.Bad(c28Render, at, at, "the id shows "+short(x.leaf.String(), 80)+", not the value taken in the critical section", st.path(20))
			return
		}
		if !seen["render"] {
			seen["render"] = true
			r.Note("%s", at+": how the id shows the counter is not recognised ("+short(x.leaf.String(), 80)+")")
		}
		r.Ob(c28Render, at)
	}
	r.explore(p, next, h, Opts{Numeric: true}, func(s *Sim, st *State) {})
	r.Need(c28Adv, 1)
	r.Need(c28Render, 1)
}

// checkCounterStores: who else writes the counter, and where generators are replaced.
func (p *Program) checkCounterStores(r *Report, next *ssa.Function) {
	reach := p.staticReach(next)
	gt := p.NamedType("dht", genType)
	n := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(derefType(fa.X.Type()), gt) {
					n++
					if _, fresh := fa.X.(*ssa.Alloc); !fresh && !reach[fn] && (p.addrTaken[fn] || p.isEntry(fn) || len(p.directCallers(fn)) > 0) && isIntType(st.Val.Type()) {
						r.Bad(c28Only, p.site(in, "store"), p.InstrPos(in), p.FuncName(fn)+" sets the counter of the generator: ids given out before can come again", nil)
					} else {
						r.Ob(c28Only, p.site(in, "store"))
					}
				}
				g, ok := st.Addr.(*ssa.Global)
				if ok && types.Identical(derefType(st.Val.Type()), gt) {
					if isInitFn(fn) {
						r.Ob(c28One, g.Name())
					} else {
						r.Bad(c28One, g.Name(), p.InstrPos(in), p.FuncName(fn)+" replaces the generator: ids given out before can come again", nil)
					}
				}
			}
		}
	}
}

// checkQueryIds: every query sent takes an id of its own.
func (p *Program) checkQueryIds(r *Report) {
	const query = "(*dht/krpc.RpcServer).Query"
	isQuery := func(n string) bool { return n == query }
	sites, _ := p.staticSites()
	sends := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if fn.Pkg == p.Pkg("dht/krpc") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && isQuery(p.CalleeName(c.Common())) {
					sends[fn] = true
				}
			}
		}
	}
	// functions nobody calls by name that send, directly or through others
	var roots []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Pkg == p.Pkg("dht/krpc") || fn.Blocks == nil {
			continue
		}
		root := len(sites[fn]) == 0 || p.addrTaken[fn]
		if !root {
			continue
		}
		for f := range p.staticReach(fn) {
			if sends[f] {
				roots = append(roots, fn)
				break
			}
		}
	}
	sort.Slice(roots, func(i, j int) bool { return p.FuncName(roots[i]) < p.FuncName(roots[j]) })
	gens := map[string]string{}
	noted := map[string]bool{}
	note := func(m string) {
		if !noted[m] {
			noted[m] = true
			r.Note("%s", m)
		}
	}
	// what matters: functions that send or take ids, and those that make requests or texts
	matters := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for f := range p.staticReach(fn) {
			if sends[f] || p.isGenMethod(f) {
				matters[fn] = true
			}
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if t := fn.Signature.Results().At(i).Type(); types.Identical(t, p.NamedType("dht/krpc", "Request")) || p.isPtrTo(t, "dht/krpc", "BaseRequest") {
				matters[fn] = true
			}
		}
	}
	for _, fn := range roots {
		h := Hooks{}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			if c.Fn != nil && p.isGenMethod(c.Fn) {
				g := c.Args[0]
				where := p.InstrPos(c.Instr)
				if baseObj(g).op == "obj" {
					r.Bad(c28One, p.site(c.Instr, "generator"), where, "the id comes from a generator made for this call: its ids start over every time", st.path(20))
				} else if g.op == "res" && g.any(func(t *Term) bool { return strings.Contains(t.aux, "New"+genType) }) {
					r.Bad(c28One, p.site(c.Instr, "generator"), where, "the id comes from a generator made for this call: its ids start over every time", st.path(20))
				} else if g.op == "load" && g.sub[0].op == "global" {
					gens[shortAux(g.sub[0].aux)] = where
					r.Ob(c28One, shortAux(g.sub[0].aux))
				} else if g.op == "global" {
					gens[shortAux(g.aux)] = where
					r.Ob(c28One, shortAux(g.aux))
				}
				return &Verdict{Opaque: true}
			}
			if !isQuery(c.Name) || len(c.Args) < 3 {
				return nil
			}
			req := unface(c.Args[2])
			key, where := p.site(c.Instr, "Query"), p.InstrPos(c.Instr)
			var id *Term
			var t types.Type
			if c.Args[2].op == "iface" && len(c.Args[2].sub) > 0 {
				t = c.Args[2].sub[0].typ
			}
			if get := p.methodOfType(t, "TxId"); get != nil {
				if f := getterField(get); f != "" {
					id = s.fieldOf(st, req, t, f)
				}
			}
			if id == nil {
				note(key + ": the id of the query is not visible: not decided")
				r.Ob(c28Fresh, key)
				return &Verdict{Opaque: true}
			}
			x := s.rendering(st, id)
			var src *Term
			id.any(func(y *Term) bool {
				if y.op == "res" && strings.Contains(y.aux, genType) || y.op == "stale" && strings.Contains(y.sub[0].aux, genType) && y.sub[0].op == "res" {
					src = y
				}
				return false
			})
			switch {
			case src == nil && id.any(func(y *Term) bool {
				return (y.op == "res" || y.op == "app") && strings.HasSuffix(shortAux(y.aux), ").TxId")
			}):
				r.Bad(c28Fresh, key, where, "the query takes the id of another message", st.path(20))
			case src == nil && (id.isConst() || x.leaf != nil && (x.leaf.isConst() || x.leaf.op == "load" && baseObj(x.leaf.sub[0]).op == "global")):
				r.Bad(c28Fresh, key, where, "the id of the query is "+short(id.String(), 80)+", not one taken from the generator for it", st.path(20))
			case src == nil:
				note(key + ": the id of the query is " + short(id.String(), 80) + ": where it comes from is not decided")
				r.Ob(c28Fresh, key)
			case st.HasL("used", src):
				r.Bad(c28Fresh, key, where, "the id "+short(id.String(), 80)+" was already taken for an earlier query", st.path(20))
			case x.bad != "" && x.leaf == nil:
				r.Bad(c28Fresh, key, where, x.bad, st.path(20))
			default:
				r.Ob(c28Fresh, key)
			}
			if src != nil {
				st.AddL("used", src)
			}
			return &Verdict{Opaque: true}
		}
		r.explore(p, fn, h, Opts{Opaque: func(f *ssa.Function) bool { return !matters[f] && f.Parent() == nil }}, nil)
	}
	if len(gens) > 1 {
		var ns []string
		for g := range gens {
			ns = append(ns, g)
		}
		sort.Strings(ns)
		r.Bad(c28One, "generators", gens[ns[1]], "ids come from "+strings.Join(ns, " and ")+": each has its own sequence, so their ids collide", nil)
	}
	r.Need(c28Fresh, 1)
}
