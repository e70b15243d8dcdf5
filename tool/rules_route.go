package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C43", "path-sensitive simulation with linear arithmetic: the distance computation is compared term by term with the first differing bit, every bucket index used to store or look up a node is compared with min(common prefix of its id, last index), and loops are checked for completeness",
		ruleRoute)
}

const (
	rtXor    = "the distance is the bytewise exclusive or"
	rtPrefix = "the common prefix ends at the first differing bit"
	rtStore  = "a node is stored in the bucket of its prefix"
	rtFind   = "an id is looked up in the bucket of its prefix"
	rtMove   = "a split moves every node"
	prefixOp = "common prefix"
	xorOp    = "bytewise xor"
)

type route struct {
	p      *Program
	r      *Report
	tt     *types.Named
	bt     types.Type
	node   types.Type // *NodeInfo
	xor    *ssa.Function
	prefix map[*ssa.Function]bool
	index  string // field that holds the last bucket index
	guards *guards
	own    string // field that holds the own node
}

func (x *route) bad(rule, key, where, msg string, st *State) {
	var pth []string
	if st != nil {
		pth = st.path(12)
	}
	x.r.Bad(rule, key, where, msg, pth)
}

func ruleRoute(p *Program, r *Report) {
	x := &route{p: p, r: r, guards: newGuards(p), prefix: map[*ssa.Function]bool{}}
	tt, bt, nt := p.NamedType("dht", "RouteTable"), p.NamedType("dht", "Bucket"), p.NamedType("dht", "NodeInfo")
	add := p.Method("dht", "RouteTable", "AddNode")
	if tt == nil || bt == nil || nt == nil || add == nil {
		r.Bad("anchors", "RouteTable", "?", "dht.RouteTable, dht.Bucket, dht.NodeInfo or AddNode was not found", nil)
		return
	}
	x.tt, _ = tt.(*types.Named)
	x.bt, x.node = bt, types.NewPointer(nt)
	str := tt.Underlying().(*types.Struct)
	for i := 0; i < str.NumFields(); i++ {
		f := str.Field(i)
		if types.Identical(f.Type(), x.node) {
			x.own = f.Name()
		}
		if f.Name() == "lastBucketIndex" {
			x.index = f.Name()
		}
	}
	for _, f := range p.Funcs {
		if f.Signature.Recv() != nil || f.Signature.Params().Len() != 2 || f.Signature.Results().Len() != 1 || f.Parent() != nil {
			continue
		}
		ps, res := f.Signature.Params(), f.Signature.Results().At(0).Type()
		a, b := ps.At(0).Type(), ps.At(1).Type()
		switch {
		case isBytesType(a) && isBytesType(b) && isBytesType(res) && f.Name() == "Xor":
			x.xor = f
		case types.Identical(a, b) && (isStringType(a) || isBytesType(a)) && isIntType(res) && f.Pkg == p.Pkg("dht") && p.staticReach(add)[f]:
			x.prefix[f] = true
		}
	}
	if x.xor != nil {
		x.xorRule()
	}
	r.Ob(rtPrefix, "functions")
	if len(x.prefix) == 0 {
		r.Note("no function that computes the common prefix of two ids was found")
	}
	for _, f := range sortedFuncs(p, x.prefix) {
		x.prefixRule(f)
	}
	x.table(add, false)
	for _, f := range p.methodsOf("dht", "RouteTable") {
		if !f.Object().Exported() || f == add {
			continue
		}
		ps, rs := f.Signature.Params(), f.Signature.Results()
		if ps.Len() == 1 && isStringType(ps.At(0).Type()) && rs.Len() == 1 && types.Identical(rs.At(0).Type(), x.node) {
			x.find(f)
		}
	}
}

// bucketSize: t is an integer field of a bucket.
func (x *route) bucketSize(t *Term) *Term {
	u := unstale(t)
	if u.op == "load" && u.sub[0].op == "fieldaddr" && isIntType(u.typ) {
		if _, ok := x.p.fieldAddrOf(u.sub[0], x.bt); ok {
			return u.sub[0].sub[0]
		}
	}
	return nil
}

func sortedFuncs(p *Program, m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return p.FuncName(out[i]) < p.FuncName(out[j]) })
	return out
}

// bare is the term without conversions and copies.
func bare(t *Term) *Term {
	for {
		u := stripConv(unstale(t))
		if u.op == "copy" || u.op == "alias" {
			u = u.sub[0]
		}
		if u == t {
			return t
		}
		t = u
	}
}

// unwrap takes arithmetic as not overflowing.
func (s *Sim) unwrap(t *Term) *Term {
	if len(t.sub) == 2 {
		switch t.op {
		case "addw", "add":
			return s.add(s.unwrap(t.sub[0]), s.unwrap(t.sub[1]))
		case "subw", "sub":
			return s.sub(s.unwrap(t.sub[0]), s.unwrap(t.sub[1]))
		case "mulw":
			return s.tt.mk("mul", "", t.typ, s.unwrap(t.sub[0]), s.unwrap(t.sub[1]))
		}
	}
	return t
}

// elemOf: t is an element of one of the two inputs.
func elemOf(t *Term) (lst, idx *Term) {
	t = bare(t)
	if t.op == "index" && len(t.sub) == 2 {
		return bare(t.sub[0]), t.sub[1]
	}
	return elemTerm(t)
}

// xorOf: the exclusive or of the elements of both inputs with the same index.
func xorOf(t, a, b *Term) (idx *Term, ok bool) {
	t = bare(t)
	if t.op != "bin" || t.aux != "^" {
		return nil, false
	}
	l0, i0 := elemOf(t.sub[0])
	l1, i1 := elemOf(t.sub[1])
	if l0 == nil || l1 == nil || i0 != i1 {
		return nil, false
	}
	if l0 == a && l1 == b || l0 == b && l1 == a {
		return i0, true
	}
	return nil, false
}

// plain: the term is made of elements of the inputs, counters and constants only.
func plain(t *Term, ins ...*Term) bool {
	known := true
	var walk func(t *Term, depth int)
	walk = func(t *Term, depth int) {
		if !known || depth > 12 {
			return
		}
		for _, a := range ins {
			if t == a {
				return
			}
		}
		switch t.op {
		case "const", "phi", "index", "bin", "add", "sub", "mul", "quo", "rem", "conv", "len", "stale", "indexaddr", "not":
			for _, y := range t.sub {
				walk(y, depth+1)
			}
			return
		case "app":
			if strings.HasPrefix(t.aux, "math/bits.") || t.aux == xorOp || t.aux == prefixOp {
				for _, y := range t.sub {
					walk(y, depth+1)
				}
				return
			}
		}
		if t.isConst() {
			return
		}
		known = false
	}
	walk(t, 0)
	return known
}

func (x *route) xorRule() {
	p, r, f := x.p, x.r, x.xor
	name := p.FuncName(f)
	e := newEach(p, "xor")
	var h Hooks
	var a, b *Term
	h.LoopPhi = e.phi
	h.Cond = e.cond
	h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) { e.back(st, to) }
	h.Make = func(s *Sim, st *State, in ssa.Instruction, kind string, size *Term) {
		if kind != "slice" && !strings.Contains(kind, "slice") {
			return
		}
		r.Ob(rtXor, name+" length")
		la, lb := s.lenTerm(st, a), s.lenTerm(st, b)
		if s.entailsLe(st, size, la, 0) && s.entailsLe(st, size, lb, 0) && (s.entailsLe(st, la, size, 0) || s.entailsLe(st, lb, size, 0)) {
			return
		}
		if plain(size, a, b) && !s.entailsLe(st, size, s.tt.Int(0), 0) {
			x.bad(rtXor, name+" length", p.InstrPos(in), "the result does not have the length of the shorter input: its length is "+size.String(), st)
		}
	}
	h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op != "indexaddr" {
			return
		}
		base, at := unstale(addr.sub[0]), addr.sub[1]
		if base.typ != nil {
			if _, arr := derefType(base.typ).Underlying().(*types.Array); arr {
				return // the arguments of append
			}
		}
		if base.any(func(y *Term) bool { return y == a || y == b }) {
			x.bad(rtXor, name, p.InstrPos(in), "an input of the exclusive or is overwritten", st)
			return
		}
		r.Ob(rtXor, name)
		idx, ok := xorOf(val, a, b)
		switch {
		case ok && (idx == at || s.entailsLe(st, idx, at, 0) && s.entailsLe(st, at, idx, 0)):
			e.done(s, st, in, base, at)
		case plain(val, a, b):
			x.bad(rtXor, name, p.InstrPos(in), "element "+at.String()+" of the result is "+val.String()+", not the exclusive or of the elements of the inputs with that index", st)
		default:
			r.Note("%s: the element that is stored is not recognised: %s", p.InstrPos(in), short(val.String(), 80))
			e.done(s, st, in, base, at)
		}
	}
	h.Return = func(s *Sim, st *State, res []*Term) { e.end(s, st, p.Pos(f.Pos()), true) }
	r.explore(p, f, h, Opts{Numeric: true}, func(s *Sim, st *State) { a, b = s.Params[0], s.Params[1] })
	r.Ob(rtXor, name+" explored")
	x.each(e, rtXor, name, "an element")
}

func (x *route) each(e *eachElem, rule, name, what string) {
	for _, q := range e.problems() {
		switch q.what {
		case "counting":
			x.r.Bad(rule, name, q.where, name+": not every element is visited", q.path)
		case "skipped":
			x.r.Bad(rule, name, q.where, name+": "+what+" is passed over", q.path)
		case "all":
			x.r.Bad(rule, name, q.where, name+": the loop can be left before "+what+" at the end has been handled", q.path)
		default:
			x.r.Note("%s: the loop is not one the rule knows", q.where)
		}
	}
}

// opaqueXor gives the exclusive or of two inputs a name.
func (x *route) opaqueXor(s *Sim, c *CallEv) *Verdict {
	t := s.tt.mk("app", xorOp, c.Fn.Signature.Results().At(0).Type(), bare(c.Args[0]), bare(c.Args[1]))
	return &Verdict{Opaque: true, Outcomes: []Outcome{{Res: []*Term{t}}}}
}

func (x *route) prefixRule(f *ssa.Function) {
	p, r := x.p, x.r
	name := p.FuncName(f)
	e := newEach(p, "prefix")
	var a, b *Term
	var h Hooks
	h.LoopPhi = e.phi
	h.Cond = e.cond
	// the difference of the inputs at an index, in one of the forms it can have
	diff := func(t *Term) (idx, lst *Term, ok bool) {
		if i, ok := xorOf(t, a, b); ok {
			return i, a, true
		}
		l, i := elemOf(t)
		if l != nil && l.op == "app" && l.aux == xorOp && (l.sub[0] == a && l.sub[1] == b || l.sub[0] == b && l.sub[1] == a) {
			return i, l, true
		}
		return nil, nil, false
	}
	// equal: the inputs are known to be equal (different) at an index
	equal := func(c *Term, v bool) (idx, lst *Term, same, ok bool) {
		if c.op != "eq" {
			return
		}
		l0, i0 := elemOf(c.sub[0])
		l1, i1 := elemOf(c.sub[1])
		if l0 != nil && l1 != nil && i0 == i1 && (l0 == a && l1 == b || l0 == b && l1 == a) {
			return i0, a, v, true
		}
		for k := range c.sub {
			if z, isZ := c.sub[k].intVal(); isZ && z == 0 {
				if i, l, d := diff(c.sub[1-k]); d {
					return i, l, v, true
				}
			}
		}
		return
	}
	h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) {
		for c, v := range st.facts {
			if i, l, same, ok := equal(c, v); ok && same {
				e.done(s, st, to.Instrs[len(to.Instrs)-1], l, i)
				if l == a {
					e.done(s, st, to.Instrs[len(to.Instrs)-1], b, i)
				}
			}
		}
		e.back(st, to)
	}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if c.Fn != nil && c.Fn == x.xor {
			return x.opaqueXor(s, c)
		}
		if strings.HasPrefix(c.Name, "math/bits.") && len(c.Args) == 1 {
			// of a byte, all of them are a matter of its leading zeros
			v := bare(c.Args[0])
			n := strings.TrimPrefix(c.Name, "math/bits.")
			if _, _, ok := diff(v); ok {
				lz := s.tt.mk("app", "math/bits.LeadingZeros8", types.Typ[types.Int], v)
				add := map[string]int64{"LeadingZeros8": 0, "LeadingZeros16": 8, "LeadingZeros32": 24, "LeadingZeros64": 56, "LeadingZeros": 56}
				if w, ok := add[n]; ok {
					return &Verdict{Opaque: true, Outcomes: []Outcome{{Res: []*Term{s.add(lz, s.tt.Int(w))}}}}
				}
				if strings.HasPrefix(n, "Len") {
					return &Verdict{Opaque: true, Outcomes: []Outcome{{Res: []*Term{s.sub(s.tt.Int(8), lz)}}}}
				}
			}
			return &Verdict{Opaque: true, Outcomes: []Outcome{{Res: []*Term{s.tt.mk("app", c.Name, types.Typ[types.Int], v)}}}}
		}
		return nil
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		where := p.Pos(f.Pos())
		q := s.lin(s.unwrap(res[0]))
		var lz *Term
		other := false
		onlyLen := len(q.m) == 1
		for t, k := range q.m {
			u := unstale(t)
			switch {
			case u.op == "app" && strings.HasPrefix(u.aux, "math/bits."):
				if u.aux != "math/bits.LeadingZeros8" || k != 1 || lz != nil {
					x.bad(rtPrefix, name, where, "the prefix of two ids that differ in a byte is computed with "+u.aux, st)
					return
				}
				lz = u
			case u.op == "phi", u.op == "len":
			default:
				other = true
			}
			onlyLen = onlyLen && u.op == "len"
		}
		r.Ob(rtPrefix, name)
		switch {
		case lz != nil:
			i, l, ok := diff(lz.sub[0])
			if !ok {
				if plain(lz.sub[0], a, b) {
					x.bad(rtPrefix, name, where, "the bits of "+short(lz.sub[0].String(), 60)+" are counted, not those of the difference of the inputs", st)
				} else {
					r.Note("%s: the byte whose bits are counted is not recognised: %s", name, short(lz.sub[0].String(), 80))
				}
				return
			}
			want := s.lin(i)
			d := q.c - 8*want.c
			exact := len(q.m) == len(want.m)+1
			for t, k := range want.m {
				exact = exact && q.m[t] == 8*k
			}
			if !exact || d != 0 {
				i0, _ := countPhi(i)
				for t := range q.m {
					other = other || unstale(t).op == "phi" && t != i0
				}
				if other {
					r.Note("%s: the result is not recognised: %s", name, short(res[0].String(), 80))
				} else {
					x.bad(rtPrefix, name, where, "for ids that differ first in the byte with index "+i.String()+" the prefix is "+res[0].String(), st)
				}
				return
			}
			known := false
			for c, v := range st.facts {
				if j, _, same, ok := equal(c, v); ok && !same && j == i {
					known = true
				}
			}
			if !known {
				x.bad(rtPrefix, name, where, "the result is given for a byte in which the ids may not differ", st)
			}
			e.looked(s, st, f, l, i)
		case onlyLen:
			for t, k := range q.m {
				l := unstale(t).sub[0]
				l = bare(l)
				isX := l.op == "app" && l.aux == xorOp
				if k != 8 || q.c != 0 {
					x.bad(rtPrefix, name, where, "for ids without a differing byte the prefix is "+res[0].String()+", not eight bits for every byte", st)
				} else if isX || l == a || l == b {
					if !isX {
						la, lb := s.lenTerm(st, a), s.lenTerm(st, b)
						if m := unstale(t); !s.entailsLe(st, m, la, 0) || !s.entailsLe(st, m, lb, 0) {
							r.Note("%s: which of the inputs is the shorter one is not followed", name)
						}
					}
					e.end(s, st, where, true)
				}
			}
		case len(q.m) == 0:
			short, loop := s.entailsLe(st, s.lenTerm(st, a), s.tt.Int(0), 0) || s.entailsLe(st, s.lenTerm(st, b), s.tt.Int(0), 0), false
			for k, ts := range st.L {
				loop = loop || strings.HasPrefix(k, "cnt ")
				if strings.HasPrefix(k, "lim") {
					ts[0].any(func(y *Term) bool {
						short = short || y.op == "len" && s.entailsLe(st, y, s.tt.Int(0), 0)
						return false
					})
				}
			}
			if q.c != 0 || !short && loop {
				x.bad(rtPrefix, name, where, "the prefix of two ids is the constant "+s64(q.c), st)
			} else if !short {
				r.Note("%s: when the constant 0 is given is not followed", name)
			}
		default:
			phiOnly := true
			for t := range q.m {
				phiOnly = phiOnly && unstale(t).op == "phi"
			}
			if phiOnly && e.s != nil && len(q.m) == 1 {
				for t, k := range q.m {
					if e.blk[t] != nil && k != 8 && k != 1 {
						x.bad(rtPrefix, name, where, "the prefix is "+res[0].String(), st)
						return
					}
				}
			}
			r.Note("%s: the result is not recognised: %s", name, short(res[0].String(), 80))
		}
	}
	r.explore(p, f, h, Opts{Numeric: true}, func(s *Sim, st *State) { a, b = s.Params[0], s.Params[1] })
	r.Ob(rtPrefix, name+" explored")
	x.each(e, rtPrefix, name, "a byte in which the ids may differ")
}

// looked: the loop is one that looks at the elements of lst, whatever it does for this one.
func (e *eachElem) looked(s *Sim, st *State, f *ssa.Function, lst, idx *Term) {
	e.s = s
	if phi, off := countPhi(idx); phi != nil {
		e.loop(phi, off, lst, e.p.Pos(f.Pos()))
	}
}

// opaquePrefix gives the common prefix of two ids a name.
func (x *route) opaquePrefix(s *Sim, st *State, c *CallEv) *Verdict {
	a, b := bare(c.Args[0]), bare(c.Args[1])
	if a.id > b.id {
		a, b = b, a
	}
	t := s.tt.mk("app", prefixOp, types.Typ[types.Int], a, b)
	return &Verdict{Opaque: true, Outcomes: []Outcome{{Res: []*Term{t}}}}
}

// right: k is min(common prefix of id, last index); known is false where the term is not understood.
func (x *route) right(s *Sim, st *State, recv, id, k *Term, elem bool) (ok, known bool) {
	rt := types.NewPointer(x.tt)
	own := s.fieldOf(st, recv, rt, x.own)
	oid := bare(s.fieldOf(st, own, x.node, "Id"))
	last := s.fieldOf(st, recv, rt, x.index)
	i := bare(id)
	if i.id > oid.id {
		i, oid = oid, i
	}
	P := s.tt.mk("app", prefixOp, types.Typ[types.Int], i, oid)
	raw := last
	last, k = s.unwrap(last), s.unwrap(k)
	same := func(a, b *Term) bool { return a == b || s.entailsLe(st, a, b, 0) && s.entailsLe(st, b, a, 0) }
	below := s.entailsLe(st, P, last, 0) || s.entailsLe(st, P, raw, 0)
	above := s.entailsLe(st, last, P, 0) || s.entailsLe(st, raw, P, 0)
	if same(k, P) && below || same(k, last) && above {
		return true, true
	}
	if elem && same(k, s.sub(last, s.tt.Int(1))) && (s.entailsLe(st, P, k, 0) || s.entailsLe(st, P, raw, -1)) {
		return true, true // the prefix of a node of the last bucket is not less than the index it had
	}
	known = true
	for t := range s.lin(k).m {
		u := unstale(t)
		switch {
		case u.op == "app" && u.aux == prefixOp:
		case t == last || t == raw:
		case u.op == "load" && u.sub[0].op == "fieldaddr" && shortAux(u.sub[0].aux) == x.index:
		case u.op == "hv" && strings.Contains(u.aux, x.index):
		default:
			known = false
		}
	}
	return false, known
}

func (x *route) isBucketMap(t *Term) bool {
	if t.typ == nil {
		return false
	}
	m, ok := t.typ.Underlying().(*types.Map)
	return ok && x.p.isPtrTo(m.Elem(), "dht", "Bucket") && isIntType(m.Key())
}

// keyOf: the index under which a bucket is in the table.
func (x *route) keyOf(st *State, b *Term) *Term {
	for i := len(st.L["bucket keys"]) - 1; i >= 0; i-- {
		if t := st.L["bucket keys"][i]; t.sub[0] == b {
			return t.sub[1]
		}
	}
	if u := unstale(b); u.op == "lookup" && x.isBucketMap(u.sub[0]) {
		return u.sub[1]
	}
	return nil
}

// locked: once the lock is taken, the table is what other goroutines have made of it meanwhile.
func (x *route) locked(s *Sim, st *State, c *CallEv) {
	if op := lockOp(c.Name); (op == "lock" || op == "rlock") && len(c.Args) > 0 {
		x.guards.acquire(s, st, c)
	}
}

// table follows the insertion of a node, with the splits it causes.
func (x *route) table(root *ssa.Function, nested bool) {
	p, r := x.p, x.r
	if x.own == "" || x.index == "" {
		r.Note("the own node or the last index of the table is not recognised")
		return
	}
	name := p.FuncName(root)
	e := newEach(p, "move")
	e.size = x.bucketSize
	var recv *Term
	var h Hooks
	h.LoopPhi = e.phi
	h.Cond = e.cond
	h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) { e.back(st, to) }
	judge := func(s *Sim, st *State, in ssa.Instruction, n, k *Term, what string) {
		r.Ob(rtStore, p.FuncName(in.Parent()))
		if k == nil {
			r.Note("%s: the bucket a node is %s is not recognised", p.InstrPos(in), what)
			return
		}
		id := s.fieldOf(st, n, x.node, "Id")
		if ok, known := x.right(s, st, recv, id, k, n.op != "param"); !ok {
			if known {
				x.bad(rtStore, p.FuncName(in.Parent()), p.InstrPos(in), "a node is "+what+" "+short(k.String(), 60)+", which is not the smaller one of the common prefix of its id with the own id and the index of the last bucket", st)
			} else {
				r.Note("%s: the index is not recognised: %s", p.InstrPos(in), short(k.String(), 80))
			}
		}
	}
	moved := func(s *Sim, st *State, in ssa.Instruction, n *Term) {
		if lst, idx := elemTerm(n); lst != nil {
			e.done(s, st, in, lst, idx)
		}
	}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		x.locked(s, st, c)
		if c.Fn == nil {
			return nil
		}
		if x.prefix[c.Fn] {
			return x.opaquePrefix(s, st, c)
		}
		if recvT := c.Fn.Signature.Recv(); recvT != nil && p.isPtrTo(recvT.Type(), "dht", "Bucket") {
			b := c.Args[0]
			switch {
			case c.Fn.Name() == "Add" && len(c.Args) == 2:
				judge(s, st, c.Instr, c.Args[1], x.keyOf(st, b), "stored in the bucket")
				moved(s, st, c.Instr, c.Args[1])
			case c.Fn.Name() == "Exist" && len(c.Args) == 2:
			case c.Fn.Signature.Results().Len() == 1 && c.Fn.Signature.Params().Len() == 0 && (isBoolType(c.Fn.Signature.Results().At(0).Type()) || isIntType(c.Fn.Signature.Results().At(0).Type())):
			default:
				return nil // the content of a bucket
			}
			return &Verdict{Opaque: true}
		}
		if p.FuncName(c.Fn) != "" && c.Fn.Pkg != p.Pkg("dht") {
			return &Verdict{Opaque: true}
		}
		return nil
	}
	h.MapUpdate = func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
		if !x.isBucketMap(m) {
			return
		}
		st.AddL("bucket keys", s.tt.mk("tuple", "key", nil, v, k))
		if v.op == "obj" {
			st.F["split"] = 1
		}
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		if st.F["split"] > 0 {
			e.end(s, st, p.Pos(root.Pos()), true)
		}
	}
	o := Opts{Numeric: true, MaxStates: 60000}
	o.OnRecursion = func(s *Sim, st *State, c *CallEv) *Verdict {
		var n, k *Term
		for i, prm := range c.Fn.Params {
			if p.isPtrTo(prm.Type(), "dht", "NodeInfo") {
				n = c.Args[i]
			} else if isIntType(prm.Type()) {
				k = c.Args[i]
			}
		}
		if n == nil {
			return nil
		}
		if k != nil {
			judge(s, st, c.Instr, n, k, "handed on for the bucket")
		}
		moved(s, st, c.Instr, n)
		return nil
	}
	r.explore(p, root, h, o, func(s *Sim, st *State) { recv = s.Params[0] })
	r.Ob(rtStore, name+" explored")
	r.Ob(rtMove, name)
	x.each(e, rtMove, name, "a node of the bucket that is split")
}

// find: looking up one id.
func (x *route) find(f *ssa.Function) {
	p, r := x.p, x.r
	name := p.FuncName(f)
	if x.own == "" || x.index == "" {
		return
	}
	e := newEach(p, "find")
	e.size = x.bucketSize
	var recv, id *Term
	var h Hooks
	h.LoopPhi = e.phi
	h.Cond = e.cond
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		x.locked(s, st, c)
		if c.Fn != nil && x.prefix[c.Fn] {
			return x.opaquePrefix(s, st, c)
		}
		return nil
	}
	h.MapRead = func(s *Sim, st *State, in ssa.Instruction, m, k *Term) {
		if !x.isBucketMap(m) {
			return
		}
		r.Ob(rtFind, name)
		if ok, known := x.right(s, st, recv, id, k, false); !ok {
			if known {
				x.bad(rtFind, name, p.InstrPos(in), "the id is looked up in the bucket "+short(k.String(), 60)+", which is not the smaller one of its common prefix with the own id and the index of the last bucket", st)
			} else {
				r.Note("%s: the index is not recognised: %s", p.InstrPos(in), short(k.String(), 80))
			}
		}
	}
	h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) {
		for c, v := range st.facts {
			if c.op != "eq" {
				continue
			}
			for i := range c.sub {
				if bare(c.sub[1-i]) != id {
					continue
				}
				u := unstale(c.sub[i])
				if u.op == "load" && u.sub[0].op == "fieldaddr" && shortAux(u.sub[0].aux) == "Id" {
					if lst, idx := elemTerm(u.sub[0].sub[0]); lst != nil {
						e.done(s, st, to.Instrs[len(to.Instrs)-1], lst, idx)
						if v {
							st.F["found"] = 1
						}
					}
				}
			}
		}
		if st.F["found"] == 0 {
			e.back(st, to)
		}
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		if len(res) == 1 && res[0].isNil() {
			e.end(s, st, p.Pos(f.Pos()), true)
		}
	}
	r.explore(p, f, h, Opts{Numeric: true}, func(s *Sim, st *State) { recv, id = s.Params[0], s.Params[1] })
	r.Ob(rtFind, name+" explored")
	x.each(e, rtFind, name, "a node of the bucket")
}
