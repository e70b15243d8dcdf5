package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: compact node and peer encodings. The layout is specified once (id 20, address 4, port 2, big
// endian) and both directions are held to it: the parts every iteration of a writer adds, and the
// offsets every field of an entry of a reader is taken from.

func init() {
	register("C27", "the parts a compact record is written from and the offsets its fields are read from follow one layout; reads stay inside the list, every complete record gives one entry with storage of its own", ruleCompact)
}

const (
	compactNode = 26
	compactId   = 20
	compactPeer = 6
)

const (
	c27Write = "a record is written as id, IPv4 address, big-endian port"
	c27All   = "every element is written, in order"
	c27Read  = "fields are read where they are written"
	c27In    = "nothing beyond the node list is read"
	c27Count = "one entry per complete record, in order"
	c27Alias = "entries share no storage"
)

// linTerm: k*x + off with one symbol x.
type linTerm struct {
	x      *Term
	k, off int64
}

func (s *Sim) linear(t *Term) (linTerm, bool) {
	if v, ok := t.intVal(); ok {
		return linTerm{nil, 0, v}, true
	}
	l := s.lin(t)
	if len(l.m) != 1 {
		return linTerm{}, false
	}
	for x, k := range l.m {
		return linTerm{x, k, l.c}, true
	}
	return linTerm{}, false
}

func (s *Sim) ofLinear(l linTerm) *Term {
	if l.x == nil {
		return s.tt.Int(l.off)
	}
	t := l.x
	if l.k != 1 {
		t = s.linNorm(s.tt.mk("mul", "", types.Typ[types.Int], s.tt.Int(l.k), l.x))
	}
	return s.add(t, s.tt.Int(l.off))
}

// step: the loop value starts at a constant and changes by a constant.
func (l *loopInfo) step(s *Sim, phi *Term) (init, step int64, ok bool) {
	rec := l.m[phi]
	if rec == nil || len(rec.init) == 0 || len(rec.body) == 0 {
		return 0, 0, false
	}
	for i, x := range rec.init {
		v, k := x.intVal()
		if !k || i > 0 && v != init {
			return 0, 0, false
		}
		init = v
	}
	for i, x := range rec.body {
		y := s.lin(unstaleAll(s, x))
		if len(y.m) != 1 || y.m[phi] != 1 || i > 0 && y.c != step {
			return 0, 0, false
		}
		step = y.c
	}
	return init, step, true
}

func unstaleAll(s *Sim, t *Term) *Term {
	if t.op == "stale" {
		return unstaleAll(s, t.sub[0])
	}
	if len(t.sub) == 0 {
		return t
	}
	if t.op == "add" || t.op == "sub" || t.op == "mul" || t.op == "slice" || t.op == "addw" {
		n := make([]*Term, len(t.sub))
		for i, x := range t.sub {
			n[i] = unstaleAll(s, x)
		}
		return s.tt.mk(t.op, t.aux, t.typ, n...)
	}
	return t
}

// backing is the buffer that a byte slice lies in: what is appended to the emptied part
// of a buffer lies in that buffer when there is room.
func backing(t *Term) (o *Term, again bool) {
	for {
		t = stripConv(t)
		switch {
		case t.op == "slice" || t.op == "alias" || t.op == "stale":
			t = t.sub[0]
		case t.op == "append" && t.sub[0].op == "slice":
			if z, ok := t.sub[0].sub[2].intVal(); !ok || z != 0 {
				return t, again
			}
			again = true
			t = t.sub[0].sub[0]
		default:
			return baseObj(t), again
		}
	}
}

type compact struct {
	p      *Program
	r      *Report
	fn     *ssa.Function
	at     string
	node   bool // node list, else peer list
	l      *loopInfo
	hdrs   map[*ssa.BasicBlock]bool // loops that make one record per iteration
	idx    map[linTerm]bool         // index of the element or entry
	rec    map[linTerm]bool         // start of the record
	shrink map[*Term]bool           // the rest of the list, when that is what the loop carries
	odd    bool
	noted  map[string]bool
	blk    map[*Term]*ssa.BasicBlock // where a loop value is bound
	second bool
	param  *Term
}

func (c *compact) note(m string) {
	if !c.noted[m] {
		c.noted[m] = true
		c.r.Note("%s", c.at+": "+m)
	}
}

func ruleCompact(p *Program, r *Report) {
	for _, f := range []struct {
		name        string
		write, node bool
	}{{"joinNodeInfos", true, true}, {"joinPeerInfos", true, false}, {"parseNodeInfo", false, true}, {"parsePeerInfo", false, false}} {
		fn := p.Func("dht", f.name)
		if fn == nil || len(fn.Params) != 1 {
			r.Bad("the compact writers and readers exist", f.name, "dht/node.go", "dht."+f.name+" with one parameter is not declared: the encoding cannot be located", nil)
			continue
		}
		c := &compact{p: p, r: r, fn: fn, at: p.FuncName(fn), node: f.node, l: newLoopInfo(),
			hdrs: map[*ssa.BasicBlock]bool{}, idx: map[linTerm]bool{}, rec: map[linTerm]bool{}, shrink: map[*Term]bool{}, noted: map[string]bool{}, blk: map[*Term]*ssa.BasicBlock{}}
		tt := NewTermTable()
		c.run(tt, f.write)
		c.second = true
		c.run(tt, f.write)
		c.progress(tt, f.write)
	}
	r.Need(c27Write, 2)
	r.Need(c27Read, 2)
}

func (c *compact) run(tt *TermTable, write bool) {
	h := Hooks{}
	c.l.hooks(&h)
	note := h.LoopPhi
	h.LoopPhi = func(s *Sim, st *State, ph *ssa.Phi, t, in *Term, back bool) {
		note(s, st, ph, t, in, back)
		c.blk[t] = ph.Block()
		keep := c.shrink[t]
		for l := range c.rec {
			keep = keep || l.x == t || c.blk[l.x] == ph.Block()
		}
		for l := range c.idx {
			keep = keep || l.x == t
		}
		if keep {
			for _, o := range st.L["keep"] { // the values of earlier iterations are not
				if o.op == "stale" {
					st.DelL("keep", o)
				}
			}
			st.AddL("keep", t) // its bounds are wanted at the end
		}
	}
	enter := func(s *Sim, st *State, v *Term) {
		if st.HasL("ent", v) {
			st.F["dup"] = 1
		}
		st.AddL("ent", v)
	}
	h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op != "indexaddr" || shortAux(addr.sub[0].aux) == "varargs" || !c.entryType(addr.typ, val) {
			return
		}
		enter(s, st, val)
		st.AddL("idx", addr.sub[1])
		st.AddL("into", addr.sub[0])
	}
	h.AfterCall = func(s *Sim, st *State, ev *CallEv, res []*Term) {
		if ev.Name != "builtin:append" || len(res) == 0 || len(ev.Args) < 2 {
			return
		}
		if lt := s.listTerm(st, ev.Args[1]); lt != nil && lt.op == "list" {
			for _, x := range lt.sub {
				if c.entryType(nil, x) {
					enter(s, st, x)
				}
			}
		}
	}
	if !write && c.node {
		rooted := func(b *Term) bool {
			b, _, _ = s0span(b)
			return c.rooted(unstale(b))
		}
		h.Index = func(s *Sim, st *State, in ssa.Instruction, base, idx *Term, ok bool) {
			if !rooted(base) || !c.second {
				return
			}
			if !ok {
				i := c.linked(s, idx)
				ok = s.entailsLe(st, s.tt.Int(0), i, 0) && s.entailsLe(st, i, s.lenTerm(st, base), -1)
			}
			if ok {
				c.r.Ob(c27In, c.p.site(in, "index"))
			} else {
				c.r.Bad(c27In, c.p.site(in, "index"), c.p.InstrPos(in), "the index "+idx.String()+" is not proven to lie inside the node list", st.path(20))
			}
		}
		h.Slice = func(s *Sim, st *State, in ssa.Instruction, base, lo, hi, mx *Term, ok bool) {
			if !rooted(base) || !c.second {
				return
			}
			if !ok {
				l, e := c.linked(s, lo), s.lenTerm(st, base)
				if hi.op != "none" {
					e = c.linked(s, hi)
				}
				ok = s.entailsLe(st, s.tt.Int(0), l, 0) && s.entailsLe(st, l, e, 0) && s.entailsLe(st, e, s.lenTerm(st, base), 0)
			}
			if ok {
				c.r.Ob(c27In, c.p.site(in, "slice"))
			} else {
				c.r.Bad(c27In, c.p.site(in, "slice"), c.p.InstrPos(in), fmt.Sprintf("the part from %s to %s is not proven to lie inside the node list", lo, hi), st.path(20))
			}
		}
	}
	h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) {
		if write && c.node {
			c.grown(s, st, from, to)
			return
		}
		ents := st.L["ent"]
		if len(ents) == 0 {
			if c.second && c.hdrs[to] {
				c.r.Bad(c27Count, c.at, c.p.InstrPos(to.Instrs[0]), "an iteration ends without making an entry: an entry is missing or left empty", st.path(20))
			}
			return
		}
		c.hdrs[to] = true
		c.entries(s, st, write)
		delete(st.L, "ent")
		delete(st.L, "idx")
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		if len(st.L["ent"]) > 0 {
			c.entries(s, st, write)
		}
		if c.second {
			c.finish(s, st, res, write)
		}
	}
	c.r.exploreTT(c.p, tt, c.fn, h, Opts{Numeric: true}, func(s *Sim, st *State) {
		c.param = st.frames[0].env[c.fn.Params[0]]
	})
}

// s0span is span without a simulation: only the base matters.
func s0span(t *Term) (b, lo, hi *Term) {
	for t.op == "copy" || t.op == "alias" || t.op == "slice" {
		t = t.sub[0]
	}
	return t, nil, nil
}

func (c *compact) fromParam(phi *Term, d int) bool {
	rec := c.l.m[phi]
	if rec == nil || d == 0 {
		return false
	}
	for _, x := range append(append([]*Term(nil), rec.init...), rec.body...) {
		b, _, _ := s0span(unstale(x))
		b = unstale(b)
		if b != c.param && b != phi && !(b.op == "phi" && c.fromParam(b, d-1)) {
			return false
		}
	}
	return len(rec.init) > 0
}

// linked expresses the values of a loop by the one that counts its iterations.
func (c *compact) linked(s *Sim, t *Term) *Term {
	l, ok := s.linear(t)
	if !ok || l.x == nil || l.x.op != "phi" {
		return t
	}
	init, step, ok := c.l.step(s, l.x)
	if !ok || step == 1 {
		return t
	}
	for y := range c.l.m {
		if y == l.x || c.blk[y] == nil || c.blk[y] != c.blk[l.x] {
			continue
		}
		if i2, s2, ok := c.l.step(s, y); ok && s2 == 1 {
			// x = init + step*(y-i2)
			return s.ofLinear(linTerm{y, l.k * step, l.off + l.k*(init-step*i2)})
		}
	}
	return t
}

// entryType: the value is an entry of the list the function makes.
func (c *compact) entryType(addr types.Type, v *Term) bool {
	rt := c.fn.Signature.Results()
	if rt.Len() == 0 {
		return false
	}
	sl, ok := rt.At(0).Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if _, ifc := sl.Elem().Underlying().(*types.Interface); ifc {
		return v.op == "iface"
	}
	if addr != nil {
		if pt, ok := addr.Underlying().(*types.Pointer); ok {
			return types.Identical(pt.Elem(), sl.Elem())
		}
	}
	return v.typ != nil && types.Identical(v.typ, sl.Elem())
}

// entries checks what one iteration put into the list.
func (c *compact) entries(s *Sim, st *State, write bool) {
	ents := st.L["ent"]
	if len(ents) > 1 || st.F["dup"] > 0 {
		c.r.Bad(c27Count, c.at, c.at, "one record gives more than one entry", st.path(20))
	}
	st.F["dup"] = 0
	for _, ix := range st.L["idx"] {
		if l, ok := s.linear(ix); ok {
			c.idx[l] = true
		} else {
			c.odd = true
		}
	}
	for _, v := range ents {
		if write {
			v = unface(v)
			x := s.content(st, v)
			parts := []*Term{x}
			if x.op == "concat" {
				parts = x.sub
			}
			c.parts(s, st, parts)
		} else {
			c.entry(s, st, v)
		}
	}
}

func loadOf(t *Term, field string) *Term {
	t = stripConv(t)
	if (t.op == "load" || t.op == "hv") && len(t.sub) > 0 && t.sub[0].op == "fieldaddr" && shortAux(t.sub[0].aux) == field {
		return t.sub[0].sub[0]
	}
	return nil
}

// partOf classifies a written part: which field of which element, in which form.
func (c *compact) partOf(s *Sim, st *State, t *Term) (kind string, elem *Term) {
	addr := func(x *Term) *Term { // the element an address belongs to
		if !c.node {
			return x
		}
		return loadOf(x, "Addr")
	}
	if t.op == "be" || t.op == "le" {
		v := t.sub[0]
		whole := true
		for v.op == "conv" || v.op == "bin" && v.aux == "&" {
			if v.op == "conv" {
				whole = whole && typeBits(v.typ) >= 16
			} else if m, ok := v.sub[1].intVal(); !ok || m&0xffff != 0xffff {
				if m, ok = v.sub[0].intVal(); !ok || m&0xffff != 0xffff {
					whole = false
				} else {
					v = v.sub[1]
					continue
				}
			}
			v = v.sub[0]
		}
		if a := loadOf(v, "Port"); a != nil {
			if !whole {
				return "some bits of the port", addr(a)
			}
			if t.op == "be" && t.aux == "2" {
				return "port", addr(a)
			}
			return "the port as " + t.op + t.aux, addr(a)
		}
		return "", nil
	}
	b, lo, hi := s.span(t)
	if b.op == "app" || b.op == "res" {
		switch shortAux(b.aux) {
		case "(net.IP).To4", "(net.IP).To16":
			a := loadOf(b.sub[0], "IP")
			if a == nil {
				return "", nil
			}
			v, ok := lo.intVal()
			w, okh := int64(-1), hi == nil
			if hi != nil {
				w, okh = hi.intVal()
			}
			if !ok || !okh {
				return "", nil
			}
			if strings.HasSuffix(shortAux(b.aux), "To4") {
				if v == 0 && (hi == nil || w == 4) {
					return "ip", addr(a)
				}
				return fmt.Sprintf("bytes %d to %d of the IPv4 address", v, w), addr(a)
			}
			if v == 12 && (hi == nil || w == 16) {
				return "ip", addr(a)
			}
			return "the 16 byte form of the address", addr(a)
		}
		return "", nil
	}
	if lo == s.tt.Int(0) && hi == nil {
		if a := loadOf(b, "IP"); a != nil {
			return "the address as it is stored (4 or 16 bytes)", addr(a)
		}
		if a := loadOf(b, "Id"); a != nil && c.node {
			return "id", a
		}
	}
	return "", nil
}

func (c *compact) parts(s *Sim, st *State, parts []*Term) {
	want := []string{"ip", "port"}
	if c.node {
		want = []string{"id", "ip", "port"}
	}
	var got []string
	var elem *Term
	for _, t := range parts {
		k, e := c.partOf(s, st, t)
		if k == "" {
			c.note("part of a record is " + short(t.String(), 100) + ": its layout is not decided")
			c.r.Ob(c27Write, c.at)
			c.odd = true
			return
		}
		got = append(got, k)
		if e == nil || elem != nil && e != elem {
			c.r.Bad(c27Write, c.at, c.at, "the parts of one record come from different elements", st.path(20))
			return
		}
		elem = e
	}
	if strings.Join(got, ", ") != strings.Join(want, ", ") {
		c.r.Bad(c27Write, c.at, c.at, "a record is written as "+strings.Join(got, ", ")+": it must be "+strings.Join(want, ", "), st.path(20))
		return
	}
	c.r.Ob(c27Write, c.at)
	lst, ix := elemTerm(elem)
	if lst != c.param || ix == nil {
		c.note("the element written is " + short(elem.String(), 100) + ": that all are written is not decided")
		c.odd = true
		return
	}
	if l, ok := s.linear(ix); ok {
		c.rec[l] = true
	} else {
		c.odd = true
	}
}

// grown: what a loop adds to a text it builds.
func (c *compact) grown(s *Sim, st *State, from, to *ssa.BasicBlock) {
	var vals []*Term
	for k, v := range st.heap {
		if k.op == "attr:buf" {
			vals = append(vals, v)
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isStringType(ph.Type()) && !isBytesType(ph.Type()) {
			continue
		}
		for i, pr := range to.Preds {
			if pr == from {
				vals = append(vals, s.content(st, s.eval(st, st.top(), ph.Edges[i])))
			}
		}
	}
	sortTerms(vals)
	for _, v := range vals {
		switch {
		case v.op == "concat" && v.sub[0].op == "phi":
			c.hdrs[to] = true
			c.parts(s, st, v.sub[1:])
		case v.op == "concat" && v.sub[len(v.sub)-1].op == "phi":
			c.r.Bad(c27All, c.at, c.at, "records are put in front of the earlier ones: their order is reversed", st.path(20))
		case v.op == "phi" && c.second && c.hdrs[to]:
			if c.unfit(st) {
				c.note("an iteration writes no record for an element that has no compact form")
			} else {
				c.r.Bad(c27All, c.at, c.p.InstrPos(to.Instrs[0]), "an iteration may write no record although the element has an id and an IPv4 address", st.path(20))
			}
		case v.op == "concat": // the first record
			c.hdrs[to] = true
			c.parts(s, st, v.sub)
		case v.op != "phi":
			c.note("the text built is " + short(v.String(), 100) + ": not decided")
			c.odd = true
		}
	}
}

// entry checks where the fields of an entry were read.
func (c *compact) entry(s *Sim, st *State, v *Term) {
	nodeT := types.Type(nil)
	if t := c.p.NamedType("dht", "NodeInfo"); t != nil {
		nodeT = t
	}
	addr := v
	var base, rec *Term
	undecided := func(what string, t *Term) {
		x := "unknown"
		if t != nil {
			x = short(t.String(), 100)
		}
		c.note(what + " of an entry is " + x + ": where it is read is not decided")
		c.r.Ob(c27Read, c.at)
		c.odd = true
	}
	part := func(t *Term) (b, lo, hi *Term) {
		return c.span(s, st, t)
	}
	eq := func(a, b *Term) bool {
		return a == b || s.entailsLe(st, a, b, 0) && s.entailsLe(st, b, a, 0)
	}
	bad := func(what string, lo, hi *Term) {
		h := "the end"
		if hi != nil {
			h = hi.String()
		}
		c.r.Bad(c27Read, c.at, c.at, fmt.Sprintf("%s of an entry is read from %s to %s, the record starts at %s: this is not where it is written", what, lo, h, rec), st.path(20))
	}
	want := s.tt.Int(0)
	addrT := c.fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	if c.node {
		if nodeT == nil {
			undecided("an entry", v)
			return
		}
		id := s.fieldOf(st, v, nodeT, "Id")
		addr = s.fieldOf(st, v, nodeT, "Addr")
		if id == nil || addr == nil {
			undecided("a field", v)
			return
		}
		addrT = fieldType(nodeT, "Addr")
		var lo, hi *Term
		base, lo, hi = part(id)
		if !c.rooted(base) || hi == nil {
			undecided("the id", id)
			return
		}
		rec = lo
		if !eq(hi, s.add(lo, s.tt.Int(compactId))) {
			bad("the id", lo, hi)
			return
		}
		want = s.add(rec, s.tt.Int(compactId))
	}
	ip, port := s.fieldOf(st, addr, addrT, "IP"), s.fieldOf(st, addr, addrT, "Port")
	if ip == nil || port == nil {
		undecided("the address", addr)
		return
	}
	// storage of its own
	store, again := backing(ip)
	if again && store.op == "phi" {
		c.r.Bad(c27Alias, c.at, c.at, "the address of an entry lies in a buffer that is cut and filled again for the next entry: the entries change together", st.path(20))
		store = addr
	}
	for _, o := range []*Term{v, addr, store} {
		if o.op == "obj" {
			if st.HasL("used", o) {
				c.r.Bad(c27Alias, c.at, c.at, "an entry uses "+o.String()+", which an earlier entry already uses: the entries change together", st.path(20))
			} else {
				c.r.Ob(c27Alias, c.at)
			}
		}
	}
	for _, o := range []*Term{v, addr, store} {
		if o.op == "obj" {
			st.AddL("used", o)
		}
	}
	b, lo, hi := part(ip)
	if x := stripConv(ip); (x.op == "app" || x.op == "res") && shortAux(x.aux) == "net.IPv4" && len(x.sub) == 4 {
		for i := range x.sub {
			bi, p := c.byteAt(s, st, x.sub[i])
			switch {
			case bi == nil:
				undecided("the address", ip)
				return
			case i == 0:
				b, lo, hi = bi, p, s.add(p, s.tt.Int(4))
			case bi != b || !eq(p, s.add(lo, s.tt.Int(int64(i)))):
				bad("the address", lo, p)
				return
			}
		}
	}
	if base == nil {
		base, rec = b, s.tt.Int(0)
	}
	if b != base || hi == nil || !c.node && !c.element(b) {
		undecided("the address", ip)
		return
	}
	if !eq(lo, want) || !eq(hi, s.add(want, s.tt.Int(4))) {
		bad("the address", lo, hi)
		return
	}
	want = s.add(want, s.tt.Int(4))
	pv := stripConv(port)
	switch {
	case pv.op == "conv" && lossy(pv.typ, pv.sub[0].typ):
		c.r.Bad(c27Read, c.at, c.at, "the port of an entry is converted to "+pv.typ.String()+", which cannot hold every port", st.path(20))
		return
	case (pv.op == "app" || pv.op == "res") && strings.Contains(pv.aux, "littleEndian"):
		c.r.Bad(c27Read, c.at, c.at, "the port of an entry is read as little endian, it is written as big endian", st.path(20))
		return
	case (pv.op == "app" || pv.op == "res") && strings.HasPrefix(shortAux(pv.aux), "(encoding/binary.bigEndian).Uint"):
		if !strings.HasPrefix(shortAux(pv.aux), "(encoding/binary.bigEndian).Uint16") {
			bad("the port", want, nil)
			return
		}
		b, lo, _ = part(pv.sub[len(pv.sub)-1])
	case pv.op == "bin" && len(pv.sub) == 2 || pv.op == "add" && len(pv.sub) == 2:
		x, y := pv.sub[0], pv.sub[1]
		if times256(x) == nil {
			x, y = y, x
		}
		up := stripConv(x)
		x = times256(x)
		if x == nil {
			undecided("the port", port)
			return
		}
		for _, t := range []*Term{up, pv} {
			if b := typeBits(t.typ); b < 16 || b == 16 && !isUnsigned(t.typ) {
				c.r.Bad(c27Read, c.at, c.at, "the port of an entry is put together in the type "+t.typ.String()+", which cannot hold every port", st.path(20))
				return
			}
		}
		b0, p0 := c.byteAt(s, st, x)
		b1, p1 := c.byteAt(s, st, y)
		if b0 == nil || b1 != b0 {
			undecided("the port", port)
			return
		}
		if !eq(p1, s.add(p0, s.tt.Int(1))) {
			c.r.Bad(c27Read, c.at, c.at, fmt.Sprintf("the port of an entry is made of the bytes %s and %s: it is written big endian", p0, p1), st.path(20))
			return
		}
		b, lo = b0, p0
	default:
		undecided("the port", port)
		return
	}
	if b != base {
		undecided("the port", port)
		return
	}
	if !eq(lo, want) {
		bad("the port", lo, s.add(lo, s.tt.Int(2)))
		return
	}
	c.r.Ob(c27Read, c.at)

	if c.node {
		if l, ok := s.linear(rec); ok {
			c.rec[l] = true
		} else {
			c.odd = true
		}
		if base != c.param {
			c.shrink[base] = true
		}
	} else {
		lst, ix := elemTerm(stripConv(base))
		if lst == nil {
			c.odd = true
			return
		}
		if l, ok := s.linear(ix); ok {
			c.rec[l] = true
		} else {
			c.odd = true
		}
	}
}

func fieldType(t types.Type, name string) types.Type {
	if str := derefStruct(t); str != nil {
		for i := 0; i < str.NumFields(); i++ {
			if str.Field(i).Name() == name {
				return str.Field(i).Type()
			}
		}
	}
	return nil
}

// times256: x<<8 or x*256, gives x.
func times256(t *Term) *Term {
	t = stripConv(t)
	if len(t.sub) != 2 {
		return nil
	}
	for i := 0; i < 2; i++ {
		if v, ok := t.sub[i].intVal(); ok && (v == 256 && (t.op == "mul" || t.op == "mulw" || t.aux == "*") || v == 8 && t.aux == "<<" && i == 1) {
			return t.sub[1-i]
		}
	}
	return nil
}

// byteAt: the byte of a part of the input.
func (c *compact) byteAt(s *Sim, st *State, t *Term) (b, pos *Term) {
	lst, ix := elemTerm(stripConv(t))
	if lst == nil {
		return nil, nil
	}
	b, lo, _ := c.span(s, st, lst)
	return b, s.add(lo, ix)
}

// span: where a part lies, also when it was copied to a list of its own first.
func (c *compact) span(s *Sim, st *State, t *Term) (b, lo, hi *Term) {
	b, lo, hi = s.span(s.content(st, t))
	for i := 0; i < 4 && (b.op == "append" || b.op == "obj"); i++ {
		ct := s.content(st, b)
		if ct == b || ct.op == "concat" {
			break
		}
		x, l, h := s.span(ct)
		if hi != nil {
			h = s.add(l, hi)
		}
		b, lo, hi = x, s.add(l, lo), h
	}
	return
}

func (c *compact) rooted(b *Term) bool {
	return b == c.param || b.op == "phi" && c.fromParam(b, 4)
}

// element: the base is an element of the list given.
func (c *compact) element(b *Term) bool {
	lst, _ := elemTerm(stripConv(b))
	return lst == c.param
}

// finish: at the end all records were done.
func (c *compact) finish(s *Sim, st *State, res []*Term, write bool) {
	pending := len(st.L["ent"]) > 0
	rule := c27Count
	if write {
		rule = c27All
	}
	if c.odd || len(c.rec) != 1 {
		return
	}
	for l := range c.rec {
		at := c.linked(s, s.ofLinear(l))
		l, _ = s.linear(at)
		n := s.lenTerm(st, c.param)
		room := int64(0)
		if c.node && !write {
			room = compactNode - 1
			if pending {
				room += compactNode
			}
			for b := range c.shrink {
				n = s.lenTerm(st, b)
			}
		} else if pending {
			room = 1
		}
		live := l.x == nil || st.present(l.x)
		ok := s.entailsLe(st, n, at, room)
		if !ok && l.x != nil && c.node && !write && l.k == compactNode && l.off%compactNode == 0 {
			q := s.tt.mk("quo", "", types.Typ[types.Int], n, s.tt.Int(compactNode))
			extra := int64(0)
			if pending {
				extra = 1
			}
			ok = s.entailsLe(st, q, s.add(l.x, s.tt.Int(l.off/compactNode)), extra)
		}
		if !ok && !live { // no iteration was made on this path
			ok = s.entailsLe(st, n, s.tt.Int(0), room)
			if !ok && c.node && !write {
				q := s.tt.mk("quo", "", types.Typ[types.Int], n, s.tt.Int(compactNode))
				ok = s.entailsLe(st, q, s.tt.Int(0), 0)
			}
		}
		if ok {
			c.r.Ob(rule, c.at)
		} else {
			c.r.Bad(rule, c.at, c.at, fmt.Sprintf("the loop may end with the record at %s while the list has length %s: complete records are left out", at, n), st.path(20))
		}
	}
	// a list made beforehand has one entry per record
	if len(c.idx) == 1 && len(res) > 0 && res[0].op != "nil" {
		for l := range c.idx {
			if l.x == nil || !st.present(l.x) {
				continue
			}
			room := int64(0)
			if pending {
				room = 1
			}
			n := s.lenTerm(st, res[0])
			if s.entailsLe(st, n, s.ofLinear(l), room) {
				c.r.Ob(c27Count, c.at)
			} else {
				c.r.Bad(c27Count, c.at, c.at, fmt.Sprintf("the list has %s entries, the loop may end with entry %s still empty", n, s.ofLinear(l)), st.path(20))
			}
		}
	}
}

// progress: records and entries follow one another from the first.
func (c *compact) progress(tt *TermTable, write bool) {
	s := NewSim(c.p, tt, Hooks{}, Opts{Numeric: true})
	rule := c27Count
	if write {
		rule = c27All
	}
	if c.odd || len(c.rec) == 0 {
		if len(c.hdrs) == 0 && !c.odd {
			c.note("no loop that handles one record per iteration is recognised: not decided")
			for _, r := range []string{c27Write, c27Read} {
				c.r.Ob(r, c.at)
			}
		}
		return
	}
	width := int64(1)
	if c.node && !write {
		width = compactNode
	}
	check := func(l linTerm, w int64, what string) {
		if l.x == nil {
			ok := l.off == 0 && len(c.shrink) == 1 && what == "record"
			for b := range c.shrink {
				rec := c.l.m[b]
				if rec == nil {
					continue
				}
				for _, x := range rec.body {
					bb, lo, hi := s.span(unstaleAll(s, x))
					if v, k := lo.intVal(); bb != b || hi != nil || !k || v != w {
						ok = false
					}
				}
			}
			if ok {
				c.r.Ob(rule, c.at)
			} else {
				c.r.Bad(rule, c.at, c.at, fmt.Sprintf("every iteration handles the %s at %d", what, l.off), nil)
			}
			return
		}
		init, step, ok := c.l.step(s, l.x)
		if !ok {
			c.note("the progress of " + l.x.String() + " is not a constant step: the order of the records is not decided")
			return
		}
		switch {
		case init*l.k+l.off == 0 && step*l.k == w:
			c.r.Ob(rule, c.at)
		default:
			c.r.Bad(rule, c.at, c.at, fmt.Sprintf("the %ss handled start at %d and are %d apart, they must start at 0 and be %d apart", what, init*l.k+l.off, step*l.k, w), nil)
		}
	}
	for l := range c.rec {
		check(l, width, "record")
	}
	for l := range c.idx {
		check(l, 1, "entry")
	}
}

func typeBits(t types.Type) int {
	if t == nil {
		return 64
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		}
	}
	return 64
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// unfit: on this path something was found out about the form of the address or the id.
func (c *compact) unfit(st *State) bool {
	form := func(x *Term) bool {
		switch {
		case x.op == "app" || x.op == "res":
			return strings.HasPrefix(shortAux(x.aux), "(net.IP).To")
		case x.op == "len":
			return loadOf(x.sub[0], "IP") != nil || loadOf(x.sub[0], "Id") != nil
		case x.op == "isnil":
			return true
		}
		return false
	}
	for f := range st.facts {
		if f.any(form) {
			return true
		}
	}
	for v := range st.num.vars {
		if v.any(form) {
			return true
		}
	}
	return false
}
