package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C35", "path-sensitive simulation of a whole metadata download: a piece is stored only from a data message, under the number in that message, and marked under the same number; both lists are resized together to the number of pieces of the announced size, every number below it is requested, success needs all marks, and the pieces are joined in ascending order; separately, the completeness test returns true only when every mark was found set",
		rulePieces)
}

// lookupKeyed finds an entry of a decoded dictionary in a term.
func lookupKeyed(t *Term, key string) *Term {
	var out *Term
	t.any(func(x *Term) bool {
		if x.op == "lookup" && len(x.sub) > 1 {
			if k, ok := x.sub[1].strVal(); ok && k == key {
				out = x
				return true
			}
		}
		return false
	})
	return out
}

// stripConv removes conversions and assertions around a term.
// stripConv removes conversions, as long as they keep the value of a port or a small number.
func stripConv(t *Term) *Term {
	for (t.op == "conv" || t.op == "assert" || t.op == "iface") && len(t.sub) > 0 {
		if t.op == "conv" && lossy(t.typ, t.sub[0].typ) {
			return t
		}
		t = t.sub[0]
	}
	return t
}

// lossy: the conversion changes values up to 65535, or cuts a signed value to 16 bits and less.
func lossy(to, from types.Type) bool {
	if to == nil || from == nil {
		return false
	}
	a, ok := to.Underlying().(*types.Basic)
	b, ok2 := from.Underlying().(*types.Basic)
	if !ok || !ok2 || a.Info()&types.IsInteger == 0 || b.Info()&types.IsInteger == 0 {
		return false
	}
	switch a.Kind() {
	case types.Int8:
		return b.Kind() != types.Int8
	case types.Int16:
		return b.Kind() != types.Int8 && b.Kind() != types.Int16 && b.Kind() != types.Uint8
	case types.Uint8:
		return b.Kind() != types.Uint8
	}
	return false
}

// isEntry: the value is the entry of the decoded dictionary and nothing else.
func isEntry(t *Term, key string) *Term {
	x := stripConv(t)
	if x.op == "lookup" && len(x.sub) > 1 {
		if k, ok := x.sub[1].strVal(); ok && k == key {
			return x.sub[0]
		}
	}
	return nil
}

// entryIs: the entry of the dictionary is known to have the value.
func (s *Sim) entryIs(st *State, d *Term, key string, v int64) (is, known bool) {
	try := func(x *Term) {
		if y := isEntry(x, key); y == nil || y != d {
			return
		}
		if s.entailsLe(st, x, s.tt.Int(v), 0) && s.entailsLe(st, s.tt.Int(v), x, 0) {
			is, known = true, true
		} else if s.entailsLe(st, x, s.tt.Int(v), -1) || s.entailsLe(st, s.tt.Int(v), x, -1) {
			known = true
		} else if b, k := s.truth(st, s.eqT(x, s.tt.Int(v))); k {
			is, known = b, true
		}
	}
	for x := range st.num.vars {
		try(x)
	}
	for x := range st.facts {
		x.any(func(y *Term) bool {
			if y.op == "assert" || y.op == "conv" {
				try(y)
			}
			return false
		})
	}
	return
}

// sliceOf: a part of a byte sequence, as base and offset.
func (s *Sim) sliceOf(t *Term) (base, lo *Term) {
	lo = s.tt.Int(0)
	for {
		switch t.op {
		case "copy", "alias":
			t = t.sub[0]
		case "slice":
			if t.sub[2].op != "none" {
				return t, lo
			}
			lo = s.add(lo, t.sub[1])
			t = t.sub[0]
		default:
			return t, lo
		}
	}
}

type pieceEnd struct {
	covered map[string]bool // counters that have reached the number of pieces
	path    []string
	where   string
}

// inWhole: an element of a part of a list as an element of the list.
func inWhole(s *Sim, lst, idx *Term) (*Term, *Term) {
	for lst.op == "slice" {
		if lst.sub[1].op != "none" {
			idx = s.add(idx, lst.sub[1])
		}
		lst = lst.sub[0]
	}
	return lst, idx
}

func rulePieces(p *Program, r *Report) {
	const (
		number = "a piece is stored under its own number"
		data   = "the data of the message is stored"
		only   = "only data messages are stored"
		marks  = "marked and stored together"
		count  = "the number of pieces is that of the announced size"
		both   = "pieces and marks are reset together"
		reqs   = "every piece is requested"
		joined = "pieces are joined in ascending order"
		needs  = "success needs all pieces"
		all    = "complete means every mark is set"
		start  = "a download starts incomplete"
	)
	fn := p.Func("dht/peerwire", "FetchMetaData")
	pc := p.NamedType("dht/peerwire", "PeerConn")
	if fn == nil || pc == nil {
		r.Bad("anchors", "FetchMetaData", "?", "peerwire.FetchMetaData or peerwire.PeerConn was not found", nil)
		return
	}
	var pf, ff string
	if str, ok := pc.Underlying().(*types.Struct); ok {
		for i := 0; i < str.NumFields(); i++ {
			switch u := str.Field(i).Type().Underlying().(type) {
			case *types.Slice:
				if isBytesType(u.Elem()) {
					pf = str.Field(i).Name()
				} else if isBoolType(u.Elem()) {
					ff = str.Field(i).Name()
				}
			}
		}
	}
	if pf == "" || ff == "" {
		r.Note("PeerConn does not keep a list of pieces and a list of marks: the bookkeeping is not decided")
		r.Ob("bookkeeping found", "no")
		return
	}
	ptrPC := types.NewPointer(pc)
	isField := func(addr *Term, name string) bool {
		if addr.op != "fieldaddr" || shortAux(addr.aux) != name || addr.sub[0].typ == nil {
			return false
		}
		return types.Identical(addr.sub[0].typ, ptrPC)
	}
	done := p.Method("dht/peerwire", "PeerConn", "CompledMetaData")
	m := &peerMon{p: p, r: r, id: "", fn: fn, done: done}
	li := newLoopInfo()
	blk := map[*Term]*ssa.BasicBlock{}
	type cnt struct {
		phi *Term
		off int64
	}
	reqLoops := map[cnt]string{}
	joins := map[cnt]string{}
	noSend := map[*ssa.BasicBlock][]string{}
	noJoin := map[*ssa.BasicBlock][]string{}
	var ends, rets []pieceEnd
	joinedOnce := false
	key := func(c cnt) string { return c.phi.String() + "+" + s64(c.off) }
	h := Hooks{}
	h.LoopPhi = func(s *Sim, st *State, ph *ssa.Phi, t, in *Term, back bool) {
		li.add(t, in, back)
		if isIntType(ph.Type()) {
			blk[t] = ph.Block()
			st.L["cnt "+phiName(ph)+p.FuncName(ph.Parent())] = []*Term{t}
		}
	}
	isList := func(st *State, x *Term, f string) bool {
		if st.HasL(f, x) {
			return true
		}
		for _, v := range st.L[f] {
			if v.op == "slice" && v.sub[0] == x {
				if lo, ok := v.sub[1].intVal(); v.sub[1].op == "none" || ok && lo == 0 {
					return true
				}
			}
		}
		return false
	}
	h.Load = func(s *Sim, st *State, in ssa.Instruction, addr *Term) {
		for _, f := range []string{pf, ff} {
			if isField(addr, f) {
				if v := s.load(st, addr, derefTypeOf(addr)); !st.HasL(f, v) {
					st.AddL(f, v)
				}
			}
		}
		if addr.op != "indexaddr" {
			return
		}
		lst, idx := inWhole(s, addr.sub[0], addr.sub[1])
		if isList(st, lst, pf) {
			st.L["read piece"] = []*Term{idx, s.load(st, addr, derefTypeOf(addr))}
		}
	}
	// an element of one of the two lists
	elemAddr := func(st *State, addr *Term, f string) *Term {
		if addr.op == "indexaddr" && isList(st, addr.sub[0], f) {
			return addr.sub[1]
		}
		return nil
	}
	h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
		where := p.InstrPos(in)
		for _, f := range []string{pf, ff} {
			if isField(addr, f) && st.F["msgs"] > 0 {
				st.L["new "+f] = []*Term{val}
				st.L["len "+f] = []*Term{s.lenTerm(st, val)}
				delete(st.L, "placed")
				delete(st.L, "marked")
			}
		}
		if idx := elemAddr(st, addr, pf); idx != nil && st.F["msgs"] > 0 {
			d := isEntry(idx, "piece")
			if val.isNil() && d == nil {
				return
			}
			k := p.site(in, "store")
			r.Ob(number, k)
			if d == nil {
				r.Bad(number, k, where, "data is stored under a number that is not the piece number of the message", st.path(8))
				return
			}
			st.AddL("placed", idx)
			r.Ob(only, k)
			if is, known := s.entryIs(st, d, "msg_type", 1); !is || !known {
				r.Bad(only, k, where, "a piece is stored although the message was not found to be a data message", st.path(8))
			}
			if val.isNil() || s.entailsLe(st, s.lenTerm(st, val), s.tt.Int(0), 0) {
				return // a message without data
			}
			r.Ob(data, k)
			c := s.content(st, val)
			base, lo := s.sliceOf(c)
			next := s.afterDict(st, d)
			if next == nil {
				r.Note("%s: where the data of a message starts is not recognised", where)
			} else if !s.entailsLe(st, lo, next, -2) && !s.entailsLe(st, lo, next, 2) || !s.entailsLe(st, lo, next, 2) || !s.entailsLe(st, next, lo, -2) {
				_ = base
				r.Bad(data, k, where, "what is stored for a piece is not what follows the dictionary of its message", st.path(8))
			}
			return
		}
		if idx := elemAddr(st, addr, ff); idx != nil && st.F["msgs"] > 0 {
			if b, ok := val.boolVal(); ok && !b {
				return
			}
			r.Ob(marks, p.site(in, "mark"))
			st.AddL("marked", idx)
		}
	}
	// counters that have reached a bound
	covered := func(s *Sim, st *State, bounds ...*Term) map[string]bool {
		out := map[string]bool{}
		for k, l := range st.L {
			if !strings.HasPrefix(k, "cnt ") || len(l) == 0 {
				continue
			}
			for off := int64(0); off <= 1; off++ {
				for _, b := range bounds {
					if b != nil && s.entailsLe(st, b, s.add(l[0], s.tt.Int(off)), 0) {
						out[key(cnt{l[0], off})] = true
					}
				}
			}
		}
		return out
	}
	last := func(st *State, k string) *Term {
		if l := st.L[k]; len(l) > 0 {
			return l[len(l)-1]
		}
		return nil
	}
	endOfMessage := func(s *Sim, st *State, where string) {
		for _, i := range st.L["marked"] {
			if !st.HasL("placed", i) {
				r.Bad(marks, "marked", where, "a piece is marked as received although no data was stored for it", st.path(10))
			}
		}
		for _, i := range st.L["placed"] {
			if !st.HasL("marked", i) {
				r.Bad(marks, "stored", where, "the data of a piece is stored but the piece is not marked as received", st.path(10))
			}
		}
		pl, fl := last(st, "len "+pf), last(st, "len "+ff)
		if pl != nil || fl != nil {
			r.Ob(both, "handshake")
			if pl == nil || fl == nil || !s.entailsLe(st, pl, fl, 0) || !s.entailsLe(st, fl, pl, 0) {
				r.Bad(both, "handshake", where, "the lists of pieces and of marks are not given the same length", st.path(10))
			} else {
				r.Ob(count, "handshake")
				ok, known := s.ceilPieces(st, fl)
				if !known {
					r.Note("%s: how the number of pieces is computed is not recognised", where)
				} else if !ok {
					r.Bad(count, "handshake", where, "the number of pieces is not the announced size divided by 16 KiB, rounded up", st.path(10))
				}
				ends = append(ends, pieceEnd{covered(s, st, fl), st.path(10), where})
			}
			if nf := last(st, "new "+ff); nf != nil {
				if !s.isFresh(st, baseObj(nf)) && nf.op != "list" {
					r.Note("%s: whether the new marks are all unset is not decided", where)
				}
			}
		}
		for _, k := range []string{"placed", "marked", "len " + pf, "len " + ff, "new " + pf, "new " + ff, "reqpiece", "sent"} {
			delete(st.L, k)
		}
	}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		switch c.Name {
		case "(*misc.BytesPool).GetBySize":
			o := s.fresh(st, s.tt.mk("obj", s.siteID(c.Frame, c.Instr, "pooled"), c.Instr.Common().Signature().Results().At(0).Type()))
			s.addEq(st, s.lenTerm(st, o), c.Args[1])
			return &Verdict{Opaque: true, Outcomes: []Outcome{{Res: []*Term{o}}}}
		case "(*misc.BytesPool).Put":
			return &Verdict{Opaque: true, Outcomes: []Outcome{{}}}
		case "misc.EncodeDict":
			d := c.Args[0]
			pn := s.dictGet(st, d, "piece")
			mt := s.dictGet(st, d, "msg_type")
			delete(st.L, "reqpiece")
			if pn != nil && mt != nil {
				if v, ok := unface(mt).intVal(); ok && v == 0 {
					st.L["reqpiece"] = []*Term{unface(pn)}
				}
			}
		}
		if done != nil && c.Fn == done {
			tr, fa := s.tt.Bool(true), s.tt.Bool(false)
			return &Verdict{Opaque: true, Outcomes: []Outcome{
				{Res: []*Term{tr}, Apply: func(st *State) bool { st.F["complete"] = 1; return true }},
				{Res: []*Term{fa}, Apply: func(st *State) bool { st.F["complete"] = 2; return true }},
			}}
		}
		if len(c.Args) > 0 && st.HasL("conn", c.Args[0]) && strings.HasSuffix(c.Name, ".Write") {
			if q := last(st, "reqpiece"); q != nil {
				r.Ob(reqs, p.site(c.Instr, "request"))
				phi, off := countPhi(q)
				if phi != nil {
					reqLoops[cnt{phi, off}] = p.InstrPos(c.Instr)
				}
				st.AddL("sent", q)
				delete(st.L, "reqpiece")
			}
		}
		if len(c.Args) > 1 && strings.Contains(c.Name, "Read") && !strings.Contains(c.Name, "Deadline") && c.Fn == nil {
			for _, a := range c.Args {
				if a.any(func(x *Term) bool { return st.HasL("conn", x) }) {
					st.F["msgs"] = 1
					for _, k := range stackLoops(p, st)[:min(1, len(stackLoops(p, st)))] {
						st.F["outer:"+k] = 1
					}
				}
			}
		}
		return nil
	}
	joinElem := func(s *Sim, st *State, c *CallEv, e *Term) bool {
		lst, idx := elemTerm(e)
		if lst != nil {
			lst, idx = inWhole(s, lst, idx)
		}
		if lst == nil || !isList(st, lst, pf) {
			l := st.L["read piece"]
			if len(l) != 2 || l[1] != e {
				return false
			}
			idx = l[0]
		}
		r.Ob(joined, p.site(c.Instr, "join"))
		joinedOnce = true
		if phi, off := countPhi(idx); phi != nil {
			joins[cnt{phi, off}] = p.InstrPos(c.Instr)
			st.AddL("joined", idx)
		} else {
			r.Bad(joined, p.site(c.Instr, "join"), p.InstrPos(c.Instr), "the pieces are not joined one after the other", st.path(8))
		}
		return true
	}
	h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
		if d, _ := m.dialled(s, st, c); d && len(res) == 2 {
			st.AddL("conn", res[0])
			return
		}
		switch c.Name {
		case "builtin:append":
			if len(c.Args) != 2 || !isBytesType(c.Args[0].typ) && !c.Args[0].isNil() {
				return
			}
			if lst, _ := elemTerm(c.Args[0]); lst != nil && isList(st, lst, pf) {
				r.Bad(joined, p.site(c.Instr, "join"), p.InstrPos(c.Instr), "what was joined so far is put after the next piece", st.path(8))
				return
			}
			piece := joinElem(s, st, c, c.Args[1])
			switch {
			case piece && c.Args[0].isNil():
				st.AddL("copies", res[0])
			case !piece && st.HasL("copies", c.Args[0]) && !s.entailsLe(st, s.lenTerm(st, c.Args[1]), s.tt.Int(0), 0):
				r.Bad(joined, p.site(c.Instr, "join"), p.InstrPos(c.Instr), "something is put behind a copy of a piece that is not the next piece", st.path(8))
			}
		case "(*bytes.Buffer).Write":
			joinElem(s, st, c, c.Args[1])
		case "bytes.Join":
			if st.HasL(pf, c.Args[0]) {
				r.Ob(joined, p.site(c.Instr, "join"))
				joinedOnce = true
				st.F["joinall"] = 1
				if n := s.lenTerm(st, c.Args[1]); !c.Args[1].isNil() && !s.entailsLe(st, n, s.tt.Int(0), 0) {
					r.Bad(joined, p.site(c.Instr, "join"), p.InstrPos(c.Instr), "the pieces are joined with something between them", st.path(8))
				}
			}
		}
	}
	h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) {
		if st.F["outer:"+hdrID(p, to)] > 0 {
			endOfMessage(s, st, p.InstrPos(to.Instrs[len(to.Instrs)-1]))
			return
		}
		sentHere, joinHere := false, false
		for _, q := range st.L["sent"] {
			if phi, _ := countPhi(q); phi != nil && blk[phi] == to {
				sentHere = true
			}
		}
		for _, q := range st.L["joined"] {
			if phi, _ := countPhi(q); phi != nil && blk[phi] == to {
				joinHere = true
			}
		}
		if !sentHere {
			noSend[to] = append(st.path(10), "")
		}
		if !joinHere {
			noJoin[to] = append(st.path(10), "")
		}
		delete(st.L, "sent")
		delete(st.L, "joined")
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		if len(res) != 2 || s.errState(st, res[1]) == 2 {
			return
		}
		if done != nil {
			r.Ob(needs, "return")
			if st.F["complete"] != 1 {
				r.Bad(needs, "return", p.Pos(fn.Pos()), "success is reported although the pieces were not all found to be there", st.path(10))
			}
		}
		var bs []*Term
		for _, f := range []string{pf, ff} {
			if v := last(st, f); v != nil {
				bs = append(bs, s.lenTerm(st, v))
			}
		}
		if st.F["joinall"] == 0 {
			rets = append(rets, pieceEnd{covered(s, st, bs...), st.path(10), p.Pos(fn.Pos())})
		}
	}
	r.explore(p, fn, h, Opts{Numeric: true}, nil)
	unitFrom0 := func(c cnt) bool {
		init, ok := li.unit(c.phi)
		return ok && init+c.off == 0
	}
	for c, where := range reqLoops {
		if !unitFrom0(c) {
			r.Bad(reqs, "counting", where, "the pieces are not requested one by one from number zero", nil)
		}
		if pth, bad := noSend[blk[c.phi]]; bad {
			r.Bad(reqs, "skipped", where, "a piece number is passed over without being requested", pth[:len(pth)-1])
		}
	}
	for _, e := range ends {
		ok := false
		for c := range reqLoops {
			ok = ok || e.covered[key(c)]
		}
		if !ok {
			r.Bad(reqs, "all", e.where, "after a handshake not every piece number below the number of pieces has been requested", e.path)
		}
	}
	for c, where := range joins {
		if !unitFrom0(c) {
			r.Bad(joined, "counting", where, "the pieces are not joined one by one from number zero", nil)
		}
		if pth, bad := noJoin[blk[c.phi]]; bad {
			r.Bad(joined, "skipped", where, "a piece is passed over when the pieces are joined", pth[:len(pth)-1])
		}
	}
	if len(joins) > 0 {
		for _, e := range rets {
			ok := false
			for c := range joins {
				ok = ok || e.covered[key(c)]
			}
			if !ok {
				r.Bad(joined, "all", e.where, "success is reported although not every piece was joined", e.path)
			}
		}
	}
	if !joinedOnce {
		r.Note("how the pieces are joined is not recognised")
	}
	p.completeTest(r, done, ff, all)
	p.startsIncomplete(r, pc, ff, start)
	r.Need(number, 1)
	r.Need(data, 1)
}

func s64(v int64) string {
	if v == 0 {
		return "0"
	}
	return "1"
}

// afterDict: the position after a decoded dictionary in what it was decoded from.
func (s *Sim) afterDict(st *State, d *Term) *Term {
	if d.op == "ext" && len(d.sub) == 1 && shortAux(d.aux) == "0" {
		return s.tt.mk("ext", "1", types.Typ[types.Int], d.sub[0])
	}
	return nil
}

// ceilPieces: n is the announced size divided by 16 KiB, rounded up.
func (s *Sim) ceilPieces(st *State, n *Term) (ok, known bool) {
	var quo *Term
	n.any(func(x *Term) bool {
		if (x.op == "quo" || x.op == "bin" && (x.aux == "/" || x.aux == ">>")) && len(x.sub) == 2 {
			quo = x
			return true
		}
		return false
	})
	if quo == nil {
		for v := range st.num.vars {
			if v.op == "quo" && lookupKeyed(v, "metadata_size") != nil {
				if b := s.bound(st, n, v); b < 1<<20 && s.bound(st, v, n) == -b {
					quo = v
				}
			}
		}
	}
	if quo == nil {
		return false, false
	}
	sz, k := quo.sub[1].intVal()
	if quo.aux == ">>" {
		sz = 1 << uint(sz)
	}
	if !k {
		return false, false
	}
	if sz != 16*1024 {
		return false, true
	}
	lk := lookupKeyed(quo.sub[0], "metadata_size")
	if lk == nil {
		return false, false
	}
	var size *Term
	quo.sub[0].any(func(x *Term) bool {
		if size == nil && isEntry(x, "metadata_size") != nil && isIntType(x.typ) {
			size = x
		}
		return false
	})
	if size == nil {
		return false, false
	}
	diff := func(a, b *Term) (int64, bool) {
		d := s.bound(st, a, b)
		if d > 1<<40 || d < -1<<40 {
			return 0, false
		}
		return d, s.bound(st, b, a) == -d
	}
	off, ok1 := diff(n, quo)
	add, ok2 := diff(quo.sub[0], size)
	if !ok1 || !ok2 {
		return false, false
	}
	switch {
	case add == sz-1 && off == 0, add == -1 && off == 1:
		return true, true
	case add == 0:
		var rem *Term
		for v := range st.num.vars {
			if (v.op == "rem" || v.op == "bin" && v.aux == "%") && len(v.sub) == 2 && v.sub[0] == quo.sub[0] {
				if w, k := v.sub[1].intVal(); k && w == sz {
					rem = v
				}
			}
		}
		if rem == nil {
			for f := range st.facts {
				f.any(func(v *Term) bool {
					if (v.op == "rem" || v.op == "bin" && v.aux == "%") && len(v.sub) == 2 && v.sub[0] == quo.sub[0] {
						rem = v
					}
					return false
				})
			}
		}
		if rem == nil {
			return false, true
		}
		zero := s.entailsLe(st, rem, s.tt.Int(0), 0)
		if b, k := s.truth(st, s.eqT(rem, s.tt.Int(0))); k && b {
			zero = true
		} else if k && !b && off == 1 {
			return true, true
		}
		if off == 1 && s.entailsLe(st, s.tt.Int(1), rem, 0) || off == 0 && zero {
			return true, true
		}
		return false, true
	}
	return false, true
}

// completeTest: the completeness test looks at every mark.
func (p *Program) completeTest(r *Report, done *ssa.Function, ff, rule string) {
	if done == nil {
		r.Note("the completeness test was not found as a method")
		return
	}
	li := newLoopInfo()
	blk := map[*Term]*ssa.BasicBlock{}
	var flags *Term
	h := Hooks{}
	h.LoopPhi = func(s *Sim, st *State, ph *ssa.Phi, t, in *Term, back bool) {
		li.add(t, in, back)
		if isIntType(ph.Type()) {
			blk[t] = ph.Block()
			st.L["cnt "+phiName(ph)] = []*Term{t}
		}
	}
	h.Load = func(s *Sim, st *State, in ssa.Instruction, addr *Term) {
		if addr.op == "fieldaddr" && shortAux(addr.aux) == ff {
			flags = s.load(st, addr, derefTypeOf(addr))
		}
		if addr.op == "indexaddr" && flags != nil && (addr.sub[0] == flags || baseObj(flags) == addr.sub[0]) {
			st.AddL("seen", s.load(st, addr, derefTypeOf(addr)))
		}
	}
	loops := 0
	h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) {
		loops++
		r.Ob(rule, "loop")
		var e *Term
		for _, x := range st.L["seen"] {
			if _, idx := elemTerm(x); idx != nil {
				if phi, _ := countPhi(idx); phi != nil && blk[phi] == to {
					e = x
				}
			}
		}
		if e == nil {
			st.F["unseen"] = 1
		} else if b, k := s.truth(st, e); !k {
			st.AddL("pending", e)
		} else if !b {
			st.F["unset"] = 1
		}
		var rest []*Term
		for _, x := range st.L["pending"] {
			if b, k := s.truth(st, x); !k {
				rest = append(rest, x)
			} else if !b {
				st.F["unset"] = 1
			}
		}
		st.L["pending"] = rest
		delete(st.L, "seen")
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		if len(res) != 1 {
			return
		}
		where := p.Pos(done.Pos())
		if no := st.clone(); s.assume(no, res[0], false) && !no.dead {
			some := no.F["unset"] > 0
			for t, v := range no.facts {
				if lst, _ := elemTerm(t); !v && lst != nil && lst == flags {
					some = true
				}
			}
			if !some {
				r.Bad(rule, "false", where, "a download counts as incomplete although no mark was found unset", st.path(8))
			}
		}
		st = st.clone()
		if !s.assume(st, res[0], true) || st.dead {
			return
		}
		r.Ob(rule, "true")
		if flags == nil {
			r.Bad(rule, "true", where, "a download counts as complete without a look at the marks", st.path(8))
			return
		}
		n := s.lenTerm(st, flags)
		if s.entailsLe(st, n, s.tt.Int(0), 0) {
			return
		}
		bad := st.F["unset"] > 0 || st.F["unseen"] > 0
		for _, x := range st.L["pending"] {
			if b, k := s.truth(st, x); !k || !b {
				bad = true
			}
		}
		if bad {
			r.Bad(rule, "true", where, "a download counts as complete although a mark was not found set", st.path(8))
			return
		}
		ok := false
		for k, l := range st.L {
			if !strings.HasPrefix(k, "cnt ") || len(l) == 0 {
				continue
			}
			init, unit := li.unit(l[0])
			for off := int64(0); off <= 1; off++ {
				if unit && init+off == 0 && s.entailsLe(st, n, s.add(l[0], s.tt.Int(off)), 0) {
					ok = true
				}
			}
		}
		if !ok {
			r.Bad(rule, "true", p.Pos(done.Pos()), "a download counts as complete although not every mark was looked at", st.path(8))
		}
	}
	r.explore(p, done, h, Opts{Numeric: true}, nil)
}

// startsIncomplete: the marks of a new download are not all set.
func (p *Program) startsIncomplete(r *Report, pc types.Type, ff, rule string) {
	for _, f := range p.Funcs {
		if f.Pkg != p.Pkg("dht/peerwire") || f.Signature.Recv() != nil || f.Parent() != nil || f.Signature.Results().Len() != 1 {
			continue
		}
		rt := f.Signature.Results().At(0).Type()
		if !types.Identical(rt, types.NewPointer(pc)) {
			continue
		}
		fn := f
		h := Hooks{}
		h.Return = func(s *Sim, st *State, res []*Term) {
			v := s.fieldOf(st, res[0], rt, ff)
			if v == nil {
				return
			}
			r.Ob(rule, p.FuncName(fn))
			if !s.entailsLe(st, s.tt.Int(1), s.lenTerm(st, v), 0) {
				r.Bad(rule, p.FuncName(fn), p.Pos(fn.Pos()), "a new download has no mark that is unset, it counts as complete", st.path(8))
				return
			}
			any := v.op != "list"
			for _, e := range v.sub {
				if b, ok := e.boolVal(); v.op == "list" && (!ok || !b) {
					any = true
				}
			}
			if !any {
				r.Bad(rule, p.FuncName(fn), p.Pos(fn.Pos()), "all marks of a new download are set, it counts as complete", st.path(8))
			}
		}
		r.explore(p, fn, h, Opts{Numeric: true}, nil)
	}
}
