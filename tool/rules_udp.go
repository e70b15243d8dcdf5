package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "typestate of the receive loop and of closing by path-sensitive simulation: between a failed read and the next one the closed mark is looked at and found unset; the loop ends only when the mark is set; each successful read is queued with exactly the bytes received, their sender and a buffer of its own; closing sets the mark, on every path, before the socket is closed, and closes no channel twice",
		ruleUdpServer)
}

// udpRead classifies a receive operation: positions of the byte count, sender and error results.
func udpRead(n string) (buf, cnt, from, err int, ok bool) {
	switch n {
	case "(*net.UDPConn).ReadFromUDP", "(*net.UDPConn).ReadFrom", "(net.PacketConn).ReadFrom", "(*net.UDPConn).ReadFromUDPAddrPort":
		return 1, 0, 1, 2, true
	case "(*net.UDPConn).ReadMsgUDP":
		return 1, 0, 3, 4, true
	}
	return 0, 0, 0, 0, false
}

func udpClose(n string) bool {
	return n == "(*net.UDPConn).Close" || n == "(*net.conn).Close" || n == "(net.PacketConn).Close" || n == "(net.Conn).Close"
}

func (p *Program) isPacketChan(ch *Term) bool {
	if ch == nil || ch.typ == nil {
		return false
	}
	c, ok := ch.typ.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	return p.isPtrTo(c.Elem(), "dht/krpc", "RecvPacket") || p.isNamed(c.Elem(), "dht/krpc", "RecvPacket")
}

// receivers: functions started as goroutines in which datagrams are read.
func (p *Program) receivers() (out []taskSite) {
	reads := func(f *ssa.Function) bool {
		for g := range p.directReach(f, "dht/krpc") {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if _, _, _, _, ok := udpRead(p.CalleeName(c.Common())); ok {
							return true
						}
					}
				}
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Pkg != p.Pkg("dht/krpc") {
			continue
		}
		for _, t := range p.tasks(f) {
			if t.Go && !seen[t.Fn] && reads(t.Fn) {
				seen[t.Fn] = true
				out = append(out, t)
			}
		}
	}
	return out
}

func ruleUdpServer(p *Program, r *Report) {
	const (
		looks  = "the closed mark is checked after a failed read"
		ends   = "the receive loop ends only when closed"
		queued = "each received datagram is queued"
		exact  = "bytes and sender of the datagram"
		ownbuf = "own buffer per datagram"
		order  = "marked closed before the socket is closed"
		closes = "closing closes the socket"
		again  = "closing again is harmless"
		starts = "open when receiving starts"
	)
	at := newAtomics(p)
	cl := p.Method("dht/krpc", "UdpServer", "Close")
	rs := p.receivers()
	if cl == nil || len(rs) == 0 {
		r.Bad("anchors", "UdpServer", "?", "UdpServer.Close or the goroutine that receives datagrams was not found", nil)
		return
	}
	cells := map[string]bool{} // cells of the mark
	markChans := map[string]bool{}
	isMark := func(cell string, v *Term) bool {
		return v != nil && v.typ != nil && isBoolType(v.typ)
	}
	srv := p.NamedType("dht/krpc", "UdpServer")
	serverField := func(addr *Term) bool {
		if addr.op != "fieldaddr" || srv == nil {
			return false
		}
		return isBoolType(derefTypeOf(addr)) && strings.Contains(addr.aux, "UdpServer")
	}
	for _, rt := range rs {
		fn := rt.Fn
		name := p.FuncName(fn)
		h := Hooks{}
		seenFlag := func(st *State, cell string, v *Term) {
			cells[shortAux(cell)] = true
			st.AddL("flags", v)
		}
		isClosed := func(s *Sim, st *State) bool {
			if st.F["closedknown"] == 1 {
				return true
			}
			for _, v := range st.L["flags"] {
				if t, k := s.truth(st, v); k && t {
					return true
				}
			}
			for c, v := range st.facts {
				if v && c.any(func(x *Term) bool { return strings.Contains(x.aux, "net.ErrClosed") }) {
					return true
				}
			}
			return false
		}
		foundOpen := func(s *Sim, st *State) bool {
			if st.F["flagfalse"] == 1 {
				return true
			}
			for _, v := range st.L["flags"] {
				if t, k := s.truth(st, v); k && !t {
					return true
				}
			}
			for c := range st.facts {
				if c.any(func(x *Term) bool { return strings.Contains(x.aux, "net.ErrClosed") }) {
					return true
				}
			}
			return false
		}
		// the datagram at hand is done with
		done := func(s *Sim, st *State, where string) {
			l := st.L["read"]
			if len(l) != 4 {
				return
			}
			t, k := s.truth(st, s.tt.mk("isnil", "", types.Typ[types.Bool], l[3]))
			if k && t {
				empty := s.entailsLe(st, l[1], s.tt.Int(0), 0)
				if st.F["sent"] == 0 && !empty && !isClosed(s, st) {
					r.Bad(queued, name+": dropped", where, "a datagram that was received without error is not queued", st.path(8))
				}
			} else {
				st.F["failed"] = 1
			}
			delete(st.L, "read")
		}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			if _, _, _, _, ok := udpRead(c.Name); ok {
				done(s, st, p.InstrPos(c.Instr))
				r.Ob(looks, name+": "+p.FuncName(c.Instr.Parent()))
				if st.F["failed"] == 1 && !foundOpen(s, st) {
					r.Bad(looks, name, p.InstrPos(c.Instr), "after a failed read the next one starts without a look at the closed mark: once the socket is closed the loop spins", st.path(8))
				}
				return &Verdict{Opaque: true}
			}
			return at.call(s, st, c, atomicHooks{load: func(s *Sim, st *State, c *CallEv, cell string, v *Term) {
				if isMark(cell, v) {
					seenFlag(st, cell, v)
				}
			}})
		}
		h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
			if c.Name == "errors.Is" && len(res) > 0 && c.Args[1].any(func(x *Term) bool { return strings.Contains(x.aux, "ErrClosed") }) {
				st.AddL("flags", res[0])
				return
			}
			bi, ni, ai, ei, ok := udpRead(c.Name)
			if !ok || len(res) <= ei || len(c.Args) <= bi {
				return
			}
			st.L["read"] = []*Term{c.Args[bi], res[ni], res[ai], res[ei]}
			st.F["sent"], st.F["failed"], st.F["flagfalse"] = 0, 0, 0
			delete(st.L, "flags")
		}
		h.Load = func(s *Sim, st *State, in ssa.Instruction, addr *Term) {
			if serverField(addr) {
				seenFlag(st, addr.aux, s.load(st, addr, derefTypeOf(addr)))
			}
		}
		h.SelectHead = func(s *Sim, st *State, in *ssa.Select, chans []*Term) {
			for _, c := range chans {
				if !p.isPacketChan(c) && !in.Blocking {
					st.F["flagfalse"] = 1
					markChans[c.String()] = true
				}
			}
		}
		h.Recv = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
			if !p.isPacketChan(ch) {
				st.F["closedknown"] = 1
			}
		}
		h.Send = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
			if !p.isPacketChan(ch) {
				return
			}
			l := st.L["read"]
			key := name + ": " + p.FuncName(in.Parent())
			r.Ob(queued, key)
			if len(l) != 4 {
				r.Bad(queued, key+" without read", p.InstrPos(in), "a packet is queued without a datagram having been received", st.path(8))
				return
			}
			if st.F["sent"] > 0 {
				r.Bad(queued, key+" twice", p.InstrPos(in), "a datagram is queued twice", st.path(8))
			}
			st.F["sent"] = 1
			if st.HasL("sentpkt", v) {
				r.Bad(ownbuf, key+" packet", p.InstrPos(in), "the packet object that is queued was queued before: its consumer may see another datagram", st.path(8))
			}
			if v.typ != nil {
				if _, ok := v.typ.Underlying().(*types.Pointer); ok {
					st.L["sentpkt"] = []*Term{v}
				}
			}
			r.Ob(exact, key)
			if t, k := s.truth(st, s.tt.mk("isnil", "", types.Typ[types.Bool], l[3])); !k || !t {
				r.Bad(exact, key+" error", p.InstrPos(in), "a packet is queued although its read may have failed", st.path(8))
			}
			var bt, ad *Term
			if p.isPtrTo(v.typ, "dht/krpc", "RecvPacket") {
				bt, ad = s.fieldOf(st, v, v.typ, "Bytes"), s.fieldOf(st, v, v.typ, "Addr")
			}
			if bt == nil {
				r.Note("the queued packet was not understood")
				return
			}
			if ad != nil && unface(ad) != unface(l[2]) && !ad.has(l[2]) {
				r.Bad(exact, key+" sender", p.InstrPos(in), "the packet does not carry the sender of its datagram", st.path(8))
			}
			n := s.lenTerm(st, bt)
			same := bufOf(bt) == bufOf(l[0])
			if same || bt.op == "slice" {
				if !same {
					r.Bad(exact, key+" buffer", p.InstrPos(in), "the packet's bytes are not those of the buffer the datagram was read into", st.path(8))
				}
				lo := s.tt.Int(0)
				if bt.op == "slice" && bt.sub[1] != nil && bt.sub[1].op != "none" {
					lo = bt.sub[1]
				}
				if z, ok := lo.intVal(); !ok || z != 0 {
					r.Bad(exact, key+" start", p.InstrPos(in), "the packet's bytes do not start where the datagram starts", st.path(8))
				}
				if !(s.entailsLe(st, n, l[1], 0) && s.entailsLe(st, l[1], n, 0)) {
					r.Bad(exact, key+" length", p.InstrPos(in), "the packet's bytes are not limited to the bytes received", st.path(8))
				}
			} else if !(s.entailsLe(st, n, l[1], 0) && s.entailsLe(st, l[1], n, 0)) {
				r.Note("%s: the bytes of the packet are a copy whose length was not decided", name)
			}
		}
		h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) { done(s, st, p.FuncName(from.Parent())) }
		h.Return = func(s *Sim, st *State, res []*Term) {
			r.Ob(ends, name)
			done(s, st, p.Pos(fn.Pos()))
			if !isClosed(s, st) {
				r.Bad(ends, name, p.Pos(fn.Pos()), "the receive loop ends although the server was not found closed", st.path(8))
			}
		}
		h.PanicOut = func(s *Sim, st *State, v *Term) {
			r.Bad(ends, name+": panic", p.Pos(fn.Pos()), "the receive loop ends with a panic", st.path(8))
		}
		r.explore(p, fn, h, Opts{Numeric: true}, nil)
		// a buffer of its own: the ownership rule on this goroutine
		sub := NewReport(r.Prop)
		(&own{p, sub}).check(fn)
		r.Ob(ownbuf, name)
		for _, v := range sub.Violations {
			r.Bad(ownbuf, v.Rule+": "+v.Key, v.Where, v.Message, v.Path)
		}
		// the mark is unset before the goroutine starts
		h = Hooks{}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			return at.call(s, st, c, atomicHooks{store: func(s *Sim, st *State, in ssa.Instruction, cell string, v *Term) {
				// behind a pointer the cell is known by its object only
				if _, bl := v.boolVal(); !cells[shortAux(cell)] && !bl {
					return
				}
				st.F["stored"] = 2
				if b, ok := v.boolVal(); ok && !b {
					st.F["stored"] = 1
				}
			}})
		}
		h.Go = func(s *Sim, st *State, in *ssa.Go, f *Term, args []*Term) {
			if in != rt.In {
				return
			}
			r.Ob(starts, p.FuncName(in.Parent()))
			needs := false
			for c := range cells {
				for k := range at.types {
					if shortAux(k) == c {
						needs = true
					}
				}
			}
			if st.F["stored"] == 2 || needs && st.F["stored"] == 0 {
				r.Bad(starts, p.FuncName(in.Parent()), p.InstrPos(in), "the goroutine that receives is started before the server was marked open", st.path(8))
			}
		}
		r.explore(p, rt.Where, h, Opts{}, nil)
	}
	// closing
	{
		h := Hooks{}
		excl := func(s *Sim, st *State) bool {
			if st.F["once"] == 1 || st.F["won"] == 1 {
				return true
			}
			return st.F["underlock"] == 1
		}
		marked := func(s *Sim, st *State, in ssa.Instruction, cell string, v *Term) {
			if !cells[shortAux(cell)] {
				return
			}
			if b, ok := v.boolVal(); ok && b {
				st.F["closed"] = 1
			} else {
				r.Bad(order, p.FuncName(in.Parent())+": open", p.InstrPos(in), "closing sets the closed mark to something else than true", st.path(8))
			}
		}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			switch lockOp(c.Name) {
			case "lock":
				st.F["held"]++
				return nil
			case "unlock":
				st.F["held"]--
				return nil
			}
			if c.Name == "(*sync.Once).Do" {
				st.F["once"] = 1
			}
			if c.Name == "builtin:close" {
				if p.isPacketChan(c.Args[0]) {
					r.Bad(again, "packet channel", p.InstrPos(c.Instr), "closing closes the channel on which the receiver may be sending: the send panics", st.path(8))
					return nil
				}
				r.Ob(again, p.site(c.Instr, "close"))
				if !excl(s, st) {
					r.Bad(again, p.site(c.Instr, "close"), p.InstrPos(c.Instr), "two callers can both close the channel", st.path(8))
				}
				if markChans[c.Args[0].String()] || len(cells) == 0 {
					st.F["closed"] = 1
				}
				return nil
			}
			if udpClose(c.Name) {
				r.Ob(order, p.FuncName(c.Instr.Parent()))
				if st.F["closed"] == 0 {
					r.Bad(order, p.FuncName(c.Instr.Parent()), p.InstrPos(c.Instr), "the socket is closed before the server is marked closed: the receive loop spins on errors or ends with the wrong reason", st.path(8))
				}
				st.F["conn"] = 1
				// found open first: otherwise a second call gets here as well
				guarded := st.F["won"] == 1 || st.F["once"] == 1 || st.F["connnil"] == 1 || len(cells) == 0
				for _, v := range st.L["flags"] {
					if t, k := s.truth(st, v); k && !t {
						guarded = true
					}
				}
				if !guarded {
					st.F["unguarded"] = 1
				}
				return &Verdict{Opaque: true}
			}
			return at.call(s, st, c, atomicHooks{
				load: func(s *Sim, st *State, c *CallEv, cell string, v *Term) {
					if cells[shortAux(cell)] {
						st.AddL("flags", v)
						if st.F["held"] > 0 {
							st.F["underlock"] = 1
						}
					}
				},
				store: func(s *Sim, st *State, in ssa.Instruction, cell string, v *Term) { marked(s, st, in, cell, v) },
				cas: func(s *Sim, st *State, c *CallEv, cell string, from, to *Term, won bool) {
					if cells[shortAux(cell)] {
						if won {
							st.F["won"] = 1
							st.F["closed"] = 1
						} else {
							st.F["lost"] = 1
						}
					}
				},
			})
		}
		h.Load = func(s *Sim, st *State, in ssa.Instruction, addr *Term) {
			if serverField(addr) && cells[shortAux(addr.aux)] {
				st.AddL("flags", s.load(st, addr, derefTypeOf(addr)))
				if st.F["held"] > 0 {
					st.F["underlock"] = 1
				}
			}
		}
		h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, v *Term) {
			if serverField(addr) {
				marked(s, st, in, addr.aux, v)
			}
			if v.isNil() && addr.op == "fieldaddr" && strings.Contains(addr.aux, "UdpServer") {
				st.F["connnil"] = 1
			}
		}
		h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
			if udpClose(c.Name) && st.F["unguarded"] == 1 && len(res) == 1 {
				st.L["closeerr"] = []*Term{res[0]}
			}
		}
		h.SelectHead = func(s *Sim, st *State, in *ssa.Select, chans []*Term) {
			if in.Blocking {
				return
			}
			if st.F["held"] > 0 {
				st.F["underlock"] = 1
			}
		}
		h.Recv = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
			if !p.isPacketChan(ch) {
				st.F["lost"] = 1
			}
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			r.Ob(closes, p.FuncName(cl))
			if l := st.L["closeerr"]; len(l) == 1 && len(res) == 1 && res[0].has(l[0]) {
				filtered := false
				for c := range st.facts {
					filtered = filtered || c.any(func(x *Term) bool { return strings.Contains(x.aux, "net.ErrClosed") })
				}
				if t, k := s.truth(st, s.tt.mk("isnil", "", types.Typ[types.Bool], l[0])); !filtered && !(k && t) {
					r.Bad(again, p.FuncName(cl)+": result", p.Pos(cl.Pos()), "a second call closes the socket again and returns the error of that: the server is not looked at first whether it is closed already", st.path(8))
				}
			}
			if st.F["conn"] == 1 || st.F["lost"] == 1 || st.F["once"] == 1 {
				return
			}
			for _, v := range st.L["flags"] {
				if t, k := s.truth(st, v); k && t {
					return
				}
			}
			for c, v := range st.facts {
				if v && c.op == "isnil" && c.sub[0].typ != nil && strings.HasSuffix(c.sub[0].typ.String(), "net.UDPConn") {
					return
				}
			}
			r.Bad(closes, p.FuncName(cl), p.Pos(cl.Pos()), "closing returns without having closed the socket of an open server", st.path(8))
		}
		h.PanicOut = func(s *Sim, st *State, v *Term) {
			r.Bad(again, "panic", p.Pos(cl.Pos()), "closing ends with a panic", st.path(8))
		}
		r.explore(p, cl, h, Opts{}, nil)
	}
	// nothing but construction marks the server open again
	ctor := map[*ssa.Function]bool{}
	for _, rt := range rs {
		ctor[rt.Where] = true
	}
	for _, f := range p.Funcs {
		if f.Pkg != p.Pkg("dht/krpc") || ctor[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var cell string
				var val ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && atomicOp(p.CalleeName(c.Common())) == "Store" && len(c.Common().Args) == 2 {
					if fa, _ := memberOf(c.Common().Args[0]); fa != nil {
						cell, val = derefStruct(fa.X.Type()).Field(fa.Field).Name(), c.Common().Args[1]
					}
				} else if s, ok := in.(*ssa.Store); ok {
					if fa, _ := memberOf(s.Addr); fa != nil {
						cell, val = derefStruct(fa.X.Type()).Field(fa.Field).Name(), s.Val
					}
				}
				if val == nil || !cells[cell] {
					continue
				}
				if mi, ok := val.(*ssa.MakeInterface); ok {
					val = mi.X
				}
				if k, ok := val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "false" && p.onlyConstructs(f, ctor) == false {
					r.Bad(again, p.FuncName(f)+": reopened", p.InstrPos(in), "the server is marked open again", nil)
				}
			}
		}
	}
	r.Need(looks, 1)
	r.Need(queued, 1)
	r.Need(exact, 1)
	r.Need(order, 1)
	r.Need(closes, 1)
}

// onlyConstructs: f is called only by constructors.
func (p *Program) onlyConstructs(f *ssa.Function, ctor map[*ssa.Function]bool) bool {
	cs := p.directCallers(f)
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if !ctor[c] {
			return false
		}
	}
	return true
}
