package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "path analysis of the handling of a datagram that decodes to a query: on every path exactly one datagram is sent, to the address of the packet, holding a successfully encoded reply under the query's transaction id; received packets are handed on exactly once; every registered handler writes a reply with the request's transaction id on every path it returns on, and cannot fail in a way that gets no reply", ruleReply)
	register("C08", "must-hold facts at the call of a query handler: a registered handler was found for the query's method and the sender id has length 20; without a handler call only error replies are sent; the handler table is only written with a supported method and a handler that is not nil", ruleValidated)
	register("C09", "flow of the process stack into replies: no value sent or handed to the reply encoder on a query path is computed from a stack trace, and panics raised on handler paths carry no stack", ruleNoStack)
	register("C10", "typestate of pending requests: recorded before the datagram leaves, forgotten when sending fails; a response handler runs only for an entry claimed atomically under the response's transaction id, it is that request's own handler with that request and response in its context; responses and errors remove the entry", rulePending)
	register("C26", "chain construction and position: fresh context and chain per message, registered middlewares first, then the one handler, request and response chains separate; the continuation advances the position by exactly one before each call and ends only at the end of the chain", ruleMiddleware)
	register("C34", "effect analysis: no operation that waits for a channel, a connection, a timer or a work pool is reachable from the handling of a datagram or from a registered handler", ruleNoWait)
}

// packetRun explores the handling of one datagram.
type packetRun struct {
	p        *Program
	m        *message
	tt       *TermTable
	onSend   func(s *Sim, st *State, c *CallEv, payload, addr *Term, enc *Term)
	onEnc    func(s *Sim, st *State, c *CallEv, dict *Term)
	handler  func(s *Sim, st *State, c *CallEv, ctx *Term)
	onTable  func(s *Sim, st *State, c *CallEv, ev tableEv, found int) // found: 1, 0, -1 unknown
	exit     func(s *Sim, st *State, how string)
	call     func(s *Sim, st *State, c *CallEv) *Verdict
	store    func(s *Sim, st *State, in ssa.Instruction, addr, val *Term)
	panicked func(s *Sim, st *State, v *Term)
	panics   map[string]bool // known boolean fields of the errors handlers panic with
	foreign  bool            // handlers may panic with something else than an error of package misc
}

func (p *Program) tableValueType(member string) types.Type {
	var out types.Type
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().IsInvoke() {
					continue
				}
				op, _, v := p.tableOp(p.CalleeName(c.Common()))
				if op != "put" || len(c.Common().Args) <= v {
					continue
				}
				fa, _ := memberOf(c.Common().Args[0])
				if fa == nil || derefStruct(fa.X.Type()).Field(fa.Field).Name() != member {
					continue
				}
				var t types.Type
				switch x := c.Common().Args[v].(type) {
				case *ssa.MakeInterface:
					t = x.X.Type()
				case *ssa.ChangeInterface:
					t = x.X.Type()
				}
				if t == nil || out != nil && !types.Identical(out, t) {
					return nil
				}
				out = t
			}
		}
	}
	return out
}

// implOf: the only repository type behind an interface type.
func (p *Program) implOf(t types.Type) types.Type {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return t
	}
	if it.NumMethods() == 0 {
		return nil
	}
	fs := p.ImplementationsOf(it, it.Method(0))
	if len(fs) != 1 || fs[0].Signature.Recv() == nil {
		return nil
	}
	return fs[0].Signature.Recv().Type()
}

func (r *packetRun) explore(rep *Report, root *ssa.Function) *Sim {
	p := r.p
	respField := getterField(p.Method("dht/krpc", "RpcContext", "Response"))
	var respImpl types.Type
	if t := p.NamedType("dht/krpc", "Response"); t != nil {
		respImpl = p.implOf(t)
	}
	errT := p.NamedType("misc", "Error")
	errField := getterField(p.Method("dht/krpc", "BaseResponse", "Error"))
	var h Hooks
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if r.call != nil {
			if v := r.call(s, st, c); v != nil {
				return v
			}
		}
		if v := r.m.decode(s, st, c); v != nil {
			return v
		}
		if pi, ai, ok := udpSend(c.Name); ok {
			if r.onSend != nil {
				var enc *Term
				pl := s.content(st, c.Args[pi])
				for _, e := range st.L["enc"] {
					if e.sub[0] == pl {
						enc = e
					}
				}
				r.onSend(s, st, c, pl, unface(c.Args[ai]), enc)
			}
			st.F["sent"]++
			if st.F["sent"] > 2 {
				st.F["sent"] = 2
			}
			return nil
		}
		if ev, ok := p.tableCall(c); ok {
			res := c.Instr.Common().Signature().Results()
			if res.Len() == 2 {
				var val *Term
				if t := p.tableValueType(memberName(ev.recv)); t != nil {
					if ct := p.implOf(t); ct != nil {
						val = s.tt.mk("iface", ct.String(), ct, s.tt.mk("param", "stored "+memberName(ev.recv)+"#v", ct))
					}
				}
				if val == nil {
					val = s.tt.mk("param", "stored "+memberName(ev.recv)+"#v", res.At(0).Type())
				}
				if r.onTable != nil {
					r.onTable(s, st, c, ev, -1)
				}
				return &Verdict{Outcomes: []Outcome{
					{Res: []*Term{s.tt.Nil(nil), s.tt.Bool(false)}, Apply: func(t *State) bool {
						if r.onTable != nil {
							r.onTable(s, t, c, ev, 0)
						}
						return true
					}},
					{Res: []*Term{val, s.tt.Bool(true)}, Apply: func(t *State) bool {
						t.AddL("got", s.tt.mk("attr:got:"+ev.op, "", nil, ev.recv, ev.key, val))
						if r.onTable != nil {
							r.onTable(s, t, c, ev, 1)
						}
						return true
					}}}}
			}
			if r.onTable != nil {
				r.onTable(s, st, c, ev, 1)
			}
			return &Verdict{Opaque: true}
		}
		if strings.HasPrefix(c.Name, "(*misc.BytesPool).") {
			return &Verdict{Opaque: true}
		}
		if c.Name == "dynamic" && len(c.Args) == 1 && c.Args[0].typ != nil && p.isPtrTo(c.Args[0].typ, "dht/krpc", "RpcContext") {
			ctx := c.Args[0]
			if r.handler != nil {
				r.handler(s, st, c, ctx)
			}
			mods := map[string]bool{}
			for _, g := range p.FuncValues(c.Instr.Common().Value.Type()) {
				for k := range p.modset[g] {
					mods[k] = true
				}
			}
			for k := range mods {
				if !strings.Contains(k, "RpcContext") {
					delete(mods, k)
				}
			}
			for _, n := range []string{"WriteAs", "Next"} {
				if f := p.Method("dht/krpc", "RpcContext", n); f != nil {
					for k := range p.modset[f] {
						mods[k] = true
					}
				}
			}
			old := map[int]*Term{}
			str := derefStruct(ctx.typ)
			for i := 0; i < str.NumFields(); i++ {
				if isIntType(str.Field(i).Type()) {
					old[i] = s.load(st, s.fieldAddr(ctx, ctx.typ, i), str.Field(i).Type())
				}
			}
			outs := []Outcome{{Apply: func(t *State) bool {
				// the position in the chain only advances (C26)
				defer func() {
					for i, o := range old {
						if n := s.load(t, s.fieldAddr(ctx, ctx.typ, i), str.Field(i).Type()); n != o {
							s.addLe(t, o, n, 0)
							s.addLe(t, n, s.tt.Int(1<<40), 0)
						}
					}
				}()
				s.havoc(t, mods, s.siteID(c.Frame, c.Instr, "handler"))
				if respField != "" && respImpl != nil {
					hr := s.tt.mk("param", "handler reply#r", respImpl)
					fa := s.tt.mk("fieldaddr", respField+"#"+derefType(ctx.typ).String(), nil, ctx)
					for i := 0; i < derefStruct(ctx.typ).NumFields(); i++ {
						if derefStruct(ctx.typ).Field(i).Name() == respField {
							fa = s.fieldAddr(ctx, ctx.typ, i)
						}
					}
					t.heap[fa] = s.tt.mk("iface", respImpl.String(), respImpl, hr)
				}
				if errField != "" && respImpl != nil {
					hr := s.tt.mk("param", "handler reply#r", respImpl)
					rs := derefStruct(respImpl)
					for i := 0; i < rs.NumFields(); i++ {
						if rs.Field(i).Name() == errField {
							// error replies of handlers are complete (checked of each handler)
							t.heap[s.fieldAddr(hr, respImpl, i)] = s.tt.Bool(false)
						}
					}
				}
				t.F["ran"] = 1
				return true
			}}}
			if errT != nil && r.m.kind == "q" {
				et := types.NewPointer(errT)
				pv := s.tt.mk("iface", et.String(), et, s.tt.mk("param", "handler panic#e", et))
				outs = append(outs, Outcome{Panic: pv, Apply: func(t *State) bool {
					es := derefStruct(et)
					for i := 0; i < es.NumFields(); i++ {
						if v, ok := r.panics[es.Field(i).Name()]; ok {
							t.heap[s.fieldAddr(pv.sub[0], et, i)] = s.tt.Bool(v)
						}
					}
					t.F["hpanic"] = 1
					return true
				}})
			}
			if r.foreign {
				txt := s.tt.mk("iface", "string", types.Typ[types.String], s.tt.mk("param", "handler panic text#s", types.Typ[types.String]))
				outs = append(outs, Outcome{Panic: txt})
			}
			return &Verdict{Outcomes: outs}
		}
		return nil
	}
	h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
		if c.Name == "misc.EncodeDict" && len(res) == 2 {
			if r.onEnc != nil {
				r.onEnc(s, st, c, c.Args[0])
			}
			if res[1].isNil() {
				e := s.tt.mk("attr:enc", "", nil, res[0], c.Args[0], s.orNone(s.dictGet(st, c.Args[0], "t")), s.orNone(s.dictGet(st, c.Args[0], "y")))
				st.AddL("enc", e)
			} else {
				st.F["encfail"] = 1
			}
		}
	}
	h.Store = r.store
	if r.panicked != nil {
		h.Panic = func(s *Sim, st *State, in *ssa.Panic, v *Term) { r.panicked(s, st, v) }
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		if r.exit != nil {
			r.exit(s, st, "return")
		}
	}
	h.PanicOut = func(s *Sim, st *State, v *Term) {
		if r.exit != nil {
			r.exit(s, st, "panic")
		}
	}
	return rep.exploreTT(p, r.tt, root, h, Opts{Numeric: true, ImplicitPanics: true, MaxStates: 60000}, nil)
}

func (s *Sim) orNone(t *Term) *Term {
	if t == nil {
		return s.tt.mk("none", "", nil)
	}
	return t
}

// packet makes a simulation that starts with a message of one kind.
func (p *Program) packet(rep *Report, root *ssa.Function, kind string, fill func(r *packetRun, m *message)) {
	tt := NewTermTable()
	m := incoming(p, tt, kind)
	r := &packetRun{p: p, m: m, tt: tt}
	fill(r, m)
	r.explore(rep, root)
}

func ruleReply(p *Program, r *Report) {
	roots := p.packetRoots()
	for _, root := range roots {
		name := p.FuncName(root)
		p.packet(r, root, "q", func(pr *packetRun, m *message) {
			pr.onSend = func(s *Sim, st *State, c *CallEv, payload, addr, enc *Term) {
				site := p.FuncName(c.Frame.fn)
				pos := p.InstrPos(c.Instr)
				r.Ob("one reply", site)
				if st.F["sent"] > 0 {
					r.Bad("one reply", site, pos, "a second datagram is sent for one query", st.path(12))
				}
				if !p.packetAddr(s, st, addr) {
					r.Bad("reply to the sender", site, pos, "the reply is sent to "+addr.String()+", not to the address the query came from", st.path(12))
				}
				if st.F["encfail"] > 0 || enc == nil {
					r.Bad("encoded reply", site, pos, "what is sent is not the result of a successful encoding of a reply", st.path(12))
					return
				}
				t := unface(enc.sub[2])
				r.Ob("own transaction id", site)
				if t != m.tx && !t.any(func(x *Term) bool { return x.op == "param" && strings.HasPrefix(x.aux, "handler reply#") }) {
					r.Bad("own transaction id", site, pos, "the reply carries the transaction id "+t.String(), st.path(12))
				}
				if y, ok := unface(enc.sub[3]).strVal(); ok && y != "r" && y != "e" {
					r.Bad("encoded reply", site+" kind", pos, "the answer to a query is of kind "+y, st.path(12))
				}
			}
			pr.handler = func(s *Sim, st *State, c *CallEv, ctx *Term) {
				site := p.FuncName(c.Frame.fn)
				tx, _, _ := p.contextRequest(s, st, ctx)
				r.Ob("handlers get the query's own id", site)
				if tx == nil && st.F["ran"] == 0 {
					r.Note("%s: the request in the context of the handler is not followed", site)
				} else if tx != nil && tx != m.tx {
					r.Bad("handlers get the query's own id", site, p.InstrPos(c.Instr), "the request that a handler gets, and answers, has the transaction id "+tx.String()+", not that of the query", st.path(12))
				}
			}
			pr.exit = func(s *Sim, st *State, how string) {
				if st.F["decoded"] == 0 {
					return
				}
				r.Ob("every query is answered", name)
				if st.F["sent"] == 0 && st.F["encfail"] == 0 {
					r.Bad("every query is answered", name, p.Pos(root.Pos()), "a query is handled without sending a reply (left by "+how+")", st.path(20))
				}
			}
			pr.store = func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
				b := baseObj(addr)
				if b.op == "obj" || b.op == "hv" || val.isConst() {
					return
				}
				if b.typ != nil && (p.isPtrTo(b.typ, "dht/krpc", "RecvPacket") || p.isPtrTo(b.typ, "dht/krpc", "RpcContext")) {
					return
				}
				if p.packetAddr(s, st, val) || val == m.tx || val == m.dict {
					r.Bad("no shared reply state", p.site(in, shortAux(addr.aux)), p.InstrPos(in), "the message's address or transaction id is kept in memory that other messages use", st.path(12))
				}
			}
		})
	}
	r.Need("one reply", 1)
	r.Need("every query is answered", 1)
	// handlers
	for _, hf := range p.queryHandlers() {
		p.handlerReplies(r, hf)
	}
	r.Need("handler replies", 4)
	p.handedOn(r)
	p.captures(r)
}

// packetAddr: the sender address of the packet being handled.
func (p *Program) packetAddr(s *Sim, st *State, a *Term) bool {
	a = unstale(a)
	isUDP := a.typ != nil && a.typ.String() == "*net.UDPAddr"
	switch a.op {
	case "load":
		f := a.sub[0]
		if f.op == "fieldaddr" && strings.HasPrefix(f.aux, "Addr#") {
			b := unstale(f.sub[0])
			return p.isPtrTo(orType(b.typ), "dht/krpc", "RecvPacket") && (b.op == "param" || b.op == "free" || b.op == "load" && unstale(b.sub[0]).op == "free" || b.op == "recv" || b.op == "load" && b.sub[0].op == "free")
		}
		if f.op == "free" && isUDP {
			return true
		}
	case "param", "free":
		return isUDP
	case "field":
		return isUDP && p.isNamed(orType(a.sub[0].typ), "dht/krpc", "RecvPacket")
	case "obj":
		if !isUDP {
			return false
		}
		ip, port := s.fieldOf(st, a, a.typ, "IP"), s.fieldOf(st, a, a.typ, "Port")
		ok := true
		for _, f := range []*Term{ip, port} {
			f = unstale(f)
			ok = ok && f.op == "load" && f.sub[0].op == "fieldaddr" && p.packetAddr(s, st, f.sub[0].sub[0])
		}
		return ok
	}
	return false
}

func orType(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t
}

// handlerReplies: on every way a handler returns it wrote a response with the request's transaction id.
func (p *Program) handlerReplies(r *Report, hf *ssa.Function) {
	name := p.FuncName(hf)
	respField := getterField(p.Method("dht/krpc", "RpcContext", "Response"))
	txField := getterField(p.Method("dht/krpc", "BaseResponse", "TxId"))
	errField := getterField(p.Method("dht/krpc", "BaseResponse", "Error"))
	bodyField := getterField(p.Method("dht/krpc", "BaseResponse", "Body"))
	if respField == "" || txField == "" || len(hf.Params) == 0 {
		r.Note("%s: the accessors of context or response are not simple, replies of handlers are not decided", name)
		return
	}
	var h Hooks
	h.Leave = func(s *Sim, st *State, fr *Frame, res []*Term) {
		if n := p.FuncName(fr.fn); (n == "(*dht/krpc.BaseRequest).TxId" || strings.HasSuffix(n, "Request).TxId")) && len(res) == 1 {
			st.AddL("reqtx", res[0])
		}
	}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if strings.HasPrefix(c.Name, "(*misc.SyncMap)") || strings.HasPrefix(c.Name, "(*misc.BytesPool)") {
			return &Verdict{Opaque: true}
		}
		return nil
	}
	h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
		if strings.HasSuffix(c.Name, "krpc.Request).TxId") && len(res) == 1 {
			st.AddL("reqtx", res[0])
		}
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		ctx := s.Params[len(s.Params)-1]
		r.Ob("handler replies", name)
		v := s.fieldOf(st, ctx, ctx.typ, respField)
		w := unface(v)
		if w.op == "load" && w.sub[0].op == "fieldaddr" && shortAux(w.sub[0].aux) == respField || w.isNil() {
			r.Bad("handler replies", name, p.Pos(hf.Pos()), "the handler returns without having written a reply", st.path(12))
			return
		}
		if b := bare(w); b.op == "load" && b.any(func(x *Term) bool { return x.op == "global" }) {
			r.Bad("handler reply transaction id", name+": kept", p.Pos(hf.Pos()), "the reply is "+b.String()+", which was made for an earlier query: it carries the transaction id of that one", st.path(12))
			return
		}
		if w.op != "obj" || w.typ == nil {
			r.Note("%s: the reply %s is not built here", name, w)
			return
		}
		tx := s.fieldOf(st, w, w.typ, txField)
		if tx == nil {
			return
		}
		ok := st.HasL("reqtx", tx)
		if !ok {
			// read directly
			ok = tx.any(func(x *Term) bool {
				return x.op == "fieldaddr" && strings.HasPrefix(x.aux, txField+"#") && strings.Contains(x.aux, "Request")
			})
		}
		if !ok {
			r.Bad("handler reply transaction id", name, p.Pos(hf.Pos()), "the reply's transaction id is "+tx.String()+", not that of the request", st.path(12))
		}
		r.Ob("handler reply transaction id", name)
		if bodyField != "" && errField != "" {
			e, b := s.fieldOf(st, w, w.typ, errField), s.fieldOf(st, w, w.typ, bodyField)
			if v, ok := s.truth(st, e); ok && v && b != nil && b.op == "obj" {
				for _, k := range []string{"code", "msg"} {
					if s.dictGet(st, b, k) == nil {
						r.Bad("handler reply is complete", name, p.Pos(hf.Pos()), "the error reply has no "+k, st.path(12))
					}
				}
			}
		}
	}
	h.PanicOut = func(s *Sim, st *State, v *Term) {
		et := p.NamedType("misc", "Error")
		if v != nil && v.op == "iface" && et != nil && v.aux == types.NewPointer(et).String() {
			return
		}
		if v != nil && v.op == "iface" && (strings.HasPrefix(v.aux, "runtime.Error:") || v.typ != nil) {
			r.Bad("handler panics are answered", name, p.Pos(hf.Pos()), "the handler can panic ("+v.String()+") in a way that gets no error reply", st.path(12))
		}
	}
	r.explore(p, hf, h, Opts{Numeric: true, ImplicitPanics: true, MaxStates: 20000}, nil)
}

// handedOn: every received packet is given to exactly one task before the next one is received.
func (p *Program) handedOn(r *Report) {
	listen := p.Method("dht/krpc", "RpcServer", "Listen")
	if listen == nil {
		r.Bad("anchors", "Listen", "?", "(*krpc.RpcServer).Listen was not found", nil)
		return
	}
	isPacket := func(t *Term) bool { return t.typ != nil && p.isPtrTo(t.typ, "dht/krpc", "RecvPacket") }
	give := func(s *Sim, st *State, in ssa.Instruction, f *Term, args []*Term) bool {
		hit := false
		for _, a := range append([]*Term{f}, args...) {
			if a == nil {
				continue
			}
			if a.op == "closure" {
				for _, b := range a.sub {
					if b.any(isPacket) || s.load(st, b, orElem(b.typ)) != nil && s.load(st, b, orElem(b.typ)).any(isPacket) {
						hit = true
					}
				}
			} else if a.any(isPacket) {
				hit = true
			}
		}
		if !hit {
			return false
		}
		r.Ob("packets are handed on", p.FuncName(in.Parent()))
		if st.F["pend"] == 0 && st.F["given"] > 0 {
			r.Bad("packets are handed on", p.FuncName(in.Parent())+" twice", p.InstrPos(in), "one received packet is handed on twice", st.path(12))
		}
		st.F["pend"] = 0
		st.F["given"] = 1
		return true
	}
	var h Hooks
	h.Recv = func(s *Sim, st *State, in ssa.Instruction, ch, v *Term, blocking bool) {
		if !isPacket(v) {
			return
		}
		if st.F["pend"] == 1 {
			r.Bad("packets are handed on", p.FuncName(in.Parent()), p.InstrPos(in), "the next packet is received although the previous one was not handed on", st.path(14))
		}
		st.F["pend"], st.F["given"] = 1, 0
	}
	h.Go = func(s *Sim, st *State, in *ssa.Go, fn *Term, args []*Term) { give(s, st, in, fn, args) }
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if c.Name == "(*misc.WorkPool).AsyncSubmit" {
			give(s, st, c.Instr, c.Args[1], nil)
			return &Verdict{Opaque: true}
		}
		if strings.HasPrefix(c.Name, "misc.") || strings.HasPrefix(c.Name, "(*misc.") || strings.HasPrefix(c.Name, "config.") {
			return &Verdict{Opaque: true}
		}
		if c.Fn != nil && c.Fn.Pkg == p.Pkg("dht/krpc") && p.handlesHere(c.Fn) && give(s, st, c.Instr, nil, c.Args) {
			return &Verdict{Opaque: true}
		}
		return nil
	}
	r.explore(p, listen, h, Opts{MaxStates: 5000}, nil)
	r.Need("packets are handed on", 1)
}

// handlesHere: the function itself decodes what it is given, rather than starting or making something that does.
func (p *Program) handlesHere(fn *ssa.Function) bool {
	for f := range p.directReach(fn, "dht/krpc") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && isDecode(p.CalleeName(c.Common())) {
					return true
				}
			}
		}
	}
	return false
}

func orElem(t types.Type) types.Type {
	if t != nil {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			return pt.Elem()
		}
	}
	return types.Typ[types.Invalid]
}

// captures: a closure that runs later must not share a variable that is assigned again.
func (p *Program) captures(r *Report) {
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg != p.Pkg("dht/krpc") && f.Pkg != p.Pkg("dht") {
			continue
		}
		for _, t := range p.tasks(f) {
			if t.MC == nil {
				continue
			}
			r.Ob("captured variables", p.FuncName(f)+": "+p.FuncName(t.Fn))
			for _, b := range t.MC.Bindings {
				al, ok := b.(*ssa.Alloc)
				if !ok {
					continue
				}
				if st := storeAfter(t.MC, al); st != nil {
					r.Bad("captured variables", p.FuncName(f)+": "+al.Comment, p.InstrPos(st), "the variable "+al.Comment+" is assigned again while the task started earlier still uses it", nil)
				}
			}
		}
	}
}

// storeAfter: a store to al that can run after in without al being created anew.
func storeAfter(in ssa.Instruction, al *ssa.Alloc) *ssa.Store {
	var hit *ssa.Store
	seen := map[*ssa.BasicBlock]bool{}
	scan := func(instrs []ssa.Instruction) bool {
		for _, x := range instrs {
			if x == ssa.Instruction(al) {
				return false
			}
			if s, ok := x.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
				hit = s
				return false
			}
		}
		return true
	}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || hit != nil {
			return
		}
		seen[b] = true
		if scan(b.Instrs) {
			for _, n := range b.Succs {
				walk(n)
			}
		}
	}
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			if scan(b.Instrs[i+1:]) {
				for _, n := range b.Succs {
					walk(n)
				}
			}
		}
	}
	return hit
}

// C08

func ruleValidated(p *Program, r *Report) {
	for _, root := range p.packetRoots() {
		p.packet(r, root, "q", func(pr *packetRun, m *message) {
			pr.handler = func(s *Sim, st *State, c *CallEv, ctx *Term) {
				site := p.FuncName(c.Frame.fn)
				pos := p.InstrPos(c.Instr)
				r.Ob("handler only for validated queries", site)
				found := false
				for _, g := range st.L["got"] {
					found = found || g.sub[1] == m.what
				}
				if !found {
					r.Bad("handler only for validated queries", site+": method", pos, "a handler runs although no handler was found for the method of the query", st.path(16))
				}
				_, method, body := p.contextRequest(s, st, ctx)
				r.Ob("handlers get what was validated", site)
				if method != nil && method != m.what {
					r.Bad("handlers get what was validated", site+": method", pos, "the request that a handler gets is of the method "+method.String()+", not of the one that was looked at", st.path(16))
				}
				if body != nil && body != m.args {
					r.Bad("handlers get what was validated", site+": arguments", pos, "the request that a handler gets has the arguments "+body.String()+", not those whose sender id was looked at", st.path(16))
				}
				// the sender id
				n := s.lenTerm(st, m.id)
				if !s.entailsLe(st, n, s.tt.Int(20), 0) || !s.entailsLe(st, s.tt.Int(20), n, 0) {
					r.Bad("handler only for validated queries", site+": id", pos, "a handler runs although the sender id need not be 20 bytes long", st.path(16))
				}
			}
			m.args = pr.tt.mk("param", "arguments#a", p.NamedType("misc", "Dict"))
			m.id = pr.tt.mk("param", "sender id#id", types.Typ[types.String])
			pr.onSend = func(s *Sim, st *State, c *CallEv, payload, addr, enc *Term) {
				if st.F["ran"] > 0 || enc == nil {
					return
				}
				site := p.FuncName(c.Frame.fn)
				r.Ob("refused queries get an error", site)
				if y, ok := unface(enc.sub[3]).strVal(); !ok || y != "e" {
					r.Bad("refused queries get an error", site, p.InstrPos(c.Instr), "no handler ran, but the reply is of kind "+enc.sub[3].String(), st.path(16))
				}
			}
		})
	}
	r.Need("handler only for validated queries", 1)
	r.Need("refused queries get an error", 1)
	reg := p.Method("dht/krpc", "RpcServer", "RegisteHandler")
	if reg == nil {
		r.Bad("anchors", "RegisteHandler", "?", "(*krpc.RpcServer).RegisteHandler was not found", nil)
		return
	}
	tables := p.supportTables()
	var h Hooks
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if c.Name == "(*misc.List).ContainsString" {
			q := c.Args[1]
			ok := s.tt.mk("app", "supported", types.Typ[types.Bool], c.Args[0], q)
			return &Verdict{Outcomes: []Outcome{{Res: []*Term{ok}}}}
		}
		if ev, ok := p.tableCall(c); ok && ev.op == "put" {
			p.checkRegistration(r, s, st, c.Instr, ev.key, unface(ev.val), tables)
			return &Verdict{Opaque: true}
		}
		return nil
	}
	h.MapUpdate = func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
		if m.op != "obj" {
			p.checkRegistration(r, s, st, in, unface(k), unface(v), tables)
		}
	}
	r.explore(p, reg, h, Opts{MaxStates: 5000}, nil)
	r.Need("registration is guarded", 1)
}

func (p *Program) checkRegistration(r *Report, s *Sim, st *State, in ssa.Instruction, key, val *Term, tables map[string]bool) {
	site := p.FuncName(in.Parent())
	pos := p.InstrPos(in)
	r.Ob("registration is guarded", site)
	q, hd := s.Params[1], s.Params[2]
	if key != q {
		r.Bad("registration is guarded", site+": key", pos, "the handler is stored under "+key.String(), st.path(10))
	}
	if val != hd {
		r.Bad("registration is guarded", site+": handler", pos, "what is stored is not the given handler: "+val.String(), st.path(10))
	}
	if v, ok := s.truth(st, s.tt.mk("isnil", "", nil, hd)); !ok || v {
		r.Bad("registration is guarded", site+": nil", pos, "a handler that may be nil is stored", st.path(10))
	}
	ok := false
	for f, v := range st.facts {
		if !v {
			continue
		}
		if f.op == "app" && f.aux == "supported" && f.sub[1] == q && tables[memberName(f.sub[0])] {
			ok = true
		}
		if f.op == "haskey" && f.sub[1] == q && tables[memberName(f.sub[0])] {
			ok = true
		}
		if (f.op == "lookup") && f.sub[1] == q && tables[memberName(f.sub[0])] {
			ok = true
		}
		if f.op == "eq" && (f.sub[0] == q || f.sub[1] == q) {
			ok = true
		}
	}
	if !ok {
		r.Bad("registration is guarded", site+": supported", pos, "a handler is stored for a method that was not found to be supported", st.path(10))
	}
}

var fourMethods = []string{"announce_peer", "find_node", "get_peers", "ping"}

// globalStrings: the constant strings a package variable is initialised with.
func (p *Program) globalStrings(g *ssa.Global) []string {
	gi := p.globals[g]
	if gi == nil {
		return nil
	}
	var out []string
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 8 {
			return
		}
		seen[v] = true
		if s, ok := constString(v); ok {
			out = append(out, s)
			return
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			walk(x.X, d+1)
		case *ssa.ChangeType:
			walk(x.X, d+1)
		case *ssa.Convert:
			walk(x.X, d+1)
		case *ssa.Slice:
			walk(x.X, d+1)
		case *ssa.Alloc:
			if x.Referrers() == nil {
				return
			}
			for _, r := range *x.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
					for _, q := range *ia.Referrers() {
						if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
							// the same constant may be used twice
							if s, ok := constOf(st.Val); ok {
								out = append(out, s)
							}
						}
					}
				}
			}
		case *ssa.MakeMap:
			if x.Referrers() == nil {
				return
			}
			for _, r := range *x.Referrers() {
				if mu, ok := r.(*ssa.MapUpdate); ok {
					if s, ok := constOf(mu.Key); ok {
						out = append(out, s)
					}
				}
			}
		}
	}
	for _, st := range gi.initStores {
		walk(st.Val, 0)
	}
	sort.Strings(out)
	return out
}

func constOf(v ssa.Value) (string, bool) {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return constString(v)
	}
}

// supportTables: package variables of krpc that list the supported methods.
func (p *Program) supportTables() map[string]bool {
	out := map[string]bool{}
	for g := range p.globals {
		if g.Pkg != p.Pkg("dht/krpc") {
			continue
		}
		for _, s := range p.globalStrings(g) {
			for _, m := range fourMethods {
				if s == m {
					out[shortAux(p.shortGlobal(g))] = true
				}
			}
		}
	}
	return out
}
