package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09

func isStackCall(n string) bool {
	return n == "runtime/debug.Stack" || n == "runtime.Stack" || n == "runtime/debug.PrintStack" || n == "runtime.Callers" || n == "runtime.Caller" || n == "runtime.CallersFrames"
}

// handlerPanics: boolean fields of *misc.Error that have one value in everything the query handlers panic with.
func (p *Program) handlerPanics(r *Report) map[string]bool {
	et := p.NamedType("misc", "Error")
	vals := map[string]int{} // 1 true, 2 false, 3 either
	if et == nil {
		return nil
	}
	str := et.Underlying().(*types.Struct)
	for _, hf := range p.queryHandlers() {
		var h Hooks
		h.PanicOut = func(s *Sim, st *State, v *Term) {
			if v == nil || v.op != "iface" || v.aux != types.NewPointer(et).String() {
				return
			}
			r.Ob("handler panics", p.FuncName(hf))
			for i := 0; i < str.NumFields(); i++ {
				f := str.Field(i)
				if !isBoolType(f.Type()) {
					continue
				}
				x := s.fieldOf(st, v.sub[0], types.NewPointer(et), f.Name())
				b := 3
				if t, ok := s.truth(st, x); ok {
					b = 2
					if t {
						b = 1
					}
				}
				vals[f.Name()] |= b
			}
		}
		r.explore(p, hf, h, Opts{MaxStates: 20000}, nil)
	}
	out := map[string]bool{}
	for i := 0; i < str.NumFields(); i++ {
		f := str.Field(i)
		if !isBoolType(f.Type()) {
			continue
		}
		switch vals[f.Name()] {
		case 0, 2:
			out[f.Name()] = false
		case 1:
			out[f.Name()] = true
		}
	}
	return out
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func ruleNoStack(p *Program, r *Report) {
	pan := p.handlerPanics(r)
	hasStack := func(s *Sim, st *State, d *Term) bool {
		seen := map[*Term]bool{}
		var walk func(t *Term) bool
		walk = func(t *Term) bool {
			if t == nil || seen[t] {
				return false
			}
			seen[t] = true
			if (t.op == "res" || t.op == "ext" || t.op == "app") && strings.Contains(t.aux, "Stack") && (strings.Contains(t.aux, "runtime") || strings.Contains(t.aux, "debug.")) {
				return true
			}
			for k, v := range st.heap {
				if (k.op == "mapelem" || k.op == "fieldaddr" || k.op == "indexaddr") && k.sub[0] == t && t.op == "obj" && walk(v) {
					return true
				}
			}
			if v := s.content(st, t); v != t && walk(v) {
				return true
			}
			for _, x := range t.sub {
				if walk(x) {
					return true
				}
			}
			return false
		}
		return walk(d)
	}
	for _, root := range p.packetRoots() {
		for _, kind := range []string{"q", "r", "e"} {
			p.packet(r, root, kind, func(pr *packetRun, m *message) {
				pr.panics = pan
				pr.foreign = true
				pr.onEnc = func(s *Sim, st *State, c *CallEv, d *Term) {
					site := p.FuncName(c.Frame.fn)
					r.Ob("no stack trace in a message", site)
					if hasStack(s, st, d) {
						r.Bad("no stack trace in a message", site, p.InstrPos(c.Instr), "what is encoded here can contain a stack trace of this process", st.path(20))
					}
				}
				pr.onSend = func(s *Sim, st *State, c *CallEv, payload, addr, enc *Term) {
					site := p.FuncName(c.Frame.fn)
					r.Ob("no stack trace in a datagram", site)
					if hasStack(s, st, payload) {
						r.Bad("no stack trace in a datagram", site, p.InstrPos(c.Instr), "the datagram can contain a stack trace of this process", st.path(20))
					}
				}
			})
		}
	}
	r.Need("no stack trace in a message", 1)
	// what handlers write
	respField := getterField(p.Method("dht/krpc", "RpcContext", "Response"))
	for _, hf := range p.queryHandlers() {
		var h Hooks
		h.Return = func(s *Sim, st *State, res []*Term) {
			ctx := s.Params[len(s.Params)-1]
			w := unface(s.fieldOf(st, ctx, ctx.typ, respField))
			r.Ob("no stack trace in a reply", p.FuncName(hf))
			if w != nil && hasStack(s, st, w) {
				r.Bad("no stack trace in a reply", p.FuncName(hf), p.Pos(hf.Pos()), "the reply of the handler can contain a stack trace of this process", st.path(20))
			}
		}
		if respField != "" {
			r.explore(p, hf, h, Opts{MaxStates: 20000}, nil)
		}
	}
	// queries
	for _, b := range p.queryBuilders() {
		var h Hooks
		h.Return = func(s *Sim, st *State, res []*Term) {
			r.Ob("no stack trace in a query", p.FuncName(b))
			if hasStack(s, st, unface(res[0])) {
				r.Bad("no stack trace in a query", p.FuncName(b), p.Pos(b.Pos()), "the query can contain a stack trace of this process", st.path(20))
			}
		}
		r.explore(p, b, h, Opts{MaxStates: 5000}, nil)
	}
}

// queryBuilders: functions of dht that make a request.
func (p *Program) queryBuilders() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg != p.Pkg("dht") || f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if f.Signature.Results().Len() == 1 && p.isNamed(f.Signature.Results().At(0).Type(), "dht/krpc", "Request") {
			out = append(out, f)
		}
	}
	return out
}

// C10

func rulePending(p *Program, r *Report) {
	q := p.Method("dht/krpc", "RpcServer", "Query")
	if q == nil {
		r.Bad("anchors", "Query", "?", "(*krpc.RpcServer).Query was not found", nil)
		return
	}
	table := ""
	tables := 0
	var h Hooks
	reqOf := func(s *Sim) *Term {
		for _, a := range s.Params {
			if p.isNamed(orType(a.typ), "dht/krpc", "Request") {
				return a
			}
		}
		return nil
	}
	isReq := func(s *Sim, v *Term) bool {
		v = unface(v)
		for v != nil && v.op == "assert" {
			v = unface(v.sub[0])
		}
		return v != nil && v == reqOf(s)
	}
	note := func(st *State, res []*Term) {
		if len(res) == 1 {
			st.AddL("reqtx", res[0])
		}
	}
	h.Leave = func(s *Sim, st *State, fr *Frame, res []*Term) {
		if fr.fn.Name() == "TxId" {
			note(st, res)
		}
	}
	h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
		if strings.HasSuffix(c.Name, ").TxId") {
			note(st, res)
		}
	}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if pi, _, ok := udpSend(c.Name); ok {
			_ = pi
			site := p.FuncName(c.Frame.fn)
			r.Ob("pending before it is sent", site)
			if tables > 0 || st.F["other"] == 0 {
				if st.F["pend"] == 0 {
					r.Bad("pending before it is sent", site, p.InstrPos(c.Instr), "the datagram leaves before the request is recorded as pending: its answer may not find it", st.path(12))
				}
			}
			return nil
		}
		ev, ok := p.tableCall(c)
		if !ok {
			return nil
		}
		if res := c.Instr.Common().Signature().Results(); res.Len() > 0 && ev.op != "put" {
			st.F["other"] = 1
			return nil
		}
		switch ev.op {
		case "put":
			tables++
			table = memberName(ev.recv)
			site := p.FuncName(c.Frame.fn)
			pos := p.InstrPos(c.Instr)
			r.Ob("pending under its own id", site)
			if !st.HasL("reqtx", ev.key) {
				r.Bad("pending under its own id", site+": key", pos, "the request is recorded under "+ev.key.String()+", which is not its transaction id", st.path(12))
			}
			if !isReq(s, ev.val) {
				r.Bad("pending under its own id", site+": value", pos, "what is recorded as pending is not the request: "+ev.val.String(), st.path(12))
			}
			st.F["pend"] = 1
			st.AddL("key", ev.key)
		case "del":
			if st.HasL("key", ev.key) && memberName(ev.recv) == table {
				st.F["pend"] = 0
			}
		}
		return &Verdict{Opaque: true}
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		if len(res) == 0 || tables == 0 {
			return
		}
		site := p.FuncName(q)
		e := res[len(res)-1]
		nilE, known := s.truth(st, s.tt.mk("isnil", "", nil, e))
		if !known {
			return
		}
		if nilE {
			r.Ob("a sent request stays pending", site)
			if st.F["pend"] == 0 {
				r.Bad("a sent request stays pending", site, p.Pos(q.Pos()), "the query was sent, but it is not pending when Query returns without an error", st.path(12))
			}
			return
		}
		r.Ob("a request that was not sent is forgotten", site)
		if st.F["pend"] == 1 {
			r.Bad("a request that was not sent is forgotten", site, p.Pos(q.Pos()), "Query reports an error, but the request stays pending", st.path(12))
		}
	}
	r.explore(p, q, h, Opts{MaxStates: 20000}, nil)
	r.Need("pending before it is sent", 1)
	if tables == 0 {
		r.Note("the pending requests are not kept in a table this analysis knows: only the order of operations was looked at")
		return
	}
	// nothing else makes requests pending
	reach := p.directReach(q, "dht/krpc")
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().IsInvoke() {
					continue
				}
				op, _, _ := p.tableOp(p.CalleeName(c.Common()))
				if op != "put" || len(c.Common().Args) == 0 || reach[f] {
					continue
				}
				fa, _ := memberOf(c.Common().Args[0])
				if fa != nil && derefStruct(fa.X.Type()).Field(fa.Field).Name() == table {
					r.Bad("only queries become pending", p.FuncName(f), p.InstrPos(in), "a request is recorded as pending outside of Query", nil)
				}
			}
		}
	}
	handlerField := getterField(p.Method("dht/krpc", "BaseRequest", "Handler"))
	reqField := getterField(p.Method("dht/krpc", "RpcContext", "Request"))
	respField := getterField(p.Method("dht/krpc", "RpcContext", "Response"))
	txField := getterField(p.Method("dht/krpc", "BaseResponse", "TxId"))
	bodyField := getterField(p.Method("dht/krpc", "BaseResponse", "Body"))
	for _, root := range p.packetRoots() {
		p.packet(r, root, "r", func(pr *packetRun, m *message) {
			dt := p.NamedType("misc", "Dict")
			m.args = pr.tt.mk("param", "response body#r", dt)
			m.id = pr.tt.mk("param", "sender id#id", types.Typ[types.String])
			pr.onTable = func(s *Sim, st *State, c *CallEv, ev tableEv, found int) {
				if ev.op == "del" && ev.key == m.tx && memberName(ev.recv) == table {
					st.F["gone"] = 1
				}
			}
			pr.handler = func(s *Sim, st *State, c *CallEv, ctx *Term) {
				site := p.FuncName(c.Frame.fn)
				pos := p.InstrPos(c.Instr)
				r.Ob("handler only for a claimed request", site)
				var claim *Term
				how := ""
				for _, g := range st.L["got"] {
					if memberName(g.sub[0]) == table && g.sub[1] == m.tx {
						claim, how = g.sub[2], strings.TrimPrefix(g.op, "attr:got:")
					}
				}
				if claim == nil {
					r.Bad("handler only for a claimed request", site, pos, "a response handler runs although no pending request with the response's transaction id was found", st.path(20))
					return
				}
				if how != "take" {
					r.Bad("handler only for a claimed request", site+": once", pos, "the pending request is not taken out of the table in one step before its handler runs: a second response with the same transaction id is delivered as well", st.path(20))
				}
				rq := unface(claim)
				// the context
				if reqField != "" {
					if v := s.fieldOf(st, ctx, ctx.typ, reqField); v != nil {
						r.Ob("context of a response", site+": request")
						x := unface(v)
						if st.F["ran"] == 0 && x != rq && x != claim && !(x.op == "assert" && unface(x.sub[0]) == rq) {
							r.Bad("context of a response", site+": request", pos, "the request in the handler's context is "+v.String()+", not the one that was claimed", st.path(20))
						}
					}
				}
				if respField != "" && txField != "" && bodyField != "" && st.F["ran"] == 0 {
					w := unface(s.fieldOf(st, ctx, ctx.typ, respField))
					if w != nil && w.op == "obj" && w.typ != nil {
						r.Ob("context of a response", site+": response")
						if t := s.fieldOf(st, w, w.typ, txField); t != nil && t != m.tx {
							r.Bad("context of a response", site+": response id", pos, "the response in the context has the transaction id "+t.String(), st.path(20))
						}
						if b := s.fieldOf(st, w, w.typ, bodyField); b != nil && unface(b) != m.args {
							r.Bad("context of a response", site+": response body", pos, "the response in the context has the body "+b.String(), st.path(20))
						}
					} else if w != nil && (w.isNil() || w.op == "param") {
						r.Bad("context of a response", site+": response", pos, "the context does not hold the response", st.path(20))
					} else {
						r.Note("%s: the response %v in the context is not built here", site, w)
					}
				}
				// whose handler
				own := func(t *Term) bool {
					return t.op == "load" && t.sub[0].op == "fieldaddr" && shortAux(t.sub[0].aux) == handlerField && unface(unassert(t.sub[0].sub[0])) == rq
				}
				if handlerField == "" {
					return
				}
				r.Ob("the request's own handler", site)
				if own(c.FnT) {
					return
				}
				list, ok := p.chainOf(s, st, ctx)
				if !ok {
					if st.F["ran"] == 0 {
						r.Note("%s: the chain of handlers has a form that is not decided", site)
					}
					return
				}
				hit := false
				for _, x := range list {
					hit = hit || own(x)
				}
				if !hit {
					r.Bad("the request's own handler", site, pos, "the handler given with the claimed request is not in the chain that runs", st.path(20))
				}
			}
		})
		p.packet(r, root, "e", func(pr *packetRun, m *message) {
			pr.handler = func(s *Sim, st *State, c *CallEv, ctx *Term) {
				r.Bad("handler only for a claimed request", p.FuncName(c.Frame.fn)+": error", p.InstrPos(c.Instr), "a handler runs for an error message", st.path(20))
			}
			pr.onTable = func(s *Sim, st *State, c *CallEv, ev tableEv, found int) {
				if (ev.op == "del" || ev.op == "take") && ev.key == m.tx && memberName(ev.recv) == table {
					st.F["gone"] = 1
				}
			}
			pr.panicked = func(s *Sim, st *State, v *Term) { st.F["pan"] = 1 }
			pr.exit = func(s *Sim, st *State, how string) {
				if st.F["decoded"] == 0 {
					return
				}
				r.Ob("an error reply ends the request", p.FuncName(root))
				if st.F["gone"] == 0 {
					msg := "an error message is handled, but the request it answers stays pending"
					if st.F["pan"] == 1 {
						msg = "handling an error message can fail before the request it answers stops being pending"
					}
					r.Bad("an error reply ends the request", p.FuncName(root), p.Pos(root.Pos()), msg, st.path(20))
				}
			}
		})
	}
	r.Need("handler only for a claimed request", 1)
	r.Need("an error reply ends the request", 1)
}

func unassert(t *Term) *Term {
	for t != nil && (t.op == "assert" || t.op == "iface" || t.op == "stale") {
		t = t.sub[0]
	}
	return t
}

// chainOf: what the handler chain of a context consists of, in order; parts that are slices stand for all their
// elements. The first element is the base the parts were appended to.
func (p *Program) chainOf(s *Sim, st *State, ctx *Term) ([]*Term, bool) {
	str := derefStruct(ctx.typ)
	if str == nil {
		return nil, false
	}
	for i := 0; i < str.NumFields(); i++ {
		sl, ok := str.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if _, ok := sl.Elem().Underlying().(*types.Signature); !ok {
			continue
		}
		v := s.load(st, s.fieldAddr(ctx, ctx.typ, i), str.Field(i).Type())
		base, parts := flattenAppend(v)
		if base.op == "slice" {
			if max := base.sub[3]; max.op != "none" && max == base.sub[2] {
				// nothing is left of the capacity: appending makes a copy
				parts = append([]*Term{base.sub[0]}, parts...)
				base = s.tt.Nil(nil)
			} else {
				base = base.sub[0]
			}
		}
		switch base.op {
		case "list", "nil", "load":
		case "obj":
			if n, ok := s.lenTerm(st, base).intVal(); !ok || n != 0 {
				return nil, false
			}
		default:
			return nil, false
		}
		if len(parts) == 0 && base.op != "list" && base.op != "load" {
			return nil, false
		}
		if base.op == "list" {
			parts = append(append([]*Term(nil), base.sub...), parts...)
			base = s.tt.Nil(nil)
		}
		return append([]*Term{base}, parts...), true
	}
	return nil, false
}

// C26

// middlewareField: the server field a registration method appends to.
func (p *Program) middlewareField(r *Report, name string) string {
	fn := p.Method("dht/krpc", "RpcServer", name)
	if fn == nil {
		r.Bad("anchors", name, "?", "(*krpc.RpcServer)."+name+" was not found", nil)
		return ""
	}
	field := ""
	var h Hooks
	h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op != "fieldaddr" || addr.sub[0] != s.Params[0] {
			return
		}
		r.Ob("registration order", name)
		f := shortAux(addr.aux)
		base, parts := flattenAppend(val)
		if old := unslice(base); old.op == "load" && old.sub[0] == addr && base.op == "slice" {
			if lo, hi := base.sub[1], base.sub[2]; lo.op != "none" && lo != s.tt.Int(0) || hi.op != "none" && hi != s.lenTerm(st, old) {
				r.Bad("registration order", name, p.InstrPos(in), "only a part of the middlewares that were registered before is kept", st.path(6))
				field = f
				return
			}
		}
		if unslice(base) == s.Params[1] && (len(parts) == 0 || len(parts) == 1 && parts[0].op == "none") {
			r.Bad("registration order", name, p.InstrPos(in), "the middlewares that were registered before are replaced", st.path(6))
			field = f
			return
		}
		if len(parts) == 0 {
			r.Note("%s: the new chain %s has a form that is not decided", name, val)
			field = f
			return
		}
		if base.op == "load" && base.sub[0] == addr && len(parts) == 1 && unslice(parts[0]) == s.Params[1] {
			field = f
			return
		}
		if (base == s.Params[1] || len(parts) > 0 && unslice(parts[0]) == s.Params[1]) && len(parts) > 0 {
			last := parts[len(parts)-1]
			if last.op == "load" && last.sub[0] == addr {
				r.Bad("registration order", name, p.InstrPos(in), "middlewares registered later are put before those registered earlier", st.path(6))
			}
		}
		if len(parts) == 2 && base.op == "obj" || base.isNil() {
			if parts[0].op == "load" && parts[0].sub[0] == addr && unslice(parts[1]) == s.Params[1] {
				field = f
				return
			}
		}
		if base.op == "load" && base.sub[0].op == "fieldaddr" && shortAux(base.sub[0].aux) != f {
			r.Bad("registration order", name+": field", p.InstrPos(in), "the chain "+f+" is replaced by one made from "+shortAux(base.sub[0].aux), st.path(6))
		}
		field = f
	}
	r.explore(p, fn, h, Opts{MaxStates: 2000}, nil)
	return field
}

func unslice(t *Term) *Term {
	for t != nil && (t.op == "slice" || t.op == "stale") {
		t = t.sub[0]
	}
	return t
}

func ruleMiddleware(p *Program, r *Report) {
	fields := map[string]string{"q": p.middlewareField(r, "UseReqHandlerMiddleware"), "r": p.middlewareField(r, "UseRespHandlerMiddleware")}
	if fields["q"] != "" && fields["q"] == fields["r"] {
		r.Bad("separate chains", "registration", "?", "request and response middlewares are kept in the same chain "+fields["q"], nil)
	}
	handlerField := getterField(p.Method("dht/krpc", "BaseRequest", "Handler"))
	for _, root := range p.packetRoots() {
		for _, kind := range []string{"q", "r"} {
			kind := kind
			p.packet(r, root, kind, func(pr *packetRun, m *message) {
				if kind == "r" {
					m.args = pr.tt.mk("param", "response body#r", p.NamedType("misc", "Dict"))
					m.id = pr.tt.mk("param", "sender id#id", types.Typ[types.String])
				}
				pr.handler = func(s *Sim, st *State, c *CallEv, ctx *Term) {
					site := p.FuncName(c.Frame.fn) + " (" + kind + ")"
					pos := p.InstrPos(c.Instr)
					if st.F["ran"] > 0 {
						return
					}
					r.Ob("context per message", site)
					if b := baseObj(ctx); b.op != "obj" {
						r.Bad("context per message", site, pos, "the context "+ctx.String()+" is not made for this message", st.path(16))
					}
					list, ok := p.chainOf(s, st, ctx)
					if !ok {
						r.Note("%s: the chain of handlers has a form that is not decided", site)
						return
					}
					r.Ob("middlewares then handler", site)
					base, parts := list[0], list[1:]
					if base.op == "load" || base.op == "slice" && base.sub[0].op == "load" {
						r.Bad("chain per message", site, pos, "the chain is built by appending to "+base.String()+", which other messages append to as well", st.path(16))
						if base.op == "load" {
							parts = append([]*Term{base}, parts...)
						}
					}
					want := fields[kind]
					other := fields[map[string]string{"q": "r", "r": "q"}[kind]]
					isMW := func(t *Term) string {
						t = unslice(t)
						if t.op == "load" && t.sub[0].op == "fieldaddr" {
							f := shortAux(t.sub[0].aux)
							if f == want || f == other {
								return f
							}
						}
						return ""
					}
					isH := func(t *Term) bool {
						if kind == "q" {
							for _, g := range st.L["got"] {
								if t.any(func(x *Term) bool { return x == unface(g.sub[2]) }) {
									return true
								}
							}
							return false
						}
						return t.op == "load" && t.sub[0].op == "fieldaddr" && shortAux(t.sub[0].aux) == handlerField
					}
					mw, hn, state := 0, 0, ""
					for _, x := range parts {
						f := isMW(x)
						switch {
						case f != "" && f == want:
							if y := unslice(x); unstale(x).op == "slice" {
								a, b := s.lenTerm(st, x), s.lenTerm(st, y)
								if !s.entailsLe(st, b, a, 0) {
									r.Bad("middlewares then handler", site+": part", pos, "the chain contains "+x.String()+" instead of all registered middlewares", st.path(16))
								}
							}
							mw++
							state += "m"
						case f != "":
							r.Bad("separate chains", site, pos, "the chain of this message contains "+f+", which belongs to the other kind of message", st.path(16))
						case isH(x):
							hn++
							state += "h"
						default:
							state += "?"
						}
					}
					if strings.Contains(state, "?") {
						r.Note("%s: a part of the chain is not known", site)
						return
					}
					if want == "" {
						return
					}
					if state != "mh" {
						r.Bad("middlewares then handler", site, pos, "the chain consists of "+describeChain(state)+" instead of the registered middlewares followed by the one handler", st.path(16))
					}
					// the first position
					if i := indexOfCall(c.FnT); i != nil {
						r.Ob("starts at the beginning", site)
						if v, ok := s.constOf(st, i); ok && v != 0 {
							r.Bad("starts at the beginning", site, pos, "the first function that runs is not the first of the chain", st.path(16))
						}
					}
				}
			})
		}
	}
	r.Need("context per message", 2)
	p.nextRule(r)
}

func describeChain(s string) string {
	var out []string
	for _, c := range s {
		if c == 'm' {
			out = append(out, "the middlewares")
		} else {
			out = append(out, "the handler")
		}
	}
	if len(out) == 0 {
		return "nothing"
	}
	return strings.Join(out, ", ")
}

// indexOfCall: the index of the called element in a chain.
func indexOfCall(f *Term) *Term {
	f = unstale(f)
	if f.op == "index" && len(f.sub) == 2 {
		return f.sub[1]
	}
	if f.op == "load" && f.sub[0].op == "indexaddr" {
		return f.sub[0].sub[1]
	}
	return nil
}

func (s *Sim) constOf(st *State, t *Term) (int64, bool) {
	if v, ok := t.intVal(); ok {
		return v, true
	}
	z := s.tt.Int(0)
	hi, lo := s.bound(st, t, z), s.bound(st, z, t)
	return hi, hi < inf && hi == -lo
}

// nextRule: the continuation calls the functions of the chain from the current position on, each once.
func (p *Program) nextRule(r *Report) {
	next := p.Method("dht/krpc", "RpcContext", "Next")
	if next == nil {
		r.Bad("anchors", "Next", "?", "(*krpc.RpcContext).Next was not found", nil)
		return
	}
	name := p.FuncName(next)
	str := derefStruct(next.Params[0].Type())
	pos, chain := -1, -1
	ints := 0
	for i := 0; i < str.NumFields(); i++ {
		t := str.Field(i).Type()
		if isIntType(t) {
			pos = i
			ints++
		}
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if _, ok := sl.Elem().Underlying().(*types.Signature); ok {
				chain = i
			}
		}
	}
	if ints != 1 || chain < 0 {
		r.Note("%s: the context has no single position in a chain, the continuation is not decided", name)
		return
	}
	p.onlyNext(r, next, str, pos, chain)
	var h Hooks
	read := func(s *Sim, st *State) *Term {
		c := s.Params[0]
		return s.load(st, s.fieldAddr(c, c.typ, pos), str.Field(pos).Type())
	}
	prev := func(st *State) *Term {
		if l := st.L["prev"]; len(l) == 1 {
			return l[0]
		}
		return nil
	}
	eq := func(s *Sim, st *State, a, b *Term, c int64) bool { // a == b+c
		return s.entailsLe(st, a, b, c) && s.entailsLe(st, b, a, -c)
	}
	offset := int64(-1)
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if c.Name != "dynamic" {
			return nil
		}
		i := indexOfCall(c.FnT)
		if i == nil {
			r.Note("%s: what is called is not an element of the chain", name)
			return &Verdict{Stop: true}
		}
		at := p.InstrPos(c.Instr)
		r.Ob("position advances by one", name)
		cur := read(s, st)
		d := int64(-1)
		for _, o := range []int64{0, 1} {
			if eq(s, st, cur, i, o) {
				d = o
			}
		}
		if d < 0 {
			r.Bad("position advances by one", name+": position", at, "while a function of the chain runs, the stored position "+cur.String()+" is neither that function's nor the following one: a nested continuation repeats or skips functions", st.path(8))
			return &Verdict{Stop: true}
		}
		if offset < 0 {
			offset = d
		}
		if pv := prev(st); pv != nil {
			want := int64(1) - d
			if !eq(s, st, i, pv, want) {
				r.Bad("position advances by one", name, at, "the function that is called is not the one after the position reached", st.path(8))
				return &Verdict{Stop: true}
			}
		}
		return &Verdict{Outcomes: []Outcome{{Apply: func(t *State) bool {
			cx := s.Params[0]
			a := s.fieldAddr(cx, cx.typ, pos)
			n := s.fresh(t, s.tt.mk("res", "position after the call", str.Field(pos).Type()))
			s.addLe(t, cur, n, 0)
			s.addLe(t, n, s.tt.Int(1<<40), 0)
			t.heap[a] = n
			delete(t.L, "prev")
			t.AddL("prev", n)
			return true
		}}}}
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		r.Ob("ends at the end of the chain", name)
		c := s.Params[0]
		cur := read(s, st)
		l := s.lenTerm(st, s.load(st, s.fieldAddr(c, c.typ, chain), str.Field(chain).Type()))
		// with the position of the running function a return needs the next one to be beyond the end
		if !s.entailsLe(st, l, cur, 0) && offset >= 0 {
			r.Bad("ends at the end of the chain", name, p.Pos(next.Pos()), "the continuation returns although functions of the chain have not run", st.path(8))
		}
	}
	r.explore(p, next, h, Opts{Numeric: true, MaxStates: 3000}, func(s *Sim, st *State) {
		cur := read(s, st)
		s.addLe(st, s.tt.Int(-1), cur, 0)
		s.addLe(st, cur, s.tt.Int(1<<40), 0)
		st.AddL("prev", cur)
	})
	r.Need("position advances by one", 1)
}

// C34

func blockingForHandlers(n string) bool {
	if strings.HasPrefix(n, "net.Dial") || strings.HasPrefix(n, "(*net.Dialer).") || strings.HasPrefix(n, "net.Listen") || strings.HasPrefix(n, "net/http.") || strings.HasPrefix(n, "(*net/http.Client).") || strings.HasPrefix(n, "net.Lookup") || strings.HasPrefix(n, "(*net.Resolver).") {
		return true
	}
	switch n {
	case "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "(net.Conn).Read", "(net.Conn).Write", "(*net.TCPConn).Read", "(*net.TCPConn).Write", "(*net.UDPConn).Read", "(*net.UDPConn).ReadFromUDP", "(*net.UDPConn).ReadFrom", "io.ReadFull", "io.ReadAtLeast", "io.ReadAll", "io.Copy", "io.CopyN", "io/ioutil.ReadAll", "(*bufio.Reader).Read", "(*os/exec.Cmd).Wait", "(*os/exec.Cmd).Run":
		return true
	}
	return false
}

func ruleNoWait(p *Program, r *Report) {
	roots := map[*ssa.Function]bool{}
	var order []*ssa.Function
	add := func(fs []*ssa.Function) {
		for _, f := range fs {
			if !roots[f] {
				roots[f] = true
				order = append(order, f)
			}
		}
	}
	add(p.packetRoots())
	add(p.queryHandlers())
	add(p.respHandlers())
	if len(order) == 0 {
		r.Bad("anchors", "packet handling", "?", "no function that handles a datagram was found", nil)
		return
	}
	type via struct {
		from *ssa.Function
		in   ssa.Instruction
	}
	parent := map[*ssa.Function]via{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	pathTo := func(f *ssa.Function, in ssa.Instruction) []string {
		out := []string{p.InstrPos(in)}
		for i := 0; i < 20; i++ {
			v, ok := parent[f]
			if !ok {
				break
			}
			out = append([]string{p.InstrPos(v.in)}, out...)
			f = v.from
		}
		return out
	}
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		r.Funcs[p.FuncName(f)] = true
		name := p.FuncName(f)
		bad := func(in ssa.Instruction, what string) {
			r.Bad("handlers do not wait", name+": "+what, p.InstrPos(in), "the handling of a message can wait here: "+what, pathTo(f, in))
		}
		next := func(g *ssa.Function, in ssa.Instruction) {
			if g == nil || g.Blocks == nil || seen[g] {
				return
			}
			if !p.InRepo(g) && g.Synthetic == "" || p.isLoggerMethod(g) {
				return
			}
			if _, ok := parent[g]; !ok && !roots[g] {
				parent[g] = via{f, in}
			}
			walk(g)
		}
		for _, b := range f.Blocks {
			if what := polling(p, b); what != "" {
				bad(b.Instrs[len(b.Instrs)-1], "a loop that goes round until "+what+" changes")
			}
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					r.Ob("operations examined", name)
					bad(in, "a send on a channel without a default")
				case *ssa.UnOp:
					if x.Op.String() == "<-" {
						r.Ob("operations examined", name)
						bad(in, "a receive from a channel")
					}
				case *ssa.Select:
					r.Ob("operations examined", name)
					if x.Blocking {
						bad(in, "a select without a default")
					}
				case *ssa.Range:
				case *ssa.Go:
					// runs on its own
				case ssa.CallInstruction:
					n := p.CalleeName(x.Common())
					r.Ob("operations examined", name)
					if blockingForHandlers(n) {
						bad(in, "a call of "+n)
						continue
					}
					if x.Common().IsInvoke() {
						it, ok := x.Common().Value.Type().Underlying().(*types.Interface)
						if ok && it.NumMethods() > 0 {
							for _, g := range p.ImplementationsOf(it, x.Common().Method) {
								next(g, in)
							}
						}
						continue
					}
					if g := x.Common().StaticCallee(); g != nil {
						next(g, in)
						continue
					}
					if _, ok := x.Common().Value.(*ssa.Builtin); ok {
						continue
					}
					if g, _ := funcOf(x.Common().Value); g != nil {
						next(g, in)
						continue
					}
					fs := p.Callees(x)
					sort.Slice(fs, func(i, j int) bool { return p.FuncName(fs[i]) < p.FuncName(fs[j]) })
					for _, g := range fs {
						next(g, in)
					}
				}
			}
		}
	}
	for _, f := range order {
		walk(f)
	}
	r.Need("operations examined", 10)
}

// polling: the block heads a loop that is left only when something that another goroutine
// changes has changed. It gives what that is.
func polling(p *Program, h *ssa.BasicBlock) string {
	body := map[*ssa.BasicBlock]bool{}
	for _, q := range h.Preds {
		if !h.Dominates(q) {
			continue
		}
		w := []*ssa.BasicBlock{q}
		body[h] = true
		for len(w) > 0 {
			b := w[len(w)-1]
			w = w[:len(w)-1]
			if body[b] {
				continue
			}
			body[b] = true
			w = append(w, b.Preds...)
		}
	}
	what := ""
	exits := 0
	for _, b := range h.Parent().Blocks {
		if !body[b] {
			continue
		}
		switch in := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return, *ssa.Panic:
			_ = in
			continue
		}
		out := false
		for _, q := range b.Succs {
			out = out || !body[q]
		}
		if !out {
			continue
		}
		exits++
		cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return ""
		}
		seen := map[ssa.Value]bool{}
		src := ""
		moves := false
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.UnOp:
				if x.Op.String() == "*" || x.Op.String() == "<-" {
					return
				}
				walk(x.X)
			case *ssa.BinOp:
				walk(x.X)
				walk(x.Y)
			case *ssa.Convert:
				walk(x.X)
			case *ssa.ChangeType:
				walk(x.X)
			case *ssa.TypeAssert:
				walk(x.X)
			case *ssa.Extract:
				walk(x.Tuple)
			case *ssa.Next:
				moves = true
			case *ssa.Select:
				if !x.Blocking && body[x.Block()] {
					src = "a channel is ready"
				}
			case *ssa.Phi:
				if x.Block() == h && !isBoolType(x.Type()) {
					moves = true
					return
				}
				for _, e := range x.Edges {
					walk(e)
				}
			case *ssa.Call:
				if !body[x.Block()] {
					return
				}
				n := p.CalleeName(x.Common())
				if g := x.Common().StaticCallee(); g != nil && p.InRepo(g) {
					for _, c := range g.Blocks {
						body[c] = true
						if ret, ok := c.Instrs[len(c.Instrs)-1].(*ssa.Return); ok {
							for _, v := range ret.Results {
								walk(v)
							}
						}
					}
					return
				}
				switch {
				case n == "builtin:len" || n == "builtin:cap":
					if _, ok := x.Call.Args[0].Type().Underlying().(*types.Chan); ok {
						src = "the fill of a channel"
					}
				case strings.Contains(n, "sync/atomic") && strings.Contains(n, "Load"):
					src = "an atomic value"
				case n == "time.Now" || n == "time.Since" || n == "time.Until":
					src = "the time"
				case strings.HasPrefix(n, "(time.Time)."):
					for _, a := range x.Call.Args {
						walk(a)
					}
				}
			}
		}
		walk(cond.Cond)
		if src == "" || moves {
			return ""
		}
		what = src
	}
	if exits == 0 {
		return ""
	}
	return what
}

// onlyNext: the position and the chain of a context are set when it is made, and the
// position by the continuation; nothing else moves it.
func (p *Program) onlyNext(r *Report, next *ssa.Function, str *types.Struct, pos, chain int) {
	const rule = "only the continuation moves the position"
	ctxT := derefType(next.Params[0].Type())
	inNext := map[*ssa.Function]int{}
	var under func(f *ssa.Function) bool
	under = func(f *ssa.Function) bool {
		if f == next {
			return true
		}
		switch inNext[f] {
		case 1:
			return true
		case 2:
			return false
		}
		inNext[f] = 1
		cs := p.directCallers(f)
		if f.Parent() != nil {
			cs = []*ssa.Function{f.Parent()}
		}
		ok := !p.addrTaken[f] || f.Parent() != nil
		for _, c := range cs {
			ok = ok && under(c)
		}
		if !ok {
			inNext[f] = 2
		}
		return ok
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				sto, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := sto.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(derefType(fa.X.Type()), ctxT) || fa.Field != pos && fa.Field != chain {
					continue
				}
				r.Ob(rule, p.FuncName(f))
				if _, fresh := fa.X.(*ssa.Alloc); fresh || under(f) && fa.Field == pos {
					continue
				}
				if len(p.directCallers(f)) == 0 && !p.addrTaken[f] || p.givenFresh(fa.X) {
					continue
				}
				r.Bad(rule, p.FuncName(f), p.InstrPos(in), "the "+str.Field(fa.Field).Name()+" of a context is changed outside of "+p.FuncName(next)+": functions of the chain are skipped or repeated", nil)
			}
		}
	}
}

// givenFresh: a parameter for which every caller gives an object it has just made.
func (p *Program) givenFresh(v ssa.Value) bool {
	pa, ok := v.(*ssa.Parameter)
	if !ok || p.addrTaken[pa.Parent()] {
		return false
	}
	i := -1
	for j, q := range pa.Parent().Params {
		if q == pa {
			i = j
		}
	}
	n := 0
	for _, f := range p.directCallers(pa.Parent()) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() != pa.Parent() {
					continue
				}
				n++
				if _, fresh := c.Common().Args[i].(*ssa.Alloc); !fresh {
					return false
				}
			}
		}
	}
	return n > 0
}
