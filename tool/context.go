package main

// contextRequest reads what the request in a message's context says of itself: its transaction id,
// method and arguments. A value that cannot be followed is nil.
func (p *Program) contextRequest(s *Sim, st *State, ctx *Term) (tx, method, body *Term) {
	f := getterField(p.Method("dht/krpc", "RpcContext", "Request"))
	if f == "" {
		return
	}
	w := unface(s.fieldOf(st, ctx, ctx.typ, f))
	if w == nil || w.op != "obj" || w.typ == nil {
		return
	}
	read := func(name string) *Term {
		g := getterField(p.Method("dht/krpc", "BaseRequest", name))
		if g == "" || !p.isPtrTo(w.typ, "dht/krpc", "BaseRequest") {
			return nil
		}
		t := bare(unface(s.fieldOf(st, w, w.typ, g)))
		if t.any(func(x *Term) bool { return x.op == "hv" }) {
			return nil // a middleware ran before
		}
		return t
	}
	return read("TxId"), read("Type"), read("Body")
}

// contextAddr is the remote address in a message's context.
func (p *Program) contextAddr(s *Sim, st *State, ctx *Term) *Term {
	f := getterField(p.Method("dht/krpc", "RpcContext", "RemoteAddr"))
	if f == "" {
		return nil
	}
	t := unface(s.fieldOf(st, ctx, ctx.typ, f))
	if t != nil && t.any(func(x *Term) bool { return x.op == "hv" }) {
		return nil
	}
	return t
}
