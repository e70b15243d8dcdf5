package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "agreement of four tables: the constants the supported-method tables are initialised with, the constants handlers are registered under on every path before Listen is called, the constant methods of the query builders, and the methods the response handler executes code of its own for", ruleWired)
	register("C30", "agreement of dictionary keys and kinds of values between the side that builds a message and the side that reads it, and with the keys BEP 5 gives for each method: path analysis of envelope builders, query builders and registered handlers, and a scan of all dictionary reads", ruleKeys)
}

func sameSet(a, b []string) bool {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	n := map[string]bool{}
	for _, x := range b {
		n[x] = true
	}
	if len(m) != len(n) {
		return false
	}
	for x := range m {
		if !n[x] {
			return false
		}
	}
	return true
}

func ruleWired(p *Program, r *Report) {
	// supported
	var tables []string
	for g := range p.globals {
		if g.Pkg != p.Pkg("dht/krpc") {
			continue
		}
		ss := p.globalStrings(g)
		if !p.supportTables()[shortAux(p.shortGlobal(g))] {
			continue
		}
		tables = append(tables, g.Name())
		r.Ob("supported methods", g.Name())
		if !sameSet(ss, fourMethods) {
			r.Bad("supported methods", g.Name(), p.Pos(g.Pos()), "the table of supported methods is {"+strings.Join(ss, ", ")+"}", nil)
		}
	}
	if len(tables) == 0 {
		r.Note("the supported methods are not listed in a package variable; which are supported is not decided")
	}
	// registered
	regs := p.registrations()
	var names []string
	unknown := false
	for _, g := range regs {
		if !g.known {
			unknown = true
			continue
		}
		r.Ob("registered methods", g.method)
		names = append(names, g.method)
		if c, ok := g.in.Common().Args[2].(*ssa.Const); ok && c.IsNil() {
			r.Bad("registered methods", g.method+" nil", p.InstrPos(g.in), "a nil handler is registered for "+g.method, nil)
		}
	}
	if unknown {
		r.Note("handlers are registered under methods that are not constants there; which are registered is decided on the paths only")
	} else if !sameSet(names, fourMethods) {
		sort.Strings(names)
		r.Bad("registered methods", "set", "?", "handlers are registered for {"+strings.Join(names, ", ")+"}", nil)
	}
	listen := p.Method("dht/krpc", "RpcServer", "Listen")
	if listen == nil {
		r.Bad("anchors", "Listen", "?", "(*krpc.RpcServer).Listen was not found", nil)
		return
	}
	started := false
	for _, f := range p.Funcs {
		if f.Pkg != p.Pkg("dht") || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || !p.Reachable(f)[listen] {
			continue
		}
		name := p.FuncName(f)
		var h Hooks
		check := func(st *State, where string) {
			started = true
			r.Ob("registered before listening", name)
			if st.F["dynreg"] > 0 || unknown {
				return
			}
			var miss []string
			for _, m := range fourMethods {
				if st.F["reg:"+m] == 0 {
					miss = append(miss, m)
				}
			}
			if len(miss) > 0 {
				r.Bad("registered before listening", name, where, "the server starts listening before a handler is registered for "+strings.Join(miss, ", "), st.path(10))
			}
		}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			switch {
			case c.Name == "(*dht/krpc.RpcServer).RegisteHandler":
				if m, ok := c.Args[1].strVal(); ok {
					st.F["reg:"+m] = 1
				} else {
					st.F["dynreg"] = 1
				}
				return &Verdict{Opaque: true}
			case c.Fn == listen:
				check(st, p.InstrPos(c.Instr))
				return &Verdict{Opaque: true}
			case c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg != p.Pkg("dht"):
				return &Verdict{Opaque: true}
			}
			return nil
		}
		h.Go = func(s *Sim, st *State, in *ssa.Go, fn *Term, args []*Term) {
			if g := fn.fnOf(); g != nil && (g == listen || p.Reachable(g)[listen]) {
				check(st, p.InstrPos(in))
			}
		}
		r.explore(p, f, h, Opts{MaxStates: 5000}, nil)
	}
	if !started {
		r.Bad("registered before listening", "dht", "?", "no exported function of dht starts the server's receive loop", nil)
	}
	// built
	byMethod := map[string]int{}
	decided := true
	for _, b := range p.queryBuilders() {
		m, ok := p.builderMethod(r, b)
		if !ok {
			decided = false
			r.Note("%s: the method of the query is not a constant", p.FuncName(b))
			continue
		}
		r.Ob("queries for every method", p.FuncName(b))
		byMethod[m]++
	}
	if decided {
		var have []string
		for m := range byMethod {
			have = append(have, m)
		}
		sort.Strings(have)
		if !sameSet(have, fourMethods) {
			r.Bad("queries for every method", "set", "?", "queries are built for {"+strings.Join(have, ", ")+"}", nil)
		}
	}
	// dispatched
	p.dispatch(r)
	p.routed(r)
}

// routed: handlers are looked up under the key they are kept under.
func (p *Program) routed(r *Report) {
	const rule = "handlers are looked up under the key they are kept under"
	reg := p.Method("dht/krpc", "RpcServer", "RegisteHandler")
	if reg == nil || len(reg.Params) != 3 {
		return
	}
	kept, read := map[string]string{}, map[string]string{}
	var h Hooks
	h.MapUpdate = func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
		if v == s.Params[2] || v.any(func(x *Term) bool { return x == s.Params[2] }) {
			if f := keyForm(k, s.Params[1]); f != "" {
				kept[f] = p.InstrPos(in)
			}
		}
	}
	r.explore(p, reg, h, Opts{MaxStates: 5000}, nil)
	for _, root := range p.packetRoots() {
		var h Hooks
		h.MapRead = func(s *Sim, st *State, in ssa.Instruction, m, k *Term) {
			if k == nil {
				return
			}
			var q *Term
			k.any(func(x *Term) bool {
				if (x.op == "assert" || x.op == "ext") && x.typ != nil && isStringType(x.typ) && x.any(func(y *Term) bool {
					if y.op != "lookup" || len(y.sub) < 2 {
						return false
					}
					v, ok := y.sub[1].strVal()
					return ok && v == "q"
				}) {
					q = x
				}
				return q != nil
			})
			if q == nil {
				return
			}
			if f := keyForm(k, q); f != "" {
				read[f] = p.InstrPos(in)
			}
		}
		r.explore(p, root, h, Opts{MaxStates: 5000}, nil)
	}
	if len(kept) == 0 || len(read) == 0 {
		r.Note("the handlers are kept under %d and looked up under %d kinds of keys: whether these agree is not decided", len(kept), len(read))
		return
	}
	var forms []string
	for l := range read {
		forms = append(forms, l)
	}
	sort.Strings(forms)
	for k, kw := range kept {
		r.Ob(rule, "keys")
		if _, ok := read[k]; !ok {
			r.Bad(rule, "keys", read[forms[0]], "a handler is kept under "+k+" ("+kw+") and looked up under "+strings.Join(forms, " or ")+", where the method is written as M: its queries do not find it", nil)
		}
	}
}

// keyForm: how a key is made of the method.
func keyForm(k, method *Term) string {
	k, method = bare(k), bare(method)
	for k != method && (k.op == "app" || k.op == "res") && len(k.sub) > 0 {
		n := shortAux(k.aux)
		if n != "strings.ToLower" && n != "strings.TrimSpace" && n != "strings.Clone" { // without effect on the four methods
			break
		}
		k = bare(k.sub[0])
	}
	if !k.any(func(x *Term) bool { return x == method }) {
		return ""
	}
	return strings.ReplaceAll(k.String(), method.String(), "M")
}

// fnOf: the function a function value stands for.
func (t *Term) fnOf() *ssa.Function {
	for t != nil && t.op == "iface" {
		t = t.sub[0]
	}
	if t == nil {
		return nil
	}
	return t.fn
}

// builderMethod: the method of the request a builder returns.
func (p *Program) builderMethod(r *Report, b *ssa.Function) (string, bool) {
	tf := getterField(p.Method("dht/krpc", "BaseRequest", "Type"))
	if tf == "" {
		return "", false
	}
	m, ok := "", true
	n := 0
	var h Hooks
	h.Return = func(s *Sim, st *State, res []*Term) {
		w := unface(res[0])
		if w.op != "obj" || w.typ == nil {
			ok = false
			return
		}
		v, is := s.fieldOf(st, w, w.typ, tf).strVal()
		if !is || n > 0 && v != m {
			ok = false
			return
		}
		m = v
		n++
	}
	r.explore(p, b, h, Opts{MaxStates: 3000}, nil)
	return m, ok && n > 0
}

// dispatch: a response handler executes code of its own for each method.
func (p *Program) dispatch(r *Report) {
	n := 0
	for _, rh := range p.respHandlers() {
		if rh.Pkg != p.Pkg("dht") && (rh.Parent() == nil || rh.Parent().Pkg != p.Pkg("dht")) {
			continue
		}
		name := p.FuncName(rh)
		sites := map[string]map[string]bool{}
		usesType, dyn := false, false
		for _, m := range append([]string{"no such method", "another method"}, fourMethods...) {
			m := m
			got := map[string]bool{}
			sites[m] = got
			var h Hooks
			h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
				if strings.HasSuffix(c.Name, "krpc.Request).Type") || strings.HasSuffix(c.Name, "krpc.BaseRequest).Type") {
					usesType = true
					st.F["typed"] = 1
					return &Verdict{Outcomes: []Outcome{{Res: []*Term{s.tt.Str(m)}}}}
				}
				if c.Name == "dynamic" {
					dyn = true
				}
				if len(st.frames) == 1 || c.Frame.fn.Pkg == p.Pkg("dht") {
					got[p.InstrPos(c.Instr)+" "+c.Name] = true
				}
				// response handling itself is not looked into
				if c.Fn != nil && c.Fn.Pkg == p.Pkg("dht") && len(st.frames) >= 1 && p.takesCtx(c.Fn) && st.F["typed"] > 0 {
					return &Verdict{Opaque: true}
				}
				if c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg != p.Pkg("dht") {
					return nil
				}
				return nil
			}
			r.explore(p, rh, h, Opts{MaxStates: 5000}, nil)
		}
		if !usesType {
			continue
		}
		n++
		if dyn {
			r.Note("%s: responses are dispatched through function values, which is not decided", name)
			continue
		}
		base := sites["no such method"]
		own := map[string]string{}
		for _, m := range fourMethods {
			var l []string
			for x := range sites[m] {
				if !base[x] {
					l = append(l, x)
				}
			}
			sort.Strings(l)
			r.Ob("responses are dispatched", name+": "+m)
			if len(l) == 0 {
				r.Bad("responses are dispatched", name+": "+m, p.Pos(rh.Pos()), "a response to "+m+" has no handling of its own", nil)
			}
			own[m] = strings.Join(l, " ")
		}
		for i, a := range fourMethods {
			for _, b := range fourMethods[i+1:] {
				if own[a] == own[b] && own[a] != "" {
					r.Bad("responses are dispatched", name+": "+a+" and "+b, p.Pos(rh.Pos()), "responses to "+a+" and to "+b+" are handled by the same code", nil)
				}
			}
		}
	}
	if n == 0 {
		r.Note("no response handler looks at the method of the request: each request may carry its own handler, which is not decided")
	}
}

func (p *Program) takesCtx(f *ssa.Function) bool {
	for _, q := range f.Params {
		if p.isPtrTo(q.Type(), "dht/krpc", "RpcContext") {
			return true
		}
	}
	return false
}

// C30

type keyWant struct {
	key, kind string
	param     int // position of the builder's parameter it is taken from, -1 not checked
}

var queryKeys = map[string][]keyWant{
	"ping":          {{"id", "string", 1}},
	"find_node":     {{"id", "string", 1}, {"target", "string", 2}},
	"get_peers":     {{"id", "string", 1}, {"info_hash", "string", 2}},
	"announce_peer": {{"id", "string", 1}, {"info_hash", "string", 2}, {"port", "int", 4}, {"token", "string", 3}},
}

var replyKeys = map[string][][]string{
	"ping":          {{"id"}},
	"find_node":     {{"id", "nodes"}},
	"get_peers":     {{"id", "token", "nodes"}, {"id", "token", "values"}},
	"announce_peer": {{"id"}},
}

// keyKinds: what is read and written under each key.
var keyKinds = map[string]string{
	"t": "string", "y": "string", "q": "string", "a": "dict", "r": "dict", "e": "list",
	"id": "string", "target": "string", "info_hash": "string", "port": "int", "token": "string",
	"implied_port": "int", "nodes": "string", "values": "list", "code": "int", "msg": "string",
}

func (p *Program) kindOf(t *Term) string {
	if t == nil || t.op != "iface" {
		return ""
	}
	switch {
	case t.aux == "string":
		return "string"
	case t.aux == "int":
		return "int"
	case p.isNamed(orType(t.typ), "misc", "Dict"):
		return "dict"
	case p.isNamed(orType(t.typ), "misc", "List"):
		return "list"
	}
	return t.aux
}

func ruleKeys(p *Program, r *Report) {
	tx := getterField(p.Method("dht/krpc", "BaseRequest", "TxId"))
	qt := getterField(p.Method("dht/krpc", "BaseRequest", "Type"))
	qb := getterField(p.Method("dht/krpc", "BaseRequest", "Body"))
	rtx := getterField(p.Method("dht/krpc", "BaseResponse", "TxId"))
	rb := getterField(p.Method("dht/krpc", "BaseResponse", "Body"))
	re := getterField(p.Method("dht/krpc", "BaseResponse", "Error"))
	if tx == "" || qt == "" || qb == "" || rtx == "" || rb == "" || re == "" {
		r.Note("the accessors of requests or responses are not simple, messages are not decided")
	} else {
		p.envelope(r, "BaseRequest", map[string]string{"t": tx, "q": qt, "a": qb}, "q", "")
		p.envelope(r, "BaseResponse", map[string]string{"t": rtx, "r": rb}, "r", re)
		p.queryBodies(r, tx, qt, qb)
		p.replyBodies(r, rb, re)
	}
	p.dictReads(r)
}

func isFieldLoad(t *Term, field string) bool {
	t = unface(t)
	return t.op == "load" && t.sub[0].op == "fieldaddr" && shortAux(t.sub[0].aux) == field
}

// envelope: the dictionary a message is sent as.
func (p *Program) envelope(r *Report, typ string, fields map[string]string, y, errField string) {
	raw := p.Method("dht/krpc", typ, "RawData")
	if raw == nil {
		r.Bad("anchors", typ+".RawData", "?", "(*krpc."+typ+").RawData was not found", nil)
		return
	}
	name := p.FuncName(raw)
	var h Hooks
	h.Return = func(s *Sim, st *State, res []*Term) {
		d := res[0]
		if d.op != "obj" {
			r.Note("%s: the dictionary %s is not made here", name, d)
			return
		}
		keys, exact := s.dictKeys(st, d)
		if !exact {
			r.Note("%s: keys that are not constants", name)
			return
		}
		r.Ob("envelope", name)
		isErr := false
		if errField != "" {
			e := s.fieldOf(st, s.Params[0], s.Params[0].typ, errField)
			v, ok := s.truth(st, e)
			if !ok {
				r.Bad("envelope", name, p.Pos(raw.Pos()), "the message does not depend on whether it is an error", st.path(6))
				return
			}
			isErr = v
		}
		want := []string{"t", "y"}
		for k := range fields {
			if k != "t" && !isErr {
				want = append(want, k)
			}
		}
		wy := y
		if isErr {
			want = append(want, "e")
			wy = "e"
		}
		if !sameSet(keys, want) {
			have := map[string]bool{}
			for _, k := range keys {
				have[k] = true
			}
			for _, k := range want {
				if !have[k] {
					r.Bad("envelope", name+": "+k, p.Pos(raw.Pos()), "a message of kind "+wy+" is built without the key "+k+" (it has "+strings.Join(keys, ", ")+")", st.path(6))
				}
			}
		}
		if v, ok := unface(s.orNone(s.dictGet(st, d, "y"))).strVal(); ok && v != wy {
			r.Bad("envelope", name+": kind", p.Pos(raw.Pos()), "a message of kind "+wy+" is marked as "+v, st.path(6))
		} else if yv := s.dictGet(st, d, "y"); !ok && yv != nil {
			for k := range fields {
				if v := s.dictGet(st, d, k); v != nil && yv.has(unface(v)) {
					r.Bad("envelope", name+": kind", p.Pos(raw.Pos()), "a message of kind "+wy+" is marked with a text made from its "+k, st.path(6))
				}
			}
		}
		for k, f := range fields {
			v := s.dictGet(st, d, k)
			if v == nil || k != "t" && isErr {
				continue
			}
			if !isFieldLoad(v, f) {
				r.Bad("envelope", name+": value of "+k, p.Pos(raw.Pos()), "the value written under "+k+" is "+v.String()+", not the message's "+f, st.path(6))
			}
			if kd := p.kindOf(v); kd != keyKinds[k] && kd != "" {
				r.Bad("envelope", name+": value of "+k, p.Pos(raw.Pos()), "the value written under "+k+" is a "+kd+", read as a "+keyKinds[k], st.path(6))
			}
		}
		if isErr {
			l := s.dictGet(st, d, "e")
			if l == nil {
				return
			}
			els, ok := s.listElems(st, unface(l))
			if !ok {
				r.Note("%s: the list of the error is not decided", name)
				return
			}
			r.Ob("error list", name)
			good := len(els) == 2
			if good {
				k0, k1 := p.kindOf(els[0]), p.kindOf(els[1])
				good = k0 == "int" && k1 == "string"
			}
			if !good {
				r.Bad("error list", name, p.Pos(raw.Pos()), "the error is not a list of a number and a text", st.path(6))
			}
		}
	}
	r.explore(p, raw, h, Opts{MaxStates: 3000}, nil)
	r.Need("envelope", 1)
}

// listElems: the elements of a list made here.
func (s *Sim) listElems(st *State, l *Term) ([]*Term, bool) {
	if l.op == "list" {
		return l.sub, true
	}
	arr := l
	if l.op == "slice" {
		arr = l.sub[0]
	}
	n, ok := s.lenTerm(st, l).intVal()
	if !ok || n > 100 {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n; i++ {
		var v *Term
		for k, x := range st.heap {
			if k.op == "indexaddr" && k.sub[0] == arr {
				if j, ok := k.sub[1].intVal(); ok && j == i {
					v = x
				}
			}
		}
		if v == nil {
			return nil, false
		}
		out = append(out, v)
	}
	return out, true
}

func (p *Program) queryBodies(r *Report, tx, qt, qb string) {
	for _, b := range p.queryBuilders() {
		b := b
		name := p.FuncName(b)
		var h Hooks
		h.Return = func(s *Sim, st *State, res []*Term) {
			w := unface(res[0])
			if w.op != "obj" || w.typ == nil {
				r.Note("%s: the request is not built here", name)
				return
			}
			m, ok := s.fieldOf(st, w, w.typ, qt).strVal()
			if !ok {
				return
			}
			if t := s.fieldOf(st, w, w.typ, tx); t != s.Params[0] && t.op == "param" {
				r.Bad("query arguments", name+": t", p.Pos(b.Pos()), "the transaction id of the query is "+t.String(), st.path(6))
			}
			d := unface(s.fieldOf(st, w, w.typ, qb))
			if d.op != "obj" {
				r.Note("%s: the arguments %s are not made here", name, d)
				return
			}
			keys, exact := s.dictKeys(st, d)
			for _, want := range queryKeys[m] {
				r.Ob("query arguments", name+": "+want.key)
				v := s.dictGet(st, d, want.key)
				if v == nil {
					if exact {
						r.Bad("query arguments", name+": "+want.key, p.Pos(b.Pos()), "a "+m+" query is built without "+want.key+" (it has "+strings.Join(keys, ", ")+")", st.path(6))
					}
					continue
				}
				if k := p.kindOf(v); k != "" && k != want.kind {
					r.Bad("query arguments", name+": kind of "+want.key, p.Pos(b.Pos()), want.key+" is written as a "+k, st.path(6))
				}
				x := unface(v)
				if x.op == "param" && want.param < len(s.Params) && x != s.Params[want.param] && types.Identical(orType(x.typ), orType(s.Params[want.param].typ)) {
					r.Bad("query arguments", name+": value of "+want.key, p.Pos(b.Pos()), "what is written under "+want.key+" is the parameter "+x.aux, st.path(6))
				}
			}
			if v := s.dictGet(st, d, "implied_port"); v != nil {
				if n, ok := unface(v).intVal(); p.kindOf(v) != "int" || ok && n != 0 && n != 1 || !ok && bare(unface(v)) == samePort(s, st, d) {
					r.Bad("query arguments", name+": implied_port", p.Pos(b.Pos()), "implied_port is written as "+v.String(), st.path(6))
				}
			}
		}
		r.explore(p, b, h, Opts{MaxStates: 3000}, nil)
	}
	r.Need("query arguments", 4)
}

// samePort: the value written under port.
func samePort(s *Sim, st *State, d *Term) *Term {
	if v := s.dictGet(st, d, "port"); v != nil {
		return bare(unface(v))
	}
	return nil
}

func (p *Program) replyBodies(r *Report, rb, re string) {
	respField := getterField(p.Method("dht/krpc", "RpcContext", "Response"))
	body := func(s *Sim, st *State, w *Term) (*Term, bool) {
		if w == nil || w.op != "obj" || w.typ == nil {
			return nil, false
		}
		if e, ok := s.truth(st, s.fieldOf(st, w, w.typ, re)); ok && e {
			return nil, false
		}
		d := unface(s.fieldOf(st, w, w.typ, rb))
		return d, d != nil && d.op == "obj"
	}
	kinds := func(s *Sim, st *State, d *Term, name string, pos string) {
		keys, _ := s.dictKeys(st, d)
		for _, k := range keys {
			v := s.dictGet(st, d, k)
			if want, ok := keyKinds[k]; ok {
				if kd := p.kindOf(v); kd != "" && kd != want {
					r.Bad("kinds of values", name+": "+k, pos, k+" is written as a "+kd+" but read as a "+want, st.path(6))
				}
			}
		}
	}
	for _, g := range p.registrations() {
		if g.fn == nil || !g.known || replyKeys[g.method] == nil || respField == "" {
			continue
		}
		g := g
		name := g.method + " (" + p.FuncName(g.fn) + ")"
		var h Hooks
		h.Return = func(s *Sim, st *State, res []*Term) {
			ctx := s.Params[len(s.Params)-1]
			d, ok := body(s, st, unface(s.fieldOf(st, ctx, ctx.typ, respField)))
			if !ok {
				return
			}
			keys, exact := s.dictKeys(st, d)
			if !exact {
				r.Note("%s: keys of the reply that are not constants", name)
				return
			}
			r.Ob("reply keys", name)
			best := []string(nil)
			for _, alt := range replyKeys[g.method] {
				var miss []string
				for _, k := range alt {
					if s.dictGet(st, d, k) == nil {
						miss = append(miss, k)
					}
				}
				if best == nil || len(miss) < len(best) {
					best = miss
				}
				if len(miss) == 0 {
					best = nil
					break
				}
			}
			if len(best) > 0 {
				r.Bad("reply keys", name, p.Pos(g.fn.Pos()), "the reply to "+g.method+" has no "+strings.Join(best, ", ")+" (it has "+strings.Join(keys, ", ")+")", st.path(8))
			}
			kinds(s, st, d, name, p.Pos(g.fn.Pos()))
			// the id is this node's, not something from the message
			if v := s.dictGet(st, d, "id"); v != nil {
				r.Ob("reply id", name)
				if unface(v).any(func(x *Term) bool {
					return x == ctx || x.op == "fieldaddr" && (strings.HasPrefix(x.aux, "body#") || strings.HasPrefix(x.aux, "txId#"))
				}) {
					r.Bad("reply id", name, p.Pos(g.fn.Pos()), "the id in the reply is "+v.String()+", not this node's", st.path(8))
				}
			}
		}
		r.explore(p, g.fn, h, Opts{MaxStates: 20000}, nil)
	}
	for _, f := range p.Funcs {
		if f.Pkg != p.Pkg("dht") || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		if f.Signature.Results().Len() != 1 || !p.isNamed(f.Signature.Results().At(0).Type(), "dht/krpc", "Response") {
			continue
		}
		name := p.FuncName(f)
		f := f
		var h Hooks
		h.Return = func(s *Sim, st *State, res []*Term) {
			d, ok := body(s, st, unface(res[0]))
			if !ok {
				return
			}
			keys, exact := s.dictKeys(st, d)
			r.Ob("response id", name)
			v := s.dictGet(st, d, "id")
			if v == nil && exact {
				r.Bad("response id", name, p.Pos(f.Pos()), "the response is built without id (it has "+strings.Join(keys, ", ")+")", st.path(6))
			}
			kinds(s, st, d, name, p.Pos(f.Pos()))
			strs := 0
			for _, x := range f.Params {
				if isStringType(x.Type()) {
					strs++
				}
			}
			r.Ob("response token", name)
			if exact && s.dictGet(st, d, "token") == nil && (strs == 3 || s.dictGet(st, d, "values") != nil) {
				r.Bad("response token", name, p.Pos(f.Pos()), "the response to get_peers is built without token (it has "+strings.Join(keys, ", ")+")", st.path(6))
			}
			for k, i := range map[string]int{"id": 1, "token": 2} {
				if x := unface(s.orNone(s.dictGet(st, d, k))); x.op == "param" && i < len(s.Params) && x != s.Params[i] {
					r.Bad("response values", name+": "+k, p.Pos(f.Pos()), "what is written under "+k+" is the parameter "+x.aux, st.path(6))
				}
			}
		}
		r.explore(p, f, h, Opts{MaxStates: 5000}, nil)
	}
	r.Need("response id", 1)
	// errors carry what the envelope reads
	for _, f := range p.Funcs {
		if f.Pkg != p.Pkg("dht/krpc") || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		if f.Signature.Results().Len() != 1 || !p.isNamed(f.Signature.Results().At(0).Type(), "dht/krpc", "Response") {
			continue
		}
		name := p.FuncName(f)
		f := f
		var h Hooks
		h.Return = func(s *Sim, st *State, res []*Term) {
			w := unface(res[0])
			if w.op != "obj" || w.typ == nil {
				return
			}
			e, ok := s.truth(st, s.fieldOf(st, w, w.typ, re))
			if !ok || !e {
				return
			}
			d := unface(s.fieldOf(st, w, w.typ, rb))
			if d.op != "obj" {
				return
			}
			for _, k := range []string{"code", "msg"} {
				r.Ob("errors are complete", name)
				v := s.dictGet(st, d, k)
				if v == nil {
					r.Bad("errors are complete", name, p.Pos(f.Pos()), "an error is built without the "+k+" that is read when it is sent", st.path(6))
				} else if kd := p.kindOf(v); kd != "" && kd != keyKinds[k] {
					r.Bad("errors are complete", name, p.Pos(f.Pos()), "the "+k+" of an error is a "+kd+" but read as a "+keyKinds[k], st.path(6))
				}
			}
		}
		r.explore(p, f, h, Opts{MaxStates: 3000}, nil)
	}
}

// dictReads: every constant key that is read, with the kind of value that is expected.
func (p *Program) dictReads(r *Report) {
	read := map[string]map[string]bool{} // package -> keys
	note := func(f *ssa.Function, in ssa.Instruction, key, kind string, optional bool) {
		rel := ""
		for _, x := range []string{"dht", "dht/krpc"} {
			if f.Pkg == p.Pkg(x) {
				rel = x
			}
		}
		if rel == "" {
			return
		}
		if read[rel] == nil {
			read[rel] = map[string]bool{}
		}
		read[rel][key] = true
		want, ok := keyKinds[key]
		r.Ob("keys that are read", p.FuncName(f)+": "+key)
		if !ok {
			if !optional {
				r.Bad("keys that are read", p.FuncName(f)+": "+key, p.InstrPos(in), "the key "+key+" is required of a message, but no message has it", nil)
			}
			return
		}
		if kind != "" && kind != want {
			r.Bad("keys that are read", p.FuncName(f)+": kind of "+key, p.InstrPos(in), key+" is read as a "+kind+" but written as a "+want, nil)
		}
	}
	for _, f := range p.Funcs {
		if f.Pkg != p.Pkg("dht") && f.Pkg != p.Pkg("dht/krpc") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Lookup:
					if !p.isNamed(x.X.Type(), "misc", "Dict") {
						continue
					}
					if k, ok := constString(x.Index); ok {
						kind := ""
						var val ssa.Value = x
						if x.CommaOk && x.Referrers() != nil {
							for _, q := range *x.Referrers() {
								if e, ok := q.(*ssa.Extract); ok && e.Index == 0 {
									val = e
								}
							}
						}
						if val.Referrers() != nil {
							for _, q := range *val.Referrers() {
								if ta, ok := q.(*ssa.TypeAssert); ok && ta.X == val {
									kind = p.kindOfType(ta.AssertedType)
								}
							}
						}
						note(f, in, k, kind, true)
					}
				case ssa.CallInstruction:
					n := p.CalleeName(x.Common())
					if !strings.HasPrefix(n, "(*misc.Dict).") || len(x.Common().Args) < 2 {
						continue
					}
					k, ok := constString(x.Common().Args[1])
					if !ok {
						continue
					}
					m := strings.TrimPrefix(n, "(*misc.Dict).")
					kind := map[string]string{"GetInteger": "int", "GetString": "string", "GetList": "list", "GetDict": "dict", "GetIntegerOrDefault": "int", "GetStringOrDefault": "string"}[m]
					note(f, in, k, kind, m == "Exist" || strings.HasSuffix(m, "OrDefault"))
				}
			}
		}
	}
	for rel, want := range map[string][]string{"dht/krpc": {"y", "t", "q", "a", "r", "id"}, "dht": {"info_hash", "port", "implied_port", "nodes", "values"}} {
		for _, k := range want {
			r.Ob("keys that are needed", rel+": "+k)
			if !read[rel][k] {
				dyn := false
				for _, f := range p.Funcs {
					if f.Pkg != p.Pkg(rel) {
						continue
					}
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if c, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(p.CalleeName(c.Common()), "(*misc.Dict).") && len(c.Common().Args) > 1 {
								if _, ok := constString(c.Common().Args[1]); !ok {
									dyn = true
								}
							}
						}
					}
				}
				if dyn {
					r.Note("%s: keys that are not constants are read", rel)
					continue
				}
				r.Bad("keys that are needed", rel+": "+k, "?", "nothing in "+rel+" reads "+k+" of a message", nil)
			}
		}
	}
}

func (p *Program) kindOfType(t types.Type) string {
	switch {
	case isStringType(t):
		return "string"
	case p.isNamed(t, "misc", "Dict"):
		return "dict"
	case p.isNamed(t, "misc", "List"):
		return "list"
	case t.String() == "int":
		return "int"
	}
	return ""
}
