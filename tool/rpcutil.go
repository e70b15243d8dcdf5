package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// udpSend: a datagram leaves; payload and address are given as argument positions.
func udpSend(n string) (payload, addr int, ok bool) {
	switch n {
	case "(*net.UDPConn).WriteToUDP", "(*net.UDPConn).WriteTo", "(net.PacketConn).WriteTo", "(*net.UDPConn).WriteToUDPAddrPort":
		return 1, 2, true
	case "(*net.UDPConn).WriteMsgUDP":
		return 1, 3, true
	}
	return 0, 0, false
}

func (p *Program) isPtrTo(t types.Type, rel, name string) bool {
	pt, ok := t.(*types.Pointer)
	return ok && p.isNamed(pt.Elem(), rel, name)
}

// submitted lists the functions handed to a work pool or started as goroutines in fn.
type taskSite struct {
	Fn    *ssa.Function
	In    ssa.CallInstruction
	MC    *ssa.MakeClosure
	Go    bool
	Where *ssa.Function
}

func funcOf(v ssa.Value) (*ssa.Function, *ssa.MakeClosure) {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Function:
			return x, nil
		case *ssa.MakeClosure:
			f, _ := x.Fn.(*ssa.Function)
			return f, x
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && al.Referrers() != nil {
				var st *ssa.Store
				n := 0
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
						st = s
						n++
					}
				}
				if n == 1 {
					v = st.Val
					continue
				}
			}
		}
		return nil, nil
	}
}

func (p *Program) tasks(fn *ssa.Function) []taskSite {
	var out []taskSite
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g, ok := in.(*ssa.Go); ok {
				f, mc := funcOf(g.Call.Value)
				if f != nil && (p.InRepo(f) || f.Synthetic != "") {
					out = append(out, taskSite{f, c, mc, true, fn})
				}
				for _, a := range g.Call.Args {
					if f, mc := funcOf(a); f != nil && p.InRepo(f) {
						out = append(out, taskSite{f, c, mc, true, fn})
					}
				}
				continue
			}
			if p.CalleeName(c.Common()) == "(*misc.WorkPool).AsyncSubmit" {
				if f, mc := funcOf(c.Common().Args[1]); f != nil {
					out = append(out, taskSite{f, c, mc, false, fn})
				}
			}
		}
	}
	return out
}

// packetRoots: the functions that handle one received datagram.
func (p *Program) packetRoots() []*ssa.Function {
	var out []*ssa.Function
	listen := p.Method("dht/krpc", "RpcServer", "Listen")
	seen := map[*ssa.Function]bool{}
	if listen != nil {
		for f := range p.directReach(listen, "dht/krpc") {
			for _, t := range p.tasks(f) {
				if seen[t.Fn] {
					continue
				}
				if p.handlesPacket(t.Fn) {
					seen[t.Fn] = true
					out = append(out, t.Fn)
				}
			}
		}
	}
	if len(out) == 0 {
		for _, f := range p.Funcs {
			if f.Pkg != p.Pkg("dht/krpc") {
				continue
			}
			for _, q := range f.Params {
				if p.isPtrTo(q.Type(), "dht/krpc", "RecvPacket") {
					called := false
					for _, c := range p.directCallers(f) {
						for _, cq := range c.Params {
							called = called || p.isPtrTo(cq.Type(), "dht/krpc", "RecvPacket")
						}
					}
					if !called && !seen[f] {
						seen[f] = true
						out = append(out, f)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return p.FuncName(out[i]) < p.FuncName(out[j]) })
	return out
}

// handlesPacket: the function reaches a bencode decoding operation.
func (p *Program) handlesPacket(fn *ssa.Function) bool {
	for f := range p.Reachable(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && isDecode(p.CalleeName(c.Common())) {
					return true
				}
			}
		}
	}
	return false
}

func isDecode(n string) bool { return n == "misc.DecodeDict" || n == "misc.DecodeDictNoLimit" }

// directReach: functions of a package called directly from fn, fn included; no goroutines or tasks.
func (p *Program) directReach(fn *ssa.Function, rel string) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || f.Pkg != nil && f.Pkg != p.Pkg(rel) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					g, _ := funcOf(c.Common().Value)
					walk(g)
				}
			}
		}
	}
	walk(fn)
	return seen
}

// getterField: the struct field a method returns, itself or through a function that only it leaves to.
func getterField(fn *ssa.Function) string {
	if fn == nil || len(fn.Params) == 0 {
		return ""
	}
	return fieldReturned(fn, 0)
}

func fieldReturned(fn *ssa.Function, depth int) string {
	name := ""
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok || len(r.Results) != 1 {
				continue
			}
			n := ""
			switch u := r.Results[0].(type) {
			case *ssa.UnOp:
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok {
					return ""
				}
				n = derefStruct(fa.X.Type()).Field(fa.Field).Name()
			case *ssa.Field:
				n = derefStruct(u.X.Type()).Field(u.Field).Name()
			case *ssa.Call:
				if g := u.Call.StaticCallee(); g != nil && g.Blocks != nil && depth < 4 {
					n = fieldReturned(g, depth+1)
				}
			}
			if n == "" || name != "" && n != name {
				return ""
			}
			name = n
		}
	}
	return name
}

// fieldOf reads a named field of a struct behind a pointer term.
func (s *Sim) fieldOf(st *State, ptr *Term, t types.Type, name string) *Term {
	str := derefStruct(t)
	if str == nil {
		return nil
	}
	for i := 0; i < str.NumFields(); i++ {
		if str.Field(i).Name() == name {
			pt := t
			if _, ok := pt.(*types.Pointer); !ok {
				pt = types.NewPointer(t)
			}
			return s.load(st, s.fieldAddr(ptr, pt, i), str.Field(i).Type())
		}
	}
	return nil
}

func unface(t *Term) *Term {
	for t != nil && (t.op == "iface" || t.op == "stale") {
		t = t.sub[0]
	}
	return t
}

func (s *Sim) ifaceStr(v *Term) *Term { return s.tt.mk("iface", "string", types.Typ[types.String], v) }

// dictGet reads a key of a dictionary term, nil when nothing is known.
func (s *Sim) dictGet(st *State, d *Term, key string) *Term {
	if v, ok := st.heap[s.mapElem(d, s.tt.Str(key))]; ok {
		return v
	}
	return nil
}

// dictKeys lists the constant keys known of a dictionary made here, and whether these are all.
func (s *Sim) dictKeys(st *State, d *Term) (keys []string, exact bool) {
	exact = d.op == "obj"
	for k := range st.heap {
		if k.op == "mapelem" && k.sub[0] == d {
			if c, ok := k.sub[1].strVal(); ok {
				keys = append(keys, c)
			} else {
				exact = false
			}
		}
	}
	sort.Strings(keys)
	return
}

// message describes the datagram a packet simulation starts from.
type message struct {
	dict  *Term
	tx    *Term
	what  *Term // method of a query
	args  *Term // arguments (a) or body (r), when known to be there
	id    *Term
	kind  string
	calls int
}

// incoming makes a decode hook that answers with a message of the given kind (y).
func incoming(p *Program, tt *TermTable, kind string) *message {
	dt := p.NamedType("misc", "Dict")
	m := &message{kind: kind}
	m.dict = tt.mk("param", "message#d", dt)
	m.tx = tt.mk("param", "txid#t", types.Typ[types.String])
	m.what = tt.mk("param", "method#q", types.Typ[types.String])
	return m
}

func (m *message) decode(s *Sim, st *State, c *CallEv) *Verdict {
	if !isDecode(c.Name) || st.F["decoded"] > 0 {
		return nil
	}
	res := []*Term{m.dict}
	n := c.Instr.Common().Signature().Results().Len()
	for i := 1; i < n-1; i++ {
		res = append(res, s.tt.mk("param", "consumed#n", types.Typ[types.Int]))
	}
	res = append(res, s.tt.Nil(nil))
	m.calls++
	return &Verdict{Outcomes: []Outcome{{Res: res, Apply: func(t *State) bool {
		t.F["decoded"] = 1
		t.facts[s.tt.mk("isnil", "", nil, m.dict)] = false
		if m.kind != "" {
			t.heap[s.mapElem(m.dict, s.tt.Str("y"))] = s.ifaceStr(s.tt.Str(m.kind))
		}
		t.heap[s.mapElem(m.dict, s.tt.Str("t"))] = s.ifaceStr(m.tx)
		if m.args != nil {
			dt := s.p.NamedType("misc", "Dict")
			k := "a"
			if m.kind == "r" {
				k = "r"
			}
			t.heap[s.mapElem(m.dict, s.tt.Str(k))] = s.tt.mk("iface", dt.String(), dt, m.args)
			if m.id != nil {
				t.heap[s.mapElem(m.args, s.tt.Str("id"))] = s.ifaceStr(m.id)
			}
		}
		if m.kind == "q" {
			t.heap[s.mapElem(m.dict, s.tt.Str("q"))] = s.ifaceStr(m.what)
		}
		return true
	}}}}
}

// tableOp classifies the operations of the shared key-value tables.
func (p *Program) tableOp(name string) (op string, key, val int) {
	switch name {
	case "(*sync.Map).Load":
		return "get", 1, 0
	case "(*sync.Map).Store":
		return "put", 1, 2
	case "(*sync.Map).Delete":
		return "del", 1, 0
	case "(*sync.Map).LoadAndDelete":
		return "take", 1, 0
	case "(*sync.Map).LoadOrStore":
		return "put", 1, 2
	}
	if !strings.HasPrefix(name, "(*misc.SyncMap).") {
		return "", 0, 0
	}
	if p.opCache == nil {
		p.opCache = map[string]string{}
		nt := p.NamedType("misc", "SyncMap")
		if nt == nil {
			return "", 0, 0
		}
		for _, fn := range p.Funcs {
			if fn.Signature.Recv() == nil || !p.isPtrTo(fn.Signature.Recv().Type(), "misc", "SyncMap") || fn.Parent() != nil {
				continue
			}
			p.opCache[p.FuncName(fn)] = p.classifyTable(fn)
		}
	}
	op = p.opCache[name]
	return op, 1, 2
}

// classifyTable decides what a table method does: get, put, del or take (get and delete in one critical section).
func (p *Program) classifyTable(fn *ssa.Function) string {
	if len(fn.Params) < 2 {
		return ""
	}
	read, del, put, split, kept, skipped, wrong := false, false, false, false, false, false, false
	sec := func(st *State) string { return "sec" + itoa(int64(st.F["section"])) }
	var h Hooks
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		switch lockOp(c.Name) {
		case "lock", "rlock":
			// other goroutines may have changed the table since
			st.F["section"]++
			s.havocIf(st, s.siteID(c.Frame, c.Instr, "lock"), func(k *Term) bool {
				return (k.op == "mapelem" || k.op == "mapabsent") && k.sub[0].has(s.Params[0])
			})
		}
		if c.Name == "builtin:delete" && len(c.Args) == 2 {
			if c.Args[1] == s.Params[1] {
				del = true
				st.F["gone"] = st.F["section"] + 1
			} else {
				wrong = true
			}
		}
		return nil
	}
	h.MapRead = func(s *Sim, st *State, in ssa.Instruction, m, k *Term) {
		if lk, ok := in.(*ssa.Lookup); ok && k == s.Params[1] {
			read = true
			v, has := s.mapLookup(st, m, k, lk.X.Type().Underlying().(*types.Map).Elem())
			st.AddL(sec(st), v)
			st.AddL(sec(st), has)
		}
	}
	h.MapUpdate = func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
		if k == s.Params[1] && len(s.Params) > 2 && v == s.Params[2] {
			put = true
			st.F["put"] = 1
		} else {
			wrong = true
		}
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		if st.F["put"] == 0 {
			skipped = true
		}
		if len(res) == 0 {
			return
		}
		last := res[len(res)-1]
		no := last.isNil()
		if v, ok := s.truth(st, last); last.typ != nil && isBoolType(last.typ) && ok && !v {
			no = true
		}
		if v, ok := last.boolVal(); ok && !v {
			no = true
		}
		if no {
			return
		}
		if st.F["gone"] == 0 {
			kept = true
		} else if v := res[0]; !v.isConst() && !st.HasL("sec"+itoa(int64(st.F["gone"]-1)), v) {
			// what is given out was read before the delete's critical section: two callers may get it
			split = true
		}
	}
	s := NewSim(p, nil, h, Opts{MaxStates: 5000})
	if err := s.Run(fn, nil); err != nil {
		return ""
	}
	res := fn.Signature.Results().Len() > 0
	switch {
	case wrong:
		return "other"
	case put && !del && !skipped:
		return "put"
	case del && !put && res && read && !split && !kept:
		return "take"
	case del && !put && !res:
		return "del"
	case read && !del && !put && res:
		return "get"
	}
	return "other"
}

// tableCall makes table operations opaque and gives their results.
type tableEv struct {
	op        string
	recv, key *Term
	val       *Term
}

func (p *Program) tableCall(c *CallEv) (ev tableEv, ok bool) {
	op, k, v := p.tableOp(c.Name)
	if op == "" || len(c.Args) <= k {
		return
	}
	ev = tableEv{op: op, recv: c.Args[0], key: unface(c.Args[k])}
	if op == "put" && len(c.Args) > v {
		ev.val = c.Args[v]
	}
	return ev, true
}

// fieldName of the outermost field an address or loaded value comes from.
func memberName(t *Term) string {
	t = unstale(t)
	if t.op == "load" {
		t = t.sub[0]
	}
	if t.op == "fieldaddr" || t.op == "global" {
		return shortAux(t.aux)
	}
	return ""
}

// flattenAppend lists what was appended to what: the base and the parts in order.
func flattenAppend(t *Term) (base *Term, parts []*Term) {
	for t.op == "append" {
		y := t.sub[1]
		if y.op == "list" {
			parts = append(append([]*Term(nil), y.sub...), parts...)
		} else {
			parts = append([]*Term{y}, parts...)
		}
		t = t.sub[0]
	}
	return t, parts
}

// registrations: what is given to (*krpc.RpcServer).RegisteHandler.
type registration struct {
	method string
	known  bool
	fn     *ssa.Function
	in     ssa.CallInstruction
}

func constString(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return "", false
	}
	if !isStringType(c.Type()) {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func (p *Program) registrations() []registration {
	var out []registration
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || p.CalleeName(c.Common()) != "(*dht/krpc.RpcServer).RegisteHandler" {
					continue
				}
				a := c.Common().Args
				m, known := constString(a[1])
				h, _ := funcOf(a[2])
				out = append(out, registration{m, known, h, c})
			}
		}
	}
	return out
}

// queryHandlers: functions registered for queries; when that is done by a table, all functions of the handler
// type whose value is taken in the function that registers.
func (p *Program) queryHandlers() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && f.Blocks != nil {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, r := range p.registrations() {
		if r.fn != nil {
			add(r.fn)
			continue
		}
		for _, f := range p.Funcs {
			if p.addrTaken[f] && p.isHandlerSig(f) && f.Parent() == nil && !p.isRespHandler(f) {
				add(f)
			}
		}
	}
	return out
}

func (p *Program) isHandlerSig(f *ssa.Function) bool {
	return f.Signature.Recv() == nil && f.Signature.Params().Len() == 1 && f.Signature.Results().Len() == 0 && p.isPtrTo(f.Signature.Params().At(0).Type(), "dht/krpc", "RpcContext")
}

// isRespHandler: the function value is given to a request.
func (p *Program) isRespHandler(f *ssa.Function) bool {
	for _, x := range p.respHandlers() {
		if x == f {
			return true
		}
	}
	return false
}

func (p *Program) respHandlers() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().IsInvoke() {
					continue
				}
				sig := c.Common().Signature()
				if sig.Results().Len() != 1 || !p.isNamed(sig.Results().At(0).Type(), "dht/krpc", "Request") {
					continue
				}
				for _, a := range c.Common().Args {
					if f, _ := funcOf(a); f != nil && p.isHandlerSig(f) && !seen[f] {
						seen[f] = true
						out = append(out, f)
					}
				}
			}
		}
	}
	return out
}
