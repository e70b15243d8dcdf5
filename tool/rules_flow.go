package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C41", "path-sensitive simulation of the links of the pipeline (start-up, response handler, announce handler, download loop, download task) with a check of every loop over a list: no iteration ends, and no way out leaves elements over, without the next link having been called for the element",
		rulePipeline)
}

const (
	flowBoot   = "every bootstrap node is queried at start-up"
	flowFirst  = "bootstrapping sends find_node"
	flowServe  = "the crawler serves and waits for shutdown"
	flowOffer  = "every node of a response is offered to the table"
	flowAsk    = "every node the table accepts is queried"
	flowQueue  = "every announce is queued for download"
	flowLoop   = "the download loop runs"
	flowSubmit = "every queued announce is downloaded once"
	flowStore  = "every verified download is stored"
)

type flow struct {
	p                           *Program
	r                           *Report
	run, boot, query, add, wait *ssa.Function
	listen, newReq, fetch       *ssa.Function
	resp                        map[*ssa.Function]bool // response handlers that lead to AddNode
	loops                       map[*ssa.Function]bool // the functions that take announces from the queue
}

func (x *flow) bad(rule, key, where, msg string, st *State) {
	var pth []string
	if st != nil {
		pth = st.path(12)
	}
	x.r.Bad(rule, key, where, msg, pth)
}

func rulePipeline(p *Program, r *Report) {
	x := &flow{p: p, r: r, resp: map[*ssa.Function]bool{}, loops: map[*ssa.Function]bool{}}
	for _, a := range []struct {
		f    **ssa.Function
		fn   *ssa.Function
		name string
	}{
		{&x.run, p.Func("dht", "Run"), "dht.Run"},
		{&x.boot, p.Func("dht", "BootStrap"), "dht.BootStrap"},
		{&x.query, p.Method("dht/krpc", "RpcServer", "Query"), "(*krpc.RpcServer).Query"},
		{&x.add, p.Method("dht", "RouteTable", "AddNode"), "(*dht.RouteTable).AddNode"},
		{&x.wait, p.Func("misc", "Wait4Shutdown"), "misc.Wait4Shutdown"},
		{&x.listen, p.Method("dht/krpc", "RpcServer", "Listen"), "(*krpc.RpcServer).Listen"},
		{&x.newReq, p.Func("dht/krpc", "NewBaseRequest"), "krpc.NewBaseRequest"},
		{&x.fetch, p.Func("dht/peerwire", "FetchMetaData"), "peerwire.FetchMetaData"},
	} {
		if a.fn == nil {
			r.Bad("anchors", a.name, "?", a.name+" was not found", nil)
			return
		}
		*a.f = a.fn
	}
	for _, f := range p.respHandlers() {
		x.resp[f] = p.directReach(f, "dht")[x.add] || p.staticReach(f)[x.add]
	}
	x.startup()
	x.bootstrap()
	x.responses()
	x.serving()
	x.tasks()
}

// roots of package cmd: functions that are not called directly and start the crawler.
func (x *flow) startup() {
	p, r := x.p, x.r
	n := 0
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg != p.Pkg("cmd") || isInitFn(f) || !p.addrTaken[f] && len(p.directCallers(f)) > 0 {
			continue
		}
		if !p.staticReach(f)[x.run] {
			continue
		}
		n++
		x.root(f)
	}
	r.Ob(flowServe, "roots")
	if n == 0 {
		x.bad(flowServe, "roots", "?", "no command starts dht.Run", nil)
	}
}

func (x *flow) root(f *ssa.Function) {
	p, r := x.p, x.r
	name := p.FuncName(f)
	e := newEach(p, "boot")
	var h Hooks
	h.LoopPhi = e.phi
	h.Cond = e.cond
	seen := false
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		switch {
		case c.Fn == x.boot:
			seen = true
			lst, idx := elemTerm(c.Args[0])
			if lst == nil {
				if v, ok := c.Args[0].strVal(); ok {
					x.bad(flowBoot, name, p.InstrPos(c.Instr), "the crawler is bootstrapped from the fixed host "+v+", not from the configured ones", st)
				} else {
					r.Note("%s: where the bootstrap host comes from is not recognised: %s", p.InstrPos(c.Instr), short(c.Args[0].String(), 80))
				}
				return &Verdict{Opaque: true}
			}
			if !lst.any(func(y *Term) bool { return strings.Contains(y.aux, "BootstrapNodes") }) {
				r.Note("%s: whether the list of hosts is the configured one is not recognised: %s", p.InstrPos(c.Instr), short(lst.String(), 80))
			}
			e.done(s, st, c.Instr, lst, idx)
			return &Verdict{Opaque: true}
		case c.Fn == x.run:
			st.F["run"] = 1
			return &Verdict{Opaque: true}
		case c.Fn == x.wait:
			if st.F["run"] == 0 {
				x.bad(flowServe, name, p.InstrPos(c.Instr), "the command waits for shutdown without having started the server", st)
			}
			st.F["wait"] = 1
			return &Verdict{Opaque: true}
		case c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg != p.Pkg("cmd") && c.Fn.Pkg != p.Pkg("config"):
			return &Verdict{Opaque: true}
		}
		return nil
	}
	h.Go = func(s *Sim, st *State, in *ssa.Go, fn *Term, args []*Term) {
		if g := fn.fnOf(); g != nil && (g == x.run || p.staticReach(g)[x.run]) {
			st.F["run"] = 2
		}
	}
	h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) { e.back(st, to) }
	h.Return = func(s *Sim, st *State, res []*Term) {
		r.Ob(flowServe, name)
		if st.F["run"] == 0 {
			x.bad(flowServe, name, p.Pos(f.Pos()), "the command can end without having started the server", st)
		}
		if st.F["run"] == 2 && st.F["wait"] == 0 {
			x.bad(flowServe, name, p.Pos(f.Pos()), "the command can end without waiting for shutdown, which ends the server", st)
		}
		e.end(s, st, p.Pos(f.Pos()), true)
	}
	r.explore(p, f, h, Opts{Numeric: true}, nil)
	r.Ob(flowBoot, name)
	if !seen {
		if p.staticReach(f)[x.boot] {
			r.Note("%s: the way bootstrapping is started is not followed", name)
		} else {
			x.bad(flowBoot, name, p.Pos(f.Pos()), "nothing is bootstrapped", nil)
		}
	}
	x.each(e, flowBoot, name, "a bootstrap node")
}

func (x *flow) each(e *eachElem, rule, name, what string) {
	for _, q := range e.problems() {
		switch q.what {
		case "counting":
			x.r.Bad(rule, name, q.where, name+": not every element of the list is visited", q.path)
		case "skipped":
			x.r.Bad(rule, name, q.where, name+": "+what+" is passed over", q.path)
		case "all":
			x.r.Bad(rule, name, q.where, name+": the loop can be left before "+what+" at the end of the list has been handled", q.path)
		default:
			x.r.Note("%s: the loop is not one the rule knows", q.where)
		}
	}
}

// request: what is known of a request that is passed to Query.
func (x *flow) requests(h *Hooks) func(s *Sim, st *State, msg *Term) (typ string, handler *ssa.Function, ok bool) {
	old := h.Call
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if c.Fn == x.newReq {
			o := s.fresh(st, s.tt.mk("obj", s.siteID(c.Frame, c.Instr, "request"), x.newReq.Signature.Results().At(0).Type()))
			var ts, hs *Term = s.tt.mk("none", "", nil), s.tt.mk("none", "", nil)
			ps := x.newReq.Signature.Params()
			for i := 1; i < ps.Len() && i < len(c.Args); i++ {
				if isStringType(ps.At(i).Type()) {
					ts = c.Args[i]
				}
				if _, ok := ps.At(i).Type().Underlying().(*types.Signature); ok {
					hs = c.Args[i]
				}
			}
			t := s.tt.mk("tuple", "request", nil, o, ts, hs)
			return &Verdict{Opaque: true, Outcomes: []Outcome{{Res: []*Term{o}, Apply: func(st *State) bool { st.AddL("requests", t); return true }}}}
		}
		if old != nil {
			return old(s, st, c)
		}
		return nil
	}
	return func(s *Sim, st *State, msg *Term) (string, *ssa.Function, bool) {
		m := unface(msg)
		for _, t := range st.L["requests"] {
			if t.sub[0] == m || t.sub[0] == msg {
				v, ok := t.sub[1].strVal()
				if t.sub[2].isNil() {
					v = "unhandled " + v
				}
				return v, t.sub[2].fnOf(), ok
			}
		}
		return "", nil, false
	}
}

func (x *flow) checkQuery(st *State, key, where string, typ string, hd *ssa.Function, ok bool) {
	p, r := x.p, x.r
	switch {
	case !ok:
		r.Note("%s: the query that is sent is not recognised", where)
	case strings.HasPrefix(typ, "unhandled "):
		x.bad(flowFirst, key, where, "the query is sent without a handler for its response", st)
	case typ != "find_node":
		x.bad(flowFirst, key, where, "a "+typ+" query is sent where new nodes have to be asked for", st)
	case hd == nil:
		r.Note("%s: the handler of the query is not recognised", where)
	case !p.staticReach(hd)[x.add]:
		x.bad(flowFirst, key, where, "the response of the find_node query is given to "+p.FuncName(hd)+", which adds no node to the table", st)
	}
}

func (x *flow) bootstrap() {
	p, r := x.p, x.r
	var h Hooks
	var req func(s *Sim, st *State, msg *Term) (string, *ssa.Function, bool)
	name := p.FuncName(x.boot)
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if c.Fn == x.query {
			r.Ob(flowFirst, name)
			typ, hd, ok := req(s, st, c.Args[2])
			x.checkQuery(st, name, p.InstrPos(c.Instr), typ, hd, ok)
			host := s.Params[0]
			if !c.Args[1].any(func(y *Term) bool { return y == host }) && (c.Args[1].op == "ext" || c.Args[1].op == "param" || c.Args[1].isNil()) {
				x.bad(flowFirst, name, p.InstrPos(c.Instr), "the query is not sent to the bootstrap host", st)
			}
			st.F["asked"] = 1
			return &Verdict{Opaque: true}
		}
		return nil
	}
	req = x.requests(&h)
	h.Return = func(s *Sim, st *State, res []*Term) {
		if st.F["asked"] == 0 {
			x.bad(flowFirst, name, p.Pos(x.boot.Pos()), "bootstrapping can end without a query having been sent", st)
		}
	}
	r.explore(p, x.boot, h, Opts{}, nil)
	r.Ob(flowFirst, name+" explored")
}

// responses: the nodes of a find_node response.
func (x *flow) responses() {
	p, r := x.p, x.r
	n := 0
	nodeT := p.NamedType("dht", "NodeInfo")
	if nodeT == nil {
		r.Bad("anchors", "NodeInfo", "?", "dht.NodeInfo was not found", nil)
		return
	}
	ptr := types.NewPointer(nodeT)
	isNodes := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(sl.Elem(), ptr)
	}
	for f := range x.resp {
		if !x.resp[f] {
			continue
		}
		n++
		name := p.FuncName(f)
		offer := newEach(p, "offer")
		var h Hooks
		var req func(s *Sim, st *State, msg *Term) (string, *ssa.Function, bool)
		h.LoopPhi = offer.phi
		h.Cond = offer.cond
		offered := false
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			switch {
			case c.Fn == x.add:
				offered = true
				node := c.Args[1]
				lst, idx := elemTerm(node)
				if lst == nil {
					r.Note("%s: the node that is offered to the table is not an element of a list", p.InstrPos(c.Instr))
				} else {
					offer.done(s, st, c.Instr, lst, idx)
				}
				return &Verdict{Opaque: true}
			case c.Fn == x.query:
				for _, t := range st.L["accepted"] {
					node := t.sub[0]
					if s.fieldOf(st, node, ptr, "Addr") == c.Args[1] {
						st.AddL("asked", node)
						typ, hd, ok := req(s, st, c.Args[2])
						x.checkQuery(st, name, p.InstrPos(c.Instr), typ, hd, ok)
						return &Verdict{Opaque: true}
					}
				}
				if len(st.L["accepted"]) > 0 {
					st.F["other query"] = 1
				}
				return &Verdict{Opaque: true}
			case c.Fn != nil && c.Fn.Signature.Results().Len() == 1 && isNodes(c.Fn.Signature.Results().At(0).Type()) && c.Fn.Signature.Params().Len() == 1 && isStringType(c.Fn.Signature.Params().At(0).Type()):
				return &Verdict{Opaque: true}
			}
			return nil
		}
		req = x.requests(&h)
		h.Go = func(s *Sim, st *State, in *ssa.Go, fn *Term, args []*Term) {
			for _, t := range st.L["accepted"] {
				if g := fn.fnOf(); g != nil && p.staticReach(g)[x.query] {
					st.AddL("kept", t.sub[0])
				}
			}
		}
		h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
			if c.Name == "builtin:append" {
				for _, t := range st.L["accepted"] {
					for _, a := range c.Args {
						if node := t.sub[0]; a.any(func(y *Term) bool { return y == node }) {
							st.AddL("kept", t.sub[0])
						}
					}
				}
			}
			if c.Fn == x.add && len(res) == 1 {
				st.AddL("accepted", s.tt.mk("tuple", "accepted", nil, c.Args[1], res[0]))
			}
		}
		// what is known of the type of the query that is answered
		typed := func(st *State) {
			for c, v := range st.facts {
				if c.op != "eq" {
					continue
				}
				for i := range c.sub {
					if w, ok := c.sub[i].strVal(); ok && v == (w != "find_node") {
						st.F["no find_node"] = 1
					}
				}
			}
		}
		h.Enter = func(s *Sim, st *State, fr *Frame) { typed(st) }
		unasked := func(s *Sim, st *State, where string) {
			for _, t := range st.L["accepted"] {
				node := t.sub[0]
				r.Ob(flowAsk, name)
				if s.errState(st, t.sub[1]) == 2 || st.HasL("asked", node) {
					continue
				}
				if st.HasL("kept", node) {
					r.Note("%s: a node that the table may have accepted is kept, who queries it is not followed", where)
				} else if st.F["other query"] > 0 {
					x.bad(flowAsk, name, where, "after a node was added to the table another address than its own is queried", st)
				} else {
					x.bad(flowAsk, name, where, "a node that the table may have accepted is not queried", st)
				}
			}
			delete(st.L, "accepted")
			delete(st.L, "asked")
			delete(st.L, "kept")
			delete(st.L, "requests")
			delete(st.F, "other query")
		}
		h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) {
			unasked(s, st, p.InstrPos(to.Instrs[len(to.Instrs)-1]))
			offer.back(st, to)
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			unasked(s, st, p.Pos(f.Pos()))
			typed(st)
			must := st.F["no find_node"] == 0
			offer.end(s, st, p.Pos(f.Pos()), must)
		}
		r.explore(p, f, h, Opts{Numeric: true}, nil)
		r.Ob(flowOffer, name)
		if !offered {
			r.Note("%s: how nodes get to the table is not followed", name)
		}
		x.each(offer, flowOffer, name, "a node")
	}
	r.Ob(flowOffer, "handlers")
	if n == 0 {
		x.bad(flowOffer, "handlers", "?", "no response handler adds nodes to the table", nil)
	}
}

// serving: dht.Run starts the download loop, and the announce handler queues announces.
func (x *flow) serving() {
	p, r := x.p, x.r
	x.receivers()
	leads := func(f *ssa.Function) bool {
		for g := range p.staticReach(f) {
			if x.loops[g] {
				return true
			}
		}
		return x.loops[f]
	}
	handlers := map[string]map[*ssa.Function]bool{}
	var h Hooks
	name := p.FuncName(x.run)
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		switch {
		case c.Name == "(*dht/krpc.RpcServer).RegisteHandler":
			if m, ok := c.Args[1].strVal(); ok {
				if g := c.Args[2].fnOf(); g != nil {
					if handlers[m] == nil {
						handlers[m] = map[*ssa.Function]bool{}
					}
					handlers[m][g] = true
				}
			}
			return &Verdict{Opaque: true}
		case c.Fn == x.listen:
			if st.F["loop"] == 0 && len(x.loops) > 0 {
				x.bad(flowLoop, name, p.InstrPos(c.Instr), "the server listens, which does not end, before the loop that takes announces from the queue is started", st)
			}
			st.F["listen"] = 1
			return &Verdict{Opaque: true}
		case c.Fn != nil && len(x.loops) > 0 && x.loops[c.Fn]:
			if st.F["listen"] == 0 {
				x.bad(flowLoop, name, p.InstrPos(c.Instr), "the download loop, which does not end, is run before the server listens", st)
			}
			st.F["loop"] = 1
			return &Verdict{Opaque: true}
		case c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg != p.Pkg("dht"):
			return &Verdict{Opaque: true}
		}
		return nil
	}
	h.Go = func(s *Sim, st *State, in *ssa.Go, fn *Term, args []*Term) {
		g := fn.fnOf()
		if g == nil {
			return
		}
		if leads(g) {
			st.F["loop"] = 1
		}
		if g == x.listen || p.staticReach(g)[x.listen] {
			st.F["listen"] = 1
		}
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		r.Ob(flowLoop, name)
		if st.F["loop"] == 0 && len(x.loops) > 0 {
			x.bad(flowLoop, name, p.Pos(x.run.Pos()), "the loop that takes announces from the queue is not started", st)
		}
		if st.F["listen"] == 0 {
			x.bad(flowServe, name, p.Pos(x.run.Pos()), "dht.Run can end without the server having listened", st)
		}
	}
	r.explore(p, x.run, h, Opts{MaxStates: 20000}, nil)
	r.Ob(flowLoop, name+" explored")
	as := handlers["announce_peer"]
	if len(as) == 0 {
		r.Note("the handler of announce_peer is not recognised")
	}
	for f := range as {
		x.announce(f)
	}
}

// receivers finds the functions that take announces from the queue. A helper that
// gives what it takes to its caller is part of the caller.
func (x *flow) receivers() {
	p := x.p
	isItem := func(t types.Type) bool {
		c, ok := t.Underlying().(*types.Chan)
		return ok && p.isPtrTo(c.Elem(), "dht/krpc", "RpcContext")
	}
	// around: the functions whose loops run the block of f, f itself or what calls it
	var around func(b *ssa.BasicBlock, depth int) []*ssa.Function
	around = func(b *ssa.BasicBlock, depth int) []*ssa.Function {
		f := b.Parent()
		if len(loopsOf(b)) > 0 {
			return []*ssa.Function{f}
		}
		var out []*ssa.Function
		if depth > 4 {
			return nil
		}
		for _, g := range p.directCallers(f) {
			for _, gb := range g.Blocks {
				for _, in := range gb.Instrs {
					if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == f && g != f {
						out = append(out, around(gb, depth+1)...)
					}
				}
			}
		}
		return out
	}
	var add func(f *ssa.Function, at *ssa.BasicBlock, depth int)
	add = func(f *ssa.Function, at *ssa.BasicBlock, depth int) {
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if p.isPtrTo(res.At(i).Type(), "dht/krpc", "RpcContext") && depth < 4 {
				for _, g := range p.directCallers(f) {
					for _, gb := range g.Blocks {
						for _, in := range gb.Instrs {
							if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
								add(g, gb, depth+1)
							}
						}
					}
				}
				return
			}
		}
		l := around(at, 0)
		if len(l) == 0 {
			l = []*ssa.Function{f}
		}
		for _, g := range l {
			x.loops[g] = true
		}
	}
	for _, f := range p.Funcs {
		if f.Pkg != p.Pkg("dht") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.UnOp:
					if i.Op == token.ARROW && isItem(i.X.Type()) {
						add(f, b, 0)
					}
				case *ssa.Select:
					for _, c := range i.States {
						if c.Dir == types.RecvOnly && isItem(c.Chan.Type()) {
							add(f, b, 0)
						}
					}
				}
			}
		}
	}
}

// shared: the variable of the loop that a task refers to is the same one for all tasks.
func (x *flow) shared(in ssa.Instruction, args []ssa.Value) (string, bool) {
	for _, a := range args {
		if c, ok := a.(*ssa.ChangeType); ok {
			a = c.X
		}
		mc, ok := a.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		inLoop := func(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
			out := map[*ssa.BasicBlock]bool{}
			for _, h := range loopsOf(b) {
				out[h] = true
			}
			return out
		}
		at := inLoop(mc.Block())
		for _, v := range mc.Bindings {
			al, ok := v.(*ssa.Alloc)
			if !ok || al.Parent() != mc.Parent() {
				continue
			}
			made := inLoop(al.Block())
			for h := range at {
				if made[h] {
					continue
				}
				for _, u := range *al.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == al && inLoop(st.Block())[h] {
						return al.Comment, true
					}
				}
			}
		}
	}
	return "", false
}

func (x *flow) announce(f *ssa.Function) {
	p, r := x.p, x.r
	name := p.FuncName(f)
	var h Hooks
	r.Ob(flowQueue, name)
	h.Send = func(s *Sim, st *State, in ssa.Instruction, ch, val *Term, blocking bool) {
		if st.F["sent"] > 0 {
			x.bad(flowQueue, name, p.InstrPos(in), "an announce is queued twice", st)
		}
		st.F["sent"]++
		ctx := s.Params[0]
		if val.isNil() || val.isConst() {
			x.bad(flowQueue, name, p.InstrPos(in), "what is queued is not the announce", st)
		} else if !val.any(func(y *Term) bool { return y == ctx }) {
			r.Note("%s: what is queued is not recognised", p.InstrPos(in))
		}
	}
	h.SelectHead = func(s *Sim, st *State, in *ssa.Select, chans []*Term) {
		for _, c := range in.States {
			if c.Dir == types.SendOnly {
				st.F["offered"] = 1
			}
		}
	}
	h.Go = func(s *Sim, st *State, in *ssa.Go, fn *Term, args []*Term) {
		if g := fn.fnOf(); g != nil {
			if g == x.fetch || p.staticReach(g)[x.fetch] {
				st.F["sent"]++
			}
			for k := range p.staticReach(g) {
				if sends(k) {
					st.F["sent"]++
					r.Note("%s: the announce is queued by another goroutine", p.InstrPos(in))
				}
			}
		}
	}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if c.Name == "(*misc.WorkPool).AsyncSubmit" {
			st.F["sent"]++
			return &Verdict{Opaque: true}
		}
		if c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg != p.Pkg("dht") && !sends(c.Fn) && !strings.HasPrefix(c.Name, "(*misc.Dict)") {
			return &Verdict{Opaque: true}
		}
		return nil
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		if st.F["sent"] == 0 && st.F["offered"] == 0 && st.F["recovered"] == 0 {
			x.bad(flowQueue, name, p.Pos(f.Pos()), "an announce can be answered without being queued for download", st)
		}
	}
	h.Panic = func(s *Sim, st *State, in *ssa.Panic, val *Term) { st.F["recovered"] = 1 }
	r.explore(p, f, h, Opts{}, nil)
}

// sends: the function contains a channel send.
func sends(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Send:
				return true
			case *ssa.Select:
				for _, c := range i.States {
					if c.Dir == types.SendOnly {
						return true
					}
				}
			}
		}
	}
	return false
}

// tasks: the download loop and the download.
func (x *flow) tasks() {
	p, r := x.p, x.r
	roots, _ := p.fetchRoots(x.fetch)
	isRoot := map[*ssa.Function]bool{}
	for _, f := range roots {
		isRoot[f] = true
	}
	r.Ob(flowSubmit, "loops")
	if len(x.loops) == 0 {
		r.Note("no loop that hands announces to download tasks was found")
	}
	for f := range x.loops {
		name := p.FuncName(f)
		var h Hooks
		h.Recv = func(s *Sim, st *State, in ssa.Instruction, ch, val *Term, blocking bool) {
			et := val.typ
			if et == nil || !p.isPtrTo(et, "dht/krpc", "RpcContext") {
				st.F["stopped"] = 1
				return
			}
			x.lost(s, st, name, p.InstrPos(in))
			st.L["item"] = []*Term{val}
			st.F["given"] = 0
		}
		give := func(st *State, where string) {
			r.Ob(flowSubmit, name)
			if len(st.L["item"]) == 0 {
				return
			}
			st.F["given"]++
			if st.F["given"] > 1 {
				x.bad(flowSubmit, name, where, "an announce is downloaded twice", st)
			}
		}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			for _, a := range c.Args {
				if g := a.fnOf(); g != nil && (isRoot[g] || p.staticReach(g)[x.fetch]) && (c.Fn == nil || c.Fn.Pkg != p.Pkg("dht")) {
					give(st, p.InstrPos(c.Instr))
					if v, bad := x.shared(c.Instr, c.Instr.Common().Args); bad {
						x.bad(flowSubmit, name, p.InstrPos(c.Instr), "the tasks share the variable "+v+", which the loop sets to the next announce: one announce may be downloaded twice and another one not at all", st)
					}
					return &Verdict{Opaque: true}
				}
			}
			if c.Fn == x.fetch {
				give(st, p.InstrPos(c.Instr))
				return &Verdict{Opaque: true}
			}
			if c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg != p.Pkg("dht") {
				return &Verdict{Opaque: true}
			}
			return nil
		}
		h.Go = func(s *Sim, st *State, in *ssa.Go, fn *Term, args []*Term) {
			if g := fn.fnOf(); g != nil && (isRoot[g] || p.staticReach(g)[x.fetch]) {
				give(st, p.InstrPos(in))
				if v, bad := x.shared(in, append([]ssa.Value{in.Call.Value}, in.Call.Args...)); bad {
					x.bad(flowSubmit, name, p.InstrPos(in), "the tasks share the variable "+v+", which the loop sets to the next announce: one announce may be downloaded twice and another one not at all", st)
				}
			}
		}
		h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) {
			x.lost(s, st, name, p.InstrPos(to.Instrs[len(to.Instrs)-1]))
			delete(st.L, "item")
			st.F["given"] = 0
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			x.lost(s, st, name, p.Pos(f.Pos()))
			if len(st.L["item"]) > 0 && !x.closed(s, st) && st.F["stopped"] == 0 {
				x.bad(flowLoop, name, p.Pos(f.Pos()), "the loop that takes announces from the queue ends after an announce", st)
			}
		}
		r.explore(p, f, h, Opts{MaxStates: 20000}, nil)
	}
	for _, f := range roots {
		x.task(f)
	}
}

func (x *flow) lost(s *Sim, st *State, name, where string) {
	if len(st.L["item"]) == 0 || st.F["given"] > 0 {
		return
	}
	if x.closed(s, st) {
		return
	}
	x.bad(flowSubmit, name, where, "an announce is taken from the queue without a download being started for it", st)
}

// closed: what was received is known to be nothing, because the channel is closed.
func (x *flow) closed(s *Sim, st *State) bool {
	it := st.L["item"][0]
	if t, k := s.truth(st, s.tt.mk("isnil", "", types.Typ[types.Bool], it)); k && t {
		return true
	}
	if t, k := s.truth(st, s.tt.mk("ext", "ok", types.Typ[types.Bool], it)); k && !t {
		return true
	}
	for c, v := range st.facts {
		if !v && c.op == "ext" && c.aux == "recvok" {
			return true
		}
	}
	return false
}

func (x *flow) task(f *ssa.Function) {
	p, r := x.p, x.r
	name := p.FuncName(f)
	var h Hooks
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if c.Fn == x.fetch {
			return &Verdict{Opaque: true}
		}
		if len(st.L["got"]) > 0 {
			got := st.L["got"][0]
			for _, a := range c.Args {
				if c.Fn == nil && a.any(func(y *Term) bool { return y == got }) && !strings.HasPrefix(c.Name, "builtin:") {
					st.F["used"] = 1
				}
			}
		}
		return nil
	}
	h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
		if c.Fn == x.fetch && len(res) == 2 {
			st.F["fetched"]++
			if st.F["fetched"] > 1 {
				x.bad(flowSubmit, name, p.InstrPos(c.Instr), "an announce is downloaded twice", st)
			}
			st.L["got"] = []*Term{res[0]}
			st.L["goterr"] = []*Term{res[1]}
			return
		}
		if st.F["fetched"] > 0 && c.Fn == nil {
			if i := errIndex(c.Instr.Common().Signature()); i >= 0 && i < len(res) {
				st.AddL("errs", res[i])
			}
		}
	}
	h.Panic = func(s *Sim, st *State, in *ssa.Panic, val *Term) { st.F["panicked"] = 1 }
	h.Return = func(s *Sim, st *State, res []*Term) {
		r.Ob(flowStore, name)
		if st.F["panicked"] > 0 {
			return
		}
		if st.F["fetched"] == 0 {
			x.bad(flowSubmit, name, p.Pos(f.Pos()), "the task of an announce can end without a download", st)
			return
		}
		if s.errState(st, st.L["goterr"][0]) == 2 || st.F["used"] > 0 {
			return
		}
		for _, e := range st.L["errs"] {
			if s.errState(st, e) == 2 {
				return
			}
		}
		x.bad(flowStore, name, p.Pos(f.Pos()), "a download that succeeded is not written to a file", st)
	}
	r.explore(p, f, h, Opts{}, nil)
}
