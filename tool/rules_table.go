package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "ghost accounting over all paths of the mutating operations of the routing table: an insertion that succeeded is owed one increment of the size field, a replaced bucket one subtraction of its size exactly when its nodes are re-added by counting; success is only returned with the node known to be in a bucket, an insertion is never reported as an error",
		func(p *Program, r *Report) { tableRun(p, r, NewReport("C14")) })
	register("C14", "bounds by difference constraints at every write of a bucket's node array and of the bucket index, with other goroutines' changes assumed at each lock acquisition; a bucket is split only when the last bucket was found full and the index is below the limit; insertions only on paths where the node was found absent",
		func(p *Program, r *Report) { tableRun(p, NewReport("C13"), r); bucketRun(p, r) })
	register("C15", "value-number equality facts on the paths that report two nodes as equal or return a looked up node, and a data-flow query: no case-folding, trimming or text-decoding operation is applied to a value that derives from a node id",
		ruleIdentity)
}

// cases enumerates the truth values a condition can have in st.
func (s *Sim) cases(st *State, t *Term, f func(st *State, v bool)) {
	if v, ok := s.truth(st, t); ok {
		f(st, v)
		return
	}
	for _, v := range []bool{true, false} {
		c := st.clone()
		if s.assume(c, t, v) {
			f(c, v)
		}
	}
}

func (p *Program) fieldAddrOf(t *Term, typ types.Type) (name string, ok bool) {
	if t.op != "fieldaddr" || typ == nil {
		return "", false
	}
	i := strings.IndexByte(t.aux, '#')
	if t.aux[i+1:] != typ.String() {
		return "", false
	}
	return t.aux[:i], true
}

func (p *Program) methodsOf(rel, typ string) []*ssa.Function {
	t := p.NamedType(rel, typ)
	var out []*ssa.Function
	if t == nil {
		return nil
	}
	for _, f := range p.Funcs {
		if f.Parent() == nil && f.Signature.Recv() != nil && f.Synthetic == "" && types.Identical(derefType(f.Signature.Recv().Type()), t) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return p.FuncName(out[i]) < p.FuncName(out[j]) })
	return out
}

// stores: fields of typ that fn or what it calls writes, other than to objects it creates.
func (p *Program) modifies(fn *ssa.Function, typ types.Type, fields ...string) bool {
	for _, f := range fields {
		if p.modset[fn]["field:"+typ.String()+"."+f] {
			return true
		}
	}
	return false
}

const bsizeOp = "bucket size"

func tableRun(p *Program, r13, r14 *Report) {
	tt := p.NamedType("dht", "RouteTable")
	bt := p.NamedType("dht", "Bucket")
	if tt == nil || bt == nil {
		return
	}
	name := p.FuncName
	isBucketPtr := func(t types.Type) bool { return p.isPtrTo(t, "dht", "Bucket") }
	add := p.Method("dht", "RouteTable", "AddNode")
	ctor := p.Func("dht", "NewRouteTable")
	var roots []*ssa.Function
	queued := map[*ssa.Function]bool{}
	push := func(f *ssa.Function) {
		if f != nil && !queued[f] {
			queued[f] = true
			roots = append(roots, f)
		}
	}
	push(ctor)
	push(add)
	for _, f := range p.methodsOf("dht", "RouteTable") {
		if f.Object().Exported() && f != add && p.modifies(f, tt, "size", "lastBucketIndex", "nodeMap") {
			push(f)
		}
	}
	newBucket := p.Func("dht", "NewBucket")
	capField := "" // the field that holds the bucket capacity
	readd := map[string]bool{}
	replaced := map[string]string{}
	table := p.methodsOf("dht", "RouteTable")
	_ = table

	for i := 0; i < len(roots); i++ {
		root := roots[i]
		isCtor := root == ctor
		var nodeParam, recv, last0 *Term
		fieldTerm := func(s *Sim, base *Term, f string) *Term {
			st := tt.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f {
					return s.fieldAddr(base, types.NewPointer(tt), i)
				}
			}
			return nil
		}
		pair := func(s *Sim, b, n *Term) *Term { return s.tt.mk("attr:pair", "", nil, b, n) }
		unknown := func(st *State, why string, in ssa.Instruction) {
			st.F["unknown"] = 1
			r13.Note("%s: %s at %s", name(root), why, name(in.Parent()))
		}
		// bucket an element was taken from, other than the one it goes to
		movedFrom := func(s *Sim, st *State, n, to *Term) *Term {
			var src *Term
			n.any(func(x *Term) bool {
				if x != to && x.typ != nil && isBucketPtr(x.typ) {
					src = x
					return true
				}
				return false
			})
			return src
		}
		settle := func(st *State) {
			if st.F["mvpend"] == 0 {
				return
			}
			st.F["mvpend"] = 0
			for _, x := range st.L["mvsrc"] {
				st.AddL("uncounted", x)
			}
			delete(st.L, "mvsrc")
		}
		checkKeys := func(s *Sim, st *State) {
			last := s.load(st, fieldTerm(s, recv, "lastBucketIndex"), types.Typ[types.Int])
			for _, k := range st.L["keys"] {
				if st.F["unknownlast"] == 0 && s.entailsLe(st, last, k, -1) {
					r14.Bad("bucket index below the limit", name(root)+": stored index", p.Pos(root.Pos()), "a bucket is stored under an index above the last bucket index", st.path(12))
				}
			}
			delete(st.L, "keys")
		}
		var h Hooks
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			if c.Fn == newBucket && newBucket != nil {
				if isCtor {
					st.AddL("newcap", c.Args[0])
				} else if capField != "" {
					k := s.load(st, fieldTerm(s, recv, capField), types.Typ[types.Int])
					r14.Ob("every bucket has the table's bucket capacity", name(c.Frame.fn))
					if a := c.Args[0]; a != k {
						d := s.lin(s.sub(a, k))
						if len(d.m) == 0 || a.isConst() || a.op == "load" || a.any(func(x *Term) bool { return x.op == "quo" || x.op == "mul" || x.op == "addw" || x.op == "subw" }) {
							r14.Bad("every bucket has the table's bucket capacity", name(c.Frame.fn), p.InstrPos(c.Instr), "a new bucket is created with a capacity other than the table's bucket capacity ("+a.String()+"): nodes of a split bucket may not fit", st.path(8))
						} else {
							r14.Note("capacity of the bucket created in %s not resolved", name(c.Frame.fn))
						}
					}
				}
				return nil
			}
			if c.Fn == nil || c.Fn.Signature.Recv() == nil || len(c.Args) == 0 {
				return nil
			}
			rt := derefType(c.Fn.Signature.Recv().Type())
			if p.isNamed(rt, "dht", "NodeInfo") && c.Fn.Name() == "Equals" {
				st.F["searched"] = 1
			}
			if !types.Identical(rt, bt) {
				return nil
			}
			b := c.Args[0]
			T, F := s.tt.Bool(true), s.tt.Bool(false)
			switch c.Fn.Name() {
			case "Add":
				n := c.Args[1]
				site := name(c.Frame.fn)
				src := movedFrom(s, st, n, b)
				freshB := b.op == "obj"
				r14.Ob("only absent nodes are added", site)
				if !freshB && src == nil && st.F["searched"] == 0 {
					ok := st.HasL("absent", pair(s, b, n))
					if !ok {
						r14.Bad("only absent nodes are added", site, p.InstrPos(c.Instr), "a node is added to a bucket on a path on which the bucket was not found to lack it", st.path(12))
					}
				}
				var outs []Outcome
				if !st.HasL("full", b) {
					outs = append(outs, Outcome{Res: []*Term{T}, Apply: func(st *State) bool {
						settle(st)
						delete(st.L, "notfull")
						st.DelL("absent", pair(s, b, n))
						st.AddL("in", n)
						st.AddL("added", n)
						st.AddL("grown", b)
						if src != nil {
							readd[src.String()] = true
							st.F["mvpend"] = 1
							st.AddL("mvsrc", src)
						} else {
							st.F["owed"]++
							if st.F["owed"] > 3 {
								st.F["owed"] = 3
							}
						}
						return true
					}})
				}
				sure := freshB && (src != nil || !st.HasL("grown", b)) || st.HasL("notfull", b)
				if !sure || len(outs) == 0 {
					outs = append(outs, Outcome{Res: []*Term{F}, Apply: func(st *State) bool {
						if !freshB || src == nil {
							st.AddL("full", b)
						}
						return true
					}})
				}
				return &Verdict{Outcomes: outs}
			case "Exist":
				n := c.Args[1]
				pr := pair(s, b, n)
				var outs []Outcome
				if !st.HasL("absent", pr) {
					outs = append(outs, Outcome{Res: []*Term{T}, Apply: func(st *State) bool { st.AddL("in", n); st.AddL("has", pr); return true }})
				}
				if !st.HasL("has", pr) {
					outs = append(outs, Outcome{Res: []*Term{F}, Apply: func(st *State) bool { st.AddL("absent", pr); return true }})
				}
				return &Verdict{Outcomes: outs}
			case "Full":
				var outs []Outcome
				if !st.HasL("notfull", b) {
					outs = append(outs, Outcome{Res: []*Term{T}, Apply: func(st *State) bool { st.AddL("full", b); return true }})
				}
				if !st.HasL("full", b) {
					outs = append(outs, Outcome{Res: []*Term{F}, Apply: func(st *State) bool { st.AddL("notfull", b); return true }})
				}
				return &Verdict{Outcomes: outs}
			case "Size":
				v := s.tt.mk("app", bsizeOp, types.Typ[types.Int], b)
				if st.HasL("grown", b) {
					v = s.tt.mk("app", bsizeOp+" now", types.Typ[types.Int], b, s.tt.Int(int64(len(st.L["grown"]))))
				}
				return &Verdict{Outcomes: []Outcome{{Res: []*Term{v}}}}
			}
			return nil
		}
		h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			f, ok := p.fieldAddrOf(addr, tt)
			if !ok {
				return
			}
			old := s.load(st, addr, types.Typ[types.Int])
			switch f {
			case "size":
				r13.Ob("size accounts for every insertion", name(in.Parent()))
				d := s.lin(s.sub(val, old))
				for a, k := range d.m {
					if a.op == "app" && a.aux == bsizeOp && k == -1 {
						st.AddL("sub", a.sub[0])
						continue
					}
					if a.op == "app" && a.aux == bsizeOp && k == 1 && st.DelL("sub", a.sub[0]) {
						continue
					}
					// a full bucket holds as many nodes as a bucket can
					if capField != "" && k == -1 && a == s.load(st, fieldTerm(s, addr.sub[0], capField), types.Typ[types.Int]) {
						done := false
						for _, b := range st.L["full"] {
							last := s.load(st, fieldTerm(s, addr.sub[0], "lastBucketIndex"), types.Typ[types.Int])
							if b.op != "lookup" || done || b.sub[1] != last && !s.entailsLe(st, last, b.sub[1], 0) {
								continue
							}
							if b, _ = s.mapLookup(st, b.sub[0], last, b.typ); !st.HasL("sub", b) {
								st.AddL("sub", b)
								done = true
							}
						}
						if done {
							continue
						}
					}
					unknown(st, "the size is set to a value that is not understood", in)
					return
				}
				c := d.c
				if c == 1 && st.F["mvpend"] == 1 {
					st.F["mvpend"] = 0
					for _, x := range st.L["mvsrc"] {
						st.AddL("counted", x)
					}
					delete(st.L, "mvsrc")
					return
				}
				o := st.F["owed"] - int(c)
				if o < -3 {
					o = -3
				}
				if o > 3 {
					o = 3
				}
				st.F["owed"] = o
			case "lastBucketIndex":
				if isCtor {
					return
				}
				site := name(in.Parent())
				d := s.lin(s.sub(val, old))
				if len(d.m) != 0 {
					r14.Note("lastBucketIndex is set to a value that is not understood in %s", site)
					return
				}
				r14.Ob("bucket index below the limit", site)
				if d.c > 1 {
					r14.Bad("bucket index below the limit", site, p.InstrPos(in), "the bucket index grows by more than one", st.path(10))
					return
				}
				if d.c <= 0 {
					return
				}
				str := tt.Underlying().(*types.Struct)
				ok := false
				for i := 0; i < str.NumFields(); i++ {
					n := str.Field(i).Name()
					if n == "size" || n == "lastBucketIndex" || !isIntType(str.Field(i).Type()) || n == capField {
						continue
					}
					if s.entailsLe(st, old, s.load(st, s.fieldAddr(addr.sub[0], types.NewPointer(tt), i), types.Typ[types.Int]), -1) {
						ok = true
					}
				}
				byLen := false
				for v := range st.num.vars {
					byLen = byLen || v.any(func(x *Term) bool { return x.op == "res" && strings.Contains(x.aux, "len(map)") })
				}
				if !ok && byLen {
					r14.Note("the number of buckets is bounded by the length of the map in %s", site)
				} else if !ok {
					r14.Bad("bucket index below the limit", site, p.InstrPos(in), "a bucket is created on a path on which the bucket index is not known to be below the table's limit", st.path(12))
				}
				if root == ctor || !entersSplit(p, root, add, roots) {
					return
				}
				r14.Ob("only a full last bucket is split", site)
				full := false
				for _, b := range st.L["full"] {
					b = unstale(b)
					if b.op == "lookup" && s.entailsLe(st, old, b.sub[1], 0) {
						full = true
					}
				}
				bySize := false
				for v := range st.num.vars {
					v.any(func(x *Term) bool {
						if x.op != "app" || !strings.HasPrefix(x.aux, bsizeOp) {
							return false
						}
						b := unstale(x.sub[0])
						if capField == "" || b.op != "lookup" {
							bySize = true
							return false
						}
						var caps []*Term
						caps = append(caps, s.load(st, fieldTerm(s, recv, capField), types.Typ[types.Int]))
						bs := bt.Underlying().(*types.Struct)
						for i := 0; i < bs.NumFields(); i++ {
							if isIntType(bs.Field(i).Type()) && bs.Field(i).Name() != "size" {
								caps = append(caps, s.load(st, s.fieldAddr(x.sub[0], types.NewPointer(bt), i), types.Typ[types.Int]))
							}
						}
						for _, k := range caps {
							if s.entailsLe(st, k, x, 0) && s.entailsLe(st, old, b.sub[1], 0) {
								full = true
							}
						}
						return false
					})
				}
				if !full && !bySize {
					r14.Bad("only a full last bucket is split", site, p.InstrPos(in), "a bucket is split on a path on which the last bucket was not found full", st.path(12))
				}
			}
		}
		h.MapUpdate = func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
			if m.typ == nil || isCtor {
				return
			}
			mt, ok := m.typ.Underlying().(*types.Map)
			if !ok || !isBucketPtr(mt.Elem()) {
				return
			}
			st.AddL("keys", k)
			old, _ := s.mapLookup(st, m, k, mt.Elem())
			if old == v {
				return
			}
			switch {
			case st.F["unknownlast"] == 0 && s.entailsLe(st, k, last0, 0):
				settle(st)
				st.AddL("repl", old)
				replaced[old.String()] = p.InstrPos(in) + "\x00" + name(in.Parent())
			case st.F["unknownlast"] == 0 && s.entailsLe(st, last0, k, -1):
			default:
				unknown(st, "a bucket is stored under an index that is not understood", in)
			}
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			settle(st)
			site := name(root)
			if isCtor {
				r13.Ob("size accounts for every insertion", site)
				if st.F["unknown"] == 0 && st.F["owed"] != 0 {
					r13.Bad("size accounts for every insertion", site, p.Pos(root.Pos()), "the size of a new table differs from the number of nodes in it", st.path(8))
				}
				// which field holds the bucket capacity
				str := tt.Underlying().(*types.Struct)
				for _, a := range st.L["newcap"] {
					for i := 0; i < str.NumFields(); i++ {
						if isIntType(str.Field(i).Type()) && len(res) > 0 {
							if v, ok := st.heap[s.fieldAddr(res[0], types.NewPointer(tt), i)]; ok && v == a && !v.isConst() {
								capField = str.Field(i).Name()
							}
						}
					}
				}
				return
			}
			if st.F["unknown"] == 0 {
				r13.Ob("size accounts for every insertion", site)
				if o := st.F["owed"]; o != 0 {
					msg := "a node was inserted without counting it in the size"
					if o < 0 {
						msg = "the size grows although no node was inserted"
					}
					r13.Bad("size accounts for every insertion", site, p.Pos(root.Pos()), msg, st.path(14))
				}
				for _, b := range st.L["repl"] {
					counted, uncounted, sub := st.HasL("counted", b), st.HasL("uncounted", b), st.HasL("sub", b)
					if counted && !sub || uncounted && sub || counted && uncounted {
						r13.Bad("size accounts for every insertion", site+": split", p.Pos(root.Pos()), "splitting a bucket changes the size: the old bucket's nodes are re-added by counting but not subtracted (or the reverse)", st.path(14))
					}
				}
				for _, b := range st.L["sub"] {
					if !st.HasL("repl", b) {
						r13.Bad("size accounts for every insertion", site+": subtracted", p.Pos(root.Pos()), "the size of a bucket is subtracted although the bucket stays in the table", st.path(14))
					}
				}
			}
			checkKeys(s, st)
			ei := errIndex(root.Signature)
			if nodeParam == nil || ei < 0 || ei >= len(res) {
				return
			}
			s.cases(st, s.eqT(res[ei], s.tt.Nil(nil)), func(st *State, isNil bool) {
				if isNil {
					r13.Ob("success means stored", site)
					if !st.HasL("in", nodeParam) && st.F["searched"] == 0 {
						r13.Bad("success means stored", site, p.Pos(root.Pos()), "success is reported on a path on which the node was neither inserted nor found in the table", st.path(14))
					}
				} else {
					r13.Ob("error means not inserted", site)
					if st.HasL("added", nodeParam) {
						r13.Bad("error means not inserted", site, p.Pos(root.Pos()), "an error is reported although the node was inserted", st.path(14))
					}
				}
			})
		}
		o := Opts{MaxStates: 60000}
		o.OnRecursion = func(s *Sim, st *State, c *CallEv) *Verdict {
			ei := errIndex(c.Fn.Signature)
			var n *Term
			for _, a := range c.Args {
				if a.typ != nil && p.isPtrTo(a.typ, "dht", "NodeInfo") {
					n = a
				}
			}
			if n == nil || ei != c.Fn.Signature.Results().Len()-1 || ei != 0 {
				return nil
			}
			push(c.Fn)
			site := s.siteID(c.Frame, c.Instr, "rec")
			eff := func(st *State) {
				settle(st)
				checkKeys(s, st)
				s.havoc(st, p.modset[c.Fn], site)
				for _, k := range []string{"full", "notfull", "absent"} {
					delete(st.L, k)
				}
				st.F["unknownlast"] = 1
				if src := movedFrom(s, st, n, s.tt.Nil(nil)); src != nil {
					st.AddL("counted", src)
					readd[src.String()] = true
				}
			}
			e := s.tt.mk("res", site, c.Fn.Signature.Results().At(0).Type(), n)
			return &Verdict{Outcomes: []Outcome{
				{Res: []*Term{s.tt.Nil(nil)}, Apply: func(st *State) bool { eff(st); st.AddL("in", n); st.AddL("added", n); return true }},
				{Res: []*Term{e}, Apply: func(st *State) bool {
					eff(st)
					s.fresh(st, e)
					st.facts[s.tt.mk("isnil", "", nil, e)] = false
					return true
				}},
			}}
		}
		rep := NewReport("")
		rep.explore(p, root, h, o, func(s *Sim, st *State) {
			for i, prm := range root.Params {
				if p.isPtrTo(prm.Type(), "dht", "NodeInfo") && !isCtor {
					nodeParam = s.Params[i]
				}
				if p.isPtrTo(prm.Type(), "dht", "RouteTable") {
					recv = s.Params[i]
				}
			}
			if recv != nil {
				last0 = s.load(st, fieldTerm(s, recv, "lastBucketIndex"), types.Typ[types.Int])
			}
		})
		for _, r := range []*Report{r13, r14} {
			r.States += rep.States
			r.Notes = append(r.Notes, rep.Notes...)
			for f := range rep.Funcs {
				r.Funcs[f] = true
			}
		}
	}
	for b, where := range replaced {
		i := strings.IndexByte(where, 0)
		r13.Ob("moved nodes are kept", where[i+1:])
		if !readd[b] {
			r13.Bad("moved nodes are kept", where[i+1:], where[:i], "a bucket is replaced and the nodes it held are not put into the table again", nil)
		}
	}
	// the reported size is the maintained field
	if sz := p.Method("dht", "RouteTable", "Size"); sz != nil {
		r13.Ob("reported size", name(sz))
		var h Hooks
		h.Return = func(s *Sim, st *State, res []*Term) {
			f := s.fieldAddr(s.Params[0], sz.Params[0].Type(), fieldNo(tt, "size"))
			v := s.load(st, f, types.Typ[types.Int])
			if len(res) != 1 || res[0] == v {
				return
			}
			d := s.lin(s.sub(res[0], v))
			bad := len(d.m) == 0 || res[0].isConst()
			if n, ok := memberOfTerm(res[0]); ok && n != "size" {
				bad = true
			}
			if len(d.m) == 1 && len(s.lin(res[0]).m) == 1 {
				for a := range s.lin(res[0]).m {
					bad = bad || a == v
				}
			}
			if bad {
				r13.Bad("reported size", name(sz), p.Pos(sz.Pos()), "the reported size is "+res[0].String()+", not the maintained number of nodes", st.path(6))
			} else {
				r13.Note("reported size computed as %v", res[0])
			}
		}
		rep := NewReport("")
		rep.explore(p, sz, h, Opts{}, nil)
		r13.States += rep.States
	}
	r13.Need("success means stored", 1)
	r13.Need("size accounts for every insertion", 2)
	r14.Need("only absent nodes are added", 1)
}

// entersSplit: roots whose paths contain the decision to split (not helpers that were only queued as recursion targets without it).
func entersSplit(p *Program, root, add *ssa.Function, roots []*ssa.Function) bool { return root == add }

func fieldNo(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return 0
}

// memberOfTerm: the name of the field a term was loaded from.
func memberOfTerm(t *Term) (string, bool) {
	t = unstale(t)
	if t.op == "load" && t.sub[0].op == "fieldaddr" {
		return shortAux(t.sub[0].aux), true
	}
	return "", false
}

// fieldFromParam: the integer field a constructor initialises with its integer parameter.
func (p *Program) fieldFromParam(ctor *ssa.Function, t types.Type) int {
	str := derefStruct(t)
	if ctor == nil || str == nil {
		return -1
	}
	field := -1
	var h Hooks
	h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op != "fieldaddr" || !isIntType(orType(val.typ)) {
			return
		}
		for _, q := range s.Params {
			if stripConv(val) != q {
				continue
			}
			for i := 0; i < str.NumFields(); i++ {
				if addr == s.fieldAddr(addr.sub[0], types.NewPointer(t), i) && field < 0 {
					field = i
				}
			}
		}
	}
	NewSim(p, nil, h, Opts{MaxStates: 2000}).Run(ctor, nil)
	return field
}

// bucketRun: the bucket's own invariants.
func bucketRun(p *Program, r *Report) {
	bt := p.NamedType("dht", "Bucket")
	if bt == nil {
		return
	}
	g := newGuards(p)
	str := bt.Underlying().(*types.Struct)
	nodesF, sizeF, capF := -1, -1, -1
	for i := 0; i < str.NumFields(); i++ {
		f := str.Field(i)
		if sl, ok := f.Type().Underlying().(*types.Slice); ok && p.isPtrTo(sl.Elem(), "dht", "NodeInfo") {
			nodesF = i
		}
		if isIntType(f.Type()) {
			if i == p.fieldFromParam(p.Func("dht", "NewBucket"), bt) {
				capF = i
			} else if sizeF < 0 || g.fields[bt.String()][f.Name()] {
				sizeF = i
			}
		}
	}
	if nodesF < 0 || sizeF < 0 {
		r.Note("the bucket keeps its nodes in a form that is not understood")
		return
	}
	fa := func(s *Sim, b *Term, i int) *Term { return s.fieldAddr(b, types.NewPointer(bt), i) }
	ld := func(s *Sim, st *State, b *Term, i int) *Term { return s.load(st, fa(s, b, i), str.Field(i).Type()) }
	setup := func(s *Sim, st *State) {
		b := s.Params[0]
		s.addLe(st, s.tt.Int(0), ld(s, st, b, sizeF), 0)
		s.addLe(st, ld(s, st, b, sizeF), s.tt.Int(1<<40), 0)
		if capF >= 0 {
			s.addLe(st, ld(s, st, b, capF), s.tt.Int(1<<40), 0)
		}
		s.addLe(st, ld(s, st, b, sizeF), s.lenTerm(st, ld(s, st, b, nodesF)), 0)
	}
	base := func() Hooks {
		var h Hooks
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			if op := lockOp(c.Name); op == "lock" || op == "rlock" {
				g.acquire(s, st, c)
				setup(s, st)
			}
			if c.Fn != nil && c.Fn.Name() == "Equals" && len(c.Args) == 2 && p.isNamed(derefType(c.Args[0].typ), "dht", "NodeInfo") {
				T, F := s.tt.Bool(true), s.tt.Bool(false)
				return &Verdict{Outcomes: []Outcome{
					{Res: []*Term{T}, Apply: func(st *State) bool { st.F["equal"] = 1; return true }},
					{Res: []*Term{F}},
				}}
			}
			return nil
		}
		return h
	}
	// nodes with the same id and address are the same
	if eq := p.Method("dht", "NodeInfo", "Equals"); eq != nil && len(eq.Params) == 2 {
		var h Hooks
		h.Return = func(s *Sim, st *State, res []*Term) {
			if len(res) != 1 {
				return
			}
			s.cases(st, res[0], func(st *State, v bool) {
				if v {
					return
				}
				r.Ob("the same node is recognised", p.FuncName(eq))
				of := func(f, n *Term) bool {
					return f.any(func(x *Term) bool { return x != n && x.typ != nil && x.has(n) && (x.op == "load" || x.op == "field") })
				}
				for f, v := range st.facts {
					switch {
					case f.op == "isnil" && v:
						return
					case f.op == "eq" && !v:
						ptr := false
						for _, x := range f.sub {
							if x.typ != nil {
								if _, ok := x.typ.Underlying().(*types.Pointer); ok {
									ptr = true // where they lie says nothing
								}
							}
						}
						if !ptr && of(f, s.Params[0]) && of(f, s.Params[1]) {
							return
						}
					case f.op != "isnil" && f.op != "eq":
						if of(f, s.Params[0]) && of(f, s.Params[1]) {
							return
						}
					}
				}
				for t := range st.num.vars {
					if of(t, s.Params[0]) || of(t, s.Params[1]) {
						return // numbers were compared
					}
				}
				r.Bad("the same node is recognised", p.FuncName(eq), p.Pos(eq.Pos()), "two nodes can be reported as different although neither their ids nor their addresses were found to differ: a bucket can hold the same node twice", st.path(8))
			})
		}
		r.explore(p, eq, h, Opts{}, nil)
	}
	isNodes := func(s *Sim, st *State, b, t *Term) bool {
		t = unstale(t)
		n := ld(s, st, b, nodesF)
		return t == n || t.op == "slice" && t.sub[0] == n
	}
	writes := func(fn *ssa.Function) bool {
		return fn.Name() == "Add" || p.modifies(fn, bt, str.Field(nodesF).Name(), str.Field(sizeF).Name())
	}
	o := Opts{Numeric: true, MaxStates: 30000}
	for _, fn := range p.methodsOf("dht", "Bucket") {
		fn := fn
		site := p.FuncName(fn)
		if fn.Object().Exported() && writes(fn) {
			h := base()
			h.Index = func(s *Sim, st *State, in ssa.Instruction, x, i *Term, ok bool) {
				// a bounds check that is not known to hold must not count as a test for room
				if b := s.Params[0]; isNodes(s, st, b, x) && st.F["indexed"] == 0 {
					st.F["indexed"] = 1
					if s.entailsLe(st, ld(s, st, b, sizeF), s.lenTerm(st, ld(s, st, b, nodesF)), -1) {
						st.F["lenroom"] = 1
					}
				}
			}
			h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
				b := s.Params[0]
				size := ld(s, st, b, sizeF)
				room := func(i *Term) bool {
					if capF >= 0 && s.entailsLe(st, i, ld(s, st, b, capF), -1) {
						return true
					}
					if st.F["indexed"] == 1 {
						return st.F["lenroom"] == 1
					}
					n := ld(s, st, b, nodesF)
					return s.entailsLe(st, i, s.lenTerm(st, n), -1) || s.entailsLe(st, i, s.capTerm(st, n), -1)
				}
				if addr == fa(s, b, nodesF) && st.F["indexed"] == 0 {
					if room(size) {
						st.F["lenroom"] = 1
					}
					st.F["indexed"] = 1
				}
				switch {
				case addr == fa(s, b, sizeF):
					st.F["sized"]++
					d := s.lin(s.sub(val, size))
					r.Ob("a bucket holds at most its capacity", site+": size")
					if len(d.m) == 0 && d.c > 0 {
						if d.c > 1 || !room(size) {
							r.Bad("a bucket holds at most its capacity", site+": size", p.InstrPos(in), "the bucket's size grows on a path on which it is not known to be below the capacity (other goroutines may have filled the bucket before the lock was taken)", st.path(12))
						}
						st.F["grow"] += int(d.c)
					} else if len(d.m) != 0 && val.op == "addw" {
						r.Note("size arithmetic in %s not understood", site)
					}
				case addr.op == "indexaddr" && isNodes(s, st, b, addr.sub[0]):
					st.F["stored"]++
					if st.F["stored"] > 2 {
						st.F["stored"] = 2
					}
					r.Ob("a node is stored behind the existing ones", site)
					i := addr.sub[1]
					if addr.sub[0].op == "slice" {
						i = s.add(addr.sub[0].sub[1], i)
					}
					want := size
					if st.F["grow"] == 1 {
						want = s.sub(size, s.tt.Int(1))
					}
					if i != want && !(s.entailsLe(st, i, want, 0) && s.entailsLe(st, want, i, 0)) {
						if d := s.lin(s.sub(i, want)); len(d.m) == 0 || i.isConst() {
							r.Bad("a node is stored behind the existing ones", site, p.InstrPos(in), "a node is stored at an index other than the current number of nodes: it overwrites another node or leaves a gap", st.path(12))
						} else {
							r.Note("store index in %s not understood", site)
						}
					}
				}
			}
			h.Return = func(s *Sim, st *State, res []*Term) {
				if len(res) != 1 || !isBoolType(fn.Signature.Results().At(0).Type()) || fn.Name() != "Add" {
					return
				}
				s.cases(st, res[0], func(st *State, v bool) {
					r.Ob("Add reports what it did", site)
					done := st.F["stored"] > 0 && st.F["grow"] == 1
					none := st.F["stored"] == 0 && st.F["grow"] == 0 && st.F["sized"] == 0
					if st.F["stored"] == 0 && st.F["sized"] > 0 {
						return // stored by other means
					}
					if v && !done {
						r.Bad("Add reports what it did", site, p.Pos(fn.Pos()), "Add reports success on a path on which the node was not stored and counted", st.path(12))
					}
					if !v && !none {
						r.Bad("Add reports what it did", site, p.Pos(fn.Pos()), "Add reports failure although it changed the bucket", st.path(12))
					}
				})
			}
			r.explore(p, fn, h, o, setup)
		}
		switch fn.Name() {
		case "Full":
			if capF < 0 {
				break
			}
			h := base()
			h.Return = func(s *Sim, st *State, res []*Term) {
				if len(res) != 1 {
					return
				}
				b := s.Params[0]
				size, c := ld(s, st, b, sizeF), ld(s, st, b, capF)
				r.Ob("Full means size has reached capacity", site)
				s.cases(st, res[0], func(st *State, v bool) {
					if v && !s.entailsLe(st, c, size, 0) || !v && !s.entailsLe(st, size, c, -1) {
						if s.bound(st, c, size) >= inf && s.bound(st, size, c) >= inf {
							n := ld(s, st, b, nodesF)
							if s.bound(st, s.lenTerm(st, n), size) <= 0 || s.bound(st, size, s.lenTerm(st, n)) <= -1 {
								return
							}
							if len(st.num.vars) > 0 && res[0].op == "res" {
								r.Note("%s: result not understood", site)
								return
							}
						}
						r.Bad("Full means size has reached capacity", site, p.Pos(fn.Pos()), "Full does not hold exactly when the number of nodes has reached the capacity", st.path(8))
					}
				})
			}
			r.explore(p, fn, h, o, setup)
		case "Exist", "All", "Iterator":
			covers(p, r, fn, base, ld, isNodes, sizeF, nodesF, setup, o)
		}
	}
	if nb := p.Func("dht", "NewBucket"); nb != nil && capF >= 0 {
		var h Hooks
		h.Return = func(s *Sim, st *State, res []*Term) {
			if len(res) != 1 || res[0].op != "obj" {
				return
			}
			b := res[0]
			size, c, n := ld(s, st, b, sizeF), ld(s, st, b, capF), ld(s, st, b, nodesF)
			r.Ob("a new bucket is empty and has room for its capacity", p.FuncName(nb))
			if v, ok := size.intVal(); ok && v != 0 {
				r.Bad("a new bucket is empty and has room for its capacity", p.FuncName(nb), p.Pos(nb.Pos()), "a new bucket has a size other than 0", nil)
			}
			if c != s.Params[0] {
				r.Bad("a new bucket is empty and has room for its capacity", p.FuncName(nb)+": capacity", p.Pos(nb.Pos()), "the capacity of a new bucket is "+c.String()+", not the one asked for", nil)
			}
			if !s.entailsLe(st, c, s.lenTerm(st, n), 0) && !s.entailsLe(st, c, s.capTerm(st, n), 0) {
				r.Bad("a new bucket is empty and has room for its capacity", p.FuncName(nb)+": room", p.Pos(nb.Pos()), "the node array of a new bucket is shorter than its capacity", nil)
			}
		}
		r.explore(p, nb, h, Opts{Numeric: true}, func(s *Sim, st *State) {
			s.addLe(st, s.Params[0], s.tt.Int(1<<40), 0)
			s.addLe(st, s.tt.Int(0), s.Params[0], 0)
		})
	}
}

// covers: what looks at all nodes of a bucket looks at exactly the stored ones.
func covers(p *Program, r *Report, fn *ssa.Function, base func() Hooks, ld func(s *Sim, st *State, b *Term, i int) *Term, isNodes func(s *Sim, st *State, b, t *Term) bool, sizeF, nodesF int, setup func(s *Sim, st *State), o Opts) {
	site := p.FuncName(fn)
	const rule = "all stored nodes and only those are looked at"
	h := base()
	li := newLoopInfo()
	li.hooks(&h)
	h.LoopPhi = func(s *Sim, st *State, ph *ssa.Phi, t, in *Term, back bool) {
		li.add(t, in, back)
		if isIntType(ph.Type()) {
			st.L["keep "+ph.Name()] = []*Term{t} // keep what is known about it
		}
	}
	call := h.Call
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if c.Name == "dynamic" || c.Fn != nil && c.Fn.Name() == "Equals" {
			for _, e := range c.Args {
				if e.op != "index" || !isNodes(s, st, s.Params[0], e.sub[0]) {
					continue
				}
				i := e.sub[1]
				size := ld(s, st, s.Params[0], sizeF)
				r.Ob(rule, site+": upper end")
				n := s.lenTerm(st, ld(s, st, s.Params[0], nodesF))
				if !s.entailsLe(st, i, size, -1) && (s.bound(st, i, size) < inf || s.entailsLe(st, i, n, -1)) {
					r.Bad(rule, site+": upper end", p.InstrPos(c.Instr), "array elements behind the stored nodes are looked at", st.path(8))
				}
			}
		}
		return call(s, st, c)
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		b := s.Params[0]
		size := ld(s, st, b, sizeF)
		covered := func() {
			r.Ob(rule, site)
			if s.entailsLe(st, size, s.tt.Int(0), 0) {
				return
			}
			near := false
			for ph, rec := range li.m {
				if !isIntType(ph.typ) {
					continue
				}
				ini, ok := int64(0), len(rec.init) > 0
				for _, x := range rec.init {
					v, k := x.intVal()
					ok = ok && k
					ini = v
				}
				if !ok || ini < -1 {
					continue
				}
				bnd := s.bound(st, size, ph)
				if bnd >= inf {
					continue
				}
				near = true
				if ini == -1 && bnd <= 1 || ini == 0 && bnd <= 0 {
					return
				}
			}
			if near {
				r.Bad(rule, site, p.Pos(fn.Pos()), "not all stored nodes were looked at when the search ends", st.path(10))
			} else {
				r.Note("%s: the search loop is not understood", site)
			}
		}
		switch fn.Name() {
		case "Exist":
			s.cases(st, res[0], func(st *State, v bool) {
				if v {
					r.Ob(rule, site+": found")
					if st.F["equal"] == 0 {
						r.Bad(rule, site+": found", p.Pos(fn.Pos()), "a node is reported as present without being equal to a stored one", st.path(8))
					}
				} else if st.F["equal"] == 0 {
					covered()
				} else {
					r.Bad(rule, site+": found", p.Pos(fn.Pos()), "a node that equals a stored one is reported as absent", st.path(8))
				}
			})
		case "Iterator":
			covered()
		case "All":
			if len(res) != 1 {
				return
			}
			x := res[0]
			n := ld(s, st, b, nodesF)
			r.Ob(rule, site)
			if x.op == "slice" && x.sub[0] == n {
				lo, hi := x.sub[1], x.sub[2]
				if v, ok := lo.intVal(); ok && v != 0 {
					r.Bad(rule, site, p.Pos(fn.Pos()), "the first stored nodes are left out", st.path(8))
				}
				if hi.op == "none" || hi != size && len(s.lin(s.sub(hi, size)).m) == 0 {
					r.Bad(rule, site, p.Pos(fn.Pos()), "the nodes returned are not exactly the stored ones", st.path(8))
				} else if hi != size {
					if mn, ok := memberOfTerm(hi); ok {
						r.Bad(rule, site, p.Pos(fn.Pos()), "the nodes returned are counted by "+mn+", not by the number of stored nodes", st.path(8))
					}
				}
			} else if x == n {
				r.Bad(rule, site, p.Pos(fn.Pos()), "the whole array is returned, not only the stored nodes", st.path(8))
			}
		}
	}
	r.explore(p, fn, h, o, setup)
}

// ruleIdentity (C15)
func ruleIdentity(p *Program, r *Report) {
	nt := p.NamedType("dht", "NodeInfo")
	if nt == nil {
		return
	}
	idNo := fieldNo(nt, "Id")
	idOf := func(s *Sim, st *State, n *Term) *Term {
		return s.load(st, s.fieldAddr(n, types.NewPointer(nt), idNo), types.Typ[types.String])
	}
	same := func(s *Sim, st *State, a, b *Term) bool {
		if v, ok := s.truth(st, s.eqT(a, b)); ok && v {
			return true
		}
		for f, v := range st.facts {
			// an equality established through a library comparison
			if f.op == "app" && f.aux == "bytes.Equal" && v || f.op == "isnil" {
				if f.op == "app" {
					x, y := unbytes(f.sub[0]), unbytes(f.sub[1])
					if x == a && y == b || x == b && y == a {
						return true
					}
				}
			}
			if f.op == "eq" && v {
				for i := 0; i < 2; i++ {
					c, k := f.sub[i], f.sub[1-i]
					if c.op != "app" || len(c.sub) != 2 {
						continue
					}
					x, y := unbytes(c.sub[0]), unbytes(c.sub[1])
					if !(x == a && y == b || x == b && y == a) {
						continue
					}
					n, ok := k.intVal()
					if ok && (n == 0 && (c.aux == "strings.Compare" || c.aux == "bytes.Compare") || n == 1 && c.aux == "crypto/subtle.ConstantTimeCompare") {
						return true
					}
				}
			}
		}
		for _, n := range []string{"strings.Compare", "bytes.Compare", "crypto/subtle.ConstantTimeCompare"} {
			for v := range st.num.vars {
				if v.op == "app" && v.aux == n && len(v.sub) == 2 {
					x, y := unbytes(v.sub[0]), unbytes(v.sub[1])
					want := s.tt.Int(0)
					if n[0] == 'c' {
						want = s.tt.Int(1)
					}
					if (x == a && y == b || x == b && y == a) && s.entailsLe(st, v, want, 0) && s.entailsLe(st, want, v, 0) {
						return true
					}
				}
			}
		}
		return false
	}
	if eq := p.Method("dht", "NodeInfo", "Equals"); eq != nil {
		var h Hooks
		h.Return = func(s *Sim, st *State, res []*Term) {
			if len(res) != 1 {
				return
			}
			s.cases(st, res[0], func(st *State, v bool) {
				if !v {
					return
				}
				r.Ob("equal nodes have equal ids", p.FuncName(eq))
				if s.Params[0] == s.Params[1] {
					return
				}
				if x, ok := s.truth(st, s.eqT(s.Params[0], s.Params[1])); ok && x {
					return
				}
				a, b := idOf(s, st, s.Params[0]), idOf(s, st, s.Params[1])
				if !same(s, st, a, b) {
					r.Bad("equal nodes have equal ids", p.FuncName(eq), p.Pos(eq.Pos()), "two nodes are reported as equal on a path on which their ids were not found byte-for-byte equal", st.path(8))
				}
			})
		}
		r.explore(p, eq, h, Opts{}, nil)
	}
	if find := p.Method("dht", "RouteTable", "Find"); find != nil {
		var id *Term
		var h Hooks
		h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
			if val.typ != nil && p.isPtrTo(val.typ, "dht", "NodeInfo") && !val.isNil() && same(s, st, idOf(s, st, val), id) {
				st.AddL("verified", val)
			}
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			if len(res) < 1 || res[0].isNil() {
				return
			}
			r.Ob("lookup returns the id asked for", p.FuncName(find))
			n := res[0]
			s.cases(st, s.eqT(n, s.tt.Nil(nil)), func(st *State, isNil bool) {
				if isNil {
					return
				}
				if n.op == "phi" {
					// the result is carried by a loop variable: facts are about the value it took
					for f, v := range st.facts {
						if v && f.op == "eq" && f.has(id) && f.any(func(x *Term) bool { return x.op == "load" && shortAuxIs(x, "Id") }) {
							return
						}
					}
				}
				if !st.HasL("verified", n) && !same(s, st, idOf(s, st, n), id) {
					r.Bad("lookup returns the id asked for", p.FuncName(find), p.Pos(find.Pos()), "a node is returned whose id was not found byte-for-byte equal to the one asked for", st.path(8))
				}
			})
		}
		r.explore(p, find, h, Opts{}, func(s *Sim, st *State) {
			for i, prm := range find.Params {
				if isStringType(prm.Type()) {
					id = s.Params[i]
				}
			}
		})
	}
	// text operations on ids
	tf := p.idTaint()
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					n := p.CalleeName(in.Common())
					if !textOp(n) {
						continue
					}
					hit := false
					for _, a := range in.Common().Args {
						hit = hit || tf[a]
					}
					if v := in.Value(); v != nil {
						hit = hit || tf[v]
					}
					r.Ob("no text operation on ids", p.FuncName(fn)+": "+n)
					if hit {
						r.Bad("no text operation on ids", p.FuncName(fn)+": "+n, p.InstrPos(in), n+" interprets a binary node id or info-hash as text", nil)
					}
				case *ssa.Range:
					if tf[in.X] && isStringType(in.X.Type()) {
						r.Bad("no text operation on ids", p.FuncName(fn)+": range", p.InstrPos(in), "ranging over a binary id decodes it as UTF-8", nil)
					}
				case *ssa.Convert:
					if sl, ok := in.Type().Underlying().(*types.Slice); ok && tf[in.X] {
						if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
							r.Bad("no text operation on ids", p.FuncName(fn)+": runes", p.InstrPos(in), "a binary id is decoded as UTF-8", nil)
						}
					}
				}
			}
		}
	}
	r.Need("equal nodes have equal ids", 1)
}

func shortAuxIs(t *Term, f string) bool {
	n, ok := memberOfTerm(t)
	return ok && n == f
}

func unbytes(t *Term) *Term {
	for t.op == "copy" || t.op == "alias" || t.op == "stale" {
		t = t.sub[0]
	}
	return t
}

// textOp: operations that treat a byte string as text.
func textOp(n string) bool {
	switch n {
	case "strings.EqualFold", "bytes.EqualFold":
		return true
	}
	if strings.HasPrefix(n, "strings.To") || strings.HasPrefix(n, "bytes.To") || strings.HasPrefix(n, "strings.Trim") || strings.HasPrefix(n, "bytes.Trim") ||
		strings.HasPrefix(n, "strings.Fields") || strings.HasPrefix(n, "unicode/utf8.") || strings.HasPrefix(n, "strings.Title") || strings.HasPrefix(n, "strings.Map") || strings.HasPrefix(n, "bytes.Map") {
		return true
	}
	return n == "strconv.Atoi" || n == "strconv.ParseInt" || n == "strings.ToValidUTF8"
}

// idTaint marks the values that derive from node ids and info-hashes by copying.
func (p *Program) idTaint() map[ssa.Value]bool {
	t := map[ssa.Value]bool{}
	nt := p.NamedType("dht", "NodeInfo")
	isIDField := func(base types.Type, i int) bool {
		st := derefStruct(base)
		return st != nil && nt != nil && types.Identical(derefType(base), nt) && isStringType(st.Field(i).Type())
	}
	for ch := true; ch; {
		ch = false
		mark := func(v ssa.Value) {
			if !t[v] {
				t[v] = true
				ch = true
			}
		}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.UnOp:
						if fa, ok := in.X.(*ssa.FieldAddr); ok && in.Op.String() == "*" && isIDField(fa.X.Type(), fa.Field) {
							mark(in)
						}
						if al, ok := in.X.(*ssa.Alloc); ok && t[al] {
							mark(in)
						}
					case *ssa.Field:
						if isIDField(in.X.Type(), in.Field) {
							mark(in)
						}
					case *ssa.Store:
						if t[in.Val] {
							if al, ok := in.Addr.(*ssa.Alloc); ok {
								mark(al)
							}
						}
						// what is stored as an id is one
						if fa, ok := in.Addr.(*ssa.FieldAddr); ok && isIDField(fa.X.Type(), fa.Field) {
							if _, c := in.Val.(*ssa.Const); !c {
								mark(in.Val)
							}
						}
					case *ssa.Phi:
						for _, e := range in.Edges {
							if t[e] {
								mark(in)
							}
						}
					case *ssa.ChangeType:
						if t[in.X] {
							mark(in)
						}
					case *ssa.Convert:
						if t[in.X] && (isStringType(in.Type()) || isBytesType(in.Type())) {
							mark(in)
						}
					case *ssa.Slice:
						if t[in.X] {
							mark(in)
						}
					case ssa.CallInstruction:
						// arguments into parameters, Dict getters of id keys
						cc := in.Common()
						n := p.CalleeName(cc)
						if strings.HasSuffix(n, ".GetString") && len(cc.Args) > 0 {
							if k, ok := constString(cc.Args[len(cc.Args)-1]); ok && (k == "id" || k == "info_hash" || k == "target") {
								if v := in.Value(); v != nil {
									mark(v)
								}
							}
						}
						if f := cc.StaticCallee(); f != nil && p.InRepo(f) && len(f.Params) == len(cc.Args) {
							for i, a := range cc.Args {
								if t[a] && !p.isLoggerMethod(f) {
									mark(f.Params[i])
								}
							}
							for _, bb := range f.Blocks {
								if ret, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 && t[ret.Results[0]] {
									if v := in.Value(); v != nil {
										mark(v)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return t
}
