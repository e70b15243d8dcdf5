package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C42", "path-sensitive simulation of every reading method of misc.Dict and misc.List with symbolic receiver, key and default: on every way out the result is compared with the entry under that very key, the facts about its presence and its type, and the default",
		ruleAccessors)
}

// accessor is a reading method of Dict or List.
type accessor struct {
	f      *ssa.Function
	nt     types.Type
	isDict bool
	kind   string // get, default, exist
	want   types.Type
}

func accessorsOf(p *Program, nt types.Type) []accessor {
	var out []accessor
	_, isDict := nt.Underlying().(*types.Map)
	ms := types.NewMethodSet(types.NewPointer(nt))
	for i := 0; i < ms.Len(); i++ {
		if !ms.At(i).Obj().Exported() {
			continue
		}
		f := p.Prog.FuncValue(ms.At(i).Obj().(*types.Func))
		if f == nil || len(f.Params) < 2 || f.Signature.Results().Len() != 1 || f.Signature.Variadic() {
			continue
		}
		key := f.Params[1].Type()
		if isDict && !isStringType(key) || !isDict && !isIntType(key) {
			continue
		}
		res := f.Signature.Results().At(0).Type()
		a := accessor{f: f, nt: nt, isDict: isDict, want: res}
		switch {
		case len(f.Params) == 2 && isBoolType(res) && strings.Contains(f.Name(), "Exist"):
			a.kind = "exist"
		case len(f.Params) == 2 && strings.HasPrefix(f.Name(), "Get"):
			a.kind = "get"
		case len(f.Params) == 3 && strings.HasPrefix(f.Name(), "Get") && types.Identical(f.Params[2].Type(), res):
			a.kind = "default"
		default:
			continue
		}
		out = append(out, a)
	}
	return out
}

func ruleAccessors(p *Program, r *Report) {
	const (
		entry  = "a read returns the entry under its key"
		kinds  = "a typed read returns a value of its type"
		defs   = "the default is returned when the entry is missing or of another type, and only then"
		errs   = "a failed read of a dictionary panics with a misc.Error"
		needed = "a read fails only when the entry is missing or of another type"
		exist  = "existence is answered exactly"
		pure   = "reading changes nothing"
	)
	for _, tn := range []string{"Dict", "List"} {
		nt := p.NamedType("misc", tn)
		if nt == nil {
			r.Bad("anchors", tn, "?", "misc."+tn+" was not found", nil)
			continue
		}
		as := accessorsOf(p, nt)
		r.Ob("accessors of "+tn, "found")
		if len(as) == 0 {
			r.Bad("anchors", tn, "?", "misc."+tn+" has no reading methods", nil)
		}
		for _, a := range as {
			judgeAccessor(p, r, a, entry, kinds, defs, errs, needed, exist, pure)
		}
	}
	for _, x := range []string{entry, kinds, errs, exist} {
		r.Need(x, 1)
	}
}

func judgeAccessor(p *Program, r *Report, a accessor, entry, kinds, defs, errs, needed, exist, pure string) {
	f := a.f
	name := p.FuncName(f)
	where := p.Pos(f.Pos())
	iface := types.IsInterface(a.want)
	var recv, key, def *Term
	var self *Term
	isSelf := func(s *Sim, x *Term) bool {
		if x == recv || x == self {
			return true
		}
		return x.op == "init" && len(x.sub) > 0 && x.sub[0] == recv
	}
	isEnt := func(s *Sim, x *Term) bool {
		if len(x.sub) < 2 || x.op != "lookup" && x.op != "index" {
			return false
		}
		return isSelf(s, x.sub[0]) && x.sub[1] == key
	}
	// bare: the value without assertions; converting it to an interface again changes nothing
	bare := func(x *Term) *Term {
		for (x.op == "assert" || x.op == "iface") && len(x.sub) > 0 {
			x = x.sub[0]
		}
		return x
	}
	// known: what the path knows about presence and type (0 unknown, 1 yes, 2 no)
	known := func(s *Sim, st *State) (there, typed int) {
		set := func(v *int, b bool) {
			if b {
				*v = 1
			} else {
				*v = 2
			}
		}
		for x, v := range st.facts {
			switch x.op {
			case "haskey":
				if isSelf(s, x.sub[0]) && x.sub[1] == key {
					set(&there, v)
				}
			case "isnil":
				if v && isSelf(s, x.sub[0]) {
					there = 2
				}
				if isEnt(s, x.sub[0]) && v {
					typed = 2
				}
			}
			if strings.HasPrefix(x.op, "istype") && len(x.sub) > 0 && isEnt(s, bare(x.sub[0])) {
				if x.aux == s.isTypeT(recv, a.want).aux {
					set(&typed, v)
				} else if v && typed == 0 {
					typed = 2 // it is of another concrete type
				}
			}
		}
		if !a.isDict {
			n := s.lenTerm(st, self)
			if s.entailsLe(st, n, key, 0) || s.entailsLe(st, key, s.tt.Int(-1), 0) {
				there = 2
			}
		}
		if iface && there != 0 {
			typed = 1
		}
		return
	}
	h := Hooks{}
	bad := func(rule, msg string, st *State) { r.Bad(rule, name, where, name+": "+msg, st.path(10)) }
	h.MapUpdate = func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
		if isSelf(s, m) {
			bad(pure, "reading changes the dictionary", st)
		}
	}
	h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
		if addr == recv || addr.op == "indexaddr" && isSelf(s, addr.sub[0]) {
			bad(pure, "reading changes what is read", st)
		}
	}
	h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
		if c.Name == "builtin:delete" && isSelf(s, c.Args[0]) {
			bad(pure, "reading removes an entry", st)
		}
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		x := res[0]
		r.Ob(pure, name)
		if a.kind == "exist" {
			r.Ob(exist, name)
			answer := func(st *State, b bool) {
				if a.isDict {
					there, _ := known(s, st)
					if there == 0 || (there == 1) != b {
						bad(exist, map[bool]string{true: "a key is said to exist", false: "a key is said not to exist"}[b]+" although that is not what was found in the dictionary", st)
					}
					return
				}
				n := s.lenTerm(st, self)
				if b && !s.entailsLe(st, key, n, -1) || !b && !s.entailsLe(st, n, key, 0) {
					bad(exist, map[bool]string{true: "an index is said to exist", false: "an index is said not to exist"}[b]+" although it need not be so", st)
				}
			}
			if b, ok := x.boolVal(); ok {
				answer(st, b)
				return
			}
			for _, b := range []bool{true, false} {
				st2 := st.clone()
				if s.assume(st2, x, b) {
					answer(st2, b)
				}
			}
			return
		}
		there, typed := known(s, st)
		v := bare(x)
		r.Ob(entry, name)
		r.Ob(kinds, name)
		if a.kind == "default" {
			r.Ob(defs, name)
		}
		isDef := def != nil && (x == def || v == def)
		switch {
		case isDef && isEnt(s, v):
		case isDef:
			if there != 2 && typed != 2 {
				bad(defs, "the default is returned although the entry may be there and have the type", st)
			}
		case there == 2:
			bad(entry, "for a missing entry a value is returned that is not the default", st)
		case !iface && typed == 2:
			bad(kinds, "a value is returned although the entry has another type", st)
		case isEnt(s, v):
			switch {
			case iface && a.isDict && there != 1:
				bad(entry, "an entry is returned without its presence having been established", st)
			case !iface && x.typ != nil && !types.Identical(x.typ, a.want):
				bad(kinds, "the value is returned as another type", st)
			}
		case v.isConst() || v.isNil() || v.op == "zero" || strings.HasPrefix(v.op, "zero"):
			bad(entry, "a value is returned that is neither the entry nor the default: "+short(x.String(), 60), st)
		case (v.op == "lookup" || v.op == "index") && len(v.sub) > 1:
			bad(entry, "the entry under another key is returned: "+short(x.String(), 80), st)
		case v == key || v == recv || isSelf(s, v):
			bad(entry, "what is returned is not the entry: "+short(x.String(), 80), st)
		default:
			r.Note("%s: what is returned has a form the rule does not know: %s", name, short(x.String(), 80))
		}
	}
	h.PanicOut = func(s *Sim, st *State, v *Term) {
		there, typed := known(s, st)
		run := v != nil && v.any(func(x *Term) bool { return strings.HasPrefix(x.op, "rterr") })
		if a.kind != "get" {
			if run && v.typ == nil && !a.isDict {
				return
			}
			bad(needed, "it panics, where it must answer", st)
			return
		}
		r.Ob(needed, name)
		if !a.isDict && run {
			idx := v.any(func(x *Term) bool { return x.op == "rterr" && strings.Contains(x.aux, "index") })
			if idx {
				if z := s.tt.Int(0); s.entailsLe(st, z, key, 0) && s.entailsLe(st, key, s.lenTerm(st, self), -1) {
					bad(needed, "an element is read outside the list although the index is in range", st)
				}
				return
			}
		}
		if there != 2 && typed != 2 && !run {
			bad(needed, "it panics although the entry may be there and have the type", st)
		}
		if a.isDict {
			r.Ob(errs, name)
			ok := v != nil && v.typ != nil && p.isErrorPtr(v.typ)
			if v != nil && v.op == "iface" {
				ok = ok || v.sub[0].typ != nil && p.isErrorPtr(v.sub[0].typ)
			}
			if !ok {
				made := v != nil && v.any(func(x *Term) bool {
					return strings.HasPrefix(x.aux, "errors.New") || strings.HasPrefix(x.aux, "fmt.")
				})
				if v != nil && (run || made || v.op == "iface") {
					bad(errs, "a failed read panics with something else than a misc.Error", st)
				} else {
					r.Note("%s: the value of a panic is not recognised", name)
				}
			}
		}
	}
	setup := func(s *Sim, st *State) {
		recv, key = s.Params[0], s.Params[1]
		if len(s.Params) > 2 {
			def = s.Params[2]
		}
		self = recv
		if _, ok := f.Params[0].Type().Underlying().(*types.Pointer); ok {
			self = s.load(st, recv, a.nt)
		}
		if a.kind == "exist" && !a.isDict {
			s.assume(st, s.ltT(s.tt.Int(-1), key), true)
		}
	}
	r.explore(p, f, h, Opts{Numeric: true, ImplicitPanics: true}, setup)
}

// isErrorPtr: the type is *misc.Error.
func (p *Program) isErrorPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Error" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/misc")
}
