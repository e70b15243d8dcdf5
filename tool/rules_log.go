package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "path-sensitive simulation of every logger method: a panic-level method has no path that returns normally; a level method emits only on paths on which the configured level was read and is proved to be at or below its own, does not emit only where it is proved to be above, and does not panic; the level cell is shared with derived loggers, written by SetLevel, and reached for every registered logger when the level is set; new loggers start with the registry's level; level names map to the level of that name",
		ruleLogging)
}

func isEmit(n string) bool {
	switch n {
	case "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "(io.Writer).Write", "(io.StringWriter).WriteString",
		"log.Print", "log.Printf", "log.Println", "(*log.Logger).Print", "(*log.Logger).Printf", "(*log.Logger).Println", "(*log.Logger).Output", "(*bufio.Writer).WriteString", "(*bufio.Writer).Write", "builtin:print", "builtin:println":
		return true
	}
	return false
}

// loggerTypes: the repository's implementations of the logger interface.
func (p *Program) loggerTypes() []*types.Named {
	lt := p.NamedType("misc", "Logger")
	if lt == nil {
		return nil
	}
	it, ok := lt.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	seen := map[*types.Named]bool{}
	var out []*types.Named
	for _, f := range p.Funcs {
		if f.Signature.Recv() == nil || f.Synthetic != "" || f.Name() != "Panic" {
			continue
		}
		t := f.Signature.Recv().Type()
		n, ok := derefType(t).(*types.Named)
		if ok && !seen[n] && types.Implements(t, it) {
			seen[n] = true
			out = append(out, n)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// rootOf tells through what an address is reached from the receiver: a pointer field ("ptr", name), the
// receiver's own memory ("value", name), a global ("global", name).
func rootOf(addr, recv *Term) (kind, name string) {
	t := unstale(addr)
	last := ""
	for i := 0; i < 20; i++ {
		switch t.op {
		case "fieldaddr":
			last = shortAux(t.aux)
			t = unstale(t.sub[0])
		case "load":
			in := unstale(t.sub[0])
			if in.op == "fieldaddr" && unstale(in.sub[0]) == recv {
				return "ptr", shortAux(in.aux)
			}
			t = in
		case "global":
			return "global", t.aux
		default:
			if t == recv {
				return "value", last
			}
			return "", ""
		}
	}
	return "", ""
}

func ruleLogging(p *Program, r *Report) {
	const (
		nopanic = "a panic-level log never returns"
		gates   = "a level is emitted exactly when configured"
		total   = "logging does not panic"
		shared  = "derived loggers share the level"
		sets    = "setting the level reaches the loggers"
		news    = "new loggers start with the configured level"
		names   = "level names mean their level"
	)
	at := newAtomics(p)
	order := []string{"DEBUG", "INFO", "WARN", "ERROR", "PANIC", "TRACE"}
	val := map[string]int64{}
	top := int64(-1 << 40)
	for _, n := range order {
		v, ok := p.constInt("misc", n)
		if !ok {
			r.Bad("anchors", n, "?", "the level constant was not found", nil)
			return
		}
		val[n] = v
		if v > top {
			top = v
		}
	}
	for i := 0; i+1 < 5; i++ {
		r.Ob(names, order[i]+" below "+order[i+1])
		if val[order[i]] >= val[order[i+1]] {
			r.Bad(names, order[i]+" below "+order[i+1], "misc", "the level "+order[i]+" is not below "+order[i+1]+": messages of the wrong severity are filtered", nil)
		}
	}
	own := map[string]string{"Debug": "DEBUG", "Info": "INFO", "Warn": "WARN", "Error": "ERROR", "Trace": "TRACE"}
	lt := p.NamedType("misc", "LogLevel")
	isLevel := func(t types.Type) bool { return t != nil && lt != nil && types.Identical(t, lt) }
	kinds := p.loggerTypes()
	if len(kinds) == 0 {
		r.Bad("anchors", "loggers", "?", "no implementation of the logger interface was found", nil)
		return
	}
	holdsZap := func(n *types.Named) string {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return ""
		}
		for i := 0; i < st.NumFields(); i++ {
			if strings.HasPrefix(st.Field(i).Type().String(), "*go.uber.org/zap.") {
				return st.Field(i).Name()
			}
		}
		return ""
	}
	globalLevel := map[string]bool{}
	traceCheck := int64(-1)
	o := Opts{Numeric: true, InlineLoggers: true}
	for _, n := range kinds {
		ms := map[string]*ssa.Function{}
		for _, f := range p.methodsOf("misc", n.Obj().Name()) {
			ms[f.Name()] = f
		}
		zf := holdsZap(n)
		// panic level
		if f := ms["Panic"]; f != nil {
			r.Ob(nopanic, p.FuncName(f))
			fn := f
			h := Hooks{}
			h.Call = func(s *Sim, st *State, c *CallEv) *Verdict { return at.call(s, st, c, atomicHooks{}) }
			h.Return = func(s *Sim, st *State, res []*Term) {
				r.Bad(nopanic, p.FuncName(fn), p.Pos(fn.Pos()), "logging at panic level can return normally", st.path(8))
			}
			r.explore(p, f, h, o, nil)
		}
		cellRoots := map[string]string{} // how the methods reach the level: kind -> name
		cellNames := map[string]bool{}
		for _, m := range []string{"Debug", "Info", "Warn", "Error", "Trace"} {
			fn := ms[m]
			if fn == nil {
				continue
			}
			mine := val[own[m]]
			key := p.FuncName(fn)
			h := Hooks{}
			lvl := func(s *Sim, st *State, addr, v *Term) {
				k, name := rootOf(addr, s.Params[0])
				if k == "" {
					return
				}
				st.AddL("level", v)
				cellRoots[k] = name
				cellNames[shortAux(cellOf(addr))] = true
			}
			h.Load = func(s *Sim, st *State, in ssa.Instruction, addr *Term) {
				if isLevel(derefTypeOf(addr)) {
					lvl(s, st, addr, s.load(st, addr, derefTypeOf(addr)))
				}
			}
			h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
				if strings.HasPrefix(c.Name, "(*go.uber.org/zap.Logger).") {
					x := strings.TrimPrefix(c.Name, "(*go.uber.org/zap.Logger).")
					switch x {
					case "Debug", "Info", "Warn", "Error", "DPanic", "Panic", "Fatal", "Log":
						st.F["emits"]++
						st.F["zap"] = 1
						if st.F["emits"] > 1 {
							r.Bad(gates, key+": twice", p.InstrPos(c.Instr), "a message is emitted twice", st.path(8))
						}
						if x != m && x != "Log" {
							r.Bad(gates, key+": level", p.InstrPos(c.Instr), "the message is logged at level "+x, st.path(8))
						}
						if x == "Log" {
							r.Note("%s logs with an explicit level", key)
						}
					case "Check", "WithOptions", "With", "Sugar", "Named":
						return nil
					}
					return nil
				}
				if strings.HasSuffix(c.Name, "zapcore.CheckedEntry).Write") {
					st.F["emits"]++
					return nil
				}
				if isEmit(c.Name) && zf == "" {
					r.Ob(gates, key+": emit")
					st.F["emits"]++
					if mine == top && len(st.L["level"]) == 0 {
						return nil
					}
					ok := false
					for _, v := range st.L["level"] {
						ok = ok || s.entailsLe(st, v, s.tt.Int(mine), 0)
					}
					if !ok {
						r.Bad(gates, key+": emit", p.InstrPos(c.Instr), "a message may be emitted although the configured level is above its own", st.path(8))
					}
					return nil
				}
				return at.call(s, st, c, atomicHooks{load: func(s *Sim, st *State, c *CallEv, cell string, v *Term) {
					lvl(s, st, c.Args[0], v)
				}})
			}
			h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
				if c.Name == "(*go.uber.org/zap.Logger).Check" && len(res) > 0 {
					st.L["checked"] = []*Term{res[0]}
					if v, ok := c.Args[1].intVal(); ok {
						if m == "Trace" {
							traceCheck = v
							if v <= 5 {
								r.Bad(gates, key+": level", p.InstrPos(c.Instr), "a trace message is logged at the level of another kind of message", st.path(8))
							}
						} else if w, known := zapLevels[own[m]]; known && v != w {
							r.Bad(gates, key+": level", p.InstrPos(c.Instr), "the message is logged at another level", st.path(8))
						}
					}
				}
			}
			h.Return = func(s *Sim, st *State, res []*Term) {
				r.Ob(gates, key+": return")
				if st.F["emits"] > 0 {
					return
				}
				if l := st.L["checked"]; len(l) > 0 {
					if t, k := s.truth(st, s.tt.mk("isnil", "", types.Typ[types.Bool], l[0])); k && t {
						return
					}
				}
				for _, v := range st.L["level"] {
					if s.entailsLe(st, s.tt.Int(mine), v, -1) {
						return
					}
				}
				r.Bad(gates, key+": return", p.Pos(fn.Pos()), "a message may be suppressed although the configured level is at or below its own", st.path(8))
			}
			// what is logged is of any kind
			h.Assert = func(s *Sim, st *State, in *ssa.TypeAssert, x *Term, known bool) {
				if known || in.CommaOk {
					return
				}
				ctx := s.Params[len(s.Params)-1]
				if x.any(func(y *Term) bool { return y == ctx }) {
					r.Bad(total, key+": assertion", p.InstrPos(in), "logging panics when a logged value is not a "+types.TypeString(in.AssertedType, nil), st.path(8))
				}
			}
			h.PanicOut = func(s *Sim, st *State, v *Term) {
				r.Bad(total, key, p.Pos(fn.Pos()), "logging below panic level panics", st.path(8))
			}
			r.Ob(total, key)
			r.explore(p, fn, h, o, nil)
		}
		// derived loggers
		if f := ms["SetPrefix"]; f != nil {
			fn := f
			key := p.FuncName(fn)
			h := Hooks{}
			h.MapUpdate = func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) { st.F["registered"] = 1 }
			h.Return = func(s *Sim, st *State, res []*Term) {
				if len(res) != 1 {
					return
				}
				r.Ob(shared, key)
				v := unface(res[0])
				if v == s.Params[0] || v.isNil() {
					return
				}
				check := func(name string) {
					want := s.fieldOf(st, s.Params[0], s.Params[0].typ, name)
					got := s.fieldOf(st, v, v.typ, name)
					if want == nil || got == nil || !p.isPtrTo(v.typ, "misc", n.Obj().Name()) {
						r.Note("%s: the derived logger was not understood", key)
						return
					}
					if want != got {
						r.Bad(shared, key, p.Pos(fn.Pos()), "the derived logger does not share the level of its origin", st.path(6))
					}
				}
				if zf != "" {
					check(zf)
					return
				}
				for k, name := range cellRoots {
					switch k {
					case "ptr":
						check(name)
					case "value":
						if st.F["registered"] == 0 {
							r.Bad(shared, key, p.Pos(fn.Pos()), "the derived logger has a copy of the level: later changes do not reach it", st.path(6))
						}
					}
				}
			}
			r.explore(p, fn, h, Opts{}, nil)
		}
		if zf != "" {
			continue
		}
		stores := func(fn *ssa.Function, param int, what, msg, rule string) {
			h := Hooks{}
			put := func(s *Sim, st *State, addr, v *Term) {
				if param == 1 { // the cell the methods look at
					k, name := rootOf(addr, s.Params[0])
					if k == "" || cellRoots[k] != name || !isLevel(v.typ) && !isIntType(v.typ) {
						return
					}
					st.F["set"] = 0
					if unconv(v) == s.Params[param] {
						st.F["set"] = 1
					}
					return
				}
				b := unstale(addr)
				for b.op == "fieldaddr" {
					b = unstale(b.sub[0])
				}
				if unconv(v) == s.Params[param] {
					if !st.HasL("put", b) {
						st.AddL("put", b)
					}
				} else if isLevel(v.typ) || v.typ != nil && isIntType(v.typ) && st.HasL("put", b) && b.op == "obj" && addr == b {
					st.DelL("put", b)
				}
			}
			h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
				return at.call(s, st, c, atomicHooks{store: func(s *Sim, st *State, in ssa.Instruction, cell string, v *Term) {
					if len(c.Args) > 0 {
						put(s, st, c.Args[0], unface(v))
					}
				}})
			}
			h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, v *Term) { put(s, st, addr, v) }
			h.Return = func(s *Sim, st *State, res []*Term) {
				r.Ob(rule, what)
				if param == 2 && len(res) == 1 {
					v := unface(res[0])
					for k, name := range cellRoots {
						switch k {
						case "ptr":
							if x := s.fieldOf(st, v, v.typ, name); x != nil && st.HasL("put", x) {
								st.F["set"] = 1
							}
						case "value":
							if st.HasL("put", v) {
								st.F["set"] = 1
							}
						}
					}
				}
				if st.F["set"] == 0 {
					r.Bad(rule, what, p.Pos(fn.Pos()), msg, st.path(6))
				}
			}
			r.explore(p, fn, h, Opts{InlineLoggers: true}, nil)
		}
		if g := cellRoots["global"]; g != "" {
			globalLevel[g] = true
		} else {
			if f := ms["SetLevel"]; f != nil && len(f.Params) == 2 {
				stores(f, 1, p.FuncName(f), "setting the level of a logger does not change the level its methods look at", sets)
			} else if len(cellRoots) > 0 {
				r.Bad(sets, n.Obj().Name(), "?", "the level of a logger cannot be changed", nil)
			}
			// the factory
			for _, f := range p.Funcs {
				if f.Name() != "NewLogger" || f.Signature.Recv() == nil || f.Synthetic != "" || len(f.Params) != 3 {
					continue
				}
				makes := false
				for g := range p.directReach(f, "misc") {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if mi, ok := in.(*ssa.MakeInterface); ok && types.Identical(derefType(mi.X.Type()), n) {
								makes = true
							}
						}
					}
				}
				if makes {
					stores(f, 2, p.FuncName(f), "a new logger does not start with the level it is given", news)
				}
			}
		}
	}
	// the registry
	levelFields := map[string]bool{}
	setters := []*ssa.Function{p.Func("misc", "SetLevel"), p.Func("misc", "InitLogger")}
	for i, f := range setters {
		if f == nil {
			r.Bad("anchors", "SetLevel", "?", "misc.SetLevel or misc.InitLogger was not found", nil)
			return
		}
		fn, lp := f, i
		key := p.FuncName(fn)
		h := Hooks{}
		h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, v *Term) {
			if (addr.op == "fieldaddr" || addr.op == "global") && unconv(unface(v)) == s.Params[lp] {
				st.F["stored"] = 1
				levelFields[shortAux(addr.aux)] = true
			}
		}
		iter := func(s *Sim, st *State) (active bool) { // an element is at hand
			for _, c := range st.L["more"] {
				if t, k := s.truth(st, c); k && t {
					return true
				}
			}
			return false
		}
		h.Cond = func(s *Sim, st *State, in *ssa.If, c *Term) {
			if c.op == "ext" && c.aux == "more" {
				st.L["more"] = []*Term{c}
			}
		}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			if strings.HasSuffix(c.Name, ".SetLevel") && len(c.Args) == 2 && c.Fn != setters[0] {
				r.Ob(sets, key+": each logger")
				if unconv(c.Args[1]) != s.Params[lp] {
					r.Bad(sets, key+": value", p.InstrPos(c.Instr), "the loggers are given another level than the one that was set", st.path(6))
				}
				st.F["called"] = 1
				return &Verdict{Opaque: true}
			}
			return at.call(s, st, c, atomicHooks{store: func(s *Sim, st *State, in ssa.Instruction, cell string, v *Term) {
				if unconv(unface(v)) == s.Params[lp] {
					st.F["stored"] = 1
					levelFields[shortAux(cell)] = true
				}
			}})
		}
		h.MapRead = func(s *Sim, st *State, in ssa.Instruction, m, k *Term) {
			if _, ok := in.(*ssa.Range); ok {
				st.F["ranged"] = 1
				st.F["called"] = 0
			}
		}
		judge := func(s *Sim, st *State, where string) {
			if st.F["ranged"] == 0 || st.F["called"] == 1 || !iter(s, st) {
				return
			}
			for c, v := range st.facts {
				if !v && c.op == "istype" || v && c.op == "isnil" {
					return // not a logger that has a level
				}
			}
			r.Bad(sets, key+": skipped", where, "a registered logger may keep its old level", st.path(6))
		}
		h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) {
			judge(s, st, p.Pos(fn.Pos()))
			st.F["called"] = 0
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			r.Ob(sets, key+": return")
			if st.F["stored"] == 0 {
				r.Bad(sets, key+": return", p.Pos(fn.Pos()), "the level that was set is not kept for loggers created later", st.path(6))
			}
			if len(globalLevel) > 0 {
				return
			}
			if st.F["ranged"] == 0 {
				r.Bad(sets, key+": each logger", p.Pos(fn.Pos()), "the loggers created before keep their level", st.path(6))
				return
			}
			if iter(s, st) {
				r.Bad(sets, key+": early", p.Pos(fn.Pos()), "setting the level can end before every registered logger was given it", st.path(6))
			}
		}
		r.explore(p, fn, h, Opts{}, nil)
	}
	isNewLogger := func(c *CallEv) bool { return strings.HasSuffix(c.Name, ".NewLogger") && len(c.Args) == 3 }
	if f := p.Func("misc", "GetLogger"); f != nil {
		h := Hooks{}
		h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
			if isNewLogger(c) && len(c.Args) == 3 && len(res) == 1 {
				r.Ob(news, "GetLogger")
				st.L["made"] = []*Term{res[0]}
				a := unstale(unconv(c.Args[2]))
				if a.op == "const" {
					r.Bad(news, "GetLogger: level", p.InstrPos(c.Instr), "a new logger starts with a fixed level", st.path(6))
				} else if n, ok := memberOfTerm(a); ok && len(levelFields) > 0 && !levelFields[n] {
					r.Bad(news, "GetLogger: level", p.InstrPos(c.Instr), "a new logger starts with another level than the one that was set", st.path(6))
				} else if !ok {
					if a.op == "load" && a.sub[0].op == "global" && len(levelFields) > 0 && !levelFields[shortAux(a.sub[0].aux)] {
						r.Bad(news, "GetLogger: level", p.InstrPos(c.Instr), "a new logger starts with another level than the one that was set", st.path(6))
					}
				}
			}
		}
		h.MapUpdate = func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
			if st.HasL("made", v) {
				st.F["kept"] = 1
			}
		}
		h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
			if (c.Name == "(*sync.Map).Store" || c.Name == "(*sync.Map).LoadOrStore") && len(c.Args) == 3 && st.HasL("made", unface(c.Args[2])) {
				st.F["kept"] = 1
			}
			if isNewLogger(c) {
				return &Verdict{Opaque: true}
			}
			return at.call(s, st, c, atomicHooks{})
		}
		h.Return = func(s *Sim, st *State, res []*Term) {
			if len(st.L["made"]) > 0 && st.F["kept"] == 0 && len(globalLevel) == 0 {
				r.Bad(sets, "GetLogger: registered", p.Pos(f.Pos()), "a new logger is not registered: later changes of the level do not reach it", st.path(6))
			}
		}
		r.explore(p, f, h, Opts{}, nil)
	}
	// level names
	p.levelNames(r, names, order, val)
	// zap
	if f := p.Func("misc", "NewZapLogger"); f != nil {
		type choice struct {
			yes map[string]bool
			no  map[string]bool
			v   int64
			pos string
		}
		var cs []choice
		h := Hooks{}
		h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
			if c.Name != "go.uber.org/zap/zapcore.NewCore" || len(c.Args) != 3 {
				return
			}
			r.Ob(names, "NewZapLogger")
			v := unconv(unface(c.Args[2]))
			x, ok := v.intVal()
			if !ok {
				r.Note("the level of zap loggers was not understood: %s", v.op)
				if m := lookupOf(v); m != "" {
					for n, w := range p.mapInits(m) {
						if e, ok := zapLevels[n]; ok && e != w {
							r.Bad(names, "zap "+n, p.InstrPos(c.Instr), "a zap logger configured with "+n+" has another level", nil)
						}
					}
				}
				return
			}
			ch := choice{map[string]bool{}, map[string]bool{}, x, p.InstrPos(c.Instr)}
			for k, v := range st.facts {
				if n, ok := nameFact(k, s.Params[1]); ok {
					if v {
						ch.yes[n] = true
					} else {
						ch.no[n] = true
					}
				}
			}
			cs = append(cs, ch)
		}
		r.explore(p, f, h, Opts{}, nil)
		for _, n := range order {
			for _, c := range cs {
				if c.no[n] || len(c.yes) > 0 && !c.yes[n] {
					continue
				}
				if n == "TRACE" {
					if c.v <= 5 || traceCheck >= 0 && c.v > traceCheck {
						r.Bad(names, "zap "+n, c.pos, "a zap logger configured with TRACE does not log exactly the trace messages", nil)
					}
				} else if c.v != zapLevels[n] {
					r.Bad(names, "zap "+n, c.pos, "a zap logger configured with "+n+" has another level", nil)
				}
			}
		}
	}
	r.Need(nopanic, 2)
	r.Need(gates, 10)
	r.Need(sets, 3)
	r.Need(names, 2)
}

var zapLevels = map[string]int64{"DEBUG": -1, "INFO": 0, "WARN": 1, "ERROR": 2, "PANIC": 4}

// unconv strips conversions between integer types.
func unconv(t *Term) *Term {
	for t.op == "conv" || t.op == "convert" || t.op == "iface" {
		t = t.sub[0]
	}
	return t
}

// nameFact: the parameter (or a case-mapped form of it) is compared with a name.
func nameFact(c, param *Term) (string, bool) {
	if c.op != "eq" || len(c.sub) != 2 {
		return "", false
	}
	for i := 0; i < 2; i++ {
		a, b := c.sub[i], c.sub[1-i]
		if n, ok := b.strVal(); ok && (a == param || a.op == "app" && a.has(param)) {
			return n, true
		}
	}
	return "", false
}

// lookupOf: the global map a value is looked up in.
func lookupOf(t *Term) string {
	out := ""
	t.any(func(x *Term) bool {
		if x.op == "global" {
			out = x.aux
		}
		return false
	})
	return out
}

// mapInits: constant entries a package-level map is initialised with.
func (p *Program) mapInits(name string) map[string]int64 {
	name = shortAux(name)
	out := map[string]int64{}
	for _, f := range p.Funcs {
		if !isInitFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				g := ""
				if refs := mu.Map.Referrers(); refs != nil {
					for _, u := range *refs {
						if s, ok := u.(*ssa.Store); ok {
							if gl, ok := s.Addr.(*ssa.Global); ok {
								g = gl.Name()
							}
						}
					}
				}
				if g == "" || g != name[strings.LastIndexByte(name, '.')+1:] {
					continue
				}
				k, ok1 := constString(mu.Key)
				c, ok2 := mu.Value.(*ssa.Const)
				if ok1 && ok2 && c.Value != nil {
					out[k] = c.Int64()
				}
			}
		}
	}
	return out
}

// levelNames checks the translation of level names.
func (p *Program) levelNames(r *Report, rule string, order []string, val map[string]int64) {
	f := p.Func("misc", "TransLogLevel")
	if f == nil {
		r.Bad("anchors", "TransLogLevel", "?", "misc.TransLogLevel was not found", nil)
		return
	}
	type choice struct {
		yes, no map[string]bool
		v       int64
	}
	var cs []choice
	h := Hooks{}
	h.Return = func(s *Sim, st *State, res []*Term) {
		if len(res) != 1 {
			return
		}
		r.Ob(rule, "TransLogLevel")
		v := unconv(res[0])
		if x, ok := v.intVal(); ok {
			ch := choice{map[string]bool{}, map[string]bool{}, x}
			for k, v := range st.facts {
				if n, ok := nameFact(k, s.Params[0]); ok {
					if v {
						ch.yes[n] = true
					} else {
						ch.no[n] = true
					}
				} else if !v {
					ch.no["*"] = true
				}
			}
			cs = append(cs, ch)
			return
		}
		m := lookupOf(v)
		if m == "" {
			r.Note("the translation of level names was not understood")
			return
		}
		es := p.mapInits(m)
		if len(es) == 0 {
			r.Note("the table of level names was not understood")
			return
		}
		for _, n := range order {
			w, ok := es[n]
			r.Ob(rule, n)
			if !ok && val[n] != 0 {
				r.Bad(rule, n, p.Pos(f.Pos()), "the level name "+n+" is not known", nil)
			} else if ok && w != val[n] {
				r.Bad(rule, n, p.Pos(f.Pos()), "the level name "+n+" means another level", nil)
			}
		}
	}
	r.explore(p, f, h, Opts{}, nil)
	for _, c := range cs {
		if c.no["*"] {
			continue // an unknown name
		}
		for _, n := range order {
			if c.no[n] || len(c.yes) > 0 && !c.yes[n] {
				continue
			}
			if c.v != val[n] {
				r.Bad(rule, n, p.Pos(f.Pos()), "the level name "+n+" means another level", nil)
			}
		}
	}
}
