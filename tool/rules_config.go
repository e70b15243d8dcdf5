package main

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C32: the configuration. Sections agree on key and structure between default, reading and cache; what
// is cached is forgotten after every load; a missing file is written from the defaults and every other
// failure stops.

func init() {
	register("C32", "agreement query over the sections (default, read, cached under one key with one structure) and path-sensitive order of load, write and forgetting over SSA", ruleConfig)
}

const (
	c32Agree  = "a section is defaulted, read and cached under one key with one structure"
	c32Err    = "a section that cannot be read is reported"
	c32Forget = "cached sections are forgotten after a load"
	c32Load   = "a missing file is written, any other failure is reported"
	c32Order  = "defaults are set before the first load"
	c32Reset  = "a new configuration file is loaded before it is used"
)

// viperOp: the operation of the configuration library a call makes, with the index of its first argument.
func viperOp(n string) (op string, first int) {
	const pkg = "github.com/spf13/viper."
	switch {
	case strings.HasPrefix(n, pkg):
		return n[len(pkg):], 0
	case strings.HasPrefix(n, "(*"+pkg+"Viper)."):
		return n[len("(*"+pkg+"Viper)."):], 1
	}
	return "", 0
}

type section struct {
	fn   *ssa.Function
	keys map[string]bool // read from the library
	all  map[string]bool // keys used anywhere
	res  types.Type
}

func ruleConfig(p *Program, r *Report) {
	pkg := p.Pkg("config")
	if pkg == nil {
		r.Bad("the configuration package exists", "config", "config/config.go", "package config is not there: how the configuration is read cannot be located", nil)
		return
	}
	defaults := p.configDefaults(r, pkg)
	// accessors: exported functions that read a section
	var secs []*section
	caches := map[*ssa.Global]string{}
	for _, fn := range p.exported("config", func(string) bool { return true }) {
		if fn.Signature.Results().Len() != 1 || fn.Signature.Params().Len() != 0 {
			continue
		}
		if sec := p.configAccessor(r, fn, defaults, caches); sec != nil {
			secs = append(secs, sec)
		}
	}
	byKey := map[string]string{}
	for _, s := range secs {
		for k := range s.keys {
			if o, dup := byKey[k]; dup && o != p.FuncName(s.fn) {
				r.Bad(c32Agree, p.FuncName(s.fn)+" "+k, p.Pos(s.fn.Pos()), "the section "+k+" is read by "+o+" and by "+p.FuncName(s.fn)+": one of them gives the values of another section", nil)
			}
			byKey[k] = p.FuncName(s.fn)
		}
	}
	p.configLoads(r, pkg, caches)
	p.configFiles(r)
	r.Need(c32Agree, 1)
	r.Need(c32Forget, 1)
	r.Need(c32Load, 1)
}

// configDefaults: the key and structure of every default, and that they are set before the first load.
func (p *Program) configDefaults(r *Report, pkg *ssa.Package) map[string]types.Type {
	out := map[string]types.Type{}
	p.configDirs = map[string]bool{}
	h := Hooks{}
	at := map[string]string{}
	order := true
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		op, i := viperOp(c.Name)
		switch op {
		case "":
			return nil
		case "AddConfigPath":
			if v, ok := c.Args[len(c.Args)-1].strVal(); ok {
				p.configDirs[path.Clean(v)] = true
			}
		case "SetDefault":
			if len(c.Args) < i+2 {
				return nil
			}
			k, ok := unface(c.Args[i]).strVal()
			if !ok {
				r.Note("%s", p.InstrPos(c.Instr)+": the key of a default is not a constant: not decided")
				out[""] = nil
				return nil
			}
			t := c.Args[i+1].typ
			if c.Args[i+1].op == "iface" {
				t = c.Args[i+1].sub[0].typ
			}
			if t != nil && !strings.Contains(k, ".") {
				if o, dup := out[k]; dup && at[k] != p.InstrPos(c.Instr) && !types.Identical(derefType(o), derefType(t)) {
					r.Bad(c32Agree, "default "+k, p.InstrPos(c.Instr), "the section "+k+" has two defaults of different structure", nil)
				}
				out[k] = t
				at[k] = p.InstrPos(c.Instr)
			}
			if st.F["loaded"] > 0 {
				order = false
				r.Bad(c32Order, "default "+k, p.InstrPos(c.Instr), "the default of "+k+" is set after the configuration was loaded: a new file is written without it", st.path(12))
			}
		case "ReadInConfig", "SafeWriteConfig", "WriteConfig", "SafeWriteConfigAs", "WriteConfigAs", "MergeInConfig":
			st.F["loaded"] = 1
		}
		return nil
	}
	r.explore(p, pkg.Func("init"), h, Opts{MaxStates: 20000}, func(s *Sim, st *State) {
		for _, mem := range pkg.Members {
			if g, ok := mem.(*ssa.Global); ok && g.Name() == "init$guard" {
				st.heap[s.globalAddr(g)] = s.tt.Bool(false)
			}
		}
	})
	if order && len(out) > 0 {
		r.Ob(c32Order, "config.init")
	}
	return out
}

// cacheOf: the package variable a value is kept in.
func cacheOf(s *Sim, t *Term) *ssa.Global {
	for t != nil {
		switch t.op {
		case "global":
			return s.globalOf(t)
		case "load", "fieldaddr", "indexaddr", "hv":
			if len(t.sub) == 0 {
				return nil
			}
			t = t.sub[0]
		default:
			return nil
		}
	}
	return nil
}

// configAccessor checks one accessor; nil when the function reads no section.
func (p *Program) configAccessor(r *Report, fn *ssa.Function, defaults map[string]types.Type, caches map[*ssa.Global]string) *section {
	name := p.FuncName(fn)
	sec := &section{fn: fn, keys: map[string]bool{}, all: map[string]bool{}}
	sec.res = fn.Signature.Results().At(0).Type()
	type read struct {
		key string
		to  *Term
		err *Term
	}
	reads := map[string]types.Type{}
	noted := map[string]bool{}
	note := func(m string) {
		if !noted[m] {
			noted[m] = true
			r.Note("%s", name+": "+m)
		}
	}
	where := map[string]string{}
	h := Hooks{}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if c.Name == "(*sync.Map).Store" || c.Name == "(*sync.Map).LoadOrStore" || c.Name == "(*sync.Once).Do" {
			if g := cacheOf(s, c.Args[0]); g != nil && g.Pkg == fn.Pkg {
				caches[g] = name
			}
			if strings.HasSuffix(c.Name, "tore") && len(c.Args) > 1 {
				if k, ok := unface(c.Args[1]).strVal(); ok {
					sec.all[k] = true
				}
			}
		}
		if c.Name == "builtin:delete" || c.Name == "(*sync.Map).Delete" {
			st.F["kept"] = 0
		}
		if c.Name == "(*sync.Map).Load" && len(c.Args) > 1 {
			if k, ok := unface(c.Args[1]).strVal(); ok {
				sec.all[k] = true
			}
		}
		return nil
	}
	h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
		op, i := viperOp(c.Name)
		switch op {
		case "UnmarshalKey", "UnmarshalExact", "Unmarshal":
		case "Get", "GetString", "GetInt", "GetBool", "Sub", "GetStringSlice":
			if len(c.Args) > i {
				if k, ok := c.Args[i].strVal(); ok {
					k, _, _ = strings.Cut(k, ".")
					sec.keys[k], sec.all[k] = true, true
					where[k] = p.InstrPos(c.Instr)
					note("the section is read by " + op + ": its structure is not decided")
				}
			}
			return
		default:
			return
		}
		if op != "UnmarshalKey" || len(c.Args) < i+2 {
			note("the configuration is read by " + op + ": not decided")
			return
		}
		k, ok := c.Args[i].strVal()
		if !ok {
			note("the key is " + short(c.Args[i].String(), 60) + ": not decided")
			return
		}
		to := c.Args[i+1]
		sec.keys[k], sec.all[k] = true, true
		where[k] = p.InstrPos(c.Instr)
		v := unface(to)
		t := to.typ
		if to.op == "iface" {
			t = to.sub[0].typ
		}
		reads[k] = t
		st.L["read"] = []*Term{v}
		if len(res) > 0 {
			st.L["readerr"] = []*Term{res[len(res)-1]}
		}
	}
	h.MapRead = func(s *Sim, st *State, in ssa.Instruction, m, k *Term) {
		if cacheOf(s, m) == nil {
			return
		}
		if x, ok := unface(k).strVal(); ok {
			sec.all[x] = true
		}
	}
	kept := func(s *Sim, st *State, in ssa.Instruction, v *Term) {
		if l := st.L["readerr"]; len(l) > 0 && s.errState(st, l[0]) != 1 {
			r.Bad(c32Err, name, p.InstrPos(in), "a section is cached although reading it may have failed", st.path(20))
		}
		st.F["kept"] = 1
	}
	h.PanicOut = func(s *Sim, st *State, v *Term) {
		if l := st.L["readerr"]; len(l) > 0 && st.F["kept"] > 0 && s.errState(st, l[0]) != 1 {
			r.Bad(c32Err, name+" kept", p.Pos(fn.Pos()), "a section stays cached although reading it failed", st.path(20))
		}
	}
	h.MapUpdate = func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term) {
		g := cacheOf(s, m)
		if g == nil || g.Pkg != fn.Pkg {
			return
		}
		caches[g] = name
		if x, ok := unface(k).strVal(); ok {
			sec.all[x] = true
		}
		kept(s, st, in, v)
	}
	h.Store = func(s *Sim, st *State, in ssa.Instruction, a, v *Term) {
		if g := cacheOf(s, a); g != nil && g.Pkg == fn.Pkg {
			caches[g] = name
			kept(s, st, in, v)
		}
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		l := st.L["readerr"]
		if len(l) == 0 {
			return
		}
		if s.errState(st, l[0]) != 1 {
			r.Bad(c32Err, name, p.Pos(fn.Pos()), "the values of a section are given out although reading them may have failed", st.path(20))
		} else {
			r.Ob(c32Err, name)
		}
		if v := unface(res[0]); v != st.L["read"][0] && v.op == "obj" {
			r.Bad(c32Agree, name+" result", p.Pos(fn.Pos()), "the structure given out is not the one the section was read into", st.path(20))
		}
		if v := st.L["read"][0]; baseObj(v).op == "global" {
			r.Note("%s", name+": the section is read into a package variable")
		}
	}
	r.explore(p, fn, h, Opts{}, nil)
	if len(sec.keys) == 0 {
		return nil
	}
	var ks []string
	for k := range sec.all {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) > 1 {
		r.Bad(c32Agree, name+" keys", p.Pos(fn.Pos()), "the section is handled under different keys: "+strings.Join(ks, ", "), nil)
	}
	_, open := defaults[""] // defaults under keys that were not understood
	for k := range sec.keys {
		d, ok := defaults[k]
		switch {
		case len(defaults) == 0:
		case !ok && open:
		case !ok:
			var have []string
			for x := range defaults {
				have = append(have, x)
			}
			sort.Strings(have)
			r.Bad(c32Agree, name+" default", where[k], fmt.Sprintf("the section %q that is read has no default (defaults exist for %s)", k, strings.Join(have, ", ")), nil)
			continue
		case !sameStruct(d, sec.res):
			r.Bad(c32Agree, name+" structure", where[k], fmt.Sprintf("the section %s is defaulted with %s but given out as %s", k, typeStr(derefType(d), p), typeStr(derefType(sec.res), p)), nil)
			continue
		}
		if t := reads[k]; t != nil && !sameStruct(t, sec.res) {
			r.Bad(c32Agree, name+" read", where[k], fmt.Sprintf("the section %s is read into %s but given out as %s", k, typeStr(derefType(t), p), typeStr(derefType(sec.res), p)), nil)
			continue
		}
		r.Ob(c32Agree, name+" "+k)
	}
	return sec
}

// deletesEach: the loop over the map deletes every key it sees and sees every key.
func (p *Program) deletesEach(rg *ssa.Range) bool {
	for _, u := range *rg.Referrers() {
		nx, ok := u.(*ssa.Next)
		if !ok {
			continue
		}
		head := nx.Block()
		if len(head.Succs) != 2 {
			continue
		}
		deletes := map[*ssa.BasicBlock]bool{}
		for _, b := range rg.Parent().Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && p.CalleeName(c.Common()) == "builtin:delete" && len(c.Common().Args) == 2 {
					if e, ok := c.Common().Args[1].(*ssa.Extract); ok && e.Tuple == ssa.Value(nx) {
						deletes[b] = true
					}
				}
			}
		}
		if len(deletes) == 0 {
			continue
		}
		// from the body, the next round is only reached through a delete, and nothing else is reached
		var seen = map[*ssa.BasicBlock]bool{}
		var skips func(b *ssa.BasicBlock) bool
		skips = func(b *ssa.BasicBlock) bool {
			if b == head {
				return true
			}
			if deletes[b] || seen[b] {
				return false
			}
			seen[b] = true
			for _, x := range b.Succs {
				if skips(x) {
					return true
				}
			}
			return false
		}
		if skips(head.Succs[0]) {
			return false
		}
		return true
	}
	return false
}

func sameStruct(a, b types.Type) bool {
	a, b = derefType(a), derefType(b)
	if pt, ok := a.Underlying().(*types.Pointer); ok {
		a = pt.Elem()
	}
	if types.Identical(a, b) {
		return true
	}
	// the result may be an interface
	if _, ok := b.Underlying().(*types.Interface); ok {
		return true
	}
	// a map as default gives no structure
	if _, ok := a.Underlying().(*types.Map); ok {
		return true
	}
	return false
}

// configLoads: what happens when the configuration is loaded.
func (p *Program) configLoads(r *Report, pkg *ssa.Package, caches map[*ssa.Global]string) {
	isLoad := func(op string) bool { return op == "ReadInConfig" || op == "MergeInConfig" || op == "ReadConfig" }
	direct := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if op, _ := viperOp(p.CalleeName(c.Common())); isLoad(op) {
						direct[fn] = true
					}
				}
			}
		}
	}
	var roots []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Blocks == nil || isInitFn(fn) || fn.Parent() != nil || !p.isEntry(fn) {
			continue
		}
		for f := range p.staticReach(fn) {
			if direct[f] {
				roots = append(roots, fn)
				break
			}
		}
	}
	// those that only call another root add nothing
	var lower []*ssa.Function
	for _, fn := range roots {
		if fn.Pkg == pkg || direct[fn] {
			lower = append(lower, fn)
		}
	}
	if len(lower) == 0 {
		r.Bad(c32Load, "load", "config/config.go", "no function of the package loads the configuration", nil)
	}
	for _, fn := range lower {
		p.configLoad(r, fn, caches, isLoad)
	}
}

func (p *Program) configLoad(r *Report, fn *ssa.Function, caches map[*ssa.Global]string, isLoad func(string) bool) {
	name := p.FuncName(fn)
	h := Hooks{}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		switch c.Name {
		case "builtin:clear", "builtin:delete":
			if g := cacheOf(s, c.Args[0]); g != nil && c.Name == "builtin:clear" {
				st.F["clear:"+g.Name()] = 1
			}
		case "os.Mkdir", "os.MkdirAll":
			if d, ok := c.Args[0].strVal(); !ok || len(p.configDirs) == 0 || p.configDirs[path.Clean(d)] {
				st.F["dir"] = 1
			}
		case "(*sync.Map).Clear", "(*sync.Map).Range":
			if g := cacheOf(s, c.Args[0]); g != nil {
				st.F["clear:"+g.Name()] = 1
			}
		}
		return nil
	}
	h.Step = func(s *Sim, st *State, in ssa.Instruction) {
		rg, ok := in.(*ssa.Range)
		if !ok {
			return
		}
		g := cacheOf(s, s.eval(st, st.top(), rg.X))
		if g == nil || caches[g] == "" {
			return
		}
		if p.deletesEach(rg) {
			st.F["clear:"+g.Name()] = 1
		}
	}
	h.Store = func(s *Sim, st *State, in ssa.Instruction, a, v *Term) {
		if a.op != "global" {
			return
		}
		if g := s.globalOf(a); g != nil && caches[g] != "" {
			if old := s.load(st, a, derefType(g.Type())); v.isNil() || v.op == "obj" || v.op == "struct" || v.op == "zero" || v.op != "load" && v != old {
				st.F["clear:"+g.Name()] = 1
			}
		}
	}
	h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
		op, _ := viperOp(c.Name)
		switch {
		case isLoad(op):
			for k := range st.F {
				if strings.HasPrefix(k, "clear:") {
					delete(st.F, k)
				}
			}
			st.F["load"] = 1
			if len(res) > 0 {
				st.L["loaderr"] = []*Term{res[len(res)-1]}
			}
			delete(st.F, "written")
		case op == "SafeWriteConfig" || op == "WriteConfig" || op == "WriteConfigAs" || op == "SafeWriteConfigAs":
			st.F["written"] = 1
			if op == "WriteConfig" {
				notFound := false
				for f, v := range st.facts {
					notFound = notFound || v && f.op == "istype" && strings.Contains(f.aux, "ConfigFileNotFoundError")
				}
				if _, fixed := p.viperArgs()["SetConfigFile"]; fixed && !notFound {
					r.Note("%s: which file is written is set by SetConfigFile", p.InstrPos(c.Instr))
				} else {
					r.Bad(c32Load, name+" default file", p.InstrPos(c.Instr), "WriteConfig replaces the file that was found and fails when there is none: a missing configuration is not created", st.path(20))
				}
			}
			if strings.HasSuffix(op, "As") && len(c.Args) > 0 {
				a := p.viperArgs()
				if f, ok := c.Args[len(c.Args)-1].strVal(); ok && a["AddConfigPath"] != "" && a["SetConfigName"] != "" && a["SetConfigType"] != "" {
					if want := path.Join(a["AddConfigPath"], a["SetConfigName"]+"."+a["SetConfigType"]); path.Clean(f) != want {
						r.Bad(c32Load, name+" default file", p.InstrPos(c.Instr), "the default configuration is written to "+f+", it is looked for at "+want, st.path(20))
					}
				}
			}
			dir := st.F["dir"] > 0
			for _, e := range st.L["stat"] {
				dir = dir || s.errState(st, e) == 1
			}
			for f, v := range st.facts {
				if f.op == "app" && (strings.HasSuffix(f.aux, "os.IsExist") && v || strings.HasSuffix(f.aux, "os.IsNotExist") && !v) {
					dir = true
				}
			}
			if !dir {
				r.Bad(c32Load, name+" directory", p.InstrPos(c.Instr), "the default configuration is written to a directory that may not exist: a missing configuration is not created", st.path(20))
			} else {
				r.Ob(c32Load, name+" directory")
			}
			if len(res) > 0 {
				st.L["writeerr"] = []*Term{res[len(res)-1]}
			}
		case (c.Name == "os.Stat" || c.Name == "os.Lstat" || c.Name == "os.Open") && len(res) > 1:
			st.AddL("stat", res[1])
		case c.Name == "errors.As" && len(c.Args) == 2 && len(res) > 0:
			if l := st.L["loaderr"]; len(l) > 0 && unstale(c.Args[0]) == l[0] && c.Args[1].any(func(t *Term) bool { return t.typ != nil && strings.Contains(t.typ.String(), "ConfigFileNotFoundError") }) {
				st.L["as"] = []*Term{res[0]}
			}
		}
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		if st.F["load"] == 0 {
			return
		}
		given := func(e *Term) bool { // the caller is told
			for _, x := range res {
				if x.typ != nil && isErrorType(x.typ) || x.op == "iface" || x == e {
					if s.errState(st, x) == 2 || x == e {
						return true
					}
				}
			}
			return false
		}
		e := st.L["loaderr"]
		missing := false
		if len(e) > 0 && s.errState(st, e[0]) != 1 {
			for f, v := range st.facts {
				if v && f.op == "istype" && f.sub[0] == e[0] && strings.Contains(f.aux, "ConfigFileNotFoundError") {
					missing = true
				}
			}
			if l := st.L["as"]; len(l) > 0 {
				if v, ok := s.truth(st, l[0]); ok && v {
					missing = true
				}
			}
			w := st.L["writeerr"]
			switch {
			case given(e[0]):
				r.Ob(c32Load, name+" told")
				return
			case !missing:
				r.Bad(c32Load, name, p.Pos(fn.Pos()), "loading may fail with an error that is not reported", st.path(20))
				return
			case st.F["written"] == 0:
				r.Bad(c32Load, name, p.Pos(fn.Pos()), "a missing configuration file is not written from the defaults", st.path(20))
				return
			case len(w) > 0 && given(w[0]):
				return
			case len(w) > 0 && s.errState(st, w[0]) != 1:
				r.Bad(c32Load, name, p.Pos(fn.Pos()), "writing the default configuration may fail without being reported", st.path(20))
				return
			}
			r.Ob(c32Load, name+" missing")
		} else {
			r.Ob(c32Load, name+" loaded")
		}
		for g := range caches {
			if st.F["clear:"+g.Name()] > 0 {
				r.Ob(c32Forget, name+" "+g.Name())
			} else {
				r.Bad(c32Forget, name+" "+g.Name(), p.Pos(fn.Pos()), "after the configuration was loaded, "+g.Name()+" still holds sections of the earlier one: accessors keep giving them", st.path(20))
			}
		}
		if len(caches) == 0 {
			r.Ob(c32Forget, name+" nothing cached")
		}
	}
	r.explore(p, fn, h, Opts{}, nil)
}

// configFiles: where the file is chosen, the configuration is loaded before it is used.
func (p *Program) configFiles(r *Report) {
	choose := func(op string) bool {
		return op == "SetConfigFile" || op == "AddConfigPath" || op == "SetConfigName"
	}
	for _, fn := range p.Funcs {
		if fn.Blocks == nil || fn.Pkg == p.Pkg("config") {
			continue
		}
		uses := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if op, _ := viperOp(p.CalleeName(c.Common())); choose(op) {
						uses = true
					}
				}
			}
		}
		if !uses {
			continue
		}
		tops := []*ssa.Function{fn}
		if cs := p.directCallers(fn); !p.addrTaken[fn] && len(cs) > 0 {
			tops = cs
		}
		for _, top := range tops {
			h := Hooks{}
			h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
				op, _ := viperOp(c.Name)
				switch {
				case choose(op):
					st.F["chosen"] = 1
				case op == "ReadInConfig" || op == "MergeInConfig":
					st.F["chosen"] = 0
				case st.F["chosen"] == 1 && (op == "UnmarshalKey" || op == "Unmarshal"):
					r.Bad(c32Reset, p.FuncName(top), p.InstrPos(c.Instr), "the configuration is read after another file was chosen and before it was loaded", st.path(20))
				}
				if c.Fn != nil && p.InRepo(c.Fn) && c.Fn.Pkg != p.Pkg("config") && c.Fn.Pkg != top.Pkg && c.Fn.Parent() == nil {
					return &Verdict{Opaque: true}
				}
				return nil
			}
			h.Return = func(s *Sim, st *State, res []*Term) {
				if st.F["chosen"] == 1 {
					r.Bad(c32Reset, p.FuncName(top), p.Pos(top.Pos()), "another configuration file was chosen, but it is never loaded", st.path(20))
				} else {
					r.Ob(c32Reset, p.FuncName(top))
				}
			}
			r.explore(p, top, h, Opts{}, nil)
		}
	}
}

// viperArgs: the constant arguments of viper's setters, by method.
func (p *Program) viperArgs() map[string]string {
	out := map[string]string{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				op, _ := viperOp(p.CalleeName(c.Common()))
				if !strings.HasPrefix(op, "SetConfig") && op != "AddConfigPath" {
					continue
				}
				a := c.Common().Args
				v, ok := constString(a[len(a)-1])
				if old, dup := out[op]; !ok || dup && old != v {
					v = ""
				}
				out[op] = v
			}
		}
	}
	return out
}
