package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallEv is a call as the rules see it. Args includes the receiver first.
type CallEv struct {
	Instr    ssa.CallInstruction
	Name     string
	Fn       *ssa.Function // resolved repository callee, if any
	FnT      *Term
	Args     []*Term
	Deferred bool
	Unwind   bool
	Frame    *Frame
}

// Outcome is one possible result of an opaque call.
type Outcome struct {
	Res   []*Term
	Panic *Term
	Apply func(st *State) bool
}

type Verdict struct {
	Opaque   bool // do not look inside
	Stop     bool // the path ends here
	Outcomes []Outcome
}

type Hooks struct {
	Call       func(s *Sim, st *State, c *CallEv) *Verdict
	AfterCall  func(s *Sim, st *State, c *CallEv, res []*Term)
	Return     func(s *Sim, st *State, res []*Term)
	PanicOut   func(s *Sim, st *State, val *Term)
	Store      func(s *Sim, st *State, in ssa.Instruction, addr, val *Term)
	Load       func(s *Sim, st *State, in ssa.Instruction, addr *Term)
	MapUpdate  func(s *Sim, st *State, in ssa.Instruction, m, k, v *Term)
	MapRead    func(s *Sim, st *State, in ssa.Instruction, m, k *Term)
	Index      func(s *Sim, st *State, in ssa.Instruction, base, idx *Term, ok bool)
	Slice      func(s *Sim, st *State, in ssa.Instruction, base, lo, hi, max *Term, ok bool)
	Make       func(s *Sim, st *State, in ssa.Instruction, kind string, size *Term)
	Assert     func(s *Sim, st *State, in *ssa.TypeAssert, x *Term, known bool)
	Panic      func(s *Sim, st *State, in *ssa.Panic, val *Term)
	Send       func(s *Sim, st *State, in ssa.Instruction, ch, val *Term, blocking bool)
	Recv       func(s *Sim, st *State, in ssa.Instruction, ch, val *Term, blocking bool)
	SelectHead func(s *Sim, st *State, in *ssa.Select, chans []*Term)
	Go         func(s *Sim, st *State, in *ssa.Go, fn *Term, args []*Term)
	LoopPhi    func(s *Sim, st *State, ph *ssa.Phi, t, in *Term, back bool)
	LoopBuf    func(s *Sim, st *State, hdr *ssa.BasicBlock, key, t, in *Term, back bool)
	LoopBack   func(s *Sim, st *State, from, to *ssa.BasicBlock)
	Enter      func(s *Sim, st *State, fr *Frame)
	Leave      func(s *Sim, st *State, fr *Frame, res []*Term)
	Concat     func(s *Sim, st *State, in ssa.Instruction, t *Term)
	Compare    func(s *Sim, st *State, in ssa.Instruction, x, y *Term)
	Step       func(s *Sim, st *State, in ssa.Instruction)
	Cond       func(s *Sim, st *State, in *ssa.If, c *Term)
}

type Opts struct {
	Numeric        bool                        // numeric bounds decide branches
	ImplicitPanics bool                        // index, slice, assertion and opaque calls may panic
	Opaque         func(fn *ssa.Function) bool // repository functions not to look into
	NoGetters      bool                        // treat Dict/List getters as pure terms (may panic)
	MayPanic       func(c *CallEv) bool
	MaxStates      int
	InlineLoggers  bool // look into the methods of loggers
	InlineCodec    bool // look into the bencode functions instead of using their contract
	OnRecursion    func(s *Sim, st *State, c *CallEv) *Verdict
	Root           func(s *Sim, st *State)
}

type Sim struct {
	p    *Program
	tt   *TermTable
	h    Hooks
	o    Opts
	ctxs map[string]*Ctx
	live map[*ssa.Function]*liveInfo

	root    *ssa.Function
	Params  []*Term
	Free    []*Term
	work    []*State
	visited map[string]*visit
	headers map[string]*headInfo
	States  int
	Steps   int
	Err     error
	Inlined map[*ssa.Function]bool
	domBack map[[2]*ssa.BasicBlock]bool
	hdr     map[*ssa.BasicBlock]bool
	queued  map[string]bool
}

type visit struct {
	num *DBM
	st  *State
	n   int
	out bool
}

type headInfo struct {
	heaps []map[*Term]*Term
	n     int
}

func NewSim(p *Program, tt *TermTable, h Hooks, o Opts) *Sim {
	if tt == nil {
		tt = NewTermTable()
	}
	if o.MaxStates == 0 {
		o.MaxStates = 200000
	}
	return &Sim{p: p, tt: tt, h: h, o: o, ctxs: map[string]*Ctx{}, live: map[*ssa.Function]*liveInfo{},
		visited: map[string]*visit{}, headers: map[string]*headInfo{}, Inlined: map[*ssa.Function]bool{},
		hdr: map[*ssa.BasicBlock]bool{}, queued: map[string]bool{}}
}

func (s *Sim) ctx(parent *Ctx, site ssa.Instruction, fn *ssa.Function) *Ctx {
	pid := -1
	if parent != nil {
		pid = parent.id
	}
	k := fmt.Sprintf("%d|%p|%p", pid, site, fn)
	if c, ok := s.ctxs[k]; ok {
		return c
	}
	c := &Ctx{id: len(s.ctxs), parent: parent, site: site, fn: fn}
	s.ctxs[k] = c
	return c
}

// siteID names an instruction in a context.
func (s *Sim) siteID(f *Frame, in ssa.Instruction, extra string) string {
	return fmt.Sprintf("%s#%p/%d%s", extra, in, f.ctx.id, "")
}

// Run explores fn as a root from a state with symbolic parameters.
func (s *Sim) Run(fn *ssa.Function, setup func(s *Sim, st *State)) error {
	s.root = fn
	st := &State{heap: map[*Term]*Term{}, facts: map[*Term]bool{}, num: NewDBM(), F: map[string]int{}, L: map[string][]*Term{}}
	c := s.ctx(nil, nil, fn)
	f := &Frame{fn: fn, ctx: c, env: map[ssa.Value]*Term{}, block: fn.Blocks[0]}
	s.Params = nil
	for i, p := range fn.Params {
		t := s.tt.mk("param", fmt.Sprintf("%s#%d", p.Name(), i), p.Type())
		s.Params = append(s.Params, t)
		f.env[p] = t
	}
	s.Free = nil
	for i, fv := range fn.FreeVars {
		t := s.tt.mk("free", fmt.Sprintf("%s#%d", fv.Name(), i), fv.Type())
		s.Free = append(s.Free, t)
	}
	if len(s.Free) > 0 {
		f.closure = s.tt.mk("closure", fmt.Sprintf("%p", fn), fn.Type(), s.Free...)
		f.closure.fn = fn
	}
	st.frames = []*Frame{f}
	s.Inlined[fn] = true
	if setup != nil {
		setup(s, st)
	}
	if s.h.Enter != nil {
		s.h.Enter(s, st, f)
	}
	s.work = append(s.work, st)
	for len(s.work) > 0 && s.Err == nil {
		st := s.work[len(s.work)-1]
		s.work = s.work[:len(s.work)-1]
		s.runState(st)
		if s.States > s.o.MaxStates {
			s.Err = fmt.Errorf("more than %d abstract states in %s", s.o.MaxStates, s.p.FuncName(fn))
		}
	}
	return s.Err
}

func (s *Sim) push(st *State) { s.work = append(s.work, st) }

// eval gives the value number of an SSA value.
func (s *Sim) eval(st *State, f *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return s.zero(v.Type())
		}
		return s.tt.Const(v.Value, v.Type())
	case *ssa.Function:
		return s.tt.Fn(v)
	case *ssa.Global:
		return s.globalAddr(v)
	case *ssa.Builtin:
		return s.tt.mk("builtin", v.Name(), nil)
	case *ssa.FreeVar:
		if f.closure != nil {
			for i, fv := range f.fn.FreeVars {
				if fv == v && i < len(f.closure.sub) {
					return f.closure.sub[i]
				}
			}
		}
		return s.tt.mk("free", v.Name()+s.siteID(f, nil, ""), v.Type())
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	return s.tt.mk("top", fmt.Sprintf("%s#%p/%d", v.Name(), v, f.ctx.id), v.Type())
}

func (s *Sim) globalAddr(g *ssa.Global) *Term {
	return s.tt.mk("global", fmt.Sprintf("%s#%p", s.p.shortGlobal(g), g), g.Type())
}

func (p *Program) shortGlobal(g *ssa.Global) string {
	return strings.ReplaceAll(g.RelString(nil), p.Module+"/", "")
}

func (s *Sim) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return s.tt.Bool(false)
		case u.Info()&types.IsString != 0:
			return s.tt.Str("")
		case u.Info()&types.IsNumeric != 0:
			return s.tt.Const(constant.MakeInt64(0), t)
		}
		return s.tt.Nil(t)
	case *types.Struct:
		var subs []*Term
		for i := 0; i < u.NumFields(); i++ {
			subs = append(subs, s.zero(u.Field(i).Type()))
		}
		return s.tt.mk("struct", t.String(), t, subs...)
	case *types.Array:
		return s.tt.mk("zeroarray", t.String(), t)
	}
	return s.tt.Nil(t)
}

func (s *Sim) nonNil(st *State, t *Term) bool {
	switch t.op {
	case "obj", "fn", "closure", "iface", "fieldaddr", "indexaddr", "global", "const", "list", "copy", "range":
		return true
	case "slice":
		return s.nonNil(st, t.sub[0]) || isStringTerm(t.sub[0]) || isArrPtr(t.sub[0])
	case "append":
		if len(t.sub) == 2 && t.sub[1].op == "list" && len(t.sub[1].sub) > 0 {
			return true
		}
		return s.nonNil(st, t.sub[0])
	case "res", "app", "ext":
		a := t
		if t.op == "ext" {
			a = t.sub[0]
		}
		n := shortAux(a.aux)
		if n == "errors.New" || n == "fmt.Errorf" {
			return true
		}
	case "load":
		if g := s.loadedGlobal(t); g != nil {
			gi := s.p.globals[g]
			if gi != nil && len(gi.initStores) == 1 && len(gi.otherStore) == 0 && !gi.escapes {
				switch v := gi.initStores[0].Val.(type) {
				case *ssa.Call:
					if f := v.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
						return true
					}
				case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Function:
					return true
				case *ssa.Slice:
					return true
				}
			}
		}
	}
	if v, ok := st.facts[s.tt.mk("isnil", "", nil, t)]; ok {
		return !v
	}
	return false
}

func (s *Sim) loadedGlobal(t *Term) *ssa.Global {
	if t.op != "load" || t.sub[0].op != "global" {
		return nil
	}
	for g := range s.p.globals {
		if s.globalAddr(g) == t.sub[0] {
			return g
		}
	}
	return nil
}

func isStringTerm(t *Term) bool {
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isArrPtr(t *Term) bool {
	if t.typ == nil {
		return false
	}
	p, ok := t.typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

// conditions

func (s *Sim) not(t *Term) *Term {
	if b, ok := t.boolVal(); ok {
		return s.tt.Bool(!b)
	}
	if t.op == "not" {
		return t.sub[0]
	}
	return s.tt.mk("not", "", types.Typ[types.Bool], t)
}

func (s *Sim) eqT(a, b *Term) *Term {
	if a == b {
		return s.tt.Bool(true)
	}
	if a.isConst() && b.isConst() {
		if a.cval.Kind() == b.cval.Kind() {
			return s.tt.Bool(constant.Compare(a.cval, token.EQL, b.cval))
		}
	}
	if a.isNil() {
		a, b = b, a
	}
	if b.isNil() {
		return s.tt.mk("isnil", "", types.Typ[types.Bool], a)
	}
	if v, ok := b.boolVal(); ok {
		if v {
			return a
		}
		return s.not(a)
	}
	if v, ok := a.boolVal(); ok {
		if v {
			return b
		}
		return s.not(b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	// empty string: len==0
	for i, x := range []*Term{a, b} {
		if v, ok := []*Term{b, a}[i].strVal(); ok && v == "" && x.op == "concat" {
			for _, part := range x.sub {
				if w, ok := part.strVal(); ok && w != "" {
					return s.tt.Bool(false)
				}
			}
		}
	}
	if v, ok := a.strVal(); ok && v == "" {
		return s.eqT(s.tt.mk("len", "", types.Typ[types.Int], b), s.tt.Int(0))
	}
	if v, ok := b.strVal(); ok && v == "" {
		return s.eqT(s.tt.mk("len", "", types.Typ[types.Int], a), s.tt.Int(0))
	}
	return s.tt.mk("eq", "", types.Typ[types.Bool], a, b)
}

func (s *Sim) ltT(a, b *Term) *Term {
	if a == b {
		return s.tt.Bool(false)
	}
	if a.isConst() && b.isConst() && a.cval.Kind() == b.cval.Kind() && a.cval.Kind() != constant.Bool {
		return s.tt.Bool(constant.Compare(a.cval, token.LSS, b.cval))
	}
	return s.tt.mk("lt", "", types.Typ[types.Bool], a, b)
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (s *Sim) isIntTerm(t *Term) bool {
	if t.op == "len" || t.op == "cap" {
		return true
	}
	if _, ok := t.intVal(); ok {
		return true
	}
	return isIntType(t.typ)
}

// truth decides a condition from the facts.
func (s *Sim) truth(st *State, c *Term) (bool, bool) {
	if v, ok := c.boolVal(); ok {
		return v, true
	}
	if c.op == "not" {
		v, ok := s.truth(st, c.sub[0])
		return !v, ok
	}
	if v, ok := st.facts[c]; ok {
		return v, true
	}
	switch c.op {
	case "isnil":
		if s.nonNil(st, c.sub[0]) {
			return false, true
		}
		if c.sub[0].isNil() {
			return true, true
		}
	case "eq":
		a, b := c.sub[0], c.sub[1]
		if s.isIntTerm(a) && s.isIntTerm(b) {
			if s.entailsLe(st, a, b, 0) && s.entailsLe(st, b, a, 0) {
				return true, true
			}
			if s.entailsLe(st, a, b, -1) || s.entailsLe(st, b, a, -1) {
				return false, true
			}
		}
		x, k := a, b
		if x.isConst() {
			x, k = k, x
		}
		if k.isConst() {
			for f, v := range st.facts {
				if v && f.op == "eq" && (f.sub[0] == x || f.sub[1] == x) {
					o := f.sub[0]
					if o == x {
						o = f.sub[1]
					}
					if o.isConst() && o != k {
						return false, true
					}
				}
			}
		}
		// pointers: a fresh object differs from everything older
		if a.op == "obj" && b.op == "obj" {
			return false, true
		}
	case "lt":
		a, b := c.sub[0], c.sub[1]
		if s.isIntTerm(a) && s.isIntTerm(b) {
			if s.entailsLe(st, a, b, -1) {
				return true, true
			}
			if s.entailsLe(st, b, a, 0) {
				return false, true
			}
		}
	case "istype":
		x := c.sub[0]
		if x.isNil() {
			return false, true
		}
		for f, v := range st.facts {
			if v && f.op == "istype" && f.sub[0] == x && f.aux != c.aux && !strings.HasPrefix(c.aux, "I:") && !strings.HasPrefix(f.aux, "I:") {
				return false, true
			}
		}
		if v, ok := st.facts[s.tt.mk("isnil", "", nil, x)]; ok && v {
			return false, true
		}
	}
	return false, false
}

// assume adds a condition; false when it contradicts the state.
func (s *Sim) assume(st *State, c *Term, v bool) bool {
	for c.op == "not" {
		c, v = c.sub[0], !v
	}
	if k, ok := s.truth(st, c); ok {
		return k == v
	}
	switch c.op {
	case "lt":
		a, b := c.sub[0], c.sub[1]
		if s.isIntTerm(a) && s.isIntTerm(b) {
			if v {
				return s.addLe(st, a, b, -1)
			}
			return s.addLe(st, b, a, 0)
		}
	case "eq":
		a, b := c.sub[0], c.sub[1]
		if s.isIntTerm(a) && s.isIntTerm(b) {
			if v {
				if !s.addEq(st, a, b) {
					return false
				}
			} else {
				if s.entailsLe(st, a, b, 0) {
					if !s.addLe(st, a, b, -1) {
						return false
					}
				} else if s.entailsLe(st, b, a, 0) {
					if !s.addLe(st, b, a, -1) {
						return false
					}
				}
			}
			if !(a.isConst() || b.isConst()) {
				if stripAll(a).op == "index" && stripAll(b).op == "index" {
					st.facts[c] = v // bytes that are compared
				}
				return true
			}
			x := a
			if x.isConst() {
				x = b
			}
			if x.op == "phi" || x.op == "add" || x.op == "sub" || x.op == "stale" {
				return true
			}
		}
	case "istype":
		if v {
			st.facts[s.tt.mk("isnil", "", nil, c.sub[0])] = false
		}
	case "haskey":
		// what is read for a missing key is the zero value
		if !v {
			if x := s.tt.mk("lookup", "", nil, c.sub...); x.typ != nil {
				switch x.typ.Underlying().(type) {
				case *types.Interface, *types.Map, *types.Pointer, *types.Slice, *types.Signature, *types.Chan:
					st.facts[s.tt.mk("isnil", "", types.Typ[types.Bool], x)] = true
				}
			}
		}
	case "isnil":
		if v {
			for f, w := range st.facts {
				if w && f.op == "istype" && f.sub[0] == c.sub[0] {
					return false
				}
			}
		}
	}
	st.facts[c] = v
	return true
}

// lengths

func (s *Sim) lenTerm(st *State, x *Term) *Term {
	if v, ok := x.strVal(); ok {
		return s.tt.Int(int64(len(v)))
	}
	switch x.op {
	case "nil":
		return s.tt.Int(0)
	case "copy":
		return s.lenTerm(st, x.sub[0])
	case "alias":
		return s.lenTerm(st, x.sub[0])
	case "list":
		return s.tt.Int(int64(len(x.sub)))
	case "slice":
		lo, hi := x.sub[1], x.sub[2]
		if hi.op == "none" {
			hi = s.lenTerm(st, x.sub[0])
		}
		return s.sub(hi, lo)
	case "append":
		return s.add(s.lenTerm(st, x.sub[0]), s.lenTerm(st, x.sub[1]))
	case "concat":
		r := s.tt.Int(0)
		for _, y := range x.sub {
			r = s.add(r, s.lenTerm(st, y))
		}
		return r
	case "byte":
		return s.tt.Int(1)
	case "be", "le":
		return s.tt.Int(int64(atoi(x.aux)))
	case "obj":
		if a := arrLen(x.typ); a >= 0 {
			return s.tt.Int(a)
		}
	}
	if a := arrLen(x.typ); a >= 0 {
		return s.tt.Int(a)
	}
	if h, ok := st.heap[s.tt.mk("attr:len", "", nil, x)]; ok {
		return h
	}
	return s.tt.mk("len", "", types.Typ[types.Int], x)
}

func (s *Sim) capTerm(st *State, x *Term) *Term {
	switch x.op {
	case "nil":
		return s.tt.Int(0)
	case "slice":
		if !isStringTerm(x.sub[0]) {
			if m := x.sub[3]; m.op != "none" {
				return s.sub(m, x.sub[1])
			}
			return s.sub(s.capTerm(st, x.sub[0]), x.sub[1])
		}
	case "list":
		return s.tt.Int(int64(len(x.sub)))
	}
	if a := arrLen(x.typ); a >= 0 {
		return s.tt.Int(a)
	}
	if h, ok := st.heap[s.tt.mk("attr:cap", "", nil, x)]; ok {
		return h
	}
	return s.tt.mk("cap", "", types.Typ[types.Int], x)
}

func arrLen(t types.Type) int64 {
	if t == nil {
		return -1
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len()
	}
	return -1
}

func atoi(s string) int {
	n := 0
	fmt.Sscanf(s, "%d", &n)
	return n
}

// arithmetic

func foldInt(op token.Token, a, b *Term, typ types.Type) (constant.Value, bool) {
	if !a.isConst() || !b.isConst() || a.cval.Kind() != constant.Int || b.cval.Kind() != constant.Int {
		return nil, false
	}
	switch op {
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
		return wrapTo(constant.BinaryOp(a.cval, op, b.cval), typ), true
	case token.QUO, token.REM:
		if constant.Sign(b.cval) == 0 {
			return nil, false
		}
		o := op
		if o == token.QUO {
			o = token.QUO_ASSIGN
		}
		return wrapTo(constant.BinaryOp(a.cval, o, b.cval), typ), true
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(b.cval)
		if !ok || n > 64 {
			return nil, false
		}
		return wrapTo(constant.Shift(a.cval, op, uint(n)), typ), true
	}
	return nil, false
}

func wrapTo(v constant.Value, typ types.Type) constant.Value {
	if typ == nil {
		return v
	}
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	bits := map[types.BasicKind]uint{types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Int8: 8, types.Int16: 16, types.Int32: 32}[b.Kind()]
	if bits == 0 {
		return v
	}
	mask := constant.BinaryOp(constant.Shift(constant.MakeInt64(1), token.SHL, bits), token.SUB, constant.MakeInt64(1))
	m := constant.BinaryOp(v, token.AND, mask)
	if b.Info()&types.IsUnsigned == 0 {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, bits-1)
		if constant.Compare(m, token.GEQ, half) {
			m = constant.BinaryOp(m, token.SUB, constant.Shift(constant.MakeInt64(1), token.SHL, bits))
		}
	}
	return m
}

func (s *Sim) add(a, b *Term) *Term {
	if v, ok := foldInt(token.ADD, a, b, types.Typ[types.Int]); ok {
		return s.tt.Const(v, types.Typ[types.Int])
	}
	if v, ok := a.intVal(); ok && v == 0 {
		return b
	}
	if v, ok := b.intVal(); ok && v == 0 {
		return a
	}
	return s.linNorm(s.tt.mk("add", "", types.Typ[types.Int], a, b))
}

func (s *Sim) sub(a, b *Term) *Term {
	if v, ok := foldInt(token.SUB, a, b, types.Typ[types.Int]); ok {
		return s.tt.Const(v, types.Typ[types.Int])
	}
	if v, ok := b.intVal(); ok && v == 0 {
		return a
	}
	if a == b {
		return s.tt.Int(0)
	}
	return s.linNorm(s.tt.mk("sub", "", types.Typ[types.Int], a, b))
}

// linNorm rebuilds a linear term in a canonical shape so that equal sums are equal terms.
func (s *Sim) linNorm(t *Term) *Term {
	l := s.lin(t)
	var pos, neg []*Term
	for a, k := range l.m {
		for i := int64(0); i < absI(k) && absI(k) <= 1; i++ {
			if k > 0 {
				pos = append(pos, a)
			} else {
				neg = append(neg, a)
			}
		}
		if absI(k) > 1 {
			m := s.tt.mk("mul", "", types.Typ[types.Int], s.tt.Int(absI(k)), a)
			if k > 0 {
				pos = append(pos, m)
			} else {
				neg = append(neg, m)
			}
		}
	}
	sortTerms(pos)
	sortTerms(neg)
	var r *Term
	for _, a := range pos {
		if r == nil {
			r = a
		} else {
			r = s.tt.mk("add", "", types.Typ[types.Int], r, a)
		}
	}
	if r == nil {
		r = s.tt.Int(l.c)
		l.c = 0
	}
	for _, a := range neg {
		r = s.tt.mk("sub", "", types.Typ[types.Int], r, a)
	}
	if l.c != 0 {
		r = s.tt.mk("add", "", types.Typ[types.Int], r, s.tt.Int(l.c))
	}
	return r
}

func absI(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

// safeArith reports whether mathematical and machine arithmetic agree on a op b.
func (s *Sim) safeArith(st *State, t *Term) bool {
	l := s.lin(t)
	p, n, c := s.split(st, l)
	s.reduce(st)
	hi := satAdd(st.num.get(p, n), -c)
	lo := satAdd(st.num.get(n, p), c)
	return hi < maxSafe && lo < maxSafe
}

func is64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return true
	}
	return false
}

func (s *Sim) binop(st *State, f *Frame, in *ssa.BinOp) *Term {
	a, b := s.eval(st, f, in.X), s.eval(st, f, in.Y)
	return s.binopT(st, in, in.Op, a, b, in.Type(), in.X.Type())
}

func (s *Sim) binopT(st *State, in ssa.Instruction, op token.Token, a, b *Term, typ, xt types.Type) *Term {
	switch op {
	case token.EQL:
		return s.eqT(a, b)
	case token.NEQ:
		return s.not(s.eqT(a, b))
	case token.LSS:
		return s.ltT(a, b)
	case token.GTR:
		return s.ltT(b, a)
	case token.LEQ:
		return s.not(s.ltT(b, a))
	case token.GEQ:
		return s.not(s.ltT(a, b))
	}
	if op == token.ADD && isStringType(typ) {
		return s.concat(a, b)
	}
	if v, ok := foldInt(op, a, b, typ); ok {
		return s.tt.Const(v, typ)
	}
	if isIntType(typ) {
		switch op {
		case token.ADD, token.SUB:
			name := map[token.Token]string{token.ADD: "add", token.SUB: "sub"}[op]
			raw := s.tt.mk(name, "", types.Typ[types.Int], a, b)
			// the counter of a range loop stays below a length
			rng := op == token.ADD && a.op == "phi" && strings.HasPrefix(a.aux, "rangeindex")
			if rng || s.arithOK(st, raw, typ) {
				if op == token.ADD {
					return s.add(a, b)
				}
				return s.sub(a, b)
			}
			return s.tt.mk(name+"w", typ.String(), typ, a, b)
		case token.MUL:
			_, ca := a.intVal()
			_, cb := b.intVal()
			if ca || cb {
				raw := s.tt.mk("mul", "", types.Typ[types.Int], a, b)
				if s.arithOK(st, raw, typ) {
					return s.linNorm(raw)
				}
			}
			return s.tt.mk("mulw", typ.String(), typ, a, b)
		case token.QUO:
			return s.tt.mk("quo", "", typ, a, b)
		case token.REM:
			return s.tt.mk("rem", "", typ, a, b)
		case token.SHR:
			// x >> k is x / 2^k for non-negative x
			if k, ok := b.intVal(); ok && k < 30 {
				if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
					return s.tt.mk("quo", "", typ, a, s.tt.Int(1<<uint(k)))
				}
			}
		}
	}
	if op == token.AND || op == token.OR || op == token.XOR {
		if a.id > b.id {
			a, b = b, a
		}
	}
	return s.tt.mk("bin", op.String(), typ, a, b)
}

// arithOK: in numeric mode arithmetic must provably stay in range to be linear.
func (s *Sim) arithOK(st *State, raw *Term, typ types.Type) bool {
	if !s.o.Numeric {
		return true
	}
	l := s.lin(raw)
	p, n, c := s.split(st, l)
	s.reduce(st)
	hi := satAdd(st.num.get(p, n), -c)
	lo := satAdd(st.num.get(n, p), c) // -lower
	if is64(typ) {
		return hi < maxSafe && lo < maxSafe
	}
	if rl, rh, ok := intRange(typ); ok {
		return hi <= rh && -lo >= rl && lo < inf
	}
	return false
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// shiftOf: the part is the byte of x above the given bit.
func shiftOf(t, x *Term, bit uint) bool {
	if t.op != "byte" {
		return false
	}
	y := t.sub[0]
	for y.op == "conv" {
		y = y.sub[0]
	}
	if y.op == "bin" && y.aux == "&" {
		for i := range y.sub {
			if v, ok := y.sub[i].intVal(); ok && v == 255 {
				y = y.sub[1-i]
				break
			}
		}
		for y.op == "conv" {
			y = y.sub[0]
		}
	}
	if len(y.sub) != 2 || y.op != "quo" && !(y.op == "bin" && y.aux == ">>") {
		return false
	}
	v, ok := y.sub[1].intVal()
	if !ok || y.op == "quo" && v != 1<<bit || y.op == "bin" && v != int64(bit) {
		return false
	}
	z := y.sub[0]
	for z.op == "conv" && z != x {
		z = z.sub[0]
	}
	for x.op == "conv" && z != x {
		x = x.sub[0]
	}
	return z == x
}

// concat is n-ary and merges neighbouring constants.
func (s *Sim) concat(ts ...*Term) *Term {
	var parts []*Term
	var addp func(t *Term)
	addp = func(t *Term) {
		if t.op == "concat" {
			for _, x := range t.sub {
				addp(x)
			}
			return
		}
		if v, ok := t.strVal(); ok {
			if v == "" {
				return
			}
			if len(parts) > 0 {
				if w, ok := parts[len(parts)-1].strVal(); ok {
					parts[len(parts)-1] = s.tt.Str(w + v)
					return
				}
			}
		}
		if t.op == "nil" {
			return
		}
		if n := len(parts); n > 0 && t.op == "byte" && parts[n-1].op == "byte" {
			if x := s.be(s.tt.mk("concat", "", types.Typ[types.String], parts[n-1], t)); x.op == "be" {
				parts[n-1] = x
				if n > 2 && x.aux == "2" && shiftOf(parts[n-2], x.sub[0], 16) && shiftOf(parts[n-3], x.sub[0], 24) {
					parts = append(parts[:n-3], s.tt.mk("be", "4", types.Typ[types.String], x.sub[0]))
				}
				return
			}
		}
		parts = append(parts, t)
	}
	for _, t := range ts {
		addp(t)
	}
	if len(parts) == 0 {
		return s.tt.Str("")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return s.tt.mk("concat", "", types.Typ[types.String], parts...)
}

// conversions

func (s *Sim) convert(st *State, x *Term, from, to types.Type) *Term {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if x.isConst() && x.cval.Kind() == constant.Int {
			return s.tt.Const(wrapTo(x.cval, to), to)
		}
		fl, fh, fok := intRange(from)
		tl, th, tok := intRange(to)
		if !fok {
			fl, fh = -inf, inf
		}
		if !tok {
			tl, th = -inf, inf
		}
		if fl >= tl && fh <= th && !(fh >= inf && th >= inf && fb.Info()&types.IsUnsigned != tb.Info()&types.IsUnsigned) {
			return x
		}
		// provably in range
		z := s.tt.Int(0)
		lo, hi := s.bound(st, z, x), s.bound(st, x, z)
		if lo < inf && hi < inf && -lo >= tl && hi <= th {
			return x
		}
		return s.tt.mk("conv", to.String(), to, x)
	}
	if isStringType(to) {
		if _, ok := from.Underlying().(*types.Slice); ok && isBytesType(from) {
			if x.op == "copy" {
				return x.sub[0]
			}
			// the text is what the bytes are now
			if c := s.content(st, x); c != x && settled(c) {
				return c
			}
			return s.tt.mk("copy", "", to, x)
		}
	}
	if isBytesType(to) && isStringType(from) {
		return s.tt.mk("copy", "bytes", to, x)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return s.tt.mk("conv", to.String(), to, x)
}

// settled: a text that later writes to a buffer do not change.
func settled(t *Term) bool {
	switch t.op {
	case "concat":
		for _, x := range t.sub {
			if !settled(x) {
				return false
			}
		}
		return true
	case "be", "le", "byte", "const":
		return true
	case "obj", "hv", "nil", "slice":
		return false
	}
	return t.typ != nil && isStringType(t.typ)
}
