package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pure library functions: equal arguments give equal results
var pureFuncs = map[string]bool{
	"strconv.Itoa": true, "strconv.Atoi": true, "strconv.ParseInt": true, "strconv.FormatInt": true, "strconv.FormatUint": true, "strconv.Quote": true,
	"strings.EqualFold": true, "strings.ToUpper": true, "strings.ToLower": true, "strings.SplitN": true, "strings.Split": true, "strings.Index": true, "strings.IndexByte": true,
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.Join": true, "strings.Replace": true, "strings.ReplaceAll": true, "strings.TrimSpace": true, "strings.Compare": true, "strings.Repeat": true,
	"encoding/hex.EncodeToString": true, "bytes.Equal": true, "bytes.Compare": true, "crypto/sha1.Sum": true, "crypto/subtle.ConstantTimeCompare": true,
	"net.JoinHostPort": true, "(net.IP).String": true, "(net.IP).To4": true, "(net.IP).To16": true, "(*net.UDPAddr).String": true, "(*net.TCPAddr).String": true,
	"path/filepath.Join": true, "path.Join": true, "path/filepath.Base": true, "fmt.Sprintf": true, "fmt.Sprint": true,
	"(encoding/binary.bigEndian).Uint16": true, "(encoding/binary.bigEndian).Uint32": true, "(encoding/binary.bigEndian).Uint64": true,
	"(encoding/binary.littleEndian).Uint16": true, "(encoding/binary.littleEndian).Uint32": true,
	"math/bits.LeadingZeros8": true, "math/bits.Len8": true, "os.IsExist": true, "os.IsNotExist": true,
}

// calls that never return normally
func noReturnName(n string) string {
	switch n {
	case "(misc.Logger).Panic", "log.Panic", "log.Panicf", "log.Panicln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*go.uber.org/zap.Logger).Panic":
		return "panic"
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*go.uber.org/zap.Logger).Fatal", "runtime.Goexit", "syscall.Exit":
		return "exit"
	}
	return ""
}

// opaqueByDefault: logging, printing and similar functions of the repository are not looked into.
func (s *Sim) opaqueByDefault(fn *ssa.Function) bool {
	if fn.Name() == "String" && fn.Signature.Recv() != nil {
		return true
	}
	return !s.o.InlineLoggers && s.p.isLoggerMethod(fn)
}

// isLoggerMethod: a method of a type that implements the logger interface.
func (p *Program) isLoggerMethod(fn *ssa.Function) bool {
	if sig := fn.Signature; sig.Recv() != nil {
		if lt := p.NamedType("misc", "Logger"); lt != nil {
			if it, ok := lt.Underlying().(*types.Interface); ok && types.Implements(sig.Recv().Type(), it) {
				return true
			}
		}
	}
	return false
}

func (s *Sim) inStack(st *State, fn *ssa.Function) bool {
	for _, f := range st.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}

// call interprets a call in the top frame; bindTo is nil for deferred calls.
func (s *Sim) call(st *State, in ssa.CallInstruction, fnT *Term, args []*Term, bindTo ssa.Value, kind int) bool {
	f := st.top()
	cc := in.Common()
	ev := &CallEv{Instr: in, FnT: fnT, Args: args, Frame: f, Deferred: kind != frCall, Unwind: kind == frUnwind}
	var fn *ssa.Function
	var closure *Term
	switch {
	case cc.IsInvoke():
		ev.Name = s.p.CalleeName(cc)
		recv := args[0]
		if recv.op == "iface" && recv.typ != nil && !strings.HasPrefix(recv.aux, "runtime.Error:") {
			if sel := s.p.Prog.MethodSets.MethodSet(recv.typ).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
				fn = s.p.Prog.MethodValue(sel)
				args = append([]*Term{recv.sub[0]}, args[1:]...)
			}
		} else {
			impls := s.p.Implementations(cc)
			if named, ok := cc.Value.Type().(*types.Named); ok && named.Obj().Pkg() != nil && strings.HasPrefix(named.Obj().Pkg().Path(), s.p.Module) && len(impls) == 1 {
				fn = impls[0]
				args = append([]*Term{s.assertT(recv, fn.Signature.Recv().Type())}, args[1:]...)
			}
		}
		if noReturnName(ev.Name) != "" {
			fn = nil
		}
	default:
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return s.builtin(st, in, b, args, bindTo, kind, ev)
		}
		switch fnT.op {
		case "fn":
			fn = fnT.fn
		case "closure":
			fn = fnT.fn
			closure = fnT
		}
		if fn != nil {
			ev.Name = s.p.FuncName(fn)
		} else {
			ev.Name = "dynamic"
		}
	}
	if fn != nil && fn.Synthetic != "" && strings.Contains(fn.Synthetic, "wrapper") && fn.Blocks == nil {
		fn = nil
	}
	// bound-method wrappers and promoted-method wrappers are followed
	if fn != nil && !cc.IsInvoke() {
		ev.Name = s.p.FuncName(fn)
	}
	isRepo := fn != nil && fn.Blocks != nil && (s.p.InRepo(fn) || fn.Synthetic != "")
	if fn != nil && fn.Blocks != nil && fn.Synthetic != "" && !s.p.InRepo(fn) {
		// a wrapper for a library method: only follow when it leads to a call
		isRepo = true
	}
	if isRepo {
		ev.Fn = fn
		if cc.IsInvoke() {
			ev.Name = s.p.FuncName(fn)
		}
	}
	ev.Args = args

	var vd *Verdict
	if s.h.Call != nil {
		vd = s.h.Call(s, st, ev)
		if st.dead || vd != nil && vd.Stop {
			return false
		}
	}
	finish := func(st *State, res []*Term) bool {
		if s.h.AfterCall != nil {
			s.h.AfterCall(s, st, ev, res)
			if st.dead {
				return false
			}
		}
		fr := st.top()
		switch kind {
		case frCall:
			s.bind(st, fr, bindTo, res)
			fr.idx++
			return true
		case frDefer:
			return true
		case frUnwind:
			return s.unwindStep(st)
		}
		return true
	}
	if vd != nil && len(vd.Outcomes) > 0 {
		for i, o := range vd.Outcomes {
			t := st
			if i < len(vd.Outcomes)-1 {
				t = st.clone()
			}
			if o.Apply != nil && !o.Apply(t) {
				if i == len(vd.Outcomes)-1 {
					return false
				}
				continue
			}
			cont := false
			if o.Panic != nil {
				cont = s.unwind(t, o.Panic)
			} else {
				cont = finish(t, o.Res)
			}
			if i == len(vd.Outcomes)-1 {
				return cont
			}
			if cont {
				s.push(t)
			}
		}
	}
	opaque := vd != nil && vd.Opaque
	if nr := noReturnName(ev.Name); nr != "" && !isRepo {
		if nr == "exit" {
			return false
		}
		return s.unwind(st, s.tt.mk("iface", "string", types.Typ[types.String], s.tt.mk("app", "panic message", types.Typ[types.String])))
	}
	if isRepo && !opaque && !s.opaqueByDefault(fn) && (s.o.Opaque == nil || !s.o.Opaque(fn)) {
		if res, ok := s.unsafeIntrinsic(fn, args); ok {
			return finish(st, res)
		}
		if vs := s.codecContract(st, fn, ev); vs != nil {
			for i, o := range vs {
				t := st
				if i < len(vs)-1 {
					t = st.clone()
				}
				if !o.Apply(t) {
					continue
				}
				if cont := finish(t, o.Res); cont {
					if i == len(vs)-1 {
						return true
					}
					s.push(t)
				}
			}
			return false
		}
		if !s.inStack(st, fn) && len(st.frames) < 40 {
			// enter the callee
			if kind == frCall {
				s.prune(f)
				f.env = pruneKeep(f)
			}
			nf := &Frame{fn: fn, ctx: s.ctx(f.ctx, in, fn), env: map[ssa.Value]*Term{}, closure: closure, block: fn.Blocks[0], kind: kind, call: bindTo, callIn: in}
			for i, p := range fn.Params {
				if i < len(args) {
					nf.env[p] = args[i]
				}
			}
			st.frames = append(st.frames, nf)
			s.Inlined[fn] = true
			if s.h.Enter != nil {
				s.h.Enter(s, st, nf)
				if st.dead {
					return false
				}
			}
			return s.arrive(st, false)
		}
		if s.o.OnRecursion != nil {
			vd := s.o.OnRecursion(s, st, ev)
			if vd != nil {
				for i, o := range vd.Outcomes {
					t := st.clone()
					if o.Apply != nil && !o.Apply(t) {
						continue
					}
					var cont bool
					if o.Panic != nil {
						cont = s.unwind(t, o.Panic)
					} else {
						cont = finish(t, o.Res)
					}
					if cont {
						s.push(t)
					}
					_ = i
				}
				return false
			}
		}
	}
	// library models
	if !isRepo {
		if res, ok := s.model(st, ev); ok {
			return finish(st, res)
		}
	}
	if s.o.MayPanic != nil && s.o.MayPanic(ev) {
		s.runtimePanic(st, in, "call "+ev.Name)
	}
	s.opaqueEffects(st, ev)
	return finish(st, s.opaqueResult(st, ev))
}

// opaqueEffects: what a call that is not looked into may change.
func (s *Sim) opaqueEffects(st *State, ev *CallEv) {
	f, in, fn, args := ev.Frame, ev.Instr, ev.Fn, ev.Args
	isRepo := fn != nil
	if !isRepo && ev.Name != "dynamic" && !readOnlyCall(ev.Name) {
		for i, a := range args {
			if a.op == "iface" {
				a = a.sub[0]
			}
			if a.op == "list" {
				continue
			}
			if a.typ == nil {
				continue
			}
			site := fmt.Sprintf("%s.%d", s.siteID(f, in, shortName(ev.Name)), i)
			switch u := a.typ.Underlying().(type) {
			case *types.Slice:
				if baseObj(a).op == "obj" {
					s.havocBuf(st, a, site)
				}
			case *types.Pointer:
				if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), s.p.Module) && a.op == "obj" {
					s.havocBuf(st, a, site)
				} else if !ok && a.op == "obj" {
					s.havocBuf(st, a, site)
					st.heap[a] = s.fresh(st, s.tt.mk("hv", site, u.Elem()))
				}
			}
		}
	}
	if ev.Name == "dynamic" {
		mods := map[string]bool{}
		for _, g := range s.p.dynCallees(in.Common()) {
			for k := range s.p.modset[g] {
				mods[k] = true
			}
		}
		s.havoc(st, mods, s.siteID(f, in, ""))
	} else if isRepo {
		s.havoc(st, s.p.modset[fn], s.siteID(f, in, ""))
	}
}

// codecContract gives the outcomes of a bencode operation, as C02, C03 and C04 establish them.
func (s *Sim) codecContract(st *State, fn *ssa.Function, ev *CallEv) []Outcome {
	if s.o.InlineCodec || fn.Pkg == nil || fn.Pkg != s.p.Pkg("misc") || fn.Signature.Recv() != nil {
		return nil
	}
	dec, enc := false, false
	switch fn.Name() {
	case "DecodeDict", "DecodeDictNoLimit", "DecodeSlice", "DecodeString", "DecodeInteger":
		dec = true
	case "EncodeDict", "EncodeSlice", "EncodeString", "EncodeInteger":
		enc = true
	}
	if !dec && !enc {
		return nil
	}
	res := fn.Signature.Results()
	n := res.Len()
	if n < 2 {
		return nil
	}
	base := s.fresh(st, s.tt.mk("res", s.siteID(ev.Frame, ev.Instr, ev.Name), nil, s.pureArgs(st, ev.Args)...))
	var good, bad []*Term
	for i := 0; i < n; i++ {
		x := s.tt.mk("ext", fmt.Sprint(i), res.At(i).Type(), base)
		if i == n-1 {
			good, bad = append(good, s.tt.Nil(nil)), append(bad, x)
		} else {
			good = append(good, x)
			if isIntType(res.At(i).Type()) {
				bad = append(bad, x)
			} else {
				bad = append(bad, s.zero(res.At(i).Type()))
			}
		}
	}
	src := ev.Args[0]
	return []Outcome{
		{Res: bad, Apply: func(t *State) bool {
			t.facts[s.tt.mk("isnil", "", nil, bad[n-1])] = false
			return true
		}},
		{Res: good, Apply: func(t *State) bool {
			if dec {
				switch res.At(0).Type().Underlying().(type) {
				case *types.Map, *types.Slice:
					t.facts[s.tt.mk("isnil", "", nil, good[0])] = false
				}
				if n == 3 {
					s.addLe(t, s.tt.Int(1), good[1], 0)
					s.addLe(t, good[1], s.lenTerm(t, src), 0)
				}
			}
			return true
		}},
	}
}

func shortName(n string) string {
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		return n[i+1:]
	}
	return n
}

// readOnlyCall: library calls that do not write through their arguments.
func readOnlyCall(n string) bool {
	if pureFuncs[n] {
		return true
	}
	m := shortName(n)
	if strings.HasPrefix(m, "Write") || strings.HasPrefix(m, "Print") || strings.HasPrefix(m, "Encode") || strings.HasPrefix(m, "Marshal") || strings.HasPrefix(m, "New") || m == "String" || m == "Error" || strings.HasPrefix(m, "Append") {
		return true
	}
	return strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "bytes.") || strings.HasPrefix(n, "errors.")
}

func pruneKeep(f *Frame) map[ssa.Value]*Term { return f.env }

// opaqueResult makes result terms for a call.
func (s *Sim) opaqueResult(st *State, ev *CallEv) []*Term {
	sig := ev.Instr.Common().Signature()
	n := sig.Results().Len()
	if n == 0 {
		return nil
	}
	var base *Term
	rt := types.Type(nil)
	if n == 1 {
		rt = sig.Results().At(0).Type()
	}
	if pureFuncs[ev.Name] {
		base = s.tt.mk("app", ev.Name, rt, s.pureArgs(st, ev.Args)...)
	} else {
		sub := ev.Args
		if ev.Name == "dynamic" {
			sub = append([]*Term{ev.FnT}, ev.Args...)
		}
		small := make([]*Term, len(sub))
		for i, a := range sub {
			small[i] = a
			if a.size > 60 {
				small[i] = s.tt.mk("big", "", a.typ)
			}
		}
		base = s.fresh(st, s.tt.mk("res", s.siteID(ev.Frame, ev.Instr, ev.Name), rt, small...))
	}
	if n == 1 {
		return []*Term{base}
	}
	var out []*Term
	for i := 0; i < n; i++ {
		out = append(out, s.tt.mk("ext", fmt.Sprint(i), sig.Results().At(i).Type(), base))
	}
	if i := readsInto[ev.Name]; i > 0 && len(ev.Args) > i {
		s.addLe(st, s.tt.Int(0), out[0], 0)
		s.addLe(st, out[0], s.lenTerm(st, ev.Args[i]), 0)
	}
	return out
}

// readsInto: operations that fill a buffer and return how much of it they have filled.
var readsInto = map[string]int{
	"(*net.UDPConn).ReadFromUDP": 1, "(*net.UDPConn).ReadFromUDPAddrPort": 1, "(*net.UDPConn).ReadFrom": 1, "(net.PacketConn).ReadFrom": 1,
	"(*net.conn).Read": 1, "(*net.UDPConn).Read": 1, "(*net.TCPConn).Read": 1, "(net.Conn).Read": 1, "(io.Reader).Read": 1,
	"(*bufio.Reader).Read": 1, "io.ReadFull": 1, "io.ReadAtLeast": 1, "(*net.UDPConn).ReadMsgUDP": 1,
}

// pureArgs replaces byte buffers by their contents where these are known.
func (s *Sim) pureArgs(st *State, args []*Term) []*Term {
	out := make([]*Term, len(args))
	for i, a := range args {
		out[i] = a
		if a.typ != nil {
			if sl, ok := a.typ.Underlying().(*types.Slice); ok {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					out[i] = s.content(st, a)
				} else if l := s.listTerm(st, a); l != nil {
					out[i] = l
				}
			}
		}
	}
	return out
}

// unsafeIntrinsic recognises the zero-copy string/bytes conversions by what they are built from.
func (s *Sim) unsafeIntrinsic(fn *ssa.Function, args []*Term) ([]*Term, bool) {
	sig := fn.Signature
	if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
		return nil, false
	}
	pt, rt := sig.Params().At(0).Type(), sig.Results().At(0).Type()
	_, pb := pt.Underlying().(*types.Slice)
	_, rb := rt.Underlying().(*types.Slice)
	if !(pb && isStringType(rt) || rb && isStringType(pt)) {
		return nil, false
	}
	uses := usesUnsafe(fn)
	if !uses {
		return nil, false
	}
	x := args[0]
	if x.op == "alias" {
		return []*Term{x.sub[0]}, true
	}
	return []*Term{s.tt.mk("alias", rt.String(), rt, x)}, true
}

// usesUnsafe: the function, or a literal in it, reinterprets memory.
func usesUnsafe(fn *ssa.Function) bool {
	uses := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Convert); ok {
				if bt, ok := c.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
					uses = true
				}
			}
			if c, ok := in.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "String" || b.Name() == "Slice" || b.Name() == "StringData") {
					uses = true
				}
			}
		}
	}
	for _, f := range fn.AnonFuncs {
		uses = uses || usesUnsafe(f)
	}
	return uses
}

func (s *Sim) builtin(st *State, in ssa.CallInstruction, b *ssa.Builtin, args []*Term, bindTo ssa.Value, kind int, ev *CallEv) bool {
	ev.Name = "builtin:" + b.Name()
	ev.Args = args
	if s.h.Call != nil {
		vd := s.h.Call(s, st, ev)
		if st.dead || vd != nil && vd.Stop {
			return false
		}
	}
	f := st.top()
	var res *Term
	switch b.Name() {
	case "len":
		res = s.lenTerm(st, args[0])
		if args[0].typ != nil {
			if _, ok := args[0].typ.Underlying().(*types.Map); ok {
				res = s.fresh(st, s.tt.mk("res", s.siteID(f, in, "len(map)"), types.Typ[types.Int], args[0]))
			} else if _, ok := args[0].typ.Underlying().(*types.Chan); ok {
				res = s.fresh(st, s.tt.mk("res", s.siteID(f, in, "len(chan)"), types.Typ[types.Int], args[0]))
			}
		}
	case "cap":
		res = s.capTerm(st, args[0])
	case "append":
		x, y := args[0], args[1]
		if y.isNil() || y.op == "list" && len(y.sub) == 0 {
			res = x
			break
		}
		if x.size+y.size > 60 {
			res = s.fresh(st, s.tt.mk("top", s.siteID(f, in, "append"), in.Value().Type()))
			s.addEq(st, s.lenTerm(st, res), s.add(s.lenTerm(st, x), s.lenTerm(st, y)))
			if s.nonNil(st, x) {
				st.facts[s.tt.mk("isnil", "", nil, res)] = false
			}
		} else {
			res = s.tt.mk("append", "", in.Value().Type(), x, y)
		}
	case "copy":
		res = s.fresh(st, s.tt.mk("res", s.siteID(f, in, "copy"), types.Typ[types.Int], args...))
		s.addLe(st, s.tt.Int(0), res, 0)
		s.addLe(st, res, s.lenTerm(st, args[0]), 0)
		s.addLe(st, res, s.lenTerm(st, args[1]), 0)
		s.copyContent(st, args[0], args[1])
	case "delete":
		s.mapDelete(st, args[0], args[1])
	case "close":
	case "recover":
		res = s.tt.Nil(nil)
		if len(st.frames) >= 2 && f.kind == frUnwind {
			p := st.frames[len(st.frames)-2]
			if p.unwinding && !p.recovered {
				p.recovered = true
				res = p.panicVal
			}
		}
	case "ssa:wrapnilchk":
		res = args[0]
	case "min", "max":
		res = s.fresh(st, s.tt.mk("res", s.siteID(f, in, b.Name()), in.Value().Type(), args...))
		for _, a := range args {
			if isIntType(in.Value().Type()) {
				if b.Name() == "min" {
					s.addLe(st, res, a, 0)
				} else {
					s.addLe(st, a, res, 0)
				}
			}
		}
	default:
		if v := in.Value(); v != nil {
			res = s.fresh(st, s.tt.mk("res", s.siteID(f, in, b.Name()), v.Type(), args...))
		}
	}
	var rs []*Term
	if res != nil {
		rs = []*Term{res}
	}
	if s.h.AfterCall != nil {
		s.h.AfterCall(s, st, ev, rs)
		if st.dead {
			return false
		}
	}
	switch kind {
	case frCall:
		s.bind(st, f, bindTo, rs)
		f.idx++
		return true
	case frDefer:
		return true
	}
	return s.unwindStep(st)
}

func (s *Sim) copyContent(st *State, dst, src *Term) {
	o, lo := s.flat(dst)
	full := s.lenTerm(st, dst) == s.lenTerm(st, o)
	if z, ok := lo.intVal(); !ok || z != 0 {
		full = false
	}
	k := s.tt.mk("attr:content", "", nil, o)
	ld, ls := s.lenTerm(st, dst), s.lenTerm(st, src)
	if full && (ld == ls || s.entailsLe(st, ld, ls, 0) && s.entailsLe(st, ls, ld, 0)) {
		c := s.content(st, src)
		for a := range st.heap {
			if a.op == "indexaddr" && a.sub[0] == o {
				delete(st.heap, a)
			}
		}
		st.heap[k] = c
		return
	}
	delete(st.heap, k)
	st.heap[s.tt.mk("attr:region", "", nil, o, lo, s.add(lo, ld))] = s.content(st, src)
}

// regionWrite records that a part of a fixed buffer was written.
// model gives the meaning of library calls the analyses depend on.
func (s *Sim) model(st *State, ev *CallEv) ([]*Term, bool) {
	n := ev.Name
	a := ev.Args
	bufKey := func(recv *Term) *Term { return s.tt.mk("attr:buf", "", nil, recv) }
	bufGet := func(recv *Term) *Term {
		if c, ok := st.heap[bufKey(recv)]; ok {
			return c
		}
		if s.isFresh(st, recv) {
			return s.tt.Str("")
		}
		return s.tt.mk("bufinit", "", types.Typ[types.String], recv)
	}
	bufAdd := func(recv *Term, t ...*Term) {
		c := s.concat(append([]*Term{bufGet(recv)}, t...)...)
		if c.size > 200 {
			c = s.fresh(st, s.tt.mk("top", s.siteID(ev.Frame, ev.Instr, "buffer"), types.Typ[types.String]))
		}
		st.heap[bufKey(recv)] = c
	}
	nilErr := s.tt.Nil(nil)
	switch n {
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		bufAdd(a[0], a[1])
		return []*Term{s.lenTerm(st, a[1]), nilErr}, true
	case "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		bufAdd(a[0], s.text(st, a[1]))
		return []*Term{s.lenTerm(st, a[1]), nilErr}, true
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		bufAdd(a[0], s.byteTerm(a[1]))
		return []*Term{nilErr}, true
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		bufAdd(a[0], s.byteTerm(a[1]))
		return []*Term{s.tt.mk("app", "runelen", types.Typ[types.Int], a[1]), nilErr}, true
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return []*Term{bufGet(a[0])}, true
	case "(*bytes.Buffer).Bytes":
		c := bufGet(a[0])
		return []*Term{s.tt.mk("copy", "bytes", ev.Instr.Common().Signature().Results().At(0).Type(), c)}, true
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return []*Term{s.lenTerm(st, bufGet(a[0]))}, true
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return nil, true
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		st.heap[bufKey(a[0])] = s.tt.Str("")
		return nil, true
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64":
		w := map[string]string{"16": "2", "32": "4", "64": "8"}[n[len(n)-2:]]
		dst := a[1]
		val := s.tt.mk("be", w, types.Typ[types.String], a[2])
		s.writeAt(st, dst, val)
		return nil, true
	case "(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32":
		w := map[string]string{"16": "2", "32": "4"}[n[len(n)-2:]]
		s.writeAt(st, a[1], s.tt.mk("le", w, types.Typ[types.String], a[2]))
		return nil, true
	case "(encoding/binary.bigEndian).AppendUint16", "(encoding/binary.bigEndian).AppendUint32":
		w := map[string]string{"16": "2", "32": "4"}[n[len(n)-2:]]
		c := s.tt.mk("be", w, types.Typ[types.String], a[2])
		return []*Term{s.tt.mk("append", "", ev.Instr.Common().Signature().Results().At(0).Type(), a[1], s.tt.mk("copy", "bytes", a[1].typ, c))}, true
	case "bytes.NewBuffer", "bytes.NewBufferString":
		t := s.fresh(st, s.tt.mk("obj", s.siteID(ev.Frame, ev.Instr, "buffer"), ev.Instr.Common().Signature().Results().At(0).Type()))
		st.heap[bufKey(t)] = s.content(st, a[0])
		return []*Term{t}, true
	case "encoding/binary.Write":
		// binary.Write(&buf, order, value)
		w, ord, v := a[0], a[1], a[2]
		if w.op == "iface" && v.op == "iface" && ord.op == "iface" {
			k := "be"
			if strings.Contains(ord.aux, "littleEndian") {
				k = "le"
			}
			width := map[string]string{"uint8": "1", "uint16": "2", "uint32": "4", "uint64": "8"}[v.aux]
			if width != "" {
				bufAdd(w.sub[0], s.tt.mk(k, width, types.Typ[types.String], v.sub[0]))
				return []*Term{nilErr}, true
			}
		}
		return nil, false
	case "fmt.Sprintf":
		if t := s.sprintf(st, a); t != nil {
			return []*Term{t}, true
		}
		return nil, false
	case "strconv.FormatInt":
		if v, ok := a[1].intVal(); ok && v == 10 {
			return []*Term{s.tt.mk("app", "strconv.Itoa", types.Typ[types.String], a[0])}, true
		}
		return nil, false
	case "strings.Join":
		if a[0].op == "list" {
			var ps []*Term
			for i, x := range a[0].sub {
				if i > 0 {
					ps = append(ps, a[1])
				}
				ps = append(ps, x)
			}
			return []*Term{s.concat(ps...)}, true
		}
		return nil, false
	case "crypto/sha1.New":
		t := s.fresh(st, s.tt.mk("obj", s.siteID(ev.Frame, ev.Instr, "sha1"), ev.Instr.Common().Signature().Results().At(0).Type()))
		st.heap[bufKey(t)] = s.tt.Str("")
		return []*Term{t}, true
	case "(hash.Hash).Write", "(io.Writer).Write", "io.WriteString":
		if _, ok := st.heap[bufKey(a[0])]; ok && strings.Contains(a[0].aux, "sha1") {
			bufAdd(a[0], s.content(st, a[1]))
			return []*Term{s.lenTerm(st, a[1]), nilErr}, true
		}
		return nil, false
	case "(hash.Hash).Sum":
		if c, ok := st.heap[bufKey(a[0])]; ok && strings.Contains(a[0].aux, "sha1") && a[1].isNil() {
			return []*Term{s.tt.mk("copy", "bytes", ev.Instr.Common().Signature().Results().At(0).Type(), s.tt.mk("app", "crypto/sha1.Sum", nil, c))}, true
		}
		return nil, false
	case "crypto/sha1.Sum":
		return []*Term{s.tt.mk("app", n, ev.Instr.Common().Signature().Results().At(0).Type(), s.content(st, a[0]))}, true
	case "sync/atomic.LoadInt32", "sync/atomic.LoadInt64", "sync/atomic.LoadUint32", "sync/atomic.LoadUint64":
		return nil, false
	case "strings.IndexByte", "strings.IndexRune", "strings.Index":
		r := s.tt.mk("app", n, types.Typ[types.Int], a...)
		s.addLe(st, s.tt.Int(-1), r, 0)
		s.addLe(st, r, s.lenTerm(st, a[0]), -1)
		return []*Term{r}, true
	case "bytes.IndexByte":
		r := s.tt.mk("app", n, types.Typ[types.Int], a...)
		s.addLe(st, s.tt.Int(-1), r, 0)
		s.addLe(st, r, s.lenTerm(st, a[0]), -1)
		return []*Term{r}, true
	case "io.ReadFull", "io.ReadAtLeast":
		return nil, false
	}
	return nil, false
}

// writeAt records fixed-width bytes written at the start of dst.
// flat is the buffer that a part lies in, and where it begins there.
func (s *Sim) flat(t *Term) (o, lo *Term) {
	lo = s.tt.Int(0)
	for t.op == "slice" {
		lo = s.add(lo, t.sub[1])
		t = t.sub[0]
	}
	return t, lo
}

func (s *Sim) writeAt(st *State, dst, val *Term) {
	w := s.tt.Int(int64(atoi(val.aux)))
	o, lo := s.flat(dst)
	if z, ok := lo.intVal(); ok && z == 0 && s.lenTerm(st, o) == w {
		st.heap[s.tt.mk("attr:content", "", nil, o)] = val
		return
	}
	st.heap[s.tt.mk("attr:region", "", nil, o, lo, s.add(lo, w))] = val
}

// sprintf expands constant formats with simple verbs.
func (s *Sim) sprintf(st *State, a []*Term) *Term {
	f, ok := a[0].strVal()
	if !ok || a[1].op != "list" && !a[1].isNil() {
		return nil
	}
	args := a[1].sub
	var parts []*Term
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			parts = append(parts, s.tt.Str(f[i:i+1]))
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			parts = append(parts, s.tt.Str("%"))
			continue
		}
		j := i
		for j < len(f) && strings.IndexByte("0123456789+- #.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) || ai >= len(args) {
			return nil
		}
		flags, verb := f[i:j], f[j]
		i = j
		x := args[ai]
		ai++
		if x.op != "iface" {
			parts = append(parts, s.tt.mk("app", "fmt:"+flags+string(verb), types.Typ[types.String], x))
			continue
		}
		isStr := isStringType(x.typ)
		_, isNamed := x.typ.(*types.Named)
		switch {
		case flags == "" && (verb == 's' || verb == 'v') && isStr && !isNamed:
			parts = append(parts, x.sub[0])
		case flags == "" && (verb == 'd' || verb == 'v') && isIntType(x.typ) && (!isNamed || verb == 'd'):
			parts = append(parts, s.tt.mk("app", "strconv.Itoa", types.Typ[types.String], x.sub[0]))
		default:
			y := x.sub[0]
			if y.typ != nil {
				y = s.content(st, y)
			}
			parts = append(parts, s.tt.mk("app", "fmt:"+flags+string(verb)+":"+x.aux, types.Typ[types.String], y))
		}
	}
	if ai != len(args) {
		return nil
	}
	return s.concat(parts...)
}
