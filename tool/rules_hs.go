package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", "on every path of FetchMetaData: what is written before the first read is the 68 byte handshake over 20 byte ids, and nothing is written after the reply unless its name and extension bit have passed a test at the offsets of that layout", ruleHandshake)
}

const (
	protoName  = "BitTorrent protocol"
	extMask    = 0x10
	hsLen      = 68
	hsReserved = 8
	hsExtByte  = 5
)

func ruleHandshake(p *Program, r *Report) {
	const (
		layout = "the handshake has the BEP 3 layout"
		ids    = "the handshake is built from 20 byte ids"
		size   = "the reply is a whole handshake"
		name   = "the peer names the same protocol"
		bit    = "the peer sets the extension bit"
		parse  = "the reader uses the layout that is written"
		keep   = "the fixed parts of the handshake are never written to"
	)
	fn := p.Func("dht/peerwire", "FetchMetaData")
	if fn == nil || len(fn.Params) < 3 {
		r.Bad("anchors", "FetchMetaData", "?", "peerwire.FetchMetaData was not found", nil)
		return
	}
	var bp []*ssa.Parameter // the peer id and the info-hash
	for _, x := range fn.Params {
		if isBytesType(x.Type()) {
			bp = append(bp, x)
		}
	}
	if len(bp) != 2 {
		r.Note("FetchMetaData does not take a peer id and an info-hash as bytes: the handshake is not decided")
		return
	}
	m := &peerMon{p: p, r: r, fn: fn}
	g := p.initValues("dht/peerwire")
	for x := range g {
		if !isBytesType(x.Type().(*types.Pointer).Elem()) {
			continue
		}
		if in := p.elementsWritten(x); in != nil {
			r.Bad(keep, x.Name()+" in "+p.FuncName(in.Parent()), p.InstrPos(in), "the bytes of "+x.Name()+", which are part of every handshake that is sent, are overwritten while the program runs", nil)
		} else {
			r.Ob(keep, x.Name())
		}
	}
	notes := map[string]bool{}
	note := func(msg string) {
		if !notes[msg] {
			notes[msg] = true
			r.Note("%s", msg)
		}
	}

	// replyOf: x is a byte or a part of the reply; where it starts.
	var replyOf func(st *State, s *Sim, base *Term) (*Term, bool)
	replyOf = func(st *State, s *Sim, base *Term) (*Term, bool) {
		off := s.tt.Int(0)
		for {
			for _, b := range st.L["reply"] {
				if base == b {
					return off, true
				}
			}
			switch base.op {
			case "copy", "alias":
				base = base.sub[0]
			case "slice":
				off = s.add(off, base.sub[1])
				base = base.sub[0]
			case "hv":
				return off, len(st.L["reply"]) > 0
			default:
				return nil, false
			}
		}
	}
	isReply := func(st *State, t *Term) bool {
		return t.any(func(x *Term) bool {
			if x.op == "hv" {
				return true
			}
			for _, b := range st.L["reply"] {
				if x == b {
					return true
				}
			}
			return false
		})
	}
	same := func(s *Sim, st *State, a, b *Term) bool {
		return a == b || s.entailsLe(st, a, b, 0) && s.entailsLe(st, b, a, 0)
	}
	// first: the length byte of the reply, in the terms of the path
	firsts := func(st *State, s *Sim) []*Term {
		var out []*Term
		seen := map[*Term]bool{}
		for _, c := range st.L["cond"] {
			c.any(func(x *Term) bool {
				if x.op == "index" && !seen[x] {
					seen[x] = true
					if off, ok := replyOf(st, s, x.sub[0]); ok {
						if v, k := s.add(off, x.sub[1]).intVal(); k && v == 0 {
							out = append(out, x)
						}
					}
				}
				return false
			})
		}
		return out
	}
	// at: offset t is byte0 + k
	at := func(s *Sim, st *State, t *Term, k int64) bool {
		if v, ok := t.intVal(); ok && v == int64(len(protoName))+k {
			// a fixed offset needs the name to be known, which implies the length
			return true
		}
		for _, f := range firsts(st, s) {
			if same(s, st, t, s.add(f, s.tt.Int(k))) {
				return true
			}
		}
		return false
	}

	type verdict int
	const (
		unseen verdict = iota
		other          // a test of an unrecognised form
		wrong
		passed
	)
	nameTest := func(s *Sim, st *State) (verdict, string) {
		v, why := unseen, "no test of the protocol name of the reply has passed"
		up := func(n verdict, w string) {
			if n > v {
				v, why = n, w
			}
		}
		for _, c := range st.L["cond"] {
			if c.op == "app" && len(c.sub) == 2 && (strings.HasSuffix(c.aux, ".HasPrefix") || strings.HasSuffix(c.aux, ".HasSuffix") || strings.HasSuffix(c.aux, ".Contains")) && isReply(st, c.sub[1]) {
				if v, ok := s.content(st, c.sub[0]).strVal(); ok && strings.Contains(v, protoName) {
					up(wrong, "a part of the protocol name is accepted as well")
					continue
				}
			}
			a, b, ok := eqTest(c)
			if ok && s.content(st, a) == s.content(st, b) {
				continue // with itself
			}
			if !ok {
				if !c.any(func(x *Term) bool { return x.op == "bin" }) && c.any(func(x *Term) bool { return x.op == "copy" || x.op == "slice" && x.sub[1] != s.tt.Int(0) }) && isReply(st, c) {
					up(other, "")
				}
				continue
			}
			ca, cb := s.content(st, a), s.content(st, b)
			if _, ok := ca.strVal(); ok {
				ca, cb = cb, ca
				a, b = b, a
			}
			want, ok := cb.strVal()
			if !ok {
				if isReply(st, c) {
					up(other, "")
				}
				continue
			}
			for a.op == "copy" || a.op == "alias" {
				a = a.sub[0]
			}
			off, ok := replyOf(st, s, a)
			if !ok {
				if isReply(st, a) {
					up(other, "")
				}
				continue
			}
			tv, known := s.truth(st, c)
			if !known {
				continue
			}
			if strings.HasPrefix(want, string(rune(len(protoName)))+"B") {
				want = want[1:] // together with its length
				off = s.add(off, s.tt.Int(1))
			}
			switch {
			case !strings.EqualFold(want, protoName):
				up(wrong, "the name in the reply is compared with "+itoa(int64(len(want)))+" other bytes than the protocol name")
			case !tv:
				up(wrong, "the download goes on although the protocol name differs")
			default:
				if o, k := off.intVal(); !k || o != 1 {
					up(wrong, "the protocol name is read at offset "+off.String()+" of the reply, it is written at 1")
				} else {
					up(passed, "")
				}
			}
		}
		return v, why
	}
	bitTest := func(s *Sim, st *State) (verdict, string) {
		v, why := unseen, "no test of the extension bit of the reply has passed"
		up := func(n verdict, w string) {
			if n > v {
				v, why = n, w
			}
		}
		seen := map[*Term]bool{}
		for _, c := range st.L["cond"] {
			if _, known := s.truth(st, c); !known {
				continue
			}
			c.any(func(x *Term) bool {
				if x.op != "bin" && x.op != "quo" && x.op != "rem" && x.op != "conv" || seen[x] || !isReply(st, x) {
					return false
				}
				seen[x] = true
				if x.op == "bin" && (x.aux == "|" || x.aux == "+") {
					up(wrong, "the byte with the extension bit is combined with "+x.aux+", which does not single out the bit")
					return false
				}
				if x.op != "bin" || x.aux != "&" {
					up(other, "")
					return false
				}
				mask, idx := x.sub[0], x.sub[1]
				mv, ok := mask.intVal()
				if !ok {
					idx, mask = mask, idx
					mv, ok = mask.intVal()
				}
				for idx.op == "conv" {
					idx = idx.sub[0]
				}
				if !ok || idx.op != "index" {
					up(other, "")
					return false
				}
				off, ok := replyOf(st, s, idx.sub[0])
				if !ok {
					return false
				}
				off = s.add(off, idx.sub[1])
				set := false
				if t, k := s.truth(st, s.ltT(s.tt.Int(0), x)); k && t {
					set = true
				} else if t, k := s.truth(st, s.eqT(x, s.tt.Int(0))); k && !t {
					set = true
				} else if t, k := s.truth(st, s.eqT(x, mask)); k && t {
					set = true
				}
				switch {
				case mv != extMask:
					up(wrong, fmt.Sprintf("the extension bit is tested with the mask %#x, it is written as %#x", mv, extMask))
				case !at(s, st, off, 1+hsExtByte):
					up(wrong, "the extension bit is tested in the byte at "+off.String()+" of the reply, it is written in reserved byte 5")
				case !set:
					up(wrong, "the download goes on although the extension bit is not set")
				default:
					up(passed, "")
				}
				return false
			})
		}
		return v, why
	}

	var paramT [2]*Term
	h := Hooks{}
	judge := func(s *Sim, st *State, where string) {
		for i, f := range []func(*Sim, *State) (verdict, string){nameTest, bitTest} {
			rule := []string{name, bit}[i]
			v, why := f(s, st)
			switch v {
			case passed:
				r.Ob(rule, where)
			case other:
				note("the test behind '" + rule + "' has a form the rule does not know: not decided")
				r.Ob(rule, where)
			default:
				r.Bad(rule, where, where, "the download continues after the handshake: "+why, st.path(20))
			}
		}
	}
	h.Cond = func(s *Sim, st *State, in *ssa.If, c *Term) {
		if st.F["reply"] > 0 && st.F["judged"] == 0 && isReply(st, c) {
			for c.op == "not" {
				c = c.sub[0]
			}
			st.AddL("cond", c)
		}
	}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		on := func() bool {
			return len(c.Args) > 0 && c.Args[0].any(func(x *Term) bool { return st.HasL("conn", x) })
		}
		if len(c.Args) > 1 && strings.HasSuffix(c.Name, ".Write") && st.HasL("conn", c.Args[0]) {
			if st.F["reply"] == 0 {
				st.AddL("sent", s.content(st, c.Args[1]))
				return nil
			}
			if st.F["judged"] == 0 {
				st.F["judged"] = 1
				judge(s, st, p.InstrPos(c.Instr))
				return &Verdict{Stop: true}
			}
			return nil
		}
		buf, _, read := m.readOf(s, st, c)
		if !read || !on() {
			return nil
		}
		if st.F["reply"] == 0 {
			at := p.InstrPos(c.Instr)
			sent := s.concat(st.L["sent"]...)
			for _, x := range st.L["sent"] {
				if len(st.L["sent"]) > 1 && wholeHandshake(s, st, x, paramT) {
					r.Bad(name, at, at, "more than the handshake is sent to the peer before its reply has been read and checked", st.path(20))
					sent = x
				}
			}
			if len(st.L["sent"]) == 0 {
				note("nothing is written to the connection itself before the reply is read: the handshake that is sent is not decided")
				r.Ob(layout, at)
			} else {
				checkHandshake(s, st, r, sent, paramT, layout, ids, at, note)
			}
			l := s.lenTerm(st, buf)
			if n, ok := l.intVal(); ok && c.Name == "io.ReadFull" {
				if n > hsLen {
					r.Bad(size, at, at, fmt.Sprintf("%d bytes are read for the reply, a handshake has %d", n, hsLen), st.path(20))
				}
			}
			r.Ob(size, at)
		}
		st.F["reply"] = 1
		for {
			st.AddL("reply", buf)
			if buf.op == "slice" && buf.sub[1] == s.tt.Int(0) {
				buf = buf.sub[0]
				continue
			}
			break
		}
		return nil
	}
	h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
		if d, _ := m.dialled(s, st, c); d && len(res) == 2 {
			st.AddL("conn", res[0])
		}
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		if st.F["reply"] > 0 && st.F["judged"] == 0 && len(res) == 2 {
			if isnil, _ := s.truth(st, s.eqT(res[1], s.tt.Nil(res[1].typ))); isnil {
				judge(s, st, p.FuncName(fn))
			}
		}
	}
	r.explore(p, fn, h, Opts{Numeric: true}, func(s *Sim, st *State) {
		s.setGlobals(st, g)
		for i, x := range bp {
			paramT[i] = st.frames[0].env[x]
		}
	})
	r.Need(layout, 1)
	r.Need(name, 1)
	r.Need(bit, 1)

	// the reader, as the tests use it
	if rd := p.Func("dht/peerwire", "parseHandShakeMsg"); rd != nil && len(rd.Params) == 1 && isBytesType(rd.Params[0].Type()) {
		checkReader(p, r, rd, g, parse)
	} else {
		r.Note("parseHandShakeMsg was not found: only what FetchMetaData tests is decided")
	}
}

// elementsWritten: a place outside of the initialisation at which the bytes g refers to are written.
func (p *Program) elementsWritten(g *ssa.Global) ssa.Instruction {
	for _, f := range p.Funcs {
		if isInitFn(f) {
			continue
		}
		refers := map[ssa.Value]bool{}
		for ch := true; ch; {
			ch = false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					v, ok := in.(ssa.Value)
					if !ok || refers[v] {
						continue
					}
					hit := false
					switch in := in.(type) {
					case *ssa.UnOp:
						hit = in.X == ssa.Value(g)
					case *ssa.Slice:
						hit = refers[in.X]
					case *ssa.ChangeType:
						hit = refers[in.X]
					case *ssa.IndexAddr:
						hit = refers[in.X]
					case *ssa.Phi:
						for _, e := range in.Edges {
							hit = hit || refers[e]
						}
					}
					if hit {
						refers[v], ch = true, true
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if refers[in.Addr] {
						return in
					}
				case ssa.CallInstruction:
					c := in.Common()
					n := p.CalleeName(c)
					args := c.Args
					writes := n == "builtin:copy" && len(args) > 0 && refers[args[0]] ||
						strings.HasSuffix(n, ").Read") && len(args) > 0 && refers[args[len(args)-1]] ||
						(n == "io.ReadFull" || n == "io.ReadAtLeast") && refers[args[1]] ||
						strings.HasPrefix(n, "(encoding/binary.") && strings.Contains(n, ").Put") && len(args) > 1 && refers[args[1]]
					if writes {
						return in.(ssa.Instruction)
					}
				}
			}
		}
	}
	return nil
}

// eqTest: a comparison of two byte sequences.
func eqTest(c *Term) (a, b *Term, ok bool) {
	switch {
	case c.op == "app" && strings.HasSuffix(c.aux, ".HasPrefix") && !c.sub[1].isConst():
		// only the reply may be the longer one
	case c.op == "app" && (c.aux == "strings.EqualFold" || c.aux == "bytes.EqualFold" || c.aux == "bytes.Equal" || c.aux == "bytes.HasPrefix" || c.aux == "strings.HasPrefix"):
		return c.sub[0], c.sub[1], true
	case c.op == "eq" && len(c.sub) == 2:
		if c.sub[0].typ != nil && (isStringType(c.sub[0].typ) || isBytesType(c.sub[0].typ)) {
			return c.sub[0], c.sub[1], true
		}
	}
	return nil, nil, false
}

// checkHandshake: what is sent is 0x13, the name, the reserved bytes with the extension bit, then
// the info-hash and the peer id.
func checkHandshake(s *Sim, st *State, r *Report, sent *Term, params [2]*Term, layout, ids, at string, note func(string)) {
	parts := []*Term{sent}
	if sent.op == "concat" {
		parts = sent.sub
	}
	head := ""
	var rest []*Term
	for i, x := range parts {
		v, ok := x.strVal()
		if !ok {
			rest = parts[i:]
			break
		}
		head += v
	}
	shape := "the handshake is " + short(sent.String(), 120)
	want := string(rune(len(protoName))) + protoName
	if len(rest) != 2 || !isParam(s, st, rest[0], params) || !isParam(s, st, rest[1], params) {
		if len(rest) > 0 && len(head) > 0 && !strings.HasPrefix(want, head) && !strings.HasPrefix(head, want) {
			r.Bad(layout, at, at, fmt.Sprintf("%s: it starts with %q", shape, head), st.path(20))
			return
		}
		known := true // every part is a constant or one of the ids
		for _, x := range rest {
			if _, ok := x.strVal(); !ok && !isParam(s, st, x, params) {
				known = false
			}
		}
		if known {
			r.Bad(layout, at, at, shape+": it must be the 28 byte head, one info-hash and one peer id", st.path(20))
			return
		}
		note("the bytes of the handshake are not all recognised (" + short(sent.String(), 200) + "): not decided")
		r.Ob(layout, at)
		return
	}
	switch {
	case !strings.HasPrefix(head, want):
		r.Bad(layout, at, at, fmt.Sprintf("%s: it must start with the length and the name of the protocol, not %q", shape, head), st.path(20))
	case len(head) != len(want)+hsReserved:
		r.Bad(layout, at, at, fmt.Sprintf("%s: it has %d reserved bytes, not %d", shape, len(head)-len(want), hsReserved), st.path(20))
	case head[len(want)+hsExtByte]&extMask == 0:
		r.Bad(layout, at, at, fmt.Sprintf("%s: the extension bit (0x10 in reserved byte 5) is not set in % x", shape, head[len(want):]), st.path(20))
	case paramOf(s, st, rest[0]) != params[1] || paramOf(s, st, rest[1]) != params[0]:
		r.Bad(layout, at, at, "the ids are not sent in the order info-hash, peer id", st.path(20))
	default:
		r.Ob(layout, at)
	}
	for _, x := range params {
		l := s.lenTerm(st, x)
		n := s.tt.Int(20)
		if s.entailsLe(st, l, n, 0) && s.entailsLe(st, n, l, 0) {
			r.Ob(ids, at)
		} else {
			r.Bad(ids, at, at, "the length of "+x.String()+" is not checked before the handshake is sent", st.path(20))
		}
	}
}

func paramOf(s *Sim, st *State, t *Term) *Term {
	for {
		switch {
		case t.op == "copy" || t.op == "alias":
			t = t.sub[0]
		case t.op == "slice" && t.sub[1] == s.tt.Int(0) && (t.sub[2].op == "none" || t.sub[2] == s.lenTerm(st, t.sub[0])):
			t = t.sub[0]
		default:
			return t
		}
	}
}

func isParam(s *Sim, st *State, t *Term, params [2]*Term) bool {
	t = paramOf(s, st, t)
	return t == params[0] || t == params[1]
}

func short(x string, n int) string {
	if len(x) > n {
		return x[:n] + "..."
	}
	return x
}

// checkReader: the accessors of a parsed handshake give the parts at the offsets of the layout.
func checkReader(p *Program, r *Report, rd *ssa.Function, g map[*ssa.Global]string, rule string) {
	type part struct {
		name   string
		lo, hi int64 // relative to the length byte, 0: to the start
		rel    bool
	}
	parts := []part{{"Protocol", 1, 1, true}, {"InfoHash", 1 + 8, 1 + 8 + 20, true}, {"PeerId", 1 + 8 + 20, 1 + 8 + 40, true}}
	var data *Term
	noted := false
	h := Hooks{Return: func(s *Sim, st *State, res []*Term) {
		if len(res) == 0 {
			return
		}
		obj := unface(res[0])
		t := res[0].typ
		if res[0].op == "iface" && len(res[0].sub) > 0 {
			t = res[0].sub[0].typ
		}
		if obj.isNil() {
			return
		}
		for _, pt := range parts {
			get := p.methodOfType(t, pt.name)
			var v *Term
			if get != nil {
				if f := getterField(get); f != "" {
					v = s.fieldOf(st, obj, t, f)
				}
			}
			if v == nil {
				if !noted {
					noted = true
					r.Note("%s", "the result of "+p.FuncName(rd)+" is not made of plain fields: its layout is not decided")
				}
				r.Ob(rule, pt.name)
				continue
			}
			base, lo, hi := s.span(v)
			if base != data {
				if !noted {
					noted = true
					r.Note("the parts of a parsed handshake are not slices of its bytes: its layout is not decided")
				}
				r.Ob(rule, pt.name)
				continue
			}
			if hi == nil {
				hi = s.lenTerm(st, data)
			}
			b0 := s.tt.mk("index", "", types.Typ[types.Uint8], data, s.tt.Int(0))
			eq := func(a, b *Term) bool {
				return a == b || s.entailsLe(st, a, b, 0) && s.entailsLe(st, b, a, 0)
			}
			okAt := func(t *Term, k int64) bool {
				if eq(t, s.add(b0, s.tt.Int(k))) {
					return true
				}
				v, ok := t.intVal()
				return ok && v == int64(len(protoName))+k
			}
			okLo := okAt(lo, pt.lo)
			if pt.name == "Protocol" {
				v, ok := lo.intVal()
				okLo = ok && v == 1
			}
			okHi := okAt(hi, pt.hi)
			if !okHi && pt.name == "PeerId" {
				n, ok := s.lenTerm(st, data).intVal()
				v, k := hi.intVal()
				okHi = ok && n == hsLen && (eq(hi, s.lenTerm(st, data)) || k && v == n)
				if eq(hi, s.lenTerm(st, data)) && s.entailsLe(st, hi, s.tt.Int(hsLen), 0) {
					okHi = true
				}
			}
			if okLo && okHi {
				r.Ob(rule, pt.name)
			} else {
				r.Bad(rule, pt.name, p.FuncName(rd), fmt.Sprintf("%s of a parsed handshake is the bytes from %s to %s of the message, which is not where it is written", pt.name, lo, hi), st.path(20))
			}
		}
	}}
	r.explore(p, rd, h, Opts{Numeric: true}, func(s *Sim, st *State) {
		s.setGlobals(st, g)
		data = st.frames[0].env[rd.Params[0]]
	})
	r.Need(rule, 3)
}

// span: a part of a byte sequence, as base, start and end (nil: to the end of the base).
func (s *Sim) span(t *Term) (base, lo, hi *Term) {
	switch t.op {
	case "copy", "alias":
		return s.span(t.sub[0])
	case "slice":
		b, l, h := s.span(t.sub[0])
		if t.sub[2].op != "none" {
			h = s.add(l, t.sub[2])
		}
		return b, s.add(l, t.sub[1]), h
	}
	return t, s.tt.Int(0), nil
}

// methodOfType: the method of a type declared in the repository.
func (p *Program) methodOfType(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	for _, f := range p.Funcs {
		if f.Name() == name && f.Parent() == nil && f.Signature.Recv() != nil && f.Synthetic == "" && types.Identical(derefType(f.Signature.Recv().Type()), derefType(t)) {
			return f
		}
	}
	return nil
}

func wholeHandshake(s *Sim, st *State, t *Term, params [2]*Term) bool {
	n := len(t.sub)
	return t.op == "concat" && n > 2 && isParam(s, st, t.sub[n-1], params) && isParam(s, st, t.sub[n-2], params)
}
