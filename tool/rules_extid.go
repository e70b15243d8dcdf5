package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C40", "path-sensitive simulation of a whole metadata download: what is written to the peer after the handshake of BEP 3 is split into its length, its message type, its extension id and its dictionary, and each is compared with what was announced; facts about the first two bytes of the received message at every request and at every store of a piece",
		ruleExtID)
}

// extMsg is a written extended message taken apart.
type extMsg struct {
	n     *Term // the length that is sent
	typ   *Term // number terms
	id    *Term
	dict  *Term   // the encoded dictionary, as text
	parts []*Term // everything after the length
}

// splitBytes makes single bytes of the constants at the front of a sequence of parts.
func (s *Sim) frontByte(parts []*Term) (b *Term, rest []*Term) {
	if len(parts) == 0 {
		return nil, nil
	}
	x := parts[0]
	if v, ok := x.strVal(); ok && len(v) > 0 {
		rest = parts[1:]
		if len(v) > 1 {
			rest = append([]*Term{s.tt.Str(v[1:])}, rest...)
		}
		return s.tt.Int(int64(v[0])), rest
	}
	if x.op == "byte" {
		return x.sub[0], parts[1:]
	}
	return nil, parts
}

// encodedDict: the text is an encoded dictionary.
func encodedDict(t *Term) bool {
	for t.op == "copy" || t.op == "alias" {
		t = t.sub[0]
	}
	return t.op == "ext" && len(t.sub) > 0 && t.sub[0].aux != "" && strings.HasPrefix(t.sub[0].aux, "misc.EncodeDict")
}

// metaDict: the dictionary with the ids in the announcement of the peer, nil if the term is not an entry of it.
func announcedID(id *Term) (hs *Term, other string) {
	d := isEntry(stripAll(id), "ut_metadata")
	if d == nil {
		x := stripAll(id)
		if x.op == "lookup" && len(x.sub) > 1 {
			if k, ok := x.sub[1].strVal(); ok {
				return nil, "the entry " + k
			}
		}
		if v, ok := x.intVal(); ok {
			return nil, fmt.Sprintf("always %d", v)
		}
		return nil, ""
	}
	if top := isEntry(d, "m"); top != nil {
		return top, ""
	}
	return nil, "the entry ut_metadata of another dictionary than m"
}

// stripAll removes all conversions: that an id fits a byte is judged separately.
func stripAll(t *Term) *Term {
	for (t.op == "conv" || t.op == "assert" || t.op == "iface") && len(t.sub) > 0 {
		t = t.sub[0]
	}
	return t
}

// notAnnounced: a counter, or a byte of a message.
func notAnnounced(id *Term) bool {
	x := stripAll(id)
	if phi, _ := countPhi(x); phi != nil {
		return true
	}
	return x.op == "index" && stripAll(x.sub[0]).op == "hv"
}

func ruleExtID(p *Program, r *Report) {
	const (
		writes = "what is written to the peer is split into messages"
		length = "the length is that of what follows"
		typ    = "extended messages have type 20"
		hsid   = "the extended handshake has id 0"
		reqid  = "requests carry the id the peer announced"
		offers = "our handshake announces ut_metadata"
		fits   = "the announced id fits a byte"
		first  = "requests follow the handshake of the peer"
		under  = "pieces are taken under the id we announced"
	)
	fn := p.Func("dht/peerwire", "FetchMetaData")
	if fn == nil {
		r.Bad("anchors", "FetchMetaData", "?", "peerwire.FetchMetaData was not found", nil)
		return
	}
	m := &peerMon{p: p, r: r, id: "", fn: fn}
	h := Hooks{}
	notes := map[string]bool{}
	note := func(f string, a ...interface{}) {
		if t := fmt.Sprintf(f, a...); !notes[t] {
			notes[t] = true
			r.Note("%s", t)
		}
	}
	// msgByte: what is known of a byte of the message that was read last.
	msgByte := func(s *Sim, st *State, off, want int64) (is, seen bool) {
		try := func(x *Term) {
			if x.op != "index" {
				return
			}
			b, lo := s.sliceOf(x.sub[0])
			if b.op == "stale" || b.op != "hv" && !st.HasL("pooled", b) && b.op != "obj" {
				return
			}
			if b.op == "hv" && b.aux != "" && strings.HasPrefix(shortAux(b.aux), "loop") {
				return
			}
			at, ok := s.add(lo, x.sub[1]).intVal()
			if !ok || at != off {
				return
			}
			seen = true
			if s.entailsLe(st, x, s.tt.Int(want), 0) && s.entailsLe(st, s.tt.Int(want), x, 0) {
				is = true
			} else if t, k := s.truth(st, s.eqT(x, s.tt.Int(want))); k && t {
				is = true
			}
		}
		for x := range st.num.vars {
			try(x)
		}
		for x := range st.facts {
			for _, y := range x.sub {
				try(y)
				try(stripAll(y))
			}
		}
		return
	}
	message := func(s *Sim, st *State, in ssa.Instruction, msg extMsg) {
		where := p.InstrPos(in)
		k := p.site(in, "message")
		r.Ob(length, k)
		total := s.tt.Int(0)
		for _, x := range msg.parts {
			total = s.add(total, s.lenTerm(st, x))
		}
		switch n := stripAll(msg.n); {
		case s.entailsLe(st, n, total, 0) && s.entailsLe(st, total, n, 0):
		case n.op == "hv" || n.op == "res":
			note("%s: the length that is sent has a form the rule does not know", where)
		default:
			r.Bad(length, k, where, "the length sent with an extended message is "+short(n.String(), 80)+", "+short(total.String(), 80)+" bytes follow it", st.path(10))
		}
		r.Ob(typ, k)
		if v, ok := msg.typ.intVal(); ok && v != 20 {
			r.Bad(typ, k, where, fmt.Sprintf("an extended message is sent with the message type %d, it must be 20", v), st.path(10))
		} else if !ok {
			note("%s: the message type is not a constant", where)
		}
		var enc []*Term
		for _, x := range st.L["encoded"] {
			if x.sub[0] == msg.dict {
				enc = x.sub[1:]
			}
		}
		if enc == nil {
			note("%s: the dictionary of a message is not recognised", where)
			return
		}
		ids, kind, exact := enc[0], enc[1], enc[2].op != "none"
		switch {
		case kind.op != "none":
			r.Ob(reqid, k)
			hs, other := announcedID(msg.id)
			switch {
			case hs != nil:
				r.Ob(fits, k)
				for i, b := range []int64{1, 255} {
					x := stripAll(msg.id)
					for _, y := range []*Term{msg.id, x} {
						if y.op == "assert" {
							x = y
						}
					}
					for msg.id.op == "conv" && x == stripAll(msg.id) {
						x = msg.id.sub[0]
						break
					}
					if i == 0 && !s.entailsLe(st, s.tt.Int(b), x, 0) || i == 1 && !s.entailsLe(st, x, s.tt.Int(b), 0) {
						r.Bad(fits, k, where, []string{
							"a request is sent although the peer may have announced the id 0, which means that it does not support the extension",
							"a request is sent with an id that may be larger than the byte it is sent in"}[i], st.path(10))
					}
				}
			case other == "" && notAnnounced(msg.id):
				r.Bad(reqid, k, where, "the extension id of a metadata request is "+short(msg.id.String(), 60)+", not the id the peer announced for ut_metadata", st.path(10))
			case other != "":
				r.Bad(reqid, k, where, "the extension id of a metadata request is "+other+", not the id the peer announced for ut_metadata", st.path(10))
			default:
				note("%s: the extension id of a request has a form the rule does not know", where)
			}
			r.Ob(first, k)
			for off, want := range map[int64]int64{0: 20, 1: 0} {
				if is, seen := msgByte(s, st, off, want); seen && !is {
					r.Bad(first, k, where, fmt.Sprintf("metadata is requested although byte %d of the message received was not found to be %d: it need not be an extended handshake", off, want), st.path(10))
				} else if !seen {
					note("%s: byte %d of the message that leads to a request is not looked at in a form the rule knows", where, off)
				}
			}
		case ids.op != "none":
			r.Ob(hsid, k)
			if v, ok := msg.id.intVal(); ok && v != 0 {
				r.Bad(hsid, k, where, fmt.Sprintf("the extended handshake is sent with the extension id %d, it must be 0", v), st.path(10))
			} else if !ok {
				note("%s: the extension id of the handshake is not a constant", where)
			}
			r.Ob(offers, k)
			st.F["offered"] = -1
			x := unface(ids)
			v := s.dictGet(st, x, "ut_metadata")
			if v == nil {
				if _, exact := s.dictKeys(st, x); exact {
					r.Bad(offers, k, where, "our extended handshake does not announce an id for ut_metadata: the peer cannot answer", st.path(10))
				} else {
					note("%s: the ids our handshake announces are not recognised", where)
				}
				break
			}
			n, ok := unface(v).intVal()
			switch {
			case !ok:
				note("%s: the id our handshake announces for ut_metadata is not a constant", where)
			case n <= 0 || n > 255:
				r.Bad(offers, k, where, fmt.Sprintf("our extended handshake announces the id %d for ut_metadata, it must be between 1 and 255", n), st.path(10))
			default:
				st.F["offered"] = int(n)
				others, _ := s.dictKeys(st, x)
				for _, o := range others {
					if o == "ut_metadata" {
						continue
					}
					if ov := s.dictGet(st, x, o); ov != nil {
						if on, ok := unface(ov).intVal(); ok && on == n {
							r.Bad(offers, k+" "+o, where, fmt.Sprintf("our extended handshake announces the id %d for ut_metadata and for %s: messages of the other extension are taken for metadata", n, o), st.path(10))
						}
					}
				}
			}
		case exact:
			r.Ob(offers, k)
			r.Bad(offers, k, where, "an extended message is sent that is neither a metadata request nor announces the extensions that we support", st.path(10))
		default:
			note("%s: the kind of an extended message is not recognised", where)
		}
	}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		switch c.Name {
		case "(*misc.BytesPool).GetBySize":
			o := s.fresh(st, s.tt.mk("obj", s.siteID(c.Frame, c.Instr, "pooled"), c.Instr.Common().Signature().Results().At(0).Type()))
			s.addEq(st, s.lenTerm(st, o), c.Args[1])
			return &Verdict{Opaque: true, Outcomes: []Outcome{{Res: []*Term{o}, Apply: func(st *State) bool { st.L["pooled"] = []*Term{o}; return true }}}}
		case "(*misc.BytesPool).Put":
			return &Verdict{Opaque: true, Outcomes: []Outcome{{}}}
		}
		if len(c.Args) < 2 || !st.HasL("conn", c.Args[0]) || !strings.HasSuffix(c.Name, ".Write") {
			return nil
		}
		r.Ob(writes, p.site(c.Instr, "write"))
		// the stream up to the end of the dictionary is a message
		var pend []*Term
		if l := st.L["pend"]; len(l) > 0 {
			pend = append(pend, l...)
		}
		all := s.concat(append(pend, s.text(st, c.Args[1]))...)
		parts := []*Term{all}
		if all.op == "concat" {
			parts = all.sub
		}
		delete(st.L, "pend")
		if v, ok := parts[0].strVal(); ok && strings.HasPrefix(v, "\x13BitTorrent protocol") {
			return nil // judged by the handshake rule
		}
		has := false
		for _, x := range parts {
			has = has || encodedDict(x)
		}
		if !has {
			st.L["pend"] = append([]*Term(nil), parts...)
			if len(parts) > 12 {
				delete(st.L, "pend")
				note("%s: what is written is not split into messages", p.InstrPos(c.Instr))
			}
			return nil
		}
		if st.F["offered"] == 0 {
			st.F["offered"] = -1 // until it is recognised
		}
		where := p.InstrPos(c.Instr)
		k := p.site(c.Instr, "message")
		if parts[0].op != "be" || parts[0].aux != "4" {
			r.Ob(length, k)
			_, isConst := parts[0].strVal()
			if isConst || parts[0].op == "be" || parts[0].op == "le" {
				r.Bad(length, k, where, "an extended message does not begin with its length as a four-byte big-endian number but with "+short(parts[0].String(), 80), st.path(10))
			} else {
				note("%s: what is written does not begin with a length the rule knows: %s", where, parts[0].String())
			}
			return nil
		}
		msg := extMsg{n: parts[0].sub[0], parts: parts[1:]}
		rest := parts[1:]
		msg.typ, rest = s.frontByte(rest)
		if msg.typ != nil {
			msg.id, rest = s.frontByte(rest)
		}
		if msg.typ == nil || msg.id == nil {
			if len(rest) > 0 && encodedDict(rest[0]) {
				r.Bad(typ, k, where, "the message type or the extension id is missing from an extended message", st.path(10))
			} else {
				note("%s: the message type and the extension id are not recognised", where)
			}
			return nil
		}
		if len(rest) == 0 || !encodedDict(rest[0]) {
			if v, ok := rest[0].strVal(); ok {
				r.Bad(typ, k, where, fmt.Sprintf("between the extension id and the dictionary %q is sent", v), st.path(10))
			} else {
				note("%s: what follows the extension id is not recognised", where)
			}
			return nil
		}
		msg.dict = rest[0]
		for msg.dict.op == "copy" || msg.dict.op == "alias" {
			msg.dict = msg.dict.sub[0]
		}
		message(s, st, c.Instr, msg)
		delete(st.L, "encoded")
		return nil
	}
	h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
		if d, _ := m.dialled(s, st, c); d && len(res) == 2 {
			st.AddL("conn", res[0])
		}
		if c.Name == "misc.EncodeDict" && len(res) == 2 {
			get := func(k string) *Term {
				if v := s.dictGet(st, c.Args[0], k); v != nil {
					return v
				}
				return s.tt.mk("none", "", nil)
			}
			all := s.tt.mk("none", "", nil)
			if _, exact := s.dictKeys(st, c.Args[0]); exact {
				all = s.tt.Bool(true)
			}
			l := st.L["encoded"]
			if n := len(l); n > 3 {
				l = l[n-3:]
			}
			st.L["encoded"] = append(append([]*Term(nil), l...), s.tt.mk("tuple", "encoded", nil, res[0], get("m"), get("msg_type"), all))
		}
	}
	h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op != "indexaddr" || val.isNil() || val.typ == nil || !isBytesType(val.typ) {
			return
		}
		if isEntry(addr.sub[1], "piece") == nil {
			return
		}
		where, k := p.InstrPos(in), p.site(in, "store")
		r.Ob(under, k)
		if st.F["offered"] == 0 {
			r.Bad(under, k, where, "a piece is stored although no extended handshake was sent", st.path(10))
			return
		}
		want := int64(st.F["offered"])
		if want < 0 {
			return
		}
		if is, seen := msgByte(s, st, 1, want); seen && !is {
			r.Bad(under, k, where, fmt.Sprintf("a piece is taken from a message that was not found to carry the extension id %d, the one we announced for ut_metadata", want), st.path(10))
		} else if !seen {
			note("%s: the id of the message that carries a piece is not looked at in a form the rule knows", where)
		}
		if is, seen := msgByte(s, st, 0, 20); seen && !is {
			r.Bad(under, k, where, "a piece is taken from a message that was not found to be an extended message", st.path(10))
		}
	}
	r.explore(p, fn, h, Opts{Numeric: true}, nil)
	// the functions that make such messages, whatever they are given
	for _, f := range p.Funcs {
		if f.Pkg != p.Pkg("dht/peerwire") || f.Parent() != nil || f.Signature.Results().Len() != 1 || !isBytesType(f.Signature.Results().At(0).Type()) || f.Synthetic != "" {
			continue
		}
		enc := false
		for g := range p.directReach(f, "dht/peerwire") {
			for _, c := range p.callees[g] {
				enc = enc || p.FuncName(c) == "misc.EncodeDict"
			}
		}
		if !enc {
			continue
		}
		f := f
		bh := Hooks{Return: func(s *Sim, st *State, res []*Term) {
			all := s.text(st, res[0])
			if all.op != "concat" || all.sub[0].op != "be" || all.sub[0].aux != "4" {
				return
			}
			total, has := s.tt.Int(0), false
			for _, x := range all.sub[1:] {
				total = s.add(total, s.lenTerm(st, x))
				has = has || encodedDict(x)
			}
			if !has {
				return
			}
			rest := all.sub[1:]
			var b1, b2 *Term
			b1, rest = s.frontByte(rest)
			b2, rest = s.frontByte(rest)
			if b1 != nil && b2 != nil && len(rest) > 0 && !encodedDict(rest[0]) {
				r.Bad(typ, p.FuncName(f), p.Pos(f.Pos()), "between the extension id and the dictionary "+short(rest[0].String(), 60)+" is written", st.path(10))
			}
			r.Ob(length, p.FuncName(f))
			n := stripAll(all.sub[0].sub[0])
			if s.entailsLe(st, n, total, 0) && s.entailsLe(st, total, n, 0) {
				return
			}
			loose := false
			for _, x := range all.sub[1:] {
				loose = loose || x.op == "hv" || x.op == "res" || x.op == "obj"
			}
			if d := s.lin(s.sub(n, total)); loose || n.any(func(x *Term) bool {
				return x.op == "hv" || x.op == "phi" || strings.HasSuffix(x.op, "w") && x.op != "w"
			}) || len(d.m) > 3 {
				note("%s: the length of a message has a form the rule does not know", p.FuncName(f))
				return
			}
			r.Bad(length, p.FuncName(f), p.Pos(f.Pos()), "the length at the front of an extended message is "+short(n.String(), 80)+", "+short(total.String(), 80)+" bytes follow it", st.path(10))
		}}
		r.explore(p, f, bh, Opts{Numeric: true, MaxStates: 20000}, nil)
	}
	r.Need(writes, 1)
	r.Need(under, 1)
}
