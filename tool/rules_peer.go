package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "path-sensitive simulation of a whole metadata download and of the task that stores its result: every return without an error returns the bytes whose SHA-1 was compared with the requested info-hash on that path, every return with an error (recovered panics included) returns no bytes, and data is written only after a download without error, unchanged, under the hexadecimal form of the info-hash it was downloaded for",
		func(p *Program, r *Report) { rulePeer(p, r, "C18"); ruleStore(p, r, "C18") })
	register("C20", "path-sensitive simulation of a whole metadata download (panics included): the connection is dialled with a timeout, every read and write happens under a deadline, every iteration of the outermost loop that reads checks a time budget that was started before the loop and ends the loop, no message is read once all pieces are there, and the connection is closed on every way out",
		func(p *Program, r *Report) { rulePeer(p, r, "C20") })
	register("C21", "path-sensitive simulation of a whole metadata download with a typestate of the stream (handshake, prefix, body) and numeric bounds: every read of a part fills exactly the bytes that part has, the body being as long as the big-endian prefix says, a zero prefix is skipped, a body is only read or allocated when its length is below a constant, and only longer ones are refused",
		func(p *Program, r *Report) { rulePeer(p, r, "C21") })
}

// peerMon follows one download.
type peerMon struct {
	p    *Program
	r    *Report
	id   string
	fn   *ssa.Function
	info *Term // the info-hash asked for
	done *ssa.Function
	rds  map[string]bool // loops that read
	chk  map[string]bool
	sums int
}

func (m *peerMon) ob(id, rule, key string) {
	if id == m.id {
		m.r.Ob(rule, key)
	}
}

func (m *peerMon) bad(id, rule, key, where, msg string, st *State) {
	if id == m.id {
		m.r.Bad(rule, key, where, msg, st.path(10))
	}
}

// errState: 0 unknown, 1 nil, 2 not nil.
func (s *Sim) errState(st *State, e *Term) int {
	if e == nil || e.isNil() {
		return 1
	}
	if s.nonNil(st, e) {
		return 2
	}
	if t, k := s.truth(st, s.tt.mk("isnil", "", types.Typ[types.Bool], e)); k {
		if t {
			return 1
		}
		return 2
	}
	return 0
}

// inLoops: the headers of the loops of its function that contain the block, outermost first.
func loopsOf(b *ssa.BasicBlock) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, h := range b.Parent().Blocks {
		if !h.Dominates(b) {
			continue
		}
		for _, q := range h.Preds {
			if h.Dominates(q) && (b == h || q == b || reachesWithin(b, q, h)) {
				out = append(out, h)
				break
			}
		}
	}
	// an outer header dominates an inner one
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j].Dominates(out[i]) {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func reachesWithin(from, to, hdr *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{hdr: true}
	w := []*ssa.BasicBlock{from}
	for len(w) > 0 {
		b := w[len(w)-1]
		w = w[:len(w)-1]
		if b == to {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		w = append(w, b.Succs...)
	}
	return false
}

func hdrID(p *Program, b *ssa.BasicBlock) string {
	return fmt.Sprintf("%s.%d", p.FuncName(b.Parent()), b.Index)
}

// stackLoops: the loops that are running, outermost first.
func stackLoops(p *Program, st *State) []string {
	var out []string
	for _, f := range st.frames {
		if f.block == nil {
			continue
		}
		for _, h := range loopsOf(f.block) {
			out = append(out, hdrID(p, h))
		}
	}
	return out
}

// isTimer: a channel or context that ends after a while; the call that started it is returned.
func timerCall(t *Term) *Term {
	var out *Term
	t.any(func(x *Term) bool {
		if (x.op == "res" || x.op == "app") && (strings.Contains(x.aux, "time.After") || strings.Contains(x.aux, "time.NewTimer") || strings.Contains(x.aux, "context.WithTimeout") || strings.Contains(x.aux, "context.WithDeadline")) {
			out = x
			return true
		}
		return false
	})
	return out
}

func isTimerName(n string) bool {
	switch n {
	case "time.After", "time.NewTimer", "context.WithTimeout", "context.WithDeadline":
		return true
	}
	return false
}

// dialled: the call opens a connection; finite tells whether it gives up after a while.
func (m *peerMon) dialled(s *Sim, st *State, c *CallEv) (dial, finite bool) {
	pos := func(d *Term) bool {
		if d == nil {
			return false
		}
		if v, ok := d.intVal(); ok {
			return v > 0
		}
		return s.entailsLe(st, s.tt.Int(1), d, 0)
	}
	switch c.Name {
	case "net.DialTimeout":
		return true, pos(c.Args[2])
	case "net.Dial", "net.DialTCP":
		return true, false
	case "(*net.Dialer).Dial", "(*net.Dialer).DialContext":
		if c.Name == "(*net.Dialer).DialContext" && timerCall(c.Args[1]) != nil {
			return true, true
		}
		nt := c.Instr.Common().Args[0].Type()
		if pos(s.fieldOf(st, c.Args[0], nt, "Timeout")) {
			return true, true
		}
		if d := s.fieldOf(st, c.Args[0], nt, "Deadline"); d != nil && !isZeroStruct(d) {
			return true, true
		}
		return true, false
	}
	return false, false
}

func isZeroStruct(t *Term) bool {
	if t.op != "struct" {
		return false
	}
	for _, x := range t.sub {
		if v, ok := x.intVal(); ok && v == 0 || x.isNil() || isZeroStruct(x) {
			continue
		}
		return false
	}
	return true
}

// fullRead: a call that fills a whole buffer from the stream, or reads a fixed-width number.
func (m *peerMon) readOf(s *Sim, st *State, c *CallEv) (buf *Term, full, read bool) {
	switch c.Name {
	case "io.ReadFull":
		return c.Args[1], true, true
	case "io.ReadAtLeast":
		l := s.lenTerm(st, c.Args[1])
		return c.Args[1], s.entailsLe(st, l, c.Args[2], 0), true
	case "(net.Conn).Read", "(io.Reader).Read", "(*net.TCPConn).Read", "(*bufio.Reader).Read":
		return c.Args[1], false, true
	}
	return nil, false, false
}

const pieceMsg = 16*1024 + 64 // a message with a whole piece in it

func rulePeer(p *Program, r *Report, id string) {
	fn := p.Func("dht/peerwire", "FetchMetaData")
	if fn == nil || len(fn.Params) < 2 {
		r.Bad("anchors", "FetchMetaData", "?", "peerwire.FetchMetaData was not found", nil)
		return
	}
	m := &peerMon{p: p, r: r, id: id, fn: fn, rds: map[string]bool{}, chk: map[string]bool{}}
	m.done = p.Method("dht/peerwire", "PeerConn", "CompledMetaData")
	const (
		success = "success means the SHA-1 matches"
		failure = "a failed download returns no bytes"
		dial    = "the connection is dialled with a timeout"
		under   = "reads and writes happen under a deadline"
		budget  = "the message loop has a time budget"
		stops   = "nothing is read once all pieces are there"
		closes  = "the connection is closed on every way out"
		hand    = "the handshake is read completely"
		prefix  = "the prefix is read completely"
		exact   = "exactly the announced bytes are read"
		limit   = "a message is read only below the limit"
		accepts = "only oversized messages are refused"
		keep    = "a zero prefix is a keep-alive"
		result  = "the message is the bytes that were read"
		order   = "the prefix is big-endian"
	)
	at := func(c *CallEv) string { return p.InstrPos(c.Instr) }
	h := Hooks{}
	one := func(st *State, k string) *Term {
		if l := st.L[k]; len(l) > 0 {
			return l[len(l)-1]
		}
		return nil
	}
	mention := func(st *State, t *Term) bool {
		return t.any(func(x *Term) bool { return st.HasL("conn", x) || st.HasL("wrap", x) })
	}
	// the prefix value, when it is known what it was made of
	preLen := func(s *Sim, st *State) *Term { return one(st, "prelen") }
	refusable := func(s *Sim, st *State) bool {
		if st.F["phase"] != 2 {
			return true
		}
		if e := one(st, "prefixerr"); e != nil && s.errState(st, e) != 1 {
			return true
		}
		l := preLen(s, st)
		return l == nil || s.entailsLe(st, s.tt.Int(pieceMsg), l, 0)
	}
	bounded := func(s *Sim, st *State, where string, n *Term) {
		l := preLen(s, st)
		if st.F["phase"] != 2 || l == nil || !n.any(func(x *Term) bool { return x == l }) {
			return
		}
		m.ob("C21", limit, p.site(st.top().block.Instrs[0], "allocation"))
		if !s.entailsLe(st, n, s.tt.Int(1<<24), 0) {
			m.bad("C21", limit, "allocation", where, "memory of the announced length is taken before the length was checked against a limit", st)
		}
	}
	h.Make = func(s *Sim, st *State, in ssa.Instruction, kind string, size *Term) {
		bounded(s, st, p.InstrPos(in), size)
	}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if d, finite := m.dialled(s, st, c); d {
			m.ob("C20", dial, p.site(c.Instr, "dial"))
			if !finite {
				m.bad("C20", dial, p.site(c.Instr, "dial"), at(c), "the connection is opened without a timeout", st)
			}
			return nil
		}
		switch c.Name {
		case "(*misc.BytesPool).GetBySize":
			bounded(s, st, at(c), c.Args[1])
			o := s.fresh(st, s.tt.mk("obj", s.siteID(c.Frame, c.Instr, "pooled"), c.Instr.Common().Signature().Results().At(0).Type()))
			s.addEq(st, s.lenTerm(st, o), c.Args[1])
			return &Verdict{Opaque: true, Outcomes: []Outcome{{Res: []*Term{o}}}}
		case "(*misc.BytesPool).Put":
			return &Verdict{Opaque: true, Outcomes: []Outcome{{}}}
		case "(misc.Logger).Panic":
			if !refusable(s, st) {
				m.bad("C21", accepts, "panic", at(c), "a message is refused although its length is below the limit", st)
			}
		}
		if m.done != nil && c.Fn == m.done {
			tr, fa := s.tt.Bool(true), s.tt.Bool(false)
			st.F["complete"], st.F["donechk"] = 0, 1
			return &Verdict{Opaque: true, Outcomes: []Outcome{
				{Res: []*Term{tr}, Apply: func(st *State) bool { st.F["complete"] = 1; return true }},
				{Res: []*Term{fa}, Apply: func(st *State) bool { st.F["complete"] = 2; return true }},
			}}
		}
		if len(c.Args) == 0 {
			return nil
		}
		// closing, deadlines
		if mention(st, c.Args[0]) {
			meth := c.Name[strings.LastIndex(c.Name, ".")+1:]
			switch meth {
			case "Close":
				st.F["closed"] = 1
				return nil
			case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
				v := 1
				if isZeroStruct(c.Args[1]) {
					v = 0
				}
				if meth != "SetWriteDeadline" {
					st.F["rd"] = v
					for _, k := range stackLoops(p, st) {
						st.F["dl:"+k] = 1
					}
				}
				if meth != "SetReadDeadline" {
					st.F["wd"] = v
				}
				return nil
			case "LocalAddr", "RemoteAddr":
				return nil
			}
		}
		if c.Fn != nil || strings.HasPrefix(c.Name, "(misc.Logger).") {
			return nil
		}
		uses := false
		for _, a := range c.Args {
			uses = uses || mention(st, a)
		}
		if !uses || c.Name == "dynamic" {
			return nil
		}
		switch c.Name {
		case "bufio.NewReader", "bufio.NewReaderSize":
			// a second reader would lose what the first one has buffered
			if st.F["wrapped"] > 0 || st.F["reads"] > 0 {
				m.bad("C21", exact, "buffered reader", at(c), "a buffered reader is put on a connection that is also read otherwise, bytes of the next message are lost in it", st)
			}
			st.F["wrapped"] = 1
			return nil
		case "bufio.NewWriter", "io.LimitReader", "io.TeeReader":
			return nil
		}
		buf, full, read := m.readOf(s, st, c)
		lower := strings.ToLower(c.Name)
		rd := read || strings.Contains(lower, "read") || strings.Contains(lower, "copy")
		wr := strings.Contains(lower, "write") || strings.Contains(lower, "flush") || strings.Contains(lower, "copy")
		if rd {
			m.ob("C20", under, p.site(c.Instr, "read"))
			if st.F["rd"] == 0 {
				m.bad("C20", under, p.site(c.Instr, "read"), at(c), "the peer is read without a read deadline", st)
			}
		}
		if wr {
			m.ob("C20", under, p.site(c.Instr, "write"))
			if st.F["wd"] == 0 {
				m.bad("C20", under, p.site(c.Instr, "write"), at(c), "the peer is written to without a write deadline", st)
			}
		}
		if !rd {
			return nil
		}
		if st.F["reads"] < 3 {
			st.F["reads"]++
		}
		if st.F["wrapped"] > 0 && st.HasL("conn", c.Args[0]) {
			m.bad("C21", exact, "buffered reader", at(c), "the connection is read past the buffered reader that was put on it", st)
		}
		if st.F["complete"] == 1 {
			m.bad("C20", stops, p.site(c.Instr, "read"), at(c), "another message is waited for although all pieces are there", st)
		}
		for i, k := range stackLoops(p, st) {
			st.F["rd:"+k] = 1
			if i > 0 {
				continue
			}
			st.F["outer:"+k] = 1
			m.ob("C20", budget, k)
			if m.done != nil && st.F["iter"] > 0 && st.F["newiter"] > 0 && st.F["donechk"] == 0 {
				m.bad("C20", stops, p.site(c.Instr, "read"), at(c), "another message is waited for without looking whether all pieces are there", st)
			}
			st.F["newiter"], st.F["donechk"] = 0, 0
		}
		m.framing(s, st, c, buf, full, read, hand, prefix, exact, limit)
		return nil
	}
	h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
		if d, _ := m.dialled(s, st, c); d && len(res) == 2 {
			st.AddL("conn", res[0])
			st.AddL("dialerr", res[1])
			return
		}
		switch {
		case strings.HasPrefix(c.Name, "bufio.NewReader") && mention(st, c.Args[0]):
			st.AddL("wrap", res[0])
		case isTimerName(c.Name):
			st.AddL("newtimer", res[0])
			for _, k := range stackLoops(p, st) {
				st.AddL("looptimer:"+k, res[0])
			}
		case c.Name == "(*time.Timer).Reset" || c.Name == "(*time.Ticker).Reset":
			for _, k := range stackLoops(p, st) {
				st.AddL("looptimer:"+k, c.Args[0])
			}
		case c.Name == "io.ReadFull" || c.Name == "io.ReadAtLeast" || c.Name == "encoding/binary.Read":
			e := res[len(res)-1]
			switch {
			case st.F["rdnow"] == 0:
			case st.F["phase"] == 2:
				st.L["prefixerr"] = []*Term{e}
				if c.Name == "encoding/binary.Read" {
					m.readNumber(s, st, c)
				}
			case st.F["phase"] == 3:
				st.L["bodyerr"] = []*Term{e}
			case st.F["phase"] <= 1:
				st.AddL("hserr", e)
			}
			st.F["rdnow"] = 0
		case strings.HasSuffix(c.Name, "Endian).Uint32") && st.F["phase"] == 2:
			b := s.tt.mk("none", "", nil)
			if l := one(st, "prefix"); l != nil {
				b = s.content(st, l)
			}
			if s.content(st, c.Args[1]) != b && c.Args[1] != one(st, "prefix") {
				return
			}
			m.ob("C21", order, p.site(c.Instr, "prefix"))
			if strings.Contains(c.Name, "littleEndian") {
				m.bad("C21", order, "prefix", at(c), "the length prefix is read in little-endian order", st)
				return
			}
			st.L["prelen"] = []*Term{res[0]}
		case c.Name == "strings.EqualFold" && !(isHex(c.Args[0]) && isHex(c.Args[1])):
			// upper and lower case letters are different bytes
		case c.Name == "bytes.Equal" || c.Name == "bytes.Compare" || c.Name == "strings.EqualFold" || c.Name == "crypto/subtle.ConstantTimeCompare" || c.Name == "strings.Compare":
			t := res[0]
			switch c.Name {
			case "bytes.Compare", "strings.Compare":
				t = s.eqT(t, s.tt.Int(0))
			case "crypto/subtle.ConstantTimeCompare":
				t = s.eqT(t, s.tt.Int(1))
			}
			st.AddL("eq", s.tt.mk("pair", "", nil, t, s.content(st, c.Args[0]), s.content(st, c.Args[1])))
		}
	}
	h.Compare = func(s *Sim, st *State, in ssa.Instruction, x, y *Term) {
		if cx, cy := s.content(st, x), s.content(st, y); cx.any(isSha) || cy.any(isSha) {
			st.AddL("eq", s.tt.mk("pair", "", nil, s.eqT(x, y), cx, cy))
		}
	}
	h.Store = func(s *Sim, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op == "indexaddr" {
			for _, q := range st.L["eq"] {
				if b := shaOf(q.sub[1], q.sub[2]); b != nil && b.any(func(x *Term) bool { return x == addr.sub[0] }) {
					st.F["mutated"] = 1
				}
			}
		}
	}
	h.SelectHead = func(s *Sim, st *State, in *ssa.Select, chans []*Term) {
		for _, ch := range chans {
			m.budgetCheck(s, st, timerCall(ch))
		}
	}
	h.Recv = func(s *Sim, st *State, in ssa.Instruction, ch, val *Term, blocking bool) {
		if timerCall(ch) != nil {
			st.F["expired"] = 1
		}
	}
	h.Cond = func(s *Sim, st *State, in *ssa.If, c *Term) {
		// time.Since(t) > d, now.After(d), ctx.Err() != nil
		var tc *Term
		c.any(func(x *Term) bool {
			if x.op != "res" && x.op != "app" {
				return false
			}
			for _, n := range []string{"time.Since", "time.Until", "(time.Time).After", "(time.Time).Before", "(time.Time).Sub", "(context.Context).Err", "(time.Time).Compare"} {
				if strings.HasSuffix(shortAux(x.aux), n) {
					tc = x
					return true
				}
			}
			return false
		})
		if tc == nil {
			return
		}
		for _, k := range stackLoops(p, st) {
			st.F["ck:"+k] = 1
		}
		st.AddL("clock", c)
	}
	h.LoopBack = func(s *Sim, st *State, from, to *ssa.BasicBlock) {
		k := hdrID(p, to)
		if st.F["rd:"+k] == 0 {
			return
		}
		where := p.InstrPos(to.Instrs[len(to.Instrs)-1])
		outer := st.F["outer:"+k] > 0
		if st.F["ck:"+k] == 0 && (outer || st.F["dl:"+k] > 0) {
			m.bad("C20", budget, k, where, "the loop reads message after message without looking at its time budget", st)
		}
		if st.F["expired"] > 0 {
			m.bad("C20", budget, k+": expired", where, "the loop goes on although its time budget is used up", st)
		}
		for _, c := range st.L["clock"] {
			if m.clockExpired(s, st, c) {
				m.bad("C20", budget, k+": expired", where, "the loop goes on although its time budget is used up", st)
			}
		}
		if st.F["phase"] == 2 {
			m.ob("C21", keep, k)
			l := preLen(s, st)
			if l != nil && !s.entailsLe(st, l, s.tt.Int(0), 0) && one(st, "prefixerr") != nil && s.errState(st, one(st, "prefixerr")) == 1 {
				m.bad("C21", exact, "skipped", where, "the next prefix is read although the bytes of this message were not", st)
			}
			st.F["phase"] = 1
		}
		st.F["ck:"+k], st.F["rd:"+k], st.F["dl:"+k] = 0, 0, 0
		if !outer {
			return
		}
		st.F["iter"], st.F["newiter"] = 1, 1
		delete(st.L, "newtimer")
		delete(st.L, "clock")
		delete(st.L, "prelen")
		delete(st.L, "prefix")
		delete(st.L, "prefixerr")
		delete(st.L, "bodyerr")
	}
	h.Index = func(s *Sim, st *State, in ssa.Instruction, base, idx *Term, ok bool) {
		if v, k := idx.intVal(); !k || v != 0 {
			return
		}
		l := preLen(s, st)
		if l == nil || s.entailsLe(st, s.tt.Int(1), l, 0) || !base.isNil() && !isBytesType(base.typ) {
			return
		}
		if n := s.lenTerm(st, base); base.isNil() || s.entailsLe(st, n, l, 0) && s.entailsLe(st, l, n, 0) {
			m.bad("C21", keep, "parsed", p.InstrPos(in), "a message without content is parsed as one with content", st)
		}
	}
	h.Panic = func(s *Sim, st *State, in *ssa.Panic, val *Term) {
		if !refusable(s, st) {
			m.bad("C21", accepts, "panic", p.InstrPos(in), "a message is refused although its length is below the limit", st)
		}
	}
	h.Leave = func(s *Sim, st *State, fr *Frame, res []*Term) {
		if len(st.frames) <= 1 {
			return
		}
		if res == nil {
			return
		}
		sig := fr.fn.Signature.Results()
		ei := errIndex(fr.fn.Signature)
		if ei >= 0 && s.errState(st, res[ei]) == 2 && !refusable(s, st) {
			m.bad("C21", accepts, p.FuncName(fr.fn), p.Pos(fr.fn.Pos()), "a message is refused although its length is below the limit", st)
		}
		l := preLen(s, st)
		if st.F["phase"] != 3 || l == nil {
			return
		}
		for i := 0; i < sig.Len(); i++ {
			if !isBytesType(sig.At(i).Type()) || res[i].isNil() || ei >= 0 && s.errState(st, res[ei]) == 2 {
				continue
			}
			n := s.lenTerm(st, res[i])
			if e := one(st, "bodyerr"); e != nil && s.errState(st, e) != 1 && (ei < 0 || res[ei] != e) {
				m.bad("C21", result, p.FuncName(fr.fn)+": error", p.Pos(fr.fn.Pos()), "a message is handed on although reading it may have failed", st)
			}
			m.ob("C21", result, p.FuncName(fr.fn))
			if !s.entailsLe(st, n, l, 0) || !s.entailsLe(st, l, n, 0) {
				m.bad("C21", result, p.FuncName(fr.fn), p.Pos(fr.fn.Pos()), "the message that is handed on is not as long as the prefix announced", st)
			}
			st.F["phase"] = 1
		}
	}
	exit := func(s *Sim, st *State, how string) {
		e := one(st, "dialerr")
		if e == nil || s.errState(st, e) == 2 {
			return
		}
		m.ob("C20", closes, how)
		if st.F["closed"] == 0 {
			m.bad("C20", closes, how, p.Pos(fn.Pos()), "the download ends by "+how+" without closing the connection", st)
		}
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		exit(s, st, "return")
		if len(res) != 2 {
			return
		}
		es := s.errState(st, res[1])
		none := res[0].isNil()
		if !none {
			if t, k := s.truth(st, s.tt.mk("isnil", "", types.Typ[types.Bool], res[0])); k {
				none = t
			}
		}
		if n := s.lenTerm(st, res[0]); !none && s.entailsLe(st, n, s.tt.Int(0), 0) {
			none = true
		}
		if es != 1 {
			m.ob("C18", failure, "return")
			if !none {
				m.bad("C18", failure, "FetchMetaData", p.Pos(fn.Pos()), "bytes are returned together with an error", st)
			}
		}
		if es != 2 {
			m.ob("C18", success, "return")
			want := s.content(st, m.info)
			got := s.content(st, res[0])
			ok := false
			for _, q := range st.L["eq"] {
				if v, k := s.truth(st, q.sub[0]); !k || !v {
					continue
				}
				for i := 1; i <= 2; i++ {
					if d := shaOf(q.sub[i], q.sub[i]); d != nil && (d == got || d == res[0]) && unhex(q.sub[3-i]) == want {
						ok = true
					}
				}
			}
			if !ok {
				m.bad("C18", success, "FetchMetaData", p.Pos(fn.Pos()), "success is reported on a path on which the SHA-1 of the returned bytes was not found equal to the requested info-hash", st)
			} else if st.F["mutated"] > 0 {
				m.bad("C18", success, "FetchMetaData: changed", p.Pos(fn.Pos()), "the bytes are changed after their SHA-1 was taken", st)
			}
		}
	}
	h.PanicOut = func(s *Sim, st *State, v *Term) { exit(s, st, "panic") }
	r.explore(p, fn, h, Opts{Numeric: true, ImplicitPanics: id == "C20" || id == "C18"}, func(s *Sim, st *State) {
		for i, q := range fn.Params {
			if isBytesType(q.Type()) {
				m.info = s.Params[i] // the last one
			}
		}
	})
	switch id {
	case "C18":
		r.Need(success, 1)
		r.Need(failure, 1)
	case "C20":
		r.Need(dial, 1)
		r.Need(under, 2)
		r.Need(budget, 1)
		r.Need(closes, 1)
	case "C21":
		r.Need(hand, 1)
		r.Need(prefix, 1)
	}
}

func isSha(x *Term) bool { return x.op == "app" && shortAux(x.aux) == "crypto/sha1.Sum" }

func unhex(t *Term) *Term {
	for (t.op == "app" && shortAux(t.aux) == "encoding/hex.EncodeToString" || t.op == "app" && strings.HasPrefix(t.aux, "fmt:x")) && len(t.sub) > 0 {
		t = t.sub[0]
	}
	for t.op == "copy" || t.op == "alias" {
		t = t.sub[0]
	}
	return t
}

// shaOf: what was hashed.
func shaOf(a, b *Term) *Term {
	for _, x := range []*Term{unhex(a), unhex(b)} {
		if isSha(x) {
			return x.sub[0]
		}
	}
	return nil
}

// readNumber: binary.Read into a variable.
func (m *peerMon) readNumber(s *Sim, st *State, c *CallEv) {
	v := c.Args[2]
	if v.op != "iface" || v.sub[0].typ == nil {
		return
	}
	pt, ok := v.sub[0].typ.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	if b, ok := pt.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint32 {
		return
	}
	x := s.load(st, v.sub[0], pt.Elem())
	st.L["prelen"] = []*Term{x}
}

func isHex(t *Term) bool {
	return t.any(func(x *Term) bool {
		return (x.op == "app" || x.op == "res") && strings.Contains(x.aux, "hex.EncodeToString")
	})
}

// budgetCheck: the end of the time budget is looked at without blocking.
func (m *peerMon) budgetCheck(s *Sim, st *State, call *Term) {
	if call == nil {
		return
	}
	if st.F["iter"] > 0 {
		for _, n := range st.L["newtimer"] {
			if n == call || n.any(func(x *Term) bool { return x == call }) {
				return // started anew in every iteration
			}
		}
	}
	for _, k := range stackLoops(m.p, st) {
		renewed := false // in every iteration of this loop
		for _, n := range st.L["looptimer:"+k] {
			renewed = renewed || n == call || n.any(func(x *Term) bool { return x == call })
		}
		if !renewed {
			st.F["ck:"+k] = 1
		}
	}
}

// clockExpired: the condition says on this path that the budget is used up.
func (m *peerMon) clockExpired(s *Sim, st *State, c *Term) bool {
	v, k := s.truth(st, c)
	if !k {
		return false
	}
	neg := false
	for c.op == "not" {
		c = c.sub[0]
		neg = !neg
	}
	if neg {
		v = !v
	}
	isNow := func(t *Term) bool {
		return t.any(func(x *Term) bool {
			return (x.op == "res" || x.op == "app") && strings.HasSuffix(shortAux(x.aux), "time.Now")
		})
	}
	n := shortAux(c.aux)
	switch {
	case strings.HasSuffix(n, "(time.Time).After") && len(c.sub) == 2:
		return v == (isNow(c.sub[0]) && !isAdd(c.sub[0]))
	case strings.HasSuffix(n, "(time.Time).Before") && len(c.sub) == 2:
		return v == (isNow(c.sub[1]) && !isAdd(c.sub[1]))
	}
	since := func(t *Term) bool {
		return t.any(func(x *Term) bool {
			return (x.op == "res" || x.op == "app") && (strings.HasSuffix(shortAux(x.aux), "time.Since") || strings.HasSuffix(shortAux(x.aux), "(time.Time).Sub"))
		})
	}
	if (c.op == "lt" || c.op == "le") && len(c.sub) == 2 {
		if since(c.sub[1]) && !since(c.sub[0]) {
			return v // budget < elapsed
		}
		if since(c.sub[0]) && !since(c.sub[1]) {
			return !v
		}
	}
	return false
}

func isAdd(t *Term) bool {
	return t.any(func(x *Term) bool {
		return (x.op == "res" || x.op == "app") && strings.HasSuffix(shortAux(x.aux), "(time.Time).Add")
	})
}

// framing follows what is read: 0 handshake, 1 before a prefix, 2 after a prefix, 3 after a body.
func (m *peerMon) framing(s *Sim, st *State, c *CallEv, buf *Term, full, read bool, hand, prefix, exact, limit string) {
	p := m.p
	where := p.InstrPos(c.Instr)
	if c.Name == "encoding/binary.Read" && st.F["phase"] != 2 {
		if c.Args[1].op == "iface" && strings.Contains(c.Args[1].aux, "littleEndian") {
			m.bad("C21", "the prefix is big-endian", "prefix", where, "the length prefix is read in little-endian order", st)
		}
		m.ob("C21", prefix, p.site(c.Instr, "read"))
		st.F["phase"], st.F["rdnow"] = 2, 1
		delete(st.L, "prelen")
		return
	}
	if !read {
		m.r.Note("%s: %s is not a read whose length is known", where, c.Name)
		st.F["phase"] = 4
		return
	}
	if st.F["phase"] == 4 {
		return
	}
	n := s.lenTerm(st, buf)
	if !full {
		if len(loopsOf(c.Instr.Block())) > 0 {
			if m.id == "C21" {
				m.r.Note("%s: the bytes are read in a loop, which is not decided", where)
			}
			st.F["phase"] = 4
			return
		}
		rule := exact
		switch st.F["phase"] {
		case 0:
			rule = hand
		case 1, 3:
			rule = prefix
		}
		m.ob("C21", rule, p.site(c.Instr, "read"))
		m.bad("C21", rule, p.site(c.Instr, "read"), where, "a read that may return fewer bytes than asked for is taken for the whole", st)
	}
	st.F["rdnow"] = 1
	for _, e := range st.L["hserr"] {
		if s.errState(st, e) != 1 {
			m.bad("C21", hand, "error", where, "the stream is read on although reading the handshake may have failed", st)
		}
	}
	if ph := st.F["phase"]; ph == 1 || ph == 3 {
		delete(st.L, "hserr")
	}
	v, isConst := n.intVal()
	if !isConst {
		if lo := s.bound(st, n, s.tt.Int(0)); lo < 1<<40 && s.entailsLe(st, s.tt.Int(lo), n, 0) {
			v, isConst = lo, true
		}
	}
	switch st.F["phase"] {
	case 0:
		m.ob("C21", hand, p.site(c.Instr, "read"))
		got := int64(0)
		if l := st.L["hs"]; len(l) > 0 {
			got, _ = l[0].intVal()
		}
		if !isConst || got+v > 68 {
			m.bad("C21", hand, p.site(c.Instr, "read"), where, "the handshake is not read with its 68 bytes", st)
			st.F["phase"] = 1
			return
		}
		got += v
		st.L["hs"] = []*Term{s.tt.Int(got)}
		if got == 68 {
			st.F["phase"] = 1
			delete(st.L, "hs")
		}
	case 1, 3:
		m.ob("C21", prefix, p.site(c.Instr, "read"))
		if !isConst || v != 4 {
			m.bad("C21", prefix, p.site(c.Instr, "read"), where, "the length prefix is not read with its 4 bytes", st)
		}
		st.F["phase"] = 2
		st.L["prefix"] = []*Term{buf}
		delete(st.L, "prelen")
	case 2:
		st.F["phase"] = 3
		l := st.L["prelen"]
		if e := st.L["prefixerr"]; len(e) > 0 && s.errState(st, e[0]) != 1 {
			m.bad("C21", prefix, "error", where, "the length prefix is used although reading it may have failed", st)
		}
		if b := st.L["prefix"]; len(l) == 0 && len(b) > 0 && n.any(func(x *Term) bool {
			return x.op == "app" && strings.HasPrefix(shortAux(x.aux), "(encoding/binary.") && x.has(baseObj(b[0]))
		}) {
			m.bad("C21", exact, p.site(c.Instr, "read"), where, "the length of the message is not computed from the four bytes of the prefix", st)
			return
		}
		if len(l) == 0 {
			if m.id == "C21" {
				m.r.Note("%s: how the length is computed from the prefix is not recognised", where)
			}
			return
		}
		m.ob("C21", exact, p.site(c.Instr, "read"))
		if !s.entailsLe(st, n, l[0], 0) || !s.entailsLe(st, l[0], n, 0) {
			m.bad("C21", exact, p.site(c.Instr, "read"), where, "the number of bytes read for a message is not the number its prefix announces", st)
		}
		m.ob("C21", limit, p.site(c.Instr, "read"))
		if !s.entailsLe(st, l[0], s.tt.Int(1<<24), 0) {
			m.bad("C21", limit, p.site(c.Instr, "read"), where, "a message is read although its length was not checked against a limit", st)
		}
	}
}
