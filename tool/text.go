package main

import "go/types"

// text is the content of a byte sequence like content, and also puts a buffer
// together from what was written into its parts, and takes parts of a text.
func (s *Sim) text(st *State, t *Term) *Term {
	for t.op == "copy" || t.op == "alias" {
		t = t.sub[0]
	}
	switch t.op {
	case "append":
		return s.concat(s.text(st, t.sub[0]), s.text(st, t.sub[1]))
	case "slice":
		c := s.text(st, t.sub[0])
		if z, ok := t.sub[1].intVal(); c != t.sub[0] && ok && z == 0 && (t.sub[2].op == "none" || s.sameNum(st, t.sub[2], s.lenTerm(st, t.sub[0]))) {
			return c
		}
		if x := s.cut(st, c, t.sub[1], t.sub[2]); x != nil {
			return x
		}
	case "obj":
		if c := s.content(st, t); c != t {
			return c
		}
		if c := s.assemble(st, t); c != nil {
			return c
		}
	}
	return s.content(st, t)
}

func (s *Sim) sameNum(st *State, a, b *Term) bool {
	return a == b || s.entailsLe(st, a, b, 0) && s.entailsLe(st, b, a, 0)
}

// cut is the part of a text between two offsets that lie between its pieces.
func (s *Sim) cut(st *State, c, lo, hi *Term) *Term {
	switch c.op {
	case "concat", "const", "be", "le", "byte":
	default:
		return nil
	}
	parts := []*Term{c}
	if c.op == "concat" {
		parts = c.sub
	}
	var out []*Term
	pos := s.tt.Int(0)
	in := false
	if z, ok := lo.intVal(); ok && z == 0 || lo.op == "none" {
		in = true
	}
	add := func(x *Term) {
		n := s.add(pos, s.lenTerm(st, x))
		if in {
			out = append(out, x)
		}
		pos = n
	}
	done := func() bool { return in && hi.op != "none" && s.sameNum(st, pos, hi) }
	for _, x := range parts {
		if done() {
			return s.concat(out...)
		}
		if !in && s.sameNum(st, pos, lo) {
			in = true
		}
		// a constant may be divided
		if v, ok := x.strVal(); ok && len(v) > 1 {
			for i := range []byte(v) {
				if done() {
					return s.concat(out...)
				}
				if !in && s.sameNum(st, pos, lo) {
					in = true
				}
				add(s.tt.Str(v[i : i+1]))
			}
			continue
		}
		add(x)
	}
	if !in && s.sameNum(st, pos, lo) {
		in = true
	}
	if in && (hi.op == "none" || done()) {
		return s.concat(out...)
	}
	return nil
}

// assemble puts a buffer together from the parts written into it one after the other.
func (s *Sim) assemble(st *State, o *Term) *Term {
	type part struct{ lo, val *Term }
	var ps []part
	for k, v := range st.heap {
		if len(k.sub) == 0 || k.sub[0] != o {
			continue
		}
		switch k.op {
		case "indexaddr":
			ps = append(ps, part{k.sub[1], s.byteTerm(v)})
		case "attr:region":
			ps = append(ps, part{k.sub[1], v})
		case "attr:content":
			return nil
		}
	}
	if len(ps) == 0 || len(ps) > 64 {
		return nil
	}
	pos := s.tt.Int(0)
	var out []*Term
	used := 0
	for {
		var at *part
		for i := range ps {
			if s.sameNum(st, ps[i].lo, pos) {
				if n := s.lenTerm(st, ps[i].val); s.entailsLe(st, n, s.tt.Int(0), 0) {
					continue
				}
				if at != nil {
					return nil
				}
				at = &ps[i]
			}
		}
		if at == nil {
			// a byte of a new buffer that nothing was written to
			p, ok := pos.intVal()
			n, ok2 := s.lenTerm(st, o).intVal()
			_, dirty := st.heap[s.dirtyMark(o)]
			if !ok || !ok2 || p >= n || n > 64 || dirty || !s.isFresh(st, o) {
				break
			}
			for i := range ps {
				lo, ok := ps[i].lo.intVal()
				w, ok2 := s.lenTerm(st, ps[i].val).intVal()
				if !ok || !ok2 || lo < p && p < lo+w {
					p = -1
					break
				}
			}
			if p < 0 {
				break
			}
			out = append(out, s.tt.Str("\x00"))
			pos = s.tt.Int(p + 1)
			continue
		}
		out = append(out, at.val)
		pos = s.add(pos, s.lenTerm(st, at.val))
		if used++; used > len(ps) {
			return nil
		}
	}
	if s.sameNum(st, pos, s.lenTerm(st, o)) {
		return s.concat(out...)
	}
	if used > 0 {
		if len(out) == 1 {
			out = append(out, s.tt.Str(""))
		}
		return s.concat(append(out, s.tt.mk("hv", "rest of a buffer", types.Typ[types.String], o))...)
	}
	return nil
}
