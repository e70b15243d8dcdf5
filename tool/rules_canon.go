package main

import (
	"go/token"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C39", "path-sensitive simulation of every decoder: on each path that accepts a number, the text it was converted from is known to equal the text the number is written as (or the characters of the text were examined)",
		ruleCanon)
}

const canonRule = "a number is accepted only in its one form"

func ruleCanon(p *Program, r *Report) {
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg == p.Pkg("misc") && f.Signature.Recv() == nil && f.Parent() == nil && f.Object() != nil && f.Object().Exported() &&
			strings.HasPrefix(f.Name(), "Decode") && errIndex(f.Signature) >= 0 && f.Signature.Params().Len() == 1 {
			roots = append(roots, f)
		}
	}
	for _, n := range []string{"DecodeInteger", "DecodeString", "DecodeSlice", "DecodeDict"} {
		if p.Func("misc", n) == nil {
			r.Bad("anchors", n, "?", "misc."+n+" was not found", nil)
			return
		}
	}
	comp, comps := p.recursive(roots...)
	have := map[*ssa.Function]bool{}
	for _, f := range roots {
		have[f] = true
	}
	for _, c := range comps {
		for _, f := range c {
			if !have[f] {
				have[f] = true
				roots = append(roots, f)
			}
		}
	}
	for _, f := range roots {
		canonRoot(p, r, f, comp)
	}
	r.Need(canonRule, 3)
}

// numberOf: the number that is converted from a text of decimal digits.
func numberOf(c *CallEv) (text *Term, signed, ok bool) {
	switch c.Name {
	case "strconv.Atoi", "strconv.ParseInt":
		return bare(c.Args[0]), true, true
	case "strconv.ParseUint":
		return bare(c.Args[0]), false, true
	}
	return nil, false, false
}

// cutOf: what a call of a trimming function cuts off.
func cutOf(name string, args []*Term) string {
	if i := strings.Index(name, "strings.Trim"); i < 0 || len(args) != 2 {
		return ""
	}
	cut, _ := args[1].strVal()
	return cut
}

func canonRoot(p *Program, r *Report, f *ssa.Function, comp map[*ssa.Function]int) {
	name := p.FuncName(f)
	ei := errIndex(f.Signature)
	if ei < 0 {
		return
	}
	plus, nine, zero, other := false, false, false, false // what the characters of texts are compared with
	type pending struct {
		where, fn string
		text      string
		signed    bool
		path      []string
	}
	var open []pending
	seen := map[string]bool{}
	var h Hooks
	h.Compare = func(s *Sim, st *State, in ssa.Instruction, x, y *Term) {
		if _, rec := comp[in.Parent()]; rec {
			return
		}
		b, _ := in.(*ssa.BinOp)
		for k, t := range []*Term{x, y} {
			// is anything cut off?
			if w := bare(t); len(w.sub) == 2 {
				if cut := cutOf(w.aux, w.sub); cut != "" && bare(w.sub[0]) == bare([]*Term{y, x}[k]) {
					plus = plus || strings.Contains(cut, "+")
					zero = zero || strings.Contains(cut, "0")
				}
			}
		}
		for _, t := range []*Term{x, y} {
			v, ok := t.intVal()
			if !ok || b == nil {
				continue
			}
			switch v {
			case '+':
				plus = true
			case '9':
				nine = true
			case '0':
				zero = zero || b.Op == token.EQL || b.Op == token.NEQ
			case '1':
				zero = zero || b.Op == token.LSS || b.Op == token.GEQ
			}
		}
	}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		if c.Fn != nil {
			if _, rec := comp[c.Fn]; rec && c.Fn != f {
				return &Verdict{Opaque: true}
			}
			return nil
		}
		if _, _, ok := numberOf(c); ok || strings.HasPrefix(c.Name, "strconv.") || strings.HasPrefix(c.Name, "builtin:") {
			return nil
		}
		if cutOf(c.Name, c.Args) != "" {
			return nil // seen in the conditions when it is compared
		}
		for _, a := range c.Args {
			if a.typ != nil && (isStringType(a.typ) || isBytesType(a.typ)) && !strings.HasPrefix(c.Name, "strings.Split") && !strings.HasPrefix(c.Name, "strings.Index") && !strings.HasPrefix(c.Name, "errors.") && !strings.HasPrefix(c.Name, "fmt.") {
				other = true // a library function that may examine the text
			}
		}
		return nil
	}
	h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
		text, signed, ok := numberOf(c)
		if !ok || len(res) == 0 {
			return
		}
		sg := s.tt.Bool(signed)
		st.AddL("numbers", s.tt.mk("tuple", p.InstrPos(c.Instr)+"\x00"+p.FuncName(c.Frame.fn), nil, res[0], text, sg))
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		if ei >= len(res) || s.errState(st, res[ei]) == 2 {
			return
		}
		for _, t := range st.L["numbers"] {
			num, text := t.sub[0], t.sub[1]
			signed, _ := t.sub[2].boolVal()
			i := strings.IndexByte(t.aux, 0)
			where, fn := t.aux[:i], t.aux[i+1:]
			r.Ob(canonRule, name+" "+fn)
			same := false
			for c, v := range st.facts {
				if c.op != "eq" || !v {
					continue
				}
				for k := range c.sub {
					w := bare(c.sub[k])
					// a certain text that is in the form
					if z, ok := w.strVal(); ok && bare(c.sub[1-k]) == text {
						if n, err := strconv.Atoi(z); err == nil && strconv.Itoa(n) == z {
							same = true
						}
					}
					if w.op == "app" && (w.aux == "strconv.Itoa" || w.aux == "strconv.FormatInt" || w.aux == "strconv.FormatUint") && bare(w.sub[0]) == bare(num) {
						if z := bare(c.sub[1-k]); z == text {
							same = true
						}
					}
				}
			}
			if !same {
				// as long as the text it is written as
				it := s.tt.mk("app", "strconv.Itoa", text.typ, num)
				a, b := s.lenTerm(st, it), s.lenTerm(st, text)
				same = s.entailsLe(st, a, b, 0) && s.entailsLe(st, b, a, 0)
			}
			if same || seen[where] {
				continue
			}
			seen[where] = true
			open = append(open, pending{where, fn, text.String(), signed, st.path(12)})
		}
	}
	r.explore(p, f, h, Opts{Numeric: true, InlineCodec: true}, nil)
	for _, o := range open {
		switch {
		case other:
			r.Note("%s: the form of the number is examined in a way that is not followed", o.where)
		case o.signed && !plus && !nine:
			r.Bad(canonRule, name+" "+o.fn, o.where, "a number is accepted that is written with a plus sign: "+short(o.text, 60)+" is converted without being compared with the form the number is written in", o.path)
		case !zero:
			r.Bad(canonRule, name+" "+o.fn, o.where, "a number is accepted that is written with leading zeros: "+short(o.text, 60)+" is converted without being compared with the form the number is written in", o.path)
		default:
			r.Note("%s: the characters of the number are examined, whether this leaves only one form is not decided", o.where)
		}
	}
}
