package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed symbolic value (a value number). Equal terms denote equal values.
type Term struct {
	id     int
	op     string
	aux    string
	fn     *ssa.Function // op "fn" and "closure"
	cval   constant.Value
	sub    []*Term
	typ    types.Type
	size   int
	leaves []*Term // instance leaves (things with identity: calls, allocations, loop values)
}

type TermTable struct {
	tab  map[string]*Term
	next int
}

func NewTermTable() *TermTable { return &TermTable{tab: map[string]*Term{}} }

// instance reports whether a term names a run-time instance created at a program point.
func instanceOp(op string) bool {
	switch op {
	case "obj", "res", "phi", "top", "stale", "hv", "recv", "range", "param", "free":
		return true
	}
	return false
}

func (tt *TermTable) mk(op, aux string, typ types.Type, sub ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, s := range sub {
		fmt.Fprintf(&sb, "|%d", s.id)
	}
	k := sb.String()
	if t, ok := tt.tab[k]; ok {
		if t.typ == nil {
			t.typ = typ
		}
		return t
	}
	t := &Term{id: tt.next, op: op, aux: aux, typ: typ, sub: append([]*Term(nil), sub...), size: 1}
	tt.next++
	set := map[*Term]bool{}
	for _, s := range sub {
		t.size += s.size
		if op == "stale" { // a stale name is opaque
			continue
		}
		for _, l := range s.leaves {
			set[l] = true
		}
	}
	if instanceOp(op) {
		set[t] = true
	}
	for l := range set {
		t.leaves = append(t.leaves, l)
	}
	sort.Slice(t.leaves, func(i, j int) bool { return t.leaves[i].id < t.leaves[j].id })
	tt.tab[k] = t
	return t
}

func (tt *TermTable) Const(c constant.Value, typ types.Type) *Term {
	if c == nil {
		return tt.Nil(typ)
	}
	kind := "n"
	switch c.Kind() {
	case constant.Bool:
		kind = "b"
	case constant.String:
		kind = "s"
	case constant.Float:
		if i := constant.ToInt(c); i.Kind() == constant.Int {
			c = i
		} else {
			kind = "f"
		}
	}
	t := tt.mk("const", kind+c.ExactString(), typ)
	t.cval = c
	return t
}

func (tt *TermTable) Int(i int64) *Term {
	return tt.Const(constant.MakeInt64(i), types.Typ[types.Int])
}
func (tt *TermTable) Bool(b bool) *Term {
	return tt.Const(constant.MakeBool(b), types.Typ[types.Bool])
}
func (tt *TermTable) Str(s string) *Term {
	return tt.Const(constant.MakeString(s), types.Typ[types.String])
}
func (tt *TermTable) Nil(typ types.Type) *Term { return tt.mk("nil", "", nil) }
func (tt *TermTable) Fn(f *ssa.Function) *Term {
	t := tt.mk("fn", f.String()+fmt.Sprintf("@%p", f), f.Type())
	t.fn = f
	return t
}

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) isNil() bool   { return t.op == "nil" }
func (t *Term) intVal() (int64, bool) {
	if t.op == "const" && t.cval.Kind() == constant.Int {
		return constant.Int64Val(t.cval)
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == "const" && t.cval.Kind() == constant.String {
		return constant.StringVal(t.cval), true
	}
	return "", false
}
func (t *Term) boolVal() (bool, bool) {
	if t.op == "const" && t.cval.Kind() == constant.Bool {
		return constant.BoolVal(t.cval), true
	}
	return false, false
}

// has reports whether x occurs in t.
func (t *Term) has(x *Term) bool {
	if t == x {
		return true
	}
	for _, s := range t.sub {
		if s.has(x) {
			return true
		}
	}
	return false
}

func (t *Term) hasLeaf(x *Term) bool {
	for _, l := range t.leaves {
		if l == x {
			return true
		}
	}
	return false
}

// any reports whether some subterm satisfies f.
func (t *Term) any(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, s := range t.sub {
		if s.any(f) {
			return true
		}
	}
	return false
}

// subst replaces from by to.
func (tt *TermTable) subst(t, from, to *Term, memo map[*Term]*Term) *Term {
	if t == from {
		return to
	}
	if len(t.sub) == 0 || !t.hasLeaf(from) {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ns := make([]*Term, len(t.sub))
	ch := false
	for i, s := range t.sub {
		ns[i] = tt.subst(s, from, to, memo)
		if ns[i] != s {
			ch = true
		}
	}
	r := t
	if ch {
		r = tt.mk(t.op, t.aux, t.typ, ns...)
		r.fn = t.fn
		r.cval = t.cval
	}
	memo[t] = r
	return r
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 8 {
		return "…"
	}
	args := func() string {
		var a []string
		for _, s := range t.sub {
			a = append(a, s.str(d+1))
		}
		return strings.Join(a, ", ")
	}
	switch t.op {
	case "const":
		return t.cval.String()
	case "nil":
		return "nil"
	case "fn":
		return "func " + t.fn.Name()
	case "closure":
		return "closure " + t.fn.Name() + "(" + args() + ")"
	case "param", "free", "global":
		return shortAux(t.aux)
	case "load":
		return "*" + args()
	case "fieldaddr":
		return "&" + t.sub[0].str(d+1) + "." + shortAux(t.aux)
	case "indexaddr":
		return "&" + t.sub[0].str(d+1) + "[" + t.sub[1].str(d+1) + "]"
	case "add", "sub", "mul", "quo", "rem", "addw", "subw", "mulw", "eq", "lt":
		if len(t.sub) == 2 {
			return "(" + t.sub[0].str(d+1) + " " + t.op + " " + t.sub[1].str(d+1) + ")"
		}
	case "obj":
		return "new" + shortAux(t.aux)
	case "phi", "top", "hv", "recv", "range":
		return t.op + "<" + shortAux(t.aux) + ">"
	case "res", "app":
		return shortAux(t.aux) + "(" + args() + ")"
	case "stale":
		return "earlier " + t.sub[0].str(d+1)
	}
	if t.aux != "" {
		return t.op + "<" + shortAux(t.aux) + ">(" + args() + ")"
	}
	return t.op + "(" + args() + ")"
}

func shortAux(s string) string {
	if i := strings.IndexByte(s, '#'); i >= 0 {
		s = s[:i]
	}
	return s
}
