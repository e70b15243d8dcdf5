package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// memory

func (s *Sim) fieldAddr(base *Term, bt types.Type, idx int) *Term {
	str := derefStruct(bt)
	name := str.Field(idx).Name()
	return s.tt.mk("fieldaddr", name+"#"+derefType(bt).String(), types.NewPointer(str.Field(idx).Type()), base)
}

// baseObj is the outermost object of an address.
func baseObj(a *Term) *Term {
	for a.op == "fieldaddr" || a.op == "indexaddr" || a.op == "slice" || a.op == "alias" {
		a = a.sub[0]
	}
	return a
}

func (s *Sim) freshMark(o *Term) *Term { return s.tt.mk("attr:fresh", "", nil, o) }

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func (s *Sim) load(st *State, addr *Term, typ types.Type) *Term {
	if v, ok := st.heap[addr]; ok {
		if v.op == "zeroarray" || arrLen(typ) > 0 {
			if w := s.touchedArray(st, addr, v, typ); w != nil {
				return w
			}
		}
		return v
	}
	if addr.op == "structaddr" {
		return addr.sub[0]
	}
	// field of a struct that was stored as a whole
	if addr.op == "fieldaddr" {
		if v, ok := st.heap[addr.sub[0]]; ok {
			return s.field(v, fieldIndex(addr), typ)
		}
	}
	if addr.op == "indexaddr" {
		base := addr.sub[0]
		if base.op == "list" {
			if k, ok := addr.sub[1].intVal(); ok && int(k) < len(base.sub) {
				return base.sub[k]
			}
		}
		if v, ok := st.heap[base]; ok && v.op != "zeroarray" {
			return s.tt.mk("index", "", typ, v, addr.sub[1])
		}
	}
	if str, ok := typ.Underlying().(*types.Struct); ok {
		// gather the fields
		any := false
		for k := range st.heap {
			if k.op == "fieldaddr" && k.sub[0] == addr {
				any = true
			}
		}
		if any || s.isFresh(st, addr) {
			var subs []*Term
			for i := 0; i < str.NumFields(); i++ {
				fa := s.fieldAddr(addr, types.NewPointer(typ), i)
				subs = append(subs, s.load(st, fa, str.Field(i).Type()))
			}
			return s.tt.mk("struct", typ.String(), typ, subs...)
		}
	}
	if addr.op == "indexaddr" {
		if c, ok := st.heap[s.tt.mk("attr:content", "", nil, addr.sub[0])]; ok {
			return s.indexTerm(st, c, addr.sub[1], typ)
		}
	}
	if addr.op == "indexaddr" {
		// an element that may have been written under another index
		var ids []int
		for k := range st.heap {
			if k.op == "indexaddr" && k.sub[0] == addr.sub[0] && s.mayAlias(k, addr) {
				ids = append(ids, k.id, st.heap[k].id)
			}
		}
		if len(ids) > 0 {
			sort.Ints(ids)
			return s.tt.mk("hv", fmt.Sprintf("elem#%v", ids), typ, addr)
		}
	}
	if _, ok := typ.Underlying().(*types.Array); ok {
		if w := s.touchedArray(st, addr, nil, typ); w != nil {
			return w
		}
	}
	if s.isFresh(st, addr) && !s.elemDirty(st, addr) {
		return s.zero(typ)
	}
	if addr.op == "indexaddr" {
		return s.indexTerm(st, addr.sub[0], addr.sub[1], typ)
	}
	if addr.op == "global" {
		if g := s.globalOf(addr); g != nil {
			gi := s.p.globals[g]
			if gi != nil && len(gi.initStores) == 1 && len(gi.otherStore) == 0 && !gi.escapes {
				if c, ok := gi.initStores[0].Val.(*ssa.Const); ok && c.Value != nil {
					return s.tt.Const(c.Value, c.Type())
				}
			}
		}
	}
	return s.tt.mk("load", "", typ, addr)
}

// touchedArray: the value of an array that was written through a slice or by element, nil when it was not.
func (s *Sim) touchedArray(st *State, addr, base *Term, typ types.Type) *Term {
	var ids []int
	elems, known := map[int64]*Term{}, true
	for k, v := range st.heap {
		switch {
		case k.op == "attr:content" && k.sub[0] == addr:
			return s.tt.mk("copy", "array", typ, s.overlay(st, addr, v))
		case k.op == "indexaddr" && k.sub[0] == addr:
			ids = append(ids, k.id, v.id)
			i, ok := k.sub[1].intVal()
			if ok {
				elems[i] = v
			}
			known = known && ok
		case k.op == "attr:region" && k.sub[0] == addr, k.op == "attr:dirty" && k.sub[0] == addr:
			ids = append(ids, k.id, v.id)
			known = false
		}
	}
	if len(ids) == 0 {
		return nil
	}
	n := arrLen(typ)
	at, isArr := typ.Underlying().(*types.Array)
	if known && isArr && n > 0 && n <= 64 {
		ps := make([]*Term, n)
		for i := range ps {
			switch {
			case elems[int64(i)] != nil:
				ps[i] = elems[int64(i)]
			case base != nil && base.op == "zeroarray" || base == nil && s.isFresh(st, addr):
				ps[i] = s.zero(at.Elem())
			case base != nil && base.op == "copy" && base.sub[0].op == "list" && len(base.sub[0].sub) == len(ps):
				ps[i] = base.sub[0].sub[i]
			default:
				known = false
			}
		}
		if known {
			return s.tt.mk("copy", "array", typ, s.tt.mk("list", "", types.NewSlice(at.Elem()), ps...))
		}
	}
	if base != nil {
		ids = append(ids, base.id)
	}
	sort.Ints(ids)
	return s.tt.mk("hv", fmt.Sprintf("array#%v", ids), typ, addr)
}

// indexTerm canonicalises an element of a byte sequence.
func (s *Sim) indexTerm(st *State, x, i *Term, typ types.Type) *Term {
	for {
		switch x.op {
		case "copy", "alias":
			x = x.sub[0]
			continue
		case "slice":
			if isStringTerm(x.sub[0]) || x.sub[0].op == "copy" || x.sub[0].op == "alias" || !isArrPtr(x.sub[0]) {
				i = s.add(x.sub[1], i)
				x = x.sub[0]
				continue
			}
		}
		break
	}
	if v, ok := x.strVal(); ok {
		if k, ok := i.intVal(); ok && k >= 0 && int(k) < len(v) {
			return s.tt.Const(constant.MakeInt64(int64(v[k])), types.Typ[types.Uint8])
		}
	}
	return s.tt.mk("index", "", typ, x, i)
}

func (s *Sim) globalOf(addr *Term) *ssa.Global {
	for g := range s.p.globals {
		if s.globalAddr(g) == addr {
			return g
		}
	}
	return nil
}

func (s *Sim) isFresh(st *State, addr *Term) bool {
	b := baseObj(addr)
	if b.op != "obj" {
		return false
	}
	_, ok := st.heap[s.freshMark(b)]
	return ok
}

func (s *Sim) dirtyMark(o *Term) *Term { return s.tt.mk("attr:dirty", "", nil, o) }

// elemDirty: elements of the array were written that are no longer kept track of.
func (s *Sim) elemDirty(st *State, addr *Term) bool {
	if _, ok := st.heap[s.dirtyMark(baseObj(addr))]; !ok {
		return false
	}
	return throughElem(addr)
}

func throughElem(a *Term) bool {
	for a.op == "fieldaddr" || a.op == "indexaddr" {
		if a.op == "indexaddr" {
			return true
		}
		a = a.sub[0]
	}
	return false
}

// dropped accounts for a location that is no longer kept track of.
func (s *Sim) dropped(st *State, k *Term) {
	if !throughElem(k) {
		return
	}
	b := baseObj(k)
	if _, ok := st.heap[s.freshMark(b)]; ok {
		st.heap[s.dirtyMark(b)] = s.tt.Bool(true)
	}
}

func fieldIndex(addr *Term) int {
	// aux is name#type ; the index is found from the struct type of the base
	name := shortAux(addr.aux)
	var t types.Type
	if addr.sub[0].typ != nil {
		t = addr.sub[0].typ
	}
	if t != nil {
		if st := derefStruct(t); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return i
				}
			}
		}
	}
	return -1
}

func (s *Sim) field(v *Term, i int, typ types.Type) *Term {
	if v.op == "struct" && i >= 0 && i < len(v.sub) {
		return v.sub[i]
	}
	if v.op == "load" && i >= 0 && v.typ != nil {
		return s.tt.mk("load", "", typ, s.fieldAddr(v.sub[0], types.NewPointer(v.typ), i))
	}
	return s.tt.mk("field", fmt.Sprint(i), typ, v)
}

func (s *Sim) store(st *State, addr, val *Term, typ types.Type) {
	if val.op == "struct" {
		if str, ok := typ.Underlying().(*types.Struct); ok {
			s.killAlias(st, addr)
			delete(st.heap, addr)
			for i := 0; i < str.NumFields() && i < len(val.sub); i++ {
				s.store(st, s.fieldAddr(addr, types.NewPointer(typ), i), val.sub[i], str.Field(i).Type())
			}
			return
		}
	}
	s.killAlias(st, addr)
	// parts of the old value
	for k := range st.heap {
		if k != addr && (k.op == "fieldaddr" || k.op == "indexaddr") && under(k, addr) {
			delete(st.heap, k)
		}
	}
	st.heap[addr] = val
}

func under(k, addr *Term) bool {
	for k.op == "fieldaddr" || k.op == "indexaddr" {
		k = k.sub[0]
		if k == addr {
			return true
		}
	}
	return false
}

// killAlias forgets the contents of addresses that may be the one written.
func (s *Sim) killAlias(st *State, addr *Term) {
	for k := range st.heap {
		if k == addr || k.op != addr.op {
			continue
		}
		if (k.op == "fieldaddr" && k.aux == addr.aux || k.op == "indexaddr") && s.mayAlias(k, addr) {
			st.heap[k] = s.tt.mk("hv", fmt.Sprintf("alias#%d", k.id), st.heap[k].typ)
		}
	}
}

func (s *Sim) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	x, y := baseObj(a), baseObj(b)
	if x != y {
		if x.op == "obj" && y.op == "obj" {
			return false
		}
		if x.op == "obj" && (y.op == "param" || y.op == "global" || y.op == "free" || y.op == "load") || y.op == "obj" && (x.op == "param" || x.op == "global" || x.op == "free" || x.op == "load") {
			return false
		}
		if x.op == "global" && y.op == "global" {
			return false
		}
	}
	if a.op == "indexaddr" && b.op == "indexaddr" && a.sub[0] == b.sub[0] {
		i, ok1 := a.sub[1].intVal()
		j, ok2 := b.sub[1].intVal()
		if ok1 && ok2 {
			return i == j
		}
		return true
	}
	if a.op == "indexaddr" {
		// different element types never alias
		ea, eb := elemType(a.typ), elemType(b.typ)
		if ea != nil && eb != nil && !types.Identical(ea, eb) {
			return false
		}
	}
	return true
}

// loads calls f for every memory read the state's values mention.
func (s *Sim) loads(st *State, f func(t *Term)) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "load" || t.op == "lookup" || t.op == "haskey" || t.op == "index" {
			f(t)
		}
		for _, x := range t.sub {
			walk(x)
		}
	}
	for _, fr := range st.frames {
		for _, v := range fr.env {
			walk(v)
		}
		walk(fr.closure)
		for _, d := range fr.defers {
			walk(d.fnT)
			for _, a := range d.args {
				walk(a)
			}
		}
	}
	for k, v := range st.heap {
		walk(k)
		walk(v)
	}
	for k := range st.facts {
		walk(k)
	}
	for v := range st.num.vars {
		walk(v)
	}
	for _, l := range st.L {
		for _, t := range l {
			walk(t)
		}
	}
}

// havoc forgets the contents of memory whose address satisfies match.
func (s *Sim) havocIf(st *State, site string, match func(addr *Term) bool) {
	hit := map[*Term]*Term{}
	maps := map[*Term]bool{}
	for k, v := range st.heap {
		if strings.HasPrefix(k.op, "attr:") {
			continue
		}
		if match(k) {
			hit[k] = v
		}
	}
	s.loads(st, func(t *Term) {
		switch t.op {
		case "load":
			if _, ok := hit[t.sub[0]]; !ok {
				if _, ok := st.heap[t.sub[0]]; !ok && match(t.sub[0]) {
					hit[t.sub[0]] = t
				}
			}
		case "lookup", "haskey":
			if match(s.mapElem(t.sub[0], t.sub[1])) {
				maps[t.sub[0]] = true
			}
		}
	})
	for k, v := range hit {
		if k.op == "mapelem" || k.op == "mapabsent" {
			delete(st.heap, k)
			maps[k.sub[0]] = true
			continue
		}
		h := s.tt.mk("hv", fmt.Sprintf("modified#%s/%d", site, k.id), v.typ)
		st.heap[k] = s.fresh(st, h)
	}
	for m := range maps {
		s.bumpMap(st, m, site)
	}
}

func (s *Sim) bumpMap(st *State, m *Term, site string) {
	delete(st.heap, s.tt.mk("attr:exact", "", nil, m))
	st.heap[s.tt.mk("attr:ver", "", nil, m)] = s.fresh(st, s.tt.mk("hv", fmt.Sprintf("map#%s/%d", site, m.id), nil))
}

func (s *Sim) havoc(st *State, mods map[string]bool, site string) {
	if len(mods) == 0 {
		return
	}
	s.havocIf(st, site, func(k *Term) bool { return s.modMatches(k, mods) })
}

// havocBuf: somebody else wrote into the memory behind a slice or pointer.
func (s *Sim) havocBuf(st *State, t *Term, site string) {
	b := baseObj(t)
	for k := range st.heap {
		if (k.op == "indexaddr" || k.op == "fieldaddr") && (under(k, b) || baseObj(k) == b) {
			delete(st.heap, k)
		}
		if k.op == "attr:region" && k.sub[0] == b || k.op == "attr:buf" && baseObj(k.sub[0]) == b {
			delete(st.heap, k)
		}
	}
	delete(st.heap, s.freshMark(b))
	delete(st.heap, b)
	if t.typ != nil {
		if _, ok := t.typ.Underlying().(*types.Slice); ok {
			n := s.tt.mk("hv", "written#"+site, types.Typ[types.String])
			st.heap[s.tt.mk("attr:content", "", nil, b)] = s.fresh(st, n)
			return
		}
	}
	if derefStruct2(t) != nil {
		str := derefStruct(t.typ)
		for i := 0; i < str.NumFields(); i++ {
			fa := s.fieldAddr(t, t.typ, i)
			st.heap[fa] = s.fresh(st, s.tt.mk("hv", fmt.Sprintf("%s#%s", str.Field(i).Name(), site), str.Field(i).Type()))
		}
	}
}

func derefStruct2(t *Term) *types.Struct {
	if t.typ == nil {
		return nil
	}
	if _, ok := t.typ.Underlying().(*types.Pointer); !ok {
		return nil
	}
	return derefStruct(t.typ)
}

func (s *Sim) modMatches(k *Term, mods map[string]bool) bool {
	switch k.op {
	case "fieldaddr":
		name := shortAux(k.aux)
		typ := k.aux[len(name)+1:]
		if mods["field:"+typ+"."+name] || mods["type:"+typ] {
			return true
		}
		if et := elemType(k.typ); et != nil && mods["type:"+et.String()] {
			// a store through a plain pointer to that type, only from code that takes such addresses
			return false
		}
	case "global":
		return mods["global:"+globalKey(k)]
	case "mapelem", "mapabsent":
		if k.sub[0].typ != nil && mods["map:"+k.sub[0].typ.Underlying().String()] {
			return true
		}
	}
	return false
}

func globalKey(k *Term) string { return shortAux(k.aux) }

// maps

func (s *Sim) mapElem(m, k *Term) *Term { return s.tt.mk("mapelem", "", nil, m, k) }
func (s *Sim) mapAbsent(m, k *Term) *Term {
	return s.tt.mk("mapabsent", "", nil, m, k)
}

func (s *Sim) mapUpdate(st *State, m, k, v *Term) {
	e := s.mapElem(m, k)
	// other keys of possibly the same map
	for o := range st.heap {
		if (o.op == "mapelem" || o.op == "mapabsent") && o != e && o.op != "attr" && s.mapMayAlias(o.sub[0], m) {
			if o.sub[0] == m && o.sub[1].isConst() && k.isConst() && o.sub[1] != k {
				continue
			}
			if o.sub[1] == k && o.sub[0] == m {
				continue
			}
			delete(st.heap, o)
		}
	}
	for o := range s.lookedUp(st, m) {
		s.bumpMap(st, o, fmt.Sprintf("upd%d", k.id))
	}
	delete(st.heap, s.mapAbsent(m, k))
	st.heap[e] = v
	if m.op == "obj" && !k.isConst() {
		delete(st.heap, s.tt.mk("attr:exact", "", nil, m))
	}
}

func (s *Sim) mapMayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == "obj" && b.op == "obj" {
		return false
	}
	if a.typ != nil && b.typ != nil && !types.Identical(a.typ.Underlying(), b.typ.Underlying()) {
		return false
	}
	if a.op == "obj" && (b.op == "param" || b.op == "load" || b.op == "assert") || b.op == "obj" && (a.op == "param" || a.op == "load" || a.op == "assert") {
		return false
	}
	return true
}

func (s *Sim) mapDelete(st *State, m, k *Term) {
	for o := range st.heap {
		if o.op == "mapelem" && s.mapMayAlias(o.sub[0], m) {
			if o.sub[0] == m && o.sub[1].isConst() && k.isConst() && o.sub[1] != k {
				continue
			}
			delete(st.heap, o)
		}
	}
	for o := range s.lookedUp(st, m) {
		s.bumpMap(st, o, fmt.Sprintf("del%d", k.id))
	}
	st.heap[s.mapAbsent(m, k)] = s.tt.Bool(true)
}

// lookedUp lists the maps with remembered unknown lookups that may be m.
func (s *Sim) lookedUp(st *State, m *Term) map[*Term]bool {
	out := map[*Term]bool{}
	s.loads(st, func(t *Term) {
		if (t.op == "lookup" || t.op == "haskey") && s.mapMayAlias(t.sub[0], m) {
			out[t.sub[0]] = true
		}
	})
	return out
}

// mapLookup returns value and presence.
func (s *Sim) mapLookup(st *State, m, k *Term, vt types.Type) (*Term, *Term) {
	if v, ok := st.heap[s.mapElem(m, k)]; ok {
		return v, s.tt.Bool(true)
	}
	if _, ok := st.heap[s.mapAbsent(m, k)]; ok {
		return s.zero(vt), s.tt.Bool(false)
	}
	if m.op == "obj" && k.isConst() {
		if _, ok := st.heap[s.tt.mk("attr:exact", "", nil, m)]; ok {
			return s.zero(vt), s.tt.Bool(false)
		}
	}
	if m.isNil() {
		return s.zero(vt), s.tt.Bool(false)
	}
	if v, ok := st.heap[s.tt.mk("attr:ver", "", nil, m)]; ok {
		return s.tt.mk("lookup", "", vt, m, k, v), s.tt.mk("haskey", "", types.Typ[types.Bool], m, k, v)
	}
	return s.tt.mk("lookup", "", vt, m, k), s.tt.mk("haskey", "", types.Typ[types.Bool], m, k)
}

// content is what a byte sequence consists of, as a concatenation.
func (s *Sim) content(st *State, t *Term) *Term {
	switch t.op {
	case "copy", "alias":
		return s.content(st, t.sub[0])
	case "append":
		return s.concat(s.content(st, t.sub[0]), s.content(st, t.sub[1]))
	case "list":
		var ps []*Term
		for i, e := range t.sub {
			// a literal that was written to afterwards
			if v, ok := st.heap[s.tt.mk("indexaddr", "", types.NewPointer(types.Typ[types.Uint8]), t, s.tt.Int(int64(i)))]; ok {
				e = v
			}
			ps = append(ps, s.byteTerm(e))
		}
		return s.concat(ps...)
	case "nil":
		return s.tt.Str("")
	case "obj":
		if c, ok := st.heap[s.tt.mk("attr:content", "", nil, t)]; ok {
			return s.overlay(st, t, c)
		}
		if n, ok := s.lenTerm(st, t).intVal(); ok && n == 0 {
			return s.tt.Str("")
		}
		// element-wise
		if n, ok := s.lenTerm(st, t).intVal(); ok && n <= 64 && !s.inRegions(st, t) {
			var ps []*Term
			any := false
			for i := int64(0); i < n; i++ {
				v, ok := st.heap[s.tt.mk("indexaddr", "", types.NewPointer(types.Typ[types.Uint8]), t, s.tt.Int(i))]
				if !ok {
					if _, dirty := st.heap[s.dirtyMark(t)]; !dirty && s.isFresh(st, t) {
						v = s.tt.Int(0)
					} else {
						return t
					}
				} else {
					any = true
				}
				ps = append(ps, s.byteTerm(v))
			}
			if any {
				return s.be(s.concat(ps...))
			}
		}
	case "slice":
		lo, hi := t.sub[1], t.sub[2]
		full := hi.op == "none" || hi == s.lenTerm(st, t.sub[0])
		if z, ok := lo.intVal(); ok && z == 0 && full {
			if v, ok := st.heap[t.sub[0]]; ok && isArrPtr(t.sub[0]) && v.op != "zeroarray" {
				if w := s.touchedArray(st, t.sub[0], v, elemType(t.sub[0].typ)); w != nil {
					v = w
				}
				return s.content(st, v)
			}
			return s.content(st, t.sub[0])
		}
		if z, ok := lo.intVal(); ok && z == 0 {
			if h, ok := hi.intVal(); ok && h == 0 {
				return s.tt.Str("")
			}
		}
	}
	if c, ok := st.heap[s.tt.mk("attr:content", "", nil, t)]; ok {
		return s.overlay(st, t, c)
	}
	return t
}

// inRegions: parts of the buffer were written at once.
func (s *Sim) inRegions(st *State, o *Term) bool {
	for k := range st.heap {
		if k.op == "attr:region" && k.sub[0] == o {
			return true
		}
	}
	return false
}

// overlay: the content c of object t with the elements that were stored after it was set.
func (s *Sim) overlay(st *State, t, c *Term) *Term {
	var ids []int
	known := map[int64]*Term{}
	whole, isConst := c.strVal()
	for k, v := range st.heap {
		if k.op != "indexaddr" || k.sub[0] != t {
			continue
		}
		ids = append(ids, k.id, v.id)
		i, ok := k.sub[1].intVal()
		if !ok || !isConst || i < 0 || i >= int64(len(whole)) {
			isConst = false
			continue
		}
		known[i] = v
	}
	if len(ids) == 0 {
		return c
	}
	sort.Ints(ids)
	if !isConst {
		return s.tt.mk("hv", fmt.Sprintf("content#%v", ids), types.Typ[types.String], t)
	}
	var ps []*Term
	for i := 0; i < len(whole); i++ {
		v := known[int64(i)]
		if v == nil {
			v = s.tt.Int(int64(whole[i]))
		}
		ps = append(ps, s.byteTerm(v))
	}
	return s.concat(ps...)
}

// be recognises the bytes of a big-endian number.
func (s *Sim) be(t *Term) *Term {
	if t.op == "concat" && len(t.sub) == 2 && t.sub[0].op == "byte" && t.sub[1].op == "byte" {
		hi, lo := t.sub[0].sub[0], t.sub[1].sub[0]
		strip := func(x *Term) *Term {
			for x.op == "conv" || (x.op == "bin" && x.aux == "&") {
				if x.op == "bin" {
					if v, ok := x.sub[0].intVal(); ok && v == 255 {
						x = x.sub[1]
					} else if v, ok := x.sub[1].intVal(); ok && v == 255 {
						x = x.sub[0]
					} else {
						break
					}
				} else {
					x = x.sub[0]
				}
			}
			return x
		}
		hi, lo = strip(hi), strip(lo)
		if (hi.op == "quo" || hi.op == "bin") && len(hi.sub) == 2 && strip(hi.sub[0]) == lo {
			if v, ok := hi.sub[1].intVal(); ok && (hi.op == "quo" && v == 256 || hi.aux == ">>" && v == 8) {
				return s.tt.mk("be", "2", types.Typ[types.String], lo)
			}
		}
	}
	return t
}

func (s *Sim) byteTerm(e *Term) *Term {
	if v, ok := e.intVal(); ok && v >= 0 && v < 128 {
		return s.tt.Str(string(rune(v)))
	}
	return s.tt.mk("byte", "", types.Typ[types.String], e)
}

// execution

func (s *Sim) isBack(from, to *ssa.BasicBlock) bool { return to.Dominates(from) }

func (s *Sim) isHeader(b *ssa.BasicBlock) bool {
	if v, ok := s.hdr[b]; ok {
		return v
	}
	r := false
	for _, p := range b.Preds {
		if b.Dominates(p) {
			r = true
		}
	}
	s.hdr[b] = r
	return r
}

// enter moves the top frame along an edge; false when the state was seen before.
func (s *Sim) enter(st *State, from, to *ssa.BasicBlock) bool {
	f := st.top()
	if from != nil && s.isBack(from, to) && s.h.LoopBack != nil {
		s.h.LoopBack(s, st, from, to)
	}
	if from != nil && s.isBack(from, to) {
		// what rules count stays finite over the iterations
		for k, v := range st.F {
			if v > 6 {
				st.F[k] = 6
			}
		}
		if st.dead {
			return false
		}
	}
	header := s.isHeader(to)
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	if len(phis) > 0 {
		ei := -1
		for i, p := range to.Preds {
			if p == from {
				ei = i
			}
		}
		in := make([]*Term, len(phis))
		for i, ph := range phis {
			in[i] = s.eval(st, f, ph.Edges[ei])
		}
		// phis are rebound: drop their old values
		for _, ph := range phis {
			delete(f.env, ph)
		}
		if !header {
			for i, ph := range phis {
				f.env[ph] = in[i]
			}
		} else {
			type bind struct {
				i int
				t *Term
			}
			var opaque []bind
			for i, ph := range phis {
				t := s.tt.mk("phi", s.siteID(f, ph, phiName(ph)), ph.Type())
				if !s.opaquePhi(ph, in[i], t) {
					f.env[ph] = in[i]
					continue
				}
				opaque = append(opaque, bind{i, t})
			}
			back := from != nil && s.isBack(from, to)
			for _, b := range opaque {
				if st.present(b.t) || in[b.i].hasLeaf(b.t) {
					old := s.tt.mk("stale", "", b.t.typ, b.t)
					// the earlier instance of the previous iteration is gone unless still referenced
					if st.present(old) {
						s.forget(st, old)
					}
					s.renameRaw(st, b.t, old, in)
				}
			}
			for _, b := range opaque {
				ph := phis[b.i]
				f.env[ph] = b.t
				if s.h.LoopPhi != nil {
					s.h.LoopPhi(s, st, ph, b.t, in[b.i], back)
					if st.dead {
						return false
					}
				}
				if isIntType(ph.Type()) {
					s.addEq(st, b.t, in[b.i])
				} else if hasLen(ph.Type()) {
					s.addEq(st, s.lenTerm(st, b.t), s.lenTerm(st, in[b.i]))
				}
				if isPointerLike(ph.Type()) && s.nonNil(st, in[b.i]) {
					st.facts[s.tt.mk("isnil", "", nil, b.t)] = false
				}
			}
		}
	}
	if header {
		back := from != nil && s.isBack(from, to)
		var bufs []*Term
		for k := range st.heap {
			if k.op == "attr:buf" {
				bufs = append(bufs, k)
			}
		}
		sortTerms(bufs)
		for _, k := range bufs {
			in := st.heap[k]
			t := s.tt.mk("phi", fmt.Sprintf("buffer#%p/%d/%d", to, f.ctx.id, k.id), types.Typ[types.String])
			if in == t {
				continue
			}
			if in.hasLeaf(t) || st.present(t) {
				old := s.tt.mk("stale", "", t.typ, t)
				if st.present(old) {
					s.forget(st, old)
				}
				if s.h.LoopBuf != nil {
					s.h.LoopBuf(s, st, to, k, t, in, back)
				}
				s.rename(st, t, old)
				// the key itself is not renamed away
			} else if s.h.LoopBuf != nil {
				s.h.LoopBuf(s, st, to, k, t, in, back)
			}
			st.heap[k] = t
		}
	}
	f.block = to
	f.idx = len(phis)
	return s.arrive(st, header)
}

func (s *Sim) renameRaw(st *State, from, to *Term, in []*Term) {
	memo := map[*Term]*Term{}
	for i := range in {
		in[i] = s.tt.subst(in[i], from, to, memo)
	}
	s.rename(st, from, to)
}

func phiName(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return ph.Name()
}

func hasLen(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// opaquePhi: loop values that can take unboundedly many values become symbols.
func (s *Sim) opaquePhi(ph *ssa.Phi, in, t *Term) bool {
	switch u := ph.Type().Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return !in.isConst() && in.size > 40
		}
		return true
	case *types.Slice, *types.Struct, *types.Array:
		return true
	}
	return in.size > 40
}

// arrive prunes, checks whether the state is new, and merges numeric bounds.
func (s *Sim) arrive(st *State, header bool) bool {
	f := st.top()
	s.prune(f)
	s.gc(st)
	if header {
		s.widenHeap(st)
	}
	key := s.keyOf(st)
	v := s.visited[key]
	if v == nil {
		s.States++
		s.visited[key] = &visit{num: st.num.clone(), n: 1}
		return true
	}
	v.n++
	ch := v.num.join(st.num, header && v.n > 3 || v.n > 12)
	if !ch {
		return false
	}
	st.num = v.num.clone()
	s.States++
	return true
}

// widenHeap turns store contents that keep changing around a loop into symbols.
func (s *Sim) widenHeap(st *State) {
	f := st.top()
	var sb strings.Builder
	for _, fr := range st.frames {
		fmt.Fprintf(&sb, "%d.%d.%d;", fr.ctx.id, fr.block.Index, fr.idx)
	}
	for _, fr := range st.frames {
		var ks []string
		for v, t := range fr.env {
			ks = append(ks, fmt.Sprintf("%s=%d", v.Name(), t.id))
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, " "))
	}
	sb.WriteString(monKey(st))
	k := sb.String()
	h := s.headers[k]
	if h == nil {
		h = &headInfo{}
		s.headers[k] = h
	}
	cur := heapKey(st.heap)
	for _, o := range h.heaps {
		if heapKey(o) == cur {
			return
		}
	}
	h.n++
	if h.n > 5 {
		last := h.heaps[len(h.heaps)-1]
		for a, v := range st.heap {
			if o, ok := last[a]; !ok || o != v {
				if strings.HasPrefix(a.op, "attr:fresh") || strings.HasPrefix(a.op, "attr:exact") {
					continue
				}
				if v.op == "hv" || v.isConst() && !ok {
					continue
				}
				st.heap[a] = s.tt.mk("hv", fmt.Sprintf("loop#%p/%d/%d", f.block, f.ctx.id, a.id), v.typ)
			}
		}
		s.gc(st)
	}
	cp := make(map[*Term]*Term, len(st.heap))
	for a, v := range st.heap {
		cp[a] = v
	}
	h.heaps = append(h.heaps, cp)
}

func (s *Sim) runState(st *State) {
	for !st.dead {
		f := st.top()
		if f.idx >= len(f.block.Instrs) {
			return
		}
		in := f.block.Instrs[f.idx]
		s.Steps++
		if in.Pos().IsValid() {
			st.note(s.p.Pos(in.Pos()))
		}
		if s.h.Step != nil {
			s.h.Step(s, st, in)
			if st.dead {
				return
			}
		}
		switch in := in.(type) {
		case *ssa.Jump:
			if !s.enter(st, f.block, f.block.Succs[0]) {
				return
			}
		case *ssa.If:
			c := s.eval(st, f, in.Cond)
			if s.h.Cond != nil {
				s.h.Cond(s, st, in, c)
			}
			if v, ok := s.truth(st, c); ok {
				i := 1
				if v {
					i = 0
				}
				if !s.enter(st, f.block, f.block.Succs[i]) {
					return
				}
				continue
			}
			o := st.clone()
			if s.assume(o, c, false) {
				if s.enter(o, f.block, f.block.Succs[1]) {
					s.push(o)
				}
			}
			if !s.assume(st, c, true) {
				return
			}
			if !s.enter(st, f.block, f.block.Succs[0]) {
				return
			}
		case *ssa.Return:
			var res []*Term
			for _, r := range in.Results {
				res = append(res, s.eval(st, f, r))
			}
			if !s.ret(st, res) {
				return
			}
		case *ssa.RunDefers:
			if len(f.defers) == 0 {
				f.idx++
				continue
			}
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if !s.call(st, d.instr, d.fnT, d.args, nil, frDefer) {
				return
			}
		case *ssa.Panic:
			v := s.eval(st, f, in.X)
			if s.h.Panic != nil {
				s.h.Panic(s, st, in, v)
			}
			if !s.unwind(st, v) {
				return
			}
		default:
			if !s.instr(st, f, in) {
				return
			}
		}
	}
}

// ret returns from the top frame.
func (s *Sim) ret(st *State, res []*Term) bool {
	f := st.top()
	if s.h.Leave != nil {
		s.h.Leave(s, st, f, res)
		if st.dead {
			return false
		}
	}
	if len(st.frames) == 1 {
		if s.h.Return != nil {
			s.h.Return(s, st, res)
		}
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	p := st.top()
	if f.wrapSet {
		res = f.wrapResult
	}
	switch f.kind {
	case frCall:
		s.bind(st, p, f.call, res)
		p.idx++
		s.mergePoint(st)
		return s.maybeMerge(st)
	case frDefer:
		return true // RunDefers is executed again
	case frUnwind:
		return s.unwindStep(st)
	}
	return true
}

func (s *Sim) mergePoint(st *State) {}

// maybeMerge joins states after a call returns.
func (s *Sim) maybeMerge(st *State) bool {
	f := st.top()
	s.prune(f)
	s.gc(st)
	key := "ret" + s.keyOf(st)
	v := s.visited[key]
	if v == nil {
		s.States++
		s.visited[key] = &visit{num: st.num.clone(), n: 1}
		return true
	}
	v.n++
	if !v.num.join(st.num, v.n > 12) {
		return false
	}
	st.num = v.num.clone()
	s.States++
	return true
}

func (s *Sim) bind(st *State, p *Frame, v ssa.Value, res []*Term) {
	if v == nil {
		return
	}
	if len(res) == 1 {
		p.env[v] = res[0]
	} else if len(res) > 1 {
		p.env[v] = s.tt.mk("tuple", "", v.Type(), res...)
	}
}

// unwind starts a panic in the top frame.
func (s *Sim) unwind(st *State, val *Term) bool {
	f := st.top()
	f.unwinding = true
	f.recovered = false
	f.panicVal = val
	return s.unwindStep(st)
}

// unwindStep continues a panic (or the end of a recovery) in the top frame.
func (s *Sim) unwindStep(st *State) bool {
	for {
		f := st.top()
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			return s.call(st, d.instr, d.fnT, d.args, nil, frUnwind)
		}
		if f.recovered {
			f.unwinding = false
			f.recovered = false
			f.panicVal = nil
			if f.fn.Recover != nil {
				f.block = f.fn.Recover
				f.idx = 0
				return s.arrive(st, false)
			}
			var res []*Term
			sig := f.fn.Signature.Results()
			for i := 0; i < sig.Len(); i++ {
				res = append(res, s.zero(sig.At(i).Type()))
			}
			return s.ret(st, res)
		}
		val := f.panicVal
		if len(st.frames) == 1 {
			if s.h.PanicOut != nil {
				s.h.PanicOut(s, st, val)
			}
			return false
		}
		if s.h.Leave != nil {
			s.h.Leave(s, st, f, nil)
			if st.dead {
				return false
			}
		}
		st.frames = st.frames[:len(st.frames)-1]
		p := st.top()
		p.unwinding = true
		p.recovered = false
		p.panicVal = val
		// merge
		s.gc(st)
		key := "unw" + s.keyOf(st)
		v := s.visited[key]
		if v == nil {
			s.visited[key] = &visit{num: st.num.clone(), n: 1}
			s.States++
		} else {
			v.n++
			if !v.num.join(st.num, v.n > 12) {
				return false
			}
			st.num = v.num.clone()
		}
	}
}

// runtimePanic forks a state in which the current instruction panics.
func (s *Sim) runtimePanic(st *State, in ssa.Instruction, why string, about ...*Term) {
	o := st.clone()
	v := s.tt.mk("iface", "runtime.Error:"+why, nil, s.tt.mk("rterr", why, nil, about...))
	s.gcPanic(o)
	key := "pan" + s.keyOf(o)
	if vis := s.visited[key]; vis != nil {
		if !vis.num.join(o.num, true) {
			return
		}
	} else {
		s.visited[key] = &visit{num: o.num.clone(), n: 1}
		s.States++
	}
	if s.unwind(o, v) {
		s.push(o)
	}
}

// gcPanic: nothing of the panicking frame's values matters any more.
func (s *Sim) gcPanic(st *State) {
	f := st.top()
	keep := map[ssa.Value]bool{}
	if f.fn.Recover != nil {
		l := s.liveness(f.fn)
		for v := range l.in[f.fn.Recover] {
			keep[v] = true
		}
	}
	for v := range f.env {
		if !keep[v] {
			delete(f.env, v)
		}
	}
	s.gc(st)
}

func (s *Sim) instr(st *State, f *Frame, in ssa.Instruction) bool {
	set := func(v ssa.Value, t *Term) { f.env[v] = t; f.idx++ }
	switch in := in.(type) {
	case *ssa.DebugRef:
		f.idx++
	case *ssa.Alloc:
		t := s.fresh(st, s.tt.mk("obj", s.siteID(f, in, in.Comment), in.Type()))
		st.heap[s.freshMark(t)] = s.tt.Bool(true)
		set(in, t)
	case *ssa.BinOp:
		t := s.binop(st, f, in)
		if t.op == "concat" && s.h.Concat != nil {
			s.h.Concat(s, st, in, t)
		}
		if (in.Op == token.EQL || in.Op == token.NEQ) && s.h.Compare != nil {
			s.h.Compare(s, st, in, s.eval(st, f, in.X), s.eval(st, f, in.Y))
		}
		if (in.Op == token.QUO || in.Op == token.REM) && isIntType(in.Type()) && s.o.ImplicitPanics {
			y := s.eval(st, f, in.Y)
			if v, ok := y.intVal(); !ok || v == 0 {
				s.runtimePanic(st, in, "division")
			}
		}
		set(in, t)
	case *ssa.UnOp:
		x := s.eval(st, f, in.X)
		switch in.Op {
		case token.MUL:
			if s.h.Load != nil {
				s.h.Load(s, st, in, x)
				if st.dead {
					return false
				}
			}
			if x.isNil() {
				return s.unwind(st, s.tt.mk("iface", "runtime.Error:nil", nil, s.tt.mk("rterr", "nil dereference", nil)))
			}
			set(in, s.load(st, x, in.Type()))
		case token.NOT:
			set(in, s.not(x))
		case token.ARROW:
			v := s.fresh(st, s.tt.mk("recv", s.siteID(f, in, "recv"), elemType(in.X.Type()), x))
			if s.h.Recv != nil {
				s.h.Recv(s, st, in, x, v, true)
				if st.dead {
					return false
				}
			}
			if in.CommaOk {
				ok := s.tt.mk("ext", "ok", types.Typ[types.Bool], v)
				set(in, s.tt.mk("tuple", "", in.Type(), v, ok))
			} else {
				set(in, v)
			}
		case token.SUB:
			set(in, s.binopT(st, in, token.SUB, s.zero(in.Type()), x, in.Type(), in.Type()))
		default:
			set(in, s.tt.mk("un", in.Op.String(), in.Type(), x))
		}
	case *ssa.ChangeType:
		set(in, s.eval(st, f, in.X))
	case *ssa.ChangeInterface:
		set(in, s.eval(st, f, in.X))
	case *ssa.MakeInterface:
		x := s.eval(st, f, in.X)
		set(in, s.tt.mk("iface", in.X.Type().String(), in.X.Type(), x))
	case *ssa.Convert:
		set(in, s.convert(st, s.eval(st, f, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(in, s.tt.mk("conv", in.Type().String(), in.Type(), s.eval(st, f, in.X)))
	case *ssa.SliceToArrayPointer:
		set(in, s.tt.mk("conv", in.Type().String(), in.Type(), s.eval(st, f, in.X)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, s.eval(st, f, b))
		}
		fn := in.Fn.(*ssa.Function)
		t := s.tt.mk("closure", fmt.Sprintf("%p", fn), fn.Type(), bs...)
		t.fn = fn
		set(in, t)
	case *ssa.MakeMap:
		t := s.fresh(st, s.tt.mk("obj", s.siteID(f, in, "map"), in.Type()))
		st.heap[s.tt.mk("attr:exact", "", nil, t)] = s.tt.Bool(true)
		if in.Reserve != nil && s.h.Make != nil {
			s.h.Make(s, st, in, "map", s.eval(st, f, in.Reserve))
		}
		set(in, t)
	case *ssa.MakeChan:
		t := s.fresh(st, s.tt.mk("obj", s.siteID(f, in, "chan"), in.Type()))
		sz := s.eval(st, f, in.Size)
		if s.h.Make != nil {
			s.h.Make(s, st, in, "chan", sz)
		}
		st.heap[s.tt.mk("attr:cap", "", nil, t)] = sz
		set(in, t)
	case *ssa.MakeSlice:
		n, c := s.eval(st, f, in.Len), s.eval(st, f, in.Cap)
		if s.h.Make != nil {
			s.h.Make(s, st, in, "slice", c)
			if st.dead {
				return false
			}
		}
		t := s.fresh(st, s.tt.mk("obj", s.siteID(f, in, "slice"), in.Type()))
		st.heap[s.freshMark(t)] = s.tt.Bool(true)
		st.heap[s.tt.mk("attr:len", "", nil, t)] = n
		st.heap[s.tt.mk("attr:cap", "", nil, t)] = c
		z := s.tt.Int(0)
		if s.o.ImplicitPanics && !s.entailsLe(st, z, n, 0) {
			s.runtimePanic(st, in, "negative make")
		}
		s.addLe(st, z, n, 0)
		s.addLe(st, n, s.tt.Int(maxLen), 0)
		set(in, t)
	case *ssa.Slice:
		return s.sliceInstr(st, f, in)
	case *ssa.FieldAddr:
		x := s.eval(st, f, in.X)
		if x.isNil() {
			return s.unwind(st, s.tt.mk("iface", "runtime.Error:nil", nil, s.tt.mk("rterr", "nil dereference", nil)))
		}
		set(in, s.fieldAddr(x, in.X.Type(), in.Field))
	case *ssa.Field:
		x := s.eval(st, f, in.X)
		set(in, s.field(x, in.Field, in.Type()))
	case *ssa.IndexAddr:
		x, i := s.eval(st, f, in.X), s.eval(st, f, in.Index)
		if !s.boundsIndex(st, in, x, i) {
			return false
		}
		// elements of a full slice of an array are the array's elements
		b := x
		if b.op == "slice" && isArrPtr(b.sub[0]) {
			i = s.add(b.sub[1], i)
			b = b.sub[0]
		} else if b.op == "slice" && b.sub[0].op == "obj" {
			i = s.add(b.sub[1], i)
			b = b.sub[0]
		}
		set(in, s.tt.mk("indexaddr", "", in.Type(), b, i))
	case *ssa.Index:
		x, i := s.eval(st, f, in.X), s.eval(st, f, in.Index)
		if !s.boundsIndex(st, in, x, i) {
			return false
		}
		set(in, s.indexTerm(st, x, i, in.Type()))
	case *ssa.Lookup:
		x, i := s.eval(st, f, in.X), s.eval(st, f, in.Index)
		if isStringType(in.X.Type()) {
			if !s.boundsIndex(st, in, x, i) {
				return false
			}
			set(in, s.indexTerm(st, x, i, in.Type()))
			break
		}
		if s.h.MapRead != nil {
			s.h.MapRead(s, st, in, x, i)
			if st.dead {
				return false
			}
		}
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		v, ok := s.mapLookup(st, x, i, vt)
		if in.CommaOk {
			set(in, s.tt.mk("tuple", "", in.Type(), v, ok))
		} else {
			if ok.isConst() || v.op != "lookup" {
				set(in, v)
			} else {
				set(in, v)
			}
		}
	case *ssa.MapUpdate:
		m, k, v := s.eval(st, f, in.Map), s.eval(st, f, in.Key), s.eval(st, f, in.Value)
		if s.h.MapUpdate != nil {
			s.h.MapUpdate(s, st, in, m, k, v)
			if st.dead {
				return false
			}
		}
		s.mapUpdate(st, m, k, v)
		f.idx++
	case *ssa.Extract:
		t := s.eval(st, f, in.Tuple)
		if t.op == "tuple" && in.Index < len(t.sub) {
			set(in, t.sub[in.Index])
		} else {
			set(in, s.tt.mk("ext", fmt.Sprint(in.Index), in.Type(), t))
		}
	case *ssa.Range:
		x := s.eval(st, f, in.X)
		if s.h.MapRead != nil {
			if _, ok := in.X.Type().Underlying().(*types.Map); ok {
				s.h.MapRead(s, st, in, x, nil)
				if st.dead {
					return false
				}
			}
		}
		set(in, s.tt.mk("iter", "", nil, x))
	case *ssa.Next:
		it := s.eval(st, f, in.Iter)
		r := s.fresh(st, s.tt.mk("range", s.siteID(f, in, "range"), nil, it))
		tup := in.Type().(*types.Tuple)
		ok := s.tt.mk("ext", "more", types.Typ[types.Bool], r)
		k := s.tt.mk("ext", "key", tup.At(1).Type(), r)
		v := s.tt.mk("ext", "val", tup.At(2).Type(), r)
		set(in, s.tt.mk("tuple", "", in.Type(), ok, k, v))
	case *ssa.TypeAssert:
		return s.typeAssert(st, f, in)
	case *ssa.Store:
		a, v := s.eval(st, f, in.Addr), s.eval(st, f, in.Val)
		if s.h.Store != nil {
			s.h.Store(s, st, in, a, v)
			if st.dead {
				return false
			}
		}
		s.store(st, a, v, in.Val.Type())
		f.idx++
	case *ssa.Send:
		if s.h.Send != nil {
			s.h.Send(s, st, in, s.eval(st, f, in.Chan), s.eval(st, f, in.X), true)
			if st.dead {
				return false
			}
		}
		f.idx++
	case *ssa.Select:
		return s.selectInstr(st, f, in)
	case *ssa.Go:
		fn, args := s.callParts(st, f, in.Common())
		if s.h.Go != nil {
			s.h.Go(s, st, in, fn, args)
		}
		f.idx++
	case *ssa.Defer:
		fn, args := s.callParts(st, f, in.Common())
		f.defers = append(f.defers, &Deferred{instr: in, fnT: fn, args: args})
		if len(f.defers) > 30 {
			f.defers = f.defers[:30]
		}
		f.idx++
	case *ssa.Call:
		fn, args := s.callParts(st, f, in.Common())
		return s.call(st, in, fn, args, in, frCall)
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, s.tt.mk("top", fmt.Sprintf("%s#%p/%d", v.Name(), v, f.ctx.id), v.Type()))
		} else {
			f.idx++
		}
	}
	return true
}

// callParts evaluates function and arguments (receiver first).
func (s *Sim) callParts(st *State, f *Frame, cc *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	fn := s.eval(st, f, cc.Value)
	if cc.IsInvoke() {
		args = append(args, fn)
	}
	for _, a := range cc.Args {
		args = append(args, s.eval(st, f, a))
	}
	return fn, args
}

func (s *Sim) sliceInstr(st *State, f *Frame, in *ssa.Slice) bool {
	x := s.eval(st, f, in.X)
	none := s.tt.mk("none", "", nil)
	lo, hi, max := s.tt.Int(0), none, none
	if in.Low != nil {
		lo = s.eval(st, f, in.Low)
	}
	if in.High != nil {
		hi = s.eval(st, f, in.High)
	}
	if in.Max != nil {
		max = s.eval(st, f, in.Max)
	}
	h := hi
	if h.op == "none" {
		h = s.lenTerm(st, x)
	}
	limit := s.lenTerm(st, x)
	if !isStringType(in.X.Type()) && arrLen(in.X.Type()) < 0 && hi.op != "none" {
		limit = s.capTerm(st, x)
		// a slice within the length is within the capacity
		s.addLe(st, s.lenTerm(st, x), limit, 0)
	}
	z := s.tt.Int(0)
	ok := s.entailsLe(st, z, lo, 0) && s.entailsLe(st, lo, h, 0) && s.entailsLe(st, h, limit, 0)
	if s.h.Slice != nil {
		s.h.Slice(s, st, in, x, lo, hi, max, ok)
		if st.dead {
			return false
		}
	}
	if !ok {
		if s.o.ImplicitPanics {
			s.runtimePanic(st, in, "slice bounds")
		}
		if !s.addLe(st, z, lo, 0) || !s.addLe(st, lo, h, 0) || !s.addLe(st, h, limit, 0) {
			return false
		}
	}
	var t *Term
	lz, lok := lo.intVal()
	if lok && lz == 0 && max.op == "none" && (hi.op == "none" || (isStringType(in.X.Type()) && hi == s.lenTerm(st, x))) && !isArrPtr(x) {
		t = x
	} else if isStringType(in.X.Type()) && x.op == "slice" {
		// substring of a substring
		b := x.sub[0]
		nh := hi
		if hi.op == "none" {
			nh = x.sub[2]
		} else {
			nh = s.add(x.sub[1], hi)
		}
		t = s.tt.mk("slice", "", in.Type(), b, s.add(x.sub[1], lo), nh, none)
	} else {
		// the array behind a variadic call
		if isArrPtr(x) && x.op == "obj" && s.variadicArray(in) && lok && lz == 0 && hi.op == "none" {
			n := arrLen(x.typ)
			var es []*Term
			okAll := true
			for i := int64(0); i < n; i++ {
				et := elemType(derefType(x.typ))
				a := s.tt.mk("indexaddr", "", types.NewPointer(et), x, s.tt.Int(i))
				v, has := st.heap[a]
				if !has {
					okAll = false
					break
				}
				es = append(es, v)
			}
			if okAll {
				t = s.tt.mk("list", "", in.Type(), es...)
				f.env[in] = t
				f.idx++
				return true
			}
		}
		t = s.tt.mk("slice", "", in.Type(), x, lo, hi, max)
	}
	f.env[in] = t
	f.idx++
	return true
}

// variadicArray reports whether the slice is a literal: its array is only written element-wise before it.
func (s *Sim) variadicArray(in *ssa.Slice) bool {
	al, ok := in.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			for _, rr := range *r.Referrers() {
				if _, ok := rr.(*ssa.Store); !ok {
					return false
				}
			}
		case *ssa.Slice:
			if r != in {
				return false
			}
		default:
			return false
		}
	}
	return al.Comment == "varargs" || al.Comment == "slicelit"
}

func (s *Sim) boundsIndex(st *State, in ssa.Instruction, x, i *Term) bool {
	n := s.lenTerm(st, x)
	z := s.tt.Int(0)
	ok := s.entailsLe(st, z, i, 0) && s.entailsLe(st, i, n, -1)
	if s.h.Index != nil {
		s.h.Index(s, st, in, x, i, ok)
		if st.dead {
			return false
		}
	}
	if !ok {
		if s.o.ImplicitPanics {
			s.runtimePanic(st, in, "index")
		}
		if !s.addLe(st, z, i, 0) || !s.addLe(st, i, n, -1) {
			return false
		}
	}
	return true
}

func (s *Sim) isTypeT(x *Term, t types.Type) *Term {
	aux := t.String()
	if types.IsInterface(t) {
		aux = "I:" + aux
	}
	return s.tt.mk("istype", aux, types.Typ[types.Bool], x)
}

func (s *Sim) assertT(x *Term, t types.Type) *Term {
	if types.IsInterface(t) {
		return x
	}
	return s.tt.mk("assert", t.String(), t, x)
}

func (s *Sim) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) bool {
	x := s.eval(st, f, in.X)
	t := in.AssertedType
	var known, val bool
	var res *Term
	if x.op == "iface" {
		known = true
		if strings.HasPrefix(x.aux, "runtime.Error:") {
			val = types.IsInterface(t)
			res = x
		} else if types.IsInterface(t) {
			val = types.Implements(x.typ, t.Underlying().(*types.Interface))
			res = x
		} else {
			val = types.Identical(x.typ, t)
			res = x.sub[0]
		}
	} else if x.isNil() {
		known, val = true, false
	} else {
		c := s.isTypeT(x, t)
		val, known = s.truth(st, c)
		res = s.assertT(x, t)
	}
	if s.h.Assert != nil {
		s.h.Assert(s, st, in, x, known && val)
		if st.dead {
			return false
		}
	}
	fin := func(st *State, ok bool) {
		fr := st.top()
		var r *Term
		if ok {
			r = res
		} else {
			r = s.zero(t)
		}
		if in.CommaOk {
			fr.env[in] = s.tt.mk("tuple", "", in.Type(), r, s.tt.Bool(ok))
		} else {
			fr.env[in] = r
		}
		fr.idx++
	}
	if known {
		if val || in.CommaOk {
			fin(st, val)
			return true
		}
		return s.unwind(st, s.tt.mk("iface", "runtime.Error:type assertion", nil, s.tt.mk("rterr", "type assertion", nil, x)))
	}
	c := s.isTypeT(x, t)
	if in.CommaOk {
		o := st.clone()
		if s.assume(o, c, false) {
			fin(o, false)
			s.push(o)
		}
		if !s.assume(st, c, true) {
			return false
		}
		fin(st, true)
		return true
	}
	if s.o.ImplicitPanics {
		s.runtimePanic(st, in, "type assertion", x)
	}
	if !s.assume(st, c, true) {
		return false
	}
	fin(st, true)
	return true
}

func (s *Sim) selectInstr(st *State, f *Frame, in *ssa.Select) bool {
	if s.h.SelectHead != nil {
		var cs []*Term
		for _, x := range in.States {
			cs = append(cs, s.eval(st, f, x.Chan))
		}
		s.h.SelectHead(s, st, in, cs)
		if st.dead {
			return false
		}
	}
	n := len(in.States)
	tup := in.Type().(*types.Tuple)
	mk := func(st *State, idx int) bool {
		fr := st.top()
		var subs []*Term
		subs = append(subs, s.tt.Int(int64(idx)))
		subs = append(subs, s.tt.mk("ext", "recvok", types.Typ[types.Bool], s.tt.mk("top", s.siteID(fr, in, "selok"), nil)))
		ri := 2
		for i, x := range in.States {
			if x.Dir != types.RecvOnly {
				continue
			}
			var v *Term
			if i == idx {
				ch := s.eval(st, fr, x.Chan)
				v = s.fresh(st, s.tt.mk("recv", s.siteID(fr, in, fmt.Sprintf("recv%d", i)), tup.At(ri).Type(), ch))
				if s.h.Recv != nil {
					s.h.Recv(s, st, in, ch, v, in.Blocking)
				}
			} else {
				v = s.zero(tup.At(ri).Type())
			}
			subs = append(subs, v)
			ri++
		}
		if idx >= 0 && in.States[idx].Dir == types.SendOnly && s.h.Send != nil {
			s.h.Send(s, st, in, s.eval(st, fr, in.States[idx].Chan), s.eval(st, fr, in.States[idx].Send), in.Blocking)
		}
		if st.dead {
			return false
		}
		fr.env[in] = s.tt.mk("tuple", "", in.Type(), subs...)
		fr.idx++
		return true
	}
	for i := 0; i < n; i++ {
		o := st.clone()
		if mk(o, i) {
			s.push(o)
		}
	}
	if !in.Blocking {
		if mk(st, -1) {
			return true
		}
	}
	return false
}
