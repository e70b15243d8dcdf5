package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// DBM holds difference bounds x-y<=c over integer terms; nil is the constant zero.
// It is kept transitively closed.
type pair struct{ x, y *Term }

type DBM struct {
	m      map[pair]int64
	vars   map[*Term]bool
	bottom bool
}

const inf = int64(1) << 62
const maxLen = int64(1) << 46 // no object in memory is longer
const maxSafe = int64(1) << 60

func NewDBM() *DBM { return &DBM{m: map[pair]int64{}, vars: map[*Term]bool{}} }

func (d *DBM) clone() *DBM {
	n := &DBM{m: make(map[pair]int64, len(d.m)), vars: make(map[*Term]bool, len(d.vars)), bottom: d.bottom}
	for k, v := range d.m {
		n.m[k] = v
	}
	for k := range d.vars {
		n.vars[k] = true
	}
	return n
}

func (d *DBM) get(x, y *Term) int64 {
	if x == y {
		return 0
	}
	if v, ok := d.m[pair{x, y}]; ok {
		return v
	}
	return inf
}

func satAdd(a, b int64) int64 {
	if a >= inf || b >= inf {
		return inf
	}
	s := a + b
	if s >= inf {
		return inf
	}
	if s < -inf {
		return -inf
	}
	return s
}

// add x-y<=c
func (d *DBM) add(x, y *Term, c int64) bool {
	if d.bottom {
		return false
	}
	if x == y {
		if c < 0 {
			d.bottom = true
			return false
		}
		return true
	}
	if x != nil {
		d.vars[x] = true
	}
	if y != nil {
		d.vars[y] = true
	}
	if d.get(x, y) <= c {
		return true
	}
	if r := d.get(y, x); r < inf && satAdd(r, c) < 0 {
		d.bottom = true
		return false
	}
	// incremental closure
	var us, vs []*Term
	us = append(us, x)
	vs = append(vs, y)
	for u := range d.vars {
		if u != x && d.get(u, x) < inf {
			us = append(us, u)
		}
		if u != y && d.get(y, u) < inf {
			vs = append(vs, u)
		}
	}
	if x != nil && d.get(nil, x) < inf {
		us = append(us, nil)
	}
	if y != nil && d.get(y, nil) < inf {
		vs = append(vs, nil)
	}
	for _, u := range us {
		a := d.get(u, x)
		for _, v := range vs {
			if u == v {
				continue
			}
			n := satAdd(satAdd(a, c), d.get(y, v))
			if n < d.get(u, v) {
				d.m[pair{u, v}] = n
			}
		}
	}
	return true
}

func (d *DBM) remove(x *Term) {
	if !d.vars[x] {
		return
	}
	delete(d.vars, x)
	for k := range d.m {
		if k.x == x || k.y == x {
			delete(d.m, k)
		}
	}
}

// join keeps the weaker of both bounds; reports whether d changed.
func (d *DBM) join(o *DBM, widen bool) bool {
	if o.bottom {
		return false
	}
	if d.bottom {
		*d = *o.clone()
		return true
	}
	ch := false
	for k, v := range d.m {
		w := o.get(k.x, k.y)
		if w > v {
			ch = true
			if w >= inf {
				delete(d.m, k)
			} else if widen {
				// thresholds keep the bounds 0 and 1 that matter for indices
				t := inf
				for _, th := range []int64{-1, 0, 1, 20, 26, 4096, 1 << 24, maxLen} {
					if w <= th {
						t = th
						break
					}
				}
				if t >= inf {
					delete(d.m, k)
				} else {
					d.m[k] = t
				}
			} else {
				d.m[k] = w
			}
		}
	}
	return ch
}

func (d *DBM) rename(tt *TermTable, from, to *Term) {
	memo := map[*Term]*Term{}
	var olds []*Term
	for v := range d.vars {
		if v == from || v.hasLeaf(from) {
			olds = append(olds, v)
		}
	}
	if len(olds) == 0 {
		return
	}
	ren := map[*Term]*Term{}
	for _, v := range olds {
		ren[v] = tt.subst(v, from, to, memo)
	}
	for _, v := range ren {
		d.remove(v)
	}
	nm := make(map[pair]int64, len(d.m))
	f := func(t *Term) *Term {
		if r, ok := ren[t]; ok && t != nil {
			return r
		}
		return t
	}
	for k, v := range d.m {
		nm[pair{f(k.x), f(k.y)}] = v
	}
	d.m = nm
	for o, n := range ren {
		delete(d.vars, o)
		d.vars[n] = true
	}
}

func (d *DBM) String() string {
	var out []string
	for k, v := range d.m {
		x, y := "0", "0"
		if k.x != nil {
			x = k.x.String()
		}
		if k.y != nil {
			y = k.y.String()
		}
		out = append(out, fmt.Sprintf("%s - %s <= %d", x, y, v))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// Lin is a linear form over integer terms.
type Lin struct {
	c int64
	m map[*Term]int64
}

func (s *Sim) lin(t *Term) Lin {
	l := Lin{m: map[*Term]int64{}}
	s.linAcc(&l, t, 1)
	return l
}

func (s *Sim) linAcc(l *Lin, t *Term, k int64) {
	if v, ok := t.intVal(); ok && v < maxSafe && v > -maxSafe {
		l.c += k * v
		return
	}
	switch t.op {
	case "add":
		s.linAcc(l, t.sub[0], k)
		s.linAcc(l, t.sub[1], k)
		return
	case "sub":
		s.linAcc(l, t.sub[0], k)
		s.linAcc(l, t.sub[1], -k)
		return
	case "mul":
		if v, ok := t.sub[0].intVal(); ok && v < 1<<30 && v > -(1<<30) {
			s.linAcc(l, t.sub[1], k*v)
			return
		}
		if v, ok := t.sub[1].intVal(); ok && v < 1<<30 && v > -(1<<30) {
			s.linAcc(l, t.sub[0], k*v)
			return
		}
	}
	l.m[t] += k
	if l.m[t] == 0 {
		delete(l.m, t)
	}
}

// combo names a positive linear combination of terms as one DBM variable.
func (s *Sim) combo(st *State, m map[*Term]int64) *Term {
	if len(m) == 0 {
		return nil
	}
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && m[ts[0]] == 1 {
		s.atom(st, ts[0])
		return ts[0]
	}
	aux := ""
	for _, t := range ts {
		aux += fmt.Sprintf("%d,", m[t])
		s.atom(st, t)
	}
	v := s.tt.mk("lincomb", aux, nil, ts...)
	st.num.vars[v] = true
	return v
}

// atom introduces what is always true of an integer term.
func (s *Sim) atom(st *State, t *Term) {
	d := st.num
	if d.vars[t] || d.bottom {
		return
	}
	d.vars[t] = true
	switch t.op {
	case "len", "cap":
		d.add(nil, t, 0)
		d.add(t, nil, maxLen)
		if t.op == "cap" {
			ln := s.lenTerm(st, t.sub[0])
			s.addLe(st, ln, t, 0)
		}
	case "quo":
		if k, ok := t.sub[1].intVal(); ok && k > 0 && s.entailsLe(st, s.tt.Int(0), t.sub[0], 0) {
			d.add(nil, t, 0)
			m := s.lin(t.sub[0])
			// k*t <= x <= k*t+k-1
			lt := Lin{m: map[*Term]int64{t: k}}
			s.addLinLe(st, linSub(lt, m))
			r := linSub(m, lt)
			r.c -= k - 1
			s.addLinLe(st, r)
		}
	case "rem":
		if k, ok := t.sub[1].intVal(); ok && k > 0 && s.entailsLe(st, s.tt.Int(0), t.sub[0], 0) {
			d.add(nil, t, 0)
			d.add(t, nil, k-1)
		}
	}
	if t.typ != nil {
		if lo, hi, ok := intRange(t.typ); ok {
			if lo > -inf {
				d.add(nil, t, -lo)
			}
			if hi < inf {
				d.add(t, nil, hi)
			}
		}
	}
	if lo, hi, ok := s.axiomRange(t); ok {
		d.add(nil, t, -lo)
		d.add(t, nil, hi)
	}
}

func (s *Sim) axiomRange(t *Term) (int64, int64, bool) {
	switch {
	case t.op == "app" && (strings.HasPrefix(t.aux, "math/bits.LeadingZeros8")):
		return 0, 8, true
	}
	return 0, 0, false
}

func intRange(t types.Type) (int64, int64, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -(1 << 31), 1<<31 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, inf, true
	}
	return 0, 0, false
}

func linSub(a, b Lin) Lin {
	r := Lin{c: a.c - b.c, m: map[*Term]int64{}}
	for t, k := range a.m {
		r.m[t] += k
	}
	for t, k := range b.m {
		r.m[t] -= k
	}
	for t, k := range r.m {
		if k == 0 {
			delete(r.m, t)
		}
	}
	return r
}

// split turns sum<=0 into P - N <= c with positive combinations P and N.
func (s *Sim) split(st *State, l Lin) (p, n *Term, c int64) {
	pm, nm := map[*Term]int64{}, map[*Term]int64{}
	for t, k := range l.m {
		if k > 0 {
			pm[t] = k
		} else {
			nm[t] = -k
		}
	}
	return s.combo(st, pm), s.combo(st, nm), -l.c
}

func (s *Sim) addLinLe(st *State, l Lin) bool {
	p, n, c := s.split(st, l)
	if !st.num.add(p, n, c) {
		return false
	}
	s.reduce(st)
	return !st.num.bottom
}

// addLe assumes a - b <= c.
func (s *Sim) addLe(st *State, a, b *Term, c int64) bool {
	l := linSub(s.lin(a), s.lin(b))
	l.c -= c
	return s.addLinLe(st, l)
}

func (s *Sim) addEq(st *State, a, b *Term) bool {
	return s.addLe(st, a, b, 0) && s.addLe(st, b, a, 0)
}

// bound returns the best known upper bound of a - b.
func (s *Sim) bound(st *State, a, b *Term) int64 {
	l := linSub(s.lin(a), s.lin(b))
	p, n, c := s.split(st, l)
	s.reduce(st)
	if st.num.bottom {
		return -inf
	}
	v := st.num.get(p, n)
	if v >= inf {
		return inf
	}
	return satAdd(v, -c)
}

func (s *Sim) entailsLe(st *State, a, b *Term, c int64) bool { return s.bound(st, a, b) <= c }

// reduce relates combinations to their parts.
func (s *Sim) reduce(st *State) {
	d := st.num
	var cs []*Term
	for v := range d.vars {
		if v.op == "lincomb" {
			cs = append(cs, v)
		}
	}
	if len(cs) == 0 {
		return
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for round := 0; round < 3; round++ {
		before := len(d.m)
		changed := false
		upd := func(x, y *Term, c int64) {
			if c >= inf || c <= -inf {
				return
			}
			if d.get(x, y) > c {
				d.add(x, y, c)
				changed = true
			}
		}
		for _, v := range cs {
			ks := coefs(v)
			// interval of the whole
			lo, hi := int64(0), int64(0)
			for i, a := range v.sub {
				u := d.get(a, nil)
				l := d.get(nil, a) // -lower
				if u < inf/ks[i] && hi < inf {
					hi += ks[i] * u
				} else {
					hi = inf
				}
				if l < inf/ks[i] && lo < inf {
					lo += ks[i] * l
				} else {
					lo = inf
				}
			}
			upd(v, nil, hi)
			upd(nil, v, lo)
			if len(v.sub) == 2 && ks[0] == 1 && ks[1] == 1 {
				for i := 0; i < 2; i++ {
					a, b := v.sub[i], v.sub[1-i]
					upd(v, a, d.get(b, nil))
					upd(a, v, d.get(nil, b))
				}
				// v - b' known for other variables: a = v - b
				for w := range d.vars {
					_ = w
				}
			}
			if len(v.sub) == 1 {
				k := ks[0]
				a := v.sub[0]
				// from k*a bounds to a bounds
				if u := d.get(v, nil); u < inf {
					upd(a, nil, floorDiv(u, k))
				}
				if l := d.get(nil, v); l < inf {
					upd(nil, a, floorDiv(l, k))
				}
				if d.get(nil, a) <= 0 { // a>=0: a <= k*a
					upd(a, v, 0)
				}
				for _, w := range cs {
					if w == v || len(w.sub) != 1 || coefs(w)[0] != k {
						continue
					}
					if c := d.get(a, w.sub[0]); c < inf/k && c > -inf/k {
						upd(v, w, k*c)
					}
					if c := d.get(v, w); c < inf {
						upd(a, w.sub[0], floorDiv(c, k))
					}
				}
			}
			if d.bottom {
				return
			}
		}
		if !changed && before == len(d.m) {
			return
		}
	}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func coefs(v *Term) []int64 {
	var out []int64
	for _, p := range strings.Split(strings.TrimSuffix(v.aux, ","), ",") {
		var k int64
		fmt.Sscanf(p, "%d", &k)
		out = append(out, k)
	}
	return out
}
