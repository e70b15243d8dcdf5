package main

import (
	"fmt"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "path-sensitive simulation of the download tasks with a typestate of the files they open: every file is opened in the torrent directory, after that was created, under a name built from constants and the hexadecimal form of the info-hash; a final name only appears by renaming an exclusively created temporary file of the same directory after the whole content was written and flushed without an error",
		func(p *Program, r *Report) { ruleStore(p, r, "C19") })
	register("C29", "path-sensitive simulation of the download tasks: on every path that starts a download its address is classified into host and port by provenance; the host is the address of the announcing node, the port is its UDP port exactly on the paths on which implied_port was found present and positive, and the announced port on the others; host and port are joined in a form that is valid for IPv6",
		func(p *Program, r *Report) { ruleStore(p, r, "C29") })
}

// textPart is a piece of a text: a constant, or a value printed with a verb.
type textPart struct {
	s    string
	t    *Term
	verb byte // 's' text, 'd' number, 'x' hexadecimal, 'v' any
}

// textOf splits a text into constants and values.
func (s *Sim) textOf(st *State, t *Term) []textPart {
	var out []textPart
	lit := func(x string) {
		if x == "" {
			return
		}
		if n := len(out); n > 0 && out[n-1].t == nil {
			out[n-1].s += x
			return
		}
		out = append(out, textPart{s: x})
	}
	var walk func(t *Term, verb byte)
	joined := func(l *Term, sep string) bool {
		l = s.listTerm(st, l)
		if l == nil {
			return false
		}
		for i, e := range l.sub {
			if i > 0 {
				lit(sep)
			}
			walk(e, 's')
		}
		return true
	}
	walk = func(t *Term, verb byte) {
		t = unface(unstale(t))
		if v, ok := t.strVal(); ok {
			lit(v)
			return
		}
		if v, ok := t.intVal(); ok && verb != 's' && verb != 'x' {
			lit(itoa(v))
			return
		}
		switch t.op {
		case "concat":
			for _, x := range t.sub {
				walk(x, verb)
			}
			return
		case "copy", "alias":
			walk(t.sub[0], verb)
			return
		case "load":
			if g := s.globalOf(t.sub[0]); g != nil {
				if l := s.p.globalStrings(g); len(l) == 1 && !s.p.globalWritten(g) {
					lit(l[0])
					return
				}
			}
		case "app":
			if strings.HasPrefix(t.aux, "fmt:") && len(t.aux) > 4 && len(t.sub) == 1 {
				switch t.aux[4] {
				case 'x', 'X':
					out = append(out, textPart{t: t.sub[0], verb: 'x'})
					return
				case 's', 'v', 'd':
					walk(t.sub[0], t.aux[4])
					return
				}
			}
			switch t.aux {
			case "strings.ToLower", "strings.ToUpper":
				if in := unstale(t.sub[0]); in.op == "app" && in.aux == "encoding/hex.EncodeToString" {
					walk(in, verb)
					return
				}
			case "encoding/hex.EncodeToString":
				out = append(out, textPart{t: t.sub[0], verb: 'x'})
				return
			case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
				base := int64(10)
				if len(t.sub) > 1 {
					base, _ = t.sub[1].intVal()
				}
				if base == 10 {
					out = append(out, textPart{t: t.sub[0], verb: 'd'})
					return
				}
			case "path/filepath.Join", "path.Join":
				if len(t.sub) == 1 && joined(t.sub[0], "/") {
					return
				}
			case "strings.Join":
				if sep, ok := t.sub[1].strVal(); ok && joined(t.sub[0], sep) {
					return
				}
			case "fmt.Sprint":
				if len(t.sub) == 1 {
					if l := s.listTerm(st, t.sub[0]); l != nil {
						for _, e := range l.sub {
							walk(e, 'v')
						}
						return
					}
				}
			case "fmt.Sprintf":
				if f, ok := t.sub[0].strVal(); ok && len(t.sub) == 2 {
					l := s.listTerm(st, t.sub[1])
					n := 0
					if l != nil {
						for i := 0; i < len(f); i++ {
							if f[i] != '%' || i+1 >= len(f) {
								lit(f[i : i+1])
								continue
							}
							i++
							switch c := f[i]; {
							case c == '%':
								lit("%")
							case strings.IndexByte("svdxX", c) >= 0 && n < len(l.sub):
								if c == 'X' {
									c = 'x'
								}
								if c == 'x' {
									out = append(out, textPart{t: unface(l.sub[n]), verb: 'x'})
								} else {
									walk(l.sub[n], c)
								}
								n++
							default:
								out = append(out, textPart{t: t, verb: 'v'})
								return
							}
						}
						return
					}
				}
			}
		}
		out = append(out, textPart{t: t, verb: verb})
	}
	walk(t, 's')
	return out
}

// listTerm: the elements of a list, when they are known.
func (s *Sim) listTerm(st *State, t *Term) *Term {
	t = unstale(t)
	if t.op == "list" {
		return t
	}
	if t.isNil() {
		return s.tt.mk("list", "", t.typ)
	}
	if n, ok := s.lenTerm(st, t).intVal(); ok && n <= 16 && t.typ != nil {
		sl, ok := t.typ.Underlying().(*types.Slice)
		if !ok {
			return nil
		}
		base, lo := s.sliceOf(t)
		off, ok := lo.intVal()
		if !ok {
			return nil
		}
		var es []*Term
		for i := int64(0); i < n; i++ {
			v := s.load(st, s.tt.mk("indexaddr", "", types.NewPointer(sl.Elem()), base, s.tt.Int(off+i)), sl.Elem())
			if v == nil {
				return nil
			}
			es = append(es, v)
		}
		return s.tt.mk("list", "", t.typ, es...)
	}
	return nil
}

func itoa(v int64) string {
	if v < 0 {
		return "-" + itoa(-v)
	}
	if v < 10 {
		return string(rune('0' + v))
	}
	return itoa(v/10) + string(rune('0'+v%10))
}

// globalWritten: the variable is assigned outside of initialisation, or its address is passed on.
func (p *Program) globalWritten(g *ssa.Global) bool {
	for _, f := range p.Funcs {
		if isInitFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				if u, ok := in.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
					continue
				}
				for _, o := range in.Operands(nil) {
					if *o == ssa.Value(g) {
						return true
					}
				}
			}
		}
	}
	return false
}

// rawText removes copies and zero-copy conversions.
func rawText(t *Term) *Term {
	for {
		t = unstale(t)
		switch t.op {
		case "copy", "alias", "iface":
			t = t.sub[0]
		case "conv":
			if lossy(t.typ, t.sub[0].typ) {
				return t
			}
			t = t.sub[0]
		default:
			return t
		}
	}
}

// fetchRoots: the tasks that run downloads.
func (p *Program) fetchRoots(fetch *ssa.Function) (roots []*ssa.Function, sites []taskSite) {
	calls := func(f *ssa.Function) bool {
		for _, c := range p.callees[f] {
			if c == fetch {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, t := range p.tasks(f) {
			if t.Fn.Pkg != nil && t.Fn.Pkg != p.Pkg("dht") {
				continue
			}
			hit := false
			for g := range p.directReach(t.Fn, "dht") {
				hit = hit || calls(g)
			}
			if !hit {
				continue
			}
			sites = append(sites, t)
			if !seen[t.Fn] {
				seen[t.Fn] = true
				roots = append(roots, t.Fn)
			}
		}
	}
	if len(roots) == 0 {
		for _, f := range p.Funcs {
			if f.Pkg == p.Pkg("dht") && calls(f) {
				g := f
				for i := 0; i < 5; i++ {
					c := p.directCallers(g)
					if len(c) != 1 || c[0].Pkg != p.Pkg("dht") {
						break
					}
					g = c[0]
				}
				if !seen[g] {
					seen[g] = true
					roots = append(roots, g)
				}
			}
		}
	}
	return
}

// hostOf, portOf: where the parts of an address come from.
func (s *Sim) udpPart(st *State, t *Term, field string) *Term {
	t = rawText(t)
	switch t.op {
	case "app":
		if (t.aux == "(net.IP).To4" || t.aux == "(net.IP).To16" || t.aux == "(net.IP).String") && field == "IP" {
			return s.udpPart(st, t.sub[0], field)
		}
	case "load":
		f := t.sub[0]
		if f.op == "fieldaddr" && shortAux(f.aux) == field && f.sub[0].typ != nil && f.sub[0].typ.String() == "*net.UDPAddr" {
			return f.sub[0]
		}
	case "field":
		if shortAux(t.aux) == field {
			return t.sub[0]
		}
	}
	return nil
}

func ruleStore(p *Program, r *Report, id string) {
	const (
		written = "only verified metadata is written"
		named   = "a file is named after the info-hash it was verified against"
		inside  = "files lie in the torrent directory"
		safe    = "names are built from the hexadecimal info-hash"
		exists  = "the torrent directory is created"
		atomic  = "a final name only appears with the complete content"
		unique  = "temporary files are not shared"
		host    = "the host is that of the announcing node"
		port    = "the port is the designated one"
		form    = "the address is formed validly"
		own     = "a download uses the announce it was started for"
	)
	fetch := p.Func("dht/peerwire", "FetchMetaData")
	if fetch == nil || len(fetch.Params) != 3 || fetch.Signature.Results().Len() != 2 {
		r.Bad("anchors", "FetchMetaData", "?", "peerwire.FetchMetaData was not found", nil)
		return
	}
	ob := func(c, rule, key string) {
		if c == id {
			r.Ob(rule, key)
		}
	}
	bad := func(c, rule, key, where, msg string, st *State) {
		if c == id {
			r.Bad(rule, key, where, msg, st.path(10))
		}
	}
	note := func(c, f string, a ...interface{}) {
		if c == id {
			r.Note(f, a...)
		}
	}
	roots, sites := p.fetchRoots(fetch)
	if len(roots) == 0 {
		r.Note("no task that downloads metadata was found")
		r.Bad("anchors", "download task", "?", "nothing in package dht calls peerwire.FetchMetaData", nil)
		return
	}
	if id == "C29" {
		// the address in the context is the one the announce came from
		for _, root := range p.packetRoots() {
			p.packet(r, root, "q", func(pr *packetRun, m *message) {
				pr.handler = func(s *Sim, st *State, c *CallEv, ctx *Term) {
					site := p.FuncName(c.Frame.fn)
					r.Ob("the context has the sender's address", site)
					if a := p.contextAddr(s, st, ctx); a != nil && !p.packetAddr(s, st, a) {
						bad(id, "the context has the sender's address", site, p.InstrPos(c.Instr), "the address a handler gets is "+short(a.String(), 60)+", not the one the message came from", st)
					}
				}
			})
		}
	}
	for _, t := range sites {
		if id != "C29" || t.MC == nil {
			continue
		}
		r.Ob(own, p.FuncName(t.Fn))
		for _, b := range t.MC.Bindings {
			if al, ok := b.(*ssa.Alloc); ok {
				if sto := storeAfter(t.MC, al); sto != nil {
					r.Bad(own, p.FuncName(t.Fn), p.InstrPos(sto), "the variable "+al.Comment+" is assigned again while the download started for it may not have read it", nil)
				}
			}
		}
	}
	mkdirs := false // a directory is created somewhere
	onPath := map[*ssa.Function]bool{}
	for _, root := range roots {
		for f := range p.directReach(root, "dht") {
			onPath[f] = true
		}
	}
	for _, f := range p.Funcs {
		if onPath[f] || f.Pkg != p.Pkg("dht") && f.Pkg != p.Pkg("cmd") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					n := p.CalleeName(c.Common())
					mkdirs = mkdirs || n == "os.MkdirAll" || n == "os.Mkdir"
				}
			}
		}
	}
	errT := types.Universe.Lookup("error").Type()
	remote := func(st *State, t *Term) bool {
		return t.any(func(x *Term) bool { return x.op == "lookup" || x.op == "param" || x.op == "free" || x.op == "recv" })
	}
	one := func(st *State, k string) *Term {
		if l := st.L[k]; len(l) > 0 {
			return l[len(l)-1]
		}
		return nil
	}
	// place checks a path and returns its directory and name, with # for the info-hash and ? for what is unknown
	place := func(s *Sim, st *State, c *CallEv, t *Term, dirOnly bool) (dir, name string, known bool) {
		if t.op == "tmpname" {
			return "", "", false
		}
		key, where := p.site(c.Instr, "path"), p.InstrPos(c.Instr)
		txt := ""
		for _, q := range s.textOf(st, t) {
			switch {
			case q.t == nil:
				txt += q.s
			case q.verb == 'x':
				txt += "#"
				if h := one(st, "hash"); h != nil {
					ob("C18", named, key)
					if rawText(q.t) != h {
						bad("C18", named, key, where, "the file is named after something else than the info-hash the metadata was verified against", st)
					}
				}
			default:
				txt += "?"
				if remote(st, q.t) {
					ob("C19", safe, key)
					bad("C19", safe, key, where, "a part of the path is raw data from the network", st)
				} else if q.t.any(func(x *Term) bool {
					return strings.Contains(x.aux, "os.TempDir") || strings.Contains(x.aux, "os.UserHomeDir")
				}) {
					bad("C19", inside, key, where, "a file is put outside of the torrent directory", st)
				}
			}
		}
		full := path.Clean(strings.ReplaceAll(txt, "\\", "/"))
		if dirOnly {
			return full, "", true
		}
		dir, name = path.Split(full)
		return path.Clean(dir), name, true
	}
	inDir := func(st *State, c *CallEv, dir string) {
		key, where := p.site(c.Instr, "directory"), p.InstrPos(c.Instr)
		ob("C19", inside, key)
		if strings.Contains(dir, "?") {
			note("C19", "%s: the directory is not a constant", where)
			return
		}
		if dir != "torrent" {
			bad("C19", inside, key, where, "a file is put outside of the torrent directory ("+dir+")", st)
			return
		}
		ob("C19", exists, key)
		if st.F["mk "+dir] == 0 {
			if mkdirs && st.F["mkdir"] == 0 {
				note("C19", "%s: the directory is created elsewhere", where)
			} else {
				bad("C19", exists, key, where, "a file is created although the torrent directory may be missing", st)
			}
		}
	}
	fid := func(o *Term) string { return fmt.Sprint(o.id) }
	// opened: a file was opened under a name
	opened := func(st *State, o, name *Term) {
		st.AddL("files", o)
		st.L["name "+fid(o)] = []*Term{name}
	}
	isFile := func(st *State, t *Term) bool { return st.HasL("files", t) }
	nameOf := func(st *State, o *Term) *Term { return one(st, "name "+fid(o)) }
	// wholeData: what is written is the result of the download, unchanged
	wrote := func(s *Sim, st *State, c *CallEv, o, data *Term) {
		key, where := p.site(c.Instr, "write"), p.InstrPos(c.Instr)
		ob("C18", written, key)
		ob("C19", atomic, key)
		d := one(st, "data")
		if d == nil {
			bad("C18", written, key, where, "a torrent file is written although no metadata was downloaded successfully", st)
			return
		}
		got := rawText(s.content(st, data))
		if got == d || got == rawText(s.content(st, d)) {
			st.F["all "+fid(o)] = 1
			return
		}
		if base, _ := s.sliceOf(got); got.has(d) || base == d || got.isConst() || !got.any(func(x *Term) bool { return x.op == "hv" || x.op == "res" || x.op == "phi" || x.op == "load" }) {
			bad("C18", written, key, where, "what is written is not exactly the downloaded metadata", st)
			return
		}
		note("C18", "%s: what is written is not recognised", where)
	}
	result := func(res ...*Term) Outcome { return Outcome{Res: res} }
	failing := func(s *Sim, c *CallEv, n int, zero func(i int, t types.Type) *Term, apply func(st *State)) Outcome {
		sig := c.Instr.Common().Signature().Results()
		var res []*Term
		for i := 0; i < n-1; i++ {
			res = append(res, zero(i, sig.At(i).Type()))
		}
		e := s.tt.mk("res", s.siteID(c.Frame, c.Instr, "err "+c.Name), errT)
		res = append(res, e)
		return Outcome{Res: res, Apply: func(st *State) bool {
			st.facts[s.tt.mk("isnil", "", nil, e)] = false
			if apply != nil {
				apply(st)
			}
			return true
		}}
	}
	zero := func(s *Sim) func(int, types.Type) *Term {
		return func(i int, t types.Type) *Term { return s.zero(t) }
	}
	okWith := func(f func(st *State), res ...*Term) Outcome {
		return Outcome{Res: res, Apply: func(st *State) bool {
			if f != nil {
				f(st)
			}
			return true
		}}
	}
	// a write that fails may have written a part, but not everything
	short := func(s *Sim, c *CallEv, n *Term, apply func(st *State)) Outcome {
		m := s.tt.mk("res", s.siteID(c.Frame, c.Instr, "written "+c.Name), types.Typ[types.Int])
		return failing(s, c, 2, func(int, types.Type) *Term { return m }, func(st *State) {
			s.addLe(st, s.tt.Int(0), m, 0)
			s.addLe(st, m, n, -1)
			apply(st)
		})
	}
	started := 0
	h := Hooks{}
	h.Call = func(s *Sim, st *State, c *CallEv) *Verdict {
		where := p.InstrPos(c.Instr)
		nilE := s.tt.Nil(errT)
		if c.Fn == fetch {
			started++
			p.checkAddr(s, st, c, c.Args[0], ob, bad, note, host, port, form)
			data := s.fresh(st, s.tt.mk("res", s.siteID(c.Frame, c.Instr, "metadata"), fetch.Signature.Results().At(0).Type()))
			hash := rawText(c.Args[2])
			for _, k := range []string{"data", "hash"} {
				delete(st.L, k)
			}
			return &Verdict{Opaque: true, Outcomes: []Outcome{
				okWith(func(st *State) {
					st.L["data"] = []*Term{data}
					st.L["hash"] = []*Term{hash}
				}, data, nilE),
				failing(s, c, 2, zero(s), nil),
			}}
		}
		meth := func(o *Term) string {
			fail := func(k string) func(st *State) {
				return func(st *State) { st.F["bad "+fid(o)] = 1 }
			}
			switch c.Name[strings.LastIndex(c.Name, ".")+1:] {
			case "Write", "WriteString":
				wrote(s, st, c, o, c.Args[1])
				return "write"
			case "Sync":
				_ = fail
				return "sync"
			case "Close":
				return "close"
			case "Chmod", "Chown", "Truncate", "Seek":
				return "other"
			case "Name":
				return "name"
			}
			return ""
		}
		if len(c.Args) > 0 && strings.HasPrefix(c.Name, "(*os.File).") && isFile(st, c.Args[0]) {
			o := c.Args[0]
			k := fid(o)
			switch meth(o) {
			case "write":
				n := s.lenTerm(st, c.Args[1])
				return &Verdict{Opaque: true, Outcomes: []Outcome{
					okWith(nil, n, nilE),
					short(s, c, n, func(st *State) { st.F["bad "+k] = 1 }),
				}}
			case "sync":
				return &Verdict{Opaque: true, Outcomes: []Outcome{
					okWith(func(st *State) {
						if st.F["all "+k] > 0 {
							st.F["flushed "+k] = 1
						}
					}, nilE),
					failing(s, c, 1, zero(s), func(st *State) { st.F["bad "+k] = 1 }),
				}}
			case "close":
				if st.F["closed "+k] > 0 {
					return &Verdict{Opaque: true, Outcomes: []Outcome{failing(s, c, 1, zero(s), nil)}}
				}
				st.F["closed "+k] = 1
				return &Verdict{Opaque: true, Outcomes: []Outcome{
					okWith(func(st *State) {
						if st.F["all "+k] > 0 {
							st.F["flushed "+k] = 1
						}
					}, nilE),
					failing(s, c, 1, zero(s), func(st *State) {
						if st.F["flushed "+k] == 0 && st.F["all "+k] > 0 {
							st.F["bad "+k] = 1
						}
					}),
				}}
			case "name":
				if n := nameOf(st, o); n != nil {
					return &Verdict{Opaque: true, Outcomes: []Outcome{result(n)}}
				}
			case "other":
				return nil
			}
			return nil
		}
		switch c.Name {
		case "(*net.UDPAddr).String", "(*net.TCPAddr).String":
			ip, pt := s.fieldOf(st, c.Args[0], orType(c.Args[0].typ), "IP"), s.fieldOf(st, c.Args[0], orType(c.Args[0].typ), "Port")
			if ip == nil || pt == nil {
				return nil
			}
			str := types.Typ[types.String]
			a := s.tt.mk("app", "net.JoinHostPort", str, s.tt.mk("app", "(net.IP).String", str, s.pureArgs(st, []*Term{ip})...), s.tt.mk("app", "strconv.Itoa", str, pt))
			return &Verdict{Opaque: true, Outcomes: []Outcome{result(a)}}
		case "os.MkdirAll", "os.Mkdir":
			dir, _, known := place(s, st, c, c.Args[0], true)
			if known {
				ob("C19", exists, p.site(c.Instr, "mkdir"))
				if perm, ok := rawText(c.Args[1]).intVal(); ok && perm&0300 != 0300 {
					bad("C19", exists, p.site(c.Instr, "mkdir"), where, "no file can be created in the torrent directory with these permissions", st)
				}
			}
			st.F["mkdir"] = 1
			return &Verdict{Opaque: true, Outcomes: []Outcome{
				okWith(func(st *State) { st.F["mk "+dir] = 1 }, nilE),
				failing(s, c, 1, zero(s), func(st *State) { st.F["mk "+dir] = 1 }),
			}}
		case "os.Stat", "os.Lstat":
			dir, _, _ := place(s, st, c, c.Args[0], true)
			sig := c.Instr.Common().Signature().Results()
			info := s.tt.mk("res", s.siteID(c.Frame, c.Instr, "stat"), sig.At(0).Type())
			return &Verdict{Opaque: true, Outcomes: []Outcome{
				okWith(func(st *State) {
					st.F["mk "+dir] = 1
					st.facts[s.tt.mk("isnil", "", nil, info)] = false
				}, info, nilE),
				failing(s, c, 2, zero(s), nil),
			}}
		case "os.Create", "os.OpenFile":
			excl := false
			if c.Name == "os.OpenFile" {
				fl, ok := rawText(c.Args[1]).intVal()
				excl = !ok || fl&0x80 != 0 // O_EXCL
				if ok && fl&3 == 0 {
					return nil // only read
				}
			}
			dir, _, known := place(s, st, c, c.Args[0], false)
			if known {
				inDir(st, c, dir)
			}
			o := s.fresh(st, s.tt.mk("obj", s.siteID(c.Frame, c.Instr, "file"), c.Instr.Common().Signature().Results().At(0).Type()))
			name := c.Args[0]
			return &Verdict{Opaque: true, Outcomes: []Outcome{
				okWith(func(st *State) {
					opened(st, o, name)
					if excl {
						st.F["excl "+fid(o)] = 1
					}
					st.facts[s.tt.mk("isnil", "", nil, o)] = false
				}, o, nilE),
				failing(s, c, 2, zero(s), nil),
			}}
		case "io/ioutil.TempFile", "os.CreateTemp":
			dir, _, known := place(s, st, c, c.Args[0], true)
			if known {
				if d, ok := c.Args[0].strVal(); ok && d == "" {
					dir = "the system's directory for temporary files"
				}
				inDir(st, c, dir)
				_, _, _ = place(s, st, c, c.Args[1], false)
			}
			o := s.fresh(st, s.tt.mk("obj", s.siteID(c.Frame, c.Instr, "file"), c.Instr.Common().Signature().Results().At(0).Type()))
			name := s.tt.mk("tmpname", dir, types.Typ[types.String], o)
			return &Verdict{Opaque: true, Outcomes: []Outcome{
				okWith(func(st *State) {
					opened(st, o, name)
					st.F["excl "+fid(o)] = 1
					st.facts[s.tt.mk("isnil", "", nil, o)] = false
				}, o, nilE),
				failing(s, c, 2, zero(s), nil),
			}}
		case "io/ioutil.WriteFile", "os.WriteFile":
			dir, _, known := place(s, st, c, c.Args[0], false)
			if known {
				inDir(st, c, dir)
			}
			var o *Term
			for _, f := range st.L["files"] {
				if n := nameOf(st, f); n == c.Args[0] && st.F["closed "+fid(f)] > 0 {
					o = f // a file that was created exclusively before
				}
			}
			if o == nil {
				o = s.fresh(st, s.tt.mk("obj", s.siteID(c.Frame, c.Instr, "file"), types.Typ[types.String]))
				opened(st, o, c.Args[0])
			}
			wrote(s, st, c, o, c.Args[1])
			k := fid(o)
			return &Verdict{Opaque: true, Outcomes: []Outcome{
				okWith(func(st *State) { st.F["flushed "+k] = 1 }, nilE),
				failing(s, c, 1, zero(s), func(st *State) { st.F["bad "+k] = 1 }),
			}}
		case "io.Copy", "io.WriteString":
			if isFile(st, rawText(c.Args[0])) {
				o := rawText(c.Args[0])
				k := fid(o)
				src := c.Args[1]
				if c.Name == "io.Copy" {
					src = rawText(src)
					if (src.op == "res" || src.op == "app") && len(src.sub) == 1 && strings.HasPrefix(src.aux[strings.LastIndex(src.aux, "/")+1:], "bytes.New") {
						src = src.sub[0]
					} else if x := one(st, "reader "+fid(src)); x != nil {
						src = x
					}
				}
				wrote(s, st, c, o, src)
				return &Verdict{Opaque: true, Outcomes: []Outcome{
					okWith(nil, s.lenTerm(st, src), nilE),
					short(s, c, s.lenTerm(st, src), func(st *State) { st.F["bad "+k] = 1 }),
				}}
			}
		case "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).Flush":
			if l := st.L["bufio "+fid(c.Args[0])]; len(l) > 0 {
				o := l[0]
				k := fid(o)
				if !strings.HasSuffix(c.Name, "Flush") {
					wrote(s, st, c, o, c.Args[1])
					if st.F["all "+k] > 0 {
						st.F["all "+k], st.F["buffered "+k] = 0, 1
					}
					return &Verdict{Opaque: true, Outcomes: []Outcome{
						okWith(nil, s.lenTerm(st, c.Args[1]), nilE),
						short(s, c, s.lenTerm(st, c.Args[1]), func(st *State) { st.F["bad "+k] = 1 }),
					}}
				}
				return &Verdict{Opaque: true, Outcomes: []Outcome{
					okWith(func(st *State) {
						if st.F["buffered "+k] > 0 {
							st.F["all "+k] = 1
						}
					}, nilE),
					failing(s, c, 1, zero(s), func(st *State) { st.F["bad "+k] = 1 }),
				}}
			}
		case "os.Remove", "os.RemoveAll":
			for _, o := range st.L["files"] {
				if n := nameOf(st, o); n != nil && n == c.Args[0] && st.F["renamed "+fid(o)] == 0 {
					st.F["removed "+fid(o)] = 1
				}
			}
			return nil
		case "os.Rename", "os.Link":
			dir, name, known := place(s, st, c, c.Args[1], false)
			var o *Term
			for _, f := range st.L["files"] {
				if nameOf(st, f) == c.Args[0] {
					o = f
				}
			}
			key := p.site(c.Instr, "rename")
			ob("C19", atomic, key)
			if known {
				inDir(st, c, dir)
				ob("C19", safe, key)
				if !strings.Contains(name, "#") && !strings.Contains(name, "?") {
					bad("C19", safe, key, where, "the file is not named after the info-hash", st)
				}
			}
			if o == nil {
				note("C19", "%s: which file gets its final name is not recognised", where)
				return nil
			}
			k := fid(o)
			switch {
			case st.F["bad "+k] > 0:
				bad("C19", atomic, key, where, "a file gets its final name although writing it failed", st)
			case st.F["all "+k] == 0 && one(st, "data") != nil && len(st.L["lost "+k]) == 0:
				bad("C19", atomic, key, where, "a file gets its final name before its content was written", st)
			case st.F["flushed "+k] == 0 && len(st.L["lost "+k]) == 0:
				bad("C19", atomic, key, where, "a file gets its final name although flushing or closing it was not found to succeed", st)
			}
			n := nameOf(st, o)
			ob("C19", unique, key)
			if n.op != "tmpname" && st.F["excl "+k] == 0 {
				fixed := true
				for _, q := range s.textOf(st, n) {
					fixed = fixed && (q.t == nil || q.verb == 'x')
				}
				if fixed {
					bad("C19", unique, key, where, "two downloads of the same info-hash write the same temporary file, one can give it its final name while the other has only written a part", st)
				}
			}
			return &Verdict{Opaque: true, Outcomes: []Outcome{
				okWith(func(st *State) { st.F["renamed "+k] = 1 }, nilE),
				failing(s, c, 1, zero(s), func(st *State) { st.F["renamed "+k] = 1 }),
			}}
		}
		return nil
	}
	h.AfterCall = func(s *Sim, st *State, c *CallEv, res []*Term) {
		if len(res) == 0 || len(c.Args) == 0 {
			return
		}
		switch c.Name {
		case "bufio.NewWriter", "bufio.NewWriterSize":
			if o := rawText(c.Args[0]); isFile(st, o) {
				st.L["bufio "+fid(res[0])] = []*Term{o}
			}
			return
		case "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "strings.NewReader":
			st.L["reader "+fid(res[0])] = []*Term{c.Args[0]}
			return
		}
		if c.Fn == nil && !strings.HasPrefix(c.Name, "(*os.File).") && !strings.HasPrefix(c.Name, "builtin:") && !strings.HasPrefix(c.Name, "(misc.Logger)") {
			for _, a := range c.Args {
				if o := rawText(a); isFile(st, o) {
					note("C19", "%s: what %s does with the file is not known", p.InstrPos(c.Instr), c.Name)
					st.L["lost "+fid(o)] = []*Term{o}
				}
			}
		}
	}
	h.Return = func(s *Sim, st *State, res []*Term) {
		for _, o := range st.L["files"] {
			k := fid(o)
			if st.F["all "+k] == 0 && len(st.L["lost "+k]) == 0 || st.F["bad "+k] > 0 || st.F["renamed "+k] > 0 || st.F["removed "+k] > 0 {
				continue
			}
			n := nameOf(st, o)
			if n == nil || n.op == "tmpname" {
				continue
			}
			bad("C19", atomic, "in place", p.Pos(s.root.Pos()), "a torrent file is written under its final name: when writing stops half way an incomplete file is left", st)
		}
	}
	for _, root := range roots {
		r.explore(p, root, h, Opts{Numeric: true}, nil)
	}
	if started == 0 {
		r.Note("no path starts a download")
	}
	switch id {
	case "C29":
		r.Need(host, 1)
		r.Need(port, 1)
	case "C18":
		if started == 0 {
			r.Bad("anchors", "download", "?", "no download task reaches peerwire.FetchMetaData", nil)
		}
	}
}

// checkAddr classifies the address of a download.
func (p *Program) checkAddr(s *Sim, st *State, c *CallEv, t *Term, ob func(c, rule, key string), bad func(c, rule, key, where, msg string, st *State), note func(c, f string, a ...interface{}), host, port, form string) {
	key, where := p.site(c.Instr, "address"), p.InstrPos(c.Instr)
	t = rawText(t)
	var hp, pp []textPart
	if t.op == "app" && t.aux == "net.JoinHostPort" {
		hp, pp = s.textOf(st, t.sub[0]), s.textOf(st, t.sub[1])
		ob("C29", form, key)
	} else {
		ps := s.textOf(st, t)
		cut := -1
		for i, q := range ps {
			if q.t == nil && strings.HasSuffix(q.s, ":") {
				cut = i
			}
		}
		if cut < 1 || cut+1 >= len(ps) {
			if !t.any(func(x *Term) bool { return x.typ != nil && x.typ.String() == "*net.UDPAddr" }) && !t.any(func(x *Term) bool { return x.op == "hv" || x.op == "phi" || x.op == "top" || x.op == "res" }) {
				ob("C29", host, key)
				bad("C29", host, key, where, "the download is not directed at the announcing node", st)
				return
			}
			note("C29", "%s: how the address is formed is not recognised", where)
			ob("C29", host, key)
			ob("C29", port, key)
			return
		}
		ob("C29", form, key)
		hp, pp = ps[:cut], ps[cut+1:]
		if sep := ps[cut].s; sep == "]:" && hp[0].t == nil && hp[0].s == "[" {
			hp = hp[1:]
		} else {
			bad("C29", form, key, where, "host and port are joined with a colon only, which is not a valid address for IPv6", st)
		}
	}
	ob("C29", host, key)
	ob("C29", port, key)
	// host
	if len(hp) == 1 && hp[0].t != nil && s.udpPart(st, hp[0].t, "IP") != nil {
		hp[0].t.any(func(x *Term) bool {
			if x.op == "app" && x.aux == "(net.IP).To4" {
				if isnil, ok := s.truth(st, s.eqT(x, s.tt.Nil(x.typ))); !ok || isnil {
					bad("C29", form, key, where, "the host is the IPv4 form of the address, which an IPv6 address does not have", st)
				}
			}
			return false
		})
		if x := s.udpPart(st, hp[0].t, "IP"); !p.ofContext(x) {
			bad("C29", host, key, where, "the download is directed at an address that is not that of the announcing node", st)
		}
	} else if len(hp) == 1 && hp[0].t != nil && hp[0].t.any(func(x *Term) bool {
		return s.udpPart(st, x, "IP") != nil || x.op == "phi" || x.op == "hv" || x.op == "res"
	}) {
		note("C29", "%s: where the host of the address comes from is not recognised", where)
	} else {
		bad("C29", host, key, where, "the host of the address is not the IP address of the announcing node", st)
	}
	// port
	if len(pp) != 1 || pp[0].t == nil {
		bad("C29", port, key, where, "the port of the address is neither the announced one nor the UDP port", st)
		return
	}
	x := rawText(pp[0].t)
	udp := s.udpPart(st, x, "Port")
	d := isEntry(x, "port")
	if udp == nil && d == nil {
		cut := false
		x.any(func(y *Term) bool {
			cut = cut || y.op == "conv" && lossy(y.typ, y.sub[0].typ)
			return cut
		})
		if cut {
			bad("C29", port, key, where, "the port is converted to a type that cannot hold every port", st)
			return
		}
		if x.any(func(y *Term) bool { return y.op == "phi" || y.op == "hv" || y.op == "res" }) {
			note("C29", "%s: where the port of the address comes from is not recognised", where)
			return
		}
		bad("C29", port, key, where, "the port of the address is neither the announced one nor the UDP port", st)
		return
	}
	if d != nil && pp[0].t.any(func(y *Term) bool {
		return y.op == "conv" && isIntType(orType(y.typ)) && isIntType(orType(y.sub[0].typ)) && typeBits(y.typ) < typeBits(y.sub[0].typ) && !(s.entailsLe(st, s.tt.Int(0), y.sub[0], 0) && s.entailsLe(st, y.sub[0], s.tt.Int(1<<15-1), 0)) &&
			!(typeBits(y.typ) == 16 && isUnsigned(y.typ) && s.entailsLe(st, s.tt.Int(0), y.sub[0], 0) && s.entailsLe(st, y.sub[0], s.tt.Int(1<<16-1), 0))
	}) {
		bad("C29", port, key, where, "the announced port is cut to a smaller type without having been found to fit it: another port is used", st)
		return
	}
	if udp != nil && !p.ofContext(udp) {
		bad("C29", port, key, where, "the port of the address is not the UDP port of the announcing node", st)
		return
	}
	// what is known about implied_port
	present, absent, pos, zero := false, false, false, false
	look := func(y *Term) {
		if !isIntType(orType(y.typ)) || isEntry(y, "implied_port") == nil || y.op == "lookup" {
			return
		}
		z := s.tt.Int(0)
		pos = pos || s.entailsLe(st, s.tt.Int(1), y, 0)
		zero = zero || s.entailsLe(st, y, z, 0)
		if b, k := s.truth(st, s.ltT(z, y)); k {
			pos, zero = pos || b, zero || !b
		}
		if b, k := s.truth(st, s.eqT(y, z)); k {
			pos, zero = pos || !b, zero || b
		}
	}
	for f, v := range st.facts {
		switch f.op {
		case "haskey":
			if k, ok := f.sub[len(f.sub)-1].strVal(); ok && k == "implied_port" {
				present, absent = present || v, absent || !v
			}
		case "istype":
			if isEntry(f.sub[0], "implied_port") != nil {
				present, absent = present || v, absent || !v
			}
		}
		f.any(func(y *Term) bool { look(y); return false })
	}
	for y := range st.num.vars {
		look(y)
	}
	if udp != nil {
		if !pos {
			bad("C29", port, key, where, "the UDP port is used although implied_port was not found present and positive", st)
		}
	} else if !absent && !zero {
		bad("C29", port, key, where, "the announced port is used although implied_port may be present and positive", st)
	}
	_ = present
}

// ofContext: the address belongs to the context of the announce.
func (p *Program) ofContext(x *Term) bool {
	return x.any(func(y *Term) bool {
		return y.typ != nil && p.isPtrTo(y.typ, "dht/krpc", "RpcContext")
	})
}
