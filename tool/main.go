package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Violation is one broken obligation: a rule, the construct that breaks it and the path to it.
type Violation struct {
	Property string   `json:"property"`
	Rule     string   `json:"rule"`
	Key      string   `json:"key"` // stable name of the construct: no line numbers
	Where    string   `json:"where"`
	Message  string   `json:"message"`
	Path     []string `json:"path,omitempty"`
}

// Report collects what a check examined.
type Report struct {
	Prop       string
	Rules      []string
	Oblig      map[string]int // rule -> obligations examined
	seenOblig  map[string]bool
	Samples    []string
	Funcs      map[string]bool
	States     int
	Violations []Violation
	vseen      map[string]bool
	Notes      []string
	Assume     []string
}

func NewReport(prop string) *Report {
	return &Report{Prop: prop, Oblig: map[string]int{}, seenOblig: map[string]bool{}, Funcs: map[string]bool{}, vseen: map[string]bool{}}
}

// Ob counts an obligation once per construct.
func (r *Report) Ob(rule, construct string) {
	k := rule + "\x00" + construct
	if r.seenOblig[k] {
		return
	}
	r.seenOblig[k] = true
	r.Oblig[rule]++
	if os.Getenv("P2PV_OBS") != "" {
		fmt.Fprintf(os.Stderr, "OB %s: %s\n", rule, construct)
	}
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, rule+": "+construct)
	}
}

func (r *Report) Bad(rule, key, where, msg string, path []string) {
	k := rule + "\x00" + key
	if r.vseen[k] {
		return
	}
	r.vseen[k] = true
	r.Violations = append(r.Violations, Violation{Property: r.Prop, Rule: rule, Key: key, Where: where, Message: msg, Path: path})
}

// Need fails the check when fewer constructs than confirmed by hand were found.
func (r *Report) Need(rule string, n int) {
	if r.Oblig[rule] < n {
		r.Bad("anchors", rule, "?", fmt.Sprintf("rule %q matched %d constructs, at least %d are needed: the code it decides was not found", rule, r.Oblig[rule], n), nil)
	}
}

func (r *Report) total() int {
	n := 0
	for _, v := range r.Oblig {
		n += v
	}
	return n
}

// Check decides one property.
type Check struct {
	ID   string
	Rule string // what is decided, for the evidence
	Run  func(p *Program, r *Report)
}

var checks = map[string]*Check{}

func register(id, rule string, run func(p *Program, r *Report)) {
	checks[id] = &Check{ID: id, Rule: rule, Run: run}
}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory with known findings and evidence")
	prop := flag.String("check", "", "property id, or 'all'")
	simFn := flag.String("sim", "", "debug: pkg:func or pkg:type.func to simulate")
	numeric := flag.Bool("numeric", false, "debug: numeric mode")
	panics := flag.Bool("panics", false, "debug: implicit panics")
	list := flag.Bool("list", false, "list checks")
	flag.Parse()
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Printf("%s\t%s\n", id, checks[id].Rule)
		}
		return
	}
	start := time.Now()
	p, err := LoadProgram(*repo)
	if *simFn != "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		debugSim(p, *simFn, *numeric, *panics)
		return
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	bad := false
	for _, id := range ids {
		c := checks[id]
		if c == nil {
			fmt.Printf("no check for %s\n", id)
			bad = true
			continue
		}
		t := time.Now()
		if len(ids) == 1 {
			t = start
		}
		if !runCheck(c, p, err, *verif, t) {
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}

func runCheck(c *Check, p *Program, loadErr error, verif string, start time.Time) bool {
	r := NewReport(c.ID)
	if loadErr != nil {
		r.Bad("load", "type-check", "?", loadErr.Error(), nil)
	} else {
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.Bad("internal", "analysis failed", "?", fmt.Sprint(e), strings.Split(string(debug.Stack()), "\n"))
					if os.Getenv("P2PV_STACK") != "" {
						os.Stderr.Write(debug.Stack())
					}
				}
			}()
			c.Run(p, r)
		}()
		if r.total() == 0 {
			r.Bad("anchors", "nothing examined", "?", "the rule matched no construct of the tree", nil)
		}
	}
	known := loadKnown(verif, c.ID)
	var open []Violation
	var acc []string
	for _, v := range r.Violations {
		k := v.Rule + " " + v.Key
		if d, ok := known[k]; ok {
			acc = append(acc, k)
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", c.ID, k, d, v.Where)
			continue
		}
		open = append(open, v)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 0
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	var fns []string
	for f := range r.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"explanation":         fmt.Sprintf("Static analysis of the type-checked SSA form of the current tree; nothing is executed. Rule: %s. %d obligations in %d functions were examined, %d failed, %d of these are recorded findings.", c.Rule, r.total(), len(fns), len(r.Violations), len(acc)),
		"rule":                c.Rule,
		"obligations_by_rule": r.Oblig,
		"obligations":         r.total(),
		"discharged":          r.total() - len(r.Violations),
		"functions_analysed":  fns,
		"abstract_states":     r.States,
		"samples":             r.Samples,
		"notes":               r.Notes,
		"known_findings":      acc,
	}
	if r.total() < len(r.Violations) {
		cov["discharged"] = 0
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(open),
		"assumptions": append([]string{"the type checker and go/ssa represent the program the Go compiler builds", "library functions behave as documented"}, r.Assume...),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(b, '\n'), 0644)
	if len(open) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d states=%d\n", c.ID, r.total(), len(fns), r.States)
		return true
	}
	rp := filepath.Join(verif, "evidence", c.ID+".violation.json")
	b, _ = json.MarshalIndent(open, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0644)
	for _, v := range open {
		fmt.Printf("%s: [%s] %s: %s\n", v.Where, v.Rule, v.Key, v.Message)
		if len(v.Path) > 0 {
			n := v.Path
			if len(n) > 14 {
				n = n[len(n)-14:]
			}
			fmt.Printf("    path: %s\n", strings.Join(n, " -> "))
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
	return false
}

// loadKnown reads the recorded findings: lines "known: property=<id> <rule> <key> :: <description>".
func loadKnown(verif, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + id + " "
		if strings.HasPrefix(l, pre) {
			kv := strings.SplitN(strings.TrimPrefix(l, pre), " :: ", 2)
			d := ""
			if len(kv) > 1 {
				d = kv[1]
			}
			out[strings.TrimSpace(kv[0])] = d
		}
	}
	return out
}

func debugSim(p *Program, spec string, numeric, panics bool) {
	parts := strings.SplitN(spec, ":", 2)
	rel, name := parts[0], parts[1]
	fn := p.Func(rel, name)
	if i := strings.IndexByte(name, '.'); i >= 0 {
		fn = p.Method(rel, name[:i], name[i+1:])
	}
	if fn == nil {
		fmt.Println("not found")
		return
	}
	s := NewSim(p, nil, Hooks{
		Return: func(s *Sim, st *State, res []*Term) {
			fmt.Printf("RETURN %v\n", res)
			for f, v := range st.facts {
				fmt.Printf("    %v = %v\n", f, v)
			}
		},
		PanicOut: func(s *Sim, st *State, v *Term) { fmt.Printf("PANIC %v  path %v\n", v, st.path(6)) },
		Index: func(s *Sim, st *State, in ssaInstr, b, i *Term, ok bool) {
			if !ok {
				fmt.Printf("INDEX unproved %s %v[%v]\n", p.InstrPos(in), b, i)
			}
		},
		Slice: func(s *Sim, st *State, in ssaInstr, b, lo, hi, mx *Term, ok bool) {
			if !ok {
				fmt.Printf("SLICE unproved %s %v[%v:%v]\n", p.InstrPos(in), b, lo, hi)
			}
		},
	}, Opts{Numeric: numeric, ImplicitPanics: panics})
	t := time.Now()
	err := s.Run(fn, nil)
	fmt.Printf("states %d steps %d inlined %d err %v time %v\n", s.States, s.Steps, len(s.Inlined), err, time.Since(t))
}
