// Package props decides the properties of /verif/properties.jsonl from the
// abstract interpretation of /repo's source.
package props

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"diskcheck/ai"

	"golang.org/x/tools/go/ssa"
)

// Violation is a construct that breaks the property.
type Violation struct {
	Rule   string
	Where  string
	Detail string
}

// Ctx collects the outcome of one property's check.
type Ctx struct {
	StepLimit int // steps a run may take, if not 0
	MaxRun    int // most steps a run took
	P         *ai.Program
	ID        string
	Viol      []Violation
	Rules     map[string]int // rule -> obligations examined
	Funcs     map[string]bool
	Externs   map[string]int
	Samples   []string
	Notes     []string
	Sections  []string
	Undec     []Violation // what the analysis could not decide
	Steps     int
	seen      map[string]bool
	Thorough  bool
}

// Sec is one analysis run on a fresh engine.
type Sec struct {
	*Ctx
	E    *ai.Engine
	Name string
}

// Fail records a violation.
func (c *Ctx) Fail(rule, where, format string, a ...interface{}) {
	d := fmt.Sprintf(format, a...)
	k := rule + "|" + where + "|" + d
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	if len(c.Viol) < 60 {
		c.Viol = append(c.Viol, Violation{rule, where, d})
	}
}

// Undecided records that a part of the analysis gave up: it is reported, but
// it is not a violation, since no construct that breaks the property was found.
func (c *Ctx) Undecided(rule, where, format string, a ...interface{}) {
	d := fmt.Sprintf(format, a...)
	k := rule + "|" + where + "|" + d
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	if len(c.Undec) < 60 {
		c.Undec = append(c.Undec, Violation{rule, where, d})
	}
}

// Ok counts one examined obligation.
func (c *Ctx) Ok(rule string, n int) { c.Rules[rule] += n }

// Check records an obligation and its verdict.
func (c *Ctx) Check(ok bool, rule, where, format string, a ...interface{}) bool {
	c.Rules[rule]++
	if !ok {
		c.Fail(rule, where, format, a...)
	}
	return ok
}

// Sample records a piece of evidence.
func (c *Ctx) Sample(format string, a ...interface{}) {
	if len(c.Samples) < 40 {
		c.Samples = append(c.Samples, fmt.Sprintf(format, a...))
	}
}

type missing struct{ what string }

// Section runs f on a fresh engine. A construct the engine cannot follow
// leaves the section undecided; a run that does not come to an end within the
// limits (a loop, recursion or set of paths without a bound) is a violation.
func (c *Ctx) Section(name string, f func(s *Sec)) {
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(missing); ok {
				c.Undecided("anchor", name, "%s", m.what)
				return
			}
			if w, unbounded, ok := ai.Undecided(r); ok {
				if unbounded {
					c.Fail("unbounded", name, "%s", w)
				} else {
					c.Undecided("construct", name, "%s", w)
				}
				return
			}
			c.Undecided("analysis-failure", name, "%v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	if o := os.Getenv("DC_ONLY"); o != "" && !strings.Contains(name, o) {
		return
	}
	if os.Getenv("DC_TRACE") != "" {
		t0 := time.Now()
		defer func() { fmt.Fprintf(os.Stderr, "section %s: %.1fs\n", name, time.Since(t0).Seconds()) }()
	}
	e, err := c.P.NewEngine()
	if err != nil {
		c.Undecided("initialisation", name, "%v", err)
		return
	}
	s := &Sec{Ctx: c, E: e, Name: name}
	if os.Getenv("DC_TRACE") != "" {
		defer func() {
			fmt.Fprintf(os.Stderr, "steps %s: %d, at most %d in a run so far\n", name, e.Steps(), c.MaxRun)
		}()
		stop := make(chan bool)
		defer close(stop)
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(10 * time.Second):
					fmt.Fprintf(os.Stderr, "  at %s (%d steps)\n", e.StackStr(), e.Steps())
				}
			}
		}()
	}
	c.Sections = append(c.Sections, name)
	dbg, dbgSeen := os.Getenv("DC_SAFE") != "", map[string]bool{}
	e.OnObligation = func(o ai.Obligation) {
		if o.Proven {
			return
		}
		if o.Definite || o.Exact {
			c.Fail("panic", o.Fn.String()+" ("+e.Pos(o.Instr.Pos())+")", "%s: %s fails for inputs of section %q (call path %s)", o.Kind, o.Detail, name, o.Stack)
		}
		if k := fmt.Sprintf("SAFE %v %v %s %s %s", o.Definite, o.Exact, o.Kind, e.Pos(o.Instr.Pos()), o.Fn); dbg && !dbgSeen[k] {
			dbgSeen[k] = true
			fmt.Fprintf(os.Stderr, "%s %s [%s] %s\n", k, o.Detail, name, o.Stack)
		}
	}
	defer func() {
		for fn := range e.Analysed {
			c.Funcs[fn.String()] = true
		}
		for k, n := range e.ExtSeen {
			c.Externs[k] += n
		}
		c.Steps += e.Steps()
	}()
	f(s)
	for _, p := range e.Problems {
		c.Undecided("construct", name, "%s", p)
	}
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 24 {
		l = l[:24]
	}
	return strings.Join(l, "\n")
}

// ---- lookup of anchors

// Pkg finds a repository package by its path relative to the module.
func (c *Ctx) Pkg(rel string) *ssa.Package {
	p := c.P.Module
	if rel != "" {
		p += "/" + rel
	}
	if sp := c.P.ByPath[p]; sp != nil {
		return sp
	}
	panic(missing{"package " + p + " not found"})
}

// Fn finds a package-level function.
func (c *Ctx) Fn(rel, name string) *ssa.Function {
	if f := c.Pkg(rel).Func(name); f != nil {
		return f
	}
	panic(missing{"function " + rel + "." + name + " not found"})
}

// Type finds a named type.
func (c *Ctx) Type(rel, name string) types.Type {
	if t := c.Pkg(rel).Type(name); t != nil {
		return t.Type()
	}
	panic(missing{"type " + rel + "." + name + " not found"})
}

// Method finds a method of T or *T.
func (c *Ctx) Method(t types.Type, name string) *ssa.Function {
	if f := c.TryMethod(t, name); f != nil {
		return f
	}
	panic(missing{"method " + name + " of " + t.String() + " not found"})
}

// TryMethod finds a method, or nil. The function takes a T if T has the
// method itself and a *T otherwise.
func (c *Ctx) TryMethod(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := c.P.Prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			sel := ms.At(i)
			if sel.Obj().Name() == name {
				return c.P.Prog.MethodValue(sel)
			}
		}
	}
	return nil
}

// Global finds a package-level variable.
func (c *Ctx) Global(rel, name string) *ssa.Global {
	if g := c.Pkg(rel).Var(name); g != nil {
		return g
	}
	panic(missing{"variable " + rel + "." + name + " not found"})
}

// ---- running

// Run calls fn.
func (s *Sec) Run(fn *ssa.Function, st *ai.State, args ...ai.Value) []ai.CallRes {
	n := s.E.Steps()
	if s.StepLimit > 0 {
		s.E.StepLimit = n + s.StepLimit
	}
	r := s.E.Call(fn, args, st)
	if n = s.E.Steps() - n; n > s.MaxRun {
		s.MaxRun = n
	}
	return r
}

func (s *Sec) where(fn *ssa.Function) string {
	return fn.String() + " (" + s.E.Pos(fn.Pos()) + ")"
}

// Bytes makes an unknown byte slice of length n.
func (s *Sec) Bytes(st *ai.State, name string, n ai.Lin) ai.SliceV {
	return s.E.NewBytes(st, s.E.InputContent(name, n, types.Typ[types.Uint8]))
}

// Int makes an unknown integer in [lo,hi].
func (s *Sec) Int(name string, lo, hi int64) ai.IntV {
	return ai.IntV{L: ai.Of(s.E.U.Input(name, lo, hi))}
}

func num(n int64) ai.IntV { return ai.IntV{L: ai.Num(n)} }

// fieldPath finds a (possibly promoted) field.
func (s *Sec) fieldPath(t types.Type, name string) []int {
	if p := findField(t, name, 0); p != nil {
		return p
	}
	panic(missing{"field " + name + " of " + t.String() + " not found"})
}

func findField(t types.Type, name string, depth int) []int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 4 {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if p := findField(st.Field(i).Type(), name, depth+1); p != nil {
				return append([]int{i}, p...)
			}
		}
	}
	return nil
}

// Field reads a field of a struct value.
func (s *Sec) Field(v ai.Value, t types.Type, name string) ai.Value {
	for _, i := range s.fieldPath(t, name) {
		sv, ok := v.(ai.StructV)
		if !ok {
			panic(missing{"value of " + t.String() + " is not a struct value"})
		}
		v = sv.F[i]
	}
	return v
}

// ret splits a result tuple.
func ret(v ai.Value, i int) ai.Value {
	if t, ok := v.(ai.TupleV); ok {
		return t[i]
	}
	if i == 0 {
		return v
	}
	return nil
}

// errOf classifies an error result: 1 nil, 2 non-nil, 0 unknown.
func (s *Sec) errOf(st *ai.State, v ai.Value) int {
	switch x := v.(type) {
	case ai.IfaceV:
		switch s.E.NilOf(st, x) {
		case ai.True:
			return 1
		case ai.False:
			return 2
		}
	}
	return 0
}

// ---- reporting

// Known is a line of the known-findings file.
type Known struct{ Prop, Match, Text string }

// LoadKnown reads the known-findings file.
func LoadKnown(path string) []Known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []Known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "known: property="), " ", 2)
		if len(parts) != 2 {
			continue
		}
		k := Known{Prop: parts[0], Text: parts[1]}
		if i := strings.Index(parts[1], "match="); i >= 0 {
			m := parts[1][i+6:]
			if q, err := strconv.QuotedPrefix(m); err == nil {
				k.Match, _ = strconv.Unquote(q)
			}
		}
		r = append(r, k)
	}
	return r
}

// Spec describes a property's check.
type Spec struct {
	ID          string
	Level       string
	Explanation string
	Assume      []string
	MinRules    map[string]int // vacuity floor per rule
	Run         func(c *Ctx)
}

var Specs = map[string]*Spec{}

func register(s *Spec) { Specs[s.ID] = s }

// Main runs one property's check and returns the exit code.
func Main(id, repo, verif string) int {
	start := time.Now()
	spec := Specs[id]
	c := &Ctx{ID: id, Rules: map[string]int{}, Funcs: map[string]bool{}, Externs: map[string]int{}, seen: map[string]bool{}}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c.Thorough = tier == "thorough"
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if spec == nil {
		fmt.Printf("unknown property %s\n", id)
		return 2
	}
	P, err := ai.LoadRepo(repo)
	if err != nil {
		c.Fail("load", repo, "cannot load the repository: %v", err)
	} else {
		c.P = P
		func() {
			defer func() {
				if r := recover(); r != nil {
					if m, ok := r.(missing); ok {
						c.Undecided("anchor", id, "%s", m.what)
						return
					}
					c.Undecided("analysis-failure", id, "%v\n%s", r, trimStack(string(debug.Stack())))
				}
			}()
			spec.Run(c)
		}()
		if len(c.Viol) == 0 && len(c.Undec) == 0 {
			for r, n := range spec.MinRules {
				if c.Rules[r] < n {
					c.Undecided("vacuous", r, "rule %s examined %d instances, expected at least %d", r, c.Rules[r], n)
				}
			}
		}
	}
	known := LoadKnown(filepath.Join(verif, "known-findings.txt"))
	var open []Violation
	printed := map[string]bool{}
	for _, v := range c.Viol {
		line := fmt.Sprintf("[%s] %s: %s", v.Rule, v.Where, v.Detail)
		hit := false
		for _, k := range known {
			if k.Prop == id && k.Match != "" && strings.Contains(line, k.Match) {
				hit = true
				if !printed[k.Match] {
					printed[k.Match] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.Text)
				}
			}
		}
		if !hit {
			open = append(open, v)
		}
	}
	c.report(spec, tier, seed, time.Since(start).Seconds(), verif, open)
	if len(open) > 0 {
		return 1
	}
	return 0
}

func (c *Ctx) report(spec *Spec, tier string, seed int, wall float64, verif string, open []Violation) {
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	var fns []string
	for f := range c.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	total := 0
	for _, n := range c.Rules {
		total += n
	}
	undec := []string{}
	for _, v := range c.Undec {
		undec = append(undec, fmt.Sprintf("[%s] %s: %s", v.Rule, v.Where, v.Detail))
	}
	cov := map[string]interface{}{
		"explanation":         spec.Explanation,
		"obligations":         total,
		"discharged":          total - min(total, len(c.Viol)),
		"obligations_by_rule": c.Rules,
		"sections":            c.Sections,
		"functions_analysed":  len(fns),
		"functions":           fns,
		"abstract_steps":      c.Steps,
		"external_calls":      c.Externs,
		"samples":             c.Samples,
		"notes":               c.Notes,
		"undecided":           undec,
		"checker_cmd":         "diskcheck -prop " + c.ID,
	}
	var vl []string
	for _, v := range open {
		vl = append(vl, fmt.Sprintf("[%s] %s: %s", v.Rule, v.Where, v.Detail))
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": spec.Level,
		"coverage": cov, "wall_s": wall, "violations": len(open),
		"assumptions": append([]string{"go/ssa's translation of the source is faithful", "the models of standard-library functions in analyzer/ai/ext.go are faithful"}, spec.Assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(dir, c.ID+".json"), b, 0o644)
	replay := filepath.Join(dir, c.ID+".violations.txt")
	_ = os.Remove(replay)
	fmt.Printf("%s: %d obligations over %d functions, %d sections, %.1fs\n", c.ID, total, len(fns), len(c.Sections), wall)
	for i, l := range undec {
		if i < 15 {
			fmt.Printf("UNDECIDED %s: %s\n", c.ID, l)
		}
	}
	if len(open) > 0 {
		_ = os.WriteFile(replay, []byte(strings.Join(vl, "\n")+"\n"), 0o644)
		for i, l := range vl {
			if i < 15 {
				fmt.Println("  " + l)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
	}
}
