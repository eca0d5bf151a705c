package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is an observable action recorded on a trace.
type Event struct {
	Kind string // e.g. "os.WriteFile"
	Pos  token.Pos
	Args []Value
	Fn   string
	// Snap: contents of byte-slice arguments at the time of the event.
	Snap []*Content
	Note string
	Alt  []Event // Kind "may": events that may have happened
}

// TNode is a persistent list of events.
type TNode struct {
	Prev *TNode
	Ev   Event
	Key  string
	N    int
}

// Events lists the trace oldest first.
func (t *TNode) Events() []Event {
	var r []Event
	for ; t != nil; t = t.Prev {
		r = append(r, t.Ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// Pending is an error that was returned to a caller and not yet reported on.
type Pending struct {
	Key   string // callee+site
	Desc  string
	Pos   token.Pos
	Depth int // call depth of the frame that received the error
}

// State is an abstract machine state.
type State struct {
	Heap  PMap[Value]
	F     *Facts
	R     []Value
	Trace *TNode
	Pend  []Pending
	FI    PMap[int] // map object -> fresh-key insertions so far
	Defs  []deferred
	Mut   PMap[bool] // objects stored to (since the entry)
}

type deferred struct {
	call ssa.CallInstruction
	fn   Value
	args []Value
}

func (s *State) clone() *State {
	c := *s
	c.F = s.F.clone()
	c.R = append([]Value{}, s.R...)
	return &c
}

// Finding is a failed obligation.
type Finding struct {
	Kind     string
	Pos      token.Pos
	Fn       string
	Detail   string
	Definite bool
}

// Engine interprets functions abstractly.
type Engine struct {
	U    *Universe
	Prog *ssa.Program
	Pkgs []*ssa.Package
	Fset *token.FileSet

	nextObj   int
	lazyInit  map[int]Value
	lazyKey   map[int]string
	objType   map[int]types.Type
	objName   map[int]string
	summary   map[int]bool
	birth     map[int]int // object -> alloc serial
	allocSite map[int]string
	globals   map[*ssa.Global]int
	aliasOf   map[int][]int
	serial    int

	fns map[*ssa.Function]*fnInfo

	Init *State // after package initialisation

	// configuration
	PeelMax   int
	repoFn    map[*ssa.Function]bool
	plainFn   map[*ssa.Function]bool
	MaxParts  int
	StepLimit int
	steps     int
	stack     []*ssa.Function
	loopStack []*loopRun
	sites     []ssa.Instruction
	recording int // >0: silent
	RecDepth  int

	// hooks
	OnObligation func(o Obligation)
	fixes        []*fix // loops being summarised, outermost first
	OnExtern     func(c *ExtCall) ([]CallRes, bool)
	OnCall       func(st *State, fn *ssa.Function, args []Value) ([]CallRes, bool)
	OnReturn     func(fn *ssa.Function, st *State, ret Value)
	OnStore      func(st *State, obj int, path []PE, lo, n Lin, pos token.Pos)
	OnLoop       func(fn *ssa.Function, pos token.Pos, ok bool, detail string)
	OnBeyond     func(in ssa.Instruction, st *State)
	OnBranch     func(st *State, pos token.Pos)
	TrackPending bool
	OnExit       func(st *State, code Value, pos token.Pos)
	FileLen      func(key string, n Lin) Lin
	FileBytes    func(st *State, key string) *Content
	TraceStdout  bool
	TraceFails   bool // record the failure of every fallible external call
	PrintFails   bool
	NoSplit      bool
	FileName     map[int]StrV
	CleanOf      map[string]StrV
	Regexps      map[int]*regexp.Regexp
	ghostOf      map[int]int
	PendTag      func(fn *ssa.Function) string // tag of a dynamic extent
	PendDrop     func(fn *ssa.Function, p Pending) bool

	Analysed map[*ssa.Function]bool
	ExtSeen  map[string]int
	Unsup    map[string]bool
	Problems []string // reasons the analysis is incomplete
	NObl     int
	NProven  int
	curFn    *ssa.Function
	initObj  int
}

// Obligation is a run-time check the abstract state must discharge.
type Obligation struct {
	Kind     string // index, slice, nil, div, assert, panic, conv
	Instr    ssa.Instruction
	Fn       *ssa.Function
	Proven   bool
	Definite bool // definitely fails
	Exact    bool // the condition is on the input's unknowns alone, and may fail
	Detail   string
	Stack    string
	St       *State
}

type undecided struct {
	why string
	// unbounded: the analysis found no bound on the program's work, as
	// opposed to a construct it does not handle.
	unbounded bool
}

type tokenPos = token.Pos

func NewEngine(prog *ssa.Program, pkgs []*ssa.Package) *Engine {
	return &Engine{U: NewUniverse(), Prog: prog, Pkgs: pkgs, Fset: prog.Fset,
		lazyInit: map[int]Value{}, lazyKey: map[int]string{}, objType: map[int]types.Type{}, objName: map[int]string{},
		summary: map[int]bool{}, birth: map[int]int{}, allocSite: map[int]string{}, globals: map[*ssa.Global]int{}, aliasOf: map[int][]int{}, FileName: map[int]StrV{}, CleanOf: map[string]StrV{}, Regexps: map[int]*regexp.Regexp{}, ghostOf: map[int]int{},
		fns: map[*ssa.Function]*fnInfo{}, PeelMax: 70000, MaxParts: 12, StepLimit: 40_000_000, RecDepth: 3,
		Analysed: map[*ssa.Function]bool{}, ExtSeen: map[string]int{}, Unsup: map[string]bool{}}
}

func (e *Engine) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := e.Fset.Position(p)
	fn := ps.Filename
	if i := strings.Index(fn, "/repo/"); i >= 0 {
		fn = fn[i+6:]
	}
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

func (e *Engine) problem(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, p := range e.Problems {
		if p == s {
			return
		}
	}
	if len(e.Problems) < 50 {
		e.Problems = append(e.Problems, s)
	}
}

// NewState is an empty state (or the post-initialisation state if available).
func (e *Engine) NewState() *State {
	if e.Init != nil {
		return e.Init.clone()
	}
	return &State{F: &Facts{u: e.U}}
}

func (e *Engine) alloc(st *State, v Value, t types.Type, site string) int {
	e.nextObj++
	id := e.nextObj
	e.serial++
	e.birth[id] = e.serial
	e.objType[id] = t
	e.allocSite[id] = site
	st.Heap = st.Heap.Set(id, v)
	return id
}

// NewBytes allocates a byte-array object with the given content.
func (e *Engine) NewBytes(st *State, c *Content) SliceV {
	id := e.alloc(st, ArrV{c}, types.NewSlice(c.Elem), "input:"+c.Name)
	e.objName[id] = c.Name
	return SliceV{Obj: id, Off: Num(0), Len: c.N, Cap: c.N, Nil: False}
}

// obj returns the value of an object.
func (e *Engine) obj(st *State, id int) Value {
	if v, ok := st.Heap.Get(id); ok {
		return v
	}
	if v, ok := e.lazyInit[id]; ok {
		return v
	}
	if k, ok := e.lazyKey[id]; ok {
		v := e.keyedUnknown(k, e.objName[id], e.objType[id], nil, Lin{})
		e.lazyInit[id] = v
		return v
	}
	return nil
}

// Content returns the array content a slice refers to.
func (e *Engine) Content(st *State, s SliceV) *Content {
	if s.Obj < 0 {
		return nil
	}
	v := e.getPath(st, e.obj(st, s.Obj), s.Path, e.isSummary(s.Obj))
	if a, ok := v.(ArrV); ok {
		return a.C
	}
	return nil
}

func (e *Engine) getPath(st *State, v Value, path []PE, sum bool) Value {
	for _, p := range path {
		switch x := v.(type) {
		case StructV:
			if p.Field < 0 || p.Field >= len(x.F) {
				return nil
			}
			v = x.F[p.Field]
		case ArrV:
			v = e.Read(st.F, x.C, p.Idx)
		default:
			return nil
		}
	}
	return v
}

func (e *Engine) setPath(st *State, v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch x := v.(type) {
	case StructV:
		r := StructV{F: append([]Value{}, x.F...)}
		r.F[p.Field] = e.setPath(st, x.F[p.Field], path[1:], nv)
		return r
	case ArrV:
		var ev Value
		if len(path) == 1 {
			ev = nv
		} else {
			ev = e.setPath(st, e.Read(st.F, x.C, p.Idx), path[1:], nv)
		}
		if x.C.Kind == KSum {
			r := *x.C
			e.U.conID++
			r.ID = e.U.conID
			r.Sum = e.joinGen(x.C.Sum, e.generalize(st.F, ev, x.C.Elem), x.C.Elem)
			return ArrV{&r}
		}
		return ArrV{e.writeElem(st.F, x.C, p.Idx, ev)}
	}
	return v
}

// Load reads through a pointer.
func (e *Engine) Load(st *State, p Value, t types.Type) Value {
	switch p := p.(type) {
	case PtrV:
		if p.Obj < 0 {
			return e.Unknown(t, "deref")
		}
		v := e.obj(st, p.Obj)
		v = e.getPath(st, v, p.Path, false)
		if v == nil {
			return e.Unknown(t, "load")
		}
		if l, ok := v.(LazyV); ok {
			return e.instantiate(st.F, l, t)
		}
		if e.isSummary(p.Obj) {
			return e.instantiate(st.F, v, t)
		}
		return v
	case ChoiceV:
		var r Value
		for _, a := range p.Alts {
			v := e.Load(st, a, t)
			if r == nil {
				r = v
			} else if valKey(r) != valKey(v) {
				g := e.joinGen(e.generalize(st.F, r, t), e.generalize(st.F, v, t), t)
				r = e.instantiate(st.F, g, t)
			}
		}
		return r
	}
	return e.Unknown(t, "load")
}

// Store writes through a pointer.
func (e *Engine) Store(st *State, p Value, v Value, t types.Type, pos token.Pos) {
	switch p := p.(type) {
	case PtrV:
		if p.Obj < 0 {
			return
		}
		e.noteStore(st, p.Obj, p.Path, Num(0), Num(1), pos)
		old := e.obj(st, p.Obj)
		if e.isSummary(p.Obj) {
			cur := e.getPath(st, old, p.Path, true)
			g := e.generalize(st.F, v, t)
			if cur != nil {
				g = e.joinGen(cur, g, t)
			}
			st.Heap = st.Heap.Set(p.Obj, e.setPath(st, old, p.Path, g))
			return
		}
		st.Heap = st.Heap.Set(p.Obj, e.setPath(st, old, p.Path, v))
	case ChoiceV:
		for _, a := range p.Alts {
			ap, ok := a.(PtrV)
			if !ok || ap.Obj < 0 {
				continue
			}
			cur := e.Load(st, ap, t)
			nv := v
			if valKey(cur) != valKey(v) {
				nv = e.instantiate(st.F, e.joinGen(e.generalize(st.F, cur, t), e.generalize(st.F, v, t), t), t)
			}
			e.Store(st, ap, nv, t, pos)
		}
	}
}

func (e *Engine) noteStore(st *State, obj int, path []PE, lo, n Lin, pos token.Pos) {
	if _, ok := st.Mut.Get(obj); !ok {
		st.Mut = st.Mut.Set(obj, true)
	}
	if e.OnStore != nil && e.recording == 0 {
		e.OnStore(st, obj, path, lo, n, pos)
	}
	for _, al := range e.aliasOf[obj] {
		if al == obj {
			continue
		}
		st.Mut = st.Mut.Set(al, true)
		if e.OnStore != nil && e.recording == 0 {
			e.OnStore(st, al, path, lo, n, pos)
		}
		if a, ok := e.obj(st, al).(ArrV); ok {
			var c *Content
			if isByteish(a.C.Elem) {
				c = e.freshInput("alias", a.C.N, a.C.Elem)
			} else {
				c = e.newContent(KSum, a.C.N, a.C.Elem)
				c.Sum = e.anyOf(a.C.Elem)
			}
			st.Heap = st.Heap.Set(al, ArrV{c})
		}
	}
}

// setContent replaces the array a slice refers to.
func (e *Engine) setContent(st *State, s SliceV, c *Content) {
	if s.Obj < 0 {
		return
	}
	st.Heap = st.Heap.Set(s.Obj, e.setPath(st, e.obj(st, s.Obj), s.Path, ArrV{c}))
}

// writeRegion writes n elements from (src,srcOff) at s.Off+off.
func (e *Engine) writeRegion(st *State, s SliceV, off, n Lin, src *Content, srcOff Lin, pos token.Pos) {
	c := e.Content(st, s)
	if c == nil {
		return
	}
	if k, ok := st.F.Const(n); ok && k == 0 {
		return
	}
	e.noteStore(st, s.Obj, s.Path, s.Off.Add(off), n, pos)
	if e.isSummary(s.Obj) || c.Kind == KSum {
		nc := e.newContent(KSum, c.N, c.Elem)
		g := e.anyOf(c.Elem)
		if src != nil && !isByteish(c.Elem) {
			sc := e.sumContent(st.F, src)
			cs := c
			if cs.Kind != KSum {
				cs = e.sumContent(st.F, c)
			}
			g = e.joinGen(cs.Sum, sc.Sum, c.Elem)
		}
		nc.Sum = g
		e.setContent(st, s, nc)
		return
	}
	if src == nil { // unknown data
		w := e.newContent(KWrite, c.N, c.Elem)
		w.Prev, w.Off, w.Len, w.Havoc = c, canon(st.F, s.Off.Add(off)), canon(st.F, n), true
		e.setContent(st, s, w)
		return
	}
	e.setContent(st, s, e.writeCopy(st.F, c, s.Off.Add(off), n, src, srcOff))
}

// globalPtr returns the pointer to a global variable.
func (e *Engine) globalPtr(g *ssa.Global) PtrV {
	id, ok := e.globals[g]
	if !ok {
		e.nextObj++
		id = e.nextObj
		e.globals[g] = id
		t := g.Type().(*types.Pointer).Elem()
		e.objType[id] = t
		name := g.Pkg.Pkg.Path() + "." + g.Name()
		e.objName[id] = name
		e.allocSite[id] = "global:" + name
		if e.isRepoPkg(g.Pkg) {
			e.lazyInit[id] = e.ZeroValue(t)
		} else {
			e.lazyKey[id] = "global:" + name
			v := e.keyedUnknown("global:"+name, name, t, nil, Lin{})
			// package-level error and file variables of the standard library are non-nil
			switch x := v.(type) {
			case IfaceV:
				x.Nil = False
				x.Err = &ErrInfo{Kind: "global:" + name}
				v = x
			case PtrV:
				x.Nil = False
				v = x
			}
			e.lazyInit[id] = v
		}
	}
	return PtrV{Obj: id, Nil: False}
}

func (e *Engine) isRepoPkg(p *ssa.Package) bool {
	for _, q := range e.Pkgs {
		if p == q {
			return true
		}
	}
	return false
}

// ObjName names an object for reports.
func (e *Engine) ObjName(id int) string {
	if n := e.objName[id]; n != "" {
		return n
	}
	return e.allocSite[id]
}

func (e *Engine) AllocSite(id int) string { return e.allocSite[id] }

// Steps is the number of abstract steps taken.
func (e *Engine) Steps() int { return e.steps }

// NilOf decides whether a pointer-like value is nil.
func (e *Engine) NilOf(st *State, v Value) Tri {
	switch x := v.(type) {
	case IfaceV:
		return st.F.nilOf(x.Nil, x.Vid)
	case PtrV:
		return st.F.nilOf(x.Nil, x.Vid)
	case SliceV:
		return st.F.nilOf(x.Nil, x.Vid)
	case MapV:
		return x.Nil
	}
	return Unknown
}

// GlobalValue reads a package-level variable.
func (e *Engine) GlobalValue(st *State, g *ssa.Global) Value {
	return e.Load(st, e.globalPtr(g), g.Type().(*types.Pointer).Elem())
}

// GlobalPtr is the address of a package-level variable.
func (e *Engine) GlobalPtr(g *ssa.Global) PtrV { return e.globalPtr(g) }

// Alloc creates an object holding v.
func (e *Engine) Alloc(st *State, v Value, t types.Type, site string) PtrV {
	return PtrV{Obj: e.alloc(st, v, t, site), Nil: False}
}

// Obj returns an object's value.
func (e *Engine) Obj(st *State, id int) Value { return e.obj(st, id) }

// MapOf returns the content of a map value.
func (e *Engine) MapOf(st *State, v Value) (*MapC, bool) {
	m, ok := v.(MapV)
	if !ok {
		return nil, false
	}
	c, ok := e.obj(st, m.Obj).(*MapC)
	return c, ok
}

// ConstSlice allocates a slice of integer constants.
func (e *Engine) ConstSlice(st *State, v []int64, elem types.Type) SliceV {
	n := Num(int64(len(v)))
	c := e.zeroContent(n, elem)
	for i, x := range v {
		c = e.writeElem(st.F, c, Num(int64(i)), IntV{Num(x)})
	}
	id := e.alloc(st, ArrV{c}, types.NewSlice(elem), "const")
	return SliceV{Obj: id, Off: Num(0), Len: n, Cap: n, Nil: False}
}

// BoolInput is a named unknown boolean.
func (e *Engine) BoolInput(name string) Cond {
	return Cond{Op: CB, B: e.U.bsym("in:"+name, name)}
}

// Clone copies a state.
func (s *State) Clone() *State { return s.clone() }

// ValEq decides equality of two values.
func (e *Engine) ValEq(st *State, a, b Value) Tri { return e.valEq(st.F, a, b) }

// Region copies n elements at off of a slice into a new content.
func (e *Engine) Region(st *State, s SliceV, off Lin, n int64) *Content {
	c := e.Content(st, s)
	z := e.zeroContent(Num(n), c.Elem)
	return e.writeCopy(st.F, z, Num(0), Num(n), c, s.Off.Add(off))
}

// ArrayOf makes an array value of the given elements.
func (e *Engine) ArrayOf(v []Value, elem types.Type) ArrV {
	f := e.NewState().F
	c := e.zeroContent(Num(int64(len(v))), elem)
	for i, x := range v {
		c = e.writeElem(f, c, Num(int64(i)), x)
	}
	return ArrV{c}
}

// Opaque is a non-nil interface value of unknown dynamic type.
func (e *Engine) Opaque() IfaceV { return IfaceV{Nil: False, Vid: e.U.Vid()} }

// SetContent replaces the content of the array behind a slice.
func (e *Engine) SetContent(st *State, s SliceV, c *Content) {
	e.noteStore(st, s.Obj, nil, Num(0), Num(0), token.NoPos)
	e.setContent(st, s, c)
}

// File is an open file of the given name.
func (e *Engine) File(name StrV) PtrV {
	id := e.lazyObj("file:"+name.Key(), nil, "file:"+name.String())
	if _, ok := e.lazyInit[id]; !ok {
		e.lazyInit[id] = TopV{}
	}
	e.FileName[id] = name
	return PtrV{Obj: id, Nil: False}
}

// Pos is a source position.
type Pos = token.Pos

// Concat joins two strings.
func Concat(a, b StrV) StrV { return concat(a, b) }

// ContentStr is the bytes of a slice, with content c, as a string.
func (e *Engine) ContentStr(st *State, c *Content, s SliceV) StrV {
	return e.contentStr(st.F, c, s.Off, s.Len)
}

// Overlay replaces n elements at off of a slice by the given values.
func (e *Engine) Overlay(st *State, s SliceV, off int64, v []Value) {
	c := e.Content(st, s)
	a := e.ArrayOf(v, c.Elem)
	e.SetContent(st, s, e.writeCopy(st.F, c, s.Off.AddC(off), Num(int64(len(v))), a.C, Num(0)))
}

// Mutated lists the objects made by package initialisation (globals and what they hold) that were stored to.
func (e *Engine) Mutated(st *State) []string {
	var r []string
	st.Mut.Each(func(k int, v bool) {
		if v && e.IsInitObj(k) {
			r = append(r, e.ObjName(k))
		}
	})
	sort.Strings(r)
	return r
}
