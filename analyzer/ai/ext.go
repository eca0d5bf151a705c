package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"path"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ExtCall is a call of a function whose body is not analysed.
type ExtCall struct {
	E    *Engine
	Name string
	Fn   *ssa.Function
	Sig  *types.Signature
	Args []Value
	St   *State
	Site ssa.CallInstruction
}

// Arg is argument i or nil.
func (c *ExtCall) Arg(i int) Value {
	if i < len(c.Args) {
		return c.Args[i]
	}
	return nil
}

func (c *ExtCall) pos() token.Pos {
	if c.Site != nil {
		return c.Site.Pos()
	}
	return token.NoPos
}

func (e *Engine) extern(fn *ssa.Function, args []Value, st *State, site ssa.CallInstruction) []CallRes {
	c := &ExtCall{E: e, Name: fn.String(), Fn: fn, Sig: fn.Signature, Args: args, St: st, Site: site}
	return e.runExtern(c)
}

func (e *Engine) externInvoke(st *State, r IfaceV, m *types.Func, args []Value, site ssa.CallInstruction) []CallRes {
	c := &ExtCall{E: e, Name: m.FullName(), Sig: m.Type().(*types.Signature), Args: append([]Value{r}, args...), St: st, Site: site}
	return e.runExtern(c)
}

func (e *Engine) runExtern(c *ExtCall) []CallRes {
	e.ExtSeen[c.Name]++
	if e.OnExtern != nil {
		if r, ok := e.OnExtern(c); ok {
			return r
		}
	}
	if f, ok := extTable[c.Name]; ok {
		return f(c)
	}
	return e.defaultExtern(c)
}

// resultsUsed reports whether the error result of a call is used.
func errUsed(c *ExtCall) bool {
	v, ok := c.Site.(ssa.Value)
	if !ok {
		return false
	}
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	n := c.Sig.Results().Len()
	if n == 1 {
		return len(*refs) > 0
	}
	for _, r := range *refs {
		if x, ok := r.(*ssa.Extract); ok {
			if x.Index == n-1 && x.Referrers() != nil && len(*x.Referrers()) > 0 {
				return true
			}
		} else {
			return true
		}
	}
	return false
}

// NewErr makes a non-nil error value.
func (e *Engine) NewErr(kind string, pos token.Pos) IfaceV {
	return IfaceV{Nil: False, Vid: e.U.Vid(), Err: &ErrInfo{Kind: kind, Pos: e.Pos(pos)}}
}

// Split produces the success and failure outcomes of a fallible call.
// ok holds the non-error results of a success.
func (c *ExtCall) Split(ok []Value) []CallRes {
	e := c.E
	n := c.Sig.Results().Len()
	mk := func(vals []Value, err IfaceV) Value {
		if n == 1 {
			return err
		}
		t := make(TupleV, n)
		for i := 0; i < n-1; i++ {
			if i < len(vals) && vals[i] != nil {
				t[i] = vals[i]
			} else {
				t[i] = e.Unknown(c.Sig.Results().At(i).Type(), c.Name)
			}
		}
		t[n-1] = err
		return t
	}
	if !e.TrackPending && !e.TraceFails && !errUsed(c) && e.NoSplit {
		return []CallRes{{c.St, mk(ok, IfaceV{Nil: Unknown, Vid: e.U.Vid(), Err: &ErrInfo{Kind: "ext:" + c.Name}})}}
	}
	bad := c.St.clone()
	var zero []Value
	for i := 0; i < n-1; i++ {
		zero = append(zero, e.ZeroValue(c.Sig.Results().At(i).Type()))
	}
	if e.TraceFails && !purePkgs[pkgOf(c)] {
		e.Event(bad, "fail:"+c.Name, nil, c.pos())
	}
	if e.TrackPending && !quietErr[c.Name] {
		e.addPend(bad, "error of "+c.Name, c.pos(), c.Name)
	}
	return []CallRes{{c.St, mk(ok, IfaceV{Nil: True})}, {bad, mk(zero, e.NewErr("ext:"+c.Name, c.pos()))}}
}

var quietErr = map[string]bool{}

func (e *Engine) splitErr(st *State, ret Value, sig *types.Signature, why string) []CallRes {
	i := errIndex(sig)
	if i < 0 {
		return []CallRes{{st, ret}}
	}
	o := st.clone()
	set := func(v Value, err IfaceV) Value {
		if t, ok := v.(TupleV); ok && len(t) > 0 {
			n := append(TupleV{}, t...)
			n[i] = err
			if len(n) == 1 {
				return n[0]
			}
			return n
		}
		return err
	}
	return []CallRes{{st, set(ret, IfaceV{Nil: True})}, {o, set(ret, e.NewErr(why, token.NoPos))}}
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "path": true, "path/filepath": true, "errors": true,
	"unicode": true, "unicode/utf8": true, "math": true, "math/bits": true, "time": true, "regexp": true, "encoding/hex": true,
	"bytes": true, "reflect": true, "text/tabwriter": true, "cmp": true, "html": true}

func pkgOf(c *ExtCall) string {
	if c.Fn != nil {
		if c.Fn.Pkg != nil {
			return c.Fn.Pkg.Pkg.Path()
		}
		if o := c.Fn.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	n := strings.TrimLeft(c.Name, "(*")
	if i := strings.LastIndex(n, "/"); i >= 0 {
		if j := strings.Index(n[i:], "."); j >= 0 {
			return n[:i+j]
		}
	}
	if j := strings.Index(n, "."); j >= 0 {
		return n[:j]
	}
	return n
}

func (e *Engine) defaultExtern(c *ExtCall) []CallRes {
	pkg := pkgOf(c)
	var ret Value
	switch c.Sig.Results().Len() {
	case 0:
	case 1:
		ret = e.Unknown(c.Sig.Results().At(0).Type(), c.Name)
	default:
		ret = e.Unknown(c.Sig.Results(), c.Name)
	}
	if !purePkgs[pkg] {
		e.havocArgs(c.St, c.Args)
		if pkg == "os" || pkg == "syscall" || pkg == "io/ioutil" || pkg == "os/exec" || pkg == "net" {
			c.event(c.Name)
		} else {
			e.Unsup[c.Name] = true
		}
	} else if strings.HasPrefix(c.Name, "sort.") {
		e.havocArgs(c.St, c.Args)
	}
	if errIndex(c.Sig) >= 0 {
		var vals []Value
		if t, ok := ret.(TupleV); ok {
			vals = t[:len(t)-1]
		}
		return c.Split(vals)
	}
	// pure functions of constants keep determinism through keyed unknowns
	if purePkgs[pkg] && c.Sig.Results().Len() == 1 {
		ret = c.pure()
	}
	return []CallRes{{c.St, ret}}
}

// pure is the hash-consed result of a pure function.
func (c *ExtCall) pure() Value {
	k := "fn:" + c.Name + "("
	for _, a := range c.Args {
		if s, ok := a.(StrV); ok {
			a = c.St.F.resolveStr(s)
		}
		if _, ok := a.(SliceV); ok {
			// the contents may differ from one call to the next
			return c.E.Unknown(c.Sig.Results().At(0).Type(), c.Name)
		}
		k += valKey(a) + ","
	}
	return c.E.keyedUnknown(k+")", c.Name+"(..)", c.Sig.Results().At(0).Type(), nil, Lin{})
}

// event appends an observable action to the trace.
func (c *ExtCall) event(kind string) {
	c.E.Event(c.St, kind, c.Args, c.pos())
}

// Event records an event.
func (e *Engine) Event(st *State, kind string, args []Value, pos token.Pos) {
	ev := Event{Kind: kind, Pos: pos, Args: append([]Value{}, args...), Fn: e.stackStr()}
	for i, a := range args {
		if s, ok := a.(StrV); ok {
			ev.Args[i] = st.F.resolveStr(s)
		}
		if s, ok := a.(SliceV); ok {
			ev.Snap = append(ev.Snap, e.Content(st, s))
		} else {
			ev.Snap = append(ev.Snap, nil)
		}
	}
	st.Trace = pushTrace(st.Trace, ev)
}

func (e *Engine) havocArgs(st *State, args []Value) {
	seen := map[int]bool{}
	var hv func(v Value, d int)
	obj := func(id int, d int) {
		if id < 0 || seen[id] || d > 4 {
			return
		}
		seen[id] = true
		v := e.obj(st, id)
		e.noteStore(st, id, nil, Num(0), Num(0), token.NoPos)
		switch x := v.(type) {
		case ArrV:
			hv(x, d)
			if isByteish(x.C.Elem) {
				st.Heap = st.Heap.Set(id, ArrV{e.freshInput("havoc", x.C.N, x.C.Elem)})
			} else {
				c := e.newContent(KSum, x.C.N, x.C.Elem)
				c.Sum = e.anyOf(x.C.Elem)
				st.Heap = st.Heap.Set(id, ArrV{c})
			}
		case *MapC:
			st.Heap = st.Heap.Set(id, e.newMap(MUnknown, x.T))
		default:
			hv(v, d)
			if t := e.objType[id]; t != nil {
				st.Heap = st.Heap.Set(id, e.Unknown(t, "havoc"))
			}
		}
	}
	hv = func(v Value, d int) {
		switch x := v.(type) {
		case PtrV:
			obj(x.Obj, d+1)
		case SliceV:
			obj(x.Obj, d+1)
		case MapV:
			obj(x.Obj, d+1)
		case IfaceV:
			if x.Dyn != nil {
				hv(x.Val, d)
			}
		case StructV:
			for _, f := range x.F {
				hv(f, d)
			}
		case ChoiceV:
			for _, a := range x.Alts {
				hv(a, d)
			}
		}
	}
	for _, a := range args {
		hv(a, 0)
	}
}

// one is a single infallible outcome.
func (c *ExtCall) one(v Value) []CallRes { return []CallRes{{c.St, v}} }

func (c *ExtCall) str(i int) (StrV, string, bool) {
	s, ok := c.Arg(i).(StrV)
	if !ok {
		return StrV{}, "", false
	}
	s = c.St.F.resolveStr(s)
	l, isC := c.St.F.ConstStr(s)
	return s, l, isC
}

func (c *ExtCall) int(i int) (int64, bool) {
	v, ok := c.Arg(i).(IntV)
	if !ok {
		return 0, false
	}
	return c.St.F.Const(v.L)
}

// varargs returns the elements of a constant-length ...interface{} slice.
func (c *ExtCall) varargs(i int) ([]Value, bool) {
	s, ok := c.Arg(i).(SliceV)
	if !ok {
		return nil, false
	}
	if s.Obj < 0 {
		return nil, true
	}
	n, ok := c.St.F.Const(s.Len)
	if !ok || n > 4096 {
		return nil, false
	}
	cn := c.E.Content(c.St, s)
	if cn == nil {
		return nil, false
	}
	var out []Value
	for k := int64(0); k < n; k++ {
		out = append(out, c.E.Read(c.St.F, cn, s.Off.AddC(k)))
	}
	return out, true
}

// SliceElems lists the elements of a constant-length slice.
func (e *Engine) SliceElems(st *State, v Value) ([]Value, bool) {
	c := &ExtCall{E: e, Args: []Value{v}, St: st}
	return c.varargs(0)
}

// Format models fmt.Sprintf.
func (c *ExtCall) Format(fi, ai int) StrV {
	e := c.E
	_, format, okf := c.str(fi)
	args, oka := c.varargs(ai)
	if !okf || !oka {
		return e.U.FreshStr("sprintf")
	}
	goVals := make([]interface{}, len(args))
	all := true
	for i, a := range args {
		if iv, ok := a.(IfaceV); ok && iv.Dyn != nil {
			a = iv.Val
			_, isBasic := iv.Dyn.(*types.Basic)
			if !isBasic && hasStringer(iv.Dyn) {
				all = false
				continue
			}
		}
		switch x := a.(type) {
		case IntV:
			if k, ok := c.St.F.Const(x.L); ok {
				goVals[i] = k
				continue
			}
		case StrV:
			if s, ok := c.St.F.ConstStr(x); ok {
				goVals[i] = s
				continue
			}
		case BoolV:
			if t := c.St.F.Eval(x.C); t != Unknown {
				goVals[i] = t == True
				continue
			}
		}
		all = false
	}
	if all {
		return Lit(fmt.Sprintf(format, goVals...))
	}
	// piecewise
	out := StrV{}
	ai2 := 0
	i := 0
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = concat(out, Lit(format[i:]))
			break
		}
		out = concat(out, Lit(format[i:i+j]))
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.*", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			break
		}
		verb := format[i : k+1]
		i = k + 1
		if format[k] == '%' {
			out = concat(out, Lit("%"))
			continue
		}
		if ai2 >= len(args) {
			return e.U.FreshStr("sprintf")
		}
		a := args[ai2]
		gv := goVals[ai2]
		ai2++
		if gv != nil {
			out = concat(out, Lit(fmt.Sprintf(verb, gv)))
			continue
		}
		if iv, ok := a.(IfaceV); ok && iv.Dyn != nil {
			if _, isErr := iv.Dyn.Underlying().(*types.Basic); isErr || true {
				a = iv.Val
			}
		}
		if s, ok := a.(StrV); ok && (verb == "%s" || verb == "%v") {
			out = concat(out, c.St.F.resolveStr(s))
			continue
		}
		if x, ok := a.(IntV); ok && verb == "%c" {
			out = concat(out, e.convert(c.St, x, types.Typ[types.Int32], types.Typ[types.String]).(StrV))
			continue
		}
		s := e.U.strSym("fmt:"+verb+":"+valKey(a), fmt.Sprintf("fmt(%q,%s)", verb, valStr(a)))
		if len(s.Args) == 0 {
			s.Fn, s.Args = verb, []Value{a}
		}
		out = concat(out, StrV{P: []Piece{{Sym: s}}})
	}
	return out
}

// ByteStr is the one-byte string of an unknown byte.
func (e *Engine) ByteStr(st *State, l Lin) StrV {
	if k, ok := st.F.Const(l); ok {
		return Lit(string([]byte{byte(k)}))
	}
	s := e.U.strSym("byte:"+l.Key(), "byte "+l.String())
	if s.Bytes == nil {
		s.Bytes, s.Off, s.BLen = e.writeElem(st.F, e.zeroContent(Num(1), byteType), Num(0), IntV{l}), Num(0), Num(1)
	}
	return StrV{P: []Piece{{Sym: s}}}
}

// FormatInt is an integer printed with the given verb.
func (e *Engine) FormatInt(st *State, verb string, l Lin) StrV {
	if k, ok := st.F.Const(l); ok {
		return Lit(fmt.Sprintf(verb, k))
	}
	v := IntV{l}
	s := e.U.strSym("fmt:"+verb+":"+valKey(v), fmt.Sprintf("fmt(%q,%s)", verb, valStr(v)))
	if len(s.Args) == 0 {
		s.Fn, s.Args = verb, []Value{v}
	}
	return StrV{P: []Piece{{Sym: s}}}
}

// atom is a byte of a string, or an opaque piece.
type atom struct {
	b   Lin
	sym *StrSym
}

// atoms expands a string into bytes as far as they are known.
func (e *Engine) atoms(f *Facts, s StrV) []atom {
	var r []atom
	for _, p := range f.resolveStr(s).P {
		if p.Sym == nil {
			for i := 0; i < len(p.Lit); i++ {
				r = append(r, atom{b: Num(int64(p.Lit[i]))})
			}
			continue
		}
		if p.Sym.Bytes != nil {
			if n, ok := f.Const(p.Sym.BLen); ok && n <= 1024 {
				good := true
				var bs []atom
				for i := int64(0); i < n && good; i++ {
					v, ok := e.Read(f, p.Sym.Bytes, p.Sym.Off.AddC(i)).(IntV)
					good = ok
					bs = append(bs, atom{b: v.L})
				}
				if good {
					r = append(r, bs...)
					continue
				}
			}
		}
		if p.Sym.Fn == "%d" && len(p.Sym.Args) == 1 {
			if v, ok := unbox(p.Sym.Args[0]).(IntV); ok {
				if iv := f.Range(v.L); iv.Lo >= 0 && iv.Hi <= 9 {
					r = append(r, atom{b: v.L.AddC('0')}) // a digit
					continue
				}
			}
		}
		r = append(r, atom{sym: p.Sym})
	}
	return r
}

// foldAtoms maps a string of known length and ASCII bytes to one letter case.
func (e *Engine) foldAtoms(f *Facts, s StrV, upper bool) ([]Lin, bool) {
	at := e.atoms(f, s)
	out := make([]Lin, len(at))
	for i, a := range at {
		if a.sym != nil {
			return nil, false
		}
		iv := f.Range(a.b)
		lo, hi := iv.Lo, iv.Hi
		from, d := int64('A'), int64(32)
		if upper {
			from, d = 'a', -32
		}
		switch {
		case hi > 127 || lo < 0:
			return nil, false
		case lo >= from && hi <= from+25:
			out[i] = a.b.AddC(d)
		case hi < from || lo > from+25:
			out[i] = a.b
		default:
			return nil, false
		}
	}
	return out, true
}

// caseFn changes the letter case of strings whose bytes are known up to their class.
func caseFn(upper bool, dflt func(c *ExtCall) []CallRes) func(c *ExtCall) []CallRes {
	return func(c *ExtCall) []CallRes {
		s, _, k := c.str(0)
		if !k {
			if l, ok := c.E.foldAtoms(c.St.F, s, upper); ok {
				out := StrV{}
				for _, b := range l {
					out = concat(out, c.E.ByteStr(c.St, b))
				}
				return c.one(out)
			}
		}
		return dflt(c)
	}
}

// SameStr compares two strings byte by byte as far as possible.
func (e *Engine) SameStr(st *State, a, b StrV) bool {
	x, y := e.atoms(st.F, a), e.atoms(st.F, b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if (x[i].sym == nil) != (y[i].sym == nil) {
			return false
		}
		if x[i].sym == y[i].sym && x[i].sym != nil {
			continue
		}
		if x[i].sym != nil {
			p, q := x[i].sym, y[i].sym
			if p.Fn == "" || p.Fn != q.Fn || len(p.Args) != 1 || len(q.Args) != 1 || e.valEq(st.F, unbox(p.Args[0]), unbox(q.Args[0])) != True {
				return false
			}
			continue
		}
		if !st.F.ProveEq(x[i].b.Sub(y[i].b)) {
			return false
		}
	}
	return true
}

func unbox(v Value) Value {
	if i, ok := v.(IfaceV); ok && i.Dyn != nil {
		return i.Val
	}
	return v
}

func hasStringer(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); n == "String" || n == "Error" || n == "Format" {
			return true
		}
	}
	return false
}

// ghost returns the id of the ghost cell attached to an object.
func (e *Engine) ghost(p PtrV, what string) int {
	k := fmt.Sprintf("ghost:%s:%d%s", what, p.Obj, pathKey(p.Path))
	if id, ok := e.U.lazy[k]; ok {
		return id
	}
	e.nextObj++
	id := e.nextObj
	e.U.lazy[k] = id
	e.objType[id] = types.Typ[types.String]
	e.lazyInit[id] = StrV{}
	e.objName[id] = k
	e.ghostOf[id] = p.Obj
	return id
}

func (e *Engine) bufPtr(v Value) (PtrV, bool) {
	if i, ok := v.(IfaceV); ok && i.Dyn != nil {
		s := i.Dyn.String()
		if s != "*bytes.Buffer" && s != "*strings.Builder" {
			return PtrV{}, false
		}
		v = i.Val
	}
	p, ok := v.(PtrV)
	if !ok || p.Obj < 0 {
		return PtrV{}, false
	}
	return p, true
}

func (e *Engine) bufAppend(st *State, p PtrV, s StrV) {
	id := e.ghost(p, "buf")
	cur, _ := e.obj(st, id).(StrV)
	st.Heap = st.Heap.Set(id, concat(st.F.resolveStr(cur), st.F.resolveStr(s)))
}

// IsStd reports whether v is the os.Stdout/os.Stderr/os.Stdin file.
func (e *Engine) IsStd(v Value, name string) bool {
	if i, ok := v.(IfaceV); ok {
		v = i.Val
	}
	p, ok := v.(PtrV)
	return ok && p.Obj >= 0 && e.objName[p.Obj] == "os."+name+"*"
}

func (e *Engine) writeTo(c *ExtCall, w Value, s StrV) {
	if p, ok := e.bufPtr(w); ok {
		e.bufAppend(c.St, p, s)
		return
	}
	if e.IsStd(w, "Stdout") && e.TraceStdout {
		e.Event(c.St, "stdout.text", []Value{s}, c.pos())
	}
	if i, ok := w.(IfaceV); ok && e.TraceStdout && i.Dyn != nil && i.Dyn.String() == "*text/tabwriter.Writer" {
		e.Event(c.St, "tab.text", []Value{s}, c.pos())
	}
}

// FileObj is the object standing for the file of the given name.
func (e *Engine) fileBytes(st *State, key string, name StrV) SliceV {
	n := Of(e.U.mk("filelen:"+key, SymOther, 0, 1<<40, "len("+key+")"))
	if e.FileLen != nil {
		n = e.FileLen(key, n)
	}
	cn := e.InputContent("file:"+key, n, byteType)
	id := e.alloc(st, ArrV{cn}, types.NewSlice(byteType), "contents of "+key)
	e.objName[id] = "file:" + key
	if e.FileBytes != nil {
		if c := e.FileBytes(st, key); c != nil {
			st.Heap = st.Heap.Set(id, ArrV{c})
			n = c.N
		}
	}
	return SliceV{Obj: id, Off: Num(0), Len: n, Cap: n, Nil: False}
}

func intRes(l Lin) Value { return IntV{l} }

var extTable map[string]func(c *ExtCall) []CallRes

func init() {
	constStr1 := func(f func(string) string, name string) func(c *ExtCall) []CallRes {
		return func(c *ExtCall) []CallRes {
			if _, l, ok := c.str(0); ok {
				return c.one(Lit(f(l)))
			}
			return c.one(c.pure())
		}
	}
	bool2 := func(f func(a, b string) bool) func(c *ExtCall) []CallRes {
		return func(c *ExtCall) []CallRes {
			sa, a, ok := c.str(0)
			sb, b, ok2 := c.str(1)
			if ok && ok2 {
				return c.one(BoolV{constCond(f(a, b))})
			}
			if sa.Key() == sb.Key() {
				return c.one(BoolV{constCond(f("x", "x"))})
			}
			return c.one(c.pure())
		}
	}
	fprint := func(c *ExtCall) []CallRes {
		var s StrV
		switch {
		case strings.HasSuffix(c.Name, "printf"):
			s = c.Format(1, 2)
		default:
			args, ok := c.varargs(1)
			if !ok {
				s = c.E.U.FreshStr("print")
			} else {
				for i, a := range args {
					if i > 0 && strings.HasSuffix(c.Name, "ln") {
						s = concat(s, Lit(" "))
					}
					s = concat(s, c.show(a))
				}
				if strings.HasSuffix(c.Name, "ln") {
					s = concat(s, Lit("\n"))
				}
			}
		}
		c.E.writeTo(c, c.Arg(0), s)
		if e := c.E; e.TrackPending && e.PrintFails && (e.IsStd(c.Arg(0), "Stdout")) {
			return c.Split(nil)
		}
		return c.one(TupleV{c.E.Unknown(types.Typ[types.Int], "n"), IfaceV{Nil: Unknown, Vid: c.E.U.Vid()}})
	}
	print := func(c *ExtCall) []CallRes {
		var s StrV
		if strings.HasSuffix(c.Name, "f") {
			s = c.Format(0, 1)
		} else {
			args, ok := c.varargs(0)
			if !ok {
				s = c.E.U.FreshStr("print")
			}
			for i, a := range args {
				if i > 0 && strings.HasSuffix(c.Name, "ln") {
					s = concat(s, Lit(" "))
				}
				s = concat(s, c.show(a))
			}
			if strings.HasSuffix(c.Name, "ln") {
				s = concat(s, Lit("\n"))
			}
		}
		if c.E.TraceStdout {
			c.E.Event(c.St, "stdout.text", []Value{s}, c.pos())
		}
		return c.one(TupleV{c.E.Unknown(types.Typ[types.Int], "n"), IfaceV{Nil: Unknown, Vid: c.E.U.Vid()}})
	}
	le := func(n int64, big bool) func(c *ExtCall) []CallRes {
		return func(c *ExtCall) []CallRes {
			s, ok := c.Arg(1).(SliceV)
			if !ok {
				return c.one(c.E.Unknown(c.Sig.Results().At(0).Type(), "le"))
			}
			if !c.E.oblige(c.St, c.Site.(ssa.Instruction), "index", geCond(s.Len.AddC(-n)), "byte-order read beyond slice") {
				return nil
			}
			cn := c.E.Content(c.St, s)
			if cn == nil {
				return c.one(c.E.Unknown(c.Sig.Results().At(0).Type(), "le"))
			}
			r := Num(0)
			for i := int64(0); i < n; i++ {
				sh := i
				if big {
					sh = n - 1 - i
				}
				b, ok := c.E.Read(c.St.F, cn, s.Off.AddC(i)).(IntV)
				if !ok {
					return c.one(c.E.Unknown(c.Sig.Results().At(0).Type(), "le"))
				}
				r = r.addMul(int64(1)<<uint(8*sh), b.L)
			}
			return c.one(IntV{r})
		}
	}
	putle := func(n int64, big bool) func(c *ExtCall) []CallRes {
		return func(c *ExtCall) []CallRes {
			s, ok := c.Arg(1).(SliceV)
			v, ok2 := c.Arg(2).(IntV)
			if !ok || !ok2 {
				c.E.havocArgs(c.St, c.Args)
				return c.one(nil)
			}
			if !c.E.oblige(c.St, c.Site.(ssa.Instruction), "index", geCond(s.Len.AddC(-n)), "byte-order write beyond slice") {
				return nil
			}
			for i := int64(0); i < n; i++ {
				sh := i
				if big {
					sh = n - 1 - i
				}
				b := c.E.U.AndC(c.E.U.Div(v.L, int64(1)<<uint(8*sh), c.St.F), 255, c.St.F)
				p := PtrV{Obj: s.Obj, Path: append(s.Path[:len(s.Path):len(s.Path)], PE{Field: -1, Idx: canon(c.St.F, s.Off.AddC(i))}), Nil: False}
				c.E.Store(c.St, p, IntV{b}, byteType, c.pos())
			}
			return c.one(nil)
		}
	}
	bufWrite := func(get func(c *ExtCall) StrV, fall bool) func(c *ExtCall) []CallRes {
		return func(c *ExtCall) []CallRes {
			s := get(c)
			if p, ok := c.E.bufPtr(c.Arg(0)); ok {
				c.E.bufAppend(c.St, p, s)
			}
			switch c.Sig.Results().Len() {
			case 0:
				return c.one(nil)
			case 1:
				return c.one(IfaceV{Nil: True})
			}
			return c.one(TupleV{IntV{c.E.U.StrLen(s)}, IfaceV{Nil: True}})
		}
	}
	strArg1 := func(c *ExtCall) StrV {
		if s, ok := c.Arg(1).(StrV); ok {
			return c.St.F.resolveStr(s)
		}
		return c.E.U.FreshStr("w")
	}
	bytesArg1 := func(c *ExtCall) StrV {
		if s, ok := c.Arg(1).(SliceV); ok {
			if v, ok := c.E.bytesToStr(c.St, s).(StrV); ok {
				return v
			}
		}
		return c.E.U.FreshStr("w")
	}
	byteArg1 := func(c *ExtCall) StrV {
		if v, ok := c.Arg(1).(IntV); ok {
			if k, ok := c.St.F.Const(v.L); ok {
				if strings.HasSuffix(c.Name, "WriteByte") {
					return Lit(string([]byte{byte(k)}))
				}
				return Lit(string(rune(k)))
			}
			if strings.HasSuffix(c.Name, "WriteByte") {
				return c.E.ByteStr(c.St, v.L)
			}
			return c.E.convert(c.St, v, types.Typ[types.Int32], types.Typ[types.String]).(StrV)
		}
		return c.E.U.FreshStr("w")
	}
	bufString := func(c *ExtCall) []CallRes {
		if p, ok := c.E.bufPtr(c.Arg(0)); ok {
			return c.one(c.E.obj(c.St, c.E.ghost(p, "buf")))
		}
		return c.one(c.E.U.FreshStr("buf"))
	}
	fileWrite := func(c *ExtCall) []CallRes {
		std := "file"
		for _, n := range []string{"Stdout", "Stderr"} {
			if c.E.IsStd(c.Arg(0), n) {
				std = strings.ToLower(n)
			}
		}
		if std != "stderr" {
			kind := std + ".Write"
			if std == "file" {
				kind = "(*os.File).Write"
			}
			c.event(kind)
		}
		n := Num(0)
		switch a := c.Arg(1).(type) {
		case SliceV:
			n = a.Len
		case StrV:
			n = c.E.U.StrLen(c.St.F.resolveStr(a))
		}
		return c.Split([]Value{IntV{n}})
	}
	extTable = map[string]func(c *ExtCall) []CallRes{
		"fmt.Sprintf": func(c *ExtCall) []CallRes { return c.one(c.Format(0, 1)) },
		"fmt.Errorf": func(c *ExtCall) []CallRes {
			er := c.E.NewErr("fmt.Errorf", c.pos())
			er.Err.Msg = c.Format(0, 1)
			if a, ok := c.varargs(1); ok {
				er.Err.Wrap = a
			}
			return c.one(er)
		},
		"errors.New": func(c *ExtCall) []CallRes {
			er := c.E.NewErr("errors.New", c.pos())
			if s, _, _ := c.str(0); true {
				er.Err.Msg = s
			}
			return c.one(er)
		},
		"errors.Is": func(c *ExtCall) []CallRes {
			a, ok := c.Arg(0).(IfaceV)
			b, ok2 := c.Arg(1).(IfaceV)
			if ok && ok2 {
				if c.St.F.nilOf(a.Nil, a.Vid) == True {
					return c.one(BoolV{constCond(c.St.F.nilOf(b.Nil, b.Vid) == True)})
				}
				if b.Err != nil && strings.HasSuffix(b.Err.Kind, ".ErrNotExist") && a.Err != nil {
					if t := notExist(a, 0); t != Unknown {
						return c.one(BoolV{constCond(t == True)})
					}
				}
			}
			return c.one(c.E.Unknown(types.Typ[types.Bool], "errors.Is"))
		},
		"os.IsNotExist": func(c *ExtCall) []CallRes {
			if a, ok := c.Arg(0).(IfaceV); ok {
				if c.St.F.nilOf(a.Nil, a.Vid) == True {
					return c.one(BoolV{constCond(false)})
				}
				if t := notExist(a, 9); t != Unknown {
					return c.one(BoolV{constCond(t == True)})
				}
			}
			return c.one(c.E.Unknown(types.Typ[types.Bool], "IsNotExist"))
		},
		"fmt.Fprintf": fprint, "fmt.Fprintln": fprint, "fmt.Fprint": fprint,
		"fmt.Printf": print, "fmt.Println": print, "fmt.Print": print,
		"fmt.Sprint": func(c *ExtCall) []CallRes {
			args, ok := c.varargs(0)
			if ok && len(args) == 1 {
				return c.one(c.show(args[0]))
			}
			return c.one(c.E.U.FreshStr("sprint"))
		},
		"(error).Error": func(c *ExtCall) []CallRes {
			if i, ok := c.Arg(0).(IfaceV); ok && i.Err != nil && len(i.Err.Msg.P) > 0 {
				return c.one(i.Err.Msg)
			}
			return c.one(c.pure())
		},
		"strings.ToLower":   caseFn(false, constStr1(strings.ToLower, "ToLower")),
		"strings.ToUpper":   caseFn(true, constStr1(strings.ToUpper, "ToUpper")),
		"strings.TrimSpace": constStr1(strings.TrimSpace, "TrimSpace"),
		"path.Base":         constStr1(path.Base, "Base"),
		"path.Clean":        constStr1(path.Clean, "Clean"),
		"path/filepath.Clean": func(c *ExtCall) []CallRes {
			if _, l, ok := c.str(0); ok {
				return c.one(Lit(filepath.Clean(l)))
			}
			// the cleaned name denotes the same file
			s, _, _ := c.str(0)
			r := c.pure().(StrV)
			c.E.CleanOf[r.Key()] = s
			return c.one(r)
		},
		"path.Ext":          pathExt,
		"path/filepath.Ext": pathExt,
		"strings.EqualFold": func(c *ExtCall) []CallRes {
			a, _, ok1 := c.str(0)
			b, _, ok2 := c.str(1)
			if x, ok := c.E.foldAtoms(c.St.F, a, false); ok && !(ok1 && ok2) {
				if y, ok := c.E.foldAtoms(c.St.F, b, false); ok {
					if len(x) != len(y) {
						return c.one(BoolV{constCond(false)})
					}
					all := true
					for i := range x {
						d := x[i].Sub(y[i])
						if c.St.F.ProveNe(d) {
							return c.one(BoolV{constCond(false)})
						}
						all = all && c.St.F.ProveEq(d)
					}
					if all {
						return c.one(BoolV{constCond(true)})
					}
				}
			}
			return bool2(strings.EqualFold)(c)
		},
		"strings.HasPrefix": func(c *ExtCall) []CallRes {
			s, a, ok := c.str(0)
			_, b, ok2 := c.str(1)
			if ok && ok2 {
				return c.one(BoolV{constCond(strings.HasPrefix(a, b))})
			}
			if ok2 && len(s.P) > 0 && s.P[0].Sym == nil {
				l := s.P[0].Lit
				if len(l) >= len(b) {
					return c.one(BoolV{constCond(strings.HasPrefix(l, b))})
				}
			}
			return c.one(c.pure())
		},
		"strings.HasSuffix": func(c *ExtCall) []CallRes {
			s, a, ok := c.str(0)
			_, b, ok2 := c.str(1)
			if ok && ok2 {
				return c.one(BoolV{constCond(strings.HasSuffix(a, b))})
			}
			if ok2 && len(s.P) > 0 && s.P[len(s.P)-1].Sym == nil {
				l := s.P[len(s.P)-1].Lit
				if len(l) >= len(b) {
					return c.one(BoolV{constCond(strings.HasSuffix(l, b))})
				}
			}
			return c.one(c.pure())
		},
		"strings.Contains": bool2(strings.Contains),
		"strings.ContainsRune": func(c *ExtCall) []CallRes {
			_, a, ok := c.str(0)
			if k, ok2 := c.int(1); ok && ok2 {
				return c.one(BoolV{constCond(strings.ContainsRune(a, rune(k)))})
			}
			return c.one(c.pure())
		},
		"strings.Repeat": func(c *ExtCall) []CallRes {
			_, a, ok := c.str(0)
			if k, ok2 := c.int(1); ok && ok2 && k >= 0 && k < 100000 {
				return c.one(Lit(strings.Repeat(a, int(k))))
			}
			return c.one(c.pure())
		},
		"strings.Index":     strIdx(strings.Index),
		"strings.LastIndex": strIdx(strings.LastIndex),
		"strings.IndexByte": func(c *ExtCall) []CallRes {
			s, a, ok := c.str(0)
			if k, ok2 := c.int(1); ok && ok2 {
				return c.one(IntV{Num(int64(strings.IndexByte(a, byte(k))))})
			}
			r := c.E.U.Fresh("idx", -1, 1<<40)
			c.St.F.AssumeGE(c.E.U.StrLen(s).Sub(Of(r)).AddC(-1))
			return c.one(IntV{Of(r)})
		},
		"strings.IndexRune": func(c *ExtCall) []CallRes {
			s, a, ok := c.str(0)
			if k, ok2 := c.int(1); ok && ok2 {
				return c.one(IntV{Num(int64(strings.IndexRune(a, rune(k))))})
			}
			r := c.E.U.Fresh("idx", -1, 1<<40)
			c.St.F.AssumeGE(c.E.U.StrLen(s).Sub(Of(r)).AddC(-1))
			return c.one(IntV{Of(r)})
		},
		"strings.Join": func(c *ExtCall) []CallRes {
			el, ok := c.varargs(0)
			sep, _, _ := c.str(1)
			if ok {
				out := StrV{}
				for i, x := range el {
					sv, isS := x.(StrV)
					if !isS {
						return c.one(c.E.U.FreshStr("join"))
					}
					if i > 0 {
						out = concat(out, sep)
					}
					out = concat(out, c.St.F.resolveStr(sv))
				}
				return c.one(out)
			}
			return c.one(c.E.U.FreshStr("join"))
		},
		"strings.Split": func(c *ExtCall) []CallRes {
			_, a, ok := c.str(0)
			_, b, ok2 := c.str(1)
			if ok && ok2 {
				return c.one(c.E.strSlice(c.St, strings.Split(a, b)))
			}
			r := c.E.Unknown(c.Sig.Results().At(0).Type(), "split").(SliceV)
			if ok2 && b != "" {
				c.St.F.AssumeGE(r.Len.AddC(-1))
			}
			r.Nil = False
			return c.one(r)
		},
		"strings.SplitN": func(c *ExtCall) []CallRes {
			_, a, ok := c.str(0)
			_, b, ok2 := c.str(1)
			k, ok3 := c.int(2)
			if ok && ok2 && ok3 {
				return c.one(c.E.strSlice(c.St, strings.SplitN(a, b, int(k))))
			}
			r := c.E.Unknown(c.Sig.Results().At(0).Type(), "split").(SliceV)
			if ok3 && k > 0 {
				c.St.F.AssumeGE(r.Len.AddC(-1))
				c.St.F.AssumeGE(Num(k).Sub(r.Len))
			}
			r.Nil = False
			return c.one(r)
		},
		"strings.Fields": func(c *ExtCall) []CallRes {
			if _, a, ok := c.str(0); ok {
				return c.one(c.E.strSlice(c.St, strings.Fields(a)))
			}
			r := c.E.Unknown(c.Sig.Results().At(0).Type(), "fields").(SliceV)
			r.Nil = False
			return c.one(r)
		},
		"strconv.Itoa": func(c *ExtCall) []CallRes {
			if k, ok := c.int(0); ok {
				return c.one(Lit(strconv.Itoa(int(k))))
			}
			if v, ok := c.Arg(0).(IntV); ok {
				s := c.E.U.strSym("fmt:%d:"+valKey(v), fmt.Sprintf("itoa(%s)", valStr(v)))
				s.Fn, s.Args = "%d", []Value{v}
				return c.one(StrV{P: []Piece{{Sym: s}}})
			}
			return c.one(c.pure())
		},
		"strconv.ParseUint": func(c *ExtCall) []CallRes {
			_, a, ok := c.str(0)
			base, ok2 := c.int(1)
			bits, ok3 := c.int(2)
			if ok && ok2 && ok3 {
				v, err := strconv.ParseUint(a, int(base), int(bits))
				if err != nil {
					return c.one(TupleV{IntV{Num(int64(v & (1<<60 - 1)))}, c.E.NewErr("ext:strconv.ParseUint", c.pos())})
				}
				if v < 1<<60 {
					return c.one(TupleV{IntV{Num(int64(v))}, IfaceV{Nil: True}})
				}
			}
			hi := bigInt
			if ok3 && bits > 0 && bits < 60 {
				hi = int64(1)<<uint(bits) - 1
			}
			// keyed so that re-parsing the same text gives the same value
			s, _, _ := c.str(0)
			val := c.E.U.mk(fmt.Sprintf("parse:%s:%d:%d", s.Key(), base, bits), SymOther, 0, hi, "ParseUint("+s.String()+")")
			return c.Split([]Value{IntV{Of(val)}})
		},
		"unicode/utf8.RuneLen": func(c *ExtCall) []CallRes {
			if k, ok := c.int(0); ok {
				return c.one(IntV{Num(int64(utf8.RuneLen(rune(k))))})
			}
			return c.one(c.pure())
		},
		"os.Open": func(c *ExtCall) []CallRes {
			s, _, _ := c.str(0)
			if o, ok := c.E.CleanOf[s.Key()]; ok {
				s = o
			}
			id := c.E.lazyObj("file:"+s.Key(), nil, "file:"+s.String())
			if _, ok := c.E.lazyInit[id]; !ok {
				c.E.lazyInit[id] = TopV{}
			}
			c.E.FileName[id] = s
			return c.Split([]Value{PtrV{Obj: id, Nil: False}})
		},
		"(*os.File).Name": func(c *ExtCall) []CallRes {
			if p, ok := c.Arg(0).(PtrV); ok {
				if s, ok := c.E.FileName[p.Obj]; ok {
					return c.one(s)
				}
				if c.E.IsStd(p, "Stdin") {
					return c.one(Lit("/dev/stdin"))
				}
			}
			return c.one(c.pure())
		},
		"(*os.File).Close": func(c *ExtCall) []CallRes { return c.Split(nil) },
		"io.ReadAll": func(c *ExtCall) []CallRes {
			v := c.Arg(0)
			if i, ok := v.(IfaceV); ok {
				v = i.Val
			}
			key := "reader"
			var nm StrV
			if p, ok := v.(PtrV); ok {
				if s, ok := c.E.FileName[p.Obj]; ok {
					key, nm = s.String(), s
				} else {
					key = c.E.objName[p.Obj]
				}
			}
			return c.Split([]Value{c.E.fileBytes(c.St, key, nm)})
		},
		"os.ReadFile": func(c *ExtCall) []CallRes {
			s, _, _ := c.str(0)
			if o, ok := c.E.CleanOf[s.Key()]; ok {
				s = o
			}
			return c.Split([]Value{c.E.fileBytes(c.St, s.String(), s)})
		},
		"os.Stat":  statFn,
		"os.Lstat": statFn,
		"os.WriteFile": func(c *ExtCall) []CallRes {
			c.event("os.WriteFile")
			return c.Split(nil)
		},
		"os.Exit": func(c *ExtCall) []CallRes {
			if c.E.OnExit != nil {
				c.E.OnExit(c.St, c.Arg(0), c.pos())
			}
			return nil
		},
		"(*os.File).Write":       fileWrite,
		"(*os.File).WriteString": fileWrite,
		"io.WriteString": func(c *ExtCall) []CallRes {
			if p, ok := c.E.bufPtr(c.Arg(0)); ok {
				c.E.bufAppend(c.St, p, strArg1(c))
				return c.one(TupleV{IntV{c.E.U.StrLen(strArg1(c))}, IfaceV{Nil: True}})
			}
			return fileWrite(c)
		},
		"(encoding/binary.littleEndian).Uint16":    le(2, false),
		"(encoding/binary.littleEndian).Uint32":    le(4, false),
		"(encoding/binary.bigEndian).Uint16":       le(2, true),
		"(encoding/binary.bigEndian).Uint32":       le(4, true),
		"(encoding/binary.littleEndian).PutUint16": putle(2, false),
		"(encoding/binary.littleEndian).PutUint32": putle(4, false),
		"(encoding/binary.bigEndian).PutUint16":    putle(2, true),
		"(encoding/binary.bigEndian).PutUint32":    putle(4, true),
		"(*bytes.Buffer).WriteString":              bufWrite(strArg1, false),
		"(*strings.Builder).WriteString":           bufWrite(strArg1, false),
		"(*bytes.Buffer).Write":                    bufWrite(bytesArg1, false),
		"(*strings.Builder).Write":                 bufWrite(bytesArg1, false),
		"(*bytes.Buffer).WriteByte":                bufWrite(byteArg1, false),
		"(*strings.Builder).WriteByte":             bufWrite(byteArg1, false),
		"(*bytes.Buffer).WriteRune":                bufWrite(byteArg1, false),
		"(*strings.Builder).WriteRune":             bufWrite(byteArg1, false),
		"(*bytes.Buffer).String":                   bufString,
		"(*strings.Builder).String":                bufString,
		"(*bytes.Buffer).Len": func(c *ExtCall) []CallRes {
			r := bufString(c)
			return c.one(IntV{c.E.U.StrLen(c.St.F.resolveStr(r[0].Ret.(StrV)))})
		},
		"(*strings.Builder).Len": func(c *ExtCall) []CallRes {
			r := bufString(c)
			return c.one(IntV{c.E.U.StrLen(c.St.F.resolveStr(r[0].Ret.(StrV)))})
		},
		"(*strings.Builder).Grow": func(c *ExtCall) []CallRes { return c.one(nil) },
		"(*bytes.Buffer).Bytes": func(c *ExtCall) []CallRes {
			r := bufString(c)
			return c.one(c.E.convert(c.St, r[0].Ret, types.Typ[types.String], types.NewSlice(byteType)))
		},
		"bytes.Equal": func(c *ExtCall) []CallRes {
			a, ok := c.Arg(0).(SliceV)
			b, ok2 := c.Arg(1).(SliceV)
			if ok && ok2 {
				sa, oka := c.E.bytesToStr(c.St, a).(StrV)
				sb, okb := c.E.bytesToStr(c.St, b).(StrV)
				if oka && okb {
					return c.one(BoolV{c.E.U.strEq(c.St.F, sa, sb)})
				}
			}
			return c.one(BoolV{Cond{Op: CB, B: c.E.U.freshB("bytes.Equal")}})
		},
		"regexp.MustCompile": func(c *ExtCall) []CallRes {
			_, pat, ok := c.str(0)
			v := c.E.Unknown(c.Sig.Results().At(0).Type(), "regexp").(PtrV)
			v.Nil, v.Vid = False, 0
			if ok {
				if re, err := regexp.Compile(pat); err == nil {
					c.E.Regexps[v.Obj] = re
				} else {
					c.E.oblige(c.St, c.Site.(ssa.Instruction), "panic", Cond{Op: CFalse}, "invalid regexp "+pat)
					return nil
				}
			}
			return c.one(v)
		},
		"(*regexp.Regexp).FindStringSubmatch": func(c *ExtCall) []CallRes {
			p, _ := c.Arg(0).(PtrV)
			re := c.E.Regexps[p.Obj]
			_, s, ok := c.str(1)
			if re != nil && ok {
				m := re.FindStringSubmatch(s)
				if m == nil {
					return c.one(SliceV{Obj: -1, Nil: True})
				}
				return c.one(c.E.strSlice(c.St, m))
			}
			if re != nil {
				o := c.St.clone()
				n := re.NumSubexp() + 1
				// one keyed unknown per group
				sv, _, _ := c.str(1)
				id := c.E.alloc(c.St, nil, c.Sig.Results().At(0).Type(), "submatch")
				cn := c.E.zeroContent(Num(int64(n)), types.Typ[types.String])
				for i := 0; i < n; i++ {
					g := c.E.keyedUnknown(fmt.Sprintf("submatch:%s:%s:%d", re, sv.Key(), i), "submatch", types.Typ[types.String], nil, Lin{})
					cn = c.E.writeElem(c.St.F, cn, Num(int64(i)), g)
				}
				c.St.Heap = c.St.Heap.Set(id, ArrV{cn})
				b := Cond{Op: CB, B: c.E.U.bsym(fmt.Sprintf("rematch:%s:%s", re, sv.Key()), "match("+re.String()+")")}
				var out []CallRes
				if c.St.F.Assume(b) {
					out = append(out, CallRes{c.St, SliceV{Obj: id, Off: Num(0), Len: Num(int64(n)), Cap: Num(int64(n)), Nil: False}})
				}
				if o.F.Assume(b.Not()) {
					out = append(out, CallRes{o, SliceV{Obj: -1, Nil: True}})
				}
				return out
			}
			return c.one(c.E.Unknown(c.Sig.Results().At(0).Type(), "submatch"))
		},
		"(*regexp.Regexp).MatchString": func(c *ExtCall) []CallRes {
			p, _ := c.Arg(0).(PtrV)
			re := c.E.Regexps[p.Obj]
			sv, s, ok := c.str(1)
			if re != nil && ok {
				return c.one(BoolV{constCond(re.MatchString(s))})
			}
			if re != nil {
				return c.one(BoolV{Cond{Op: CB, B: c.E.U.bsym(fmt.Sprintf("rematch:%s:%s", re, sv.Key()), "match("+re.String()+")")}})
			}
			return c.one(c.E.Unknown(types.Typ[types.Bool], "match"))
		},
		"(*regexp.Regexp).ReplaceAllStringFunc": func(c *ExtCall) []CallRes {
			p, _ := c.Arg(0).(PtrV)
			re := c.E.Regexps[p.Obj]
			_, s, ok := c.str(1)
			if re == nil || !ok {
				return c.one(c.E.U.FreshStr("replaced"))
			}
			out := []CallRes{{St: c.St, Ret: StrV{}}}
			add := func(t StrV) {
				for i := range out {
					out[i].Ret = concat(out[i].Ret.(StrV), t)
				}
			}
			last := 0
			for _, m := range re.FindAllStringIndex(s, -1) {
				add(Lit(s[last:m[0]]))
				var next []CallRes
				for _, o := range out {
					for _, r := range c.E.callValue(o.St, c.Arg(2), []Value{Lit(s[m[0]:m[1]])}, c.Site) {
						rs, ok := r.Ret.(StrV)
						if !ok {
							rs = c.E.U.FreshStr("replaced")
						}
						next = append(next, CallRes{St: r.St, Ret: concat(o.Ret.(StrV), rs)})
					}
				}
				out, last = next, m[1]
			}
			add(Lit(s[last:]))
			return out
		},
		"strings.Map": func(c *ExtCall) []CallRes {
			_, s, ok := c.str(1)
			if !ok {
				return c.one(c.E.U.FreshStr("mapped"))
			}
			out := []CallRes{{St: c.St, Ret: StrV{}}}
			for _, ch := range s {
				var next []CallRes
				for _, o := range out {
					for _, r := range c.E.callValue(o.St, c.Arg(0), []Value{IntV{Num(int64(ch))}}, c.Site) {
						v, ok := r.Ret.(IntV)
						k, ok2 := int64(0), false
						if ok {
							k, ok2 = r.St.F.Const(v.L)
						}
						t := c.E.U.FreshStr("mapped")
						if ok2 && k < 0 {
							t = StrV{}
						} else if ok2 {
							t = Lit(string(rune(k)))
						}
						next = append(next, CallRes{St: r.St, Ret: concat(o.Ret.(StrV), t)})
					}
				}
				out = next
			}
			return out
		},
		"text/tabwriter.NewWriter": func(c *ExtCall) []CallRes {
			v := c.E.Unknown(c.Sig.Results().At(0).Type(), "tabwriter").(PtrV)
			v.Nil, v.Vid = False, 0
			return c.one(v)
		},
		"(*text/tabwriter.Writer).Flush": func(c *ExtCall) []CallRes { return c.Split(nil) },
		"math/bits.OnesCount8":           bitcount,
		"sort.Slice":                     func(c *ExtCall) []CallRes { c.E.havocArgs(c.St, c.Args[:1]); return c.one(nil) },
		"sort.Strings":                   func(c *ExtCall) []CallRes { c.E.havocArgs(c.St, c.Args[:1]); return c.one(nil) },
		"sort.Ints":                      func(c *ExtCall) []CallRes { c.E.havocArgs(c.St, c.Args[:1]); return c.one(nil) },
	}
}

func bitcount(c *ExtCall) []CallRes {
	return c.one(IntV{Of(c.E.U.Fresh("ones", 0, 8))})
}

func strIdx(f func(a, b string) int) func(c *ExtCall) []CallRes {
	return func(c *ExtCall) []CallRes {
		s, a, ok := c.str(0)
		_, b, ok2 := c.str(1)
		if ok && ok2 {
			return c.one(IntV{Num(int64(f(a, b)))})
		}
		r := c.E.U.Fresh("idx", -1, 1<<40)
		c.St.F.AssumeGE(c.E.U.StrLen(s).Sub(Of(r)).AddC(-1))
		if ok2 && len(b) > 1 {
			_ = b
		}
		return c.one(IntV{Of(r)})
	}
}

func notExist(a IfaceV, depth int) Tri {
	if a.Err == nil {
		return Unknown
	}
	switch a.Err.Kind {
	case "notexist":
		return True
	case "stat-other":
		return False
	case "fmt.Errorf", "errors.New":
		if depth > 6 {
			return False
		}
		for _, w := range a.Err.Wrap {
			if iv, ok := w.(IfaceV); ok {
				if iv.Dyn == nil && iv.Err != nil {
					return Unknown
				}
			}
		}
		return False
	}
	return Unknown
}

func pathExt(c *ExtCall) []CallRes {
	s, l, ok := c.str(0)
	if ok {
		return c.one(Lit(path.Ext(l)))
	}
	if n := len(s.P); n > 0 && s.P[n-1].Sym == nil {
		lit := s.P[n-1].Lit
		if i := strings.LastIndexAny(lit, "./"); i >= 0 {
			if lit[i] == '.' {
				return c.one(Lit(lit[i:]))
			}
			return c.one(StrV{})
		}
	}
	return c.one(c.pure())
}

func statFn(c *ExtCall) []CallRes {
	e := c.E
	s, _, _ := c.str(0)
	if o, ok := e.CleanOf[s.Key()]; ok {
		s = o
	}
	info := func() Value {
		return IfaceV{Nil: False, Vid: e.U.Vid()}
	}
	a, b, d := c.St, c.St.clone(), c.St.clone()
	e.Event(a, "os.Stat:exists", []Value{s}, c.pos())
	e.Event(b, "os.Stat:notexist", []Value{s}, c.pos())
	e.Event(d, "os.Stat:other", []Value{s}, c.pos())
	return []CallRes{
		{a, TupleV{info(), IfaceV{Nil: True}}},
		{b, TupleV{IfaceV{Nil: True}, e.NewErr("notexist", c.pos())}},
		{d, TupleV{IfaceV{Nil: True}, e.NewErr("stat-other", c.pos())}},
	}
}

// show renders an operand the way Print does.
func (c *ExtCall) show(a Value) StrV {
	if iv, ok := a.(IfaceV); ok && iv.Dyn != nil {
		a = iv.Val
	}
	switch x := a.(type) {
	case StrV:
		return c.St.F.resolveStr(x)
	case IntV:
		if k, ok := c.St.F.Const(x.L); ok {
			return Lit(strconv.FormatInt(k, 10))
		}
		s := c.E.U.strSym("fmt:%d:"+valKey(a), fmt.Sprintf("fmt(%s)", valStr(a)))
		s.Fn, s.Args = "%d", []Value{a}
		return StrV{P: []Piece{{Sym: s}}}
	}
	return c.E.U.FreshStr("show")
}

func (e *Engine) strSlice(st *State, ss []string) SliceV {
	c := e.zeroContent(Num(int64(len(ss))), types.Typ[types.String])
	for i, s := range ss {
		c = e.writeElem(st.F, c, Num(int64(i)), Lit(s))
	}
	id := e.alloc(st, ArrV{c}, types.NewSlice(types.Typ[types.String]), "strings")
	n := Num(int64(len(ss)))
	return SliceV{Obj: id, Off: Num(0), Len: n, Cap: n, Nil: False}
}

// ---- builtins

func (e *Engine) builtin(st *State, b *ssa.Builtin, args []Value, site ssa.CallInstruction) []CallRes {
	one := func(v Value) []CallRes { return []CallRes{{st, v}} }
	in := site.(ssa.Instruction)
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case StrV:
			return one(IntV{e.U.StrLen(st.F.resolveStr(x))})
		case SliceV:
			if b.Name() == "cap" {
				return one(IntV{x.Cap})
			}
			return one(IntV{x.Len})
		case ArrV:
			return one(IntV{x.C.N})
		case MapV:
			if x.Obj < 0 {
				return one(IntV{Num(0)})
			}
			if m, ok := e.obj(st, x.Obj).(*MapC); ok && m.Base == MEmpty && m.allC {
				return one(IntV{Num(int64(len(m.Ents)))})
			}
			return one(IntV{Of(e.U.Fresh("maplen", 0, 1<<40))})
		case PtrV:
			if p, ok := site.Common().Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return one(IntV{Num(a.Len())})
				}
			}
		}
		return one(IntV{Of(e.U.Fresh("len", 0, 1<<40))})
	case "append":
		return one(e.append(st, args, site))
	case "copy":
		return one(e.copy(st, args, site))
	case "delete":
		if m, ok := args[0].(MapV); ok && m.Obj >= 0 {
			if mc, ok := e.obj(st, m.Obj).(*MapC); ok {
				e.noteStore(st, m.Obj, nil, Num(0), Num(1), site.Pos())
				st.Heap = st.Heap.Set(m.Obj, e.mapDel(st.F, mc, args[1]))
				st.FI = st.FI.Set(m.Obj, -1<<30)
			}
		}
		return one(nil)
	case "print", "println":
		return one(nil)
	case "panic":
		e.oblige(st, in, "panic", Cond{Op: CFalse}, "explicit panic")
		return nil
	case "recover":
		return one(IfaceV{Nil: Unknown, Vid: e.U.Vid()})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok {
			if !e.nilCheck(st, in, p, "method call through nil pointer") {
				return nil
			}
		}
		return one(args[0])
	case "min", "max":
		a, ok := args[0].(IntV)
		if ok && len(args) == 2 {
			c, ok2 := args[1].(IntV)
			if ok2 {
				o := st.clone()
				cond := geCond(c.L.Sub(a.L)) // a <= b
				lo, hi := Value(a), Value(c)
				if b.Name() == "max" {
					lo, hi = hi, lo
				}
				var out []CallRes
				if st.F.Assume(cond) {
					out = append(out, CallRes{st, lo})
				}
				if o.F.Assume(cond.Not()) {
					out = append(out, CallRes{o, hi})
				}
				return out
			}
		}
	case "clear":
		e.havocArgs(st, args)
		return one(nil)
	}
	panic(undecided{why: "builtin " + b.Name()})
}

func (e *Engine) append(st *State, args []Value, site ssa.CallInstruction) Value {
	f := st.F
	t := site.Common().Args[0].Type()
	s, ok := args[0].(SliceV)
	if !ok {
		e.havocArgs(st, args)
		return e.Unknown(t, "append")
	}
	var src *Content
	srcOff, n := Num(0), Num(0)
	switch x := args[1].(type) {
	case SliceV:
		src, srcOff, n = e.Content(st, x), x.Off, x.Len
		if x.Obj < 0 {
			n = Num(0)
		}
	case StrV:
		x = f.resolveStr(x)
		src, n = e.strContent(f, x), e.U.StrLen(x)
	case PtrV:
		// append(s, nil...)
	default:
		e.havocArgs(st, args[:1])
		return e.Unknown(t, "append")
	}
	n = canon(f, n)
	if n.IsConst() && n.C == 0 {
		return s
	}
	elem := t.Underlying().(*types.Slice).Elem()
	newLen := canon(f, s.Len.Add(n))
	if s.Obj >= 0 && s.Cap.IsConst() && newLen.IsConst() && newLen.C <= s.Cap.C && !e.isSummary(s.Obj) {
		// in place
		r := s
		r.Len = newLen
		e.writeRegion(st, r, s.Len, n, src, srcOff, site.Pos())
		return r
	}
	// new backing array holding the old elements followed by the new ones
	var c *Content
	if s.Obj < 0 {
		c = e.zeroContent(newLen, elem)
	} else {
		old := e.Content(st, s)
		switch {
		case old == nil:
			c = e.freshInput("append", newLen, elem)
		case old.Kind == KSum && !isByteish(elem):
			c = e.newContent(KSum, newLen, elem)
			c.Sum = old.Sum
		case s.Off.IsConst() && s.Off.C == 0:
			// share the prefix: element i of the log is element i of the new array
			cc := *old
			e.U.conID++
			if old.Kind == KWrite || old.Kind == KZero || old.Kind == KConst {
				cc.ID = e.U.conID
				cc.N = newLen
				c = &cc
				if old.Kind == KConst {
					c = e.writeCopy(f, e.zeroContent(newLen, elem), Num(0), s.Len, old, Num(0))
				}
			} else {
				c = e.writeCopy(f, e.zeroContent(newLen, elem), Num(0), s.Len, old, s.Off)
			}
		default:
			c = e.writeCopy(f, e.zeroContent(newLen, elem), Num(0), s.Len, old, s.Off)
		}
	}
	id := e.alloc(st, ArrV{c}, t, e.Pos(site.Pos()))
	if s.Obj >= 0 && !e.isSummary(s.Obj) && e.allocSite[s.Obj] != "loop" && isByteish(elem) && !f.Prove(s.Len.Sub(s.Cap)) {
		// if there is room, the elements go into the old array, where others may see them
		if old := e.Content(st, s); old != nil && !f.Prove(s.Off.Add(s.Len).Sub(old.N)) {
			e.writeRegion(st, s, s.Len, n, nil, Num(0), site.Pos())
			e.aliasOf[id] = append(e.aliasOf[id], s.Obj)
		}
	}
	r := SliceV{Obj: id, Off: Num(0), Len: newLen, Cap: newLen, Nil: False}
	if !newLen.IsConst() {
		// capacity unknown but at least the length
		r.Cap = Of(e.U.Fresh("cap", 0, Inf))
		f.AssumeGE(r.Cap.Sub(newLen))
	}
	if c.Kind == KSum && !isByteish(elem) {
		var g Value
		if src != nil {
			// single appended element keeps its own abstraction
			if k, ok := f.Const(n); ok && k <= 16 {
				for i := int64(0); i < k; i++ {
					v := e.generalize(f, e.Read(f, src, srcOff.AddC(i)), elem)
					if g == nil {
						g = v
					} else {
						g = e.joinGen(g, v, elem)
					}
				}
			} else {
				g = e.sumContent(f, src).Sum
			}
		} else {
			g = e.anyOf(elem)
		}
		nc := e.newContent(KSum, newLen, elem)
		nc.Sum = g
		if c.Sum != nil {
			nc.Sum = e.joinGen(c.Sum, g, elem)
		}
		st.Heap = st.Heap.Set(id, ArrV{nc})
		return r
	}
	if src == nil {
		w := e.newContent(KWrite, newLen, elem)
		w.Prev, w.Off, w.Len, w.Havoc = c, canon(f, s.Len), n, true
		st.Heap = st.Heap.Set(id, ArrV{w})
		return r
	}
	if k, ok := f.Const(n); ok && k == 1 {
		v := e.Read(f, src, srcOff)
		w := e.writeElem(f, c, s.Len, v)
		w.N = newLen
		st.Heap = st.Heap.Set(id, ArrV{w})
		return r
	}
	w := e.writeCopy(f, c, s.Len, n, src, srcOff)
	w.N = newLen
	st.Heap = st.Heap.Set(id, ArrV{w})
	return r
}

func (e *Engine) copy(st *State, args []Value, site ssa.CallInstruction) Value {
	f := st.F
	d, ok := args[0].(SliceV)
	if !ok {
		if c, isC := args[0].(ChoiceV); isC {
			e.havocArgs(st, []Value{c})
		}
		return IntV{Of(e.U.Fresh("copied", 0, 1<<40))}
	}
	var src *Content
	srcOff, n := Num(0), Num(0)
	switch x := args[1].(type) {
	case SliceV:
		src, srcOff, n = e.Content(st, x), x.Off, x.Len
		if x.Obj < 0 {
			n = Num(0)
		}
	case StrV:
		x = f.resolveStr(x)
		src, n = e.strContent(f, x), e.U.StrLen(x)
	default:
		n = Of(e.U.Fresh("n", 0, 1<<40))
	}
	// count = min(len(d), n)
	cnt := n
	switch {
	case f.Prove(d.Len.Sub(n)):
	case f.Prove(n.Sub(d.Len)):
		cnt = d.Len
	default:
		m := Of(e.U.Fresh("min", 0, Inf))
		f.AssumeGE(n.Sub(m))
		f.AssumeGE(d.Len.Sub(m))
		f.addImp(&imp{[]Cond{{Op: CGE, L: d.Len.Sub(n)}}, []Lin{m.Sub(n)}})
		f.addImp(&imp{[]Cond{{Op: CGE, L: n.Sub(d.Len)}}, []Lin{m.Sub(d.Len)}})
		cnt = m
	}
	cnt = canon(f, cnt)
	if d.Obj >= 0 {
		e.writeRegion(st, d, Num(0), cnt, src, srcOff, site.Pos())
	}
	return IntV{cnt}
}
