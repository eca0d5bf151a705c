package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value.
type Value interface{}

type (
	// IntV is an integer.
	IntV struct{ L Lin }
	// BoolV is a boolean condition.
	BoolV struct{ C Cond }
	// StrV is a string: a concatenation of pieces.
	StrV struct{ P []Piece }
	// PtrV is a pointer into an object.
	PtrV struct {
		Obj  int
		Path []PE
		Nil  Tri
		Vid  int
	}
	// SliceV is a slice of the array found at Obj.Path.
	SliceV struct {
		Obj           int
		Path          []PE
		Off, Len, Cap Lin
		Nil           Tri
		Vid           int
	}
	// IfaceV is an interface value.
	IfaceV struct {
		Dyn types.Type // nil: unknown dynamic type
		Val Value
		Nil Tri
		Vid int
		Err *ErrInfo
	}
	// FuncV is a function value.
	FuncV struct {
		Fn   *ssa.Function
		Bind []Value
		Blt  *ssa.Builtin
		Nil  Tri
	}
	// MapV refers to a map object.
	MapV struct {
		Obj int
		Nil Tri
	}
	// StructV is a struct.
	StructV struct{ F []Value }
	// ArrV is an array.
	ArrV struct{ C *Content }
	// TupleV is a tuple.
	TupleV []Value
	// ChoiceV is a join of pointer-like values.
	ChoiceV struct{ Alts []Value }
	// TopV is an unmodelled value (floats, channels, complex).
	TopV struct{ T types.Type }
	// AnyV stands, inside a summary, for any integer of an interval.
	AnyV struct{ Iv Interval }
	// AnyPtrV stands, inside a summary, for a pointer to some object.
	AnyPtrV struct {
		T   types.Type
		Nil Tri
	}
	// AnySliceV stands, inside a summary, for some slice.
	AnySliceV struct {
		T   types.Type
		Len Interval
		Obj int
	}
	// LazyV is a not yet materialised unknown value of a type.
	LazyV struct {
		T    types.Type
		Name string
	}
	// RangeV is a range iterator.
	RangeV struct {
		X    Value
		Map  *MapC
		I    int
		Sum  bool
		Str  StrV
		Obj  int
		Rid  int
		SOff Lin
	}
)

// Piece is a literal or symbolic part of a string.
type Piece struct {
	Lit string
	Sym *StrSym
}

// PE is a path element: a field or an array index.
type PE struct {
	Field int // >=0: field
	Idx   Lin // Field == -1
}

// ErrInfo describes where an error value came from.
type ErrInfo struct {
	Kind string // e.g. "notexist", "ext:os.ReadFile", "fmt.Errorf"
	Pos  string
	Msg  StrV
	Wrap []Value
}

// CondOp is a kind of atomic condition.
type CondOp int8

const (
	CFalse CondOp = iota
	CTrue
	CGE     // L >= 0
	CEQ     // L == 0
	CNE     // L != 0
	CB      // B
	CNB     // not B
	CNil    // vid is nil
	CNotNil // vid is not nil
	CSEq    // SSym == SLit
	CSNe
	CAnd
	COr
)

// Cond is a refinable condition.
type Cond struct {
	Op   CondOp
	L    Lin
	B    *BSym
	Vid  int
	S    *StrSym
	SLit string
	Sub  []Cond
}

func constCond(b bool) Cond {
	if b {
		return Cond{Op: CTrue}
	}
	return Cond{Op: CFalse}
}

func (c Cond) Not() Cond {
	switch c.Op {
	case CFalse:
		return Cond{Op: CTrue}
	case CTrue:
		return Cond{Op: CFalse}
	case CGE:
		return Cond{Op: CGE, L: c.L.Neg().AddC(-1)}
	case CEQ:
		return Cond{Op: CNE, L: c.L}
	case CNE:
		return Cond{Op: CEQ, L: c.L}
	case CB:
		return Cond{Op: CNB, B: c.B}
	case CNB:
		return Cond{Op: CB, B: c.B}
	case CNil:
		return Cond{Op: CNotNil, Vid: c.Vid}
	case CNotNil:
		return Cond{Op: CNil, Vid: c.Vid}
	case CSEq:
		return Cond{Op: CSNe, S: c.S, SLit: c.SLit}
	case CSNe:
		return Cond{Op: CSEq, S: c.S, SLit: c.SLit}
	case CAnd, COr:
		r := Cond{Op: COr}
		if c.Op == COr {
			r.Op = CAnd
		}
		for _, s := range c.Sub {
			r.Sub = append(r.Sub, s.Not())
		}
		return r
	}
	panic("cond")
}

func (c Cond) String() string {
	switch c.Op {
	case CFalse:
		return "false"
	case CTrue:
		return "true"
	case CGE:
		return c.L.String() + ">=0"
	case CEQ:
		return c.L.String() + "==0"
	case CNE:
		return c.L.String() + "!=0"
	case CB:
		return c.B.Name
	case CNB:
		return "!" + c.B.Name
	case CNil:
		return fmt.Sprintf("nil(%d)", c.Vid)
	case CNotNil:
		return fmt.Sprintf("!nil(%d)", c.Vid)
	case CSEq:
		return c.S.Name + "==" + strconv.Quote(c.SLit)
	case CSNe:
		return c.S.Name + "!=" + strconv.Quote(c.SLit)
	case CAnd, COr:
		var p []string
		for _, s := range c.Sub {
			p = append(p, s.String())
		}
		if c.Op == CAnd {
			return "(" + strings.Join(p, "&&") + ")"
		}
		return "(" + strings.Join(p, "||") + ")"
	}
	return "?"
}

func condKey(c Cond) string {
	switch c.Op {
	case CGE, CEQ, CNE:
		return strconv.Itoa(int(c.Op)) + ":" + c.L.Key()
	case CB, CNB:
		return strconv.Itoa(int(c.Op)) + ":" + strconv.Itoa(c.B.ID)
	case CNil, CNotNil:
		return strconv.Itoa(int(c.Op)) + ":" + strconv.Itoa(c.Vid)
	case CSEq, CSNe:
		return strconv.Itoa(int(c.Op)) + ":" + strconv.Itoa(c.S.ID) + "=" + c.SLit
	case CAnd, COr:
		k := strconv.Itoa(int(c.Op)) + "("
		for _, s := range c.Sub {
			k += condKey(s) + ","
		}
		return k + ")"
	}
	return strconv.Itoa(int(c.Op))
}

// Eval decides c under f.
func (f *Facts) Eval(c Cond) Tri {
	switch c.Op {
	case CFalse:
		return False
	case CTrue:
		return True
	case CGE:
		iv := rangeOf(c.L, f)
		if iv.Lo >= 0 {
			return True
		}
		if iv.Hi < 0 {
			return False
		}
		if f.Prove(c.L) {
			return True
		}
		if f.Prove(c.L.Neg().AddC(-1)) {
			return False
		}
		return Unknown
	case CEQ:
		if f.ProveNe(c.L) {
			return False
		}
		if f.ProveEq(c.L) {
			return True
		}
		return Unknown
	case CNE:
		return f.Eval(Cond{Op: CEQ, L: c.L}).Not()
	case CB:
		if v, ok := f.bools.Get(c.B.ID); ok {
			return triOf(v)
		}
		return Unknown
	case CNB:
		return f.Eval(Cond{Op: CB, B: c.B}).Not()
	case CNil:
		if v, ok := f.nils.Get(c.Vid); ok {
			return triOf(v)
		}
		return Unknown
	case CNotNil:
		return f.Eval(Cond{Op: CNil, Vid: c.Vid}).Not()
	case CSEq:
		if v, ok := f.strs.Get(c.S.ID); ok {
			return triOf(v == c.SLit)
		}
		if !strings.HasSuffix(c.SLit, c.S.Suffix) {
			return False
		}
		if v, ok := f.strNe.Get(c.S.ID); ok {
			for _, x := range v {
				if x == c.SLit {
					return False
				}
			}
		}
		return Unknown
	case CSNe:
		return f.Eval(Cond{Op: CSEq, S: c.S, SLit: c.SLit}).Not()
	case CAnd:
		r := True
		for _, s := range c.Sub {
			switch f.Eval(s) {
			case False:
				return False
			case Unknown:
				r = Unknown
			}
		}
		return r
	case COr:
		r := False
		for _, s := range c.Sub {
			switch f.Eval(s) {
			case True:
				return True
			case Unknown:
				r = Unknown
			}
		}
		return r
	}
	return Unknown
}

// Assume adds c. Reports false if contradictory.
func (f *Facts) Assume(c Cond) (res bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, o := r.(overflow); o {
				res = !f.Dead
				return
			}
			panic(r)
		}
	}()
	if f.Dead {
		return false
	}
	switch c.Op {
	case CFalse:
		f.Dead = true
	case CTrue:
	case CGE:
		f.AssumeGE(c.L)
	case CEQ:
		f.AssumeEQ(c.L)
	case CNE:
		f.AssumeNE(c.L)
	case CB, CNB:
		want := c.Op == CB
		if v, ok := f.bools.Get(c.B.ID); ok {
			if v != want {
				f.Dead = true
			}
		} else {
			f.bools = f.bools.Set(c.B.ID, want)
			f.fire(Lin{})
		}
	case CNil, CNotNil:
		want := c.Op == CNil
		if v, ok := f.nils.Get(c.Vid); ok {
			if v != want {
				f.Dead = true
			}
		} else {
			f.nils = f.nils.Set(c.Vid, want)
		}
	case CSEq:
		switch f.Eval(c) {
		case False:
			f.Dead = true
		case Unknown:
			f.strs = f.strs.Set(c.S.ID, c.SLit)
			f.AssumeEQ(f.u.strSymLen(c.S).AddC(-int64(len(c.SLit))))
		}
	case CSNe:
		switch f.Eval(c) {
		case False:
			f.Dead = true
		case Unknown:
			v, _ := f.strNe.Get(c.S.ID)
			f.strNe = f.strNe.Set(c.S.ID, append(v[:len(v):len(v)], c.SLit))
			if c.SLit == "" {
				f.AssumeGE(f.u.strSymLen(c.S).AddC(-1))
			}
		}
	case CAnd:
		for _, s := range c.Sub {
			if !f.Assume(s) {
				return false
			}
		}
	case COr:
		var live []Cond
		for _, s := range c.Sub {
			switch f.Eval(s) {
			case True:
				return true
			case Unknown:
				live = append(live, s)
			}
		}
		if len(live) == 0 {
			f.Dead = true
		} else if len(live) == 1 {
			return f.Assume(live[0])
		}
	}
	return !f.Dead
}

// ---- strings

func Lit(s string) StrV {
	if s == "" {
		return StrV{}
	}
	return StrV{P: []Piece{{Lit: s}}}
}

func (s StrV) String() string {
	if len(s.P) == 0 {
		return `""`
	}
	var b strings.Builder
	for i, p := range s.P {
		if i > 0 {
			b.WriteString("+")
		}
		if p.Sym != nil {
			b.WriteString("‹" + p.Sym.Name + "›")
		} else {
			b.WriteString(strconv.Quote(p.Lit))
		}
	}
	return b.String()
}

func (s StrV) Key() string {
	var b strings.Builder
	for _, p := range s.P {
		if p.Sym != nil {
			fmt.Fprintf(&b, "$%d;", p.Sym.ID)
		} else {
			b.WriteString(strconv.Quote(p.Lit))
		}
	}
	return b.String()
}

// resolve replaces symbols known to equal a literal.
func (f *Facts) resolveStr(s StrV) StrV {
	need := false
	for _, p := range s.P {
		if p.Sym != nil {
			if _, ok := f.strs.Get(p.Sym.ID); ok {
				need = true
			}
		}
	}
	if !need {
		return s
	}
	r := StrV{}
	for _, p := range s.P {
		if p.Sym != nil {
			if v, ok := f.strs.Get(p.Sym.ID); ok {
				r = concat(r, Lit(v))
				continue
			}
		}
		r = concat(r, StrV{P: []Piece{p}})
	}
	return r
}

func concat(a, b StrV) StrV {
	if len(a.P) == 0 {
		return b
	}
	if len(b.P) == 0 {
		return a
	}
	r := append([]Piece{}, a.P...)
	last := &r[len(r)-1]
	rest := b.P
	if last.Sym == nil && rest[0].Sym == nil {
		last.Lit += rest[0].Lit
		rest = rest[1:]
	}
	return StrV{P: append(r, rest...)}
}

// ConstStr returns the literal value of s if known.
func (f *Facts) ConstStr(s StrV) (string, bool) {
	s = f.resolveStr(s)
	switch len(s.P) {
	case 0:
		return "", true
	case 1:
		if s.P[0].Sym == nil {
			return s.P[0].Lit, true
		}
	}
	return "", false
}

func (u *Universe) strSym(key, name string) *StrSym {
	if s, ok := u.strs[key]; ok {
		return s
	}
	u.next++
	s := &StrSym{ID: u.next, Key: key, Name: name, MaxLen: Inf}
	u.strs[key] = s
	return s
}

// InputStr is a named unknown string, with a known literal suffix.
func (u *Universe) InputStr(name, suffix string) StrV {
	s := u.strSym("in:"+name+"|"+suffix, name)
	if suffix != "" {
		return StrV{P: []Piece{{Sym: s}, {Lit: suffix}}}
	}
	return StrV{P: []Piece{{Sym: s}}}
}

func (u *Universe) FreshStr(name string) StrV {
	u.next++
	s := &StrSym{ID: u.next, Name: fmt.Sprintf("%s#%d", name, u.next), MaxLen: Inf}
	return StrV{P: []Piece{{Sym: s}}}
}

func (u *Universe) strSymLen(s *StrSym) Lin {
	if s.Bytes != nil {
		return s.BLen
	}
	hi := int64(1) << 40
	if s.MaxLen < hi {
		hi = s.MaxLen
	}
	return Of(u.mk("len$"+strconv.Itoa(s.ID), SymLen, s.MinLen, hi, "len("+s.Name+")"))
}

func (u *Universe) StrLen(s StrV) Lin {
	l := Num(0)
	for _, p := range s.P {
		if p.Sym != nil {
			l = l.Add(u.strSymLen(p.Sym))
		} else {
			l = l.AddC(int64(len(p.Lit)))
		}
	}
	return l
}

// strEq builds the condition a == b.
func (u *Universe) strEq(f *Facts, a, b StrV) Cond {
	a, b = f.resolveStr(a), f.resolveStr(b)
	if a.Key() == b.Key() {
		return Cond{Op: CTrue}
	}
	la, oka := f.ConstStr(a)
	lb, okb := f.ConstStr(b)
	if oka && okb {
		return constCond(la == lb)
	}
	// strip common literal prefixes/suffixes
	for len(a.P) > 0 && len(b.P) > 0 {
		x, y := a.P[0], b.P[0]
		if x.Sym != nil && x.Sym == y.Sym {
			a, b = StrV{a.P[1:]}, StrV{b.P[1:]}
			continue
		}
		if x.Sym == nil && y.Sym == nil {
			n := len(x.Lit)
			if len(y.Lit) < n {
				n = len(y.Lit)
			}
			if x.Lit[:n] != y.Lit[:n] {
				return Cond{Op: CFalse}
			}
			a, b = dropLit(a, n), dropLit(b, n)
			continue
		}
		break
	}
	for len(a.P) > 0 && len(b.P) > 0 {
		x, y := a.P[len(a.P)-1], b.P[len(b.P)-1]
		if x.Sym != nil && x.Sym == y.Sym {
			a, b = StrV{a.P[:len(a.P)-1]}, StrV{b.P[:len(b.P)-1]}
			continue
		}
		if x.Sym == nil && y.Sym == nil {
			n := len(x.Lit)
			if len(y.Lit) < n {
				n = len(y.Lit)
			}
			if x.Lit[len(x.Lit)-n:] != y.Lit[len(y.Lit)-n:] {
				return Cond{Op: CFalse}
			}
			a, b = dropLitEnd(a, n), dropLitEnd(b, n)
			continue
		}
		break
	}
	if len(a.P) == 0 && len(b.P) == 0 {
		return Cond{Op: CTrue}
	}
	if f.ProveNe(u.StrLen(a).Sub(u.StrLen(b))) {
		return Cond{Op: CFalse}
	}
	if len(a.P) == 1 && a.P[0].Sym != nil {
		if l, ok := f.ConstStr(b); ok {
			return Cond{Op: CSEq, S: a.P[0].Sym, SLit: l}
		}
	}
	if len(b.P) == 1 && b.P[0].Sym != nil {
		if l, ok := f.ConstStr(a); ok {
			return Cond{Op: CSEq, S: b.P[0].Sym, SLit: l}
		}
	}
	ka, kb := a.Key(), b.Key()
	if ka > kb {
		ka, kb = kb, ka
		a, b = b, a
	}
	return Cond{Op: CB, B: u.bsym("streq:"+ka+"=="+kb, a.String()+"=="+b.String())}
}

func dropLit(s StrV, n int) StrV {
	p := append([]Piece{}, s.P...)
	p[0].Lit = p[0].Lit[n:]
	if p[0].Lit == "" {
		p = p[1:]
	}
	return StrV{p}
}

func dropLitEnd(s StrV, n int) StrV {
	p := append([]Piece{}, s.P...)
	l := &p[len(p)-1]
	l.Lit = l.Lit[:len(l.Lit)-n]
	if l.Lit == "" {
		p = p[:len(p)-1]
	}
	return StrV{p}
}

func (u *Universe) bsym(key, name string) *BSym {
	if b, ok := u.bsyms[key]; ok {
		return b
	}
	u.next++
	b := &BSym{ID: u.next, Name: name}
	u.bsyms[key] = b
	return b
}

func (u *Universe) freshB(name string) *BSym {
	u.next++
	return &BSym{ID: u.next, Name: fmt.Sprintf("%s#%d", name, u.next)}
}

// ---- keys and equality

func pathKey(p []PE) string {
	var b strings.Builder
	for _, e := range p {
		if e.Field >= 0 {
			fmt.Fprintf(&b, ".%d", e.Field)
		} else {
			b.WriteString("[" + e.Idx.Key() + "]")
		}
	}
	return b.String()
}

func pathEq(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Field != b[i].Field || (a[i].Field < 0 && !a[i].Idx.Eq(b[i].Idx)) {
			return false
		}
	}
	return true
}

// valKey is a structural key of a value.
func valKey(v Value) string {
	switch v := v.(type) {
	case nil:
		return "-"
	case IntV:
		return "i" + v.L.Key()
	case BoolV:
		return "b" + condKey(v.C)
	case StrV:
		return "s" + v.Key()
	case PtrV:
		return fmt.Sprintf("p%d%s|%d|%d", v.Obj, pathKey(v.Path), v.Nil, v.Vid)
	case SliceV:
		return fmt.Sprintf("l%d%s|%s|%s|%s|%d|%d", v.Obj, pathKey(v.Path), v.Off.Key(), v.Len.Key(), v.Cap.Key(), v.Nil, v.Vid)
	case IfaceV:
		d := "?"
		if v.Dyn != nil {
			d = v.Dyn.String()
		}
		return fmt.Sprintf("f%s{%s}%d|%d", d, valKey(v.Val), v.Nil, v.Vid)
	case FuncV:
		s := fmt.Sprintf("F%p", v.Fn)
		for _, b := range v.Bind {
			s += "," + valKey(b)
		}
		return s
	case MapV:
		return fmt.Sprintf("m%d|%d", v.Obj, v.Nil)
	case StructV:
		var b strings.Builder
		b.WriteString("{")
		for _, x := range v.F {
			b.WriteString(valKey(x))
			b.WriteString(";")
		}
		b.WriteString("}")
		return b.String()
	case ArrV:
		return fmt.Sprintf("a%d", v.C.ID)
	case TupleV:
		var b strings.Builder
		for _, x := range v {
			b.WriteString(valKey(x))
			b.WriteString(",")
		}
		return b.String()
	case ChoiceV:
		var k []string
		for _, x := range v.Alts {
			k = append(k, valKey(x))
		}
		sort.Strings(k)
		return "C(" + strings.Join(k, "|") + ")"
	case AnyV:
		return fmt.Sprintf("A%d,%d", v.Iv.Lo, v.Iv.Hi)
	case AnyPtrV:
		return fmt.Sprintf("AP%s,%d", v.T, v.Nil)
	case AnySliceV:
		return fmt.Sprintf("AS%d,%d,%d", v.Len.Lo, v.Len.Hi, v.Obj)
	case LazyV:
		return "L" + v.Name + v.T.String()
	case TopV:
		return "T"
	case *MapC:
		return fmt.Sprintf("M%d", v.ID)
	case RangeV:
		return fmt.Sprintf("R%d,%d", v.Rid, v.I)
	}
	return fmt.Sprintf("?%T", v)
}

// intBounds returns the value range of an integer type.
func intBounds(t types.Type) (lo, hi int64, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Int8:
		return -128, 127, true
	case types.Uint16:
		return 0, 65535, true
	case types.Int16:
		return -32768, 32767, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 0, Inf, true
	}
	return -Inf, Inf, true
}

// finite bounds used for unknown inputs of machine-int type
const bigInt = int64(1) << 56

func inputBounds(t types.Type) (lo, hi int64, ok bool) {
	lo, hi, ok = intBounds(t)
	if lo <= -Inf {
		lo = -bigInt
	}
	if hi >= Inf {
		hi = bigInt
	}
	return
}

func isByteish(t types.Type) bool {
	_, _, ok := intBounds(t)
	return ok
}
