package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
)

// ContKind is the kind of a content node.
type ContKind int8

const (
	KZero  ContKind = iota // all elements zero
	KInput                 // unknown but fixed elements
	KConst                 // literal bytes
	KSum                   // every element abstracted by Sum
	KJoin                  // either A or B
	KWrite                 // Prev with [Off,Off+Len) replaced
)

// Content is an immutable abstract array content.
type Content struct {
	ID   int
	Kind ContKind
	N    Lin
	Elem types.Type

	Name string // KInput
	Str  *StrV  // KInput: the string whose bytes these are
	Data string // KConst
	Sum  Value  // KSum
	A, B *Content
	// KJoin: conditions under which it is A, and B
	Guards []Cond

	Prev     *Content // KWrite
	Off, Len Lin
	Val      Value    // single element value (Len == 1), or
	Src      *Content // region copied from Src at SrcOff, or
	SrcOff   Lin
	Havoc    bool // region of unknown elements (a fresh input region)

	flat     []Seg
	flatDone bool
	flatOK   bool
}

// Seg is a flattened run [Lo,Hi) of elements.
type Seg struct {
	Lo, Hi int64
	Zero   bool
	Val    Value    // one element
	Src    *Content // base content
	SrcOff Lin      // element i is Src[SrcOff + i-Lo]
}

func (e *Engine) newContent(k ContKind, n Lin, elem types.Type) *Content {
	e.U.conID++
	return &Content{ID: e.U.conID, Kind: k, N: n, Elem: elem}
}

// InputContent is a named unknown content (hash-consed by name).
func (e *Engine) InputContent(name string, n Lin, elem types.Type) *Content {
	key := "in:" + name + ":" + n.Key()
	if c, ok := e.U.Conts[key]; ok {
		return c
	}
	c := e.newContent(KInput, n, elem)
	c.Name = name
	e.U.Conts[key] = c
	return c
}

func (e *Engine) freshInput(name string, n Lin, elem types.Type) *Content {
	c := e.newContent(KInput, n, elem)
	c.Name = fmt.Sprintf("%s#%d", name, c.ID)
	return c
}

func (e *Engine) zeroContent(n Lin, elem types.Type) *Content {
	return e.newContent(KZero, n, elem)
}

// ZeroContent is n zero elements.
func (e *Engine) ZeroContent(n Lin, elem types.Type) *Content { return e.zeroContent(n, elem) }

func (e *Engine) constContent(s string, elem types.Type) *Content {
	c := e.newContent(KConst, Num(int64(len(s))), elem)
	c.Data = s
	return c
}

func canon(f *Facts, l Lin) Lin {
	if l.IsConst() {
		return l
	}
	if c, ok := f.Const(l); ok {
		return Num(c)
	}
	// replace symbols pinned to a constant
	for _, t := range l.T {
		if r := f.symRange(t.S); r.Lo == r.Hi {
			l = l.subst(t.S, Num(r.Lo))
		}
	}
	return l
}

func (e *Engine) writeElem(f *Facts, c *Content, idx Lin, v Value) *Content {
	w := e.newContent(KWrite, c.N, c.Elem)
	w.Prev, w.Off, w.Len, w.Val = c, canon(f, idx), Num(1), v
	// overwrite of the same element
	if c.Kind == KWrite && c.Val != nil && c.Off.Eq(w.Off) {
		w.Prev = c.Prev
	}
	return e.mergeWrite(w)
}

// run gives the source of a write as a run of a content's elements.
func (e *Engine) run(w *Content) (*Content, Lin, bool) {
	if w.Kind != KWrite || w.Havoc {
		return nil, Lin{}, false
	}
	if w.Src != nil {
		if w.Src.Kind == KZero {
			return e.zeroRun(w.Elem), w.Off, true
		}
		return w.Src, w.SrcOff, true
	}
	iv, ok := w.Val.(IntV)
	if !ok {
		return nil, Lin{}, false
	}
	if iv.L.IsConst() && iv.L.C == 0 {
		return e.zeroRun(w.Elem), w.Off, true
	}
	if iv.L.IsConst() && isByteish(w.Elem) {
		return e.constRun(w.Elem, iv.L.C), w.Off, true
	}
	if iv.L.C == 0 && len(iv.L.T) == 1 && iv.L.T[0].K == 1 {
		if sy := iv.L.T[0].S; sy.Kind == SymSel && sy.Base != nil && types.Identical(sy.Base.Elem, w.Elem) {
			return sy.Base, sy.A, true
		}
	}
	return nil, Lin{}, false
}

// zeroRun is an endless content of zeros.
func (e *Engine) zeroRun(t types.Type) *Content {
	key := "zeros:" + t.String()
	c, ok := e.U.Conts[key]
	if !ok {
		c = e.zeroContent(Num(Inf), t)
		e.U.Conts[key] = c
	}
	return c
}

// constRun is an endless content of one value.
func (e *Engine) constRun(t types.Type, v int64) *Content {
	key := "run:" + t.String() + strconv.FormatInt(v, 10)
	c, ok := e.U.Conts[key]
	if !ok {
		c = e.newContent(KSum, Num(Inf), t)
		c.Sum = IntV{L: Num(v)}
		e.U.Conts[key] = c
	}
	return c
}

// mergeWrite joins a write at a place not known with the one before it that continues the same run.
func (e *Engine) mergeWrite(w *Content) *Content {
	p := w.Prev
	if p.Kind != KWrite || w.Off.IsConst() && p.Off.IsConst() {
		return w // flattening merges these
	}
	ws, wo, ok := e.run(w)
	if !ok {
		return w
	}
	ps, po, ok := e.run(p)
	if !ok || ps != ws {
		return w
	}
	m := e.newContent(KWrite, w.N, w.Elem)
	m.Prev, m.Len, m.Src = p.Prev, p.Len.Add(w.Len), ps
	switch {
	case p.Off.Add(p.Len).Eq(w.Off) && po.Add(p.Len).Eq(wo):
		m.Off, m.SrcOff = p.Off, po
	case w.Off.Add(w.Len).Eq(p.Off) && wo.Add(w.Len).Eq(po):
		m.Off, m.SrcOff = w.Off, wo
	default:
		return w
	}
	return m
}

func (e *Engine) writeCopy(f *Facts, c *Content, off, n Lin, src *Content, srcOff Lin) *Content {
	w := e.newContent(KWrite, c.N, c.Elem)
	w.Prev, w.Off, w.Len, w.Src, w.SrcOff = c, canon(f, off), canon(f, n), src, canon(f, srcOff)
	if w.Len.IsConst() && w.Len.C == 0 {
		return c
	}
	return e.mergeWrite(w)
}

// base finds the innermost base of a chain of writes.
func (c *Content) base() *Content {
	for c.Kind == KWrite {
		c = c.Prev
	}
	return c
}

// flatten resolves a content whose writes all have constant extents.
func (e *Engine) flatten(c *Content) ([]Seg, bool) {
	if c.flatDone {
		return c.flat, c.flatOK
	}
	// find the nearest flattened ancestor
	var chain []*Content
	p := c
	for p.Kind == KWrite && !p.flatDone {
		if !p.Off.IsConst() || !p.Len.IsConst() || p.Havoc {
			c.flatDone = true
			return nil, false
		}
		chain = append(chain, p)
		p = p.Prev
	}
	var segs []Seg
	if p.flatDone {
		if !p.flatOK {
			c.flatDone = true
			return nil, false
		}
		segs = append([]Seg{}, p.flat...)
	} else {
		switch p.Kind {
		case KZero:
			segs = []Seg{{Lo: 0, Hi: Inf, Zero: true}}
		case KInput, KConst:
			segs = []Seg{{Lo: 0, Hi: Inf, Src: p, SrcOff: Num(0)}}
		default:
			c.flatDone = true
			return nil, false
		}
	}
	for i := len(chain) - 1; i >= 0; i-- {
		w := chain[i]
		lo, hi := w.Off.C, w.Off.C+w.Len.C
		var ns []Seg
		if w.Src != nil {
			ns = e.resolveRegion(w.Src, w.SrcOff, lo, hi)
		} else {
			s := Seg{Lo: lo, Hi: hi, Val: w.Val}
			if iv, ok := w.Val.(IntV); ok {
				if iv.L.IsConst() && iv.L.C == 0 {
					s = Seg{Lo: lo, Hi: hi, Zero: true}
				} else if iv.L.C == 0 && len(iv.L.T) == 1 && iv.L.T[0].K == 1 {
					if sy := iv.L.T[0].S; sy.Kind == SymSel && sy.Base != nil && sy.A.IsConst() && sy.Base.Kind == KInput && types.Identical(sy.Base.Elem, c.Elem) {
						s = Seg{Lo: lo, Hi: hi, Src: sy.Base, SrcOff: sy.A}
					}
				}
			}
			ns = []Seg{s}
		}
		segs = splice(segs, lo, hi, ns)
	}
	c.flat, c.flatDone, c.flatOK = segs, true, true
	return segs, true
}

func (e *Engine) resolveRegion(src *Content, off Lin, lo, hi int64) []Seg {
	if off.IsConst() {
		if fs, ok := e.flatten(src); ok {
			var out []Seg
			a, b := off.C, off.C+(hi-lo)
			i := sort.Search(len(fs), func(i int) bool { return fs[i].Hi > a })
			for ; i < len(fs) && fs[i].Lo < b; i++ {
				s := fs[i]
				x, y := s.Lo, s.Hi
				if x < a {
					x = a
				}
				if y > b {
					y = b
				}
				n := s
				if s.Src != nil {
					n.SrcOff = s.SrcOff.AddC(x - s.Lo)
				}
				n.Lo, n.Hi = x-a+lo, y-a+lo
				out = append(out, n)
			}
			return out
		}
	}
	return []Seg{{Lo: lo, Hi: hi, Src: src, SrcOff: off}}
}

func splice(segs []Seg, lo, hi int64, ns []Seg) []Seg {
	if lo >= hi {
		return segs
	}
	i := sort.Search(len(segs), func(i int) bool { return segs[i].Hi > lo })
	j := sort.Search(len(segs), func(i int) bool { return segs[i].Lo >= hi })
	mid := make([]Seg, 0, len(ns)+2)
	if i < len(segs) && segs[i].Lo < lo {
		s := segs[i]
		s.Hi = lo
		mid = append(mid, s)
	}
	mid = append(mid, ns...)
	if j > 0 && segs[j-1].Hi > hi {
		s := segs[j-1]
		if s.Src != nil {
			s.SrcOff = s.SrcOff.AddC(hi - s.Lo)
		}
		s.Lo = hi
		mid = append(mid, s)
	}
	// merge adjacent
	out := make([]Seg, 0, len(segs)-(j-i)+len(mid))
	out = append(out, segs[:i]...)
	push := func(s Seg) {
		if n := len(out); n > 0 {
			l := &out[n-1]
			if l.Hi == s.Lo {
				if l.Zero && s.Zero {
					l.Hi = s.Hi
					return
				}
				if l.Src != nil && l.Src == s.Src && l.SrcOff.AddC(l.Hi-l.Lo).Eq(s.SrcOff) {
					l.Hi = s.Hi
					return
				}
			}
		}
		out = append(out, s)
	}
	for _, s := range mid {
		push(s)
	}
	if j < len(segs) {
		push(segs[j])
		out = append(out, segs[j+1:]...)
	}
	return out
}

// Segs returns the flattened content cut to [lo,hi).
func (e *Engine) Segs(c *Content, off Lin, n int64) []Seg {
	return e.resolveRegion(c, off, 0, n)
}

// Read reads element idx of c.
func (e *Engine) Read(f *Facts, c *Content, idx Lin) Value {
	v := e.read(f, c, canon(f, idx), nil)
	// an element that could not be resolved when it was copied may be resolved by now
	for n := 0; n < 8; n++ {
		iv, ok := v.(IntV)
		if !ok || iv.L.C != 0 || len(iv.L.T) != 1 || iv.L.T[0].K != 1 {
			break
		}
		sy := iv.L.T[0].S
		if sy.Kind != SymSel || sy.Base == nil || sy.Base == c || sy.Base.Kind != KWrite && sy.Base.Guards == nil {
			break
		}
		r := e.read(f, sy.Base, canon(f, sy.A), nil)
		rv, ok := r.(IntV)
		if !ok || rv.L.Eq(iv.L) {
			break
		}
		v = r
	}
	return v
}

func (e *Engine) read(f *Facts, c *Content, idx Lin, memo map[string]Value) Value {
	if idx.IsConst() && c.Kind == KWrite {
		if fs, ok := e.flatten(c); ok {
			i := sort.Search(len(fs), func(i int) bool { return fs[i].Hi > idx.C })
			if i < len(fs) && fs[i].Lo <= idx.C {
				s := fs[i]
				switch {
				case s.Zero:
					return e.ZeroValue(c.Elem)
				case s.Val != nil:
					return s.Val
				default:
					return e.read(f, s.Src, canon(f, s.SrcOff.AddC(idx.C-s.Lo)), memo)
				}
			}
		}
	}
	for {
		switch c.Kind {
		case KZero:
			return e.ZeroValue(c.Elem)
		case KInput:
			return e.selValue(f, c, idx, c.Elem, "")
		case KConst:
			if idx.IsConst() && idx.C >= 0 && idx.C < int64(len(c.Data)) {
				return IntV{Num(int64(c.Data[idx.C]))}
			}
			// a table whose entries, as far as the index goes, follow one another in equal steps
			if iv := f.Range(idx); iv.Lo >= 0 && iv.Hi < int64(len(c.Data)) && isByteish(c.Elem) {
				k := int64(0)
				if iv.Hi > iv.Lo {
					k = int64(c.Data[iv.Lo+1]) - int64(c.Data[iv.Lo])
				}
				even := true
				for i := iv.Lo; i < iv.Hi && even; i++ {
					even = int64(c.Data[i+1])-int64(c.Data[i]) == k
				}
				if even {
					return IntV{Num(int64(c.Data[iv.Lo])-k*iv.Lo).addMul(k, idx)}
				}
			}
			return e.selValue(f, c, idx, c.Elem, "")
		case KSum:
			return e.instantiate(f, c.Sum, c.Elem)
		case KJoin:
			if memo == nil {
				memo = map[string]Value{}
			}
			mk := strconv.Itoa(c.ID) + "@" + idx.Key()
			if v, ok := memo[mk]; ok {
				return v
			}
			a := e.read(f, c.A, idx, memo)
			b := e.read(f, c.B, idx, memo)
			var r Value
			if valKey(a) == valKey(b) {
				r = a
			} else if c.Guards != nil && f.Eval(c.Guards[0]) == True {
				r = a
			} else if c.Guards != nil && f.Eval(c.Guards[1]) == True {
				r = b
			} else if _, isInt := a.(IntV); !isInt {
				r = e.instantiate(f, e.joinGen(e.generalize(f, a, c.Elem), e.generalize(f, b, c.Elem), c.Elem), c.Elem)
			} else {
				r = e.selValue(f, c, idx, c.Elem, "")
				ia, oka := a.(IntV)
				ib, okb := b.(IntV)
				if rv, ok := r.(IntV); ok && oka && okb && len(rv.L.T) == 1 {
					x, y := f.Range(ia.L), f.Range(ib.L)
					if y.Lo < x.Lo {
						x.Lo = y.Lo
					}
					if y.Hi > x.Hi {
						x.Hi = y.Hi
					}
					f.AssumeGE(rv.L.AddC(-x.Lo))
					if x.Hi < Inf {
						f.AssumeGE(Num(x.Hi).Sub(rv.L))
					}
				}
			}
			memo[mk] = r
			return r
		case KWrite:
			d := idx.Sub(c.Off)
			in, out := False, False
			if d.IsConst() && c.Len.IsConst() {
				if d.C >= 0 && d.C < c.Len.C {
					in = True
				} else {
					out = True
				}
			} else if f.Prove(d.Neg().AddC(-1)) || f.Prove(d.Sub(c.Len)) {
				out = True
			} else if f.Prove(d) && f.Prove(c.Len.Sub(d).AddC(-1)) {
				in = True
			} else if c.Len.IsConst() && c.Len.C == 1 && f.ProveNe(d) {
				out = True
			}
			switch {
			case in == True && c.Havoc:
				return e.selValue(f, c, idx, c.Elem, "")
			case in == True && c.Src != nil:
				return e.read(f, c.Src, canon(f, c.SrcOff.Add(d)), memo)
			case in == True:
				return c.Val
			case out == True:
				c = c.Prev
				continue
			}
			if v, ok := e.maybeFlag(f, c, idx, memo); ok {
				return v
			}
			return e.selValue(f, c, idx, c.Elem, "")
		}
		panic("content kind")
	}
}

// selValue is the hash-consed unknown element idx of c.
// maybeFlag reads a flag that the last write sets if it is at the same place.
func (e *Engine) maybeFlag(f *Facts, c *Content, idx Lin, memo map[string]Value) (Value, bool) {
	set, ok := c.Val.(BoolV)
	if !ok || !c.Len.IsConst() || c.Len.C != 1 {
		return nil, false
	}
	n := 0
	for p := c; p.Kind == KWrite; p = p.Prev {
		if n++; n > 64 {
			return nil, false
		}
	}
	old, ok := e.read(f, c.Prev, idx, memo).(BoolV)
	if !ok {
		return nil, false
	}
	same := Cond{Op: CEQ, L: idx.Sub(c.Off)}
	and := func(a, b Cond) Cond {
		switch {
		case a.Op == CTrue:
			return b
		case b.Op == CTrue:
			return a
		case a.Op == CFalse || b.Op == CFalse:
			return Cond{Op: CFalse}
		}
		return Cond{Op: CAnd, Sub: []Cond{a, b}}
	}
	hit, miss := and(same, set.C), and(same.Not(), old.C)
	if set.C.Op == CTrue {
		miss = old.C
	}
	switch {
	case hit.Op == CFalse:
		return BoolV{miss}, true
	case miss.Op == CFalse:
		return BoolV{hit}, true
	}
	return BoolV{Cond{Op: COr, Sub: []Cond{hit, miss}}}, true
}

func (e *Engine) selValue(f *Facts, c *Content, idx Lin, t types.Type, path string) Value {
	key := "sel:" + strconv.Itoa(c.ID) + "[" + idx.Key() + "]" + path
	nm := c.Name
	if nm == "" {
		nm = "c" + strconv.Itoa(c.ID)
	}
	name := nm + "[" + idx.String() + "]" + path
	return e.keyedUnknown(key, name, t, c, idx)
}

// keyedUnknown is the unknown value of type t identified by key.
func (e *Engine) keyedUnknown(key, name string, t types.Type, base *Content, idx Lin) Value {
	switch ut := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case ut.Info()&types.IsInteger != 0:
			lo, hi, _ := inputBounds(t)
			s := e.U.mk(key, SymSel, lo, hi, name)
			if base != nil {
				s.Base, s.A = base, idx
			}
			return IntV{Of(s)}
		case ut.Info()&types.IsBoolean != 0:
			return BoolV{Cond{Op: CB, B: e.U.bsym(key, name)}}
		case ut.Info()&types.IsString != 0:
			return StrV{P: []Piece{{Sym: e.U.strSym(key, name)}}}
		}
		return TopV{t}
	case *types.Struct:
		s := StructV{F: make([]Value, ut.NumFields())}
		for i := range s.F {
			fn := "." + ut.Field(i).Name()
			s.F[i] = e.keyedUnknown(key+fn, name+fn, ut.Field(i).Type(), nil, Lin{})
		}
		return s
	case *types.Array:
		ck := "sub:" + key
		if c, ok := e.U.Conts[ck]; ok {
			return ArrV{c}
		}
		c := e.newContent(KInput, Num(ut.Len()), ut.Elem())
		c.Name = name
		e.U.Conts[ck] = c
		return ArrV{c}
	case *types.Pointer:
		id := e.lazyObj(key+"*", ut.Elem(), name+"*")
		return PtrV{Obj: id, Nil: Unknown, Vid: e.keyVid(key)}
	case *types.Slice:
		id := e.lazyObj(key+"[]", nil, name)
		n := Of(e.U.mk(key+"#len", SymOther, 0, 1<<40, "len("+name+")"))
		if _, ok := e.lazyInit[id]; !ok {
			c := e.newContent(KInput, n, ut.Elem())
			c.Name = name
			e.lazyInit[id] = ArrV{c}
		}
		return SliceV{Obj: id, Off: Num(0), Len: n, Cap: n, Nil: Unknown, Vid: e.keyVid(key)}
	case *types.Map:
		id := e.lazyObj(key+"{}", nil, name)
		if _, ok := e.lazyInit[id]; !ok {
			e.lazyInit[id] = e.newMap(MUnknown, ut)
		}
		return MapV{Obj: id, Nil: Unknown}
	case *types.Interface:
		return IfaceV{Nil: Unknown, Vid: e.keyVid(key)}
	case *types.Signature:
		return FuncV{Nil: Unknown}
	}
	return TopV{t}
}

func (e *Engine) keyVid(key string) int {
	k := "vid:" + key
	if v, ok := e.U.lazy[k]; ok {
		return v
	}
	v := e.U.Vid()
	e.U.lazy[k] = v
	return v
}

// lazyObj is the object identified by key, materialised on first access.
func (e *Engine) lazyObj(key string, t types.Type, name string) int {
	if id, ok := e.U.lazy[key]; ok {
		return id
	}
	e.nextObj++
	id := e.nextObj
	e.U.lazy[key] = id
	if t != nil {
		e.objType[id] = t
		e.lazyKey[id] = key + "^"
	}
	e.objName[id] = name
	return id
}

// Unknown makes a fresh unknown value of type t.
func (e *Engine) Unknown(t types.Type, name string) Value {
	e.U.next++
	key := "u:" + strconv.Itoa(e.U.next)
	if tp, ok := t.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tp.Len(); i++ {
			r = append(r, e.Unknown(tp.At(i).Type(), name))
		}
		return r
	}
	return e.keyedUnknown(key, fmt.Sprintf("%s#%d", name, e.U.next), t, nil, Lin{})
}

// Named makes a named unknown input value of type t (hash-consed by name).
func (e *Engine) Named(t types.Type, name string) Value {
	return e.keyedUnknown("in:"+name, name, t, nil, Lin{})
}

// ZeroValue is the zero value of a type.
func (e *Engine) ZeroValue(t types.Type) Value {
	switch ut := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case ut.Info()&types.IsInteger != 0:
			return IntV{Num(0)}
		case ut.Info()&types.IsBoolean != 0:
			return BoolV{Cond{Op: CFalse}}
		case ut.Info()&types.IsString != 0:
			return StrV{}
		case ut.Kind() == types.UntypedNil || ut.Kind() == types.UnsafePointer:
			return PtrV{Obj: -1, Nil: True}
		}
		return TopV{t}
	case *types.Struct:
		s := StructV{F: make([]Value, ut.NumFields())}
		for i := range s.F {
			s.F[i] = e.ZeroValue(ut.Field(i).Type())
		}
		return s
	case *types.Array:
		return ArrV{e.zeroContent(Num(ut.Len()), ut.Elem())}
	case *types.Pointer:
		return PtrV{Obj: -1, Nil: True}
	case *types.Slice:
		return SliceV{Obj: -1, Nil: True}
	case *types.Map:
		return MapV{Obj: -1, Nil: True}
	case *types.Interface:
		return IfaceV{Nil: True}
	case *types.Signature:
		return FuncV{Nil: True}
	case *types.Tuple:
		var r TupleV
		for i := 0; i < ut.Len(); i++ {
			r = append(r, e.ZeroValue(ut.At(i).Type()))
		}
		return r
	}
	return TopV{t}
}

// generalize turns a value into a summary abstraction (no symbol identity).
func (e *Engine) generalize(f *Facts, v Value, t types.Type) Value {
	switch v := v.(type) {
	case IntV:
		iv := f.TightRange(v.L)
		if lo, hi, ok := intBounds(t); ok {
			if iv.Lo < lo {
				iv.Lo = lo
			}
			if iv.Hi > hi {
				iv.Hi = hi
			}
		}
		return AnyV{iv}
	case AnyV:
		return v
	case BoolV:
		switch f.Eval(v.C) {
		case True:
			return BoolV{Cond{Op: CTrue}}
		case False:
			return BoolV{Cond{Op: CFalse}}
		}
		return LazyV{T: t, Name: "any"}
	case StrV:
		if s, ok := f.ConstStr(v); ok {
			return Lit(s)
		}
		return LazyV{T: t, Name: "any"}
	case StructV:
		st := t.Underlying().(*types.Struct)
		r := StructV{F: make([]Value, len(v.F))}
		for i := range v.F {
			r.F[i] = e.generalize(f, v.F[i], st.Field(i).Type())
		}
		return r
	case ArrV:
		if v.C.Kind == KSum {
			return v
		}
		return ArrV{e.sumContent(f, v.C)}
	case PtrV:
		r := v
		if len(r.Path) == 0 {
			if r.Nil == Unknown {
				r.Nil = f.nilOf(v.Nil, v.Vid)
			}
			r.Vid = 0
			return r
		}
		return LazyV{T: t, Name: "any"}
	case MapV:
		return v
	case IfaceV:
		if v.Nil == True {
			return IfaceV{Nil: True}
		}
		return LazyV{T: t, Name: "any"}
	case SliceV:
		if v.Nil == True {
			return v
		}
		if v.Len.IsConst() && v.Off.IsConst() && v.Cap.IsConst() {
			return v
		}
		return LazyV{T: t, Name: "any"}
	case FuncV, ChoiceV:
		return v
	}
	return LazyV{T: t, Name: "any"}
}

func (e *Engine) sumContent(f *Facts, c *Content) *Content {
	r := e.newContent(KSum, c.N, c.Elem)
	if !r.N.IsConst() {
		r.N = Num(0)
	}
	r.Sum = e.anyOf(c.Elem)
	if !isByteish(c.Elem) {
		// join of all written elements and the base
		var acc Value
		ok := true
		add := func(v Value) {
			g := e.generalize(f, v, c.Elem)
			if acc == nil {
				acc = g
			} else {
				acc = e.joinGen(acc, g, c.Elem)
			}
		}
		seen := map[int]bool{}
		var walk func(p *Content)
		walk = func(p *Content) {
			for {
				if seen[p.ID] {
					return
				}
				seen[p.ID] = true
				switch p.Kind {
				case KZero:
					if n, isC := f.Const(p.N); !isC || n > 0 {
						add(e.ZeroValue(p.Elem))
					}
					return
				case KSum:
					add(p.Sum)
					return
				case KJoin:
					walk(p.A)
					walk(p.B)
					return
				case KWrite:
					if p.Havoc {
						ok = false
						return
					}
					if p.Src != nil {
						walk(p.Src)
					} else {
						add(p.Val)
					}
					p = p.Prev
					continue
				default:
					ok = false
					return
				}
			}
		}
		walk(c)
		if ok && acc != nil {
			r.Sum = acc
		}
	}
	return r
}

func (e *Engine) anyOf(t types.Type) Value {
	if lo, hi, ok := inputBounds(t); ok {
		return AnyV{Interval{lo, hi}}
	}
	return LazyV{T: t, Name: "any"}
}

// joinGen joins two generalized values.
func (e *Engine) joinGen(a, b Value, t types.Type) Value {
	if valKey(a) == valKey(b) {
		return a
	}
	switch x := a.(type) {
	case AnyPtrV:
		if y, ok := b.(AnyPtrV); ok {
			x.Nil = Unknown
			_ = y
			return x
		}
		if y, ok := b.(PtrV); ok {
			if y.Nil != x.Nil {
				x.Nil = Unknown
			}
			return x
		}
	case AnySliceV:
		if y, ok := b.(AnySliceV); ok {
			if y.Len.Lo < x.Len.Lo {
				x.Len.Lo = y.Len.Lo
			}
			if y.Len.Hi > x.Len.Hi {
				x.Len.Hi = y.Len.Hi
			}
			if y.Obj != x.Obj {
				if x.Obj == -1 || y.Obj == -1 {
					x.Obj = -1
				} else {
					return LazyV{T: t, Name: "any"}
				}
			}
			return x
		}
	case AnyV:
		if y, ok := b.(AnyV); ok {
			if y.Iv.Lo < x.Iv.Lo {
				x.Iv.Lo = y.Iv.Lo
			}
			if y.Iv.Hi > x.Iv.Hi {
				x.Iv.Hi = y.Iv.Hi
			}
			return x
		}
	case StructV:
		if y, ok := b.(StructV); ok {
			st := t.Underlying().(*types.Struct)
			r := StructV{F: make([]Value, len(x.F))}
			for i := range x.F {
				r.F[i] = e.joinGen(x.F[i], y.F[i], st.Field(i).Type())
			}
			return r
		}
	case ArrV:
		if y, ok := b.(ArrV); ok && x.C.Kind == KSum && y.C.Kind == KSum {
			r := e.newContent(KSum, x.C.N, x.C.Elem)
			r.Sum = e.joinGen(x.C.Sum, y.C.Sum, x.C.Elem)
			return ArrV{r}
		}
	case PtrV:
		if _, ok := b.(AnyPtrV); ok {
			return e.joinGen(b, a, t)
		}
		if y, ok := b.(PtrV); ok {
			if x.Obj == y.Obj && pathEq(x.Path, y.Path) {
				x.Nil = Unknown
				x.Vid = 0
				return x
			}
			if x.Nil == True && x.Obj < 0 {
				y.Nil = Unknown
				y.Vid = 0
				return y
			}
			if y.Nil == True && y.Obj < 0 {
				x.Nil = Unknown
				x.Vid = 0
				return x
			}
			return ChoiceV{Alts: []Value{x, y}}
		}
	}
	return LazyV{T: t, Name: "any"}
}

// instantiate turns a summary abstraction into a fresh value.
func (e *Engine) instantiate(f *Facts, v Value, t types.Type) Value {
	switch v := v.(type) {
	case AnyV:
		if v.Iv.Lo == v.Iv.Hi {
			return IntV{Num(v.Iv.Lo)}
		}
		return IntV{Of(e.U.Fresh("any", v.Iv.Lo, v.Iv.Hi))}
	case LazyV:
		return e.Unknown(v.T, v.Name)
	case AnyPtrV:
		r := e.Unknown(v.T, "any")
		if p, ok := r.(PtrV); ok && v.Nil != Unknown {
			p.Nil, p.Vid = v.Nil, 0
			return p
		}
		return r
	case AnySliceV:
		if v.Obj == -1 && v.Len.Hi == 0 {
			return SliceV{Obj: -1, Nil: True}
		}
		r, ok := e.Unknown(v.T, "any").(SliceV)
		if !ok {
			return e.Unknown(v.T, "any")
		}
		f.AssumeGE(r.Len.AddC(-v.Len.Lo))
		if v.Len.Hi < Inf {
			f.AssumeGE(Num(v.Len.Hi).Sub(r.Len))
		}
		if v.Len.Lo == v.Len.Hi {
			r.Len = Num(v.Len.Lo)
		}
		if v.Obj >= 0 {
			r.Obj = v.Obj
			r.Off = Of(e.U.Fresh("off", 0, 1<<40))
		}
		return r
	case StructV:
		st := t.Underlying().(*types.Struct)
		r := StructV{F: make([]Value, len(v.F))}
		for i := range v.F {
			r.F[i] = e.instantiate(f, v.F[i], st.Field(i).Type())
		}
		return r
	case ArrV:
		if v.C.Kind == KSum {
			at, _ := t.Underlying().(*types.Array)
			if at != nil {
				if isByteish(at.Elem()) {
					return ArrV{e.freshInput("any", Num(at.Len()), at.Elem())}
				}
				c := *v.C
				c.N = Num(at.Len())
				return ArrV{&c}
			}
		}
		return v
	case PtrV:
		if v.Nil == Unknown {
			v.Vid = e.U.Vid()
		}
		return v
	case ChoiceV:
		r := ChoiceV{}
		for _, a := range v.Alts {
			r.Alts = append(r.Alts, e.instantiate(f, a, t))
		}
		return r
	}
	return v
}

func (f *Facts) nilOf(n Tri, vid int) Tri {
	if n != Unknown || vid == 0 {
		return n
	}
	if v, ok := f.nils.Get(vid); ok {
		return triOf(v)
	}
	return Unknown
}

// ---- maps

// MapBase says what a map contained before the logged updates.
type MapBase int8

const (
	MEmpty MapBase = iota
	MUnknown
	MSum
)

// MapEnt is a logged update.
type MapEnt struct {
	K, V Value
	Del  bool
}

// MapC is an immutable abstract map content.
type MapC struct {
	ID   int
	Base MapBase
	T    *types.Map
	KSum Value
	VSum Value
	Ents []MapEnt
	idx  map[string]int // constant keys -> entry
	allC bool
}

func (e *Engine) newMap(b MapBase, t *types.Map) *MapC {
	e.U.conID++
	return &MapC{ID: e.U.conID, Base: b, T: t, allC: true}
}

func constKey(f *Facts, v Value) (string, bool) {
	switch v := v.(type) {
	case IntV:
		if c, ok := f.Const(v.L); ok {
			return "i" + strconv.FormatInt(c, 10), true
		}
	case StrV:
		if s, ok := f.ConstStr(v); ok {
			return "s" + s, true
		}
	case BoolV:
		switch f.Eval(v.C) {
		case True:
			return "bt", true
		case False:
			return "bf", true
		}
	case StructV:
		k := "{"
		for _, x := range v.F {
			s, ok := constKey(f, x)
			if !ok {
				return "", false
			}
			k += s + ";"
		}
		return k + "}", true
	}
	return "", false
}

func (e *Engine) mapSet(f *Facts, m *MapC, k, v Value) *MapC {
	r := e.newMap(m.Base, m.T)
	r.KSum, r.VSum = m.KSum, m.VSum
	ck, isC := constKey(f, k)
	r.allC = m.allC && isC
	if r.allC {
		if m.idx == nil {
			m.idx = map[string]int{}
			for i, en := range m.Ents {
				s, _ := constKey(f, en.K)
				m.idx[s] = i
			}
		}
		if i, ok := m.idx[ck]; ok {
			r.Ents = append([]MapEnt{}, m.Ents...)
			r.Ents[i] = MapEnt{K: k, V: v}
			return r
		}
		r.Ents = append(m.Ents[:len(m.Ents):len(m.Ents)], MapEnt{K: k, V: v})
		return r
	}
	for _, en := range m.Ents {
		if e.valEq(f, en.K, k) == True {
			continue
		}
		r.Ents = append(r.Ents, en)
	}
	r.Ents = append(r.Ents, MapEnt{K: k, V: v})
	return r
}

func (e *Engine) mapDel(f *Facts, m *MapC, k Value) *MapC {
	r := e.newMap(m.Base, m.T)
	r.KSum, r.VSum = m.KSum, m.VSum
	exact := true
	for _, en := range m.Ents {
		switch e.valEq(f, en.K, k) {
		case True:
			continue
		case Unknown:
			exact = false
		}
		r.Ents = append(r.Ents, en)
	}
	if m.Base != MEmpty || !exact {
		r.Ents = append(r.Ents, MapEnt{K: k, Del: true})
	}
	r.allC = false
	return r
}

// mapGet looks k up: possible values when present, presence.
func (e *Engine) mapGet(f *Facts, m *MapC, k Value) (vals []Value, present Tri) {
	if m.allC && m.Base == MEmpty {
		if ck, ok := constKey(f, k); ok {
			if m.idx == nil {
				m.idx = map[string]int{}
				for i, en := range m.Ents {
					s, _ := constKey(f, en.K)
					m.idx[s] = i
				}
			}
			if i, ok := m.idx[ck]; ok {
				return []Value{m.Ents[i].V}, True
			}
			return nil, False
		}
	}
	for i := len(m.Ents) - 1; i >= 0; i-- {
		en := m.Ents[i]
		switch e.valEq(f, en.K, k) {
		case True:
			if en.Del {
				if len(vals) == 0 {
					return nil, False
				}
				return vals, Unknown
			}
			vals = append(vals, en.V)
			if len(vals) == 1 {
				return vals, True
			}
			return vals, Unknown
		case Unknown:
			if !en.Del {
				vals = append(vals, en.V)
			}
		}
	}
	switch m.Base {
	case MEmpty:
		if len(vals) == 0 {
			return nil, False
		}
		return vals, Unknown
	case MSum:
		if m.VSum == nil {
			if len(vals) == 0 {
				return nil, False
			}
			return vals, Unknown
		}
		return append(vals, e.instantiate(f, m.VSum, m.T.Elem())), Unknown
	default:
		key := fmt.Sprintf("mapval:%d:%s", m.ID, valKey(k))
		return append(vals, e.keyedUnknown(key, fmt.Sprintf("map%d[%s]", m.ID, valStr(k)), m.T.Elem(), nil, Lin{})), Unknown
	}
}

func valStr(v Value) string {
	switch v := v.(type) {
	case IntV:
		return v.L.String()
	case StrV:
		return v.String()
	case BoolV:
		return v.C.String()
	case StructV:
		s := "{"
		for i, x := range v.F {
			if i > 0 {
				s += ","
			}
			s += valStr(x)
		}
		return s + "}"
	case nil:
		return "<nil>"
	case IfaceV:
		if v.Nil == True {
			return "nil"
		}
		if v.Dyn != nil {
			return v.Dyn.String() + "(" + valStr(v.Val) + ")"
		}
		if v.Err != nil {
			return "err<" + v.Err.Kind + ">"
		}
		return "iface"
	case SliceV:
		return fmt.Sprintf("slice(o%d+%v,len=%v)", v.Obj, v.Off, v.Len)
	case PtrV:
		return fmt.Sprintf("&o%d%s", v.Obj, pathKey(v.Path))
	case ArrV:
		return fmt.Sprintf("arr(c%d %s)", v.C.ID, v.C.Name)
	}
	return fmt.Sprintf("%T", v)
}

// ValStr renders a value for reports.
func ValStr(v Value) string { return valStr(v) }

// valEq compares two values for equality.
func (e *Engine) valEq(f *Facts, a, b Value) Tri {
	return f.Eval(e.eqCond(f, a, b))
}

// eqCond builds the condition a == b.
func (e *Engine) eqCond(f *Facts, a, b Value) Cond {
	unknown := func() Cond { return Cond{Op: CB, B: e.U.freshB("eq")} }
	switch x := a.(type) {
	case IntV:
		if y, ok := b.(IntV); ok {
			d := x.L.Sub(y.L)
			if d.IsConst() {
				return constCond(d.C == 0)
			}
			return Cond{Op: CEQ, L: d}
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			switch f.Eval(x.C) {
			case True:
				return y.C
			case False:
				return y.C.Not()
			}
			switch f.Eval(y.C) {
			case True:
				return x.C
			case False:
				return x.C.Not()
			}
			if condKey(x.C) == condKey(y.C) {
				return Cond{Op: CTrue}
			}
			return Cond{Op: COr, Sub: []Cond{{Op: CAnd, Sub: []Cond{x.C, y.C}}, {Op: CAnd, Sub: []Cond{x.C.Not(), y.C.Not()}}}}
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			return e.U.strEq(f, x, y)
		}
	case StructV:
		if y, ok := b.(StructV); ok {
			r := Cond{Op: CAnd}
			for i := range x.F {
				c := e.eqCond(f, x.F[i], y.F[i])
				switch f.Eval(c) {
				case False:
					return Cond{Op: CFalse}
				case True:
					continue
				}
				r.Sub = append(r.Sub, c)
			}
			if len(r.Sub) == 0 {
				return Cond{Op: CTrue}
			}
			if len(r.Sub) == 1 {
				return r.Sub[0]
			}
			return r
		}
	case ArrV:
		if y, ok := b.(ArrV); ok {
			if x.C == y.C {
				return Cond{Op: CTrue}
			}
			if n, ok := f.Const(x.C.N); ok && n <= 64 {
				r := Cond{Op: CAnd}
				for i := int64(0); i < n; i++ {
					c := e.eqCond(f, e.Read(f, x.C, Num(i)), e.Read(f, y.C, Num(i)))
					switch f.Eval(c) {
					case False:
						return Cond{Op: CFalse}
					case True:
						continue
					}
					r.Sub = append(r.Sub, c)
				}
				if len(r.Sub) == 0 {
					return Cond{Op: CTrue}
				}
				return r
			}
		}
	case PtrV:
		if y, ok := b.(PtrV); ok {
			nx, ny := f.nilOf(x.Nil, x.Vid), f.nilOf(y.Nil, y.Vid)
			if nx == True && ny == True {
				return Cond{Op: CTrue}
			}
			if (nx == True && ny == False) || (nx == False && ny == True) {
				return Cond{Op: CFalse}
			}
			if ny == True && x.Vid != 0 {
				return Cond{Op: CNil, Vid: x.Vid}
			}
			if nx == True && y.Vid != 0 {
				return Cond{Op: CNil, Vid: y.Vid}
			}
			if nx == False && ny == False {
				if x.Obj != y.Obj && !e.isSummary(x.Obj) && !e.isSummary(y.Obj) && e.distinctObjs(x.Obj, y.Obj) {
					return Cond{Op: CFalse}
				}
				if x.Obj == y.Obj && !e.isSummary(x.Obj) && pathEq(x.Path, y.Path) {
					return Cond{Op: CTrue}
				}
			}
		}
	case SliceV:
		if y, ok := b.(SliceV); ok {
			if f.nilOf(y.Nil, y.Vid) == True {
				switch f.nilOf(x.Nil, x.Vid) {
				case True:
					return Cond{Op: CTrue}
				case False:
					return Cond{Op: CFalse}
				}
				if x.Vid != 0 {
					return Cond{Op: CNil, Vid: x.Vid}
				}
			} else if f.nilOf(x.Nil, x.Vid) == True {
				return e.eqCond(f, b, a)
			}
		}
	case MapV:
		if y, ok := b.(MapV); ok {
			if y.Nil == True && x.Nil != Unknown {
				return constCond(x.Nil == True)
			}
			if x.Nil == True && y.Nil != Unknown {
				return constCond(y.Nil == True)
			}
		}
	case FuncV:
		if y, ok := b.(FuncV); ok {
			if y.Nil == True && x.Nil != Unknown {
				return constCond(x.Nil == True)
			}
			if x.Nil == True && y.Nil != Unknown {
				return constCond(y.Nil == True)
			}
		}
	case IfaceV:
		if y, ok := b.(IfaceV); ok {
			nx, ny := f.nilOf(x.Nil, x.Vid), f.nilOf(y.Nil, y.Vid)
			if nx == True && ny == True {
				return Cond{Op: CTrue}
			}
			if (nx == True && ny == False) || (nx == False && ny == True) {
				return Cond{Op: CFalse}
			}
			if ny == True && x.Vid != 0 {
				return Cond{Op: CNil, Vid: x.Vid}
			}
			if nx == True && y.Vid != 0 {
				return Cond{Op: CNil, Vid: y.Vid}
			}
			if x.Dyn != nil && y.Dyn != nil && nx == False && ny == False {
				if !types.Identical(x.Dyn, y.Dyn) {
					return Cond{Op: CFalse}
				}
				return e.eqCond(f, x.Val, y.Val)
			}
			if x.Vid != 0 && x.Vid == y.Vid {
				return Cond{Op: CTrue}
			}
			if x.Vid != 0 && y.Vid != 0 {
				a, b := x.Vid, y.Vid
				if a > b {
					a, b = b, a
				}
				return Cond{Op: CB, B: e.U.bsym(fmt.Sprintf("ifeq:%d,%d", a, b), "ifaceeq")}
			}
		}
	case ChoiceV:
		r := Tri(Unknown)
		for i, alt := range x.Alts {
			t := e.valEq(f, alt, b)
			if i == 0 {
				r = t
			} else if r != t {
				r = Unknown
			}
		}
		if r != Unknown {
			return constCond(r == True)
		}
	}
	if y, ok := b.(ChoiceV); ok {
		if _, isC := a.(ChoiceV); !isC {
			return e.eqCond(f, y, a)
		}
	}
	return unknown()
}

func (e *Engine) isSummary(obj int) bool { return e.summary[obj] }

// distinctObjs: both objects are allocations (not lazily named unknowns).
func (e *Engine) distinctObjs(a, b int) bool {
	_, la := e.lazyKey[a]
	_, lb := e.lazyKey[b]
	return !la || !lb
}
