package ai

import (
	"go/types"
	"strings"
)

// text is a string or byte slice argument as a list of bytes.
type text struct {
	b     []Lin
	slice *SliceV
}

func (c *ExtCall) text(i int) (text, bool) {
	switch a := c.Arg(i).(type) {
	case StrV:
		at := c.E.atoms(c.St.F, a)
		t := text{}
		for _, x := range at {
			if x.sym != nil {
				return text{}, false
			}
			t.b = append(t.b, x.b)
		}
		return t, true
	case SliceV:
		n, ok := c.St.F.Const(a.Len)
		if !ok || n < 0 || n > 1<<18 {
			return text{}, false
		}
		t := text{slice: &a}
		if n == 0 {
			return t, true
		}
		cn := c.E.Content(c.St, a)
		if cn == nil {
			return text{}, false
		}
		for k := int64(0); k < n; k++ {
			v, ok := c.E.Read(c.St.F, cn, a.Off.AddC(k)).(IntV)
			if !ok {
				return text{}, false
			}
			t.b = append(t.b, v.L)
		}
		return t, true
	}
	return text{}, false
}

// match compares needle with t at i.
func (e *Engine) match(f *Facts, t []Lin, i int, needle []Lin) Tri {
	if i < 0 || i+len(needle) > len(t) {
		return False
	}
	r := True
	for k, b := range needle {
		d := t[i+k].Sub(b)
		switch {
		case d.IsConst() && d.C == 0:
		case d.IsConst():
			return False
		case f.ProveEq(d):
		case f.ProveNe(d):
			return False
		default:
			r = Unknown
		}
	}
	return r
}

// sub is the part [lo,hi) of an argument.
func (t text) sub(c *ExtCall, i, lo, hi int) Value {
	if t.slice != nil {
		s := *t.slice
		s.Off = canon(c.St.F, s.Off.AddC(int64(lo)))
		s.Len = Num(int64(hi - lo))
		s.Cap = canon(c.St.F, s.Cap.AddC(-int64(lo)))
		return s
	}
	if lo == 0 && t.slice == nil && hi == len(t.b) {
		return c.Arg(i)
	}
	out := StrV{}
	for _, b := range t.b[lo:hi] {
		out = concat(out, c.E.ByteStr(c.St, b))
	}
	return out
}

// textFn models a function of bytes when every comparison it makes is decided,
// and otherwise uses the fallback.
func textFn(f func(c *ExtCall) (Value, bool), fall func(c *ExtCall) []CallRes) func(c *ExtCall) []CallRes {
	return func(c *ExtCall) []CallRes {
		if v, ok := f(c); ok {
			return c.one(v)
		}
		return fall(c)
	}
}

// shorter is the fallback for functions returning a part of their argument.
func shorter(c *ExtCall) []CallRes {
	if a, ok := c.Arg(0).(SliceV); ok {
		n := c.E.U.Fresh("trimmed", 0, 1<<40)
		c.St.F.AssumeGE(a.Len.Sub(Of(n)))
		o := c.E.U.Fresh("skip", 0, 1<<40)
		c.St.F.AssumeGE(a.Len.Sub(Of(n)).Sub(Of(o)))
		a.Off = a.Off.Add(Of(o))
		a.Len = Of(n)
		a.Cap = a.Cap.Sub(Of(o))
		a.Nil, a.Vid = Unknown, c.E.U.Vid()
		return c.one(a)
	}
	r := c.pure()
	if sv, ok := r.(StrV); ok {
		if s, ok := c.Arg(0).(StrV); ok {
			c.St.F.AssumeGE(c.E.U.StrLen(c.St.F.resolveStr(s)).Sub(c.E.U.StrLen(sv)))
		}
	}
	return c.one(r)
}

func anyValue(c *ExtCall) []CallRes { return c.one(c.pure()) }

// position is the fallback for functions returning an index or -1.
func position(c *ExtCall) []CallRes {
	r := c.E.U.Fresh("idx", -1, 1<<40)
	c.St.F.AssumeGE(c.lenOf(0).Sub(Of(r)).AddC(-1))
	return c.one(IntV{Of(r)})
}

func (c *ExtCall) lenOf(i int) Lin {
	switch a := c.Arg(i).(type) {
	case StrV:
		return c.E.U.StrLen(c.St.F.resolveStr(a))
	case SliceV:
		return a.Len
	}
	return Of(c.E.U.Fresh("len", 0, 1<<40))
}

func (c *ExtCall) byteArg(i int) ([]Lin, bool) {
	if v, ok := c.Arg(i).(IntV); ok {
		return []Lin{v.L}, true
	}
	return nil, false
}

func index(c *ExtCall, t, n []Lin, last bool) (int, bool) {
	for k := 0; k+len(n) <= len(t); k++ {
		i := k
		if last {
			i = len(t) - len(n) - k
		}
		switch c.E.match(c.St.F, t, i, n) {
		case True:
			return i, true
		case Unknown:
			return 0, false
		}
	}
	return -1, true
}

// inSet tells whether byte b is in an ASCII set: True, False or Unknown.
func inSet(f *Facts, b Lin, set *[128]bool) Tri {
	iv := f.Range(b)
	if iv.Lo < 0 || iv.Hi > 255 {
		return Unknown
	}
	n, all := int64(0), int64(0)
	for k := iv.Lo; k <= iv.Hi; k++ {
		if f.ProveNe(b.AddC(-k)) {
			continue
		}
		all++
		if k < 128 && set[k] {
			n++
		}
	}
	switch n {
	case 0:
		return False
	case all:
		return True
	}
	return Unknown
}

func asciiSet(s string) (*[128]bool, bool) {
	var set [128]bool
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return nil, false
		}
		set[s[i]] = true
	}
	return &set, true
}

func trimText(c *ExtCall, set *[128]bool, left, right bool) (Value, bool) {
	var t text
	var n int
	var get func(i int) (Lin, bool)
	if a, ok := c.Arg(0).(SliceV); ok {
		k, ok := c.St.F.Const(a.Len)
		cn := c.E.Content(c.St, a)
		if !ok || k > 0 && cn == nil {
			return nil, false
		}
		t.slice, n = &a, int(k)
		get = func(i int) (Lin, bool) {
			v, ok := c.E.Read(c.St.F, cn, a.Off.AddC(int64(i))).(IntV)
			return v.L, ok
		}
	} else {
		var ok bool
		if t, ok = c.text(0); !ok {
			return nil, false
		}
		n = len(t.b)
		get = func(i int) (Lin, bool) { return t.b[i], true }
	}
	lo, hi := 0, n
	in := func(i int) Tri {
		l, ok := get(i)
		if !ok {
			return Unknown
		}
		return inSet(c.St.F, l, set)
	}
	for right && hi > lo {
		k := in(hi - 1)
		if k == Unknown {
			return nil, false
		}
		if k == False {
			break
		}
		hi--
	}
	for left && hi > lo {
		k := in(lo)
		if k == Unknown {
			return nil, false
		}
		if k == False {
			break
		}
		lo++
	}
	if t.slice == nil && (lo > 0 || hi < n) && hi == lo {
		return StrV{}, true
	}
	return t.sub(c, 0, lo, hi), true
}

func init() {
	both := func(name string, f func(c *ExtCall) (Value, bool), fall func(c *ExtCall) []CallRes) {
		for _, p := range []string{"strings.", "bytes."} {
			fb := fall
			if old, ok := extTable[p+name]; ok {
				fb = old
			}
			extTable[p+name] = textFn(f, fb)
		}
	}
	idx := func(last bool) func(c *ExtCall) (Value, bool) {
		return func(c *ExtCall) (Value, bool) {
			t, ok := c.text(0)
			n, ok2 := c.text(1)
			if !ok || !ok2 {
				return nil, false
			}
			i, ok := index(c, t.b, n.b, last)
			return IntV{Num(int64(i))}, ok
		}
	}
	idxByte := func(last bool) func(c *ExtCall) (Value, bool) {
		return func(c *ExtCall) (Value, bool) {
			t, ok := c.text(0)
			n, ok2 := c.byteArg(1)
			if !ok || !ok2 {
				return nil, false
			}
			i, ok := index(c, t.b, n, last)
			return IntV{Num(int64(i))}, ok
		}
	}
	both("Index", idx(false), position)
	both("LastIndex", idx(true), position)
	both("IndexByte", idxByte(false), position)
	both("LastIndexByte", idxByte(true), position)
	both("Contains", func(c *ExtCall) (Value, bool) {
		t, ok := c.text(0)
		n, ok2 := c.text(1)
		if !ok || !ok2 {
			return nil, false
		}
		i, ok := index(c, t.b, n.b, false)
		return BoolV{constCond(i >= 0)}, ok
	}, anyValue)
	both("Count", func(c *ExtCall) (Value, bool) {
		t, ok := c.text(0)
		n, ok2 := c.text(1)
		if !ok || !ok2 || len(n.b) == 0 {
			return nil, false
		}
		k := 0
		for i := 0; i < len(t.b); {
			switch c.E.match(c.St.F, t.b, i, n.b) {
			case True:
				k++
				i += len(n.b)
				continue
			case Unknown:
				return nil, false
			}
			i++
		}
		return IntV{Num(int64(k))}, true
	}, func(c *ExtCall) []CallRes {
		r := c.E.U.Fresh("count", 0, 1<<40)
		c.St.F.AssumeGE(c.lenOf(0).AddC(1).Sub(Of(r)))
		return c.one(IntV{Of(r)})
	})
	affix := func(suffix bool) func(c *ExtCall) (text, int, Tri) {
		return func(c *ExtCall) (text, int, Tri) {
			t, ok := c.text(0)
			n, ok2 := c.text(1)
			if !ok || !ok2 {
				return t, 0, Unknown
			}
			at := 0
			if suffix {
				at = len(t.b) - len(n.b)
			}
			return t, len(n.b), c.E.match(c.St.F, t.b, at, n.b)
		}
	}
	has := func(suffix bool) func(c *ExtCall) (Value, bool) {
		return func(c *ExtCall) (Value, bool) {
			_, _, k := affix(suffix)(c)
			return BoolV{constCond(k == True)}, k != Unknown
		}
	}
	cutAffix := func(suffix bool) func(c *ExtCall) (Value, bool) {
		return func(c *ExtCall) (Value, bool) {
			t, n, k := affix(suffix)(c)
			switch {
			case k == Unknown:
				return nil, false
			case k == False:
				return c.Arg(0), true
			case suffix:
				return t.sub(c, 0, 0, len(t.b)-n), true
			}
			return t.sub(c, 0, n, len(t.b)), true
		}
	}
	both("HasPrefix", has(false), anyValue)
	both("HasSuffix", has(true), anyValue)
	both("TrimPrefix", cutAffix(false), shorter)
	both("TrimSuffix", cutAffix(true), shorter)
	trim := func(left, right bool) func(c *ExtCall) (Value, bool) {
		return func(c *ExtCall) (Value, bool) {
			_, cut, ok := c.str(1)
			if !ok {
				return nil, false
			}
			set, ok := asciiSet(cut)
			if !ok {
				return nil, false
			}
			return trimText(c, set, left, right)
		}
	}
	both("Trim", trim(true, true), shorter)
	both("TrimLeft", trim(true, false), shorter)
	both("TrimRight", trim(false, true), shorter)
	// White space beyond ASCII is left to the fallback: a byte of 0x80 or more
	// next to the trimmed part might be part of such a rune.
	both("TrimSpace", func(c *ExtCall) (Value, bool) {
		t, ok := c.text(0)
		if !ok {
			return nil, false
		}
		set, _ := asciiSet("\t\n\v\f\r ")
		v, ok := trimText(c, set, true, true)
		if !ok {
			return nil, false
		}
		for _, b := range t.b {
			if c.St.F.Range(b).Hi > 127 {
				return nil, false
			}
		}
		return v, true
	}, shorter)
	both("ContainsRune", func(c *ExtCall) (Value, bool) {
		t, ok := c.text(0)
		k, ok2 := c.int(1)
		if !ok || !ok2 || k < 0 || k > 127 {
			return nil, false
		}
		i, ok := index(c, t.b, []Lin{Num(k)}, false)
		return BoolV{constCond(i >= 0)}, ok
	}, anyValue)
	anySet := func(i int, c *ExtCall) (*[128]bool, bool) {
		_, s, ok := c.str(i)
		if !ok {
			return nil, false
		}
		return asciiSet(s)
	}
	indexAny := func(c *ExtCall) (int, bool) {
		t, ok := c.text(0)
		set, ok2 := anySet(1, c)
		if !ok || !ok2 {
			return 0, false
		}
		for i, b := range t.b {
			switch inSet(c.St.F, b, set) {
			case True:
				return i, true
			case Unknown:
				return 0, false
			}
		}
		return -1, true
	}
	both("IndexAny", func(c *ExtCall) (Value, bool) {
		i, ok := indexAny(c)
		return IntV{Num(int64(i))}, ok
	}, position)
	both("ContainsAny", func(c *ExtCall) (Value, bool) {
		i, ok := indexAny(c)
		return BoolV{constCond(i >= 0)}, ok
	}, anyValue)
	extTable["bytes.Repeat"] = textFn(func(c *ExtCall) (Value, bool) {
		t, ok := c.text(0)
		k, ok2 := c.int(1)
		if !ok || !ok2 || k < 0 || k*int64(len(t.b)) > 1<<16 {
			return nil, false
		}
		if len(t.b) == 1 {
			if v, ok := c.St.F.Const(t.b[0]); ok {
				s := Lit(strings.Repeat(string([]byte{byte(v)}), int(k)))
				return c.E.convert(c.St, s, types.Typ[types.String], types.NewSlice(byteType)), true
			}
		}
		out := StrV{}
		for i := int64(0); i < k; i++ {
			for _, b := range t.b {
				out = concat(out, c.E.ByteStr(c.St, b))
			}
		}
		return c.E.convert(c.St, out, types.Typ[types.String], types.NewSlice(byteType)), true
	}, func(c *ExtCall) []CallRes {
		return c.E.defaultExtern(c)
	})
}
