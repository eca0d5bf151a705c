package ai

import (
	"fmt"
	"strings"
)

// Tri is a three-valued boolean.
type Tri int8

const (
	Unknown Tri = iota
	True
	False
)

func (t Tri) Not() Tri {
	switch t {
	case True:
		return False
	case False:
		return True
	}
	return Unknown
}

func triOf(b bool) Tri {
	if b {
		return True
	}
	return False
}

// BSym is an opaque boolean unknown.
type BSym struct {
	ID   int
	Name string
}

// StrSym is an opaque string unknown.
type StrSym struct {
	ID     int
	Key    string
	Name   string
	Suffix string // known literal suffix (part of the symbol's value)
	MinLen int64
	MaxLen int64
	// FromBytes: string of a byte region
	Bytes *Content
	Off   Lin
	BLen  Lin
	// function application
	Fn   string
	Args []Value
}

// Facts is a persistent store of facts about symbols. The zero value is "true".
type Facts struct {
	u     *Universe
	iv    PMap[Interval]
	cons  []Lin // each >= 0
	neq   []Lin // each != 0
	bools PMap[bool]
	strs  PMap[string]
	strNe PMap[[]string]
	nils  PMap[bool] // vid -> is nil
	imps  []*imp
	Dead  bool
}

// An imp says that if all the guards hold then every eq is zero.
type imp struct {
	guards []Cond
	eqs    []Lin
}

func (f *Facts) clone() *Facts {
	g := *f
	g.cons = f.cons[:len(f.cons):len(f.cons)]
	g.neq = f.neq[:len(f.neq):len(f.neq)]
	g.imps = f.imps[:len(f.imps):len(f.imps)]
	return &g
}

func (f *Facts) symRange(s *Sym) Interval {
	if iv, ok := f.iv.Get(s.ID); ok {
		return iv
	}
	if s.Kind == SymDiv {
		lo, hi := s.Lo, s.Hi
		a := rangeOf(s.A, f)
		if a.Lo > -Inf {
			if d := floorDiv(a.Lo, s.C); d > lo {
				lo = d
			}
		}
		if a.Hi < Inf {
			if d := floorDiv(a.Hi, s.C); d < hi {
				hi = d
			}
		}
		return Interval{lo, hi}
	}
	return Interval{s.Lo, s.Hi}
}

// Range returns an interval containing l.
func (f *Facts) Range(l Lin) Interval { return rangeOf(l, f) }

// TightRange is Range, using the linear facts about l and about what l divides.
func (f *Facts) TightRange(l Lin) Interval {
	iv := rangeOf(l, f)
	if len(l.T) == 0 {
		return iv
	}
	for _, c := range f.cons {
		if len(l.T) == 1 && c.coef(l.T[0].S) != 0 && len(c.T) <= 3 {
			// c >= 0, so l-c <= l <= l+c
			if r := rangeOf(l.Sub(c), f); r.Lo > iv.Lo {
				iv.Lo = r.Lo
			}
			if r := rangeOf(l.Add(c), f); r.Hi < iv.Hi {
				iv.Hi = r.Hi
			}
			continue
		}
		if len(c.T) != len(l.T) {
			continue
		}
		if d := l.Sub(c); d.IsConst() && d.C > iv.Lo {
			iv.Lo = d.C
		} else if d := l.Add(c); d.IsConst() && d.C < iv.Hi {
			iv.Hi = d.C
		}
	}
	if len(l.T) == 1 && l.T[0].S.Kind == SymDiv {
		t := l.T[0]
		if a := f.TightRange(t.S.A); a.Lo > -Inf && a.Hi < Inf {
			x, y := satAdd(satMul(t.K, floorDiv(a.Lo, t.S.C)), l.C), satAdd(satMul(t.K, floorDiv(a.Hi, t.S.C)), l.C)
			if x > y {
				x, y = y, x
			}
			if x > iv.Lo {
				iv.Lo = x
			}
			if y < iv.Hi {
				iv.Hi = y
			}
		}
	}
	return iv
}

// Const returns the constant value of l if it has one.
func (f *Facts) Const(l Lin) (int64, bool) {
	if l.IsConst() {
		return l.C, true
	}
	iv := rangeOf(l, f)
	if iv.Lo == iv.Hi {
		return iv.Lo, true
	}
	return 0, false
}

type prover struct {
	f      *Facts
	budget int
}

// Prove reports whether l >= 0 is entailed.
func (f *Facts) Prove(l Lin) (ok bool) {
	if f.Dead {
		return true
	}
	l = l.tighten()
	if rangeOf(l, f).Lo >= 0 {
		return true
	}
	if l.IsConst() {
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			if _, o := r.(overflow); o {
				ok = false
				return
			}
			panic(r)
		}
	}()
	p := prover{f: f, budget: 600}
	for d := 1; d <= 5; d++ {
		if p.prove(l, d) {
			return true
		}
		if p.budget <= 0 {
			return false
		}
	}
	return false
}

func (p *prover) prove(l Lin, depth int) bool {
	if rangeOf(l, p.f).Lo >= 0 {
		return true
	}
	if depth == 0 || p.budget <= 0 || len(l.T) == 0 || len(l.T) > 10 {
		return false
	}
	p.budget--
	for _, t := range l.T {
		r := p.f.symRange(t.S)
		if r.Lo == r.Hi {
			continue
		}
		try := func(c Lin) bool {
			a := c.coef(t.S)
			if a == 0 || (a > 0) != (t.K > 0) {
				return false
			}
			ma, mk := a, t.K
			if ma < 0 {
				ma, mk = -ma, -mk
			}
			g := gcd(ma, mk)
			ma, mk = ma/g, mk/g
			// l >= 0  <=  ma*l + (ma-1) >= 0 (integers) ; subtract mk*c >= 0
			n := l.Scale(ma).AddC(ma-1).addMul(-mk, c).tighten()
			return p.prove(n, depth-1)
		}
		for i := len(p.f.cons) - 1; i >= 0; i-- {
			if try(p.f.cons[i]) {
				return true
			}
		}
		if s := t.S; s.Kind == SymDiv {
			// A - C*s >= 0 ; C*s + C-1 - A >= 0
			if t.K < 0 {
				if try(s.A.addMul(-s.C, Of(s))) {
					return true
				}
			} else {
				if try(Of(s).Scale(s.C).AddC(s.C - 1).Sub(s.A)) {
					return true
				}
			}
		}
		if s := t.S; s.Kind == SymAnd && t.K < 0 {
			if try(s.A.Sub(Of(s))) || try(s.B.Sub(Of(s))) {
				return true
			}
		}
		if p.budget <= 0 {
			return false
		}
	}
	// a division symbol whose argument is mentioned in l but which does not
	// itself occur: definitional facts of divisions occurring in constraints
	// are reached through those constraints.
	return false
}

// ProveEq reports whether l == 0 is entailed.
func (f *Facts) ProveEq(l Lin) bool {
	if l.IsConst() {
		return l.C == 0
	}
	return f.Prove(l) && f.Prove(l.Neg())
}

// ProveNe reports whether l != 0 is entailed.
func (f *Facts) ProveNe(l Lin) bool {
	if l.IsConst() {
		return l.C != 0
	}
	iv := rangeOf(l, f)
	if iv.Lo > 0 || iv.Hi < 0 {
		return true
	}
	// gcd argument
	g := int64(0)
	for _, t := range l.T {
		g = gcd(g, t.K)
	}
	if g > 1 && l.C%g != 0 {
		return true
	}
	n := l.Neg()
	for _, q := range f.neq {
		if q.Eq(l) || q.Eq(n) {
			return true
		}
	}
	for _, q := range f.neq {
		d := q.Sub(l)
		if f.quickZero(d) {
			return true
		}
		d = q.Add(l)
		if f.quickZero(d) {
			return true
		}
	}
	return f.Prove(l.AddC(-1)) || f.Prove(n.AddC(-1))
}

func (f *Facts) quickZero(l Lin) bool {
	iv := rangeOf(l, f)
	return iv.Lo == 0 && iv.Hi == 0
}

// AssumeGE adds l >= 0. Reports false if that is contradictory.
func (f *Facts) AssumeGE(l Lin) bool {
	if f.Dead {
		return false
	}
	l = l.tighten()
	iv := rangeOf(l, f)
	if iv.Lo >= 0 {
		return true
	}
	if iv.Hi < 0 {
		f.Dead = true
		return false
	}
	if len(l.T) == 1 {
		t := l.T[0]
		r := f.symRange(t.S)
		if t.K > 0 { // K*s + C >= 0 -> s >= ceil(-C/K)
			lo := -floorDiv(l.C, t.K)
			if lo > r.Lo {
				r.Lo = lo
			}
		} else {
			hi := floorDiv(l.C, -t.K)
			if hi < r.Hi {
				r.Hi = hi
			}
		}
		return f.setRange(t.S, r)
	}
	if f.Prove(l) {
		return true
	}
	if f.Prove(l.Neg().AddC(-1)) {
		f.Dead = true
		return false
	}
	f.cons = append(f.cons, l)
	f.propagate(l)
	f.recheckNeq(l)
	f.fire(l)
	return !f.Dead
}

const maxImps = 24

func (f *Facts) addImp(im *imp) {
	if len(f.imps) >= maxImps {
		f.imps = append([]*imp{}, f.imps[1:]...)
	}
	f.imps = append(f.imps, im)
}

// holds reports whether a guard is known to hold, looking no further than intervals and the new fact l >= 0.
func (f *Facts) holds(g Cond, l Lin) bool {
	switch g.Op {
	case CGE:
		return rangeOf(g.L, f).Lo >= 0 || len(l.T) > 1 && rangeOf(g.L.Sub(l), f).Lo >= 0
	case CEQ:
		return f.quickZero(g.L) || len(g.L.T) > 1 && len(l.T) > 1 && f.ProveEq(g.L)
	case CNE:
		iv := rangeOf(g.L, f)
		if iv.Lo > 0 || iv.Hi < 0 {
			return true
		}
		for _, q := range f.neq {
			if q.Eq(g.L) {
				return true
			}
		}
	case CB, CNB:
		v, ok := f.bools.Get(g.B.ID)
		return ok && v == (g.Op == CB)
	}
	return false
}

// fire uses the implications whose guards hold now that l >= 0 (or something about the symbols of l) is known.
func (f *Facts) fire(l Lin) {
	for again := true; again && len(f.imps) > 0 && !f.Dead; {
		again = false
		for i, im := range f.imps {
			hit := false
			for _, g := range im.guards {
				if g.Op == CB || g.Op == CNB {
					hit = hit || len(l.T) == 0
				}
				for _, t := range g.L.T {
					hit = hit || l.coef(t.S) != 0
				}
			}
			if !hit {
				continue
			}
			var left []Cond
			for _, g := range im.guards {
				if !f.holds(g, l) {
					left = append(left, g)
				}
			}
			if len(left) == len(im.guards) {
				continue
			}
			n := append([]*imp{}, f.imps[:i]...)
			if len(left) > 0 {
				n = append(n, &imp{left, im.eqs})
			}
			f.imps = append(n, f.imps[i+1:]...)
			if len(left) == 0 {
				for _, q := range im.eqs {
					if !f.AssumeEQ(q) {
						return
					}
				}
			}
			again = true
			break
		}
	}
}

func (f *Facts) setRange(s *Sym, r Interval) bool {
	for changed := true; changed; {
		changed = false
		for _, q := range f.neq {
			if len(q.T) == 1 && q.T[0].S == s && (q.T[0].K == 1 || q.T[0].K == -1) {
				v := -q.C * q.T[0].K
				if v == r.Lo {
					r.Lo++
					changed = true
				}
				if v == r.Hi && r.Hi >= r.Lo {
					r.Hi--
					changed = true
				}
			}
		}
	}
	if r.Lo > r.Hi {
		f.Dead = true
		return false
	}
	old := f.symRange(s)
	if old == r {
		return true
	}
	f.iv = f.iv.Set(s.ID, r)
	// a bound on a quotient bounds its (single-symbol) argument
	if s.Kind == SymDiv && len(s.A.T) == 1 {
		if r.Lo > -Inf {
			if !f.AssumeGE(s.A.AddC(-satMul(r.Lo, s.C))) {
				return false
			}
		}
		if r.Hi < Inf/(s.C+1) {
			if !f.AssumeGE(Num(r.Hi*s.C + s.C - 1).Sub(s.A)) {
				return false
			}
		}
	}
	for i, c := range f.cons {
		if i > 400 {
			break
		}
		if c.coef(s) != 0 {
			f.propagate(c)
			if f.Dead {
				return false
			}
		}
	}
	f.recheckNeq(Of(s))
	f.fire(Of(s))
	return !f.Dead
}

// propagate tightens intervals of the symbols of l >= 0.
func (f *Facts) propagate(l Lin) {
	iv := rangeOf(l, f)
	if iv.Hi >= Inf {
		// only the unbounded symbol (if unique) can be tightened
		var un *Term
		for i := range l.T {
			t := &l.T[i]
			r := f.symRange(t.S)
			if (t.K > 0 && r.Hi >= Inf) || (t.K < 0 && r.Lo <= -Inf) {
				if un != nil {
					return
				}
				un = t
			}
		}
		if un == nil {
			return
		}
		rest := l.addMul(-un.K, Of(un.S))
		rh := rangeOf(rest, f).Hi
		f.tightenSym(*un, rh)
		return
	}
	for _, t := range l.T {
		rest := l.addMul(-t.K, Of(t.S))
		rh := rangeOf(rest, f).Hi
		if rh >= Inf {
			continue
		}
		f.tightenSym(t, rh)
		if f.Dead {
			return
		}
	}
}

// K*s + rest >= 0 with rest <= rh.
func (f *Facts) tightenSym(t Term, rh int64) {
	r := f.symRange(t.S)
	o := r
	if t.K > 0 {
		lo := -floorDiv(rh, t.K)
		if lo > r.Lo {
			r.Lo = lo
		}
	} else {
		hi := floorDiv(rh, -t.K)
		if hi < r.Hi {
			r.Hi = hi
		}
	}
	if r == o {
		return
	}
	if r.Lo > r.Hi {
		f.Dead = true
		return
	}
	f.iv = f.iv.Set(t.S.ID, r)
}

func (f *Facts) recheckNeq(l Lin) {
	if len(f.neq) == 0 {
		return
	}
	var keep []Lin
	var strong []Lin
	for _, q := range f.neq {
		rel := false
		for _, t := range l.T {
			if q.coef(t.S) != 0 {
				rel = true
			}
		}
		if !rel {
			keep = append(keep, q)
			continue
		}
		iv := rangeOf(q, f)
		switch {
		case iv.Lo > 0 || iv.Hi < 0:
			// decided by intervals; drop only if single symbol
			if len(q.T) > 1 {
				keep = append(keep, q)
			}
		case iv.Lo == 0 && iv.Hi == 0:
			f.Dead = true
			return
		case len(q.T) > 1 && f.Prove(q):
			strong = append(strong, q.AddC(-1))
		case len(q.T) > 1 && f.Prove(q.Neg()):
			strong = append(strong, q.Neg().AddC(-1))
		default:
			keep = append(keep, q)
		}
	}
	f.neq = keep
	for _, s := range strong {
		if !f.AssumeGE(s) {
			return
		}
	}
}

// AssumeEQ adds l == 0.
func (f *Facts) AssumeEQ(l Lin) bool {
	g := int64(0)
	for _, t := range l.T {
		g = gcd(g, t.K)
	}
	if g > 1 && l.C%g != 0 {
		f.Dead = true
		return false
	}
	return f.AssumeGE(l) && f.AssumeGE(l.Neg())
}

// AssumeNE adds l != 0.
func (f *Facts) AssumeNE(l Lin) bool {
	if f.Dead {
		return false
	}
	if l.IsConst() {
		if l.C == 0 {
			f.Dead = true
		}
		return !f.Dead
	}
	if f.ProveNe(l) {
		return true
	}
	if f.Prove(l) {
		return f.AssumeGE(l.AddC(-1))
	}
	if f.Prove(l.Neg()) {
		return f.AssumeGE(l.Neg().AddC(-1))
	}
	f.neq = append(f.neq, l)
	f.fire(l)
	return !f.Dead
}

func (f *Facts) String() string {
	var b strings.Builder
	f.iv.Each(func(k int, v Interval) { fmt.Fprintf(&b, " s%d∈[%d,%d]", k, v.Lo, v.Hi) })
	for _, c := range f.cons {
		fmt.Fprintf(&b, "; %v>=0", c)
	}
	for _, c := range f.neq {
		fmt.Fprintf(&b, "; %v!=0", c)
	}
	for _, im := range f.imps {
		b.WriteString("; [")
		for _, g := range im.guards {
			b.WriteString(condKey(g) + " ")
		}
		b.WriteString("=>")
		for _, q := range im.eqs {
			fmt.Fprintf(&b, " %v=0", q)
		}
		b.WriteString("]")
	}
	return b.String()
}

// joinFacts keeps what both a and b entail.
func joinFacts(a, b *Facts) *Facts {
	if a.Dead {
		return b.clone()
	}
	if b.Dead {
		return a.clone()
	}
	r := &Facts{u: a.u}
	// intervals: keys in both maps (a missing key means the intrinsic range,
	// which is weaker, except for derived ranges which symRange recomputes)
	hull := func(k int) {
		s := a.u.byID[k]
		v, w := a.symRange(s), b.symRange(s)
		if w.Lo < v.Lo {
			v.Lo = w.Lo
		}
		if w.Hi > v.Hi {
			v.Hi = w.Hi
		}
		if v.Lo > s.Lo || v.Hi < s.Hi {
			r.iv = r.iv.Set(k, v)
		}
	}
	a.iv.Each(func(k int, v Interval) { hull(k) })
	b.iv.Each(func(k int, v Interval) {
		if _, ok := a.iv.Get(k); !ok {
			hull(k)
		}
	})
	seen := map[string]bool{}
	add := func(c Lin, o *Facts) {
		k := c.Key()
		if seen[k] {
			return
		}
		seen[k] = true
		if o.Prove(c) {
			r.cons = append(r.cons, c)
		}
	}
	// shared prefix is kept without re-proving
	n := 0
	for n < len(a.cons) && n < len(b.cons) && a.cons[n].Eq(b.cons[n]) {
		seen[a.cons[n].Key()] = true
		n++
	}
	r.cons = append(r.cons, a.cons[:n]...)
	for _, c := range a.cons[n:] {
		add(c, b)
	}
	for _, c := range b.cons[n:] {
		add(c, a)
	}
	for _, q := range a.neq {
		if b.ProveNe(q) {
			r.neq = append(r.neq, q)
		}
	}
	for _, q := range b.neq {
		dup := false
		for _, p := range r.neq {
			if p.Eq(q) {
				dup = true
			}
		}
		if !dup && a.ProveNe(q) {
			r.neq = append(r.neq, q)
		}
	}
	a.bools.Each(func(k int, v bool) {
		if w, ok := b.bools.Get(k); ok && w == v {
			r.bools = r.bools.Set(k, v)
		}
	})
	a.nils.Each(func(k int, v bool) {
		if w, ok := b.nils.Get(k); ok && w == v {
			r.nils = r.nils.Set(k, v)
		}
	})
	a.strs.Each(func(k int, v string) {
		if w, ok := b.strs.Get(k); ok && w == v {
			r.strs = r.strs.Set(k, v)
		} else if ne, ok := b.strNe.Get(k); ok {
			// a: s==v ; b: s not in ne
			var keep []string
			for _, x := range ne {
				if x != v {
					keep = append(keep, x)
				}
			}
			if len(keep) > 0 {
				r.strNe = r.strNe.Set(k, keep)
			}
		}
	})
	a.strNe.Each(func(k int, v []string) {
		var keep []string
		if w, ok := b.strNe.Get(k); ok {
			for _, x := range v {
				for _, y := range w {
					if x == y {
						keep = append(keep, x)
					}
				}
			}
		} else if c, ok := b.strs.Get(k); ok {
			for _, x := range v {
				if x != c {
					keep = append(keep, x)
				}
			}
		}
		if len(keep) > 0 {
			r.strNe = r.strNe.Set(k, keep)
		}
	})
	// interval facts present on one side only, entailed relationally by the other
	return r
}
