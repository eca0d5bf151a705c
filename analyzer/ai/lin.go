// Package ai is a flow- and context-sensitive abstract interpreter over
// go/ssa. Integers are abstracted by linear expressions over value-numbered
// symbols with interval and linear-inequality facts, byte arrays by
// provenance logs, everything else by small finite lattices.
package ai

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Inf is the saturation bound used for "unbounded".
const Inf = int64(1) << 62

// SymKind says where a symbol comes from.
type SymKind int

const (
	SymInput SymKind = iota // unconstrained input / havoc
	SymSel                  // element of an array content at an index
	SymDiv                  // floor(A / C)
	SymAnd                  // bitwise and of A and B
	SymShl                  // A << B
	SymShr                  // A >> B
	SymMul                  // A * B
	SymLen                  // length of a string symbol
	SymIter                 // iteration counter of a loop
	SymOther
)

// Sym is a value-numbered symbol: an immutable integer unknown.
type Sym struct {
	ID     int
	Kind   SymKind
	Key    string
	Lo, Hi int64
	A, B   Lin
	C      int64
	Base   *Content // SymSel
	Name   string
	Serial int // creation serial (for "existed before the loop")
}

func (s *Sym) String() string {
	switch s.Kind {
	case SymSel:
		return s.Name
	case SymDiv:
		return fmt.Sprintf("(%v)/%d", s.A, s.C)
	case SymAnd:
		return fmt.Sprintf("(%v)&(%v)", s.A, s.B)
	case SymShl:
		return fmt.Sprintf("(%v)<<(%v)", s.A, s.B)
	case SymShr:
		return fmt.Sprintf("(%v)>>(%v)", s.A, s.B)
	case SymMul:
		return fmt.Sprintf("(%v)*(%v)", s.A, s.B)
	}
	if s.Name != "" {
		return s.Name
	}
	return "s" + strconv.Itoa(s.ID)
}

// Term is coefficient * symbol.
type Term struct {
	K int64
	S *Sym
}

// Lin is C + sum of terms, with terms sorted by symbol id, no zero coefficient.
type Lin struct {
	C int64
	T []Term
}

// Num makes a constant.
func Num(c int64) Lin { return Lin{C: c} }

// Of makes the expression consisting of one symbol.
func Of(s *Sym) Lin { return Lin{T: []Term{{1, s}}} }

// IsConst reports whether l has no symbol.
func (l Lin) IsConst() bool { return len(l.T) == 0 }

func (l Lin) String() string {
	if len(l.T) == 0 {
		return strconv.FormatInt(l.C, 10)
	}
	var b strings.Builder
	for i, t := range l.T {
		k := t.K
		if i > 0 {
			if k < 0 {
				b.WriteString("-")
				k = -k
			} else {
				b.WriteString("+")
			}
		} else if k < 0 {
			b.WriteString("-")
			k = -k
		}
		if k != 1 {
			b.WriteString(strconv.FormatInt(k, 10))
			b.WriteString("*")
		}
		b.WriteString(t.S.String())
	}
	if l.C != 0 {
		if l.C > 0 {
			b.WriteString("+")
		}
		b.WriteString(strconv.FormatInt(l.C, 10))
	}
	return b.String()
}

// Key is a canonical key of the expression.
func (l Lin) Key() string {
	if len(l.T) == 0 {
		return strconv.FormatInt(l.C, 10)
	}
	b := make([]byte, 0, 16*len(l.T)+8)
	for _, t := range l.T {
		b = strconv.AppendInt(b, t.K, 10)
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(t.S.ID), 10)
		b = append(b, '+')
	}
	b = strconv.AppendInt(b, l.C, 10)
	return string(b)
}

// Eq is structural equality.
func (l Lin) Eq(m Lin) bool {
	if l.C != m.C || len(l.T) != len(m.T) {
		return false
	}
	for i := range l.T {
		if l.T[i] != m.T[i] {
			return false
		}
	}
	return true
}

type overflow struct{}

func mulOv(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	r := a * b
	if r/b != a || r > 4*(Inf/4) || r < -4*(Inf/4) {
		panic(overflow{})
	}
	return r
}

func addOv(a, b int64) int64 {
	r := a + b
	if r > Inf || r < -Inf {
		panic(overflow{})
	}
	return r
}

// addMul returns l + k*m.
func (l Lin) addMul(k int64, m Lin) Lin {
	if k == 0 {
		return l
	}
	if len(m.T) == 0 {
		return Lin{C: addOv(l.C, mulOv(k, m.C)), T: l.T}
	}
	r := Lin{C: addOv(l.C, mulOv(k, m.C))}
	r.T = make([]Term, 0, len(l.T)+len(m.T))
	i, j := 0, 0
	for i < len(l.T) || j < len(m.T) {
		switch {
		case j >= len(m.T) || (i < len(l.T) && l.T[i].S.ID < m.T[j].S.ID):
			r.T = append(r.T, l.T[i])
			i++
		case i >= len(l.T) || m.T[j].S.ID < l.T[i].S.ID:
			r.T = append(r.T, Term{mulOv(k, m.T[j].K), m.T[j].S})
			j++
		default:
			c := addOv(l.T[i].K, mulOv(k, m.T[j].K))
			if c != 0 {
				r.T = append(r.T, Term{c, l.T[i].S})
			}
			i++
			j++
		}
	}
	return r
}

func (l Lin) Add(m Lin) Lin     { return l.addMul(1, m) }
func (l Lin) Sub(m Lin) Lin     { return l.addMul(-1, m) }
func (l Lin) AddC(c int64) Lin  { return Lin{C: addOv(l.C, c), T: l.T} }
func (l Lin) Scale(k int64) Lin { return Lin{}.addMul(k, l) }
func (l Lin) Neg() Lin          { return l.Scale(-1) }
func (l Lin) coef(s *Sym) int64 {
	for _, t := range l.T {
		if t.S == s {
			return t.K
		}
	}
	return 0
}

// subst replaces symbol s by e.
func (l Lin) subst(s *Sym, e Lin) Lin {
	k := l.coef(s)
	if k == 0 {
		return l
	}
	r := Lin{C: l.C}
	for _, t := range l.T {
		if t.S != s {
			r.T = append(r.T, t)
		}
	}
	return r.addMul(k, e)
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// tighten normalises l >= 0 by the gcd of its coefficients.
func (l Lin) tighten() Lin {
	if len(l.T) == 0 {
		return l
	}
	g := int64(0)
	for _, t := range l.T {
		g = gcd(g, t.K)
		if g == 1 {
			return l
		}
	}
	r := Lin{C: floorDiv(l.C, g), T: make([]Term, len(l.T))}
	for i, t := range l.T {
		r.T[i] = Term{t.K / g, t.S}
	}
	return r
}

// Interval is a closed integer interval, +-Inf meaning unbounded.
type Interval struct{ Lo, Hi int64 }

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	neg := (a < 0) != (b < 0)
	if a <= -Inf || a >= Inf || b <= -Inf || b >= Inf {
		if neg {
			return -Inf
		}
		return Inf
	}
	r := a * b
	if r/b != a || r >= Inf || r <= -Inf {
		if neg {
			return -Inf
		}
		return Inf
	}
	return r
}

func satAdd(a, b int64) int64 {
	if a >= Inf || b >= Inf {
		return Inf
	}
	if a <= -Inf || b <= -Inf {
		return -Inf
	}
	r := a + b
	if r >= Inf {
		return Inf
	}
	if r <= -Inf {
		return -Inf
	}
	return r
}

// Universe owns the hash-consed symbols.
type Universe struct {
	syms    map[string]*Sym
	next    int
	serial  int
	conID   int
	strs    map[string]*StrSym
	bsyms   map[string]*BSym
	Conts   map[string]*Content // hash-consed base contents
	lazy    map[string]int      // keys of lazily created objects
	nextVid int
	byID    []*Sym
}

func NewUniverse() *Universe {
	return &Universe{syms: map[string]*Sym{}, strs: map[string]*StrSym{}, bsyms: map[string]*BSym{}, Conts: map[string]*Content{}, lazy: map[string]int{}}
}

func (u *Universe) Vid() int { u.nextVid++; return u.nextVid }

func (u *Universe) mk(key string, kind SymKind, lo, hi int64, name string) *Sym {
	if s, ok := u.syms[key]; ok {
		return s
	}
	u.next++
	s := &Sym{ID: u.next, Kind: kind, Key: key, Lo: lo, Hi: hi, Name: name, Serial: u.next}
	u.syms[key] = s
	u.reg(s)
	return s
}

func (u *Universe) reg(s *Sym) {
	for len(u.byID) <= s.ID {
		u.byID = append(u.byID, nil)
	}
	u.byID[s.ID] = s
}

// Fresh makes a new unconstrained symbol in [lo,hi].
func (u *Universe) Fresh(name string, lo, hi int64) *Sym {
	u.next++
	if name == "" {
		name = "v"
	}
	s := &Sym{ID: u.next, Kind: SymInput, Lo: lo, Hi: hi, Name: fmt.Sprintf("%s#%d", name, u.next), Serial: u.next}
	u.reg(s)
	return s
}

// Input makes (or finds) a named input symbol.
func (u *Universe) Input(name string, lo, hi int64) *Sym {
	return u.mk(fmt.Sprintf("in:%s:%d:%d", name, lo, hi), SymInput, lo, hi, name)
}

// ranger supplies intervals of symbols.
type ranger interface{ symRange(*Sym) Interval }

type intrinsic struct{}

func (intrinsic) symRange(s *Sym) Interval { return Interval{s.Lo, s.Hi} }

func rangeOf(l Lin, r ranger) Interval {
	iv := Interval{l.C, l.C}
	for _, t := range l.T {
		s := r.symRange(t.S)
		if t.K > 0 {
			iv.Lo = satAdd(iv.Lo, satMul(t.K, s.Lo))
			iv.Hi = satAdd(iv.Hi, satMul(t.K, s.Hi))
		} else {
			iv.Lo = satAdd(iv.Lo, satMul(t.K, s.Hi))
			iv.Hi = satAdd(iv.Hi, satMul(t.K, s.Lo))
		}
	}
	return iv
}

// modRange is rangeOf, but recognises A - c*floor(A/c) as a remainder.
func modRange(l Lin, r ranger) Interval {
	extra := Interval{}
	for changed := true; changed; {
		changed = false
		for _, t := range l.T {
			if t.S.Kind != SymDiv || t.K >= 0 || t.K%t.S.C != 0 {
				continue
			}
			k := -t.K / t.S.C
			rest := l.addMul(-k, t.S.A).addMul(-t.K, Of(t.S))
			if len(rest.T) > len(l.T)-1-len(t.S.A.T) {
				continue // the dividend is not there
			}
			extra.Lo = satAdd(extra.Lo, 0)
			extra.Hi = satAdd(extra.Hi, satMul(k, t.S.C-1))
			l = rest
			changed = true
			break
		}
	}
	iv := rangeOf(l, r)
	return Interval{satAdd(iv.Lo, extra.Lo), satAdd(iv.Hi, extra.Hi)}
}

// Div returns floor(l / c) for c > 0, simplified.
func (u *Universe) Div(l Lin, c int64, r ranger) Lin {
	if c == 1 {
		return l
	}
	if l.IsConst() {
		return Num(floorDiv(l.C, c))
	}
	q := Lin{}
	rest := Lin{}
	for _, t := range l.T {
		if t.K%c == 0 {
			q.T = append(q.T, Term{t.K / c, t.S})
		} else {
			// keep the remainder coefficient in [0,c) when that splits nicely
			rest.T = append(rest.T, t)
		}
	}
	q.C = floorDiv(l.C, c)
	rest.C = l.C - q.C*c
	if len(rest.T) == 0 {
		return q
	}
	iv := rangeOf(rest, r)
	if iv.Lo > -Inf && iv.Hi < Inf {
		a, b := floorDiv(iv.Lo, c), floorDiv(iv.Hi, c)
		if a == b {
			return q.AddC(a)
		}
	}
	if m := modRange(rest, r); m.Lo > -Inf && m.Hi < Inf && floorDiv(m.Lo, c) == floorDiv(m.Hi, c) {
		return q.AddC(floorDiv(m.Lo, c))
	}
	// p*Y + R with p | c and 0 <= R < p
	if c > 1 && c&(c-1) == 0 && len(rest.T) > 1 {
		for p := c / 2; p > 1; p /= 2 {
			y, rr := Lin{}, Lin{}
			for _, t := range rest.T {
				if t.K%p == 0 {
					y.T = append(y.T, Term{t.K / p, t.S})
				} else {
					rr.T = append(rr.T, t)
				}
			}
			if len(y.T) == 0 {
				continue
			}
			y.C = floorDiv(rest.C, p)
			rr.C = rest.C - y.C*p
			if m := modRange(rr, r); m.Lo > -Inf && m.Hi < Inf && floorDiv(m.Lo, p) == floorDiv(m.Hi, p) {
				return q.Add(u.Div(y.AddC(floorDiv(m.Lo, p)), c/p, r))
			}
		}
	}
	// common factor of all coefficients and c
	g := c
	for _, t := range rest.T {
		g = gcd(g, t.K)
	}
	if g > 1 {
		r2 := Lin{C: floorDiv(rest.C, g)}
		for _, t := range rest.T {
			r2.T = append(r2.T, Term{t.K / g, t.S})
		}
		return q.Add(u.Div(r2, c/g, r))
	}
	// (Y + floor(D/d)) / c = (d*Y + D) / (d*c)
	nd, at := 0, -1
	for i, t := range rest.T {
		if t.S.Kind == SymDiv && t.K == 1 {
			nd++
			at = i
		}
	}
	if nd == 1 {
		in := rest.T[at].S
		if in.C < (int64(1)<<50)/c {
			y := rest.Sub(Of(in)).Scale(in.C)
			return q.Add(u.Div(y.Add(in.A), in.C*c, r))
		}
	}
	key := "div:" + strconv.FormatInt(c, 10) + ":" + rest.Key()
	if s, ok := u.syms[key]; ok {
		return q.Add(Of(s))
	}
	in := rangeOf(rest, intrinsic{})
	lo, hi := int64(-Inf), int64(Inf)
	if in.Lo > -Inf {
		lo = floorDiv(in.Lo, c)
	}
	if in.Hi < Inf {
		hi = floorDiv(in.Hi, c)
	}
	s := u.mk(key, SymDiv, lo, hi, "")
	s.A, s.C = rest, c
	return q.Add(Of(s))
}

// Mod returns l mod c in [0,c).
func (u *Universe) Mod(l Lin, c int64, r ranger) Lin {
	return l.addMul(-c, u.Div(l, c, r))
}

// AndC returns l & m for l >= 0 and a constant mask m >= 0.
func (u *Universe) AndC(l Lin, m int64, r ranger) Lin {
	if m == 0 {
		return Num(0)
	}
	res := Num(0)
	for lo := 0; lo < 62; {
		if m>>uint(lo)&1 == 0 {
			lo++
			continue
		}
		hi := lo
		for hi < 62 && m>>uint(hi)&1 == 1 {
			hi++
		}
		part := u.Div(l, int64(1)<<uint(lo), r)
		iv := rangeOf(part, r)
		w := int64(1) << uint(hi-lo)
		if !(iv.Lo >= 0 && iv.Hi < w) {
			part = u.Mod(part, w, r)
		}
		res = res.addMul(int64(1)<<uint(lo), part)
		lo = hi
	}
	return res
}

// And of two general expressions, both >= 0.
func (u *Universe) And(a, b Lin, r ranger) Lin {
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return Num(a.C & b.C)
		}
		return u.AndC(a, b.C, r)
	}
	if a.Eq(b) {
		return a
	}
	ra, rb := modRange(a, r), modRange(b, r)
	if disjointBits(a, ra, b, rb) || disjointBits(b, rb, a, ra) {
		return Num(0)
	}
	if a.Key() > b.Key() {
		a, b = b, a
	}
	key := "and:" + a.Key() + "," + b.Key()
	hi := ra.Hi
	if rb.Hi < hi {
		hi = rb.Hi
	}
	ia, ib := rangeOf(a, intrinsic{}), rangeOf(b, intrinsic{})
	h := ia.Hi
	if ib.Hi < h {
		h = ib.Hi
	}
	s := u.mk(key, SymAnd, 0, h, "")
	s.A, s.B = a, b
	return Of(s)
}

// disjointBits: every term of a (and its constant) is a multiple of 2^k and b < 2^k.
func disjointBits(a Lin, ra Interval, b Lin, rb Interval) bool {
	if rb.Lo < 0 || rb.Hi >= Inf || ra.Lo < 0 {
		return false
	}
	w := int64(1)
	for w <= rb.Hi {
		w <<= 1
	}
	if a.C%w != 0 {
		return false
	}
	for _, t := range a.T {
		if t.K%w != 0 {
			return false
		}
	}
	return true
}

// Opaque2 makes a hash-consed opaque binary term.
func (u *Universe) Opaque2(kind SymKind, op string, a, b Lin, lo, hi int64) Lin {
	key := op + ":" + a.Key() + "," + b.Key()
	s := u.mk(key, kind, lo, hi, "")
	s.A, s.B = a, b
	return Of(s)
}

func (l Lin) syms() []*Sym {
	r := make([]*Sym, len(l.T))
	for i, t := range l.T {
		r[i] = t.S
	}
	return r
}

func sortSyms(s []*Sym) { sort.Slice(s, func(i, j int) bool { return s[i].ID < s[j].ID }) }
