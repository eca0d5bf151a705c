package ai

import (
	"fmt"
	"go/types"
	"strings"
)

// parts is a set of states entering a block, partitioned by a key.
type parts struct {
	sts  []*State
	keys []string
}

// valClass is the part of a value that partitions states.
func valClass(f *Facts, v Value) string {
	switch v := v.(type) {
	case BoolV:
		switch f.Eval(v.C) {
		case True:
			return "T"
		case False:
			return "F"
		}
		return "b"
	case IfaceV:
		n := f.nilOf(v.Nil, v.Vid)
		if n == True {
			return "nil"
		}
		k := "?"
		if n == False {
			k = "!"
		}
		if v.Dyn != nil {
			k += v.Dyn.String()
		} else if v.Err != nil {
			if v.Err.Kind == "notexist" {
				k += v.Err.Kind
			}
		}
		return k
	case PtrV:
		n := f.nilOf(v.Nil, v.Vid)
		if n == True {
			return "nil"
		}
		if n == Unknown {
			return fmt.Sprintf("?o%d", v.Obj)
		}
		return fmt.Sprintf("o%d", v.Obj)
	case SliceV:
		n := f.nilOf(v.Nil, v.Vid)
		if n == True {
			return "nil"
		}
		return fmt.Sprintf("s%d", v.Obj)
	case StrV:
		if s, ok := f.ConstStr(v); ok && len(s) < 200 {
			return "=" + s
		}
		return "s"
	case FuncV:
		return fmt.Sprintf("f%p", v.Fn)
	case MapV:
		return fmt.Sprintf("m%d", v.Obj)
	case ChoiceV:
		return "C"
	case StructV:
		var b strings.Builder
		for _, x := range v.F {
			switch x.(type) {
			case IfaceV, PtrV, FuncV, MapV:
				b.WriteString(valClass(f, x))
			}
		}
		return b.String()
	}
	return ""
}

func (e *Engine) partKey(st *State, live []int) string {
	var b strings.Builder
	for _, i := range live {
		if c := valClass(st.F, st.R[i]); c != "" {
			fmt.Fprintf(&b, "%d%s;", i, c)
		}
	}
	b.WriteString(st.stateKey())
	return b.String()
}

func (e *Engine) addPart(p *parts, live []int, fi *fnInfo, st *State) {
	if st.F.Dead {
		return
	}
	// drop dead registers
	if len(live) < len(st.R) {
		nr := make([]Value, len(st.R))
		for _, i := range live {
			nr[i] = st.R[i]
		}
		st.R = nr
	}
	key := e.partKey(st, live)
	ty := func(i int) types.Type { return fi.vals[i].Type() }
	for i, k := range p.keys {
		if k == key {
			p.sts[i] = e.join(p.sts[i], st, live, ty)
			return
		}
	}
	if len(p.sts) >= e.MaxParts {
		// force a join, preferring equal trace and pending set
		best := len(p.sts) - 1
		sk := st.stateKey()
		for i := range p.sts {
			if p.sts[i].stateKey() == sk {
				best = i
			}
		}
		p.sts[best] = e.join(p.sts[best], st, live, ty)
		p.keys[best] = e.partKey(p.sts[best], live)
		return
	}
	p.sts = append(p.sts, st)
	p.keys = append(p.keys, key)
}

type joined struct {
	la, lb Lin
	m      Lin
}

type joiner struct {
	e      *Engine
	fa, fb *Facts
	a, b   *State
	ints   []joined
	keys   map[string]Lin
	conts  map[[2]int]*Content
	heap   PMap[Value]
	depth  int
	ga, gb Cond // conditions that tell the two states apart
	sep    Tri
}

// separate finds a condition that holds in the first state and not in the second.
func (j *joiner) separate() bool {
	if j.sep != Unknown {
		return j.sep == True
	}
	j.sep = False
	set := func(a, b Cond) { j.ga, j.gb, j.sep = a, b, True }
	ge := func(l Lin) Cond { return Cond{Op: CGE, L: l} }
	fa, fb := j.a.F, j.b.F
	best := -1
	fa.iv.Diff(fb.iv, func(k int, _, _ *Interval) {
		if best >= 0 && k > best {
			return
		}
		s := fa.u.byID[k]
		x, y := fa.symRange(s), fb.symRange(s)
		switch {
		case x.Hi < y.Lo:
			best = k
			set(ge(Num(x.Hi).Sub(Of(s))), ge(Of(s).AddC(-y.Lo)))
		case y.Hi < x.Lo:
			best = k
			set(ge(Of(s).AddC(-x.Lo)), ge(Num(y.Hi).Sub(Of(s))))
		}
	})
	if j.sep == True {
		return true
	}
	n := 0
	for n < len(fa.cons) && n < len(fb.cons) && fa.cons[n].Eq(fb.cons[n]) {
		n++
	}
	// opposite constraints, if possible without the iterations of a loop
	la, lb := sharp(fa, n), sharp(fb, n)
	for _, c := range la {
		for _, d := range lb {
			if s := c.Add(d); s.IsConst() && s.C < 0 && (j.sep != True || !hasIter(c)) {
				set(ge(c), ge(d))
				if !hasIter(c) {
					return true
				}
			}
		}
	}
	if j.sep == True {
		return true
	}
	for i, fs := range []*Facts{fa, fb} {
		o := fb
		if i == 1 {
			o = fa
		}
		for k := len(fs.neq) - 1; k >= 0 && k >= len(fs.neq)-6; k-- {
			if q := fs.neq[k]; o.quickZero(q) {
				ne, eq := Cond{Op: CNE, L: q}, Cond{Op: CEQ, L: q}
				if i == 0 {
					set(ne, eq)
				} else {
					set(eq, ne)
				}
				return true
			}
		}
	}
	fa.bools.Diff(fb.bools, func(k int, x, y *bool) {
		if j.sep != True && x != nil && y != nil && *x != *y {
			a, b := Cond{Op: CB, B: &BSym{ID: k}}, Cond{Op: CNB, B: &BSym{ID: k}}
			if !*x {
				a, b = b, a
			}
			set(a, b)
		}
	})
	return j.sep == True
}

func hasIter(l Lin) bool {
	for _, t := range l.T {
		if t.S.Kind == SymIter {
			return true
		}
	}
	return false
}

// sharp gives the constraints from the n-th on, also with the iterations of loops replaced by what they equal.
func sharp(f *Facts, n int) (l []Lin) {
	for i := n; i < len(f.cons) && i < n+12; i++ {
		l = append(l, f.cons[i])
	}
	for _, c := range l {
		for k := len(f.cons) - 1; k >= 0 && k >= len(f.cons)-24; k-- {
			d := f.cons[k]
			for _, t := range d.T {
				if a := c.coef(t.S); t.S.Kind == SymIter && (t.K == 1 && a == -1 || t.K == -1 && a == 1) {
					if s := c.Add(d); !s.IsConst() {
						l = append(l, s)
					}
				}
			}
		}
	}
	return l
}

// imps keeps the implications of both states and adds those that define the joined symbols.
func (j *joiner) imps(r *Facts) {
	a, b := j.a.F.imps, j.b.F.imps
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	r.imps = a[:n:n]
	ea, eb := lostEqs(j.a.F, j.b.F, r), lostEqs(j.b.F, j.a.F, r)
	if n == len(a) && n == len(b) && len(j.ints) == 0 && ea == nil && eb == nil || !j.separate() {
		return
	}
	in := func(l []*imp, x *imp) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	keep := func(l, o []*imp, g Cond) {
		for _, im := range l {
			switch {
			case in(o, im):
				if !in(r.imps, im) {
					r.addImp(im)
				}
			case len(im.guards) < 3:
				r.addImp(&imp{append([]Cond{g}, im.guards...), im.eqs})
			}
		}
	}
	keep(a[n:], b[n:], j.ga)
	keep(b[n:], a[n:], j.gb)
	for i, p := range j.ints {
		if i == 8 {
			break
		}
		ea, eb = append(ea, p.m.Sub(p.la)), append(eb, p.m.Sub(p.lb))
	}
	if len(ea) > 0 {
		r.addImp(&imp{[]Cond{j.ga}, ea})
	}
	if len(eb) > 0 {
		r.addImp(&imp{[]Cond{j.gb}, eb})
	}
}

// lostEqs finds equalities of a, between symbols, that are not in b.
func lostEqs(a, b, r *Facts) (l []Lin) {
	n := 0
	for n < len(a.cons) && n < len(b.cons) && a.cons[n].Eq(b.cons[n]) {
		n++
	}
	for i := n; i < len(a.cons) && i < n+16; i++ {
		c := a.cons[i]
		if len(c.T) < 2 {
			continue
		}
		for k := 0; k < i; k++ {
			if d := c.Add(a.cons[k]); d.IsConst() && d.C == 0 && !r.ProveEq(c) {
				l = append(l, c)
				break
			}
		}
		if len(l) == 4 {
			break
		}
	}
	return l
}

// join merges two states. live lists the registers that matter (nil: all).
func (e *Engine) join(a, b *State, live []int, ty func(int) types.Type) *State {
	if a == b {
		return a
	}
	if a.F.Dead {
		return b
	}
	if b.F.Dead {
		return a
	}
	j := &joiner{e: e, fa: a.F.clone(), fb: b.F.clone(), a: a, b: b, keys: map[string]Lin{}, conts: map[[2]int]*Content{}}
	r := &State{}
	r.R = make([]Value, len(a.R))
	j.heap = a.Heap
	do := func(i int) {
		r.R[i] = j.val(a.R[i], b.R[i], ty(i))
	}
	if live != nil {
		for _, i := range live {
			do(i)
		}
	} else {
		for i := range a.R {
			do(i)
		}
	}
	// heap
	type dk struct {
		k    int
		x, y *Value
	}
	var ds []dk
	a.Heap.Diff(b.Heap, func(k int, x, y *Value) { ds = append(ds, dk{k, x, y}) })
	for _, d := range ds {
		switch {
		case d.x == nil && d.y != nil:
			// absent on one side: either born on the other side or still lazy here
			if lz := e.lazyValue(d.k); lz != nil {
				j.heap = j.heap.Set(d.k, j.val(lz, *d.y, e.objType[d.k]))
			} else {
				j.heap = j.heap.Set(d.k, *d.y)
			}
		case d.y == nil && d.x != nil:
			if lz := e.lazyValue(d.k); lz != nil {
				j.heap = j.heap.Set(d.k, j.val(*d.x, lz, e.objType[d.k]))
			}
		default:
			j.heap = j.heap.Set(d.k, j.val(*d.x, *d.y, e.objType[d.k]))
		}
	}
	r.Heap = j.heap
	r.F = j.facts()
	j.imps(r.F)
	r.Trace = e.joinTrace(a.Trace, b.Trace)
	r.Pend = joinPend(a.Pend, b.Pend)
	// fresh insertions: minimum
	r.FI = PMap[int]{}
	a.FI.Each(func(k int, v int) {
		w, _ := b.FI.Get(k)
		if w < v {
			v = w
		}
		if v != 0 {
			r.FI = r.FI.Set(k, v)
		}
	})
	b.FI.Each(func(k int, v int) {
		if v < 0 {
			r.FI = r.FI.Set(k, v)
		}
	})
	r.Mut = a.Mut
	b.Mut.Each(func(k int, v bool) { r.Mut = r.Mut.Set(k, v) })
	r.Defs = a.Defs
	if len(a.Defs) != len(b.Defs) {
		panic(undecided{why: "conditional defer"})
	}
	return r
}

// lazyValue is the initial value of an object not stored in the heap.
func (e *Engine) lazyValue(id int) Value {
	if v, ok := e.lazyInit[id]; ok {
		return v
	}
	if k, ok := e.lazyKey[id]; ok {
		v := e.keyedUnknown(k, e.objName[id], e.objType[id], nil, Lin{})
		e.lazyInit[id] = v
		return v
	}
	return nil
}

func joinPend(a, b []Pending) []Pending {
	r := a
	for _, p := range b {
		dup := false
		for _, q := range r {
			if q.Key == p.Key && q.Depth == p.Depth {
				dup = true
			}
		}
		if !dup {
			r = append(r[:len(r):len(r)], p)
		}
	}
	return r
}

// joinTrace merges traces; differing suffixes become a "may" event.
func (e *Engine) joinTrace(a, b *TNode) *TNode {
	ka, kb := "", ""
	if a != nil {
		ka = a.Key
	}
	if b != nil {
		kb = b.Key
	}
	if ka == kb {
		return a
	}
	// common prefix
	x, y := a, b
	n := func(t *TNode) int {
		if t == nil {
			return 0
		}
		return t.N
	}
	for n(x) > n(y) {
		x = x.Prev
	}
	for n(y) > n(x) {
		y = y.Prev
	}
	for x != nil && x.Key != y.Key {
		x, y = x.Prev, y.Prev
	}
	ev := Event{Kind: "may"}
	for _, t := range []*TNode{a, b} {
		var alt []Event
		for p := t; p != x && p != y; p = p.Prev {
			if p.Ev.Kind == "may" {
				alt = append(alt, p.Ev.Alt...)
			} else {
				alt = append(alt, p.Ev)
			}
		}
		ev.Alt = append(ev.Alt, alt...)
	}
	return pushTrace(x, ev)
}

func evKey(ev Event) string {
	k := ev.Kind + "@" + fmt.Sprint(ev.Pos) + "("
	for _, a := range ev.Args {
		k += valKey(a) + ","
	}
	for _, a := range ev.Alt {
		k += "|" + a.Kind + "@" + fmt.Sprint(a.Pos)
	}
	return k + ")"
}

func pushTrace(t *TNode, ev Event) *TNode {
	n := &TNode{Prev: t, Ev: ev, N: 1}
	k := ""
	if t != nil {
		n.N = t.N + 1
		k = t.Key
	}
	n.Key = k + ";" + evKey(ev)
	return n
}

func (j *joiner) lin(la, lb Lin) Lin {
	la, lb = canon(j.fa, la), canon(j.fb, lb)
	if la.Eq(lb) {
		return la
	}
	key := la.Key() + "|" + lb.Key()
	if m, ok := j.keys[key]; ok {
		return m
	}
	for _, p := range j.ints {
		d, d2 := la.Sub(p.la), lb.Sub(p.lb)
		if d.Eq(d2) {
			m := p.m.Add(d)
			j.keys[key] = m
			return m
		}
		s, s2 := la.Add(p.la), lb.Add(p.lb)
		if s.Eq(s2) {
			m := s.Sub(p.m)
			j.keys[key] = m
			return m
		}
	}
	// provably equal on both sides to one of them
	if len(la.T)+len(lb.T) <= 6 {
		if !la.IsConst() && j.fb.quickZero(la.Sub(lb)) {
			return la
		}
		if !lb.IsConst() && j.fa.quickZero(la.Sub(lb)) {
			return lb
		}
	}
	ra, rb := j.fa.TightRange(la), j.fb.TightRange(lb)
	lo, hi := ra.Lo, ra.Hi
	if rb.Lo < lo {
		lo = rb.Lo
	}
	if rb.Hi > hi {
		hi = rb.Hi
	}
	m := Of(j.e.U.Fresh("j", lo, hi))
	j.ints = append(j.ints, joined{la, lb, m})
	j.keys[key] = m
	return m
}

// facts joins the facts, with the new symbols defined on both sides.
func (j *joiner) facts() *Facts {
	var extra []Lin
	seen := map[string]bool{}
	cand := func(c Lin) {
		k := c.Key()
		if !seen[k] {
			seen[k] = true
			extra = append(extra, c)
		}
	}
	if len(j.ints) <= 40 {
		for _, p := range j.ints {
			j.fa.AssumeEQ(p.m.Sub(p.la))
			j.fb.AssumeEQ(p.m.Sub(p.lb))
		}
		for _, p := range j.ints {
			cand(p.m.Sub(p.la))
			cand(p.la.Sub(p.m))
			cand(p.m.Sub(p.lb))
			cand(p.lb.Sub(p.m))
			sub := func(f *Facts, l Lin) {
				if len(l.T) != 1 {
					return
				}
				s := l.T[0].S
				k := l.T[0].K
				if k != 1 && k != -1 {
					return
				}
				// s = k*(m - l.C)
				def := p.m.AddC(-l.C).Scale(k)
				for i, n := len(f.cons)-1, 0; i >= 0 && n < 40; i-- {
					if c := f.cons[i]; c.coef(s) != 0 {
						cand(c.subst(s, def))
						n++
					}
				}
			}
			sub(j.fa, p.la)
			sub(j.fb, p.lb)
		}
		for i := 0; i < len(j.ints) && i < 8; i++ {
			for k := i + 1; k < len(j.ints) && k < 8; k++ {
				d := j.ints[i].m.Sub(j.ints[k].m)
				cand(d)
				cand(d.Neg())
			}
		}
	}
	// the limits of other unknowns may move with a value that is constant on both sides
	nd := 0
	mine := map[int]bool{}
	for _, p := range j.ints {
		for _, t := range p.m.T {
			mine[t.S.ID] = true
		}
	}
	j.fa.iv.Diff(j.fb.iv, func(k int, _, _ *Interval) {
		if mine[k] || nd >= 8 {
			return
		}
		s := j.e.U.byID[k]
		x, y := j.fa.symRange(s), j.fb.symRange(s)
		if x == y {
			return
		}
		nd++
		for i, p := range j.ints {
			if i >= 8 || !p.la.IsConst() || !p.lb.IsConst() {
				continue
			}
			d := p.lb.C - p.la.C
			line := func(a, b, sign int64) {
				if a > -Inf && a < Inf && b > -Inf && b < Inf && (b-a)%d == 0 {
					cand(Of(s).AddC(-a).addMul(-(b-a)/d, p.m.AddC(-p.la.C)).Scale(sign))
				}
			}
			if d != 0 {
				line(x.Lo, y.Lo, 1)
				line(x.Hi, y.Hi, -1)
			}
		}
	})
	r := joinFacts(j.fa, j.fb)
	for _, c := range extra {
		if len(c.T) < 2 {
			continue
		}
		if rangeOf(c, r).Lo >= 0 {
			continue
		}
		if j.fa.Prove(c) && j.fb.Prove(c) && !r.Prove(c) {
			r.cons = append(r.cons, c)
			r.propagate(c)
		}
	}
	return r
}

func (j *joiner) val(x, y Value, t types.Type) Value {
	if x == nil || y == nil {
		if x == nil && y == nil {
			return nil
		}
		if t == nil {
			return nil
		}
		return nil
	}
	if kx, ok := x.(ArrV); ok {
		if ky, ok := y.(ArrV); ok {
			return ArrV{j.content(kx.C, ky.C)}
		}
	}
	j.depth++
	defer func() { j.depth-- }()
	switch a := x.(type) {
	case IntV:
		if b, ok := y.(IntV); ok {
			return IntV{j.lin(a.L, b.L)}
		}
	case BoolV:
		if b, ok := y.(BoolV); ok {
			if condKey(a.C) == condKey(b.C) {
				return a
			}
			ta, tb := j.fa.Eval(a.C), j.fb.Eval(b.C)
			if ta == tb && ta != Unknown {
				return BoolV{constCond(ta == True)}
			}
			if t2 := j.fb.Eval(a.C); t2 != Unknown && t2 == tb {
				return a
			}
			if t2 := j.fa.Eval(b.C); t2 != Unknown && t2 == ta {
				return b
			}
			return BoolV{Cond{Op: CB, B: j.e.U.freshB("j")}}
		}
	case StrV:
		if b, ok := y.(StrV); ok {
			a, b = j.fa.resolveStr(a), j.fb.resolveStr(b)
			if a.Key() == b.Key() {
				return a
			}
			if r := j.fa.resolveStr(b); r.Key() == a.Key() {
				return b
			}
			if r := j.fb.resolveStr(a); r.Key() == b.Key() {
				return a
			}
			s := j.e.U.FreshStr("j")
			ia, ib := j.fa.Range(j.e.U.StrLen(a)), j.fb.Range(j.e.U.StrLen(b))
			sym := s.P[0].Sym
			sym.MinLen, sym.MaxLen = ia.Lo, ia.Hi
			if ib.Lo < sym.MinLen {
				sym.MinLen = ib.Lo
			}
			if ib.Hi > sym.MaxLen {
				sym.MaxLen = ib.Hi
			}
			return s
		}
	case StructV:
		if b, ok := y.(StructV); ok && t != nil {
			if s, ok := t.Underlying().(*types.Struct); ok && len(a.F) == len(b.F) {
				r := StructV{F: make([]Value, len(a.F))}
				for i := range a.F {
					r.F[i] = j.val(a.F[i], b.F[i], s.Field(i).Type())
				}
				return r
			}
		}
	case TupleV:
		if b, ok := y.(TupleV); ok && len(a) == len(b) {
			var tt *types.Tuple
			if t != nil {
				tt, _ = t.(*types.Tuple)
			}
			r := make(TupleV, len(a))
			for i := range a {
				var et types.Type
				if tt != nil && i < tt.Len() {
					et = tt.At(i).Type()
				}
				r[i] = j.val(a[i], b[i], et)
			}
			return r
		}
	case PtrV:
		if b, ok := y.(PtrV); ok {
			na, nb := j.fa.nilOf(a.Nil, a.Vid), j.fb.nilOf(b.Nil, b.Vid)
			if na == True && nb == True {
				return a
			}
			if na == True || nb == True || (a.Obj == b.Obj && len(a.Path) == len(b.Path)) {
				r := a
				if na == True {
					r = b
				}
				if na != True && nb != True {
					p, ok := j.path(a.Path, b.Path)
					if !ok {
						return j.choice(x, y, t)
					}
					r.Path = p
				}
				if na == nb {
					r.Nil = na
				} else {
					r.Nil = Unknown
				}
				if r.Nil == Unknown && !(a.Vid == b.Vid && a.Nil == b.Nil) {
					r.Vid = j.e.U.Vid()
				}
				return r
			}
			return j.choice(x, y, t)
		}
	case SliceV:
		if b, ok := y.(SliceV); ok {
			return j.slice(a, b, t)
		}
	case MapV:
		if b, ok := y.(MapV); ok {
			if a.Obj == b.Obj && a.Nil == b.Nil {
				return a
			}
			return j.choice(x, y, t)
		}
	case IfaceV:
		if b, ok := y.(IfaceV); ok {
			na, nb := j.fa.nilOf(a.Nil, a.Vid), j.fb.nilOf(b.Nil, b.Vid)
			if na == True && nb == True {
				return a
			}
			if valKey(a) == valKey(b) {
				return a
			}
			r := IfaceV{Nil: Unknown}
			if na == nb {
				r.Nil = na
			}
			if r.Nil == Unknown {
				r.Vid = j.e.U.Vid()
			}
			switch {
			case na == True:
				r.Dyn, r.Val, r.Err = b.Dyn, b.Val, b.Err
			case nb == True:
				r.Dyn, r.Val, r.Err = a.Dyn, a.Val, a.Err
			case a.Dyn != nil && b.Dyn != nil && types.Identical(a.Dyn, b.Dyn):
				r.Dyn = a.Dyn
				r.Val = j.val(a.Val, b.Val, a.Dyn)
			case isErrorType(orErr(t)):
				r.Vid = j.e.U.Vid()
				if a.Err != nil && b.Err != nil && a.Err.Kind == b.Err.Kind {
					r.Err = a.Err
				}
			default:
				return j.choice(x, y, t)
			}
			return r
		}
	case FuncV:
		if valKey(x) == valKey(y) {
			return x
		}
		return j.choice(x, y, t)
	case *MapC:
		if b, ok := y.(*MapC); ok {
			if a == b {
				return a
			}
			return j.e.joinMaps(j.fa, j.fb, a, b)
		}
	case RangeV:
		if b, ok := y.(RangeV); ok {
			if a.I == b.I && a.Sum == b.Sum {
				return a
			}
			a.Sum = true
			return a
		}
	case TopV:
		return x
	case ChoiceV:
		return j.choice(x, y, t)
	}
	if _, ok := y.(ChoiceV); ok {
		return j.choice(x, y, t)
	}
	if valKey(x) == valKey(y) {
		return x
	}
	if t == nil {
		return nil
	}
	return j.e.Unknown(t, "join")
}

func orErr(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Int]
	}
	return t
}

func (j *joiner) path(a, b []PE) ([]PE, bool) {
	r := make([]PE, len(a))
	for i := range a {
		if a[i].Field != b[i].Field {
			return nil, false
		}
		r[i] = a[i]
		if a[i].Field < 0 {
			r[i].Idx = j.lin(a[i].Idx, b[i].Idx)
		}
	}
	return r, true
}

func (j *joiner) choice(x, y Value, t types.Type) Value {
	var alts []Value
	seen := map[string]bool{}
	add := func(v Value) {
		vs := []Value{v}
		if c, ok := v.(ChoiceV); ok {
			vs = c.Alts
		}
		for _, a := range vs {
			k := valKey(a)
			if !seen[k] {
				seen[k] = true
				alts = append(alts, a)
			}
		}
	}
	add(x)
	add(y)
	if len(alts) == 1 {
		return alts[0]
	}
	if len(alts) > 10 && t != nil {
		return j.e.Unknown(t, "choice")
	}
	return ChoiceV{alts}
}

func (j *joiner) slice(a, b SliceV, t types.Type) Value {
	na, nb := j.fa.nilOf(a.Nil, a.Vid), j.fb.nilOf(b.Nil, b.Vid)
	if na == True && nb == True {
		return a
	}
	r := a
	r.Vid = 0
	if na == nb {
		r.Nil = na
	} else {
		r.Nil = Unknown
	}
	if r.Nil == Unknown {
		if a.Vid == b.Vid && a.Nil == b.Nil {
			r.Vid = a.Vid
		} else {
			r.Vid = j.e.U.Vid()
		}
	}
	switch {
	case na == True:
		r.Obj, r.Path, r.Off = b.Obj, b.Path, b.Off
	case nb == True:
		r.Obj, r.Path, r.Off = a.Obj, a.Path, a.Off
	case a.Obj == b.Obj && pathEq(a.Path, b.Path):
		r.Off = j.lin(a.Off, b.Off)
	default:
		// distinct backing arrays: a fresh object standing for either
		elem := types.Type(byteType)
		if t != nil {
			if s, ok := t.Underlying().(*types.Slice); ok {
				elem = s.Elem()
			}
		}
		ca, cb := j.e.Content(j.a, a), j.e.Content(j.b, b)
		if ca == nil || cb == nil {
			return j.e.Unknown(t, "join")
		}
		if !a.Off.IsConst() || a.Off.C != 0 {
			ca = j.e.writeCopy(j.fa, j.e.zeroContent(a.Len, elem), Num(0), a.Len, ca, a.Off)
		}
		if !b.Off.IsConst() || b.Off.C != 0 {
			cb = j.e.writeCopy(j.fb, j.e.zeroContent(b.Len, elem), Num(0), b.Len, cb, b.Off)
		}
		c := j.content(ca, cb)
		j.e.nextObj++
		id := j.e.nextObj
		j.e.serial++
		j.e.birth[id] = j.e.serial
		j.e.objType[id] = types.NewSlice(elem)
		j.e.allocSite[id] = "join"
		j.e.aliasOf[id] = union(j.e.aliasClosure(a.Obj), j.e.aliasClosure(b.Obj))
		j.heap = j.heap.Set(id, ArrV{c})
		r.Obj, r.Path, r.Off = id, nil, Num(0)
	}
	r.Len = j.lin(a.Len, b.Len)
	r.Cap = j.lin(a.Cap, b.Cap)
	return r
}

func (e *Engine) aliasClosure(o int) []int {
	if a, ok := e.aliasOf[o]; ok {
		return a
	}
	return []int{o}
}

func union(a, b []int) []int {
	r := append([]int{}, a...)
	in := map[int]bool{}
	for _, x := range a {
		in[x] = true
	}
	for _, x := range b {
		if !in[x] {
			in[x] = true
			r = append(r, x)
		}
	}
	return r
}

// content joins two contents.
func (j *joiner) content(a, b *Content) *Content {
	if a == b {
		return a
	}
	k := [2]int{a.ID, b.ID}
	if c, ok := j.conts[k]; ok {
		return c
	}
	r := j.content0(a, b)
	j.conts[k] = r
	return r
}

func (j *joiner) content0(a, b *Content) *Content {
	e := j.e
	if a.Kind == KZero && b.Kind == KZero && a.N.Eq(b.N) {
		return a
	}
	if a.Kind == KConst && b.Kind == KConst && a.Data == b.Data {
		return a
	}
	if a.Kind == KSum && b.Kind == KSum {
		g := e.joinGen(a.Sum, b.Sum, a.Elem)
		if valKey(g) == valKey(a.Sum) {
			return a
		}
		if valKey(g) == valKey(b.Sum) {
			return b
		}
		r := e.newContent(KSum, a.N, a.Elem)
		r.Sum = g
		return r
	}
	if a.Kind == KSum || b.Kind == KSum {
		x, y := a, b
		if x.Kind != KSum {
			x = e.sumContent(j.fa, x)
		}
		if y.Kind != KSum {
			y = e.sumContent(j.fb, y)
		}
		return j.content0(x, y)
	}
	n := a.N
	if !a.N.Eq(b.N) {
		n = j.lin(a.N, b.N)
	}
	// common ancestor with few single-element writes
	depth := map[int]int{}
	i := 0
	for p := a; ; p = p.Prev {
		depth[p.ID] = i
		i++
		if p.Kind != KWrite || i > 5000 {
			break
		}
	}
	var anc *Content
	nb := 0
	for p := b; ; p = p.Prev {
		if _, ok := depth[p.ID]; ok {
			anc = p
			break
		}
		nb++
		if p.Kind != KWrite || nb > 5000 {
			break
		}
	}
	if anc != nil && a.N.Eq(b.N) {
		nw := depth[anc.ID]
		if nw+nb <= 80 {
			offs := []Lin{}
			ok := true
			seen := map[string]bool{}
			collect := func(c *Content) {
				for p := c; p != anc; p = p.Prev {
					if p.Val == nil || p.Src != nil || p.Havoc || !p.Len.IsConst() || p.Len.C != 1 {
						ok = false
						return
					}
					if !seen[p.Off.Key()] {
						seen[p.Off.Key()] = true
						offs = append(offs, p.Off)
					}
				}
			}
			collect(a)
			collect(b)
			// distinct offsets must be provably different on both sides
			for x := 0; ok && x < len(offs); x++ {
				for y := x + 1; ok && y < len(offs); y++ {
					d := offs[x].Sub(offs[y])
					if d.IsConst() {
						continue
					}
					if len(offs) > 8 || !j.fa.ProveNe(d) || !j.fb.ProveNe(d) {
						ok = false
					}
				}
			}
			if ok {
				r := anc
				for k := len(offs) - 1; k >= 0; k-- {
					va := e.read(j.fa, a, offs[k], nil)
					vb := e.read(j.fb, b, offs[k], nil)
					v := j.val(va, vb, a.Elem)
					r = e.writeElem(j.fa, r, offs[k], v)
				}
				return r
			}
		}
	}
	r := e.newContent(KJoin, n, a.Elem)
	r.A, r.B = a, b
	if j.separate() {
		r.Guards = []Cond{j.ga, j.gb}
	}
	return r
}

// joinMaps joins two map contents.
func (e *Engine) joinMaps(fa, fb *Facts, a, b *MapC) *MapC {
	if a.Base == b.Base && len(a.Ents) == len(b.Ents) && valKey(a.KSum) == valKey(b.KSum) && valKey(a.VSum) == valKey(b.VSum) {
		same := true
		for i := range a.Ents {
			if valKey(a.Ents[i].K) != valKey(b.Ents[i].K) || valKey(a.Ents[i].V) != valKey(b.Ents[i].V) || a.Ents[i].Del != b.Ents[i].Del {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	if a.Base == MUnknown || b.Base == MUnknown {
		return e.newMap(MUnknown, a.T)
	}
	return e.sumMap(fa, fb, a, b)
}

// sumMap is the summary of the entries of both maps.
func (e *Engine) sumMap(fa, fb *Facts, a, b *MapC) *MapC {
	r := e.newMap(MSum, a.T)
	r.allC = false
	add := func(k, v Value) {
		if r.KSum == nil {
			r.KSum, r.VSum = k, v
			return
		}
		r.KSum = e.joinGen(r.KSum, k, a.T.Key())
		r.VSum = e.joinGen(r.VSum, v, a.T.Elem())
	}
	for i, m := range []*MapC{a, b} {
		f := fa
		if i == 1 {
			f = fb
		}
		if m == nil {
			continue
		}
		if m.Base == MUnknown {
			return e.newMap(MUnknown, a.T)
		}
		if m.KSum != nil {
			add(m.KSum, m.VSum)
		}
		for _, en := range m.Ents {
			if !en.Del {
				add(e.generalize(f, en.K, a.T.Key()), e.generalize(f, en.V, a.T.Elem()))
			}
		}
	}
	return r
}
