package ai

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopRun is an active loop.
type loopRun struct {
	fr    *frame
	l     *loop
	tests map[int]*loopTest
	// streak counts the last iterations in a row with an undecided test.
	streak int
}

type loopTest struct {
	bad  bool // undecided at least once in this iteration
	good bool // definitely "stay" at least once
	key  string
	prev string
}

// noteTest records the outcome of a branch for progress decisions of the
// enclosing loops of the frame.
func (e *Engine) noteTest(fr *frame, st *State, b *ssa.BasicBlock, t Tri, in *ssa.If) {
	for i := len(e.loopStack) - 1; i >= 0; i-- {
		r := e.loopStack[i]
		if r.fr != fr {
			break
		}
		if !r.l.in[b.Index] {
			continue
		}
		in0, in1 := r.l.in[b.Succs[0].Index], r.l.in[b.Succs[1].Index]
		if in0 && in1 {
			continue
		}
		lt := r.tests[b.Index]
		if lt == nil {
			lt = &loopTest{}
			r.tests[b.Index] = lt
		}
		switch {
		case t == Unknown:
			lt.bad = true
			if debugLoops {
				fmt.Fprintf(os.Stderr, "undecided %s %s\n", e.Pos(in.Cond.Pos()), valStr(e.val(fr, st, in.Cond)))
			}
		case (t == True && in0) || (t == False && in1):
			lt.good = true
			if r.streak > 1 {
				lt.key = e.testKey(fr, st, in)
			}
		}
	}
}

func (e *Engine) testKey(fr *frame, st *State, in *ssa.If) string {
	if x, ok := in.Cond.(*ssa.Extract); ok {
		if _, ok := x.Tuple.(*ssa.Next); ok {
			return strconv.Itoa(e.steps) // always another
		}
	}
	bo, ok := in.Cond.(*ssa.BinOp)
	if !ok {
		return ""
	}
	return valKey(e.val(fr, st, bo.X)) + "~" + valKey(e.val(fr, st, bo.Y))
}

var debugLoops = os.Getenv("AI_DEBUG_LOOPS") != ""

// goingOn adds to the states before an iteration what is known, after it, of the symbols there were before it.
func (e *Engine) goingOn(prev, cur []*State, known int) {
	if len(prev) != 1 {
		return
	}
	old := func(l Lin) bool {
		for _, t := range l.T {
			if t.S.ID > known {
				return false
			}
		}
		return true
	}
	f := prev[0].F
	add := func(l Lin) {
		for _, c := range cur[1:] {
			if !c.F.Prove(l) {
				return
			}
		}
		f.AssumeGE(l)
	}
	c := cur[0].F
	f0 := f.clone()
	f0.iv.Diff(c.iv, func(k int, _, y *Interval) {
		s := c.u.byID[k]
		if y == nil || s == nil || s.ID > known {
			return
		}
		if y.Lo > -Inf {
			add(Of(s).AddC(-y.Lo))
		}
		if y.Hi < Inf {
			add(Num(y.Hi).Sub(Of(s)))
		}
	})
	n := 0
	for n < len(f0.cons) && n < len(c.cons) && f0.cons[n].Eq(c.cons[n]) {
		n++
	}
	for _, l := range c.cons[n:] {
		if old(l) {
			add(l)
		}
	}
}

// runLoop executes a loop to completion.
func (e *Engine) runLoop(fr *frame, l *loop, entry []*State) []edgeState {
	fi := fr.fi
	run := &loopRun{fr: fr, l: l, tests: map[int]*loopTest{}}
	e.loopStack = append(e.loopStack, run)
	defer func() { e.loopStack = e.loopStack[:len(e.loopStack)-1] }()
	outParts := map[int]*parts{}
	emit := func(es edgeState) {
		p := outParts[es.to.Index]
		if p == nil {
			p = &parts{}
			outParts[es.to.Index] = p
		}
		e.addPart(p, fi.live[es.to.Index], fi, es.st)
	}
	cur := entry
	lastKey := ""
	for it := 0; ; it++ {
		for _, t := range run.tests {
			t.bad, t.good = false, false
			t.prev = t.key
		}
		var prev []*State
		for _, s := range cur {
			prev = append(prev, s.clone())
		}
		known := e.U.next
		res := e.region(fr, l, l.header, cur)
		cur = nil
		for _, es := range res {
			if es.to == l.header {
				cur = append(cur, es.st)
			}
		}
		flush := func() {
			for _, es := range res {
				if es.to != l.header {
					emit(es)
				}
			}
		}
		if len(cur) == 0 {
			flush()
			break
		}
		progress, undec, moved := false, false, false
		for _, t := range run.tests {
			if t.good && !t.bad {
				progress = true
			}
			if t.bad {
				undec = true
			}
			if t.good && !t.bad && t.key != t.prev {
				moved = true
			}
		}
		if undec {
			run.streak++
		} else {
			run.streak = 0
		}
		// a test that is decided in the same way each time bounds nothing
		if run.streak > 3 && !moved {
			progress = false
		}
		// header registers must actually change for peeling to make sense
		if progress && it >= 8 {
			k := ""
			for _, s := range cur {
				k += e.hdrKey(s, fi.live[l.header.Index])
			}
			if k == lastKey {
				progress = false
			}
			lastKey = k
		}
		if !progress {
			// summarise from before the iteration that was not decided; if it has only one way out of the loop
			// then that is taken care of, and the summary is of the runs that go on
			open := 0
			for _, t := range run.tests {
				if t.bad {
					open++
				}
			}
			if len(res)-len(cur) == 1 && open == 1 {
				flush()
				e.goingOn(prev, cur, known)
			}
			e.fixpoint(fr, l, prev, emit)
			break
		}
		flush()
		if it >= e.PeelMax {
			e.fixpoint(fr, l, cur, emit)
			break
		}
	}
	var out []edgeState
	for _, b := range fi.fn.Blocks {
		if p := outParts[b.Index]; p != nil {
			for _, s := range p.sts {
				out = append(out, edgeState{b, s})
			}
		}
	}
	return out
}

func (e *Engine) hdrKey(s *State, live []int) string {
	k := ""
	for _, i := range live {
		switch v := s.R[i].(type) {
		case IntV, SliceV, RangeV:
			k += valKey(v) + ";"
		}
	}
	return k
}

type intSlot struct {
	entry  Lin
	stride int64
	mode   int // 0 constant, 1 stride, 2 phi, 3 derived
	phi    *Sym
	typ    types.Type
	kind   string
	val    Lin // current header value
	derive func() Lin
	backs  []Lin // back values of the last pass (parallel to back states)
}

type fix struct {
	e       *Engine
	s0      *State
	t       *Sym
	sym0    int
	obj0    int
	pass0   int
	ints    map[string]*intSlot
	order   []string
	gen     map[string]Value
	changed bool
	own     map[string]int // slot -> own object
	nback   int
	grow    map[string]int
	curB    *State
	bi      int
	con0    int              // contents made before the loop
	fills   map[string]*fill // arrays the loop fills element by element
	fillOrd []string
	depth   int
	limits  []Lin // what values are compared with for equality in the loop
}

// noteEq records, for the loops under way, that x and y are compared for equality.
func (e *Engine) noteEq(l Lin) {
	for _, fx := range e.fixes {
		if len(fx.limits) >= 6 || fx.depth != len(e.stack) {
			continue
		}
		var in *Term
		n := 0
		for i := range l.T {
			if l.T[i].S.ID > fx.sym0 {
				in = &l.T[i]
				n++
			}
		}
		if n != 1 || (in.K != 1 && in.K != -1) {
			continue
		}
		lim := Of(in.S).Sub(l.Scale(in.K)) // in.S == lim
		dup := false
		for _, o := range fx.limits {
			dup = dup || o.Eq(lim)
		}
		if !dup {
			fx.limits = append(fx.limits, lim)
		}
	}
}

func (e *Engine) fixpoint(fr *frame, l *loop, cur []*State, emit func(edgeState)) {
	fi := fr.fi
	live := fi.live[l.header.Index]
	ty := func(i int) types.Type { return fi.vals[i].Type() }
	s0 := cur[0]
	for _, s := range cur[1:] {
		s0 = e.join(s0, s, live, ty)
	}
	fx := &fix{e: e, s0: s0, ints: map[string]*intSlot{}, gen: map[string]Value{}, own: map[string]int{}, grow: map[string]int{}, fills: map[string]*fill{}}
	fx.con0, fx.depth = e.U.conID, len(e.stack)
	fx.sym0 = e.U.next
	fx.t = e.U.Fresh("T", 0, Inf)
	fx.t.Kind = SymIter
	fx.obj0 = e.nextObj
	H := s0.clone()
	H.FI = PMap[int]{}
	var cands []Lin
	haveCands := false
	var exits, backs []edgeState
	runBody := func(h *State) {
		st := h.clone()
		e.fixes = append(e.fixes, fx)
		defer func() { e.fixes = e.fixes[:len(e.fixes)-1] }()
		// assume the invariants
		for _, k := range fx.order {
			fx.assumeInt(st, fx.ints[k])
		}
		for _, c := range cands {
			st.F.AssumeGE(c)
		}
		exits, backs = nil, nil
		fx.pass0 = e.nextObj
		if st.F.Dead {
			return
		}
		for _, es := range e.region(fr, l, l.header, []*State{st}) {
			if es.to == l.header {
				backs = append(backs, es)
			} else {
				exits = append(exits, es)
			}
		}
	}
	e.recording++
	rounds := 0
	for {
		rounds++
		if rounds > 40 {
			e.recording--
			panic(undecided{why: "loop at " + e.Pos(l.header.Instrs[0].Pos()) + " in " + fi.fn.String() + " does not stabilise", unbounded: true})
		}
		runBody(H)
		// structural generalisation
		fx.changed = false
		fx.nback = len(backs)
		for _, s := range fx.ints {
			s.backs = nil
		}
		for _, f := range fx.fills {
			f.seen = 0
		}
		nh := H.clone()
		for bi, b := range backs {
			fx.curB, fx.bi = b.st, bi
			for _, i := range live {
				nh.R[i] = fx.merge("r"+strconv.Itoa(i), s0.R[i], nh.R[i], b.st.R[i], ty(i), b.st)
			}
			fx.heap(nh, b.st, rounds)
			fx.misc(nh, b.st)
		}
		for _, k := range fx.fillOrd {
			f := fx.fills[k]
			if f.mode == 1 && f.seen != len(backs) {
				fx.unfill(k, f)
			}
			if f.own && f.cur != nil {
				nh.Heap = nh.Heap.Set(fx.own[strings.TrimPrefix(k, "own")], ArrV{f.cur})
			}
		}
		H = nh
		if fx.changed {
			// derived relations between integer slots, then retry
			cands, haveCands = nil, false
			H = fx.rebuild(H, live, ty)
			continue
		}
		if !haveCands {
			haveCands = true
			cands = fx.candidates(backs)
			if len(cands) > 0 {
				continue
			}
			break
		}
		// Houdini
		var keep []Lin
		dropped := false
		for _, c := range cands {
			ok := true
			for bi, b := range backs {
				if !fx.holdsAtBack(c, b.st, bi) {
					ok = false
					break
				}
			}
			if ok {
				keep = append(keep, c)
			} else {
				dropped = true
			}
		}
		cands = keep
		if !dropped {
			break
		}
	}
	e.recording--
	if debugLoops {
		fmt.Fprintf(os.Stderr, "LOOP %s %s rounds=%d backs=%d\n", fi.fn, e.Pos(loopPos(l)), rounds, len(backs))
		for _, k := range fx.order {
			s := fx.ints[k]
			fmt.Fprintf(os.Stderr, "   slot %s mode=%d val=%v entry=%v\n", k, s.mode, s.val, s.entry)
		}
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "   inv %v >= 0\n", c)
		}
	}
	if e.recording == 0 {
		runBody(H)
		if e.OnLoop != nil {
			// note the values this run carries back in local variables
			fx.nback = len(backs)
			for _, s := range fx.ints {
				s.backs = nil
			}
			nh := H.clone()
			for bi, b := range backs {
				fx.curB, fx.bi = b.st, bi
				for _, i := range live {
					nh.R[i] = fx.merge("r"+strconv.Itoa(i), s0.R[i], nh.R[i], b.st.R[i], ty(i), b.st)
				}
			}
			ok, detail := fx.terminates(l, backs)
			e.OnLoop(fi.fn, loopPos(l), ok, detail)
		}
	}
	for _, es := range exits {
		fi2 := s0.FI
		es.st.FI.Each(func(k, v int) {
			if v < 0 {
				fi2 = fi2.Set(k, v)
			}
		})
		es.st.FI = fi2
		emit(es)
	}
}

func loopPos(l *loop) (p tokenPos) {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for i := range l.in {
		for _, in := range l.header.Parent().Blocks[i].Instrs {
			if in.Pos().IsValid() && (!p.IsValid() || in.Pos() < p) {
				p = in.Pos()
			}
		}
	}
	return p
}

func (fx *fix) assumeInt(st *State, s *intSlot) {
	if lo, hi, ok := intBoundsOf(s.typ); ok {
		if lo > -Inf {
			st.F.AssumeGE(s.val.AddC(-lo))
		}
		if hi < Inf {
			st.F.AssumeGE(Num(hi).Sub(s.val))
		}
	}
	switch s.kind {
	case "off", "len":
		st.F.AssumeGE(s.val)
	}
}

func intBoundsOf(t types.Type) (int64, int64, bool) {
	if t == nil {
		return 0, 0, false
	}
	return intBounds(t)
}

// intMerge handles one integer slot.
func (fx *fix) intMerge(key string, entry, h, b Lin, t types.Type, kind string) Lin {
	s := fx.ints[key]
	if s == nil {
		s = &intSlot{entry: entry, val: h, typ: t, kind: kind}
		fx.ints[key] = s
		fx.order = append(fx.order, key)
	}
	for len(s.backs) < fx.bi {
		s.backs = append(s.backs, s.val)
	}
	if len(s.backs) == fx.bi {
		s.backs = append(s.backs, b)
	}
	f := fx.curB.F
	h = s.val
	switch s.mode {
	case 0:
		if h.Eq(b) || f.quickZero(h.Sub(b)) {
			return s.val
		}
		d := b.Sub(h)
		if k, ok := f.Const(d); ok && k != 0 {
			s.mode, s.stride = 1, k
			s.val = s.entry.addMul(k, Of(fx.t))
			fx.changed = true
			return s.val
		}
		if f.ProveEq(d) {
			return s.val
		}
		fx.toPhi(s, key)
	case 1:
		d := b.Sub(h).AddC(-s.stride)
		if d.IsConst() && d.C == 0 || f.quickZero(d) || f.ProveEq(d) {
			return s.val
		}
		fx.toPhi(s, key)
	}
	return s.val
}

func (fx *fix) toPhi(s *intSlot, key string) {
	s.mode = 2
	lo, hi := int64(-Inf), int64(Inf)
	if l, h, ok := intBoundsOf(s.typ); ok {
		lo, hi = l, h
	}
	if s.kind == "off" || s.kind == "len" {
		lo = 0
	}
	s.phi = fx.e.U.Fresh("φ"+key, lo, hi)
	s.val = Of(s.phi)
	fx.changed = true
}

// rebuild recomputes header integer leaves after slot modes changed, trying
// to express slots as offsets of each other.
func (fx *fix) rebuild(h *State, live []int, ty func(int) types.Type) *State {
	// derive relations among phi slots using the last back values
	var phis []*intSlot
	for _, k := range fx.order {
		s := fx.ints[k]
		if s.mode == 2 {
			phis = append(phis, s)
		}
	}
	for i, s := range phis {
		if len(s.backs) != fx.nback || fx.nback == 0 {
			continue
		}
		for _, p := range phis[:i] {
			if p.mode != 2 || len(p.backs) != fx.nback {
				continue
			}
			// s - p invariant?
			d := s.entry.Sub(p.entry)
			sm := s.entry.Add(p.entry)
			okd, oks := fx.outer(d), fx.outer(sm)
			for b := range s.backs {
				if okd && !s.backs[b].Sub(p.backs[b]).Eq(d) {
					okd = false
				}
				if oks && !s.backs[b].Add(p.backs[b]).Eq(sm) {
					oks = false
				}
			}
			if okd {
				pp, dd := p, d
				s.mode = 3
				s.derive = func() Lin { return pp.val.Add(dd) }
			} else if oks {
				pp, ss := p, sm
				s.mode = 3
				s.derive = func() Lin { return ss.Sub(pp.val) }
			}
			if s.mode == 3 {
				s.val = s.derive()
				break
			}
		}
	}
	r := h.clone()
	for _, i := range live {
		r.R[i] = fx.refresh("r"+strconv.Itoa(i), r.R[i], ty(i))
	}
	var ks []int
	r.Heap.Diff(fx.s0.Heap, func(k int, a, b *Value) {
		if a != nil {
			ks = append(ks, k)
		}
	})
	for _, k := range ks {
		v, _ := r.Heap.Get(k)
		r.Heap = r.Heap.Set(k, fx.refresh("h"+strconv.Itoa(k), v, fx.e.objType[k]))
	}
	return r
}

// outer: expression over symbols that exist before the loop.
func (fx *fix) outer(l Lin) bool {
	for _, t := range l.T {
		if t.S.ID > fx.sym0 {
			return false
		}
	}
	return true
}

// refresh re-reads integer leaves from the slots.
func (fx *fix) refresh(key string, v Value, t types.Type) Value {
	get := func(k string, l Lin) Lin {
		if s, ok := fx.ints[k]; ok {
			return s.val
		}
		return l
	}
	switch x := v.(type) {
	case IntV:
		return IntV{get(key, x.L)}
	case ArrV:
		if f := fx.fills[key]; f != nil && f.cur != nil {
			return ArrV{f.cur}
		}
	case SliceV:
		x.Off, x.Len, x.Cap = get(key+"#o", x.Off), get(key+"#l", x.Len), get(key+"#c", x.Cap)
		return x
	case StructV:
		r := StructV{F: make([]Value, len(x.F))}
		st, _ := t.Underlying().(*types.Struct)
		for i := range x.F {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			r.F[i] = fx.refresh(key+"."+strconv.Itoa(i), x.F[i], ft)
		}
		return r
	case PtrV:
		for i, p := range x.Path {
			if p.Field < 0 {
				np := append([]PE{}, x.Path...)
				np[i].Idx = get(key+"@"+strconv.Itoa(i), p.Idx)
				x.Path = np
			}
		}
		return x
	}
	return v
}

// born: object created inside the loop (not visible to the header).
func (fx *fix) born(id int) bool {
	if id <= fx.obj0 {
		return false
	}
	for _, o := range fx.own {
		if o == id {
			return false
		}
	}
	if _, lazy := fx.e.lazyKey[id]; lazy && id <= fx.pass0 {
		return false
	}
	return true
}

func (fx *fix) once(key string, mk func() Value) Value {
	if v, ok := fx.gen[key]; ok {
		return v
	}
	fx.changed = true
	v := mk()
	fx.gen[key] = v
	return v
}

// merge generalises header value h (from entry value s) with back value b.
func (fx *fix) merge(key string, s, h, b Value, t types.Type, bst *State) Value {
	if h == nil || b == nil {
		return h
	}
	if g, ok := fx.gen[key]; ok {
		// already fully generalised
		switch g.(type) {
		case BoolV, StrV, LazyV, TopV:
			return h
		}
	}
	e := fx.e
	switch x := h.(type) {
	case IntV:
		if y, ok := b.(IntV); ok {
			en := x.L
			if sv, ok := s.(IntV); ok {
				en = sv.L
			}
			return IntV{fx.intMerge(key, en, x.L, y.L, t, "")}
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			if condKey(x.C) == condKey(y.C) {
				return h
			}
			tx, ty := bst.F.Eval(x.C), bst.F.Eval(y.C)
			if tx == ty && tx != Unknown {
				if fx.s0.F.Eval(x.C) == tx {
					return h
				}
			}
			return fx.once(key, func() Value { return BoolV{Cond{Op: CB, B: e.U.freshB("φ" + key)}} })
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			if x.Key() == y.Key() {
				return h
			}
			return fx.once(key, func() Value { return e.U.FreshStr("φ" + key) })
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x.F) == len(y.F) {
			sv, _ := s.(StructV)
			st, _ := t.Underlying().(*types.Struct)
			r := StructV{F: make([]Value, len(x.F))}
			for i := range x.F {
				var es Value
				if i < len(sv.F) {
					es = sv.F[i]
				} else {
					es = x.F[i]
				}
				r.F[i] = fx.merge(key+"."+strconv.Itoa(i), es, x.F[i], y.F[i], st.Field(i).Type(), bst)
			}
			return r
		}
	case TupleV:
		return h // tuples are consumed within the block
	case ArrV:
		if y, ok := b.(ArrV); ok {
			return ArrV{fx.content(key, x.C, y.C, bst)}
		}
	case *MapC:
		if y, ok := b.(*MapC); ok {
			if x == y {
				return h
			}
			m := e.joinMaps(fx.s0.F, bst.F, x, fx.genMap(y, bst))
			if m == x || (m.Base == x.Base && len(m.Ents) == 0 && len(x.Ents) == 0 && valKey(m.KSum) == valKey(x.KSum) && valKey(m.VSum) == valKey(x.VSum)) {
				return h
			}
			fx.grow[key]++
			if fx.grow[key] > 4 {
				m = e.newMap(MUnknown, x.T)
				if fx.grow[key] > 5 {
					return h
				}
			}
			fx.changed = true
			return m
		}
	case PtrV:
		if y, ok := b.(PtrV); ok {
			nx, ny := fx.s0.F.nilOf(x.Nil, x.Vid), bst.F.nilOf(y.Nil, y.Vid)
			if x.Obj == y.Obj && len(x.Path) == len(y.Path) {
				r := x
				same := true
				var np []PE
				for i := range x.Path {
					if x.Path[i].Field != y.Path[i].Field {
						same = false
						break
					}
					p := x.Path[i]
					if p.Field < 0 {
						p.Idx = fx.intMerge(key+"@"+strconv.Itoa(i), p.Idx, p.Idx, y.Path[i].Idx, nil, "")
					}
					np = append(np, p)
				}
				if same {
					r.Path = np
					if nx != ny && x.Nil != Unknown {
						r.Nil, r.Vid = Unknown, e.U.Vid()
						fx.changed = true
					}
					return r
				}
			}
			return fx.ptr(key, h, b, nx, ny, t)
		}
		if _, ok := b.(ChoiceV); ok {
			return fx.choice(key, h, b, t)
		}
	case SliceV:
		if y, ok := b.(SliceV); ok {
			return fx.slice(key, s, x, y, t, bst)
		}
	case IfaceV:
		if y, ok := b.(IfaceV); ok {
			if valKey(x) == valKey(y) {
				return h
			}
			nx, ny := fx.s0.F.nilOf(x.Nil, x.Vid), bst.F.nilOf(y.Nil, y.Vid)
			if nx == True && ny == True {
				return h
			}
			if x.Nil == Unknown && x.Dyn == nil && x.Vid != 0 {
				if _, ok := fx.gen[key]; ok {
					return h
				}
			}
			return fx.once(key, func() Value {
				r := IfaceV{Nil: Unknown, Vid: e.U.Vid()}
				if nx == ny {
					r.Nil = nx
				}
				if x.Dyn != nil && y.Dyn != nil && types.Identical(x.Dyn, y.Dyn) {
					if _, isP := x.Val.(PtrV); isP {
						r.Dyn = x.Dyn
						r.Val = e.Unknown(x.Dyn, "φ")
						if pv, ok := r.Val.(PtrV); ok {
							pv.Nil = False
							r.Val = pv
						}
					}
				}
				return r
			})
		}
	case MapV:
		if y, ok := b.(MapV); ok {
			if x.Obj == y.Obj {
				return h
			}
			return fx.once(key, func() Value { return e.Unknown(t, "φ"+key) })
		}
	case FuncV:
		if valKey(h) == valKey(b) {
			return h
		}
		return fx.choice(key, h, b, t)
	case ChoiceV:
		return fx.choice(key, h, b, t)
	case RangeV:
		if y, ok := b.(RangeV); ok {
			if x.Sum || x.I == y.I {
				return h
			}
			x.Sum = true
			fx.changed = true
			return x
		}
	case LazyV, TopV, AnyV:
		return h
	}
	if valKey(h) == valKey(b) {
		return h
	}
	return fx.once(key, func() Value { return e.Unknown(t, "φ"+key) })
}

func (fx *fix) ptr(key string, h, b Value, nx, ny Tri, t types.Type) Value {
	x, y := h.(PtrV), b.(PtrV)
	e := fx.e
	if g, ok := fx.gen[key]; ok {
		return g
	}
	if nx == True && ny == True {
		return h
	}
	if ny == True { // nil on the back edge, entry pointer otherwise
		if x.Nil == Unknown {
			return h
		}
		fx.changed = true
		x.Nil, x.Vid = Unknown, e.U.Vid()
		return x
	}
	if !fx.born(y.Obj) && nx == True {
		fx.changed = true
		y.Nil, y.Vid = Unknown, e.U.Vid()
		return y
	}
	if !fx.born(y.Obj) {
		return fx.choice(key, h, b, t)
	}
	return fx.once(key, func() Value {
		v := e.Unknown(t, "φ"+key)
		if p, ok := v.(PtrV); ok && nx == False && ny == False {
			p.Nil, p.Vid = False, 0
			return p
		}
		return v
	})
}

func (fx *fix) choice(key string, h, b Value, t types.Type) Value {
	if g, ok := fx.gen[key]; ok {
		return g
	}
	bornIn := func(v Value) bool {
		switch v := v.(type) {
		case PtrV:
			return fx.born(v.Obj)
		case MapV:
			return fx.born(v.Obj)
		case FuncV:
			return len(v.Bind) > 0
		}
		return false
	}
	bs := []Value{b}
	if c, ok := b.(ChoiceV); ok {
		bs = c.Alts
	}
	for _, v := range bs {
		if bornIn(v) {
			return fx.once(key, func() Value { return fx.e.Unknown(t, "φ"+key) })
		}
	}
	j := &joiner{e: fx.e, fa: fx.s0.F, fb: fx.curB.F}
	c := j.choice(h, b, t)
	if valKey(c) == valKey(h) {
		return h
	}
	fx.grow[key]++
	if fx.grow[key] > 4 {
		return fx.once(key, func() Value { return fx.e.Unknown(t, "φ"+key) })
	}
	fx.changed = true
	return c
}

func (fx *fix) slice(key string, s Value, x, y SliceV, t types.Type, bst *State) Value {
	e := fx.e
	nx, ny := fx.s0.F.nilOf(x.Nil, x.Vid), bst.F.nilOf(y.Nil, y.Vid)
	if _, isOwn := fx.own[key]; isOwn {
		nx = x.Nil
	}
	if nx == True && ny == True {
		return x
	}
	sv, _ := s.(SliceV)
	if x.Obj == y.Obj && pathEq(x.Path, y.Path) {
		r := x
		if nx != ny && x.Nil != Unknown {
			r.Nil, r.Vid = Unknown, e.U.Vid()
			fx.changed = true
		}
		eo, el, ec := sv.Off, sv.Len, sv.Cap
		if sv.Obj != x.Obj {
			eo = Num(0)
			if _, isOwn := fx.own[key]; !isOwn {
				eo, el, ec = x.Off, x.Len, x.Cap
			}
		}
		r.Off = fx.intMerge(key+"#o", eo, x.Off, y.Off, nil, "off")
		r.Len = fx.intMerge(key+"#l", el, x.Len, y.Len, nil, "len")
		r.Cap = fx.intMerge(key+"#c", ec, x.Cap, y.Cap, nil, "len")
		return r
	}
	elem := t.Underlying().(*types.Slice).Elem()
	id, ok := fx.own[key]
	cy := e.Content(bst, y)
	if !ok {
		// entry backing array as summarised content
		fx.changed = true
		cx := e.Content(fx.s0, x)
		var c *Content
		if f := fx.fill("own"+key, cx, cy, &x, &y, bst); f != nil {
			c = f
		} else if isByteish(elem) || (cx == nil && cy == nil) {
			c = e.freshInput("φ"+key, Num(1<<40), elem)
		} else {
			c = fx.sumOf(cx, elem, fx.s0)
			c = fx.joinSum(c, fx.sumOf(cy, elem, bst))
		}
		e.nextObj++
		id = e.nextObj
		e.serial++
		e.birth[id] = e.serial
		e.objType[id] = types.NewSlice(elem)
		e.allocSite[id] = "loop"
		fx.own[key] = id
		var al []int
		for _, o := range []int{x.Obj, y.Obj} {
			if o >= 0 && !fx.born(o) {
				al = append(al, e.aliasClosure(o)...)
			}
		}
		if len(al) > 0 {
			e.aliasOf[id] = al
		}
		fx.gen["own"+key] = ArrV{c}
		r := SliceV{Obj: id, Off: Num(0), Nil: Unknown}
		if nx == ny {
			r.Nil = nx
		}
		if r.Nil == Unknown {
			r.Vid = e.U.Vid()
		}
		r.Off = fx.intMerge(key+"#o", Num(0), Num(0), Num(0), nil, "off")
		r.Len = fx.intMerge(key+"#l", sv.Len, sv.Len, y.Len, nil, "len")
		r.Cap = fx.intMerge(key+"#c", sv.Cap, sv.Cap, y.Cap, nil, "len")
		return r
	}
	// own object already
	r := x
	if g, ok := fx.gen["own"+key].(ArrV); ok && fx.fills["own"+key] != nil {
		fx.fill("own"+key, g.C, cy, &x, &y, bst)
	}
	if g, ok := fx.gen["own"+key].(ArrV); ok && !isByteish(elem) && cy != nil && g.C.Kind == KSum {
		n := fx.joinSum(g.C, fx.sumOf(cy, elem, bst))
		if valKey(n.Sum) != valKey(g.C.Sum) {
			fx.grow[key+"$"]++
			if fx.grow[key+"$"] > 5 {
				n.Sum = e.anyOf(elem)
			}
			fx.gen["own"+key] = ArrV{n}
			fx.changed = true
		}
	}
	if ny != x.Nil && x.Nil != Unknown {
		r.Nil, r.Vid = Unknown, e.U.Vid()
		fx.changed = true
	}
	el, ec := sv.Len, sv.Cap
	r.Len = fx.intMerge(key+"#l", el, x.Len, y.Len, nil, "len")
	r.Cap = fx.intMerge(key+"#c", ec, x.Cap, y.Cap, nil, "len")
	return r
}

// genValue abstracts a value for use in a loop summary.
func (fx *fix) genValue(v Value, t types.Type, st *State) Value {
	e := fx.e
	switch x := v.(type) {
	case PtrV:
		if fx.born(x.Obj) || len(x.Path) > 0 {
			n := st.F.nilOf(x.Nil, x.Vid)
			return AnyPtrV{T: t, Nil: n}
		}
		return e.generalize(st.F, v, t)
	case StructV:
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return LazyV{T: t, Name: "any"}
		}
		r := StructV{F: make([]Value, len(x.F))}
		for i := range x.F {
			r.F[i] = fx.genValue(x.F[i], s.Field(i).Type(), st)
		}
		return r
	case SliceV:
		if st.F.nilOf(x.Nil, x.Vid) == True {
			return AnySliceV{T: t, Len: Interval{0, 0}, Obj: -1}
		}
		a := AnySliceV{T: t, Len: st.F.Range(x.Len), Obj: -1}
		if !fx.born(x.Obj) && len(x.Path) == 0 {
			a.Obj = x.Obj
		}
		return a
	case MapV:
		if fx.born(x.Obj) {
			return LazyV{T: t, Name: "any"}
		}
		return v
	case ChoiceV:
		return LazyV{T: t, Name: "any"}
	case FuncV:
		if len(x.Bind) > 0 {
			return LazyV{T: t, Name: "any"}
		}
		return v
	}
	return e.generalize(st.F, v, t)
}

func (fx *fix) genMap(m *MapC, st *State) *MapC {
	if m.Base == MUnknown {
		return m
	}
	r := fx.e.newMap(MSum, m.T)
	r.allC = false
	r.KSum, r.VSum = m.KSum, m.VSum
	for _, en := range m.Ents {
		if en.Del {
			continue
		}
		k, v := fx.genValue(en.K, m.T.Key(), st), fx.genValue(en.V, m.T.Elem(), st)
		if r.KSum == nil {
			r.KSum, r.VSum = k, v
		} else {
			r.KSum = fx.e.joinGen(r.KSum, k, m.T.Key())
			r.VSum = fx.e.joinGen(r.VSum, v, m.T.Elem())
		}
	}
	return r
}

func (fx *fix) sumOf(c *Content, elem types.Type, st *State) *Content {
	e := fx.e
	r := e.newContent(KSum, Num(0), elem)
	if c == nil {
		return r // no element: Sum nil
	}
	var acc Value
	bad := false
	seen := map[int]bool{}
	add := func(v Value) {
		g := fx.genValue(v, elem, st)
		if acc == nil {
			acc = g
		} else {
			acc = e.joinGen(acc, g, elem)
		}
	}
	var walk func(p *Content)
	walk = func(p *Content) {
		for p != nil {
			if seen[p.ID] {
				return
			}
			seen[p.ID] = true
			switch p.Kind {
			case KZero:
				// capacity beyond the length is not observable through appends
				return
			case KSum:
				if p.Sum != nil {
					if acc == nil {
						acc = p.Sum
					} else {
						acc = e.joinGen(acc, p.Sum, elem)
					}
				}
				return
			case KJoin:
				walk(p.A)
				walk(p.B)
				return
			case KWrite:
				switch {
				case p.Havoc:
					bad = true
					return
				case p.Src != nil:
					walk(p.Src)
				default:
					add(p.Val)
				}
				p = p.Prev
				continue
			default:
				bad = true
				return
			}
		}
	}
	walk(c)
	if bad {
		r.Sum = e.anyOf(elem)
	} else {
		r.Sum = acc
	}
	return r
}

func (fx *fix) joinSum(a, b *Content) *Content {
	if a.Sum == nil {
		return b
	}
	if b.Sum == nil {
		return a
	}
	r := fx.e.newContent(KSum, Num(0), a.Elem)
	r.Sum = fx.e.joinGen(a.Sum, b.Sum, a.Elem)
	return r
}

// content generalises an array content.
func (fx *fix) content(key string, h, b *Content, bst *State) *Content {
	if h == b {
		return h
	}
	e := fx.e
	if c := fx.fill(key, h, b, nil, nil, bst); c != nil {
		return c
	}
	if g, ok := fx.gen[key].(ArrV); ok {
		if isByteish(h.Elem) || h.Kind != KSum {
			return g.C
		}
		n := fx.joinSum(h, fx.sumOf(b, h.Elem, bst))
		if valKey(n.Sum) == valKey(h.Sum) {
			return h
		}
		fx.grow[key]++
		if fx.grow[key] > 5 {
			n.Sum = e.anyOf(h.Elem)
		}
		n.N = h.N
		fx.gen[key] = ArrV{n}
		fx.changed = true
		return n
	}
	fx.changed = true
	var c *Content
	if isByteish(h.Elem) {
		c = e.freshInput("φ"+key, h.N, h.Elem)
	} else {
		hs := fx.sumOf(h, h.Elem, fx.s0)
		if z := h.base(); z.Kind == KZero {
			zc := e.newContent(KSum, h.N, h.Elem)
			zc.Sum = fx.genValue(e.ZeroValue(h.Elem), h.Elem, fx.s0)
			hs = fx.joinSum(hs, zc)
		}
		c = fx.joinSum(hs, fx.sumOf(b, h.Elem, bst))
		if c.Sum == nil {
			c.Sum = e.anyOf(h.Elem)
		}
		c2 := *c
		c2.N = h.N
		e.U.conID++
		c2.ID = e.U.conID
		c = &c2
	}
	fx.gen[key] = ArrV{c}
	return c
}

func (fx *fix) heap(h, b *State, rounds int) {
	type d struct {
		k    int
		x, y Value
	}
	var ds []d
	h.Heap.Diff(b.Heap, func(k int, x, y *Value) {
		if y == nil || fx.born(k) && rounds > 3 {
			return
		}
		if fx.born(k) {
			if _, lazy := fx.e.lazyKey[k]; lazy {
				fx.changed = true // look again: the object is named outside the loop
			}
			return
		}
		var xv Value
		if x != nil {
			xv = *x
		} else {
			xv = fx.e.lazyValue(k)
			if xv == nil {
				return
			}
		}
		ds = append(ds, d{k, xv, *y})
	})
	for _, x := range ds {
		isOwn := false
		for key, id := range fx.own {
			if id == x.k {
				isOwn = true
				// writes through the loop-carried slice
				g := fx.gen["own"+key].(ArrV)
				if f := fx.fills["own"+key]; f != nil && f.mode == 1 {
					fx.unfill("own"+key, f)
				}
				if y, ok := x.y.(ArrV); ok && !isByteish(g.C.Elem) {
					n := fx.joinSum(g.C, fx.sumOf(y.C, g.C.Elem, b))
					if valKey(n.Sum) != valKey(g.C.Sum) {
						fx.gen["own"+key] = ArrV{n}
						fx.changed = true
					}
				}
			}
		}
		if isOwn {
			continue
		}
		var s Value
		if v, ok := fx.s0.Heap.Get(x.k); ok {
			s = v
		} else {
			s = x.x
		}
		t := fx.e.objType[x.k]
		nv := fx.merge("h"+strconv.Itoa(x.k), s, x.x, x.y, t, b)
		h.Heap = h.Heap.Set(x.k, nv)
	}
	for key, id := range fx.own {
		if g, ok := fx.gen["own"+key].(ArrV); ok {
			c := g.C
			if c.Kind == KSum && c.Sum == nil {
				c2 := *c
				c2.Sum = fx.e.anyOf(c.Elem)
				c = &c2
			}
			h.Heap = h.Heap.Set(id, ArrV{c})
		}
	}
}

func (fx *fix) misc(h, b *State) {
	tk := func(t *TNode) string {
		if t == nil {
			return ""
		}
		return t.Key
	}
	if tk(h.Trace) != tk(b.Trace) {
		// events of the body may happen any number of times
		var alt []Event
		seen := map[string]bool{}
		n := 0
		if fx.s0.Trace != nil {
			n = fx.s0.Trace.N
		}
		for p := b.Trace; p != nil && p.N > n; p = p.Prev {
			evs := []Event{p.Ev}
			if p.Ev.Kind == "may" {
				evs = p.Ev.Alt
			}
			for _, ev := range evs {
				k := ev.Kind + fmt.Sprint(ev.Pos)
				if !seen[k] {
					seen[k] = true
					alt = append(alt, ev)
				}
			}
		}
		nt := pushTrace(fx.s0.Trace, Event{Kind: "may", Alt: alt, Note: "loop"})
		if tk(nt) != tk(h.Trace) {
			h.Trace = nt
			fx.changed = true
		}
	}
	np := joinPend(h.Pend, b.Pend)
	if len(np) != len(h.Pend) {
		h.Pend = np
		fx.changed = true
	}
	b.Mut.Each(func(k int, v bool) {
		if _, ok := h.Mut.Get(k); !ok {
			h.Mut = h.Mut.Set(k, v)
		}
	})
}

// candidates proposes linear invariants over the integer slots and T.
func (fx *fix) candidates(backs []edgeState) []Lin {
	var out []Lin
	seen := map[string]bool{}
	add := func(c Lin) {
		c = c.tighten()
		if len(c.T) == 0 || len(c.T) > 6 {
			return
		}
		if seen[c.Key()] {
			return
		}
		seen[c.Key()] = true
		// only slots, T and outer symbols
		rel := false
		for _, t := range c.T {
			if t.S == fx.t || fx.isPhi(t.S) {
				rel = true
				continue
			}
			if t.S.ID > fx.sym0 {
				return
			}
		}
		if !rel {
			return
		}
		if !fx.s0.F.Prove(fx.atEntry(c)) {
			return
		}
		out = append(out, c)
	}
	T := Of(fx.t)
	var phis []*intSlot
	for _, k := range fx.order {
		s := fx.ints[k]
		if s.mode == 2 && len(s.backs) == len(backs) {
			phis = append(phis, s)
		}
	}
	for _, s := range phis {
		v := s.val
		add(v.Sub(s.entry))
		add(s.entry.Sub(v))
		er := fx.s0.F.Range(s.entry)
		lo, hi := er.Lo, er.Hi
		kmin, kmax := int64(Inf), int64(-Inf)
		for i, b := range backs {
			r := b.st.F.TightRange(s.backs[i])
			if s.backs[i].Eq(v) {
				r = Interval{Inf, -Inf}
			}
			if r.Lo < lo {
				lo = r.Lo
			}
			if r.Hi > hi {
				hi = r.Hi
			}
			d := b.st.F.Range(s.backs[i].Sub(v))
			if d.Lo < kmin {
				kmin = d.Lo
			}
			if d.Hi > kmax {
				kmax = d.Hi
			}
			if kmin <= 0 && b.st.F.Prove(s.backs[i].Sub(v).AddC(-1)) && kmin < 1 && i == 0 {
				kmin = 1
			}
			if kmax >= 0 && b.st.F.Prove(v.Sub(s.backs[i]).AddC(-1)) && i == 0 {
				kmax = -1
			}
		}
		if lo > -Inf {
			add(v.AddC(-lo))
		}
		if lo < 0 && er.Lo >= 0 {
			add(v)
		}
		if hi < Inf {
			add(Num(hi).Sub(v))
		}
		for _, k := range []int64{kmin, 1, 2} {
			if k > 0 && k < 1<<20 {
				add(v.Sub(s.entry).addMul(-k, T))
			}
		}
		for _, k := range []int64{kmax, -1, -2} {
			if k < 0 && k > -(1<<20) {
				add(s.entry.Sub(v).addMul(k, T))
			}
		}
		if kmax > 0 && kmax < 1<<20 {
			add(s.entry.addMul(kmax, T).Sub(v))
		}
		add(s.entry.Add(T).Sub(v))
		if kmin < 0 && kmin > -(1<<20) {
			add(v.Sub(s.entry).addMul(-kmin, T))
		}
	}
	for i, s := range phis {
		if i > 10 {
			break
		}
		for k, p := range phis {
			if k == i || k > 10 {
				continue
			}
			add(s.val.Sub(p.val).Sub(s.entry).Add(p.entry))
			add(s.val.Sub(p.val))
			if k > i {
				add(s.val.Add(p.val).Sub(s.entry).Sub(p.entry))
				add(s.entry.Add(p.entry).Sub(s.val).Sub(p.val))
			}
		}
	}
	// constraints established in the body, shifted to the next iteration
	for bi, b := range backs {
		f := b.st.F
		var cs []Lin
		n0 := 0
		for n0 < len(fx.s0.F.cons) && n0 < len(f.cons) && f.cons[n0].Eq(fx.s0.F.cons[n0]) {
			n0++
		}
		cs = append(cs, f.cons[n0:]...)
		bound := func(s *Sym) {
			r := f.symRange(s)
			if r.Lo > -Inf {
				cs = append(cs, Of(s).AddC(-r.Lo))
			}
			if r.Hi < Inf {
				cs = append(cs, Num(r.Hi).Sub(Of(s)))
			}
		}
		bound(fx.t)
		for _, s := range phis {
			bound(s.phi)
		}
		if len(cs) > 120 {
			cs = cs[:120]
		}
		for _, c := range cs {
			// simultaneous shift
			r := c
			if c.coef(fx.t) != 0 {
				r = r.subst(fx.t, T.AddC(-1))
			}
			ok := true
			for _, s := range phis {
				if c.coef(s.phi) == 0 {
					continue
				}
				d := s.backs[bi].Sub(s.val)
				if d.coef(s.phi) != 0 {
					ok = false
					break
				}
				r = r.addMul(-c.coef(s.phi), d)
			}
			if ok {
				add(r)
			}
			// back value is a single inner symbol
			for _, s := range phis {
				bl := s.backs[bi]
				if len(bl.T) == 1 && (bl.T[0].K == 1 || bl.T[0].K == -1) && bl.T[0].S.ID > fx.sym0 && !fx.isPhi(bl.T[0].S) && bl.T[0].S != fx.t {
					in := bl.T[0].S
					if c.coef(in) != 0 {
						add(c.subst(in, s.val.AddC(-bl.C).Scale(bl.T[0].K)))
					}
				}
			}
		}
	}
	for i, s := range phis {
		if i > 6 {
			break
		}
		n := 0
		for _, k := range fx.order {
			if p := fx.ints[k]; p.mode == 1 && n < 6 {
				n++
				add(p.val.Sub(s.val))
				add(p.val.Sub(s.val).AddC(-1))
				add(s.val.Sub(p.val))
			}
		}
	}
	for i, s := range phis {
		if i > 6 {
			break
		}
		for _, l := range fx.limits {
			for _, k := range []int64{0, -1} {
				add(l.AddC(k).Sub(s.val))
			}
		}
	}
	if len(out) > 200 {
		// local variables before memory
		mem := map[*Sym]bool{}
		for _, k := range fx.order {
			if s := fx.ints[k]; s.mode == 2 && strings.HasPrefix(k, "h") {
				mem[s.phi] = true
			}
		}
		heavy := func(c Lin) int {
			for _, t := range c.T {
				if mem[t.S] {
					return 1
				}
			}
			return 0
		}
		sort.SliceStable(out, func(i, k int) bool { return heavy(out[i]) < heavy(out[k]) })
		out = out[:200]
	}
	return out
}

func (fx *fix) isPhi(s *Sym) bool {
	for _, k := range fx.order {
		if fx.ints[k].mode == 2 && fx.ints[k].phi == s {
			return true
		}
	}
	return false
}

func (fx *fix) atEntry(c Lin) Lin {
	r := c
	for _, t := range c.T {
		if t.S == fx.t {
			r = r.subst(fx.t, Num(0))
			continue
		}
		for _, k := range fx.order {
			s := fx.ints[k]
			if s.mode == 2 && s.phi == t.S {
				r = r.subst(t.S, s.entry)
				break
			}
		}
	}
	return r
}

func (fx *fix) holdsAtBack(c Lin, b *State, bi int) bool {
	r := Lin{C: c.C}
	for _, t := range c.T {
		switch {
		case t.S == fx.t:
			r = r.addMul(t.K, Of(fx.t).AddC(1))
		case fx.isPhi(t.S):
			var bl Lin
			for _, k := range fx.order {
				s := fx.ints[k]
				if s.mode == 2 && s.phi == t.S {
					if bi < len(s.backs) {
						bl = s.backs[bi]
					} else {
						bl = s.val
					}
				}
			}
			r = r.addMul(t.K, bl)
		default:
			r = r.addMul(t.K, Of(t.S))
		}
	}
	return b.F.Prove(r)
}

// terminates looks for a ranking argument.
func (fx *fix) terminates(l *loop, backs []edgeState) (bool, string) {
	for _, in := range l.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if rg, ok := n.Iter.(*ssa.Range); ok && !l.in[rg.Block().Index] {
				return true, "range over a finite collection"
			}
		}
	}
	how := "no back edge reachable"
	for bi, b := range backs {
		if b.st.F.symRange(fx.t).Hi < Inf {
			how = fmt.Sprintf("iteration count bounded by %d", b.st.F.symRange(fx.t).Hi)
			continue
		}
		if b.st.F.Prove(Num(1 << 58).Sub(Of(fx.t))) {
			how = "iteration count bounded by a loop-invariant expression"
			continue
		}
		if fx.boundedBy(b.st.F) {
			how = "iteration count bounded by a loop-invariant expression"
			continue
		}
		if fx.decreases(backs, bi) {
			how = "a value that cannot become negative decreases in every iteration"
			continue
		}
		if fx.approaches(backs, bi) {
			how = "a value that stays below a loop-invariant expression grows in every iteration"
			continue
		}
		ok := false
		b.st.FI.Each(func(k, v int) {
			if v >= 1 && !fx.born(k) {
				if m, isM := fx.e.obj(b.st, k).(*MapC); isM && finiteKey(m.T.Key()) {
					ok = true
				}
			}
		})
		if ok {
			how = "every iteration inserts a new key into a set over a finite key type"
			continue
		}
		if debugLoops {
			for _, k := range fx.order {
				if s := fx.ints[k]; s.mode > 0 && len(s.backs) > bi {
					fmt.Fprintf(os.Stderr, "TERM %s mode %d %s -> %s\n", k, s.mode, s.val, s.backs[bi])
				}
			}
			for _, c := range b.st.F.cons {
				fmt.Fprintf(os.Stderr, "   TERM fact %s\n", c)
			}
			fmt.Fprintf(os.Stderr, "   TERM T=%s\n", fx.t)
		}
		return false, "no bound on the number of iterations found"
	}
	return true, how
}

// boundedBy finds a fact k*T <= e with e loop-invariant.
func (fx *fix) boundedBy(f *Facts) bool {
	for _, c := range f.cons {
		if c.coef(fx.t) < 0 && fx.outer(c.subst(fx.t, Num(0))) {
			return true
		}
	}
	return false
}

// decreases finds a loop variable that gets smaller on this back edge, never
// grows on any, and stays at or above zero.
func (fx *fix) decreases(backs []edgeState, bi int) bool {
	f := backs[bi].st.F
	for _, k := range fx.order {
		s := fx.ints[k]
		if s.mode != 2 || len(s.backs) != len(backs) || !f.Prove(s.val.Sub(s.backs[bi]).AddC(-1)) {
			continue
		}
		ok := true
		for i, b := range backs {
			ok = ok && b.st.F.Prove(s.val.Sub(s.backs[i])) && b.st.F.Prove(s.backs[i])
		}
		if ok {
			return true
		}
	}
	return false
}

// approaches finds a loop variable that grows on this back edge, never shrinks
// on any, and stays below a loop-invariant expression.
func (fx *fix) approaches(backs []edgeState, bi int) bool {
	f := backs[bi].st.F
	for _, k := range fx.order {
		s := fx.ints[k]
		if s.mode != 2 || s.phi == nil || len(s.backs) != len(backs) || !f.Prove(s.backs[bi].Sub(s.val).AddC(-1)) {
			continue
		}
		ok := false
		for _, c := range f.cons {
			ok = ok || c.coef(s.phi) < 0 && fx.outer(c.subst(s.phi, Num(0)))
		}
		for i, b := range backs {
			ok = ok && b.st.F.Prove(s.backs[i].Sub(s.val))
		}
		if ok {
			return true
		}
	}
	return false
}

func finiteKey(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return true
		}
		lo, hi, ok := intBounds(t)
		return ok && lo > -Inf && hi < Inf
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !finiteKey(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return u.Len() <= 8 && finiteKey(u.Elem())
	}
	return false
}
