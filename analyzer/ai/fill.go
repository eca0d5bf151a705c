package ai

// A fill describes an array that every iteration of a loop extends by one more run of elements, each taken from
// the same source: a loop that copies, appends or clears. Before iteration T the array is the content it had before
// the loop with one write over it, whose place, length and source are affine in T.
type fill struct {
	mode        int // 1: in use, 2: given up
	back        bool
	tried       bool
	prev, src   *Content
	off, srcOff Lin // in the first iteration
	w           int64
	grown       Lin // length already written by the write that the first iteration extends
	own         bool
	cur         *Content
	seen        int
}

// at gives the content before iteration t.
func (fx *fix) fillAt(f *fill, t Lin, like *Content) *Content {
	e := fx.e
	m := e.newContent(KWrite, like.N, like.Elem)
	if f.own {
		m.N = Num(1 << 40)
	}
	m.Prev, m.Src = f.prev, f.src
	m.Off, m.SrcOff, m.Len = f.fillOff(f.off, t), f.fillOff(f.srcOff, t), f.grown.addMul(f.w, t)
	return m
}

// fillOff moves the start of the run back once for each iteration after the first.
func (f *fill) fillOff(l, t Lin) Lin {
	if !f.back {
		return l
	}
	return l.AddC(f.w).addMul(-f.w, t)
}

// fill decides the content h of an array at the loop's header, given its content b at the end of an iteration, if
// the loop fills the array. For an array that belongs to a slice that grows, x and y are the slices.
func (fx *fix) fill(key string, h, b *Content, x, y *SliceV, bst *State) *Content {
	f := fx.fills[key]
	if f == nil {
		if _, ok := fx.gen[key]; ok || b == nil || !isByteish(b.Elem) || h == nil && x == nil {
			return nil
		}
		f = fx.newFill(h, b, x, y, bst)
		if f == nil {
			f = &fill{mode: 2}
		}
		fx.fills[key] = f
		fx.fillOrd = append(fx.fillOrd, key)
		if f.mode == 2 {
			return nil
		}
		f.cur = fx.fillAt(f, Of(fx.t), b)
		fx.changed = true
		f.seen++
		return f.cur
	}
	if f.mode == 2 {
		return nil
	}
	ok := b != nil && (y == nil || bst.F.ProveEq(y.Off))
	if ok {
		n := fx.fillAt(f, Of(fx.t).AddC(1), b)
		eq := func(p, q Lin) bool { return p.Eq(q) || bst.F.ProveEq(p.Sub(q)) }
		ok = b.Kind == KWrite && b.Val == nil && b.Prev == n.Prev && b.Src == n.Src && eq(b.Off, n.Off) && eq(b.Len, n.Len) && eq(b.SrcOff, n.SrcOff)
	}
	if ok {
		f.seen++
		return f.cur
	}
	if !f.back && !f.tried && f.grown.IsConst() && f.grown.C == 0 && !f.own {
		f.tried, f.back = true, true
		f.cur = fx.fillAt(f, Of(fx.t), b)
		fx.changed = true
		f.seen++
		return f.cur
	}
	fx.unfill(key, f)
	return f.cur
}

// unfill gives up on an array: its elements are not known in the loop.
func (fx *fix) unfill(key string, f *fill) {
	f.mode = 2
	n := f.cur.N
	f.cur = fx.e.freshInput("φ"+key, n, f.cur.Elem)
	fx.gen[key] = ArrV{f.cur}
	fx.changed = true
}

func (fx *fix) newFill(h, b *Content, x, y *SliceV, bst *State) *fill {
	e := fx.e
	if b.Kind != KWrite {
		return nil
	}
	src, so, ok := e.run(b)
	if !ok {
		return nil
	}
	if src.ID > fx.con0 && !(src.N.IsConst() && src.N.C == Inf) {
		return nil // not the same in every iteration
	}
	f := &fill{mode: 1, src: src, srcOff: so, off: b.Off, prev: b.Prev, own: x != nil}
	grown := func(p *Content) bool {
		// the first iteration extends a write made before the loop
		if p == nil || p.Kind != KWrite || p.Prev != b.Prev {
			return false
		}
		ps, po, ok := e.run(p)
		if !ok || ps != src || !po.Eq(so) || !p.Off.Eq(b.Off) {
			return false
		}
		f.grown = p.Len
		return true
	}
	if x == nil {
		if b.Prev != h && !grown(h) {
			return nil
		}
	} else {
		if !fx.s0.F.ProveEq(x.Off) || !bst.F.ProveEq(y.Off) {
			return nil
		}
		if !e.prefixOf(fx.s0.F, h, *x, b.Prev) && !grown(h) {
			return nil
		}
	}
	w := b.Len.Sub(f.grown)
	if !w.IsConst() || w.C <= 0 || !fx.outer(f.off) || !fx.outer(f.srcOff) || !fx.outer(f.grown) {
		return nil
	}
	f.w = w.C
	return f
}

// prefixOf reports whether c begins with the elements of the slice x of h.
func (e *Engine) prefixOf(f *Facts, h *Content, x SliceV, c *Content) bool {
	if n, ok := f.Const(x.Len); x.Obj < 0 || ok && n == 0 {
		return true
	}
	switch {
	case h == nil || !x.Off.IsConst() || x.Off.C != 0:
		return false
	case c == h:
		return true
	case h.Kind == KZero:
		return c.Kind == KZero
	case h.Kind == KWrite:
		if c.Kind == KWrite && c.Prev == h.Prev && c.Off.Eq(h.Off) && c.Len.Eq(h.Len) && c.Src == h.Src && c.Havoc == h.Havoc && c.SrcOff.Eq(h.SrcOff) {
			if c.Havoc {
				return false
			}
			return c.Val == nil && h.Val == nil || c.Val != nil && h.Val != nil && valKey(c.Val) == valKey(h.Val)
		}
	}
	return c.Kind == KWrite && c.Src == h && c.Off.IsConst() && c.Off.C == 0 && c.SrcOff.IsConst() && c.SrcOff.C == 0 && c.Len.Eq(x.Len) && c.Prev.Kind == KZero
}
