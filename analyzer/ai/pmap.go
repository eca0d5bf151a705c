package ai

// PMap is a persistent map from non-negative int keys (a 16-way radix trie).
type PMap[V any] struct {
	root  *pnode[V]
	shift uint
	n     int
}

type pnode[V any] struct {
	kids [16]*pnode[V]
	vals [16]*V
}

func (m PMap[V]) Len() int { return m.n }

func (m PMap[V]) Get(k int) (V, bool) {
	var zero V
	if m.root == nil || k>>(m.shift+4) != 0 {
		return zero, false
	}
	nd := m.root
	for s := m.shift; s > 0; s -= 4 {
		nd = nd.kids[(k>>s)&15]
		if nd == nil {
			return zero, false
		}
	}
	v := nd.vals[k&15]
	if v == nil {
		return zero, false
	}
	return *v, true
}

func (m PMap[V]) Set(k int, v V) PMap[V] { return m.put(k, &v) }

func (m PMap[V]) Del(k int) PMap[V] {
	if _, ok := m.Get(k); !ok {
		return m
	}
	return m.put(k, nil)
}

func (m PMap[V]) put(k int, v *V) PMap[V] {
	if m.root == nil {
		m.root = &pnode[V]{}
		m.shift = 0
	}
	for k>>(m.shift+4) != 0 {
		r := &pnode[V]{}
		r.kids[0] = m.root
		m.root = r
		m.shift += 4
	}
	_, had := m.Get(k)
	m.root = m.root.put(m.shift, k, v)
	if v != nil && !had {
		m.n++
	} else if v == nil && had {
		m.n--
	}
	return m
}

func (nd *pnode[V]) put(s uint, k int, v *V) *pnode[V] {
	var c pnode[V]
	if nd != nil {
		c = *nd
	}
	if s == 0 {
		c.vals[k&15] = v
		return &c
	}
	i := (k >> s) & 15
	c.kids[i] = c.kids[i].put(s-4, k, v)
	return &c
}

// Each calls f in key order.
func (m PMap[V]) Each(f func(k int, v V)) {
	if m.root != nil {
		m.root.each(m.shift, 0, f)
	}
}

func (nd *pnode[V]) each(s uint, base int, f func(k int, v V)) {
	if s == 0 {
		for i, v := range nd.vals {
			if v != nil {
				f(base|i, *v)
			}
		}
		return
	}
	for i, k := range nd.kids {
		if k != nil {
			k.each(s-4, base|i<<s, f)
		}
	}
}

// Diff calls f for each key whose value pointer differs between m and o.
func (m PMap[V]) Diff(o PMap[V], f func(k int, a, b *V)) {
	ra, rb := m.root, o.root
	sa, sb := m.shift, o.shift
	for ra != nil && sa < sb {
		r := &pnode[V]{}
		r.kids[0] = ra
		ra = r
		sa += 4
	}
	for rb != nil && sb < sa {
		r := &pnode[V]{}
		r.kids[0] = rb
		rb = r
		sb += 4
	}
	if ra == nil {
		sa = sb
	}
	pdiff(ra, rb, sa, 0, f)
}

func pdiff[V any](a, b *pnode[V], s uint, base int, f func(k int, a, b *V)) {
	if a == b {
		return
	}
	for i := 0; i < 16; i++ {
		if s == 0 {
			var x, y *V
			if a != nil {
				x = a.vals[i]
			}
			if b != nil {
				y = b.vals[i]
			}
			if x != y {
				f(base|i, x, y)
			}
			continue
		}
		var x, y *pnode[V]
		if a != nil {
			x = a.kids[i]
		}
		if b != nil {
			y = b.kids[i]
		}
		pdiff(x, y, s-4, base|i<<s, f)
	}
}
