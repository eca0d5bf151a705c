package props

import (
	"go/types"

	"diskcheck/ai"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Spec{ID: "C23", Level: "other",
		Explanation: "The sector and block transfer routines are interpreted abstractly with symbolic image length, track, sector, block index, data length and bytes. At every return the facts must imply: success exactly when the addressed unit lies inside the image (and, for writes, the data is exactly one unit); a read returns a fresh copy of precisely the addressed bytes; a write changes precisely the addressed bytes to precisely the given data and nothing else (byte provenance at a symbolic index inside and outside the unit). The marshalling helpers are instantiated with every SectorSource/SectorSink/BlockSource/BlockSink type of the program.",
		MinRules:    map[string]int{"read": 2, "write": 4, "marshal": 8, "unmarshal": 8},
		Run:         runC23})
}

// unitWrite checks that, after a write of n bytes at off, disk holds data there
// and its old bytes elsewhere.
func (s *Sec) unitWrite(rule, where string, st *ai.State, dsk ai.SliceV, old *ai.Content, off ai.Lin, n int64, want func(i ai.Lin, f *ai.State) ai.Value) {
	cur := s.E.Content(st, dsk)
	if cur == nil {
		s.Fail(rule, where, "image content lost")
		return
	}
	size := dsk.Len
	idx := ai.Of(s.E.U.Input("any-index", 0, 1<<40))
	check := func(name string, conds []ai.Lin, exp func(st *ai.State) ai.Value) {
		st2 := st.Clone()
		for _, c := range conds {
			if !st2.F.AssumeGE(c) {
				return // no such byte
			}
		}
		got := s.E.Read(st2.F, cur, idx)
		w := exp(st2)
		if s.E.ValEq(st2, got, w) != ai.True {
			s.Fail(rule, where, "%s: byte at offset i is %s, want %s", name, ai.ValStr(got), ai.ValStr(w))
		}
	}
	inUnit := []ai.Lin{idx.Sub(off), off.AddC(n - 1).Sub(idx), size.Sub(idx).AddC(-1)}
	check("inside the unit", inUnit, func(st *ai.State) ai.Value { return want(idx.Sub(off), st) })
	oldv := func(st *ai.State) ai.Value { return s.E.Read(st.F, old, idx) }
	check("before the unit", []ai.Lin{off.Sub(idx).AddC(-1), idx}, oldv)
	check("after the unit", []ai.Lin{idx.Sub(off).AddC(-n), size.Sub(idx).AddC(-1)}, oldv)
}

// assumeInside assumes off+n <= size, or its negation.
func (s *Sec) assumeInside(st *ai.State, off ai.Lin, n int64, size ai.Lin, in bool) bool {
	d := size.Sub(off).AddC(-n)
	if !in {
		d = d.Neg().AddC(-1)
	}
	return st.F.AssumeGE(d)
}

func runC23(c *Ctx) {
	// "Success exactly when P": one run assumes P and must always succeed, the
	// others assume the ways P can be false and must always fail.
	c.Section("ReadSector", func(s *Sec) {
		fn := c.Fn("disk", "ReadSector")
		w := s.where(fn)
		for _, in := range []bool{true, false} {
			st := s.E.NewState()
			size := ai.Of(s.E.U.Input("len(image)", 0, 1<<30))
			dsk, old := s.Input(st, "image", size)
			tr, sc := s.Int("track", 0, 255), s.Int("sector", 0, 255)
			off := tr.L.Scale(4096).Add(sc.L.Scale(256))
			if !s.assumeInside(st, off, 256, size, in) {
				continue
			}
			for _, r := range s.Run(fn, st, dsk, tr, sc) {
				if s.E.Content(r.St, dsk) != old {
					c.Fail("read", w, "reading a sector modifies the image")
				}
				ev := s.errOf(r.St, ret(r.Ret, 1))
				if !in {
					c.Check(ev == 2, "read", w, "accepts a sector that is not inside the image")
					continue
				}
				if !c.Check(ev == 1, "read", w, "rejects a sector inside the image") {
					continue
				}
				sl, ok := ret(r.Ret, 0).(ai.SliceV)
				if !ok {
					c.Fail("read", w, "result is not a slice")
					continue
				}
				if sl.Obj == dsk.Obj {
					c.Fail("read", w, "result aliases the image")
				}
				if !r.St.F.ProveEq(sl.Len.AddC(-256)) {
					c.Fail("read", w, "result has length %s, want 256", sl.Len)
					continue
				}
				s.sameRegion("read", w, r.St, s.E.Content(r.St, sl), sl.Off, old, off, 256)
			}
		}
	})
	c.Section("WriteSector", func(s *Sec) {
		fn := c.Fn("disk", "WriteSector")
		w := s.where(fn)
		for _, k := range []struct {
			name   string
			lo, hi int64
			in     bool
		}{{"one sector of data, inside", 256, 256, true}, {"one sector of data, outside", 256, 256, false}, {"short data", 0, 255, true}, {"long data", 257, 1 << 30, true}} {
			st := s.E.NewState()
			size := ai.Of(s.E.U.Input("len(image)", 0, 1<<30))
			dl := ai.Of(s.E.U.Input("len(data)", k.lo, k.hi))
			dsk, old := s.Input(st, "image", size)
			data, dc := s.Input(st, "data", dl)
			tr, sc := s.Int("track", 0, 255), s.Int("sector", 0, 255)
			off := tr.L.Scale(4096).Add(sc.L.Scale(256))
			good := k.lo == k.hi && k.in
			if !s.assumeInside(st, off, 256, size, k.in) {
				continue
			}
			for _, r := range s.Run(fn, st, dsk, tr, sc, data) {
				if s.E.Content(r.St, data) != dc {
					c.Fail("write", w, "%s: modifies the caller's data", k.name)
				}
				ev := s.errOf(r.St, r.Ret)
				if !good {
					c.Check(ev == 2, "write", w, "%s: accepted", k.name)
					if s.E.Content(r.St, dsk) != old {
						c.Fail("write", w, "%s: a rejected write modifies the image", k.name)
					}
					continue
				}
				if !c.Check(ev == 1, "write", w, "%s: rejected", k.name) {
					continue
				}
				s.unitWrite("write", w, r.St, dsk, old, off, 256, func(i ai.Lin, st *ai.State) ai.Value { return s.E.Read(st.F, dc, i) })
			}
		}
	})
	c.Section("marshal", func(s *Sec) {
		for _, k := range []struct {
			src, sink, ms, um   string
			to, from, get, setN string
			n                   int64
		}{
			{"SectorSource", "SectorSink", "MarshalLogicalSector", "UnmarshalLogicalSector", "ToSector", "FromSector", "", "", 256},
			{"BlockSource", "BlockSink", "MarshalBlock", "UnmarshalBlock", "ToBlock", "FromBlock", "GetBlock", "SetBlock", 512},
		} {
			marshal, unmarshal := c.Fn("disk", k.ms), c.Fn("disk", k.um)
			srcI := c.Type("disk", k.src).Underlying().(*types.Interface)
			sinkI := c.Type("disk", k.sink).Underlying().(*types.Interface)
			for _, t := range c.structTypes() {
				pt := types.NewPointer(t)
				if types.Implements(pt, srcI) {
					s.marshalCheck(marshal, pt, t, k.to, k.n)
				}
				if types.Implements(pt, sinkI) {
					s.unmarshalCheck(unmarshal, pt, t, k.from, k.n)
				}
			}
		}
	})
}

// sameRegion checks n bytes of a at ao against b at bo, at a symbolic index.
func (s *Sec) sameRegion(rule, where string, st *ai.State, a *ai.Content, ao ai.Lin, b *ai.Content, bo ai.Lin, n int64) bool {
	if a == nil || b == nil {
		s.Fail(rule, where, "content lost")
		return false
	}
	st = st.Clone()
	i := ai.Of(s.E.U.Input("any-byte", 0, n-1))
	x := s.E.Read(st.F, a, ao.Add(i))
	y := s.E.Read(st.F, b, bo.Add(i))
	if s.E.ValEq(st, x, y) == ai.True {
		return true
	}
	// fall back to byte by byte
	for k := int64(0); k < n; k++ {
		x := s.E.Read(st.F, a, ao.AddC(k))
		y := s.E.Read(st.F, b, bo.AddC(k))
		if s.E.ValEq(st, x, y) != ai.True {
			s.Fail(rule, where, "byte %d is %s, want %s", k, ai.ValStr(x), ai.ValStr(y))
			return false
		}
	}
	return true
}

// structTypes lists the named struct types of the repository.
func (c *Ctx) structTypes() []*types.Named {
	var r []*types.Named
	for _, p := range c.P.Pkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok {
				if _, ok := nt.Underlying().(*types.Struct); ok {
					r = append(r, nt)
				}
			}
		}
	}
	return r
}

// unitAddr returns the byte offset a source/sink addresses.
func (s *Sec) unitAddr(t types.Type, v ai.Value, n int64) ai.Lin {
	get := func(m string) ai.Lin {
		fn := s.Method(types.NewPointer(t), m)
		st := s.E.NewState()
		p := s.E.Alloc(st, v, t, "tmp")
		rs := s.Run(fn, st, p)
		if len(rs) != 1 {
			panic(missing{m + " of " + t.String() + " has several outcomes"})
		}
		return rs[0].Ret.(ai.IntV).L
	}
	if n == 512 {
		return get("GetBlock").Scale(512)
	}
	return get("GetTrack").Scale(4096).Add(get("GetSector").Scale(256))
}

// bytesOf reads a byte array/slice result.
func (s *Sec) bytesOf(st *ai.State, v ai.Value) (*ai.Content, ai.Lin, ai.Lin, bool) {
	switch x := v.(type) {
	case ai.SliceV:
		return s.E.Content(st, x), x.Off, x.Len, true
	case ai.ArrV:
		return x.C, ai.Num(0), x.C.N, true
	}
	return nil, ai.Lin{}, ai.Lin{}, false
}

func (s *Sec) marshalCheck(marshal *ssa.Function, pt, t types.Type, to string, n int64) {
	where := s.where(marshal) + " with " + t.String()
	v := s.E.Named(t, "src:"+t.String())
	off := s.unitAddr(t, v, n)
	// reference bytes
	ref := s.E.NewState()
	rp := s.E.Alloc(ref, v, t, "src")
	var refs []ai.CallRes
	for _, r := range s.Run(s.Method(pt, to), ref, rp) {
		if s.errOf(r.St, ret(r.Ret, 1)) == 1 {
			refs = append(refs, r)
		}
	}
	if len(refs) != 1 {
		s.Fail("marshal", where, "%s has %d successful outcomes", to, len(refs))
		return
	}
	rc, ro, rl, ok := s.bytesOf(refs[0].St, ret(refs[0].Ret, 0))
	if !ok || !refs[0].St.F.ProveEq(rl.AddC(-n)) {
		s.Fail("marshal", where, "%s does not yield exactly %d bytes", to, n)
		return
	}
	for _, in := range []bool{true, false} {
		st := s.E.NewState()
		size := ai.Of(s.E.U.Input("len(image)", 0, 1<<30))
		dsk, old := s.Input(st, "image", size)
		p := s.E.Alloc(st, v, t, "src")
		if !s.assumeInside(st, off, n, size, in) {
			continue
		}
		for _, r := range s.Run(marshal, st, dsk, ai.IfaceV{Dyn: pt, Val: p, Nil: ai.False}) {
			ev := s.errOf(r.St, r.Ret)
			if !in {
				s.Check(ev == 2, "marshal", where, "accepts a unit that is not inside the image")
				if s.E.Content(r.St, dsk) != old {
					s.Fail("marshal", where, "a failed marshal modifies the image")
				}
				continue
			}
			if !s.Check(ev == 1, "marshal", where, "fails for a unit inside the image") {
				continue
			}
			cur := s.E.Content(r.St, dsk)
			s.sameRegion("marshal", where, r.St, cur, off, rc, ro, n)
			s.unitWrite("marshal", where, r.St, dsk, old, off, n, func(i ai.Lin, st *ai.State) ai.Value { return s.E.Read(st.F, cur, off.Add(i)) })
		}
	}
}

func (s *Sec) unmarshalCheck(unmarshal *ssa.Function, pt, t types.Type, from string, n int64) {
	where := s.where(unmarshal) + " with " + t.String()
	for _, in := range []bool{true, false} {
		st := s.E.NewState()
		size := ai.Of(s.E.U.Input("len(image)", 0, 1<<30))
		dsk, old := s.Input(st, "image", size)
		p := s.E.Alloc(st, s.E.ZeroValue(t), t, "sink")
		args := []ai.Value{dsk, ai.IfaceV{Dyn: pt, Val: p, Nil: ai.False}}
		var off ai.Lin
		var wantAddr []ai.Lin
		var getters []string
		if n == 512 {
			b := s.Int("block", 0, 65535)
			args = append(args, b)
			off = b.L.Scale(512)
			wantAddr, getters = []ai.Lin{b.L}, []string{"GetBlock"}
		} else {
			tr, sc := s.Int("track", 0, 255), s.Int("sector", 0, 255)
			args = append(args, tr, sc)
			off = tr.L.Scale(4096).Add(sc.L.Scale(256))
			wantAddr, getters = []ai.Lin{tr.L, sc.L}, []string{"GetTrack", "GetSector"}
		}
		if !s.assumeInside(st, off, n, size, in) {
			continue
		}
		for _, r := range s.Run(unmarshal, st, args...) {
			if s.E.Content(r.St, dsk) != old {
				s.Fail("unmarshal", where, "reading modifies the image")
			}
			ev := s.errOf(r.St, r.Ret)
			if !in {
				s.Check(ev == 2, "unmarshal", where, "accepts a unit that is not inside the image")
				continue
			}
			// reference: the sink's own decoding of exactly those bytes
			ref := r.St.Clone()
			rp := s.E.Alloc(ref, s.E.ZeroValue(t), t, "refsink")
			fn := s.Method(pt, from)
			var arg ai.Value = ai.SliceV{Obj: dsk.Obj, Off: off, Len: ai.Num(n), Cap: ai.Num(n), Nil: ai.False}
			if _, isArr := fn.Signature.Params().At(0).Type().Underlying().(*types.Array); isArr {
				arg = ai.ArrV{C: s.E.Region(ref, dsk, off, n)}
			}
			accepted := false
			for _, q := range s.Run(fn, ref, rp, arg) {
				if s.errOf(q.St, q.Ret) == 2 {
					continue
				}
				accepted = true
				if ev == 2 {
					continue
				}
				got, want := s.E.Obj(r.St, p.Obj), s.E.Obj(q.St, rp.Obj)
				if d := s.diff(q.St, want, s.zeroAddr(t, got, n), t, ""); d != "" {
					s.Fail("unmarshal", where, "decoded value differs from decoding the addressed bytes: %s", d)
				}
			}
			if !s.Check(!accepted || ev == 1, "unmarshal", where, "fails for a unit inside the image") || ev == 2 {
				continue
			}
			for i, g := range getters {
				rs := s.Run(s.Method(pt, g), r.St.Clone(), p)
				if len(rs) != 1 {
					s.Fail("unmarshal", where, "%s has several outcomes", g)
					continue
				}
				if l, ok := rs[0].Ret.(ai.IntV); !ok || !rs[0].St.F.ProveEq(l.L.Sub(wantAddr[i])) {
					s.Fail("unmarshal", where, "%s after reading is %s, want %s", g, ai.ValStr(rs[0].Ret), wantAddr[i])
				}
			}
		}
	}
}

// zeroAddr resets the unit's own address fields.
func (s *Sec) zeroAddr(t types.Type, v ai.Value, n int64) ai.Value {
	st := s.E.NewState()
	p := s.E.Alloc(st, v, t, "z")
	names := []string{"SetTrack", "SetSector"}
	if n == 512 {
		names = []string{"SetBlock"}
	}
	for _, m := range names {
		rs := s.Run(s.Method(types.NewPointer(t), m), st, p, num(0))
		if len(rs) != 1 {
			panic(missing{m + " has several outcomes"})
		}
		st = rs[0].St
	}
	return s.E.Obj(st, p.Obj)
}

// diff compares two values of type t structurally; "" if equal.
func (s *Sec) diff(st *ai.State, a, b ai.Value, t types.Type, path string) string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		x, ok1 := a.(ai.StructV)
		y, ok2 := b.(ai.StructV)
		if !ok1 || !ok2 {
			break
		}
		for i := range x.F {
			if d := s.diff(st, x.F[i], y.F[i], u.Field(i).Type(), path+"."+u.Field(i).Name()); d != "" {
				return d
			}
		}
		return ""
	case *types.Array:
		x, ok1 := a.(ai.ArrV)
		y, ok2 := b.(ai.ArrV)
		if !ok1 || !ok2 {
			break
		}
		for i := int64(0); i < u.Len(); i++ {
			if d := s.diff(st, s.E.Read(st.F, x.C, ai.Num(i)), s.E.Read(st.F, y.C, ai.Num(i)), u.Elem(), path+"[]"); d != "" {
				return d + sprintIdx(i)
			}
		}
		return ""
	}
	if s.E.ValEq(st, a, b) == ai.True {
		return ""
	}
	return path + ": " + ai.ValStr(a) + " vs " + ai.ValStr(b)
}
