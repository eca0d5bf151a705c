package props

import (
	"fmt"
	"go/types"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C22", Level: "other",
		Explanation: "The DOS 3.3 per-track free map is evaluated for every sector number with the deciding bit fixed and all other bits unknown. The ProDOS volume bitmap is taken with wholly unknown contents; marking block 8q+k (q unknown, each k) and then asking about any block 8q'+k' must answer the mark for the same block and the old answer for every other one; writing the bitmap out must put bit 7-k of byte q at the block and byte that the format prescribes. A new bitmap is built for several device sizes and every block below the size must read free, every later bit zero, with the parts numbered consecutively.",
		MinRules:    map[string]int{"dos-free": 256, "mark": 500, "written": 8, "new": 3},
		Run:         runC22})
}

func (s *Sec) cond(v ai.Value) (ai.Cond, bool) {
	b, ok := v.(ai.BoolV)
	return b.C, ok
}

// decides checks that every outcome of a boolean call is the given constant.
func (s *Sec) decides(rule, where string, rs []ai.CallRes, want bool, format string, a ...interface{}) {
	for _, r := range rs {
		c, ok := s.cond(r.Ret)
		t := ai.Tri(0)
		if ok {
			t = r.St.F.Eval(c)
		}
		s.Check((want && t == ai.True) || (!want && t == ai.False), rule, where, format+" (got %s)", append(a, ai.ValStr(r.Ret))...)
	}
}

func runC22(c *Ctx) {
	c.Section("TrackFreeSectors", func(s *Sec) {
		t := c.Type("dos3", "TrackFreeSectors")
		fn := c.Method(t, "IsFree")
		for sec := int64(0); sec < 256; sec++ {
			for bit := int64(0); bit < 2; bit++ {
				st := s.E.NewState()
				arr := s.E.InputContent("track", ai.Num(4), types.Typ[types.Uint8])
				vals := make([]ai.Value, 4)
				for i := range vals {
					vals[i] = s.E.Read(st.F, arr, ai.Num(int64(i)))
				}
				if sec < 16 {
					k := sec % 8
					v := ai.Num(bit << uint(k))
					if k > 0 {
						v = v.Add(ai.Of(s.E.U.Input("low", 0, 1<<uint(k)-1)))
					}
					if k < 7 {
						v = v.Add(ai.Of(s.E.U.Input("high", 0, 1<<uint(7-k)-1)).Scale(2 << uint(k)))
					}
					vals[1-sec/8] = ai.IntV{L: v}
				}
				av := s.E.ArrayOf(vals, types.Typ[types.Uint8])
				s.decides("dos-free", s.where(fn), s.Run(fn, st, s.argFor(st, fn, av, t), num(sec)), sec < 16 && bit == 1, "sector %d with its bit %d", sec, bit)
			}
		}
	})
	vt := c.Type("prodos", "VolumeBitMap")
	elem := vt.Underlying().(*types.Slice).Elem()
	c.Section("mark", func(s *Sec) {
		isFree := c.Method(vt, "IsFree")
		for _, m := range []struct {
			name string
			free bool
		}{{"MarkUsed", false}, {"MarkUnused", true}} {
			fn := c.Method(vt, m.name)
			for k := int64(0); k < 8; k++ {
				st := s.E.NewState()
				vc := s.E.InputContent("bitmap", ai.Num(16), elem)
				vbm := s.E.NewBytes(st, vc)
				part, byt := ai.Of(s.E.U.Input("part", 0, 15)), ai.Of(s.E.U.Input("byte", 0, 511))
				q := part.Scale(512).Add(byt)
				b := ai.IntV{L: q.Scale(8).AddC(k)}
				for _, r := range s.Run(fn, st, vbm, b) {
					s.decides("mark", s.where(fn), s.Run(isFree, r.St.Clone(), vbm, b), m.free, "after %s(8q+%d), IsFree of that block", m.name, k)
					old := s.E.NewState()
					ovbm := s.E.NewBytes(old, vc)
					for k2 := int64(0); k2 < 8; k2++ {
						for _, rel := range []string{"same", "byte below", "byte above", "part below", "part above"} {
							st2 := r.St.Clone()
							part2, byt2 := ai.Of(s.E.U.Input("part2", 0, 15)), ai.Of(s.E.U.Input("byte2", 0, 511))
							var d ai.Lin
							switch rel {
							case "same":
								if k2 == k {
									continue
								}
								part2, byt2 = part, byt
							case "byte below":
								part2, d = part, byt.Sub(byt2).AddC(-1)
							case "byte above":
								part2, d = part, byt2.Sub(byt).AddC(-1)
							case "part below":
								d = part.Sub(part2).AddC(-1)
							case "part above":
								d = part2.Sub(part).AddC(-1)
							}
							if !st2.F.AssumeGE(d) {
								continue
							}
							q2 := part2.Scale(512).Add(byt2)
							b2 := ai.IntV{L: q2.Scale(8).AddC(k2)}
							before := s.Run(isFree, old.Clone(), ovbm, b2)
							if !s.Check(len(before) == 1, "mark", s.where(isFree), "several outcomes") {
								continue
							}
							bc, ok := s.cond(before[0].Ret)
							if !s.Check(ok, "mark", s.where(isFree), "result is not a condition") {
								continue
							}
							for _, want := range []bool{true, false} {
								st3 := st2.Clone()
								cc := bc
								if !want {
									cc = bc.Not()
								}
								if !st3.F.Assume(cc) {
									continue
								}
								s.decides("mark", s.where(fn), s.Run(isFree, st3, vbm, b2), want, "%s(8q+%d) changes block 8q'+%d (%s), which was free=%v", m.name, k, k2, rel, want)
							}
						}
					}
				}
			}
		}
	})
	c.Section("written", func(s *Sec) {
		// A bitmap built by the constructor, written out: bit 7-k of byte q.
		nw, used, write := c.Fn("prodos", "NewVolumeBitMap"), c.Method(vt, "MarkUsed"), c.Method(vt, "Write")
		for _, size := range []int64{280, 4100} {
			st := s.E.NewState()
			dev, old := s.Input(st, "device", ai.Num(size*512))
			start := s.Int("start", 3, 200)
			for _, r := range s.Run(nw, st, start, num(size)) {
				vbm, ok := r.Ret.(ai.SliceV)
				if !s.Check(ok, "written", s.where(nw), "result is not a slice") {
					continue
				}
				k := size - 3
				for _, r2 := range s.Run(used, r.St, vbm, num(k)) {
					for _, r3 := range s.Run(write, r2.St, vbm, dev) {
						if !s.Check(s.errOf(r3.St, r3.Ret) == 1, "written", s.where(write), "fails on a device with room") {
							continue
						}
						cur := s.E.Content(r3.St, dev)
						parts := (size + 4095) / 4096
						bad := 0
						for i := int64(0); i < parts*512 && bad < 3; i++ {
							var w int64
							for bit := int64(0); bit < 8; bit++ {
								if b := i*8 + bit; b < size && b != k {
									w |= 0x80 >> uint(bit)
								}
							}
							v := s.E.Read(r3.St.F, cur, start.L.Scale(512).AddC(i))
							if !s.Check(s.E.ValEq(r3.St, v, num(w)) == ai.True, "written", s.where(write), "bitmap byte %d of a %d-block device with block %d used is %s, want 0x%02x", i, size, k, ai.ValStr(v), w) {
								bad++
							}
						}
						for _, o := range []ai.Lin{start.L.Scale(512).AddC(-1), start.L.Scale(512).AddC(parts * 512), ai.Num(0)} {
							s.Check(s.E.ValEq(r3.St, s.E.Read(r3.St.F, cur, o), s.E.Read(r3.St.F, old, o)) == ai.True, "written", s.where(write), "writing the bitmap changes a byte outside it")
						}
					}
				}
			}
		}
		// a device too small for the bitmap
		st := s.E.NewState()
		dev := s.Bytes(st, "device", ai.Num(512*6))
		for _, r := range s.Run(nw, st, num(6), num(280)) {
			for _, r2 := range s.Run(write, r.St, r.Ret, dev) {
				s.Check(s.errOf(r2.St, r2.Ret) == 2, "written", s.where(write), "writing a bitmap beyond the device is not an error")
			}
		}
	})
	c.Section("new", func(s *Sec) {
		nw, isFree := c.Fn("prodos", "NewVolumeBitMap"), c.Method(vt, "IsFree")
		sizes := []int64{1, 280, 4096, 4097, 65535}
		for _, size := range sizes {
			st := s.E.NewState()
			for _, r := range s.Run(nw, st, num(6), num(size)) {
				vbm, ok := r.Ret.(ai.SliceV)
				if !s.Check(ok, "new", s.where(nw), "result is not a slice") {
					continue
				}
				want := (size + 4095) / 4096
				if !s.Check(r.St.F.ProveEq(vbm.Len.AddC(-want)), "new", s.where(nw), "a bitmap for %d blocks has %s parts, want %d", size, vbm.Len, want) {
					continue
				}
				for _, b := range []int64{0, 1, 6, 7, 8, 9, 15, 100, 279, 280, 281, 4095, 4096, 4097, 8191, 8192, 61439, 61440, size - 2, size - 1, size, size + 1} {
					if b < 0 || b >= want*4096 || b > 65535 {
						continue
					}
					s.decides("new", s.where(nw), s.Run(isFree, r.St.Clone(), vbm, num(b)), b < size, fmt.Sprintf("block %d of a new bitmap for %d blocks", b, size))
				}
				gb := c.Method(types.NewPointer(elem), "GetBlock")
				for i := int64(0); i < want; i++ {
					v := s.E.Read(r.St.F, s.E.Content(r.St, vbm), vbm.Off.AddC(i))
					st2 := r.St.Clone()
					for _, q := range s.Run(gb, st2, s.argFor(st2, gb, v, elem)) {
						s.Check(s.E.ValEq(q.St, q.Ret, num(6+i)) == ai.True, "new", s.where(nw), "part %d is at block %s, want %d", i, ai.ValStr(q.Ret), 6+i)
					}
				}
			}
		}
	})
}
