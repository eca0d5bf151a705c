package props

import (
	"fmt"
	"go/types"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C26", Level: "other",
		Explanation: "The VTOC and the four kinds of ProDOS directory block are decoded from a sector or block of unknown bytes and validated. With every constrained byte in its allowed range (and all others unconstrained) validation must find nothing; for each constraint in turn, with that one violated and all others kept, it must report a problem.",
		MinRules:    map[string]int{"accept": 8, "reject": 250},
		Run:         runC26})
}

// rng is a constraint on one byte: the allowed ranges.
type rng struct {
	off  int64
	what string
	ok   [][2]int64
}

func (g rng) bad() [][2]int64 {
	var r [][2]int64
	next := int64(0)
	for _, o := range g.ok {
		if o[0] > next {
			r = append(r, [2]int64{next, o[0] - 1})
		}
		next = o[1] + 1
	}
	if next <= 255 {
		r = append(r, [2]int64{next, 255})
	}
	return r
}

func eq(off int64, what string, v int64) rng { return rng{off, what, [][2]int64{{v, v}}} }

func runC26(c *Ctx) {
	vtoc := []rng{eq(3, "DOS release", 3), {6, "volume", [][2]int64{{0, 254}}}, eq(0x27, "pairs per list", 122), {0x31, "track direction", [][2]int64{{1, 1}, {255, 255}}},
		eq(0x34, "number of tracks", 35), {0x35, "number of sectors", [][2]int64{{13, 13}, {16, 16}}}, eq(0x36, "bytes per sector (low)", 0), eq(0x37, "bytes per sector (high)", 1)}
	for i := int64(0); i < 50; i++ {
		vtoc = append(vtoc, eq(0x38+4*i+2, fmt.Sprintf("unused free-map byte 2 of track %d", i), 0), eq(0x38+4*i+3, fmt.Sprintf("unused free-map byte 3 of track %d", i), 0))
	}
	date := func(off int64, what string) []rng {
		return []rng{{off + 2, what + " hour", [][2]int64{{0, 23}}}, {off + 3, what + " minute", [][2]int64{{0, 59}}}}
	}
	dir := func(key, sub bool) []rng {
		var g []rng
		first := int64(0)
		if key {
			g = append(g, eq(0, "previous block (low)", 0), eq(1, "previous block (high)", 0))
			g = append(g, date(4+0x18, "header creation")...)
			first = 1
		}
		if sub && key {
			g = append(g, eq(4+0x10, "subdirectory marker", 0x75))
		}
		for i := first; i < 13; i++ {
			g = append(g, date(4+0x27*i+0x18, fmt.Sprintf("creation of entry %d", i))...)
			g = append(g, date(4+0x27*i+0x21, fmt.Sprintf("modification of entry %d", i))...)
		}
		return append(g, eq(511, "trailing byte", 0))
	}
	for _, k := range []struct {
		pkg, typ string
		n        int64
		g        []rng
	}{{"dos3", "VTOC", 256, vtoc}, {"prodos", "VolumeDirectoryKeyBlock", 512, dir(true, false)}, {"prodos", "VolumeDirectoryBlock", 512, dir(false, false)},
		{"prodos", "SubdirectoryKeyBlock", 512, dir(true, true)}, {"prodos", "SubdirectoryBlock", 512, dir(false, true)}} {
		k := k
		c.Section(k.typ, func(s *Sec) {
			t := c.Type(k.pkg, k.typ)
			pt := types.NewPointer(t)
			from := "FromSector"
			if k.n == 512 {
				from = "FromBlock"
			}
			ff, val := c.Method(pt, from), c.Method(pt, "Validate")
			// run decodes and validates a block; the answer is per outcome: accepted, rejected or unknown.
			run := func(bytes map[int64][2]int64, f func(st *ai.State, tri ai.Tri)) {
				st := s.E.NewState()
				vals := make([]ai.Value, k.n)
				for i := range vals {
					lo, hi := int64(0), int64(255)
					if b, ok := bytes[int64(i)]; ok {
						lo, hi = b[0], b[1]
					}
					if lo == hi {
						vals[i] = num(lo)
					} else {
						vals[i] = ai.IntV{L: ai.Of(s.E.U.Input(fmt.Sprintf("byte[%d]", i), lo, hi))}
					}
				}
				av := s.E.ArrayOf(vals, types.Typ[types.Uint8])
				p := s.E.Alloc(st, s.E.ZeroValue(t), t, "block")
				var arg ai.Value = av
				if !s.isArrayParam(ff) {
					arg = s.E.NewBytes(st, av.C)
				}
				for _, r := range s.Run(ff, st, p, arg) {
					for _, q := range s.Run(val, r.St, p) {
						f(q.St, s.accepted(q))
					}
				}
			}
			// every combination of the allowed alternatives
			combos := []map[int64][2]int64{{}}
			for _, g := range k.g {
				var next []map[int64][2]int64
				for _, m := range combos {
					for _, o := range g.ok {
						m2 := map[int64][2]int64{g.off: o}
						for a, b := range m {
							m2[a] = b
						}
						next = append(next, m2)
					}
				}
				combos = next
			}
			for _, m := range combos {
				n := 0
				run(m, func(st *ai.State, tri ai.Tri) {
					n++
					s.Check(tri == ai.True, "accept", s.where(val), "%s: a well-formed one is reported as invalid", k.typ)
				})
				s.Check(n > 0, "accept", s.where(val), "%s: no outcome", k.typ)
			}
			for _, g := range k.g {
				for _, bad := range g.bad() {
					m := map[int64][2]int64{g.off: bad}
					for a, b := range combos[0] {
						if a != g.off {
							m[a] = b
						}
					}
					run(m, func(st *ai.State, tri ai.Tri) {
						s.Check(tri == ai.False, "reject", s.where(val), "%s: %s in %d-%d is not reported", k.typ, g.what, bad[0], bad[1])
					})
				}
			}
		})
	}
}

// accepted: no error in a returned error or list of errors.
func (s *Sec) accepted(r ai.CallRes) ai.Tri {
	if sl, ok := r.Ret.(ai.SliceV); ok {
		if r.St.F.ProveEq(sl.Len) {
			return ai.True
		}
		if r.St.F.Prove(sl.Len.AddC(-1)) {
			return ai.False
		}
		return ai.Unknown
	}
	switch s.errOf(r.St, r.Ret) {
	case 1:
		return ai.True
	case 2:
		return ai.False
	}
	return ai.Unknown
}
