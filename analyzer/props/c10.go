package props

import (
	"fmt"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C10", Level: "other",
		Explanation: "Loading and persisting the NakedOS sector map are interpreted on wholly unknown images and maps and compared byte for byte with the documented place of the map (560 bytes from track 0 sector 9 offset $D0). Single-entry lookups and updates are interpreted for unknown tracks, sectors, file numbers and maps; listing, counting, reading and verification are interpreted on maps in which the owner of every sector is unknown within its class (this file, other files below and above it, free, reserved), over patterns that put every sector into every class.",
		MinRules:    map[string]int{"load": 560, "persist": 560, "entry": 10, "owned": 100, "count": 10, "verify": 20, "read": 20},
		Run:         runC10})
}

const smN = 560
const smAt = 9*256 + 0xd0

// smClass describes the owner of each sector: R reserved, F free, O this file, L/H another file (lower/higher number), Z zero.
type smClass func(i int) byte

// smPatterns puts every sector from track 0 sector C on into every class.
func smPatterns() map[string]smClass {
	low := func(f smClass) smClass {
		return func(i int) byte {
			if i < 12 {
				return 'R'
			}
			return f(i)
		}
	}
	m := map[string]smClass{
		"none": low(func(i int) byte { return "LFH"[i%3] }),
		"all":  low(func(i int) byte { return 'O' }),
		"ends": low(func(i int) byte {
			if i == 12 || i == 559 {
				return 'O'
			}
			return "HFL"[i%3]
		}),
		"late": low(func(i int) byte {
			if i > 540 {
				return 'O'
			}
			return "LH"[i%2]
		}),
	}
	for k := 0; k < 5; k++ {
		k := k
		m[fmt.Sprintf("mix%d", k)] = low(func(i int) byte { return "OLFHR"[(i+i/16+k)%5] })
	}
	return m
}

var smPatternNames = []string{"none", "all", "ends", "late", "mix0", "mix1", "mix2", "mix3", "mix4"}

// owners gives the owner bytes of a pattern; f is this file's number, whose range is [lo,hi].
func (s *Sec) owners(p smClass, f ai.Lin, lo, hi int64) []ai.Lin {
	b := make([]ai.Lin, smN)
	for i := range b {
		c := p(i)
		if c == 'L' && lo == 1 {
			c = 'H'
		}
		if c == 'H' && hi == 0xfd {
			c = 'L'
		}
		switch c {
		case 'R':
			b[i] = ai.Num(0xfe)
		case 'F':
			b[i] = ai.Num(0xff)
		case 'O':
			b[i] = f
		case 'L':
			b[i] = s.in(fmt.Sprintf("lower%d", i), 1, lo-1)
		case 'H':
			b[i] = s.in(fmt.Sprintf("higher%d", i), hi+1, 0xfd)
		case 'Z':
			b[i] = ai.Num(0)
		}
	}
	return b
}

// fileRange is a class of file numbers.
type fileRange struct{ lo, hi int64 }

var fileRanges = []fileRange{{0x40, 0x7f}, {1, 1}, {0xfd, 0xfd}}

func (s *Sec) sameLin(rule, where string, st *ai.State, v ai.Value, want ai.Lin, format string, a ...interface{}) bool {
	x, ok := v.(ai.IntV)
	return s.Check(ok && st.F.ProveEq(x.L.Sub(want)), rule, where, format+": %s, want %s", append(a, ai.ValStr(v), want.String())...)
}

// tsList reads a []disk.TrackSector as positions track*16+sector.
func (s *Sec) tsList(st *ai.State, v ai.Value) ([]int64, bool) {
	els, ok := s.E.SliceElems(st, v)
	if !ok {
		return nil, false
	}
	t := s.Type("disk", "TrackSector")
	var r []int64
	for _, e := range els {
		tr, ok1 := s.Field(e, t, "Track").(ai.IntV)
		se, ok2 := s.Field(e, t, "Sector").(ai.IntV)
		if !ok1 || !ok2 {
			return nil, false
		}
		a, ok1 := st.F.Const(tr.L)
		b, ok2 := st.F.Const(se.L)
		if !ok1 || !ok2 {
			return nil, false
		}
		r = append(r, a*16+b)
	}
	return r, true
}

// unchanged checks that a byte slice still has its content.
func (s *Sec) unchanged(rule, where string, st *ai.State, v ai.SliceV, old *ai.Content, n int64, what string) bool {
	cur := s.E.Content(st, v)
	if cur == old {
		s.Ok(rule, 1)
		return true
	}
	for i := int64(0); i < n; i++ {
		a, b := s.E.Read(st.F, cur, v.Off.AddC(i)), s.E.Read(st.F, old, ai.Num(i))
		if s.E.ValEq(st, a, b) != ai.True {
			return s.Check(false, rule, where, "%s: byte 0x%x becomes %s", what, i, ai.ValStr(a))
		}
	}
	s.Ok(rule, 1)
	return true
}

func runC10(c *Ctx) {
	smt := c.Type("supermon", "SectorMap")
	m := func(n string) func(s *Sec, st *ai.State, args ...ai.Value) []ai.CallRes {
		fn := c.Method(smt, n)
		return func(s *Sec, st *ai.State, args ...ai.Value) []ai.CallRes {
			return s.Run(fn, st, append([]ai.Value{s.argFor(st, fn, args[0], smt)}, args[1:]...)...)
		}
	}
	c.Section("load", func(s *Sec) {
		fn := c.Fn("supermon", "LoadSectorMap")
		st := s.E.NewState()
		img, ic := s.Input(st, "image", ai.Num(floppy))
		for _, r := range s.Run(fn, st, img) {
			if !s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 1, "load", s.where(fn), "a floppy image is refused") {
				continue
			}
			sm, ok := ret(r.Ret, 0).(ai.SliceV)
			if !s.Check(ok && r.St.F.ProveEq(sm.Len.AddC(-smN)), "load", s.where(fn), "the map does not have 560 entries") {
				continue
			}
			mc := s.E.Content(r.St, sm)
			for i := int64(0); i < smN; i++ {
				a, b := s.E.Read(r.St.F, mc, sm.Off.AddC(i)), s.E.Read(r.St.F, ic, ai.Num(smAt+i))
				s.Check(s.E.ValEq(r.St, a, b) == ai.True, "load", s.where(fn), "entry %d is %s, want the byte at 0x%x", i, ai.ValStr(a), smAt+i)
			}
			s.Check(s.E.Content(r.St, img) == ic, "load", s.where(fn), "loading changes the image")
			s.Check(sm.Obj != img.Obj, "load", s.where(fn), "the map shares its memory with the image")
		}
		st = s.E.NewState()
		short := s.Bytes(st, "short", s.in("len(short)", 0, 9*256))
		for _, r := range s.Run(fn, st, short) {
			s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 2, "load", s.where(fn), "an image without a sector map is not refused")
		}
	})
	c.Section("persist", func(s *Sec) {
		fn := c.Method(smt, "Persist")
		st := s.E.NewState()
		img, ic := s.Input(st, "image", ai.Num(floppy))
		sm, mc := s.Input(st, "map", ai.Num(smN))
		for _, r := range s.Run(fn, st, s.argFor(st, fn, sm, smt), img) {
			if !s.Check(s.errOf(r.St, r.Ret) == 1, "persist", s.where(fn), "fails on a floppy image") {
				continue
			}
			cur := s.E.Content(r.St, img)
			for i := int64(0); i < floppy; i++ {
				a := s.E.Read(r.St.F, cur, ai.Num(i))
				var b ai.Value
				if i >= smAt && i < smAt+smN {
					b = s.E.Read(r.St.F, mc, ai.Num(i-smAt))
				} else {
					b = s.E.Read(r.St.F, ic, ai.Num(i))
				}
				if !s.Check(s.E.ValEq(r.St, a, b) == ai.True, "persist", s.where(fn), "image byte 0x%x becomes %s, want %s", i, ai.ValStr(a), ai.ValStr(b)) {
					break
				}
			}
			s.Check(s.E.Content(r.St, sm) == mc, "persist", s.where(fn), "persisting changes the map")
		}
		st = s.E.NewState()
		short := s.Bytes(st, "short", s.in("len(short)", 0, 9*256))
		sm, _ = s.Input(st, "map", ai.Num(smN))
		for _, r := range s.Run(fn, st, s.argFor(st, fn, sm, smt), short) {
			s.Check(s.errOf(r.St, r.Ret) == 2, "persist", s.where(fn), "an image without room for the map is not refused")
		}
	})
	c.Section("entry", func(s *Sec) {
		get, set := c.Method(smt, "FileForSector"), c.Method(smt, "SetFileForSector")
		for _, k := range [][4]int64{{0, 34, 0, 15}, {35, 255, 0, 255}, {0, 255, 16, 255}} {
			inside := k[1] == 34
			tr, se := s.in("track", k[0], k[1]), s.in("sector", k[2], k[3])
			st := s.E.NewState()
			sm, mc := s.Input(st, "map", ai.Num(smN))
			for _, r := range s.Run(get, st, s.argFor(st, get, sm, smt), ai.IntV{L: tr}, ai.IntV{L: se}) {
				if inside {
					s.Check(s.E.ValEq(r.St, r.Ret, s.E.Read(r.St.F, mc, tr.Scale(16).Add(se))) == ai.True, "entry", s.where(get), "the owner of track t, sector s is %s, want entry 16t+s", ai.ValStr(r.Ret))
				} else {
					s.sameLin("entry", s.where(get), r.St, r.Ret, ai.Num(0), "owner of a sector that does not exist")
				}
			}
			for _, f := range [][2]int64{{1, 0xfd}, {0, 0}, {0xfe, 0xfe}, {0xff, 0xff}} {
				st := s.E.NewState()
				sm, mc := s.Input(st, "map", ai.Num(smN))
				fl := s.in(fmt.Sprintf("file%d", f[0]), f[0], f[1])
				for _, r := range s.Run(set, st, s.argFor(st, set, sm, smt), ai.IntV{L: tr}, ai.IntV{L: se}, ai.IntV{L: fl}) {
					cur := s.E.Content(r.St, sm)
					if !inside || f[0] != 1 {
						s.Check(s.errOf(r.St, r.Ret) == 2, "entry", s.where(set), "setting file %#x of a sector (tracks %d-%d, sectors %d-%d) is not refused", f[0], k[0], k[1], k[2], k[3])
						s.unchanged("entry", s.where(set), r.St, sm, mc, smN, "refused update")
						continue
					}
					s.Check(s.errOf(r.St, r.Ret) == 1, "entry", s.where(set), "setting the owner of a sector is refused")
					p := tr.Scale(16).Add(se)
					s.Check(s.E.ValEq(r.St, s.E.Read(r.St.F, cur, p), ai.IntV{L: fl}) == ai.True, "entry", s.where(set), "the owner is not stored in entry 16t+s")
					for _, d := range []int64{1, -1} {
						st2 := r.St.Clone()
						q := s.in("other", 0, smN-1)
						if st2.F.AssumeGE(q.Sub(p).Scale(d).AddC(-1)) {
							s.Check(s.E.ValEq(st2, s.E.Read(st2.F, cur, q), s.E.Read(st2.F, mc, q)) == ai.True, "entry", s.where(set), "setting the owner of one sector changes another entry")
						}
					}
				}
			}
		}
	})
	list, free, read, del := m("SectorsForFile"), m("FreeSectors"), m("ReadFile"), m("Delete")
	for _, name := range smPatternNames {
		name, p := name, smPatterns()[name]
		for _, fr := range fileRanges {
			fr := fr
			c.Section(fmt.Sprintf("owned %s %02x", name, fr.lo), func(s *Sec) {
				f := s.in("file", fr.lo, fr.hi)
				own := s.owners(p, f, fr.lo, fr.hi)
				var mine []int64
				nfree := int64(0)
				for i := range own {
					if p(i) == 'O' {
						mine = append(mine, int64(i))
					}
					if p(i) == 'F' {
						nfree++
					}
				}
				st := s.E.NewState()
				sm := s.byteSlice(st, own)
				mc := s.E.Content(st, sm)
				for _, r := range list(s, st.Clone(), sm, ai.IntV{L: f}) {
					l, ok := s.tsList(r.St, r.Ret)
					s.Check(ok && sameInts(l, mine), "owned", "SectorMap.SectorsForFile", "pattern %s: sectors of the file are %v, want %v", name, l, mine)
					s.Check(s.E.Content(r.St, sm) == mc, "owned", "SectorMap.SectorsForFile", "listing changes the map")
				}
				for _, r := range free(s, st.Clone(), sm) {
					s.sameLin("count", "SectorMap.FreeSectors", r.St, r.Ret, ai.Num(nfree), "pattern %s: free sectors", name)
				}
				img, ic := s.Input(st, "image", ai.Num(floppy))
				for _, r := range read(s, st.Clone(), sm, img, ai.IntV{L: f}) {
					if !s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 1, "read", "SectorMap.ReadFile", "pattern %s: reading the file fails", name) {
						continue
					}
					sl, ok := ret(r.Ret, 0).(ai.SliceV)
					if !s.Check(ok && r.St.F.ProveEq(sl.Len.AddC(int64(-256*len(mine)))), "read", "SectorMap.ReadFile", "pattern %s: the file has %s bytes, want %d", name, sl.Len, 256*len(mine)) {
						continue
					}
					oc := s.E.Content(r.St, sl)
				outer:
					for k, pos := range mine {
						for o := int64(0); o < 256; o++ {
							a, b := s.E.Read(r.St.F, oc, sl.Off.AddC(int64(k)*256+o)), s.E.Read(r.St.F, ic, ai.Num(pos*256+o))
							if !s.Check(s.E.ValEq(r.St, a, b) == ai.True, "read", "SectorMap.ReadFile", "pattern %s: byte %d of sector %d of the file is %s, want byte %d of sector %d of the image", name, o, k, ai.ValStr(a), o, pos) {
								break outer
							}
						}
					}
					s.Check(s.E.Content(r.St, img) == ic && s.E.Content(r.St, sm) == mc, "read", "SectorMap.ReadFile", "reading changes the image or the map")
				}
				for _, r := range del(s, st.Clone(), sm, ai.IntV{L: f}) {
					cur := s.E.Content(r.St, sm)
					for i := range own {
						want := own[i]
						if p(i) == 'O' {
							want = ai.Num(0xff)
						}
						s.sameLin("owned", "SectorMap.Delete", r.St, s.E.Read(r.St.F, cur, ai.Num(int64(i))), want, "pattern %s: entry %d after deleting the file", name, i)
					}
				}
			})
		}
	}
	c.Section("verify", func(s *Sec) {
		fn := c.Method(smt, "Verify")
		mk := func(st *ai.State, bad int, v [2]int64) ai.SliceV {
			b := make([]ai.Lin, smN)
			for i := range b {
				switch {
				case i == bad:
					b[i] = s.in(fmt.Sprintf("bad%d", v[0]), v[0], v[1])
				case i < 12:
					b[i] = ai.Num(0xfe)
				default:
					b[i] = s.in(fmt.Sprintf("any%d", i), 1, 255)
				}
			}
			return s.byteSlice(st, b)
		}
		st := s.E.NewState()
		for _, r := range s.Run(fn, st, s.argFor(st, fn, mk(st, -1, [2]int64{}), smt)) {
			s.Check(s.errOf(r.St, r.Ret) == 1, "verify", s.where(fn), "a valid map is refused")
		}
		for i := 0; i < smN; i++ {
			if i >= 18 && i%16 != 0 && i%16 != 15 && i < 540 && !c.Thorough {
				continue
			}
			bads := [][2]int64{{0, 0}}
			if i < 12 {
				bads = [][2]int64{{0, 0xfd}, {0xff, 0xff}}
			}
			for _, b := range bads {
				st := s.E.NewState()
				for _, r := range s.Run(fn, st, s.argFor(st, fn, mk(st, i, b), smt)) {
					s.Check(s.errOf(r.St, r.Ret) == 2, "verify", s.where(fn), "a map with owner 0x%02X for sector %d of track %d is accepted", b[0], i%16, i/16)
				}
			}
		}
	})
	c.Section("first free", func(s *Sec) {
		fn := c.Method(smt, "FirstFreeFile")
		for _, k := range []int64{0, 1, 2, 100, 252, 253} {
			// files 1..k exist, one sector each, in scrambled order; k+2 too
			b := make([]ai.Lin, smN)
			for i := range b {
				b[i] = ai.Num(0xff)
				if i < 12 {
					b[i] = ai.Num(0xfe)
				}
			}
			for j := int64(1); j <= k; j++ {
				b[12+(j*37)%548] = ai.Num(j)
			}
			if k+2 < 0xfe {
				b[559] = ai.Num(k + 2)
			}
			st := s.E.NewState()
			want := k + 1
			if k == 253 {
				want = 0
			}
			for _, r := range s.Run(fn, st, s.argFor(st, fn, s.byteSlice(st, b), smt)) {
				s.sameLin("count", s.where(fn), r.St, r.Ret, ai.Num(want), "first unused file number with files 1-%d in use", k)
			}
		}
	})
	c.Section("by file", func(s *Sec) {
		fn := c.Method(smt, "SectorsByFile")
		b := make([]ai.Lin, smN)
		want := map[int64][]int64{}
		for i := range b {
			v := int64(0xfe)
			if i >= 12 {
				v = []int64{1, 0xff, 0xfd, 0x7f, 0xfe, 0x30, 1}[i%7]
			}
			b[i] = ai.Num(v)
			if v < 0xfe {
				want[v] = append(want[v], int64(i))
			}
		}
		st := s.E.NewState()
		for _, r := range s.Run(fn, st, s.argFor(st, fn, s.byteSlice(st, b), smt)) {
			mc, ok := s.E.MapOf(r.St, r.Ret)
			if !s.Check(ok && mc.Base == ai.MEmpty && len(mc.Ents) == len(want), "count", s.where(fn), "does not list exactly the files in the map") {
				continue
			}
			for _, en := range mc.Ents {
				kv, _ := en.K.(ai.IntV)
				k, _ := r.St.F.Const(kv.L)
				l, ok := s.tsList(r.St, en.V)
				s.Check(ok && sameInts(l, want[k]), "count", s.where(fn), "sectors of file 0x%02x are %v, want %v", k, l, want[k])
			}
		}
	})
}
