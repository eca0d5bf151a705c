package props

import (
	"go/types"

	"diskcheck/ai"
)

func init() {
	ex := "Every structure's decoder and encoder is interpreted abstractly on wholly unknown bytes (decode, round trip) and on a structure with wholly unknown fields (encode). Each field must be exactly the documented bytes at the documented offset, in both directions; decoding into a structure with arbitrary old contents and encoding again must reproduce every byte; inputs of any other length must be refused. "
	register(&Spec{ID: "C08", Level: "other",
		Explanation: ex + "The VTOC, catalog and track/sector-list sectors of DOS 3.3, directory entries inside them, and the default VTOC.",
		MinRules:    map[string]int{"decode": 700, "encode": 700, "round-trip": 700, "length": 4, "default": 240},
		Run:         runC08})
	register(&Spec{ID: "C09", Level: "other",
		Explanation: ex + "The four ProDOS directory block forms (volume and subdirectory, key and continuation) and index blocks (entry i is low byte i, high byte 256+i; setting an entry changes exactly those two bytes).",
		MinRules:    map[string]int{"decode": 1500, "encode": 1500, "round-trip": 2000, "index": 4},
		Run:         runC09})
}

func runC08(c *Ctx) {
	for _, ly := range dosLayouts() {
		ly := ly
		c.Section(ly.typ, func(s *Sec) { s.layoutCheck(ly) })
	}
	c.Section("FileDesc", func(s *Sec) {
		t := c.Type("dos3", "FileDesc")
		st := s.E.NewState()
		data, dc := s.Input(st, "data", ai.Num(35))
		p := s.E.Alloc(st, s.E.Named(t, "old"), t, "sink")
		from, to := c.Method(types.NewPointer(t), "FromBytes"), c.Method(types.NewPointer(t), "ToBytes")
		for _, r := range s.Run(from, st, p, data) {
			v := s.E.Obj(r.St, p.Obj)
			for _, l := range dosFileDesc().l {
				fv, _ := s.at(r.St, v, t, l.path)
				s.leafSame("decode", s.where(from), r.St, l, fv, dc, ai.Num(0))
			}
			for _, q := range s.Run(to, r.St, p) {
				oc, oo, on, ok := s.bytesOf(q.St, q.Ret)
				if s.Check(ok && q.St.F.ProveEq(on.AddC(-35)), "round-trip", s.where(to), "does not yield 35 bytes") {
					s.Check(s.sameRegion("round-trip", s.where(to), q.St, oc, oo, dc, ai.Num(0), 35), "round-trip", s.where(to), "loses bytes")
				}
			}
		}
	})
	c.Section("DefaultVTOC", func(s *Sec) {
		fn := c.Fn("dos3", "DefaultVTOC")
		t := c.Type("dos3", "VTOC")
		want := make([]int64, 256)
		for o, v := range map[int]int64{1: 0x11, 2: 0x0f, 3: 3, 6: 1, 0x27: 122, 0x31: 1, 0x34: 35, 0x35: 16, 0x37: 1} {
			want[o] = v
		}
		for i := 0; i < 35; i++ {
			want[0x38+4*i], want[0x39+4*i] = 0xff, 0xff
		}
		for _, r := range s.Run(fn, s.E.NewState()) {
			p := s.E.Alloc(r.St, r.Ret, t, "default")
			for _, q := range s.Run(c.Method(types.NewPointer(t), "ToSector"), r.St, p) {
				oc, oo, _, ok := s.bytesOf(q.St, ret(q.Ret, 0))
				if !s.Check(ok, "default", s.where(fn), "cannot be encoded") {
					continue
				}
				for i, w := range want {
					if i == 0x30 { // "last track" has no documented default
						continue
					}
					b := s.E.Read(q.St.F, oc, oo.AddC(int64(i)))
					s.Check(s.E.ValEq(q.St, b, num(w)) == ai.True, "default", s.where(fn), "byte 0x%x of the default VTOC is %s, want 0x%x", i, ai.ValStr(b), w)
				}
			}
		}
	})
}

func runC09(c *Ctx) {
	for _, ly := range prodosLayouts() {
		ly := ly
		c.Section(ly.typ, func(s *Sec) { s.layoutCheck(ly) })
	}
	c.Section("IndexBlock", func(s *Sec) {
		t := c.Type("prodos", "IndexBlock")
		get, set := c.Method(t, "Get"), c.Method(types.NewPointer(t), "Set")
		st := s.E.NewState()
		ic := s.E.InputContent("index", ai.Num(512), types.Typ[types.Uint8])
		i := s.Int("i", 0, 255)
		rb := func(st *ai.State, o ai.Lin) ai.Lin { return s.E.Read(st.F, ic, o).(ai.IntV).L }
		for _, r := range s.Run(get, st, s.argFor(st, get, ai.ArrV{C: ic}, t), i) {
			v, ok := r.Ret.(ai.IntV)
			w := rb(r.St, i.L).Add(rb(r.St, i.L.AddC(256)).Scale(256))
			s.Check(ok && r.St.F.ProveEq(v.L.Sub(w)), "index", s.where(get), "entry i is %s, want %s", ai.ValStr(r.Ret), w)
		}
		st = s.E.NewState()
		p := s.E.Alloc(st, ai.ArrV{C: ic}, t, "index")
		b := s.Int("block", 0, 65535)
		for _, r := range s.Run(set, st, s.ptrFor(st, set, p, t), i, b) {
			av, ok := s.E.Obj(r.St, p.Obj).(ai.ArrV)
			if !s.Check(ok, "index", s.where(set), "content lost") {
				continue
			}
			lo := s.E.Read(r.St.F, av.C, i.L)
			hi := s.E.Read(r.St.F, av.C, i.L.AddC(256))
			s.Check(s.E.ValEq(r.St, lo, ai.IntV{L: s.E.U.Mod(b.L, 256, r.St.F)}) == ai.True, "index", s.where(set), "low byte of entry i becomes %s", ai.ValStr(lo))
			s.Check(s.E.ValEq(r.St, hi, ai.IntV{L: s.E.U.Div(b.L, 256, r.St.F)}) == ai.True, "index", s.where(set), "high byte of entry i becomes %s", ai.ValStr(hi))
			// every other byte
			j := ai.Of(s.E.U.Input("j", 0, 511))
			for _, cs := range [][2]ai.Lin{{j.Sub(i.L).AddC(-1), i.L.AddC(255).Sub(j)}, {i.L.Sub(j).AddC(-1), j}, {j.Sub(i.L).AddC(-257), j.Neg().AddC(511)}} {
				st2 := r.St.Clone()
				if !st2.F.AssumeGE(cs[0]) || !st2.F.AssumeGE(cs[1]) {
					continue
				}
				got, want := s.E.Read(st2.F, av.C, j), s.E.Read(st2.F, ic, j)
				s.Check(s.E.ValEq(st2, got, want) == ai.True, "index", s.where(set), "another byte becomes %s", ai.ValStr(got))
			}
		}
	})
}
