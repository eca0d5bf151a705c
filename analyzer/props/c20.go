package props

import (
	"fmt"
	"go/types"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C20", Level: "other",
		Explanation: "The mksd command is interpreted with program contents, load address and start address unknown, for a range of program lengths including every boundary. The written image is compared byte for byte with the Standard Delivery layout in every sector order; every forbidden combination of addresses and length must be refused without writing.",
		MinRules:    map[string]int{"image": 30000, "refuse": 5},
		Run:         runC20})
	register(&Spec{ID: "C25", Level: "other",
		Explanation: "The nakedos mkhello command is interpreted with unknown addresses and stand-in disk systems; the file handed to the disk system must be named DF01:FHELLO, be a binary of exactly 16 bytes holding the documented program with the requested file number, page and start address. Forbidden addresses, other systems and unresolvable names must be refused without writing.",
		MinRules:    map[string]int{"program": 60, "refuse": 5},
		Run:         runC25})
}

// sdLoader is the Standard Delivery boot loader up to the start address.
var sdLoader = []int64{
	0x01, 0xa8, 0xee, 0x06, 0x08, 0xad, 0x4e, 0x08, 0xc9, 0xc0, 0xf0, 0x40, 0x85, 0x27, 0xc8,
	0xc0, 0x10, 0x90, 0x09, 0xf0, 0x05, 0x20, 0x2f, 0x08, 0xa8, 0x2c, 0xa0, 0x01, 0x84, 0x3d,
	0xc8, 0xa5, 0x27, 0xf0, 0xdf, 0x8a, 0x4a, 0x4a, 0x4a, 0x4a, 0x09, 0xc0, 0x48, 0xa9, 0x5b,
	0x48, 0x60, 0xe6, 0x41, 0x06, 0x40, 0x20, 0x37, 0x08, 0x18, 0x20, 0x3c, 0x08, 0xe6, 0x40,
	0xa5, 0x40, 0x29, 0x03, 0x2a, 0x05, 0x2b, 0xa8, 0xb9, 0x80, 0xc0, 0xa9, 0x30, 0x4c, 0xa8,
	0xfc, 0x4c,
}

func runC20(c *Ctx) {
	t := c.Type("cmd", "SDCmd")
	run := c.Method(t, "Run")
	type vt struct {
		name, order, as string
	}
	c.Section("image", func(s *Sec) {
		s.E.TraceFails = true
		w := s.newWorld(stdSystems)
		where := s.where(run)
		for _, n := range []int64{1, 255, 256, 257, 7 * 256, 8*256 + 1, 15 * 256, 16*256 + 3, 176 * 256} {
			for _, v := range []vt{{".dsk", "auto", "do"}, {".po", "auto", "po"}, {".xyz", "auto", "do"}, {".po", "do", "do"}, {".dsk", "po", "po"}} {
				if n > 257 && v.order == "auto" && v.name != ".dsk" && n != 176*256 {
					continue
				}
				for _, dflt := range []bool{false, true} {
					st := s.E.NewState()
					bin := s.E.U.InputStr("binary", "x")
					s.E.FileLen = func(key string, l ai.Lin) ai.Lin { return ai.Num(n) }
					bc := s.E.InputContent("file:"+bin.String(), ai.Num(n), types.Typ[types.Uint8])
					page := ai.Of(s.E.U.Input("page", 0, (0xC000-n)/256))
					addr := page.Scale(256)
					start := addr.Add(ai.Of(s.E.U.Input("offset", 0, n-1)))
					st.F.AssumeGE(ai.Num(0xC000 - n).Sub(start))
					startV := ai.IntV{L: start}
					if dflt {
						startV, start = num(0xffff), addr
					}
					name := s.E.U.InputStr("image", v.name)
					what := fmt.Sprintf("mksd of %d bytes to x%s (order %s)", n, v.name, v.order)
					wrote := 0
					for _, r := range s.cmdRun("SDCmd", w, st, map[string]ai.Value{"Order": ai.Lit(v.order), "DiskImage": name, "Binary": s.E.File(bin), "Address": ai.IntV{L: addr}, "Start": startV}) {
						ws := hostWrites(r.St)
						if len(ws) == 0 {
							s.Check(!s.noFail(r.St), "image", where, "%s: a program that fits is refused", what)
							continue
						}
						if !s.Check(len(ws) == 1, "image", where, "%s: %d writes", what, len(ws)) {
							continue
						}
						wrote++
						nm, data, dc := writeParts(ws[0])
						s.Check(nm.Key() == name.Key(), "image", where, "%s: writes %s", what, nm)
						if k, ok := r.St.F.Const(data.Len); !s.Check(ok && k == floppy && dc != nil, "image", where, "%s: image has %s bytes", what, data.Len) {
							continue
						}
						p2l := inverse(specL2P[v.as])
						seq := []int64{0, 2, 4, 6, 8, 10, 12, 14, 1, 3, 5, 7, 9, 11, 13, 15}
						secs := (n + 255) / 256
						byteAt := func(tr, ph, o int64) ai.Value {
							return s.E.Read(r.St.F, dc, data.Off.AddC(tr*4096+p2l[ph]*256+o))
						}
						used := map[[2]int64]bool{{0, 0}: true}
						bad := 0
						eq := func(got, want ai.Value, format string, a ...interface{}) {
							if bad > 3 {
								return
							}
							if !s.Check(s.E.ValEq(r.St, got, want) == ai.True, "image", where, "%s: %s is %s, want %s", what, fmt.Sprintf(format, a...), ai.ValStr(got), ai.ValStr(want)) {
								bad++
							}
						}
						for o := int64(0); o < 256; o++ {
							want := num(0)
							switch {
							case o < int64(len(sdLoader)):
								want = num(sdLoader[o])
							case o == 77:
								want = ai.IntV{L: s.E.U.Mod(start, 256, r.St.F)}
							case o == 78:
								want = ai.IntV{L: s.E.U.Div(start, 256, r.St.F)}
							case o < 79+secs:
								want = ai.IntV{L: page.AddC(o - 79)}
							case o == 79+secs:
								want = num(0xC0)
							}
							eq(byteAt(0, 0, o), want, "byte 0x%02x of the boot sector", o)
						}
						step := int64(1)
						if n > 5000 {
							step = 17
						}
						for i := int64(0); i < secs; i++ {
							tr, ph := (i+1)/16, seq[(i+1)%16]
							used[[2]int64{tr, ph}] = true
							for o := int64(0); o < 256; o += step {
								want := ai.Value(num(0))
								if i*256+o < n {
									want = s.E.Read(r.St.F, bc, ai.Num(i*256+o))
								}
								eq(byteAt(tr, ph, o), want, "program byte %d (track %d sector %d)", i*256+o, tr, ph)
							}
						}
						for tr := int64(0); tr < 35; tr++ {
							for ph := int64(0); ph < 16; ph++ {
								if !used[[2]int64{tr, ph}] {
									for _, o := range []int64{0, 1, 127, 254, 255} {
										eq(byteAt(tr, ph, o), num(0), "unused byte %d of track %d sector %d", o, tr, ph)
									}
								}
							}
						}
					}
					s.Check(wrote > 0, "image", where, "%s: never writes an image", what)
				}
			}
		}
	})
	c.Section("refuse", func(s *Sec) {
		w := s.newWorld(stdSystems)
		where := s.where(run)
		in := func(n string, lo, hi int64) ai.Lin { return ai.Of(s.E.U.Input(n, lo, hi)) }
		for _, n := range []int64{0, 1, 256, 1000, 20000, 176*256 + 1, 0xC000, 70000} {
			for _, k := range []string{"unaligned", "start below", "start beyond", "past BFFF", "too long", "empty"} {
				st := s.E.NewState()
				s.E.FileLen = func(key string, l ai.Lin) ai.Lin { return ai.Num(n) }
				addr, start := in("page", 0, 255).Scale(256), in("start", 0, 0xfffe)
				ok := true
				switch k {
				case "unaligned":
					addr = addr.Add(in("low", 1, 255))
				case "start below":
					ok = st.F.AssumeGE(addr.Sub(start).AddC(-1))
				case "start beyond":
					ok = st.F.AssumeGE(start.Sub(addr).AddC(-n))
				case "past BFFF":
					ok = st.F.AssumeGE(addr.AddC(n - 0xC001))
				case "too long":
					if n <= 176*256 {
						continue
					}
				case "empty":
					if n > 0 {
						continue
					}
				}
				if !ok {
					continue
				}
				for _, r := range s.cmdRun("SDCmd", w, st, map[string]ai.Value{"Order": ai.Lit("do"), "DiskImage": s.E.U.InputStr("image", ".dsk"), "Binary": s.E.File(s.E.U.InputStr("binary", "x")), "Address": ai.IntV{L: addr}, "Start": ai.IntV{L: start}}) {
					s.Check(s.errOf(r.St, r.Ret) == 2 && len(hostWrites(r.St)) == 0, "refuse", where, "a program of %d bytes with %s is not refused", n, k)
				}
			}
		}
	})
}

// noFail reports whether no external operation failed on the path.
func (s *Sec) noFail(st *ai.State) bool { return len(calls(st, "fail:")) == 0 }

func runC25(c *Ctx) {
	t := c.Type("cmd", "MkHelloCmd")
	run := c.Method(t, "Run")
	c.Section("program", func(s *Sec) {
		s.E.TraceFails = true
		where := s.where(run)
		for _, f := range []struct {
			name string
			num  int64
		}{{"DF06", 6}, {"df7f", 0x7f}, {"DFFD", 0xfd}, {"2A", 0x2a}, {"DF05:NEWNAME", 5}} {
			for _, dflt := range []bool{false, true} {
				w := s.newWorld([][2]string{{"nakedos", "raw"}})
				st := s.E.NewState()
				img := s.E.U.InputStr("image", ".dsk")
				s.floppyFile(img)
				page := ai.Of(s.E.U.Input("page", 0, 255))
				addr := page.Scale(256)
				start := addr.Add(ai.Of(s.E.U.Input("offset", 0, 0xfffe)))
				st.F.AssumeGE(ai.Num(0xfffe).Sub(start))
				startV := ai.IntV{L: start}
				if dflt {
					startV, start = num(0xffff), addr
				}
				n := 0
				what := "mkhello " + f.name
				for _, r := range s.cmdRun("MkHelloCmd", w, st, map[string]ai.Value{"Order": ai.Lit("do"), "DiskImage": img, "Filename": ai.Lit(f.name), "Address": ai.IntV{L: addr}, "Start": startV}) {
					puts := calls(r.St, "PutFile:")
					if len(puts) == 0 {
						s.Check(s.errOf(r.St, r.Ret) == 2, "program", where, "%s: succeeds without putting anything", what)
						continue
					}
					n++
					p := puts[0]
					s.Check(len(puts) == 1, "program", where, "%s: puts %d files", what, len(puts))
					s.Check(s.isBool(r.St, p.Args[1], true), "program", where, "%s: does not replace an old FHELLO", what)
					s.Check(s.E.ValEq(r.St, p.Args[2], ai.Lit("DF01:FHELLO")) == ai.True, "program", where, "%s: file name is %s", what, ai.ValStr(p.Args[2]))
					s.Check(s.E.ValEq(r.St, p.Args[3], num(16)) == ai.True, "program", where, "%s: length is %s", what, ai.ValStr(p.Args[3]))
					s.Check(s.E.ValEq(r.St, p.Args[4], num(6)) == ai.True, "program", where, "%s: type is %s", what, ai.ValStr(p.Args[4]))
					d, _ := p.Args[5].(ai.SliceV)
					if !s.Check(p.Snap[5] != nil && r.St.F.ProveEq(d.Len.AddC(-16)), "program", where, "%s: program has %s bytes", what, d.Len) {
						continue
					}
					want := []ai.Value{num(0x20), num(0x40), num(0x03), num(0x6d), num(0x01), num(0xdc), num(0x2c), num(f.num), num(0xdf), num(0x2c), num(0),
						ai.IntV{L: page}, num(0xd8), num(0x4c), ai.IntV{L: s.E.U.Mod(start, 256, r.St.F)}, ai.IntV{L: s.E.U.Div(start, 256, r.St.F)}}
					for i, x := range want {
						got := s.E.Read(r.St.F, p.Snap[5], d.Off.AddC(int64(i)))
						s.Check(s.E.ValEq(r.St, got, x) == ai.True, "program", where, "%s: byte %d is %s, want %s", what, i, ai.ValStr(got), ai.ValStr(x))
					}
				}
				s.Check(n > 0, "program", where, "%s: never puts the program", what)
			}
		}
	})
	c.Section("refuse", func(s *Sec) {
		where := s.where(run)
		for _, k := range []string{"unaligned", "start below", "other system", "two colons", "bad number", "number as name"} {
			sys := [][2]string{{"nakedos", "raw"}}
			if k == "other system" {
				sys = [][2]string{{"dos3", "do"}}
			}
			w := s.newWorld(sys)
			st := s.E.NewState()
			img := s.E.U.InputStr("image", ".dsk")
			s.floppyFile(img)
			page := ai.Of(s.E.U.Input("page", 0, 255))
			addr := page.Scale(256)
			start := ai.Of(s.E.U.Input("start", 0, 0xfffe))
			name := "DF06"
			ok := true
			switch k {
			case "unaligned":
				addr = addr.Add(ai.Of(s.E.U.Input("low", 1, 255)))
			case "start below":
				ok = st.F.AssumeGE(addr.Sub(start).AddC(-1))
			case "two colons":
				name = "DF05:A:B"
			case "bad number":
				name = "DFFF:FOO"
			case "number as name":
				name = "DF05:DF06"
			}
			if !ok {
				panic("contradiction")
			}
			v := map[string]ai.Value{"Order": ai.Lit("do"), "DiskImage": img, "Filename": ai.Lit(name), "Address": ai.IntV{L: addr}, "Start": ai.IntV{L: start}}
			for _, r := range s.cmdRun("MkHelloCmd", w, st, v) {
				s.Check(s.errOf(r.St, r.Ret) == 2 && len(hostWrites(r.St)) == 0 && len(calls(r.St, "PutFile")) == 0, "refuse", where, "mkhello with %s is not refused", k)
			}
		}
	})
}
