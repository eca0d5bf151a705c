package props

import (
	"fmt"
	"go/types"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C14", Level: "other",
		Explanation: "Reading the DOS 3.3 catalog is interpreted on images whose catalog chain is laid out (several chains, lengths and places) and whose other bytes are unknown, with every entry in every class (in use, deleted, never used). The files and deleted files must be exactly the entries of the class, in order, each with the bytes stored. The listing's names, types, locked flags and sector counts are compared with the stored ones for unknown characters and counts. Chains that loop or leave the disk, a bad VTOC or a short image must be refused, by catalog, retrieval and recognition alike.",
		MinRules:    map[string]int{"entries": 1000, "listing": 100, "refuse": 20, "recognise": 10},
		Run:         runC14})
}

func runC14(c *Ctx) {
	c.StepLimit = 400_000
	rc := c.Fn("dos3", "ReadCatalog")
	fdt := c.Type("dos3", "FileDesc")
	ft := c.Type("dos3", "OperatorFactory")
	var std, long []ts
	for i := int64(15); i > 0; i-- {
		std = append(std, ts{17, i})
	}
	for i := int64(0); i < 48; i++ {
		long = append(long, ts{(i*3 + 1) % 35, 1 + i%15})
	}
	type chain struct {
		name    string
		sectors int64
		l       []ts
	}
	chains := []chain{{"standard", 16, std}, {"single", 16, std[:1]}, {"elsewhere", 16, []ts{{34, 15}, {0, 5}, {1, 0}, {16, 9}}}, {"13 sectors", 13, []ts{{17, 12}, {17, 11}, {17, 1}}}, {"long", 16, long}}
	classes := []string{"und", "nnu", "ddn", "unn", "n", "d", "u"}
	matches := func(s *Sec, st *ai.State, img ai.SliceV, want bool, what string) {
		fn := c.Method(ft, "SeemsToMatch")
		s.decides("recognise", s.where(fn), s.Run(fn, st, s.argFor(st, fn, s.E.ZeroValue(ft), ft), img, num(0)), want, "a disk with %s is recognised as DOS 3.3", what)
	}
	for _, ch := range chains {
		for _, cl := range classes {
			ch, cl := ch, cl
			c.Section("catalog "+ch.name+" "+cl, func(s *Sec) {
				what := fmt.Sprintf("a catalog of %d sectors (%s, entries %s)", len(ch.l), ch.name, cl)
				st := s.E.NewState()
				d := s.newDOS(st, ai.Num(floppy), ch.sectors, ch.l[0])
				d.chain(ch.l)
				var want [2][]int64
				for i, p := range ch.l {
					for j := int64(0); j < 7; j++ {
						o := p.entry(j)
						switch cl[(i+int(j))%len(cl)] {
						case 'u':
							d.put(o, ai.Num(0))
						case 'd':
							d.put(o, ai.Num(255))
							want[1] = append(want[1], o)
						case 'n':
							d.put(o, s.in(fmt.Sprintf("track%d.%d", i, j), 1, 254))
							want[0] = append(want[0], o)
						}
					}
				}
				ic := s.E.Content(st, d.img)
				matches(s, st.Clone(), d.img, true, what)
				n := 0
				for _, r := range s.Run(rc, st, d.img, num(0)) {
					n++
					if !s.Check(s.errOf(r.St, ret(r.Ret, 2)) == 1, "entries", s.where(rc), "%s is not read", what) {
						continue
					}
					for k, kind := range []string{"files", "deleted files"} {
						els, ok := s.E.SliceElems(r.St, ret(r.Ret, k))
						if !s.Check(ok && len(els) == len(want[k]), "entries", s.where(rc), "%s: %d %s, want %d", what, len(els), kind, len(want[k])) {
							continue
						}
						for i, o := range want[k] {
							for _, l := range dosFileDesc().l {
								v, _ := s.at(r.St, els[i], fdt, l.path)
								if !s.leafSame("entries", s.where(rc)+fmt.Sprintf(": entry %d of the %s", i, kind), r.St, l, v, ic, ai.Num(o)) {
									break
								}
							}
						}
					}
				}
				s.Check(n > 0, "entries", s.where(rc), "%s: no outcome", what)
			})
		}
	}

	c.Section("names", func(s *Sec) {
		// classes of name bytes: x a character, space
		shapes := []string{"x", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "x x", " x", "", "xx  xxxx x", "                             x", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "xxx,x"}
		filetypes := []struct {
			code int64
			typ  string
		}{{0, "FiletypeASCIIText"}, {1, "FiletypeIntegerBASIC"}, {2, "FiletypeApplesoftBASIC"}, {4, "FiletypeBinary"}, {8, "FiletypeS"}, {0x10, "FiletypeRelocatable"}, {0x20, "FiletypeNewA"}, {0x40, "FiletypeNewB"}}
		dt := c.Type("types", "Descriptor")
		fs := c.Method(fdt, "FilenameString")
		for k, sh := range shapes {
			st := s.E.NewState()
			d := s.newDOS(st, ai.Num(floppy), 16, ts{17, 15})
			d.chain([]ts{{17, 15}, {17, 14}, {17, 13}})
			type ent struct {
				typ    string
				locked bool
				off    int64
			}
			var want []ent
			bs := make([]ai.Lin, 30)
			for i := range bs {
				bs[i] = ai.Num(0xa0)
				if i < len(sh) {
					switch sh[i] {
					case 'x':
						bs[i] = s.in(fmt.Sprintf("char%d.%d", k, i), 0xa1, 0xfe)
					case ',':
						bs[i] = s.in(fmt.Sprintf("low%d.%d", k, i), 0xc1, 0xda)
					}
				}
			}
			for i := int64(0); i < 21; i++ {
				o := ts{17, 15 - i/7}.entry(i % 7)
				if i >= 16 {
					d.put(o, ai.Num(0))
					continue
				}
				code := filetypes[i/2].code
				e := ent{filetypes[i/2].typ, i%2 == 1, o}
				if e.locked {
					code |= 0x80
				}
				d.put(o, s.in("t", 1, 254), s.in("s", 0, 255), ai.Num(code))
				d.put(o+3, bs...)
				want = append(want, e)
			}
			trimmed := bs
			for len(trimmed) > 0 {
				if v, ok := st.F.Const(trimmed[len(trimmed)-1]); !ok || v != 0xa0 {
					break
				}
				trimmed = trimmed[:len(trimmed)-1]
			}
			text := func(b []ai.Lin) []wantText {
				var r []wantText
				for _, x := range b {
					r = append(r, wantText{char: x.AddC(-0x80)})
				}
				return r
			}
			ic := s.E.Content(st, d.img)
			op, st2, ok := d.open()
			if !s.Check(ok, "listing", "dos3.OperatorFactory.Operator", "does not open the disk") {
				return
			}
			where := s.where(c.Method(op.Dyn, "Catalog"))
			n := 0
			for _, r := range s.opCall(st2, op, "Catalog", ai.Lit("")) {
				n++
				if !s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 1, "listing", where, "fails") {
					continue
				}
				els, ok := s.E.SliceElems(r.St, ret(r.Ret, 0))
				if !s.Check(ok && len(els) == len(want), "listing", where, "%d files are listed, want %d", len(els), len(want)) {
					continue
				}
				for i, e := range want {
					ok, w := s.sameText(r.St, s.Field(els[i], dt, "Name"), text(trimmed))
					s.Check(ok, "listing", where, "a file's name is %s, want %s", ai.ValStr(s.Field(els[i], dt, "Name")), w)
					s.Check(s.E.ValEq(r.St, s.Field(els[i], dt, "Type"), s.filetype(e.typ)) == ai.True, "listing", where, "a file of type %s is listed as %s", e.typ, ai.ValStr(s.Field(els[i], dt, "Type")))
					s.Check(s.isBool(r.St, s.Field(els[i], dt, "Locked"), e.locked), "listing", where, "a file of type %s with locked=%v is listed as locked=%s", e.typ, e.locked, ai.ValStr(s.Field(els[i], dt, "Locked")))
					lo, _ := s.E.Read(r.St.F, ic, ai.Num(e.off+0x21)).(ai.IntV)
					hi, _ := s.E.Read(r.St.F, ic, ai.Num(e.off+0x22)).(ai.IntV)
					s.sameLin("listing", where, r.St, s.Field(els[i], dt, "Sectors"), lo.L.Add(hi.L.Scale(256)), "a file's sector count")
				}
			}
			s.Check(n > 0, "listing", where, "no outcome")
			// the name of a description, in use or deleted
			for _, del := range []bool{false, true} {
				st := s.E.NewState()
				tr := s.in("t", 1, 254)
				b := bs
				if del {
					tr, b = ai.Num(255), bs[:29]
				}
				for len(b) > 0 {
					if v, ok := st.F.Const(b[len(b)-1]); !ok || v != 0xa0 {
						break
					}
					b = b[:len(b)-1]
				}
				st0 := s.E.NewState()
				raw := make([]ai.Lin, 35)
				for i := range raw {
					raw[i] = s.in(fmt.Sprintf("fd%d", i), 0, 255)
				}
				raw[0] = tr
				copy(raw[3:33], bs)
				fb := c.Method(fdt, "FromBytes")
				p := s.E.Alloc(st0, s.E.ZeroValue(fdt), fdt, "fd")
				for _, r := range s.Run(fb, st0, s.ptrFor(st0, fb, p, fdt), s.byteSlice(st0, raw)) {
					for _, q := range s.Run(fs, r.St, s.ptrFor(r.St, fs, p, fdt)) {
						ok, w := s.sameText(q.St, q.Ret, text(b))
						s.Check(ok, "listing", s.where(fs), "the name of a description (deleted=%v) is %s, want %s", del, ai.ValStr(q.Ret), w)
					}
				}
			}
		}
	})

	c.Section("refusals", func(s *Sec) {
		any := func(d *dosDisk, l []ts) {
			for _, p := range l {
				for j := int64(0); j < 7; j++ {
					d.put(p.entry(j), s.in("track", 1, 254))
				}
			}
		}
		type bad struct {
			what string
			mk   func(st *ai.State) *dosDisk
		}
		blank := false
		ok := func(st *ai.State, sectors int64, l []ts, next ...ai.Lin) *dosDisk {
			img, _ := s.Input(st, "image", ai.Num(floppy))
			if blank {
				img = s.E.NewBytes(st, s.E.ZeroContent(ai.Num(floppy), types.Typ[types.Uint8]))
			}
			d := s.formatDOS(st, img, sectors, l[0])
			d.chain(l, next...)
			any(d, l)
			return d
		}
		pick := func(name string, lo, hi int64) ai.Lin {
			if blank {
				return ai.Num(lo)
			}
			return s.in(name, lo, hi)
		}
		var bads []bad
		add := func(what string, mk func(st *ai.State) *dosDisk) { bads = append(bads, bad{what, mk}) }
		for _, l := range [][]ts{std, std[:1], std[:2], {{34, 15}, {0, 5}, {1, 0}}} {
			l := l
			for i := range l {
				i := i
				add(fmt.Sprintf("a chain of %d catalog sectors back to number %d", len(l), i+1), func(st *ai.State) *dosDisk {
					return ok(st, 16, l, ai.Num(l[i].t), ai.Num(l[i].s))
				})
			}
			add(fmt.Sprintf("a catalog chain leaving for track 35 or more after %d sectors", len(l)), func(st *ai.State) *dosDisk {
				return ok(st, 16, l, pick("track", 35, 255), pick("sector", 0, 255))
			})
			add(fmt.Sprintf("a catalog chain leaving for sector 16 or more after %d sectors", len(l)), func(st *ai.State) *dosDisk {
				return ok(st, 16, l, pick("track", 0, 255), pick("sector", 16, 255))
			})
		}
		add("13 sectors per track and a catalog in sector 13 to 255", func(st *ai.State) *dosDisk {
			return ok(st, 13, []ts{{17, 12}}, pick("track", 0, 255), pick("sector", 13, 255))
		})
		for _, b := range []struct {
			what   string
			off    int64
			lo, hi int64
		}{{"DOS release", 3, 4, 255}, {"DOS release", 3, 0, 2}, {"volume", 6, 255, 255}, {"list size", 0x27, 0, 121}, {"number of tracks", 0x34, 36, 255}, {"number of tracks", 0x34, 0, 34}, {"number of sectors", 0x35, 17, 255}, {"number of sectors", 0x35, 0, 12}, {"sector size", 0x37, 2, 255}} {
			b := b
			add("a bad VTOC ("+b.what+")", func(st *ai.State) *dosDisk {
				d := ok(st, 16, std)
				d.put(vtocAt+b.off, pick("bad", b.lo, b.hi))
				return d
			})
		}
		// first with nothing else on the disk, which needs no reasoning about what is found where a bad link
		// leads to, and if all are refused with anything else on it
		for i := range append(bads, bads...) {
			b := bads[i%len(bads)]
			blank = i < len(bads)
			if i == len(bads) && len(c.Viol) > 0 {
				return
			}
			st := s.E.NewState()
			d := b.mk(st)
			matches(s, st.Clone(), d.img, false, b.what)
			n := 0
			for _, r := range s.Run(rc, st.Clone(), d.img, num(0)) {
				n++
				s.Check(s.errOf(r.St, ret(r.Ret, 2)) == 2, "refuse", s.where(rc), "a disk with %s is read", b.what)
			}
			op, st2, opened := d.open()
			if opened {
				for _, m := range []string{"Catalog", "GetFile"} {
					for _, r := range s.opCall(st2.Clone(), op, m, ai.Lit("A")) {
						n++
						s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 2, "refuse", s.where(c.Method(op.Dyn, m)), "succeeds on a disk with %s", b.what)
					}
				}
			}
			s.Check(n > 0, "refuse", s.where(rc), "a disk with %s: no outcome", b.what)
		}
		// too short
		st := s.E.NewState()
		img := s.Bytes(st, "image", s.in("len(image)", 0, vtocAt+255))
		matches(s, st.Clone(), img, false, "no VTOC")
		for _, r := range s.Run(rc, st, img, num(0)) {
			s.Check(s.errOf(r.St, ret(r.Ret, 2)) == 2, "refuse", s.where(rc), "an image too short for a VTOC is read")
		}
	})
}
