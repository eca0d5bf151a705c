package props

import (
	"fmt"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C16", Level: "other",
		Explanation: "Retrieving a DOS 3.3 file is interpreted on images with a laid-out catalog and track/sector lists (one to four lists, with holes at the start, middle and end) and otherwise unknown contents, with unknown stored addresses and lengths. The data returned must be exactly the listed sectors' bytes in order, zeros for holes, cut as the file type says: trailing zeros dropped for text, the stored length for BASIC and binary files. Lists that loop or leave the disk, stored lengths beyond the data, unsupported types and names that are absent or only of deleted files must be refused.",
		MinRules:    map[string]int{"contents": 1000, "get": 1000, "text": 100, "refuse": 20},
		Run:         runC16})
}

// dosFile is a file's list of sectors: one slice of pairs per track/sector list.
type dosFile struct {
	name  string
	lists [][]ts
}

// sectors gives the file's sectors in order; {0,0} is a hole.
func (f dosFile) sectors() []ts {
	var r []ts
	for i, l := range f.lists {
		n := 122
		if i == len(f.lists)-1 {
			n = 0
			for j, p := range l {
				if p != (ts{}) {
					n = j + 1
				}
			}
		}
		for j := 0; j < n; j++ {
			if j < len(l) {
				r = append(r, l[j])
			} else {
				r = append(r, ts{})
			}
		}
	}
	return r
}

// dosFiles are shapes of files; data sectors lie on tracks 1 to 16 and 18 to 30, lists on tracks 31 to 33.
func dosFiles() []dosFile {
	next := 0
	sec := func() ts {
		p := ts{int64(next/16) + 1, int64(next*5%16) ^ 15}
		if p.t >= 17 {
			p.t++
		}
		next++
		return p
	}
	run := func(n int, hole func(i int) bool) []ts {
		l := make([]ts, n)
		for i := range l {
			if hole == nil || !hole(i) {
				l[i] = sec()
			}
		}
		return l
	}
	fs := []dosFile{}
	mk := func(name string, l ...[]ts) { fs = append(fs, dosFile{name, l}); next = 0 }
	mk("one sector", run(1, nil))
	mk("three sectors", run(3, nil))
	mk("holes in the middle", run(6, func(i int) bool { return i == 1 || i == 3 || i == 4 }))
	mk("a hole first", run(2, func(i int) bool { return i == 0 }))
	mk("a full list", run(122, nil))
	mk("two lists", run(122, nil), run(2, nil))
	mk("two lists, the first ending in holes", run(120, nil), run(3, func(i int) bool { return i < 2 }))
	mk("three lists with holes", run(122, func(i int) bool { return i%5 == 2 }), run(122, func(i int) bool { return i > 0 && i < 121 }), run(1, nil))
	mk("four lists", run(122, nil), run(122, func(i int) bool { return i%3 > 0 }), run(122, func(i int) bool { return i%3 > 0 }), run(122, func(i int) bool { return i%3 > 0 }))
	mk("track 0", []ts{{0, 1}, {0, 15}, {1, 0}})
	mk("the last sectors of the disk", []ts{{34, 15}, {34, 0}, {34, 14}})
	mk("an empty list", nil)
	mk("a full list and an empty one", run(122, nil), nil)
	return fs
}

// addFile writes a file's lists and returns their places.
func (d *dosDisk) addFile(f dosFile, next ...ai.Lin) []ts {
	var lists []ts
	for i := range f.lists {
		lists = append(lists, ts{33 - int64(i%3), int64(3 + 7*(i/3) + i)})
	}
	d.chain(lists, next...)
	for i, l := range f.lists {
		pairs := make([]int64, 244)
		for j, p := range l {
			pairs[2*j], pairs[2*j+1] = p.t, p.s
		}
		d.put(lists[i].off()+12, nums(pairs...)...)
	}
	return lists
}

func runC16(c *Ctx) {
	fdt := c.Type("dos3", "FileDesc")
	cont := c.Method(fdt, "Contents")
	fit, dt := c.Type("types", "FileInfo"), c.Type("types", "Descriptor")
	files := dosFiles()
	const name = "TEST FILE 7"
	// disk with the file as the third entry of the second catalog sector
	cat := []ts{{17, 15}, {17, 14}}
	mk := func(s *Sec, f dosFile, typ int64, next ...ai.Lin) (*dosDisk, []ts) {
		st := s.E.NewState()
		d := s.newDOS(st, ai.Num(floppy), 16, cat[0])
		d.chain(cat)
		for _, p := range cat {
			d.unused(p)
		}
		lists := d.addFile(f, next...)
		// entries before: a deleted file of the same name, files whose names begin alike
		o := cat[0].entry(1)
		d.put(o, ai.Num(255), ai.Num(3), ai.Num(typ))
		d.name(o, name)
		for i, n := range []string{"TEST FILE 77", "TEST FILE", " TEST FILE 7", "TEST FILE 6"} {
			o := cat[0].entry(int64(2 + i))
			d.put(o, ai.Num(1), ai.Num(1), ai.Num(typ))
			d.name(o, n)
		}
		o = cat[1].entry(2)
		d.put(o, ai.Num(lists[0].t), ai.Num(lists[0].s), ai.Num(typ))
		d.name(o, name)
		// a later file of the same name is not the one
		o = cat[1].entry(5)
		d.put(o, ai.Num(2), ai.Num(2), ai.Num(typ))
		d.name(o, name)
		return d, lists
	}
	byteAt := func(s *Sec, st *ai.State, ic *ai.Content, secs []ts, i int64) ai.Lin {
		p := secs[i/256]
		if p == (ts{}) {
			return ai.Num(0)
		}
		v, _ := s.E.Read(st.F, ic, ai.Num(p.off()+i%256)).(ai.IntV)
		return v.L
	}
	get := func(s *Sec, d *dosDisk, n string) ([]ai.CallRes, string) {
		op, st, ok := d.open()
		if !s.Check(ok, "get", "dos3.OperatorFactory.Operator", "does not open the disk") {
			return nil, ""
		}
		return s.opCall(st, op, "GetFile", ai.Lit(n)), s.where(c.Method(op.Dyn, "GetFile"))
	}
	desc := func(s *Sec, rule, where, what string, r ai.CallRes, ic *ai.Content, typ string, locked bool, n ai.Lin) {
		v := s.Field(ret(r.Ret, 0), fit, "Descriptor")
		got, _ := s.Field(v, dt, "Name").(ai.StrV)
		g, _ := r.St.F.ConstStr(got)
		s.Check(g == name, rule, where, "%s: the name is %q, want %q", what, g, name)
		s.Check(s.E.ValEq(r.St, s.Field(v, dt, "Type"), s.filetype(typ)) == ai.True, rule, where, "%s: the type is %s, want %s", what, ai.ValStr(s.Field(v, dt, "Type")), typ)
		s.Check(s.isBool(r.St, s.Field(v, dt, "Locked"), locked), rule, where, "%s: the locked flag is wrong", what)
		s.sameLin(rule, where, r.St, s.Field(v, dt, "Length"), n, "%s: length", what)
		o := cat[1].entry(2)
		lo, _ := s.E.Read(r.St.F, ic, ai.Num(o+0x21)).(ai.IntV)
		hi, _ := s.E.Read(r.St.F, ic, ai.Num(o+0x22)).(ai.IntV)
		s.sameLin(rule, where, r.St, s.Field(v, dt, "Sectors"), lo.L.Add(hi.L.Scale(256)), "%s: sector count", what)
	}

	for _, f := range files {
		f := f
		secs := f.sectors()
		total := int64(len(secs)) * 256
		c.Section("contents: "+f.name, func(s *Sec) {
			d, lists := mk(s, f, 0)
			ic := s.E.Content(d.st, d.img)
			v := s.StructVal(fdt, map[string]ai.Value{"TrackSectorListTrack": num(lists[0].t), "TrackSectorListSector": num(lists[0].s)})
			n := 0
			for _, r := range s.Run(cont, d.st, s.argFor(d.st, cont, v, fdt), d.img) {
				n++
				if s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 1, "contents", s.where(cont), "a file with %s is not read", f.name) {
					s.sameBytes("contents", s.where(cont), "a file with "+f.name, r.St, ret(r.Ret, 0), ai.Num(total), func(i int64) ai.Lin { return byteAt(s, r.St, ic, secs, i) })
				}
			}
			s.Check(n > 0, "contents", s.where(cont), "a file with %s: no outcome", f.name)
		})
		for _, k := range []struct {
			code  int64
			typ   string
			skip  int64
			start int64
		}{{1, "FiletypeIntegerBASIC", 0, 0}, {2, "FiletypeApplesoftBASIC", 0, 0x801}, {4, "FiletypeBinary", 2, -1}} {
			k := k
			for _, locked := range []bool{false, true} {
				locked := locked
				c.Section(fmt.Sprintf("%s, locked %v: %s", k.typ, locked, f.name), func(s *Sec) {
					code := k.code
					if locked {
						code |= 0x80
					}
					d, _ := mk(s, f, code)
					ic := s.E.Content(d.st, d.img)
					what := fmt.Sprintf("a file of type %s with %s", k.typ, f.name)
					rs, where := get(s, d, name)
					oks, bads := 0, 0
					for _, r := range rs {
						e := s.errOf(r.St, ret(r.Ret, 1))
						if total < k.skip+2 {
							s.Check(e == 2, "refuse", where, "%s, too short for its header, is read", what)
							continue
						}
						n := byteAt(s, r.St, ic, secs, k.skip).Add(byteAt(s, r.St, ic, secs, k.skip+1).Scale(256))
						room := ai.Num(total - k.skip - 2).Sub(n)
						switch e {
						case 1:
							oks++
							if !s.Check(r.St.F.Prove(room), "get", where, "%s is read though its stored length goes beyond its sectors", what) {
								continue
							}
							if _, isC := r.St.F.Const(n); isC || total <= 32*256 {
								s.sameBytes("get", where, what, r.St, s.Field(ret(r.Ret, 0), fit, "Data"), n, func(i int64) ai.Lin {
									if i+k.skip+2 >= total {
										return ai.Num(0) // beyond any length on this path
									}
									return byteAt(s, r.St, ic, secs, i+k.skip+2)
								})
							} else {
								// long files: sampled at every sector boundary and in every sector
								sl, ok := s.Field(ret(r.Ret, 0), fit, "Data").(ai.SliceV)
								if s.Check(ok && r.St.F.ProveEq(sl.Len.Sub(n)), "get", where, "%s has %s bytes, want %s", what, sl.Len, n) {
									oc := s.E.Content(r.St, sl)
									for i := int64(0); i+k.skip+2 < total; i++ {
										st := r.St.Clone()
										if i%256 > 2 && i%256 < 250 && i%256 != 97 || !st.F.AssumeGE(n.AddC(-i-1)) {
											continue
										}
										a, _ := s.E.Read(st.F, oc, sl.Off.AddC(i)).(ai.IntV)
										w := byteAt(s, st, ic, secs, i+k.skip+2)
										if !s.Check(st.F.ProveEq(a.L.Sub(w)), "get", where, "byte %d of %s is %s, want %s", i, what, a.L, w) {
											break
										}
									}
								}
							}
							desc(s, "get", where, what, r, ic, k.typ, locked, n)
							start := ai.Num(k.start)
							if k.start < 0 {
								start = byteAt(s, r.St, ic, secs, 0).Add(byteAt(s, r.St, ic, secs, 1).Scale(256))
							}
							s.sameLin("get", where, r.St, s.Field(ret(r.Ret, 0), fit, "StartAddress"), start, "%s: start address", what)
						case 2:
							bads++
							s.Check(r.St.F.Prove(room.Neg().AddC(-1)), "get", where, "%s is refused though its stored length fits", what)
						default:
							s.Check(false, "get", where, "%s: outcome not known", what)
						}
					}
					if total >= k.skip+2 {
						s.Check(oks > 0, "get", where, "%s is never read", what)
						if total < 65536 && secs[0] != (ts{}) {
							s.Check(bads > 0, "get", where, "%s is never refused", what)
						}
					}
				})
			}
		}
		c.Section("text: "+f.name, func(s *Sec) {
			s.E.PeelMax = 1 << 18
			what := "a text file with " + f.name
			var ends []int64
			for _, e := range []int64{0, 1, 2, 100, 255, 256, 257, total - 256, total - 255, total - 1, total} {
				if total > 64*256 && e > 0 && e != 257 && e < total-1 {
					continue
				}
				if e >= 0 && e <= total && (e == 0 || secs[(e-1)/256] != (ts{})) {
					ends = append(ends, e)
				}
			}
			for _, locked := range []bool{false, true} {
				if locked && total > 64*256 {
					continue
				}
				for _, e := range ends {
					code := int64(0)
					if locked {
						code = 0x80
					}
					d, _ := mk(s, f, code)
					// zeros from byte e on
					for i := e; i < total; i++ {
						if p := secs[i/256]; p != (ts{}) {
							if i%256 == 0 && i+256 <= total {
								d.put(p.off(), nums(make([]int64, 256)...)...)
								i += 255
								continue
							}
							d.put(p.off()+i%256, ai.Num(0))
						}
					}
					if e > 0 {
						d.put(secs[(e-1)/256].off()+(e-1)%256, s.in("last", 1, 255))
					}
					ic := s.E.Content(d.st, d.img)
					rs, where := get(s, d, name)
					n := 0
					for _, r := range rs {
						n++
						if s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 1, "text", where, "%s is not read", what) {
							s.sameBytes("text", where, fmt.Sprintf("%s ending after byte %d", what, e), r.St, s.Field(ret(r.Ret, 0), fit, "Data"), ai.Num(e), func(i int64) ai.Lin { return byteAt(s, r.St, ic, secs, i) })
							desc(s, "text", where, what, r, ic, "FiletypeASCIIText", locked, ai.Num(e))
						}
					}
					s.Check(n > 0, "text", where, "%s: no outcome", what)
				}
			}
		})
	}

	c.Section("refusals", func(s *Sec) {
		refuse := func(what string, d *dosDisk, n string) {
			rs, where := get(s, d, n)
			for _, r := range rs {
				s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 2, "refuse", where, "%s is read", what)
			}
			s.Check(len(rs) > 0, "refuse", where, "%s: no outcome", what)
		}
		for _, n := range []string{"", "TEST", "TEST FILE 7 ", "test file 7", "TEST FILE 8", "TEST FILE 777", "GONE"} {
			d, _ := mk(s, files[1], 0)
			o := cat[1].entry(6)
			d.put(o, ai.Num(255), ai.Num(3), ai.Num(0))
			d.name(o, "GONE")
			refuse(fmt.Sprintf("the absent file %q", n), d, n)
		}
		for _, t := range []int64{8, 0x10, 0x20, 0x40, 0x88, 0x90, 0xa0, 0xc0, 3, 5, 0x7f, 0xff} {
			d, _ := mk(s, files[1], t)
			refuse(fmt.Sprintf("a file of the unsupported type $%02X", t), d, name)
		}
		for _, t := range []int64{0, 1, 2, 4} {
			for _, k := range []int{1, 5, 7, 8} {
				for to := range files[k].lists {
					p := ts{33 - int64(to%3), int64(3 + 7*(to/3) + to)}
					d, _ := mk(s, files[k], t, ai.Num(p.t), ai.Num(p.s))
					refuse(fmt.Sprintf("a file of type %d whose lists loop back to list %d of %d", t, to+1, len(files[k].lists)), d, name)
				}
				d, _ := mk(s, files[k], t, s.in("track", 35, 255), s.in("sector", 0, 255))
				refuse(fmt.Sprintf("a file of type %d whose lists leave the disk", t), d, name)
				d, _ = mk(s, files[k], t, ai.Num(34), s.in("sector", 16, 255))
				refuse(fmt.Sprintf("a file of type %d whose lists leave the last track", t), d, name)
				lists := files[k].lists
				for _, at := range [][2]int{{0, 0}, {len(lists) - 1, len(lists[len(lists)-1]) - 1}} {
					for _, bad := range [][4]int64{{35, 255, 0, 255}, {34, 34, 16, 255}} {
						d, ls := mk(s, files[k], t)
						d.put(ls[at[0]].off()+12+2*int64(at[1]), s.in("track", bad[0], bad[1]), s.in("sector", bad[2], bad[3]))
						refuse(fmt.Sprintf("a file of type %d with sector %d of list %d off the disk", t, at[1], at[0]), d, name)
					}
				}
			}
		}
	})
}
