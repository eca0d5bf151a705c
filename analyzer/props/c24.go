package props

import (
	"fmt"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C24", Level: "other",
		Explanation: "Writing a Super-Mon symbol table to a disk and reading one are interpreted with unknown addresses and with names whose letters and digits are unknown within their class (A-Z, a-z, 0-4, 5-9), for every class sequence of the shortest names and a covering set of the longer ones. The stored bytes must be the documented encoding at the documented offsets of files 3 and 4, and reading must give back the upper-case name, the address and the link. Names of every other form must be refused without changing the disk, and tables with bad links or of the wrong size must be refused on reading.",
		MinRules:    map[string]int{"encode": 500, "decode": 100, "name-refused": 60, "table-refused": 10},
		Run:         runC24})
}

// classes of name characters: letters U (upper) l (lower), digits 0 (0-4) 5 (5-9).
var nameClass = map[byte][2]int64{'U': {'A', 'Z'}, 'l': {'a', 'z'}, '0': {'0', '4'}, '5': {'5', '9'}}

// nameShape makes a name of unknown characters, its upper-case form and its encoding.
func (s *Sec) nameShape(st *ai.State, shape string) (name, upper ai.StrV, val ai.Lin, bits int) {
	val = ai.Num(0)
	for i := len(shape) - 1; i >= 0; i-- {
		cl := nameClass[shape[i]]
		b := s.in(fmt.Sprintf("ch%d%c", i, shape[i]), cl[0], cl[1])
		u := b
		if bits > 48 {
			val = ai.Num(0)
		}
		switch shape[i] {
		case 'U':
			val = val.Scale(32).Add(b.AddC(-'@'))
			bits += 5
		case 'l':
			u = b.AddC(-32)
			val = val.Scale(32).Add(u.AddC(-'@'))
			bits += 5
		case '0':
			val = val.Scale(64).Add(b.AddC(0x1b - '0'))
			bits += 6
		case '5':
			val = val.Scale(64).Add(b.AddC(0x3b - '5'))
			bits += 6
		}
		name = ai.Concat(s.E.ByteStr(st, b), name)
		upper = ai.Concat(s.E.ByteStr(st, u), upper)
	}
	return
}

// nameShapes lists the class sequences tried.
func nameShapes(thorough bool) []string {
	var out []string
	var gen func(p string, n int, cl string)
	gen = func(p string, n int, cl string) {
		if n == 0 {
			out = append(out, p)
			return
		}
		for i := 0; i < len(cl); i++ {
			gen(p+cl[i:i+1], n-1, cl)
		}
	}
	gen("", 3, "Ul05")
	max := 3
	if thorough {
		max = 6
	}
	for n := 4; n <= max; n++ {
		gen("", n, "U05")
	}
	for n := max + 1; n <= 9; n++ {
		out = append(out, rep('U', n), rep('l', n), rep('0', n), rep('5', n))
		for i := 0; i < n; i++ {
			for _, c := range []byte{'0', '5'} {
				b := []byte(rep('U', n))
				b[i] = c
				out = append(out, string(b))
			}
			out = append(out, rep('5', i)+rep('U', n-i), rep('U', i)+rep('0', n-i))
		}
	}
	return out
}

func rep(c byte, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = c
	}
	return string(b)
}

// symTable makes a SymbolTable with the given entries, the others empty.
func (s *Sec) symTable(st *ai.State, n int, ents map[int]map[string]ai.Value) ai.SliceV {
	t := s.Type("supermon", "Symbol")
	empty := s.StructVal(t, map[string]ai.Value{"Link": num(-1)})
	vals := make([]ai.Value, n)
	for i := range vals {
		vals[i] = empty
		if e, ok := ents[i]; ok {
			f := map[string]ai.Value{"Link": num(-1)}
			for k, v := range e {
				f[k] = v
			}
			vals[i] = s.StructVal(t, f)
		}
	}
	return s.E.NewBytes(st, s.E.ArrayOf(vals, t).C)
}

func runC24(c *Ctx) {
	smt := c.Type("supermon", "SectorMap")
	write, read := c.Method(smt, "WriteSymbolTable"), c.Method(smt, "ReadSymbolTable")
	sizes := map[int64]int{3: 16, 4: 16, 9: 2}
	mk := func(s *Sec, files map[int64]int) (*ai.State, ai.SliceV, ai.SliceV) {
		d := newNaked(files, 5, false)
		st := s.E.NewState()
		img := d.image(s, st)
		o := make([]ai.Lin, smN)
		for i := range o {
			o[i] = ai.Num(d.owner[i])
		}
		return st, img, s.byteSlice(st, o)
	}
	// fileByte reads a byte of a file off the disk
	fileByte := func(s *Sec, st *ai.State, img ai.SliceV, file int64, k int64) ai.Value {
		own, ok := s.nakedOwners(st, img)
		if !ok {
			return nil
		}
		n := int64(0)
		for i, o := range own {
			if o == file {
				if n == k/256 {
					return s.E.Read(st.F, s.E.Content(st, img), img.Off.AddC(int64(i)*256+k%256))
				}
				n++
			}
		}
		return nil
	}
	for gi, group := range split(nameShapes(c.Thorough), 24) {
		group := group
		c.Section(fmt.Sprintf("names %d", gi), func(s *Sec) {
			for k, shape := range group {
				st, img, sm := mk(s, sizes)
				old := s.E.Content(st, img)
				name, upper, val, bits := s.nameShape(st, shape)
				addr := s.in("address", 1, 0xffff)
				idx := []int{0, 1, 17, 51, 818}[k%5]
				what := fmt.Sprintf("symbol %d named %s", idx, shape)
				tab := s.symTable(st, idx+1, map[int]map[string]ai.Value{idx: {"Name": name, "Address": ai.IntV{L: addr}}})
				for _, r := range s.Run(write, st, s.argFor(st, write, sm, smt), img, tab) {
					if bits > 48 {
						s.Check(s.errOf(r.St, r.Ret) == 2, "name-refused", s.where(write), "%s: a name of %d bits is not refused", what, bits)
						s.unchanged("name-refused", s.where(write), r.St, img, old, floppy, what)
						continue
					}
					if !s.Check(s.errOf(r.St, r.Ret) == 1, "encode", s.where(write), "%s is refused", what) {
						continue
					}
					enc := func(i int64) ai.Lin {
						return s.E.U.Mod(s.E.U.Div(val, 1<<uint(8*i), r.St.F), 256, r.St.F)
					}
					o := int64(idx) * 5
					for i, want := range []ai.Lin{s.E.U.Mod(addr, 256, r.St.F), s.E.U.Div(addr, 256, r.St.F), ai.Num(0), ai.Num(0), enc(5)} {
						if v := fileByte(s, r.St, img, 3, o+int64(i)); v == nil || !s.sameLin("encode", s.where(write), r.St, v, want, "%s: byte %d of its entry in file 3", what, i) {
							s.Check(v != nil, "encode", s.where(write), "%s: the sector map on the disk is not known", what)
							break
						}
						if v := fileByte(s, r.St, img, 4, o+int64(i)); v == nil || !s.sameLin("encode", s.where(write), r.St, v, enc(int64(i)), "%s: byte %d of its entry in file 4", what, i) {
							break
						}
					}
					if k < 3 {
						for _, f := range []int64{3, 4} {
							for i := int64(0); i < 4096; i++ {
								if i >= o && i < o+5 {
									continue
								}
								if !s.sameLin("encode", s.where(write), r.St, fileByte(s, r.St, img, f, i), ai.Num(0), "%s: byte %d of file %d", what, i, f) {
									break
								}
							}
						}
					}
					for _, q := range s.Run(read, r.St, s.argFor(r.St, read, sm, smt), img) {
						if !s.Check(s.errOf(q.St, ret(q.Ret, 1)) == 1, "decode", s.where(read), "%s: the table cannot be read back", what) {
							continue
						}
						els, ok := s.E.SliceElems(q.St, ret(q.Ret, 0))
						if !s.Check(ok && len(els) == 819, "decode", s.where(read), "%s: the table read back has %d entries, want 819", what, len(els)) {
							continue
						}
						t := c.Type("supermon", "Symbol")
						for i, e := range els {
							wn, wa := ai.Lit(""), ai.Num(0)
							if i == idx {
								wn, wa = upper, addr
							}
							n, _ := s.Field(e, t, "Name").(ai.StrV)
							if !s.Check(s.E.SameStr(q.St, n, wn), "decode", s.where(read), "%s: the name of entry %d read back is %s", what, i, n) ||
								!s.sameLin("decode", s.where(read), q.St, s.Field(e, t, "Address"), wa, "%s: the address of entry %d read back", what, i) ||
								!s.sameLin("decode", s.where(read), q.St, s.Field(e, t, "Link"), ai.Num(-1), "%s: the link of entry %d read back", what, i) {
								break
							}
						}
					}
				}
			}
		})
	}
	c.Section("links", func(s *Sec) {
		addr := s.in("address", 1, 0xffff)
		for _, k := range [][2]int{{0, 1}, {1, 0}, {0, 818}, {818, 5}, {52, 51}, {100, 817}} {
			st, img, sm := mk(s, sizes)
			what := fmt.Sprintf("entry %d linking to entry %d", k[0], k[1])
			tab := s.symTable(st, 819, map[int]map[string]ai.Value{
				k[0]: {"Name": ai.Lit("FIRST"), "Address": ai.IntV{L: addr}, "Link": num(int64(k[1]))},
				k[1]: {"Name": ai.Lit("SECOND"), "Address": ai.IntV{L: addr}}})
			for _, r := range s.Run(write, st, s.argFor(st, write, sm, smt), img, tab) {
				if !s.Check(s.errOf(r.St, r.Ret) == 1, "encode", s.where(write), "%s: refused", what) {
					continue
				}
				l := int64(0xd000 + 5*k[1])
				s.sameLin("encode", s.where(write), r.St, fileByte(s, r.St, img, 3, int64(5*k[0]+2)), ai.Num(l&255), "%s: low byte of the link", what)
				s.sameLin("encode", s.where(write), r.St, fileByte(s, r.St, img, 3, int64(5*k[0]+3)), ai.Num(l>>8), "%s: high byte of the link", what)
				for _, q := range s.Run(read, r.St, s.argFor(r.St, read, sm, smt), img) {
					if !s.Check(s.errOf(q.St, ret(q.Ret, 1)) == 1, "decode", s.where(read), "%s: the table cannot be read back", what) {
						continue
					}
					els, ok := s.E.SliceElems(q.St, ret(q.Ret, 0))
					if s.Check(ok && len(els) == 819, "decode", s.where(read), "%s: table lost", what) {
						t := c.Type("supermon", "Symbol")
						for i, e := range els {
							want := int64(-1)
							if i == k[0] {
								want = int64(k[1])
							}
							s.sameLin("decode", s.where(read), q.St, s.Field(e, t, "Link"), ai.Num(want), "%s: link of entry %d", what, i)
						}
					}
				}
			}
		}
	})
	c.Section("refused names", func(s *Sec) {
		try := func(what string, name func(st *ai.State) ai.StrV) {
			st, img, sm := mk(s, sizes)
			old := s.E.Content(st, img)
			tab := s.symTable(st, 3, map[int]map[string]ai.Value{
				0: {"Name": ai.Lit("GOOD"), "Address": num(0x300)},
				2: {"Name": name(st), "Address": num(0x300)}})
			for _, r := range s.Run(write, st, s.argFor(st, write, sm, smt), img, tab) {
				s.Check(s.errOf(r.St, r.Ret) == 2, "name-refused", s.where(write), "%s is not refused", what)
				s.unchanged("name-refused", s.where(write), r.St, img, old, floppy, what)
			}
		}
		for _, n := range []int{1, 2, 10, 12} {
			for _, c := range []byte{'U', '0'} {
				n, c := n, c
				try(fmt.Sprintf("a name of %d characters", n), func(st *ai.State) ai.StrV {
					nm, _, _, _ := s.nameShape(st, rep(c, n))
					return nm
				})
			}
		}
		for _, bad := range [][2]int64{{0, 0x2f}, {0x3a, 0x40}, {0x5b, 0x60}, {0x7b, 0x7f}} {
			for _, n := range []int{3, 5, 9} {
				for i := 0; i < n; i++ {
					bad, n, i := bad, n, i
					try(fmt.Sprintf("a name of %d characters with character %d in %#x-%#x", n, i, bad[0], bad[1]), func(st *ai.State) ai.StrV {
						nm := ai.StrV{}
						for j := 0; j < n; j++ {
							b := s.in(fmt.Sprintf("up%d", j), 'A', 'Z')
							if j == i {
								b = s.in(fmt.Sprintf("bad%d", bad[0]), bad[0], bad[1])
							}
							nm = ai.Concat(nm, s.E.ByteStr(st, b))
						}
						return nm
					})
				}
			}
		}
	})
	c.Section("refused tables", func(s *Sec) {
		try := func(what string, files map[int64]int, ents map[int][5]ai.Lin, bad bool) {
			st, img, sm := mk(s, files)
			own, _ := s.nakedOwners(st, img)
			for f := int64(3); f <= 4; f++ {
				n := 0
				for i, o := range own {
					if o != f {
						continue
					}
					v := make([]ai.Value, 256)
					for j := range v {
						v[j] = num(0)
					}
					for k, e := range ents {
						for b := 0; b < 5; b++ {
							if p := 5*k + b - 256*n; f == 3 && p >= 0 && p < 256 {
								v[p] = ai.IntV{L: e[b]}
							}
						}
					}
					s.E.Overlay(st, img, int64(i)*256, v)
					n++
				}
			}
			for _, r := range s.Run(read, st, s.argFor(st, read, sm, smt), img) {
				e := s.errOf(r.St, ret(r.Ret, 1))
				s.Check(e == 2 && bad || e == 1 && !bad, "table-refused", s.where(read), "a symbol table with %s: refused %v, want %v", what, e == 2, bad)
			}
		}
		for _, f := range []int64{3, 4} {
			for _, n := range []int{0, 15, 17} {
				fs := map[int64]int{3: 16, 4: 16}
				fs[f] = n
				try(fmt.Sprintf("%d sectors in file %d", n, f), fs, nil, true)
			}
		}
		ok := map[int64]int{3: 16, 4: 16}
		ent := func(addr, link ai.Lin) [5]ai.Lin {
			f := s.E.NewState().F
			return [5]ai.Lin{s.E.U.Mod(addr, 256, f), s.E.U.Div(addr, 256, f), s.E.U.Mod(link, 256, f), s.E.U.Div(link, 256, f), ai.Num(0)}
		}
		a := s.in("address", 1, 0xffff)
		try("a link below $D000", ok, map[int][5]ai.Lin{7: ent(a, s.in("low link", 1, 0xcfff))}, true)
		try("a link from $DFFF on", ok, map[int][5]ai.Lin{7: ent(a, s.in("high link", 0xdfff, 0xffff))}, true)
		for d := int64(1); d < 5; d++ {
			try("a link into an entry", ok, map[int][5]ai.Lin{7: ent(a, ai.Num(0xd000+d).Add(s.in("entry", 0, 817).Scale(5)))}, true)
		}
		try("a link to itself", ok, map[int][5]ai.Lin{7: ent(a, ai.Num(0xd000+35))}, true)
		try("a link to a symbol with another hash", ok, map[int][5]ai.Lin{7: ent(ai.Num(0x301), ai.Num(0xd000+40)), 8: ent(ai.Num(0x300), ai.Num(0))}, true)
		try("a link to an empty entry", ok, map[int][5]ai.Lin{7: ent(ai.Num(0x301), ai.Num(0xd000+40))}, true)
		try("a link to a symbol of the same hash", ok, map[int][5]ai.Lin{7: ent(ai.Num(0x301), ai.Num(0xd000+40)), 8: ent(ai.Num(0x0400^0x0106), ai.Num(0))}, addrHash(0x301) != addrHash(0x0400^0x0106))
		try("a bad link in an empty entry", ok, map[int][5]ai.Lin{7: ent(ai.Num(0), s.in("low link", 1, 0xcfff))}, false)
	})
}

func split(l []string, n int) [][]string {
	var r [][]string
	for len(l) > n {
		r = append(r, l[:n])
		l = l[n:]
	}
	return append(r, l)
}
