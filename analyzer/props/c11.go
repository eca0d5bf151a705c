package props

import (
	"fmt"
	"sort"
	"strings"

	"diskcheck/ai"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Spec{ID: "C11", Level: "other",
		Explanation: "Writing and deleting NakedOS files is interpreted on wholly unknown images, file contents of unknown length (per number of sectors needed) and sector maps in which the owner of every sector is unknown within its class. Afterwards every sector of the image and every map entry is compared with the only outcomes allowed: the file's own sectors hold the new contents in order, padded with zeros; sectors it gave up are free; every other sector and entry, and every image byte outside the map and the file, is what it was; the map stored on the disk is the new map. Refused writes must leave image and map as they were.",
		MinRules:    map[string]int{"write": 1000, "refuse": 20, "put": 1000, "delete": 1000},
		Run:         runC11})
}

// afterWrite checks image and map after file f (classes p, old owners own) was written with contents cc of length n (needed sectors).
func (s *Sec) afterWrite(rule, where, what string, st *ai.State, f ai.Lin, p smClass, own []ai.Lin, sm ai.SliceV, img ai.SliceV, ic *ai.Content, cc *ai.Content, n ai.Lin, need int) bool {
	mc := s.E.Content(st, sm)
	cur := s.E.Content(st, img)
	var mine []int64
	isMine := map[int64]bool{}
	for i := range own {
		v, _ := s.E.Read(st.F, mc, sm.Off.AddC(int64(i))).(ai.IntV)
		usable := p(i) == 'O' || p(i) == 'F'
		if usable && st.F.ProveEq(v.L.Sub(f)) {
			mine = append(mine, int64(i))
			isMine[int64(i)] = true
			continue
		}
		want := own[i]
		if p(i) == 'O' {
			want = ai.Num(0xff)
		}
		if !s.Check(st.F.ProveEq(v.L.Sub(want)), rule, where, "%s: the owner of track %d sector %d becomes %s, want %s", what, i/16, i%16, v.L, want) {
			return false
		}
	}
	if !s.Check(len(mine) == need, rule, where, "%s: the file owns %d sectors, want %d", what, len(mine), need) {
		return false
	}
	// the map on the disk
	for i := int64(0); i < smN; i++ {
		a, b := s.E.Read(st.F, cur, img.Off.AddC(smAt+i)), s.E.Read(st.F, mc, sm.Off.AddC(i))
		if !s.Check(s.E.ValEq(st, a, b) == ai.True, rule, where, "%s: entry %d of the map on the disk is %s, want %s", what, i, ai.ValStr(a), ai.ValStr(b)) {
			return false
		}
	}
	// other sectors
	for i := int64(0); i < floppy; i++ {
		if isMine[i/256] || i >= smAt && i < smAt+smN {
			continue
		}
		a, b := s.E.Read(st.F, cur, img.Off.AddC(i)), s.E.Read(st.F, ic, ai.Num(i))
		if !s.Check(s.E.ValEq(st, a, b) == ai.True, rule, where, "%s: byte %d of track %d sector %d, which is not the file's, becomes %s", what, i%256, i/4096, i/256%16, ai.ValStr(a)) {
			return false
		}
	}
	for k, pos := range mine {
		for o := int64(0); o < 256; o++ {
			idx := int64(k)*256 + o
			// inside and beyond the contents
			for _, in := range []bool{true, false} {
				st2 := st.Clone()
				d := n.AddC(-idx - 1)
				var want ai.Value
				if in {
					if !st2.F.AssumeGE(d) {
						continue
					}
					want = s.E.Read(st2.F, cc, ai.Num(idx))
				} else {
					if !st2.F.AssumeGE(d.Neg().AddC(-1)) {
						continue
					}
					want = num(0)
				}
				a := s.E.Read(st2.F, cur, img.Off.AddC(pos*256+o))
				if !s.Check(s.E.ValEq(st2, a, want) == ai.True, rule, where, "%s: byte %d of the file (within its contents: %v) becomes %s, want %s", what, idx, in, ai.ValStr(a), ai.ValStr(want)) {
					return false
				}
			}
		}
	}
	return true
}

func runC11(c *Ctx) {
	smt := c.Type("supermon", "SectorMap")
	wf := c.Method(smt, "WriteFile")
	runC11ops(c)
	for _, name := range smPatternNames {
		name, p := name, smPatterns()[name]
		for fi, fr := range fileRanges {
			fr := fr
			if fi > 0 && name != "mix0" {
				continue
			}
			nown, nfree := 0, 0
			for i := 0; i < smN; i++ {
				switch p(i) {
				case 'O':
					nown++
				case 'F':
					nfree++
				}
			}
			avail := nown + nfree
			needs := map[int]bool{1: true, 2: true, 16: true, nown: true, nown - 1: true, nown + 1: true, avail: true, avail - 1: true, avail + 1: true, 0: true}
			for need := range needs {
				need := need
				if need < 0 {
					continue
				}
				for _, over := range []bool{true, false} {
					over := over
					c.Section(fmt.Sprintf("write %s file %02x, %d sectors, overwrite %v", name, fr.lo, need, over), func(s *Sec) {
						where := s.where(wf)
						what := fmt.Sprintf("writing %d sectors (pattern %s, %d own, %d free, overwrite %v)", need, name, nown, nfree, over)
						f := s.in("file", fr.lo, fr.hi)
						own := s.owners(p, f, fr.lo, fr.hi)
						st := s.E.NewState()
						sm := s.byteSlice(st, own)
						mc := s.E.Content(st, sm)
						img, ic := s.Input(st, "image", ai.Num(floppy))
						n := ai.Num(0)
						if need > 0 {
							n = s.in("len(contents)", int64(need)*256-255, int64(need)*256)
						}
						cts, cc := s.Input(st, "contents", n)
						fits := need > 0 && need <= avail && (over || nown == 0)
						ok := 0
						for _, r := range s.Run(wf, st, s.argFor(st, wf, sm, smt), img, ai.IntV{L: f}, cts, ai.BoolV{C: tf(over)}) {
							if !fits {
								s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 2, "refuse", where, "%s is not refused", what)
								s.unchanged("refuse", where, r.St, sm, mc, smN, what+": map")
								s.unchanged("refuse", where, r.St, img, ic, floppy, what+": image")
								continue
							}
							if !s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 1, "write", where, "%s fails", what) {
								continue
							}
							ok++
							s.Check(s.isBool(r.St, ret(r.Ret, 0), nown > 0), "write", where, "%s: reports that the file existed: %s", what, ai.ValStr(ret(r.Ret, 0)))
							s.unchanged("write", where, r.St, cts, cc, 0, what)
							s.afterWrite("write", where, what, r.St, f, p, own, sm, img, ic, cc, n, need)
						}
						if fits {
							s.Check(ok > 0, "write", where, "%s never succeeds", what)
						}
					})
				}
			}
		}
	}
}

// fileInfo makes a types.FileInfo.
func (s *Sec) fileInfo(name string, data ai.SliceV, length ai.Lin, ftype ai.Value) ai.Value {
	t := s.Type("types", "FileInfo")
	v := s.E.ZeroValue(t)
	dt := s.Type("types", "Descriptor")
	d := s.E.ZeroValue(dt)
	d = setField(d, s.fieldPath(dt, "Name"), ai.Lit(name))
	d = setField(d, s.fieldPath(dt, "Length"), ai.IntV{L: length})
	d = setField(d, s.fieldPath(dt, "Type"), ftype)
	v = setField(v, s.fieldPath(t, "Descriptor"), d)
	return setField(v, s.fieldPath(t, "Data"), data)
}

// exampleDisk has files of several sizes, all mixed up, and symbols whose chains are longer than one.
func exampleDisk(table bool) *nakedDisk {
	fs := map[int64]int{1: 2, 5: 3, 7: 1, 0x42: 20, 0xfd: 5}
	if table {
		fs[3], fs[4] = 16, 16
	}
	d := newNaked(fs, 7, table)
	if table {
		d.add(0, "FHELLO", 0xdf01)
		d.add(1, "DATA", 0xdf05)
		d.add(2, "ROUTINE1", 0x1234)
		d.add(4, "CHAINED", 0xdf05^0x0101) // same hash as DATA
		d.add(5, "LAST9", 0xdffd)
		d.add(818, "TAIL", 0xdf85) // same hash as DATA
	}
	return d
}

// sameOutside checks that every file but the given ones is unchanged after an operation.
func (s *Sec) sameOutside(rule, where, what string, st *ai.State, d *nakedDisk, img ai.SliceV, old *ai.Content, except map[int64]bool) ([smN]int64, bool) {
	now, ok := s.nakedOwners(st, img)
	if !s.Check(ok, rule, where, "%s: the sector map on the disk is not known", what) {
		return now, false
	}
	cur := s.E.Content(st, img)
	good := true
	for i := range now {
		was := d.owner[i]
		if except[now[i]] || now[i] == 0xff && except[was] {
			if !s.Check(was == 0xff || except[was], rule, where, "%s: track %d sector %d belonged to file %02X and now belongs to %02X", what, i/16, i%16, was, now[i]) {
				good = false
			}
			continue
		}
		if !s.Check(now[i] == was, rule, where, "%s: the owner of track %d sector %d changes from %02X to %02X", what, i/16, i%16, was, now[i]) {
			good = false
			continue
		}
		for o := int64(0); o < 256 && good; o++ {
			k := int64(i)*256 + o
			if k >= smAt && k < smAt+smN {
				continue
			}
			a, b := s.E.Read(st.F, cur, img.Off.AddC(k)), s.E.Read(st.F, old, ai.Num(k))
			good = s.Check(s.E.ValEq(st, a, b) == ai.True, rule, where, "%s: byte %d of track %d sector %d (file %02X) becomes %s", what, o, i/16, i%16, was, ai.ValStr(a))
		}
	}
	return now, good
}

type nakedCase struct {
	name    string // file name asked for
	file    int64  // file number affected; 0: refused
	sym     string // expected change of a symbol: "", "+NAME" (points to file), "-NAME"
	table   bool
	need    int
	over    bool
	existed bool
}

func runC11ops(c *Ctx) {
	bin := func(s *Sec) ai.Value { return s.filetype("FiletypeBinary") }
	puts := []nakedCase{
		{name: "DF05", file: 5, table: true, need: 3, over: true, existed: true},
		{name: "DF05", file: 5, need: 9, over: true, existed: true},
		{name: "df05", file: 5, table: true, need: 1, over: true, existed: true},
		{name: "DF05", file: 0, table: true, need: 1},
		{name: "DF06", file: 6, table: true, need: 2},
		{name: "06", file: 6, need: 1},
		{name: "DFFD", file: 0xfd, table: true, need: 1, over: true, existed: true},
		{name: "DF06:NEWNAME", file: 6, sym: "+NEWNAME", table: true, need: 4},
		{name: "DF06:DATA", file: 6, sym: "+DATA", table: true, need: 4},
		{name: "DF06:CHAINED", file: 6, sym: "+CHAINED", table: true, need: 1},
		{name: "DF05:DATA", file: 5, table: true, need: 4, over: true, existed: true},
		{name: "DF05:LAST9", file: 5, sym: "+LAST9", table: true, need: 4, over: true, existed: true},
		{name: "DATA", file: 5, table: true, need: 5, over: true, existed: true},
		{name: "data", file: 5, table: true, need: 1, over: true, existed: true},
		{name: "DATA", file: 0, table: true, need: 5},
		{name: "NEWNAME", file: 2, sym: "+NEWNAME", table: true, need: 1},
		{name: "NEWNAME", file: 0, need: 1},
		{name: "DF06:NEWNAME", file: 0, need: 1},
		{name: "DF06:no good", file: 0, table: true, need: 1},
		{name: "no good", file: 0, table: true, need: 1},
		{name: "DF06:AB", file: 0, table: true, need: 1},
		{name: "DF06:DF07", file: 0, table: true, need: 1},
		{name: "XX:NEWNAME", file: 0, table: true, need: 1},
		{name: "DF06:A:B", file: 0, table: true, need: 1},
		{name: "DF06:NEWNAME", file: 0, table: true, need: 0},
		{name: "DF06:NEWNAME", file: 0, table: true, need: 500},
		{name: "NEWNAME", file: 0, table: true, need: 500},
	}
	for _, p := range puts {
		p := p
		c.Section(fmt.Sprintf("put %s %d table %v overwrite %v", p.name, p.need, p.table, p.over), func(s *Sec) {
			what := fmt.Sprintf("putting %q (%d sectors, overwrite %v, symbol table %v)", p.name, p.need, p.over, p.table)
			where := "supermon.Operator.PutFile"
			d := exampleDisk(p.table)
			st := s.E.NewState()
			img := d.image(s, st)
			old := s.E.Content(st, img)
			op, st, ok := s.nakedOp(st, img)
			if !s.Check(ok, "put", where, "the example disk is not recognised") {
				return
			}
			n := ai.Num(0)
			if p.need > 0 {
				n = s.in("len(contents)", int64(p.need)*256-255, int64(p.need)*256)
			}
			data, dc := s.Input(st, "contents", n)
			done := 0
			for _, r := range s.opCall(st, op, "PutFile", s.fileInfo(p.name, data, n, bin(s)), ai.BoolV{C: tf(p.over)}) {
				if p.file == 0 {
					s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 2, "refuse", where, "%s is not refused", what)
					s.unchanged("refuse", where, r.St, img, old, floppy, what+": image")
					continue
				}
				if !s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 1, "put", where, "%s fails", what) {
					continue
				}
				done++
				s.Check(s.isBool(r.St, ret(r.Ret, 0), p.existed), "put", where, "%s: reports that the file existed: %s", what, ai.ValStr(ret(r.Ret, 0)))
				ex := map[int64]bool{p.file: true}
				if p.sym != "" {
					ex[3], ex[4] = true, true
				}
				now, ok := s.sameOutside("put", where, what, r.St, d, img, old, ex)
				if !ok {
					continue
				}
				s.nakedReopen("put", where, what, r.St, d, p, img, now, dc, n)
			}
			if p.file != 0 {
				s.Check(done > 0, "put", where, "%s never succeeds", what)
			}
		})
	}
	c.Section("put, other type or length", func(s *Sec) {
		for _, k := range []string{"type", "length"} {
			d := exampleDisk(true)
			st := s.E.NewState()
			img := d.image(s, st)
			old := s.E.Content(st, img)
			op, st, ok := s.nakedOp(st, img)
			if !s.Check(ok, "refuse", "supermon.Operator", "the example disk is not recognised") {
				return
			}
			n := s.in("len(contents)", 1, 256)
			data, _ := s.Input(st, "contents", n)
			ft, l := s.filetype("FiletypeASCIIText"), n
			if k == "length" {
				ft, l = bin(s), n.AddC(1)
			}
			for _, r := range s.opCall(st, op, "PutFile", s.fileInfo("DF06", data, l, ft), ai.BoolV{C: tf(true)}) {
				s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 2, "refuse", "supermon.Operator.PutFile", "a file of the wrong %s is not refused", k)
				s.unchanged("refuse", "supermon.Operator.PutFile", r.St, img, old, floppy, "wrong "+k)
			}
		}
	})
	for _, p := range []nakedCase{
		{name: "DF05", file: 5, table: true, existed: true}, {name: "05", file: 5, existed: true}, {name: "DATA", file: 5, sym: "-DATA", table: true, existed: true},
		{name: "LAST9", file: 0xfd, sym: "-LAST9", table: true, existed: true}, {name: "DF06", file: 6, table: true}, {name: "TAIL", file: 0x85, sym: "-TAIL", table: true},
		{name: "NOTHERE", table: true}, {name: "ROUTINE1", table: true}, {name: "DATA"}} {
		p := p
		c.Section(fmt.Sprintf("delete %s table %v", p.name, p.table), func(s *Sec) {
			what := fmt.Sprintf("deleting %q (symbol table %v)", p.name, p.table)
			where := "supermon.Operator.Delete"
			d := exampleDisk(p.table)
			st := s.E.NewState()
			img := d.image(s, st)
			old := s.E.Content(st, img)
			op, st, ok := s.nakedOp(st, img)
			if !s.Check(ok, "delete", where, "the example disk is not recognised") {
				return
			}
			for _, r := range s.opCall(st, op, "Delete", ai.Lit(p.name)) {
				if p.file == 0 {
					s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 2, "refuse", where, "%s is not refused", what)
					s.unchanged("refuse", where, r.St, img, old, floppy, what+": image")
					continue
				}
				if !s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 1, "delete", where, "%s fails", what) {
					continue
				}
				s.Check(s.isBool(r.St, ret(r.Ret, 0), p.existed), "delete", where, "%s: reports that the file existed: %s", what, ai.ValStr(ret(r.Ret, 0)))
				ex := map[int64]bool{p.file: true}
				if p.sym != "" {
					ex[3], ex[4] = true, true
				}
				now, ok := s.sameOutside("delete", where, what, r.St, d, img, old, ex)
				if !ok {
					continue
				}
				s.nakedReopen("delete", where, what, r.St, d, p, img, now, nil, ai.Num(0))
			}
		})
	}
}

// nakedReopen opens the changed image again and checks the affected file and the symbols.
func (s *Sec) nakedReopen(rule, where, what string, st *ai.State, d *nakedDisk, p nakedCase, img ai.SliceV, now [smN]int64, dc *ai.Content, n ai.Lin) {
	cnt := map[int64]int{}
	for _, o := range now {
		cnt[o]++
	}
	s.Check(cnt[p.file] == p.need, rule, where, "%s: the file owns %d sectors afterwards, want %d", what, cnt[p.file], p.need)
	if d.table {
		s.Check(cnt[3] == 16 && cnt[4] == 16, rule, where, "%s: the symbol table owns %d and %d sectors afterwards, want 16 each", what, cnt[3], cnt[4])
	}
	op, st, ok := s.nakedOp(st, img)
	if !s.Check(ok, rule, where, "%s: the disk is not recognised afterwards", what) {
		return
	}
	want := append([]string{}, d.symList()...)
	if d.symList() == nil {
		want = nil
	}
	if p.sym != "" {
		nm := p.sym[1:]
		var w []string
		for _, x := range want {
			if !strings.HasPrefix(x, nm+"=") {
				w = append(w, x)
			}
		}
		if p.sym[0] == '+' {
			w = append(w, fmt.Sprintf("%s=%04X", nm, 0xdf00+p.file))
		}
		sort.Strings(w)
		want = w
	}
	got, ok := s.nakedSyms(st, op)
	s.Check(ok && sameStrs(got, want), rule, where, "%s: the symbols are %v afterwards, want %v", what, got, want)
	if dc == nil {
		return
	}
	name := fmt.Sprintf("DF%02X", p.file)
	names := []string{name}
	if p.sym != "" && p.sym[0] == '+' {
		names = append(names, p.sym[1:])
	}
	t := s.Type("types", "FileInfo")
	for _, name := range names {
		for _, r := range s.opCall(st.Clone(), op, "GetFile", ai.Lit(name)) {
			if !s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 1, rule, where, "%s: %s cannot be read afterwards", what, name) {
				continue
			}
			sl, ok := s.Field(ret(r.Ret, 0), t, "Data").(ai.SliceV)
			if !s.Check(ok && r.St.F.ProveEq(sl.Len.AddC(int64(-256*p.need))), rule, where, "%s: reading it back gives %s bytes, want %d", what, sl.Len, 256*p.need) {
				continue
			}
			oc := s.E.Content(r.St, sl)
			for i := int64(0); i < int64(p.need)*256; i++ {
				good := true
				for _, in := range []bool{true, false} {
					st2 := r.St.Clone()
					d := n.AddC(-i - 1)
					if !in {
						d = d.Neg().AddC(-1)
					}
					if !st2.F.AssumeGE(d) {
						continue
					}
					a, want := s.E.Read(st2.F, oc, sl.Off.AddC(i)), ai.Value(num(0))
					if in {
						want = s.E.Read(st2.F, dc, ai.Num(i))
					}
					good = good && s.Check(s.E.ValEq(st2, a, want) == ai.True, rule, where, "%s: reading back, byte %d (within the contents: %v) is %s, want %s", what, i, in, ai.ValStr(a), ai.ValStr(want))
				}
				if !good {
					break
				}
			}
		}
	}
}

// filetype is a constant of the types package.
func (s *Sec) filetype(name string) ai.Value {
	k, ok := s.Pkg("types").Members[name].(*ssa.NamedConst)
	if !ok {
		panic(missing{"constant types." + name + " not found"})
	}
	return num(k.Value.Int64())
}
