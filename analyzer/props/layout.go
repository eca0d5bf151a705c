package props

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"diskcheck/ai"

	"golang.org/x/tools/go/ssa"
)

// leaf is one field of an on-disk structure: where its bytes lie.
type leaf struct {
	path string // field names and array indices, dot-separated
	off  int64
	kind byte // 'b' byte, 's' signed byte, 'w' little-endian 16-bit
}

// layout is the documented form of an on-disk structure.
type layout struct {
	pkg, typ string
	n        int64
	leaves   []leaf
}

type lb struct{ l []leaf }

func (b *lb) byte(p string, off int64) *lb { b.l = append(b.l, leaf{p, off, 'b'}); return b }
func (b *lb) s8(p string, off int64) *lb   { b.l = append(b.l, leaf{p, off, 's'}); return b }
func (b *lb) word(p string, off int64) *lb { b.l = append(b.l, leaf{p, off, 'w'}); return b }
func (b *lb) bytes(p string, off, n int64) *lb {
	for i := int64(0); i < n; i++ {
		b.byte(fmt.Sprintf("%s.%d", p, i), off+i)
	}
	return b
}
func (b *lb) date(p string, off int64) *lb {
	return b.bytes(p+".YMD", off, 2).bytes(p+".HM", off+2, 2)
}

// add nests another structure.
func (b *lb) add(p string, off int64, o *lb) *lb {
	for _, l := range o.l {
		b.l = append(b.l, leaf{p + "." + l.path, off + l.off, l.kind})
	}
	return b
}

// [Beneath Apple DOS 4-2 ... 4-7]
func dosFileDesc() *lb {
	return new(lb).byte("TrackSectorListTrack", 0).byte("TrackSectorListSector", 1).byte("Filetype", 2).bytes("Filename", 3, 30).word("SectorCount", 0x21)
}

func dosLayouts() []layout {
	vtoc := new(lb).byte("Unused1", 0).byte("CatalogTrack", 1).byte("CatalogSector", 2).byte("DOSRelease", 3).bytes("Unused2", 4, 2).byte("Volume", 6).
		bytes("Unused3", 7, 32).byte("TrackSectorListMaxSize", 0x27).bytes("Unused4", 0x28, 8).byte("LastTrack", 0x30).s8("TrackDirection", 0x31).bytes("Unused5", 0x32, 2).
		byte("NumTracks", 0x34).byte("NumSectors", 0x35).word("BytesPerSector", 0x36)
	for i := int64(0); i < 50; i++ {
		vtoc.bytes(fmt.Sprintf("FreeSectors.%d", i), 0x38+4*i, 4)
	}
	cat := new(lb).byte("Unused1", 0).byte("NextTrack", 1).byte("NextSector", 2).bytes("Unused2", 3, 8)
	for i := int64(0); i < 7; i++ {
		cat.add(fmt.Sprintf("FileDescs.%d", i), 0x0b+35*i, dosFileDesc())
	}
	tsl := new(lb).byte("Unused1", 0).byte("NextTrack", 1).byte("NextSector", 2).bytes("Unused2", 3, 2).word("SectorOffset", 5).bytes("Unused3", 7, 5)
	for i := int64(0); i < 122; i++ {
		tsl.byte(fmt.Sprintf("TrackSectors.%d.Track", i), 0xc+2*i).byte(fmt.Sprintf("TrackSectors.%d.Sector", i), 0xd+2*i)
	}
	return []layout{{"dos3", "VTOC", 256, vtoc.l}, {"dos3", "CatalogSector", 256, cat.l}, {"dos3", "TrackSectorList", 256, tsl.l}}
}

// [Beneath Apple ProDOS 4-4 ... 4-16]
func prodosDesc() *lb {
	return new(lb).byte("TypeAndNameLength", 0).bytes("FileName", 1, 15).byte("FileType", 0x10).word("KeyPointer", 0x11).word("BlocksUsed", 0x13).bytes("EOF", 0x15, 3).
		date("Creation", 0x18).byte("Version", 0x1c).byte("MinVersion", 0x1d).byte("Access", 0x1e).word("AuxType", 0x1f).date("LastMod", 0x21).word("HeaderPointer", 0x25)
}

func prodosLayouts() []layout {
	vhead := new(lb).byte("TypeAndNameLength", 0).bytes("VolumeName", 1, 15).bytes("Unused1", 0x10, 8).date("Creation", 0x18).byte("Version", 0x1c).byte("MinVersion", 0x1d).
		byte("Access", 0x1e).byte("EntryLength", 0x1f).byte("EntriesPerBlock", 0x20).word("FileCount", 0x21).word("BitMapPointer", 0x23).word("TotalBlocks", 0x25)
	shead := new(lb).byte("TypeAndNameLength", 0).bytes("SubdirectoryName", 1, 15).byte("SeventyFive", 0x10).bytes("Unused1", 0x11, 7).date("Creation", 0x18).byte("Version", 0x1c).
		byte("MinVersion", 0x1d).byte("Access", 0x1e).byte("EntryLength", 0x1f).byte("EntriesPerBlock", 0x20).word("FileCount", 0x21).word("ParentPointer", 0x23).byte("ParentEntry", 0x25).byte("ParentEntryLength", 0x26)
	mk := func(head *lb) []leaf {
		b := new(lb).word("Prev", 0).word("Next", 2)
		first := int64(0)
		if head != nil {
			b.add("Header", 4, head)
			first = 1
		}
		for i := first; i < 13; i++ {
			b.add(fmt.Sprintf("Descriptors.%d", i-first), 4+0x27*i, prodosDesc())
		}
		return b.byte("Extra", 511).l
	}
	return []layout{{"prodos", "VolumeDirectoryKeyBlock", 512, mk(vhead)}, {"prodos", "VolumeDirectoryBlock", 512, mk(nil)},
		{"prodos", "SubdirectoryKeyBlock", 512, mk(shead)}, {"prodos", "SubdirectoryBlock", 512, mk(nil)}}
}

// at follows a dotted path into a value.
func (s *Sec) at(st *ai.State, v ai.Value, t types.Type, path string) (ai.Value, types.Type) {
	if path == "" {
		return v, t
	}
	for _, p := range strings.Split(path, ".") {
		if n, err := strconv.Atoi(p); err == nil {
			at, ok := t.Underlying().(*types.Array)
			av, ok2 := v.(ai.ArrV)
			if !ok || !ok2 || int64(n) >= at.Len() {
				panic(missing{"element " + p + " of " + path + " in " + t.String()})
			}
			v, t = s.E.Read(st.F, av.C, ai.Num(int64(n))), at.Elem()
			continue
		}
		for _, i := range s.fieldPath(t, p) {
			sv, ok := v.(ai.StructV)
			if !ok {
				panic(missing{"field " + p + " in " + t.String()})
			}
			v, t = sv.F[i], t.Underlying().(*types.Struct).Field(i).Type()
		}
	}
	return v, t
}

// leafSame checks that a field's value and its bytes agree.
func (s *Sec) leafSame(rule, where string, st *ai.State, l leaf, v ai.Value, c *ai.Content, off ai.Lin) bool {
	x, ok := v.(ai.IntV)
	rd := func(st *ai.State, o int64) ai.Lin {
		b, ok := s.E.Read(st.F, c, off.AddC(l.off+o)).(ai.IntV)
		if !ok {
			panic(missing{"byte of " + l.path})
		}
		return b.L
	}
	if !ok {
		s.Fail(rule, where, "field %s is not an integer: %s", l.path, ai.ValStr(v))
		return false
	}
	good := true
	var w ai.Lin
	switch l.kind {
	case 'b':
		w = rd(st, 0)
		good = st.F.ProveEq(x.L.Sub(w))
	case 'w':
		// as 16-bit value, or byte by byte when the word is the unknown
		w = rd(st, 0).Add(rd(st, 1).Scale(256))
		if !st.F.ProveEq(x.L.Sub(w)) {
			lo := s.E.U.Mod(x.L, 256, st.F)
			hi := s.E.U.Div(x.L, 256, st.F)
			good = st.F.ProveEq(lo.Sub(rd(st, 0))) && st.F.ProveEq(hi.Sub(rd(st, 1)))
		}
	case 's':
		for _, d := range []struct{ neg bool }{{false}, {true}} {
			st2 := st.Clone()
			b := rd(st2, 0)
			w = b
			if d.neg {
				if !st2.F.AssumeGE(b.AddC(-128)) {
					continue
				}
				w = b.AddC(-256)
			} else if !st2.F.AssumeGE(b.Neg().AddC(127)) {
				continue
			}
			if !st2.F.ProveEq(x.L.Sub(w)) {
				good = false
			}
		}
	}
	return s.Check(good, rule, where, "field %s is %s, but the documented bytes at offset 0x%x hold %s", l.path, x.L, l.off, w)
}

func (s *Sec) isArrayParam(fn *ssa.Function) bool {
	_, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Array)
	return ok
}

// layoutCheck decides decode, encode and round trip of one structure.
func (s *Sec) layoutCheck(ly layout) {
	t := s.Type(ly.pkg, ly.typ)
	pt := types.NewPointer(t)
	from, to := "FromSector", "ToSector"
	if ly.n == 512 {
		from, to = "FromBlock", "ToBlock"
	}
	ff, tf := s.Method(pt, from), s.Method(pt, to)
	// decode
	st := s.E.NewState()
	data, dc := s.Input(st, "data", ai.Num(ly.n))
	var arg ai.Value = data
	if s.isArrayParam(ff) {
		arg = ai.ArrV{C: dc}
	}
	// the receiver holds arbitrary old contents
	p := s.E.Alloc(st, s.E.Named(t, "old"), t, "sink")
	decoded := 0
	for _, r := range s.Run(ff, st, p, arg) {
		if !s.Check(s.errOf(r.St, r.Ret) == 1, "decode", s.where(ff), "refuses %d bytes", ly.n) {
			continue
		}
		decoded++
		if s.E.Content(r.St, data) != dc {
			s.Fail("decode", s.where(ff), "decoding modifies its input")
		}
		v := s.E.Obj(r.St, p.Obj)
		for _, l := range ly.leaves {
			fv, _ := s.at(r.St, v, t, l.path)
			s.leafSame("decode", s.where(ff), r.St, l, fv, dc, ai.Num(0))
		}
		// encode again
		for _, q := range s.Run(tf, r.St.Clone(), p) {
			if !s.Check(s.errOf(q.St, ret(q.Ret, 1)) == 1, "round-trip", s.where(tf), "re-encoding fails") {
				continue
			}
			oc, oo, on, ok := s.bytesOf(q.St, ret(q.Ret, 0))
			if !s.Check(ok && q.St.F.ProveEq(on.AddC(-ly.n)), "round-trip", s.where(tf), "re-encoding does not yield %d bytes", ly.n) {
				continue
			}
			for i := int64(0); i < ly.n; i++ {
				a, b := s.E.Read(q.St.F, oc, oo.AddC(i)), s.E.Read(q.St.F, dc, ai.Num(i))
				s.Check(s.E.ValEq(q.St, a, b) == ai.True, "round-trip", s.where(tf), "byte 0x%x of a decoded %s is re-encoded as %s, want %s", i, ly.typ, ai.ValStr(a), ai.ValStr(b))
			}
		}
	}
	s.Check(decoded > 0, "decode", s.where(ff), "never succeeds")
	// encode an arbitrary structure
	st = s.E.NewState()
	v := s.E.Named(t, "value")
	p = s.E.Alloc(st, v, t, "src")
	encoded := 0
	for _, r := range s.Run(tf, st, p) {
		if !s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 1, "encode", s.where(tf), "may fail") {
			continue
		}
		oc, oo, on, ok := s.bytesOf(r.St, ret(r.Ret, 0))
		if !s.Check(ok && r.St.F.ProveEq(on.AddC(-ly.n)), "encode", s.where(tf), "does not yield %d bytes", ly.n) {
			continue
		}
		encoded++
		for _, l := range ly.leaves {
			fv, _ := s.at(r.St, v, t, l.path)
			s.leafSame("encode", s.where(tf), r.St, l, fv, oc, oo)
		}
	}
	s.Check(encoded > 0, "encode", s.where(tf), "never succeeds")
	// other lengths
	if !s.isArrayParam(ff) {
		for _, k := range [][2]int64{{0, ly.n - 1}, {ly.n + 1, 1 << 20}} {
			st := s.E.NewState()
			data := s.Bytes(st, "short", ai.Of(s.E.U.Input("len(data)", k[0], k[1])))
			p := s.E.Alloc(st, s.E.ZeroValue(t), t, "sink")
			for _, r := range s.Run(ff, st, p, data) {
				s.Check(s.errOf(r.St, r.Ret) == 2, "length", s.where(ff), "accepts %d to %d bytes", k[0], k[1])
			}
		}
	}
}
