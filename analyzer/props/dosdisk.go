package props

import (
	"diskcheck/ai"
)

// dosDisk is a DOS 3.3 disk image of unknown contents on which known structures are laid out.
type dosDisk struct {
	s   *Sec
	st  *ai.State
	img ai.SliceV
}

type ts struct{ t, s int64 }

func (p ts) off() int64 { return p.t*4096 + p.s*256 }

// put sets bytes at an offset.
func (d *dosDisk) put(off int64, v ...ai.Lin) {
	l := make([]ai.Value, len(v))
	for i, x := range v {
		l[i] = ai.IntV{L: x}
	}
	d.s.E.Overlay(d.st, d.img, off, l)
}

func nums(v ...int64) []ai.Lin {
	r := make([]ai.Lin, len(v))
	for i, x := range v {
		r[i] = ai.Num(x)
	}
	return r
}

const vtocAt = 17 * 4096

// newDOS makes an image of n bytes with a valid VTOC for so many sectors per track that points to the catalog.
func (s *Sec) newDOS(st *ai.State, n ai.Lin, sectors int64, cat ts) *dosDisk {
	img, _ := s.Input(st, "image", n)
	return s.formatDOS(st, img, sectors, cat)
}

// formatDOS puts a valid VTOC onto an image.
func (s *Sec) formatDOS(st *ai.State, img ai.SliceV, sectors int64, cat ts) *dosDisk {
	d := &dosDisk{s, st, img}
	d.put(vtocAt+1, ai.Num(cat.t), ai.Num(cat.s), ai.Num(3))
	d.put(vtocAt+6, s.in("volume", 0, 254))
	d.put(vtocAt+0x27, ai.Num(122))
	d.put(vtocAt+0x31, ai.Num(1))
	d.put(vtocAt+0x34, ai.Num(35), ai.Num(sectors), ai.Num(0), ai.Num(1))
	for i := int64(0); i < 50; i++ {
		d.put(vtocAt+0x38+4*i+2, ai.Num(0), ai.Num(0))
	}
	return d
}

// chain links sectors: next is the last one's link.
func (d *dosDisk) chain(l []ts, next ...ai.Lin) {
	for i, p := range l {
		if i+1 < len(l) {
			d.put(p.off()+1, ai.Num(l[i+1].t), ai.Num(l[i+1].s))
		} else if len(next) == 2 {
			d.put(p.off()+1, next...)
		} else {
			d.put(p.off()+1, ai.Num(0), ai.Num(0))
		}
	}
}

// entry is the offset of a file description in a catalog sector.
func (p ts) entry(j int64) int64 { return p.off() + 0x0b + 35*j }

// unused clears the entries of a catalog sector.
func (d *dosDisk) unused(p ts) {
	for j := int64(0); j < 7; j++ {
		d.put(p.entry(j), ai.Num(0))
	}
}

// name sets an entry's name, padded with blanks.
func (d *dosDisk) name(off int64, n string) {
	b := make([]ai.Lin, 30)
	for i := range b {
		b[i] = ai.Num(0xa0)
		if i < len(n) {
			b[i] = ai.Num(int64(n[i]) | 0x80)
		}
	}
	d.put(off+3, b...)
}

// open makes the operator.
func (d *dosDisk) open() (ai.IfaceV, *ai.State, bool) {
	s := d.s
	ft := s.Type("dos3", "OperatorFactory")
	fn := s.Method(ft, "Operator")
	rs := s.Run(fn, d.st, s.argFor(d.st, fn, s.E.ZeroValue(ft), ft), d.img, num(0))
	if len(rs) != 1 || s.errOf(rs[0].St, ret(rs[0].Ret, 1)) != 1 {
		return ai.IfaceV{}, nil, false
	}
	op, ok := ret(rs[0].Ret, 0).(ai.IfaceV)
	return op, rs[0].St, ok && op.Dyn != nil
}

// sameBytes checks that a slice holds exactly the given bytes.
func (s *Sec) sameBytes(rule, where, what string, st *ai.State, v ai.Value, n ai.Lin, want func(i int64) ai.Lin) bool {
	sl, ok := v.(ai.SliceV)
	if !s.Check(ok && st.F.ProveEq(sl.Len.Sub(n)), rule, where, "%s has %s bytes, want %s", what, ai.ValStr(v), n) {
		return false
	}
	hi := st.F.Range(n).Hi
	oc := s.E.Content(st, sl)
	for i := int64(0); i < hi; i++ {
		a, ok := s.E.Read(st.F, oc, sl.Off.AddC(i)).(ai.IntV)
		w := want(i)
		if !s.Check(ok && st.F.ProveEq(a.L.Sub(w)), rule, where, "byte %d of %s is %s, want %s", i, what, a.L, w) {
			return false
		}
	}
	return true
}
