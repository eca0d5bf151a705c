package props

import (
	"fmt"
	"strings"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C15", Level: "other",
		Explanation: "Listing a ProDOS volume is interpreted on devices (140K and larger) whose directory blocks are laid out in several chains and trees of subdirectories and whose other bytes are unknown, with every entry in every class (deleted, file of each storage type, subdirectory) and every name length. The listing of each directory must be exactly its entries that are not deleted, in order, with the name, type, block count and length stored. Directory chains that loop or leave the device, subdirectories entered twice or with an unknown or circular parent, and devices too short must be refused by listing and recognition alike; names of directories that do not exist are refused.",
		MinRules:    map[string]int{"listing": 500, "refuse": 20, "recognise": 10, "absent": 10},
		Run:         runC15})
}

// proDir is a directory: its blocks and its entries by slot (nil: deleted).
type proDir struct {
	name   string
	blocks []int64
	ents   map[int]*proEnt
	parent int64 // block that holds the entry
}

type proEnt struct {
	storage int64
	nameLen int64
	name    string // known name, or "" for unknown characters
	key     int64  // subdirectory's first block
	off     int64
}

func (p *proDir) slot(i int) int64 {
	i++ // the header
	return p.blocks[i/13]*512 + 4 + 0x27*int64(i%13)
}

func (p *proDir) slots() int { return 13*len(p.blocks) - 1 }

// lay writes a directory.
func (d *dosDisk) lay(p *proDir, volume bool, next ...ai.Lin) {
	s := d.s
	for i, b := range p.blocks {
		prev, nx := int64(0), ai.Num(0)
		if i > 0 {
			prev = p.blocks[i-1]
		}
		if i+1 < len(p.blocks) {
			nx = ai.Num(p.blocks[i+1])
		} else if len(next) == 1 {
			nx = next[0]
		}
		if n, ok := d.st.F.Const(nx); ok {
			d.put(b*512, nums(prev&255, prev>>8, n&255, n>>8)...)
		} else {
			d.put(b*512, ai.Num(prev&255), ai.Num(prev>>8), s.E.U.Mod(nx, 256, d.st.F), s.E.U.Div(nx, 256, d.st.F))
		}
	}
	h := p.blocks[0]*512 + 4
	if volume {
		d.put(h, nums(0xf4, 'D', 'I', 'S', 'K')...)
		d.put(h+0x23, nums(6, 0)...)
	} else {
		d.put(h, ai.Num(0xe0+int64(len(p.name))))
		for i := range p.name {
			d.put(h+1+int64(i), ai.Num(int64(p.name[i])))
		}
		d.put(h+0x10, ai.Num(0x75))
		d.put(h+0x23, nums(p.parent&255, p.parent>>8)...)
	}
	for i := 0; i < p.slots(); i++ {
		o := p.slot(i)
		e := p.ents[i]
		if e == nil {
			d.put(o, s.in("deleted", 0, 15))
			continue
		}
		e.off = o
		d.put(o, ai.Num(e.storage*16+e.nameLen))
		for k := range e.name {
			d.put(o+1+int64(k), ai.Num(int64(e.name[k])))
		}
		if e.storage == 13 {
			d.put(o+0x11, nums(e.key&255, e.key>>8)...)
		}
	}
}

func (p *proDir) sub(slot int, c *proDir) {
	p.ents[slot] = &proEnt{storage: 13, nameLen: int64(len(c.name)), name: c.name, key: c.blocks[0]}
	c.parent = p.slot(slot) / 512
}

func newPro(name string, blocks ...int64) *proDir {
	return &proDir{name: name, blocks: blocks, ents: map[int]*proEnt{}}
}

// fill puts files of every storage type and name length, and deleted entries, into the free slots.
func (p *proDir) fill(k int) *proDir {
	kinds := []int64{1, 2, 3, 0, 5, 1, 0}
	for i := 0; i < p.slots(); i++ {
		if t := kinds[(i+k)%len(kinds)]; t != 0 && p.ents[i] == nil {
			p.ents[i] = &proEnt{storage: t, nameLen: int64(1 + (i*4+k)%15)}
		}
	}
	return p
}

func runC15(c *Ctx) {
	c.StepLimit = 400_000
	ft := c.Type("prodos", "OperatorFactory")
	dt := c.Type("types", "Descriptor")
	matches := func(s *Sec, d *dosDisk, want bool, what string) {
		fn := c.Method(ft, "SeemsToMatch")
		st := d.st.Clone()
		s.decides("recognise", s.where(fn), s.Run(fn, st, s.argFor(st, fn, s.E.ZeroValue(ft), ft), d.img, num(0)), want, "a device with %s is recognised as ProDOS", what)
	}
	open := func(s *Sec, d *dosDisk) (ai.IfaceV, *ai.State, bool) {
		fn := s.Method(ft, "Operator")
		st := d.st.Clone()
		rs := s.Run(fn, st, s.argFor(st, fn, s.E.ZeroValue(ft), ft), d.img, num(0))
		if len(rs) != 1 || s.errOf(rs[0].St, ret(rs[0].Ret, 1)) != 1 {
			return ai.IfaceV{}, nil, false
		}
		op, ok := ret(rs[0].Ret, 0).(ai.IfaceV)
		return op, rs[0].St, s.Check(ok && op.Dyn != nil, "listing", "prodos.OperatorFactory.Operator", "the operator's type is not known")
	}
	list := func(s *Sec, op ai.IfaceV, st *ai.State, d *dosDisk, path string, p *proDir, what string) {
		where := s.where(c.Method(op.Dyn, "Catalog"))
		what = fmt.Sprintf("%s: directory %q", what, path)
		ic := s.E.Content(st, d.img)
		n := 0
		for _, r := range s.opCall(st.Clone(), op, "Catalog", ai.Lit(path)) {
			n++
			if p == nil {
				s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 2, "absent", where, "%s, which does not exist, is listed", what)
				continue
			}
			if !s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 1, "listing", where, "%s is not listed", what) {
				continue
			}
			var want []*proEnt
			for i := 0; i < p.slots(); i++ {
				if p.ents[i] != nil {
					want = append(want, p.ents[i])
				}
			}
			els, ok := s.E.SliceElems(r.St, ret(r.Ret, 0))
			if !s.Check(ok && len(els) == len(want), "listing", where, "%s: %d entries are listed, want %d", what, len(els), len(want)) {
				continue
			}
			rd := func(o int64) ai.Lin {
				v, _ := s.E.Read(r.St.F, ic, ai.Num(o)).(ai.IntV)
				return v.L
			}
			for i, e := range want {
				var text []wantText
				for k := int64(0); k < e.nameLen; k++ {
					text = append(text, wantText{char: rd(e.off + 1 + k)})
				}
				ok, w := s.sameText(r.St, s.Field(els[i], dt, "Name"), text)
				s.Check(ok, "listing", where, "%s: the name of entry %d is %s, want %s", what, i, ai.ValStr(s.Field(els[i], dt, "Name")), w)
				s.sameLin("listing", where, r.St, s.Field(els[i], dt, "Blocks"), rd(e.off+0x13).Add(rd(e.off+0x14).Scale(256)), "%s: blocks of entry %d", what, i)
				s.sameLin("listing", where, r.St, s.Field(els[i], dt, "Length"), rd(e.off+0x15).Add(rd(e.off+0x16).Scale(256)).Add(rd(e.off+0x17).Scale(65536)), "%s: length of entry %d", what, i)
				s.sameLin("listing", where, r.St, s.Field(els[i], dt, "Type"), rd(e.off+0x10), "%s: type of entry %d", what, i)
			}
		}
		s.Check(n > 0, "listing", where, "%s: no outcome", what)
	}

	// a tree of directories: path -> directory; the volume is ""
	type tree map[string]*proDir
	trees := []struct {
		name string
		size int64
		mk   func() tree
	}{
		{"one block", floppy, func() tree { return tree{"": newPro("", 2).fill(0)} }},
		{"four blocks", floppy, func() tree { return tree{"": newPro("", 2, 3, 4, 5).fill(1)} }},
		{"scattered blocks", floppy, func() tree { return tree{"": newPro("", 2, 279, 7, 100, 8).fill(2)} }},
		{"a large device", 65535 * 512, func() tree { return tree{"": newPro("", 2, 65534, 300).fill(3)} }},
		{"an empty volume", floppy, func() tree { return tree{"": newPro("", 2, 3, 4, 5)} }},
		{"subdirectories", floppy, func() tree {
			v, a, b := newPro("", 2, 3, 4, 5), newPro("ALPHA", 20, 21, 200), newPro("B", 30)
			ad, bd, add := newPro("DEEP", 40, 41), newPro("DEEP", 50), newPro("ALPHA", 60)
			v.sub(0, a)
			v.sub(15, b)
			a.sub(14, ad)
			b.sub(11, bd)
			ad.sub(13, add)
			x := newPro("EMPTY.DIR.15CHR", 70)
			v.sub(v.slots()-1, x)
			late, last := newPro("LATE", 80, 81), newPro("LAST", 90)
			a.sub(30, late)
			a.sub(37, last)
			v.fill(4)
			late.fill(3)
			last.fill(5)
			a.fill(5)
			b.fill(6)
			ad.fill(0)
			bd.fill(1)
			add.fill(2)
			return tree{"": v, "ALPHA": a, "B": b, "ALPHA/DEEP": ad, "B/DEEP": bd, "ALPHA/DEEP/ALPHA": add, "EMPTY.DIR.15CHR": x,
				"ALPHA/LATE": late, "ALPHA/LAST": last}
		}},
		{"a chain of subdirectories", 1600 * 512, func() tree {
			v := newPro("", 2, 3)
			t := tree{"": v}
			p, path := v, ""
			for i := 0; i < 6; i++ {
				d := newPro(fmt.Sprintf("D%d", i), int64(100+10*i), int64(1500+i))
				p.sub([]int{24, 0, 12, 11, 13, 7}[i], d)
				path = strings.TrimPrefix(path+"/"+d.name, "/")
				t[path] = d
				p.fill(i)
				p = d
			}
			return t
		}},
	}
	absent := []string{"NOPE", "DEEP", "ALPHA/NOPE", "B/DEEP/ALPHA", "D0/D2", "ALPH", "ALPHA/", "DISK"}
	for _, tr := range trees {
		tr := tr
		c.Section("listing: "+tr.name, func(s *Sec) {
			t := tr.mk()
			st := s.E.NewState()
			img, _ := s.Input(st, "device", ai.Num(tr.size))
			d := &dosDisk{s, st, img}
			for path, p := range t {
				d.lay(p, path == "")
			}
			matches(s, d, true, tr.name)
			op, st2, ok := open(s, d)
			if !s.Check(ok, "listing", "prodos.OperatorFactory.Operator", "does not open %s", tr.name) {
				return
			}
			for path, p := range t {
				list(s, op, st2, d, path, p, tr.name)
			}
			for _, a := range absent {
				if t[a] == nil {
					list(s, op, st2, d, a, nil, tr.name)
				}
			}
		})
	}

	c.Section("refusals", func(s *Sec) {
		bad := func(what string, size ai.Lin, mk func(d *dosDisk)) {
			st := s.E.NewState()
			img, _ := s.Input(st, "device", size)
			d := &dosDisk{s, st, img}
			if mk != nil {
				mk(d)
			}
			matches(s, d, false, what)
			op, st2, ok := open(s, d)
			if !ok {
				return
			}
			where := s.where(c.Method(op.Dyn, "Catalog"))
			for _, path := range []string{"", "A", "A/B"} {
				n := 0
				for _, r := range s.opCall(st2.Clone(), op, "Catalog", ai.Lit(path)) {
					n++
					s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 2, "refuse", where, "directory %q of a device with %s is listed", path, what)
				}
				s.Check(n > 0, "refuse", where, "%s: no outcome", what)
			}
		}
		fl := ai.Num(floppy)
		for n := 1; n <= 4; n++ {
			for to := 0; to < n; to++ {
				bl := []int64{2, 3, 4, 5}[:n]
				sb := []int64{20, 33, 27, 21}[:n]
				bad(fmt.Sprintf("a volume directory of %d blocks that loops to block %d", n, bl[to]), fl, func(d *dosDisk) { d.lay(newPro("", bl...).fill(0), true, ai.Num(bl[to])) })
				bad(fmt.Sprintf("a subdirectory of %d blocks that loops to block %d", n, sb[to]), fl, func(d *dosDisk) {
					v, a := newPro("", 2, 3), newPro("A", sb...)
					v.sub(13, a)
					d.lay(v.fill(0), true)
					d.lay(a.fill(1), false, ai.Num(sb[to]))
				})
			}
		}
		for _, n := range []int{1, 3} {
			bl := []int64{2, 3, 4}[:n]
			bad(fmt.Sprintf("a volume directory of %d blocks that leaves the device", n), fl, func(d *dosDisk) {
				d.lay(newPro("", bl...).fill(0), true)
				lo := s.in("next", 280, 65535)
				d.put(bl[n-1]*512+2, s.E.U.Mod(lo, 256, d.st.F), s.E.U.Div(lo, 256, d.st.F))
			})
			bad(fmt.Sprintf("a subdirectory of %d blocks that leaves the device", n), fl, func(d *dosDisk) {
				v, a := newPro("", 2, 3), newPro("A", bl[n-1]+20)
				v.sub(13, a)
				d.lay(v.fill(0), true)
				lo := s.in("next", 280, 65535)
				d.lay(a.fill(1), false, lo)
			})
		}
		bad("a subdirectory entry that points beyond the device", fl, func(d *dosDisk) {
			v, a := newPro("", 2, 3), newPro("A", 20)
			v.sub(13, a)
			d.lay(v.fill(0), true)
			k := s.in("key", 280, 65535)
			d.put(v.slot(13)+0x11, s.E.U.Mod(k, 256, d.st.F), s.E.U.Div(k, 256, d.st.F))
		})
		bad("a subdirectory that has two entries", fl, func(d *dosDisk) {
			v, a := newPro("", 2, 3), newPro("A", 20)
			v.sub(13, a)
			v.sub(17, a)
			d.lay(v.fill(0), true)
			d.lay(a.fill(1), false)
		})
		bad("a subdirectory entered by itself", fl, func(d *dosDisk) {
			v, a := newPro("", 2, 3), newPro("A", 20)
			a.sub(3, a)
			v.sub(13, a)
			d.lay(v.fill(0), true)
			d.lay(a.fill(1), false)
		})
		bad("a subdirectory whose parent is itself", fl, func(d *dosDisk) {
			v, a := newPro("", 2, 3), newPro("A", 20)
			v.sub(13, a)
			a.parent = 20
			d.lay(v.fill(0), true)
			d.lay(a.fill(1), false)
		})
		bad("two subdirectories that are each other's parent", fl, func(d *dosDisk) {
			v, a, b := newPro("", 2, 3), newPro("A", 20), newPro("B", 30, 31)
			v.sub(13, a)
			v.sub(14, b)
			a.parent, b.parent = 31, 20
			d.lay(v.fill(0), true)
			d.lay(a.fill(1), false)
			d.lay(b.fill(1), false)
		})
		bad("a subdirectory whose parent is not a directory", fl, func(d *dosDisk) {
			v, a := newPro("", 2, 3), newPro("A", 20)
			v.sub(13, a)
			a.parent = 77
			d.lay(v.fill(0), true)
			d.lay(a.fill(1), false)
		})
		bad("fewer than three blocks", s.in("size", 0, 1535), nil)
	})
}
