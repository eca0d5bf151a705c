package props

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"diskcheck/ai"
)

// nakedDisk is a NakedOS disk whose sector map and symbol table are known and whose other bytes are not.
type nakedDisk struct {
	owner [smN]int64
	syms  []nakedSym // by index in the table; "" = empty
	table bool       // has a symbol table
}

type nakedSym struct {
	name string
	addr int64
	link int64
}

func addrHash(a int64) int64 { return (a ^ a>>8) & 0x7f }

// encodeName is the Super-Mon encoding of a symbol name.
func encodeName(name string) [6]int64 {
	var v uint64
	for i := len(name) - 1; i >= 0; i-- {
		ch := uint64(name[i])
		switch {
		case ch >= 'A' && ch <= 'Z':
			v = v<<5 + ch - '@'
		case ch <= '4':
			v = v<<6 + 0x1b + ch - '0'
		default:
			v = v<<6 + 0x3b + ch - '5'
		}
	}
	var r [6]int64
	for i := range r {
		r[i] = int64(v >> uint(8*i) & 0xff)
	}
	return r
}

// newNaked lays out files: number -> how many sectors, spread over the disk.
func newNaked(files map[int64]int, spread int, table bool) *nakedDisk {
	d := &nakedDisk{table: table}
	for i := range d.owner {
		d.owner[i] = 0xff
		if i < 12 {
			d.owner[i] = 0xfe
		}
	}
	var fs []int64
	for f := range files {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i] < fs[j] })
	pos := 12
	for _, f := range fs {
		for k := 0; k < files[f]; k++ {
			for d.owner[pos] != 0xff {
				pos = 12 + (pos-12+1)%548
			}
			d.owner[pos] = f
			pos = 12 + (pos-12+spread)%548
		}
	}
	return d
}

// add enters a symbol at a table index, at the end of its chain.
func (d *nakedDisk) add(idx int, name string, addr int64) {
	for len(d.syms) <= idx {
		d.syms = append(d.syms, nakedSym{link: -1})
	}
	for i := range d.syms {
		if d.syms[i].addr != 0 && addrHash(d.syms[i].addr) == addrHash(addr) && d.syms[i].link == -1 {
			d.syms[i].link = int64(idx)
			break
		}
	}
	d.syms[idx] = nakedSym{name, addr, -1}
}

func (d *nakedDisk) sectors(f int64) []int64 {
	var r []int64
	for i, o := range d.owner {
		if o == f {
			r = append(r, int64(i))
		}
	}
	return r
}

// image makes the disk image.
func (d *nakedDisk) image(s *Sec, st *ai.State) ai.SliceV {
	img, _ := s.Input(st, "image", ai.Num(floppy))
	v := make([]ai.Value, smN)
	for i := range v {
		v[i] = num(d.owner[i])
	}
	s.E.Overlay(st, img, smAt, v)
	if d.table {
		t := [2][]ai.Value{make([]ai.Value, 4096), make([]ai.Value, 4096)}
		for k := range t {
			for i := range t[k] {
				t[k][i] = num(0)
			}
		}
		for i, sy := range d.syms {
			if sy.addr == 0 {
				continue
			}
			l := int64(0)
			if sy.link >= 0 {
				l = 0xd000 + 5*sy.link
			}
			e := encodeName(sy.name)
			for k, b := range []int64{sy.addr & 255, sy.addr >> 8, l & 255, l >> 8, e[5]} {
				t[0][5*i+k] = num(b)
				t[1][5*i+k] = num(e[k])
			}
		}
		for k, f := range []int64{3, 4} {
			for j, pos := range d.sectors(f) {
				s.E.Overlay(st, img, pos*256, t[k][j*256:j*256+256])
			}
		}
	}
	return img
}

// nakedOp opens the image with the NakedOS factory.
func (s *Sec) nakedOp(st *ai.State, img ai.SliceV) (ai.IfaceV, *ai.State, bool) {
	ft := s.Type("supermon", "OperatorFactory")
	fn := s.Method(ft, "Operator")
	rs := s.Run(fn, st, s.argFor(st, fn, s.E.ZeroValue(ft), ft), img, num(0))
	if len(rs) != 1 || s.errOf(rs[0].St, ret(rs[0].Ret, 1)) != 1 {
		return ai.IfaceV{}, nil, false
	}
	op, ok := ret(rs[0].Ret, 0).(ai.IfaceV)
	return op, rs[0].St, ok && op.Dyn != nil
}

// opCall calls a method of an operator.
func (s *Sec) opCall(st *ai.State, op ai.IfaceV, m string, args ...ai.Value) []ai.CallRes {
	fn := s.Method(op.Dyn, m)
	return s.Run(fn, st, append([]ai.Value{op.Val}, args...)...)
}

// opField reads a field of an operator.
func (s *Sec) opField(st *ai.State, op ai.IfaceV, name string) ai.Value {
	t, v := op.Dyn, op.Val
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
		v = s.E.Obj(st, v.(ai.PtrV).Obj)
	}
	return s.Field(v, t, name)
}

// nakedOwners reads the sector map off an image; ok only if all are known.
func (s *Sec) nakedOwners(st *ai.State, img ai.SliceV) (o [smN]int64, ok bool) {
	c := s.E.Content(st, img)
	for i := range o {
		v, _ := s.E.Read(st.F, c, img.Off.AddC(int64(smAt+i))).(ai.IntV)
		k, isc := st.F.Const(v.L)
		if !isc {
			return o, false
		}
		o[i] = k
	}
	return o, true
}

// nakedSyms reads the symbols of an opened disk: "name=addr", sorted; nil if there is no table.
func (s *Sec) nakedSyms(st *ai.State, op ai.IfaceV) ([]string, bool) {
	v := s.opField(st, op, "ST")
	if s.E.NilOf(st, v) == ai.True {
		return nil, true
	}
	els, ok := s.E.SliceElems(st, v)
	if !ok {
		return nil, false
	}
	t := s.Type("supermon", "Symbol")
	out := []string{}
	for _, e := range els {
		a, ok1 := s.Field(e, t, "Address").(ai.IntV)
		n, ok2 := s.Field(e, t, "Name").(ai.StrV)
		if !ok1 || !ok2 {
			return nil, false
		}
		k, ok1 := st.F.Const(a.L)
		nm, ok2 := st.F.ConstStr(n)
		if !ok1 || !ok2 {
			return nil, false
		}
		if k != 0 {
			out = append(out, fmt.Sprintf("%s=%04X", nm, k))
		}
	}
	sort.Strings(out)
	return out, true
}

func (d *nakedDisk) symList() []string {
	if !d.table {
		return nil
	}
	out := []string{}
	for _, sy := range d.syms {
		if sy.addr != 0 {
			out = append(out, fmt.Sprintf("%s=%04X", sy.name, sy.addr))
		}
	}
	sort.Strings(out)
	return out
}

func sameStrs(a, b []string) bool {
	return strings.Join(a, "|") == strings.Join(b, "|") && (a == nil) == (b == nil)
}
