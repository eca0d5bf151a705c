package props

import (
	"go/types"

	"diskcheck/ai"

	"golang.org/x/tools/go/ssa"
)

// command describes a command of the tool.
type command struct {
	name, typ string
	image     string // field naming the disk image
	mutates   bool
}

var mutators = []command{
	{"put", "PutCmd", "DiskImage", true},
	{"rm", "DeleteCmd", "DiskImage", true},
	{"mkhello", "MkHelloCmd", "DiskImage", true},
}

// checkImage checks that a write event writes image ic, reordered.
func (s *Sec) checkImage(rule, where, what string, st *ai.State, w ai.Event, ic *ai.Content, n ai.Lin, f []int64) {
	_, data, dc := writeParts(w)
	if !s.Check(dc != nil && st.F.ProveEq(data.Len.Sub(n)), rule, where, "%s: writes %s bytes, want %s", what, data.Len, n) {
		return
	}
	if k, ok := st.F.Const(n); ok && k == floppy {
		d := s.permContent(dc, data.Off, f, ic)
		s.Check(d == "", rule, where, "%s: %s", what, d)
		return
	}
	j := ai.Of(s.E.U.Input("j", 0, 1<<40))
	st = st.Clone()
	if st.F.AssumeGE(n.Sub(j).AddC(-1)) {
		got, want := s.E.Read(st.F, dc, data.Off.Add(j)), s.E.Read(st.F, ic, j)
		s.Check(s.E.ValEq(st, got, want) == ai.True, rule, where, "%s: byte j is %s, want %s", what, ai.ValStr(got), ai.ValStr(want))
	}
}

// roundTrip runs a mutating command on a world.
func (s *Sec) roundTrip(cm command, run *ssa.Function, t types.Type, order, ext string, sys [][2]string, change bool) {
	w := s.newWorld(sys)
	st := s.E.NewState()
	name := s.E.U.InputStr("image", ext)
	n := ai.Num(floppy)
	if ext == ".hdv" {
		n = ai.Of(s.E.U.Input("blocks", 281, 65536)).Scale(512)
	}
	s.E.FileLen = func(key string, l ai.Lin) ai.Lin {
		if key == name.String() {
			return n
		}
		return l
	}
	file := s.E.InputContent("file:"+name.String(), n, types.Typ[types.Uint8])
	changed := s.E.InputContent("changed image", n, types.Typ[types.Uint8])
	w.after = func(st *ai.State, n ai.Lin) *ai.Content { return changed }
	if !change {
		w.after = nil
		w.keep = true
	}
	v := s.E.Named(t, "cmd")
	v = setField(v, s.fieldPath(t, cm.image), name)
	v = setField(v, s.fieldPath(t, "Order"), ai.Lit(order))
	if p := findField(t, "System", 0); p != nil {
		v = setField(v, p, ai.Lit("auto"))
	}
	if p := findField(t, "FiletypeName", 0); p != nil {
		v = setField(v, p, ai.Lit("BIN"))
	}
	cmd := s.E.Alloc(st, v, t, "cmd")
	wrote := 0
	what := cm.name + " x" + ext + " (--order " + order + ", " + sys[0][0] + ")"
	for _, r := range s.Run(run, st, s.ptrFor(st, run, cmd, t), w.globals(st)) {
		ws := hostWrites(r.St)
		if len(ws) == 0 {
			continue
		}
		wrote++
		if !s.Check(len(ws) == 1, "round-trip", s.where(run), "%s: writes %d times", what, len(ws)) {
			continue
		}
		nm, _, _ := writeParts(ws[0])
		s.Check(nm.Key() == name.Key(), "round-trip", s.where(run), "%s: writes file %s, want %s", what, nm, name)
		// the order the operator was opened with
		ops := calls(r.St, "operator:ok")
		if !s.Check(len(ops) == 1, "round-trip", s.where(run), "%s: opened %d times", what, len(ops)) {
			continue
		}
		if !change {
			s.checkImage("round-trip", s.where(run), what+", nothing changed", r.St, ws[0], file, n, logToLog("raw", "raw"))
			continue
		}
		fo := order
		if fo == "auto" {
			fo = s.openedOrder(r.St, ops[0], file, sys[0][1])
		}
		s.checkImage("round-trip", s.where(run), what, r.St, ws[0], changed, n, logToLog(sys[0][1], fo))
	}
	s.Check(wrote > 0, "round-trip", s.where(run), "%s: never writes the image", what)
}

// openedOrder finds which order explains the bytes an operator was given.
func (s *Sec) openedOrder(st *ai.State, ev ai.Event, file *ai.Content, sysOrd string) string {
	sl, _ := ev.Args[1].(ai.SliceV)
	for _, o := range []string{"do", "po"} {
		if s.permContent(ev.Snap[1], sl.Off, logToLog(o, sysOrd), file) == "" {
			return o
		}
	}
	return "raw"
}
