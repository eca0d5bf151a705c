package props

import (
	"fmt"
	"strings"

	"diskcheck/ai"
)

// A world stands in for the disk systems: factories and operators whose
// behaviour is unknown except for their name, their disk order and the bytes
// they were given. Every call on them is recorded on the trace, and every
// fallible call both succeeds and fails.
type world struct {
	s    *Sec
	fac  []ai.IfaceV
	name []string
	ord  []string
	ops  map[int64]int       // operator identity -> factory
	data map[int64]ai.SliceV // operator identity -> image object given to it
	// after: content of the image after PutFile/Delete; nil = unknown new bytes
	after func(st *ai.State, n ai.Lin) *ai.Content
	// newOp, if set, makes the operator returned by a factory.
	newOp   func(c *ai.ExtCall, fi int, img ai.SliceV) ai.Value
	existed *ai.Cond                     // boolean result of PutFile and Delete
	subdirs *ai.Cond                     // answer of HasSubdirs
	catalog func(st *ai.State) ai.SliceV // result of Catalog
	quiet   bool                         // do not record which systems were tried
	keep    bool                         // PutFile and Delete leave the image alone
	file    *ai.Content                  // content of a file returned by GetFile
}

// newWorld installs the stand-ins.
func (s *Sec) newWorld(systems [][2]string) *world {
	w := &world{s: s, ops: map[int64]int{}, data: map[int64]ai.SliceV{}}
	for _, x := range systems {
		w.name = append(w.name, x[0])
		w.ord = append(w.ord, x[1])
		w.fac = append(w.fac, s.E.Opaque())
	}
	prev := s.E.OnExtern
	s.E.OnExtern = func(c *ai.ExtCall) ([]ai.CallRes, bool) {
		if r, ok := w.extern(c); ok {
			return r, true
		}
		if prev != nil {
			return prev(c)
		}
		return nil, false
	}
	return w
}

// systems known to the tool: name, disk order.
var stdSystems = [][2]string{{"dos3", "do"}, {"nakedos", "raw"}, {"prodos", "po"}}

// list is the []types.OperatorFactory.
func (w *world) list(st *ai.State) ai.SliceV {
	var vals []ai.Value
	for _, f := range w.fac {
		vals = append(vals, f)
	}
	return w.s.E.NewBytes(st, w.s.E.ArrayOf(vals, w.s.Type("types", "OperatorFactory")).C)
}

// globals is a *types.Globals with the world's factories.
func (w *world) globals(st *ai.State) ai.PtrV {
	return w.s.Struct(st, w.s.Type("types", "Globals"), map[string]ai.Value{"DiskOperatorFactories": w.list(st), "Debug": w.s.Int("debug", 0, 9)})
}

func (w *world) which(v ai.Value) int {
	if i, ok := v.(ai.IfaceV); ok {
		for k, f := range w.fac {
			if f.Vid == i.Vid {
				return k
			}
		}
	}
	return -1
}

func (w *world) opOf(v ai.Value) (int, int64) {
	if i, ok := v.(ai.IfaceV); ok {
		if k, ok := w.ops[int64(i.Vid)]; ok {
			return k, int64(i.Vid)
		}
	}
	return -1, 0
}

// op makes an operator of system fi over the image bytes img.
func (w *world) op(fi int, img ai.SliceV) ai.IfaceV {
	o := w.s.E.Opaque()
	w.ops[int64(o.Vid)] = fi
	w.data[int64(o.Vid)] = img
	return o
}

func (w *world) extern(c *ai.ExtCall) ([]ai.CallRes, bool) {
	pre := "(" + w.s.P.Module + "/types."
	if !strings.HasPrefix(c.Name, pre) {
		return nil, false
	}
	n := c.Name[len(pre):]
	one := func(v ai.Value) ([]ai.CallRes, bool) { return []ai.CallRes{{St: c.St, Ret: v}}, true }
	ev := func(kind string, st *ai.State, note string) {
		w.s.E.Event(st, kind, c.Args, 0)
		_ = note
	}
	tf := w.s.E.TraceFails
	if strings.HasPrefix(n, "OperatorFactory).") {
		fi := w.which(c.Args[0])
		if fi < 0 {
			return nil, false
		}
		switch n[len("OperatorFactory)."):] {
		case "Name":
			return one(ai.Lit(w.name[fi]))
		case "DiskOrder":
			return one(ai.Lit(w.ord[fi]))
		case "SeemsToMatch":
			no := c.St.Clone()
			if !w.quiet {
				ev("seems:yes", c.St, "")
				ev("seems:no", no, "")
			}
			return []ai.CallRes{{St: c.St, Ret: ai.BoolV{C: ai.Cond{Op: ai.CTrue}}}, {St: no, Ret: ai.BoolV{C: ai.Cond{Op: ai.CFalse}}}}, true
		case "Operator":
			img, _ := c.Args[1].(ai.SliceV)
			var op ai.Value
			if w.newOp != nil {
				op = w.newOp(c, fi, img)
			} else {
				op = w.op(fi, img)
			}
			w.s.E.TraceFails = false
			rs := c.Split([]ai.Value{op})
			w.s.E.TraceFails = tf
			if !w.quiet {
				ev("operator:ok", rs[0].St, "")
				ev("operator:fail", rs[1].St, "")
			}
			return rs, true
		}
		return nil, false
	}
	if strings.HasPrefix(n, "Operator).") {
		fi, id := w.opOf(c.Args[0])
		if fi < 0 {
			return nil, false
		}
		img := w.data[id]
		m := n[len("Operator)."):]
		switch m {
		case "Name":
			return one(ai.Lit(w.name[fi]))
		case "DiskOrder":
			return one(ai.Lit(w.ord[fi]))
		case "GetBytes":
			return one(img)
		case "PutFile", "Delete":
			// may have changed the image even when it fails
			cur := w.s.E.Content(c.St, img)
			if cur != nil && !w.keep {
				nc := w.s.E.InputContent(fmt.Sprintf("changed:%d", id), cur.N, cur.Elem)
				if w.after != nil {
					nc = w.after(c.St, cur.N)
				}
				w.s.E.SetContent(c.St, img, nc)
			}
			args := c.Args
			if m == "PutFile" {
				// op, overwrite, name, length, type, data, address
				t := c.Sig.Params().At(0).Type()
				args = []ai.Value{c.Args[0], c.Args[2]}
				for _, f := range []string{"Descriptor.Name", "Descriptor.Length", "Descriptor.Type", "Data", "StartAddress"} {
					v, _ := w.s.at(c.St, c.Args[1], t, f)
					args = append(args, v)
				}
			}
			var oks []ai.Value
			if w.existed != nil {
				oks = []ai.Value{ai.BoolV{C: *w.existed}}
			}
			rs := c.Split(oks)
			for i, k := range []string{":ok", ":fail"} {
				w.s.E.Event(rs[i].St, m+k, args, 0)
			}
			return rs, true
		case "GetFile":
			t := c.Sig.Results().At(0).Type()
			fi := w.s.E.Named(t, "fileinfo")
			if w.file != nil {
				fi = setField(fi, w.s.fieldPath(t, "Data"), w.s.E.NewBytes(c.St, w.file))
			}
			rs := c.Split([]ai.Value{fi})
			ev("GetFile:ok", rs[0].St, "")
			ev("GetFile:fail", rs[1].St, "")
			return rs, true
		case "Catalog":
			var oks []ai.Value
			if w.catalog != nil {
				oks = []ai.Value{w.catalog(c.St)}
			}
			rs := c.Split(oks)
			ev("Catalog:ok", rs[0].St, "")
			ev("Catalog:fail", rs[1].St, "")
			return rs, true
		case "HasSubdirs":
			if w.subdirs != nil {
				return one(ai.BoolV{C: *w.subdirs})
			}
			return one(ai.BoolV{C: w.s.E.BoolInput(fmt.Sprintf("subdirs:%d", id))})
		}
	}
	return nil, false
}

// calls lists the world's events of a kind prefix.
func calls(st *ai.State, prefix string) []ai.Event {
	var r []ai.Event
	for _, e := range st.Trace.Events() {
		if strings.HasPrefix(e.Kind, prefix) {
			r = append(r, e)
		}
		if e.Kind == "may" {
			for _, a := range e.Alt {
				if strings.HasPrefix(a.Kind, prefix) {
					a.Note = "may"
					r = append(r, a)
				}
			}
		}
	}
	return r
}
