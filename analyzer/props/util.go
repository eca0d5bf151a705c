package props

import (
	"fmt"
	"go/types"

	"diskcheck/ai"

	"golang.org/x/tools/go/ssa"
)

// Input makes an unknown byte slice of length n and returns its content.
func (s *Sec) Input(st *ai.State, name string, n ai.Lin) (ai.SliceV, *ai.Content) {
	c := s.E.InputContent(name, n, types.Typ[types.Uint8])
	return s.E.NewBytes(st, c), c
}

// ints makes a constant []int.
func (s *Sec) ints(st *ai.State, v []int64) ai.SliceV {
	return s.E.ConstSlice(st, v, types.Typ[types.Int])
}

// Struct allocates a struct with the given fields set and the others zero.
func (s *Sec) Struct(st *ai.State, t types.Type, fields map[string]ai.Value) ai.PtrV {
	return s.E.Alloc(st, s.StructVal(t, fields), t, "input:"+t.String())
}

// StructVal builds a struct value.
func (s *Sec) StructVal(t types.Type, fields map[string]ai.Value) ai.Value {
	v := s.E.ZeroValue(t)
	for n, f := range fields {
		v = setField(v, s.fieldPath(t, n), f)
	}
	return v
}

func setField(v ai.Value, path []int, nv ai.Value) ai.Value {
	if len(path) == 0 {
		return nv
	}
	sv := v.(ai.StructV)
	r := ai.StructV{F: append([]ai.Value{}, sv.F...)}
	r.F[path[0]] = setField(sv.F[path[0]], path[1:], nv)
	return r
}

// Globals makes a *types.Globals with no factories.
func (s *Sec) Globals(st *ai.State) ai.PtrV {
	return s.Struct(st, s.Type("types", "Globals"), nil)
}

// hostWrites lists the events of a trace that write outside the process.
func hostWrites(st *ai.State) []ai.Event {
	var r []ai.Event
	var walk func(evs []ai.Event, may bool)
	walk = func(evs []ai.Event, may bool) {
		for _, e := range evs {
			if e.Kind == "may" {
				walk(e.Alt, true)
				continue
			}
			if isHostWrite(e.Kind) {
				if may {
					e.Note = "may"
				}
				r = append(r, e)
			}
		}
	}
	walk(st.Trace.Events(), false)
	return r
}

func isHostWrite(k string) bool {
	switch k {
	case "os.WriteFile", "stdout.Write", "(*os.File).Write", "os.Create", "os.OpenFile", "os.Remove", "os.RemoveAll", "os.Rename",
		"os.Truncate", "(*os.File).Truncate", "(*os.File).WriteAt", "(*os.File).WriteString", "os.Mkdir", "os.MkdirAll", "os.Symlink",
		"os.Link", "os.Chmod", "os.Chown", "os.Chtimes", "io/ioutil.WriteFile", "os.CreateTemp":
		return true
	}
	return false
}

// writeParts splits a write event: file name ("-" = stdout), data.
func writeParts(e ai.Event) (ai.StrV, ai.SliceV, *ai.Content) {
	switch e.Kind {
	case "os.WriteFile":
		n, _ := e.Args[0].(ai.StrV)
		d, _ := e.Args[1].(ai.SliceV)
		return n, d, e.Snap[1]
	case "stdout.Write":
		d, _ := e.Args[1].(ai.SliceV)
		return ai.Lit("-"), d, e.Snap[1]
	}
	return ai.Lit("?" + e.Kind), ai.SliceV{Obj: -1}, nil
}

func sprintIdx(i int64) string { return fmt.Sprintf(" @%d", i) }

// argFor passes v (of type t) to fn's receiver: by value, or by address if the receiver is a pointer.
func (s *Sec) argFor(st *ai.State, fn *ssa.Function, v ai.Value, t types.Type) ai.Value {
	if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
		return s.E.Alloc(st, v, t, "recv")
	}
	return v
}

// ptrFor passes *p to fn's receiver, which is a pointer or a value.
func (s *Sec) ptrFor(st *ai.State, fn *ssa.Function, p ai.PtrV, t types.Type) ai.Value {
	if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
		return p
	}
	return s.E.Obj(st, p.Obj)
}
