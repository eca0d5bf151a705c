package props

import (
	"fmt"
	"go/types"
	"strings"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C27", Level: "other",
		Explanation: "The put, rm, dump and ls commands are interpreted with unknown arguments and stand-in disk systems. The request that reaches the disk system (name, type, address, length, contents, overwrite flag, directory) must be exactly what the user asked for, at most once, and what is printed must be exactly what the system answered.",
		MinRules:    map[string]int{"put": 20, "rm": 8, "dump": 4, "ls": 10},
		Run:         runC27})
}

func tf(b bool) ai.Cond {
	if b {
		return ai.Cond{Op: ai.CTrue}
	}
	return ai.Cond{Op: ai.CFalse}
}

// isCond reports whether v is the given truth value in st.
func (s *Sec) isBool(st *ai.State, v ai.Value, want bool) bool {
	c, ok := s.cond(v)
	if !ok {
		return false
	}
	t := st.F.Eval(c)
	return want && t == ai.True || !want && t == ai.False
}

// cmdRun allocates a command with the given fields (others unknown) and runs it.
func (s *Sec) cmdRun(typ string, w *world, st *ai.State, fields map[string]ai.Value) []ai.CallRes {
	t := s.Type("cmd", typ)
	run := s.Method(t, "Run")
	v := s.E.Named(t, "cmd")
	for n, x := range fields {
		v = setField(v, s.fieldPath(t, n), x)
	}
	p := s.E.Alloc(st, v, t, "cmd")
	return s.Run(run, st, s.ptrFor(st, run, p, t), w.globals(st))
}

func (s *Sec) floppyFile(img ai.StrV) {
	s.E.FileLen = func(key string, n ai.Lin) ai.Lin {
		if key == img.String() {
			return ai.Num(floppy)
		}
		return n
	}
}

// stdout is everything printed on the path, if it is known exactly.
func (s *Sec) stdout(st *ai.State) (ai.StrV, bool) {
	var out ai.StrV
	for _, e := range st.Trace.Events() {
		switch e.Kind {
		case "stdout.text":
			t, ok := e.Args[0].(ai.StrV)
			if !ok {
				return out, false
			}
			out = ai.Concat(out, t)
		case "stdout.Write":
			switch a := e.Args[1].(type) {
			case ai.StrV:
				out = ai.Concat(out, a)
			case ai.SliceV:
				out = ai.Concat(out, s.E.ContentStr(st, e.Snap[1], a))
			default:
				return out, false
			}
		case "may":
			return out, false
		}
	}
	return out, true
}

func runC27(c *Ctx) {
	one := [][2]string{{"dos3", "do"}}
	c.Section("put", func(s *Sec) {
		run := c.Method(c.Type("cmd", "PutCmd"), "Run")
		where := s.where(run)
		for _, ft := range []struct {
			name string
			typ  int64
		}{{"B", 6}, {"BIN", 6}, {"Binary", 6}, {"T", 4}, {"BAS", 0xfc}, {"nonesuch", -1}, {"", -1}} {
			for _, over := range []bool{true, false} {
				for _, src := range []string{"file", "-"} {
					w := s.newWorld(one)
					w.quiet = true
					st := s.E.NewState()
					img := s.E.U.InputStr("image", ".dsk")
					target, srcName := s.E.U.InputStr("target", "x"), s.E.U.InputStr("source", "x")
					if src == "-" {
						srcName = ai.Lit("-")
					}
					s.floppyFile(img)
					addr := s.Int("address", 0, 65535)
					okn := 0
					for _, r := range s.cmdRun("PutCmd", w, st, map[string]ai.Value{"DiskImage": img, "Order": ai.Lit("do"), "System": ai.Lit("dos3"), "FiletypeName": ai.Lit(ft.name),
						"Overwrite": ai.BoolV{C: tf(over)}, "Address": addr, "TargetFilename": target, "SourceFilename": srcName}) {
						what := fmt.Sprintf("put --filetype-name %q -f=%v from %s", ft.name, over, src)
						puts := calls(r.St, "PutFile:")
						if ft.typ < 0 {
							s.Check(len(puts) == 0 && s.errOf(r.St, r.Ret) == 2, "put", where, "%s: an unknown filetype is not refused", what)
							continue
						}
						if len(puts) == 0 {
							s.Check(s.errOf(r.St, r.Ret) == 2, "put", where, "%s: succeeds without putting anything", what)
							continue
						}
						if !s.Check(len(puts) == 1, "put", where, "%s: puts %d times", what, len(puts)) {
							continue
						}
						okn++
						p := puts[0]
						s.Check(s.isBool(r.St, p.Args[1], over), "put", where, "%s: overwrite flag passed on is %s", what, ai.ValStr(p.Args[1]))
						s.Check(s.E.ValEq(r.St, p.Args[2], target) == ai.True, "put", where, "%s: name is %s", what, ai.ValStr(p.Args[2]))
						s.Check(s.E.ValEq(r.St, p.Args[4], num(ft.typ)) == ai.True, "put", where, "%s: type is %s, want %d", what, ai.ValStr(p.Args[4]), ft.typ)
						s.Check(s.E.ValEq(r.St, p.Args[6], addr) == ai.True, "put", where, "%s: address is %s", what, ai.ValStr(p.Args[6]))
						d, _ := p.Args[5].(ai.SliceV)
						n, _ := p.Args[3].(ai.IntV)
						s.Check(r.St.F.ProveEq(n.L.Sub(d.Len)), "put", where, "%s: length is %s, data has %s bytes", what, n.L, d.Len)
						ok := p.Snap[5] != nil && strings.HasPrefix(p.Snap[5].Name, "file:") && r.St.F.ProveEq(d.Off) && r.St.F.ProveEq(d.Len.Sub(p.Snap[5].N))
						if ok && src == "file" {
							ok = p.Snap[5].Name == "file:"+srcName.String()
						}
						if ok && src == "-" {
							ok = strings.Contains(strings.ToLower(p.Snap[5].Name), "stdin")
						}
						s.Check(ok, "put", where, "%s: the data is not the whole source file", what)
					}
					if ft.typ >= 0 {
						s.Check(okn > 0, "put", where, "put of type %s never reaches the disk system", ft.name)
					}
				}
			}
		}
		// both from standard input
		w := s.newWorld(one)
		st := s.E.NewState()
		for _, r := range s.cmdRun("PutCmd", w, st, map[string]ai.Value{"DiskImage": ai.Lit("-"), "SourceFilename": ai.Lit("-"), "Order": ai.Lit("do"), "System": ai.Lit("dos3"), "FiletypeName": ai.Lit("B")}) {
			s.Check(s.errOf(r.St, r.Ret) == 2 && len(hostWrites(r.St)) == 0, "put", where, "image and data both from standard input is not refused")
		}
	})
	c.Section("rm", func(s *Sec) {
		run := c.Method(c.Type("cmd", "DeleteCmd"), "Run")
		where := s.where(run)
		for _, existed := range []bool{true, false} {
			for _, force := range []bool{true, false} {
				w := s.newWorld(one)
				w.quiet = true
				e := tf(existed)
				w.existed = &e
				st := s.E.NewState()
				img, name := s.E.U.InputStr("image", ".dsk"), s.E.U.InputStr("name", "x")
				s.floppyFile(img)
				n := 0
				for _, r := range s.cmdRun("DeleteCmd", w, st, map[string]ai.Value{"DiskImage": img, "Filename": name, "Order": ai.Lit("do"), "System": ai.Lit("dos3"), "MissingOk": ai.BoolV{C: tf(force)}}) {
					ds := calls(r.St, "Delete:")
					if len(ds) == 0 {
						s.Check(s.errOf(r.St, r.Ret) == 2, "rm", where, "succeeds without deleting")
						continue
					}
					s.Check(len(ds) == 1 && s.E.ValEq(r.St, ds[0].Args[1], name) == ai.True, "rm", where, "does not delete exactly the named file")
					if ds[0].Kind != "Delete:ok" {
						continue
					}
					n++
					if !existed && !force {
						s.Check(s.errOf(r.St, r.Ret) == 2 && len(hostWrites(r.St)) == 0, "rm", where, "a missing file is not an error although -f was not given")
					} else {
						s.Check(len(hostWrites(r.St)) == 1, "rm", where, "the image is not written (existed=%v, -f=%v)", existed, force)
					}
				}
				s.Check(n > 0, "rm", where, "never reaches the disk system")
			}
		}
	})
	c.Section("dump", func(s *Sec) {
		run := c.Method(c.Type("cmd", "DumpCmd"), "Run")
		where := s.where(run)
		w := s.newWorld(one)
		w.quiet = true
		st := s.E.NewState()
		img, name := s.E.U.InputStr("image", ".dsk"), s.E.U.InputStr("name", "x")
		s.floppyFile(img)
		w.file = s.E.InputContent("file data", ai.Of(s.E.U.Input("len(data)", 0, 1<<20)), types.Typ[types.Uint8])
		n := 0
		for _, r := range s.cmdRun("DumpCmd", w, st, map[string]ai.Value{"DiskImage": img, "Filename": name, "Order": ai.Lit("do"), "System": ai.Lit("dos3")}) {
			gs := calls(r.St, "GetFile:")
			ws := hostWrites(r.St)
			if len(gs) == 0 || gs[0].Kind != "GetFile:ok" {
				s.Check(len(ws) == 0 && s.errOf(r.St, r.Ret) == 2, "dump", where, "prints something although the file could not be read")
				continue
			}
			n++
			s.Check(len(gs) == 1 && s.E.ValEq(r.St, gs[0].Args[1], name) == ai.True, "dump", where, "does not read exactly the named file")
			if !s.Check(len(ws) == 1 && ws[0].Kind == "stdout.Write", "dump", where, "%d writes", len(ws)) {
				continue
			}
			_, d, dc := writeParts(ws[0])
			s.Check(dc == w.file && r.St.F.ProveEq(d.Off) && r.St.F.ProveEq(d.Len.Sub(w.file.N)), "dump", where, "does not print exactly the file's data")
		}
		s.Check(n > 0, "dump", where, "never reads the file")
	})
	c.Section("ls", func(s *Sec) {
		run := c.Method(c.Type("cmd", "LsCmd"), "Run")
		where := s.where(run)
		s.E.TraceStdout = true
		dt := c.Type("types", "Descriptor")
		for _, short := range []bool{true, false} {
			for _, dir := range []string{"", "dir"} {
				for _, sub := range []bool{true, false} {
					w := s.newWorld(one)
					w.quiet = true
					e := tf(sub)
					w.subdirs = &e
					n1, f1, n2 := s.E.U.InputStr("name1", "x"), s.E.U.InputStr("full1", "x"), s.E.U.InputStr("name2", "x")
					w.catalog = func(st *ai.State) ai.SliceV {
						return s.E.NewBytes(st, s.E.ArrayOf([]ai.Value{
							s.StructVal(dt, map[string]ai.Value{"Name": n1, "Fullname": f1}),
							s.StructVal(dt, map[string]ai.Value{"Name": n2})}, dt).C)
					}
					st := s.E.NewState()
					img := s.E.U.InputStr("image", ".dsk")
					s.floppyFile(img)
					dirV := ai.Lit("")
					if dir != "" {
						dirV = s.E.U.InputStr("dir", "x")
					}
					want := ai.Concat(ai.Concat(f1, ai.Lit("\n")), ai.Concat(n2, ai.Lit("\n")))
					if short {
						want = ai.Concat(ai.Concat(n1, ai.Lit("\n")), ai.Concat(n2, ai.Lit("\n")))
					}
					n := 0
					for _, r := range s.cmdRun("LsCmd", w, st, map[string]ai.Value{"Image": s.E.File(img), "Directory": dirV, "ShortNames": ai.BoolV{C: tf(short)}, "Order": ai.Lit("do"), "System": ai.Lit("dos3")}) {
						what := fmt.Sprintf("ls (short=%v, directory=%q, system has subdirectories=%v)", short, dir, sub)
						cs := calls(r.St, "Catalog:")
						out, known := s.stdout(r.St)
						if dir != "" && !sub {
							s.Check(s.errOf(r.St, r.Ret) == 2 && len(cs) == 0, "ls", where, "%s: not refused", what)
							continue
						}
						if len(cs) == 0 || cs[0].Kind != "Catalog:ok" {
							s.Check(s.errOf(r.St, r.Ret) == 2 && len(out.P) == 0, "ls", where, "%s: prints or succeeds without a catalog", what)
							continue
						}
						n++
						s.Check(len(cs) == 1 && s.E.ValEq(r.St, cs[0].Args[1], dirV) == ai.True, "ls", where, "%s: does not list exactly that directory", what)
						s.Check(known && out.Key() == want.Key(), "ls", where, "%s: prints %s, want %s", what, out, want)
					}
					if dir == "" || sub {
						s.Check(n > 0, "ls", where, "never lists")
					}
				}
			}
		}
	})
}
