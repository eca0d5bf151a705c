package props

import (
	"go/types"
	"strings"

	"diskcheck/ai"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Spec{ID: "C04", Level: "other",
		Explanation: "helpers.WriteOutput is interpreted for every file name, content and force flag, with all outcomes of the existence test; every command's Run is interpreted with unknown arguments and stand-in disk systems. On every path, what is written outside the process must go to the file the user designated (standard output for \"-\"), and a file that was not designated for in-place change may only be written after the path has seen it does not exist, or with the overwrite flag set.",
		MinRules:    map[string]int{"output": 10, "target": 40, "overwrite": 4},
		Run:         runC04})
	register(&Spec{ID: "C05", Level: "other",
		Explanation: "Every changing command's Run is interpreted with unknown arguments and stand-in disk systems, every fallible operation failing and succeeding. A path that ends in an error must have written nothing, unless the write itself is what failed; a path that ends in success must have written exactly once, as its last effect, a whole image.",
		MinRules:    map[string]int{"failure-writes-nothing": 30, "success-writes-once": 10},
		Run:         runC05})
	register(&Spec{ID: "C07", Level: "other",
		Explanation: "Every command's Run is interpreted with unknown arguments and stand-in disk systems; each fallible operation (opening, reading, closing and writing files, opening the image, catalog, get, put, delete) fails on one branch. Every path on which one failed must end in a non-nil error, except a disk system that declines an image while others are still to be tried. main must print the error to standard error and exit with status 1 exactly when Run failed.",
		MinRules:    map[string]int{"failure-reported": 40, "exit-status": 2},
		Run:         runC07})
}

var commands = append([]command{
	{"ls", "LsCmd", "Image", false},
	{"dump", "DumpCmd", "DiskImage", false},
	{"decode", "DecodeCmd", "", false},
	{"filetypes", "FiletypesCmd", "", false},
	{"reorder", "ReorderCmd", "", true},
	{"mksd", "SDCmd", "DiskImage", true},
}, mutators...)

// scenario is one run of a command.
type scenario struct {
	s      *Sec
	cm     command
	run    *ssa.Function
	t      types.Type
	w      *world
	target ai.StrV // the file the command may write; nil pieces = none
	writes bool
	over   bool // the target may be overwritten
	what   string
}

// forCommand runs a command with unknown arguments and calls f per outcome.
func (c *Ctx) forCommand(cm command, f func(sc *scenario, r ai.CallRes)) {
	c.Section(cm.name, func(s *Sec) {
		s.E.TraceFails = true
		s.E.PeelMax = 600
		s.E.MaxParts = 40
		if cm.name == "decode" {
			s.E.PeelMax = 2
		}
		t := c.Type("cmd", cm.typ)
		run := c.Method(t, "Run")
		type variant struct {
			image, out string
			over       bool
		}
		vs := []variant{{".dsk", "", false}, {"-", "", false}}
		switch cm.name {
		case "decode", "filetypes":
			vs = vs[:1]
		case "reorder":
			vs = []variant{{".dsk", "", false}, {".dsk", ".po", false}, {".dsk", ".po", true}, {".dsk", "-", false}, {"-", "", false}, {"-", ".po", false}}
		case "mksd":
			vs = []variant{{".dsk", "", false}, {"-", "", false}}
		}
		mk := func(n, sfx string) ai.StrV {
			if sfx == "-" {
				return ai.Lit("-")
			}
			return s.E.U.InputStr(n, sfx)
		}
		for _, v := range vs {
			for _, order := range []string{"auto", "do", "po"} {
				sys := []string{"auto"}
				if findField(t, "System", 0) != nil && order == "do" {
					sys = []string{"auto", "dos3"}
				}
				for _, system := range sys {
					if findField(t, "Order", 0) == nil && order != "auto" {
						continue
					}
					w := s.newWorld([][2]string{{"dos3", "do"}, {"nakedos", "raw"}})
					if cm.name == "mkhello" {
						w = s.newWorld([][2]string{{"nakedos", "raw"}, {"dos3", "do"}})
					}
					w.quiet = true
					st := s.E.NewState()
					val := s.E.Named(t, "cmd")
					set := func(field string, x ai.Value) {
						if p := findField(t, field, 0); p != nil {
							val = setField(val, p, x)
						}
					}
					sc := &scenario{s: s, cm: cm, run: run, t: t, w: w, over: true, writes: cm.mutates}
					sc.what = cm.name + " (image x" + v.image + ", order " + order + ", system " + system + ")"
					img := mk("image", v.image)
					set("Order", ai.Lit(order))
					set("System", ai.Lit(system))
					set("FiletypeName", ai.Lit("BIN"))
					if cm.name == "ls" {
						p := s.E.File(img)
						if v.image == "-" {
							p = s.E.File(ai.Lit("/dev/stdin"))
						}
						set("Image", p)
					} else if cm.name == "reorder" {
						set("DiskImage", img)
						set("NewOrder", ai.Lit("auto"))
						out := ai.Lit("")
						sc.target = img
						if v.out != "" {
							out = mk("output", v.out)
							sc.target, sc.over = out, v.over
							sc.what += " to x" + v.out
						}
						set("NewDiskImage", out)
						ov := ai.Cond{Op: ai.CFalse}
						if v.over {
							ov.Op = ai.CTrue
						}
						set("Overwrite", ai.BoolV{C: ov})
					} else if cm.image != "" {
						set(cm.image, img)
						if cm.mutates {
							sc.target = img
						}
					}
					if cm.name == "mksd" {
						set("Binary", s.E.File(s.E.U.InputStr("binary", "")))
					}
					s.E.FileLen = func(key string, n ai.Lin) ai.Lin {
						if cm.image != "" && cm.name != "mksd" && (key == img.String() || strings.Contains(key, "tdin")) {
							return ai.Num(floppy)
						}
						if cm.name == "mksd" {
							return ai.Num(1000)
						}
						return n
					}
					p := s.E.Alloc(st, val, t, "cmd")
					for _, r := range s.Run(run, st, s.ptrFor(st, run, p, t), w.globals(st)) {
						f(sc, r)
					}
				}
			}
		}
	})
}

func runC04(c *Ctx) {
	c.Section("WriteOutput", func(s *Sec) {
		fn := c.Fn("helpers", "WriteOutput")
		where := s.where(fn)
		for _, dash := range []bool{true, false} {
			for _, force := range []bool{true, false} {
				st := s.E.NewState()
				name := ai.Lit("-")
				if !dash {
					name = s.E.U.InputStr("name", "x")
				}
				n := ai.Of(s.E.U.Input("len", 0, 1<<40))
				data, dc := s.Input(st, "data", n)
				op := ai.CFalse
				if force {
					op = ai.CTrue
				}
				okn := 0
				for _, r := range s.Run(fn, st, name, data, ai.BoolV{C: ai.Cond{Op: op}}) {
					ws := hostWrites(r.St)
					e := s.errOf(r.St, r.Ret)
					stat := statOf(r.St, name)
					if !dash && !force && stat != "notexist" {
						s.Check(len(ws) == 0 && e == 2, "overwrite", where, "an existing file is overwritten without force")
						continue
					}
					if len(ws) == 0 {
						s.Check(e == 2, "output", where, "nothing is written and no error reported (dash=%v force=%v)", dash, force)
						continue
					}
					okn++
					if !s.Check(len(ws) == 1, "output", where, "%d writes", len(ws)) {
						continue
					}
					nm, d, wc := writeParts(ws[0])
					s.Check(nm.Key() == name.Key(), "output", where, "writes to %s, want %s", nm, name)
					s.Check(wc == dc && r.St.F.ProveEq(d.Off) && r.St.F.ProveEq(d.Len.Sub(n)), "output", where, "does not write exactly the contents")
				}
				s.Check(okn > 0, "output", where, "never writes (dash=%v force=%v)", dash, force)
			}
		}
	})
	for _, cm := range commands {
		c.forCommand(cm, func(sc *scenario, r ai.CallRes) {
			s := sc.s
			where := s.where(sc.run)
			ws := hostWrites(r.St)
			s.Ok("target", 1)
			for _, ev := range ws {
				nm, _, _ := writeParts(ev)
				if !sc.writes {
					s.Check(ev.Kind == "stdout.Write", "target", where, "%s writes %s (%s), although it only reads", sc.what, nm, ev.Fn)
					continue
				}
				s.Check(nm.Key() == sc.target.Key(), "target", where, "%s writes %s, want only %s", sc.what, nm, sc.target)
				if !sc.over && ev.Kind != "stdout.Write" {
					s.Check(statOf(r.St, sc.target) == "notexist", "overwrite", where, "%s overwrites an existing file without -f", sc.what)
				}
			}
		})
	}
}

// statOf is the last answer of an existence test of the file.
func statOf(st *ai.State, name ai.StrV) string {
	a := ""
	for _, e := range st.Trace.Events() {
		if strings.HasPrefix(e.Kind, "os.Stat:") {
			if n, ok := e.Args[0].(ai.StrV); ok && n.Key() == name.Key() {
				a = e.Kind[len("os.Stat:"):]
			}
		}
	}
	return a
}

func runC05(c *Ctx) {
	for _, cm := range commands {
		if !cm.mutates {
			continue
		}
		c.forCommand(cm, func(sc *scenario, r ai.CallRes) {
			s := sc.s
			where := s.where(sc.run)
			ws := hostWrites(r.St)
			evs := r.St.Trace.Events()
			switch s.errOf(r.St, r.Ret) {
			case 1:
				if !s.Check(len(ws) == 1 && ws[0].Note != "may", "success-writes-once", where, "%s: succeeds with %d writes", sc.what, len(ws)) {
					return
				}
				last := evs[len(evs)-1]
				s.Check(last.Kind == ws[0].Kind, "success-writes-once", where, "%s: something (%s) still happens after the image was written", sc.what, last.Kind)
				_, d, dc := writeParts(ws[0])
				n, ok := r.St.F.Const(d.Len)
				s.Check(dc != nil && ok && n == floppy, "success-writes-once", where, "%s: writes %s bytes instead of a whole image", sc.what, d.Len)
			case 2:
				if len(ws) == 0 {
					s.Ok("failure-writes-nothing", 1)
					return
				}
				last := evs[len(evs)-1]
				failed := strings.HasPrefix(last.Kind, "fail:") && (strings.Contains(last.Kind, "rite"))
				s.Check(failed && len(ws) == 1, "failure-writes-nothing", where, "%s: fails after having written (%s; last effect %s)", sc.what, ws[0].Kind, last.Kind)
			default:
				s.Check(false, "failure-writes-nothing", where, "%s: outcome unknown", sc.what)
			}
		})
	}
}

func runC07(c *Ctx) {
	for _, cm := range commands {
		c.forCommand(cm, func(sc *scenario, r ai.CallRes) {
			s := sc.s
			s.Ok("failure-reported", 1)
			if s.errOf(r.St, r.Ret) == 2 {
				return
			}
			for _, e := range r.St.Trace.Events() {
				evs := []ai.Event{e}
				if e.Kind == "may" {
					evs = e.Alt
				}
				for _, x := range evs {
					if strings.HasPrefix(x.Kind, "fail:") && !ignorable(sc.cm, x) {
						s.Fail("failure-reported", s.where(sc.run), "%s: succeeds although %s failed (at %s)", sc.what, x.Kind[5:], s.E.Pos(x.Pos))
					}
				}
			}
		})
	}
	c.Section("main", func(s *Sec) { s.mainExit() })
}

// ignorable: terminal output of the listing commands is best effort.
func ignorable(cm command, e ai.Event) bool {
	switch cm.name {
	case "decode", "filetypes", "ls":
		return strings.Contains(e.Kind, "Write") || strings.Contains(e.Kind, "Flush") || strings.Contains(e.Kind, "rint")
	}
	return false
}

func (s *Sec) mainExit() {
	fn := s.Fn("", "main")
	where := s.where(fn)
	s.E.TraceFails = true
	ran := false
	exits := 0
	s.E.OnExtern = func(c *ai.ExtCall) ([]ai.CallRes, bool) {
		switch {
		case strings.HasSuffix(c.Name, "kong.Parse"):
			return []ai.CallRes{{St: c.St, Ret: s.E.Named(c.Sig.Results().At(0).Type(), "kongctx")}}, true
		case strings.Contains(c.Name, "kong.Context).Run"):
			ran = true
			rs := c.Split(nil)
			s.E.Event(rs[0].St, "run:ok", nil, 0)
			s.E.Event(rs[1].St, "run:fail", nil, 0)
			return rs, true
		case strings.HasPrefix(c.Name, "github.com/alecthomas/kong"):
			if c.Sig.Results().Len() == 1 {
				return []ai.CallRes{{St: c.St, Ret: s.E.Opaque()}}, true
			}
		case c.Name == "fmt.Fprintf" || c.Name == "fmt.Fprintln" || c.Name == "fmt.Fprint" || c.Name == "(*os.File).WriteString":
			if s.E.IsStd(c.Args[0], "Stderr") {
				s.E.Event(c.St, "stderr", nil, 0)
			}
		}
		return nil, false
	}
	s.E.OnExit = func(st *ai.State, code ai.Value, pos ai.Pos) {
		exits++
		s.Check(len(calls(st, "run:fail")) > 0, "exit-status", where, "exits early although the command succeeded")
		v, ok := code.(ai.IntV)
		s.Check(ok && st.F.ProveEq(v.L.AddC(-1)), "exit-status", where, "exit status is %s, want 1", ai.ValStr(code))
		s.Check(len(calls(st, "stderr")) > 0, "exit-status", where, "the error is not printed to standard error")
	}
	for _, r := range s.Run(fn, s.E.NewState()) {
		s.Check(len(calls(r.St, "run:fail")) == 0, "exit-status", where, "returns normally (status 0) although the command failed")
		s.Check(len(calls(r.St, "run:ok")) == 1, "exit-status", where, "returns without having run a command")
	}
	s.Check(ran && exits > 0, "exit-status", where, "no failing exit at all")
}
