package props

import (
	"fmt"
	"path"
	"strings"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C21", Level: "other",
		Explanation: "disk.OpenImage is interpreted abstractly on images of unknown content with stand-in disk systems whose answers are unknown: every combination of their answers is a path. Per path, the outcome (error, or operator and order) and the bytes handed to the chosen system must be those that the size, the extension, the --order and --system settings and the answers prescribe.",
		MinRules:    map[string]int{"floppy": 300, "size": 30, "hdv": 20},
		Run:         runC21})
	register(&Spec{ID: "C03", Level: "other",
		Explanation: "disk.WriteBack is interpreted with stand-in operators of every disk order over images of unknown content, and the put, rm and nakedos mkhello commands with stand-in systems. The bytes written must be the operator's image with each sector at the place the order tables prescribe for the order the file was opened with (the identity when the operator changed nothing), any image that is not floppy-sized must be written unchanged, and the file written must be the file that was opened.",
		MinRules:    map[string]int{"write-back": 20, "round-trip": 10},
		Run:         runC03})
}

// openOrders is the list of orders an image may be opened with; nil = refused.
func openOrders(order, ext string) []string {
	switch order {
	case "do", "po":
		return []string{order}
	case "auto":
		switch ext {
		case ".po":
			return []string{"po"}
		case ".do":
			return []string{"do"}
		case ".dsk", "":
			return []string{"do", "po"}
		}
	}
	return nil
}

// world2 are two systems per run, so that every combination of answers is explored.
var pairs = [][][2]string{
	{{"dos3", "do"}, {"prodos", "po"}},
	{{"dos3", "do"}, {"nakedos", "raw"}},
	{{"nakedos", "raw"}, {"prodos", "po"}},
}

func runC21(c *Ctx) {
	open := c.Fn("disk", "OpenImage")
	names := []string{".dsk", ".do", ".po", ".PO", ".Dsk", "", ".img", ".hdv", ".2mg"}
	c.Section("floppy", func(s *Sec) {
		s.E.MaxParts = 200
		for pi, pr := range pairs {
			for _, order := range []string{"auto", "do", "po", "raw", "", "xx"} {
				for _, system := range []string{"auto", pr[0][0], pr[1][0], "unknown"} {
					for _, ext := range names {
						if pi > 0 && !(order == "auto" && (ext == ".dsk" || ext == ".po")) {
							continue
						}
						s.openFloppy(pr, order, system, ext)
					}
				}
			}
		}
	})
	c.Section("size", func(s *Sec) {
		for _, ext := range append([]string{}, names...) {
			for _, sz := range []struct {
				what   string
				lo, hi int64
			}{{"13-sector", 35 * 13 * 256, 35 * 13 * 256}, {"shorter", 0, 35*13*256 - 1}, {"between", 35*13*256 + 1, floppy - 1}, {"longer", floppy + 1, 1 << 40}} {
				if ext == ".hdv" && sz.what != "13-sector" {
					continue
				}
				w := s.newWorld(stdSystems)
				st := s.E.NewState()
				img := s.Bytes(st, "image", ai.Of(s.E.U.Input("len", sz.lo, sz.hi)))
				if sz.lo == sz.hi {
					img = s.Bytes(st, "image", ai.Num(sz.lo))
				}
				name := s.E.U.InputStr("name", ext)
				if ext == "" {
					name = ai.Lit("disk")
				}
				for _, r := range s.Run(open, st, img, name, ai.Lit("auto"), ai.Lit("auto"), w.list(st), s.Int("debug", 0, 9)) {
					s.Check(s.errOf(r.St, ret(r.Ret, 2)) == 2, "size", s.where(open), "an image x%s of a size (%s) that is no supported disk is opened", ext, sz.what)
					s.Check(len(calls(r.St, "operator:")) == 0, "size", s.where(open), "an image x%s of an unsupported size (%s) is handed to a disk system", ext, sz.what)
				}
			}
		}
	})
	c.Section("hdv", func(s *Sec) {
		for _, sys := range [][][2]string{stdSystems, {{"prodos", "po"}, {"dos3", "do"}}, {{"dos3", "do"}}} {
			for _, ext := range []string{".hdv", ".HDV"} {
				for _, order := range []string{"auto", "po", "do", "raw"} {
					for _, system := range []string{"auto", "prodos", "dos3"} {
						for _, sz := range []string{"ok", "odd", "big", "small", "32M"} {
							if len(sys) != 3 && (sz != "ok" || ext != ".hdv") {
								continue
							}
							w := s.newWorld(sys)
							st := s.E.NewState()
							k := ai.Of(s.E.U.Input("blocks", 281, 65536))
							n := k.Scale(512)
							switch sz {
							case "odd":
								n = n.Add(ai.Of(s.E.U.Input("rest", 1, 511)))
							case "big":
								n = ai.Of(s.E.U.Input("blocks+", 65537, 1<<30)).Scale(512)
							case "small":
								n = ai.Of(s.E.U.Input("blocks-", 1, 220)).Scale(512)
							case "32M":
								n = ai.Num(65536 * 512)
							}
							img, ic := s.Input(st, "image", n)
							prodos := -1
							for i, x := range sys {
								if x[0] == "prodos" {
									prodos = i
								}
							}
							want := prodos >= 0 && (order == "auto" || order == "po") && (system == "auto" || system == "prodos") && sz != "odd" && sz != "big"
							what := fmt.Sprintf("order %s, system %s, x%s of size %s", order, system, ext, sz)
							okn := 0
							for _, r := range s.Run(open, st, img, s.E.U.InputStr("name", ext), ai.Lit(order), ai.Lit(system), w.list(st), s.Int("debug", 0, 9)) {
								good := s.errOf(r.St, ret(r.Ret, 2)) == 1
								ops := calls(r.St, "operator:")
								if !want {
									s.Check(!good && len(ops) == 0, "hdv", s.where(open), "%s: opened, although that is not a valid hard-disk image", what)
									continue
								}
								if !s.Check(len(ops) == 1 && w.which(ops[0].Args[0]) == prodos, "hdv", s.where(open), "%s: not handed to ProDOS exactly once", what) {
									continue
								}
								s.Check(good == (ops[0].Kind == "operator:ok"), "hdv", s.where(open), "%s: result does not reflect ProDOS's answer", what)
								sl := ops[0].Args[1].(ai.SliceV)
								s.Check(ops[0].Snap[1] == ic && r.St.F.ProveEq(sl.Off) && r.St.F.ProveEq(sl.Len.Sub(n)), "hdv", s.where(open), "%s: ProDOS is not given the image unchanged", what)
								if good {
									okn++
									fi, _ := w.opOf(ret(r.Ret, 0))
									s.Check(fi == prodos, "hdv", s.where(open), "%s: does not return the operator", what)
									s.Check(s.E.ValEq(r.St, ret(r.Ret, 1), ai.Lit("po")) == ai.True, "hdv", s.where(open), "%s: returned order is %s, want po", what, ai.ValStr(ret(r.Ret, 1)))
								}
							}
							if want {
								s.Check(okn > 0, "hdv", s.where(open), "%s: never opened", what)
							}
						}
					}
				}
			}
		}
	})
}

func (s *Sec) openFloppy(sys [][2]string, order, system, ext string) {
	open := s.Fn("disk", "OpenImage")
	w := s.newWorld(sys)
	st := s.E.NewState()
	img, ic := s.Input(st, "image", ai.Num(floppy))
	name := s.E.U.InputStr("name", ext)
	if ext == "" {
		name = ai.Lit("disk")
	}
	what := fmt.Sprintf("order %s, system %s, name x%s", order, system, ext)
	orders := openOrders(order, strings.ToLower(path.Ext("x"+ext)))
	var cand []int
	for i, x := range sys {
		if system == "auto" || system == x[0] {
			cand = append(cand, i)
		}
	}
	refuse := orders == nil || len(cand) == 0
	direct := len(orders) == 1 && system != "auto"
	okn := 0
	for _, r := range s.Run(open, st, img, name, ai.Lit(order), ai.Lit(system), w.list(st), s.Int("debug", 0, 9)) {
		good := s.errOf(r.St, ret(r.Ret, 2)) == 1
		evs := append(calls(r.St, "seems:"), calls(r.St, "operator:")...)
		if refuse {
			s.Check(!good && len(evs) == 0, "floppy", s.where(open), "%s: not refused", what)
			continue
		}
		// replay the answers
		seq := calls(r.St, "")
		k := 0
		next := func(kind string) *ai.Event {
			for k < len(seq) && !strings.HasPrefix(seq[k].Kind, "seems:") && !strings.HasPrefix(seq[k].Kind, "operator:") {
				k++
			}
			if k < len(seq) && strings.HasPrefix(seq[k].Kind, kind) && seq[k].Note != "may" {
				k++
				return &seq[k-1]
			}
			return nil
		}
		wantOK, wantOrd, wantFac := false, "", -1
		bad := ""
		check := func(e *ai.Event, fi int, o string) {
			if w.which(e.Args[0]) != fi {
				bad = "system " + sys[w.which(e.Args[0])][0] + " is asked where " + sys[fi][0] + " should be"
				return
			}
			sl, _ := e.Args[1].(ai.SliceV)
			if n, ok := r.St.F.Const(sl.Len); !ok || n != floppy {
				bad = "system " + sys[fi][0] + " is given " + sl.Len.String() + " bytes"
			} else if d := s.permContent(e.Snap[1], sl.Off, logToLog(o, sys[fi][1]), ic); d != "" {
				bad = fmt.Sprintf("for order %s, system %s is given wrong data: %s", o, sys[fi][0], d)
			}
		}
	loop:
		for _, o := range orders {
			for _, fi := range cand {
				if direct {
					e := next("operator:")
					if e == nil {
						bad = "the named system is not asked to open the image"
						break loop
					}
					check(e, fi, o)
					wantOK, wantOrd, wantFac = e.Kind == "operator:ok", o, fi
					break loop
				}
				e := next("seems:")
				if e == nil {
					bad = fmt.Sprintf("system %s in order %s is not tried", sys[fi][0], o)
					break loop
				}
				check(e, fi, o)
				if e.Kind == "seems:no" {
					continue
				}
				e = next("operator:")
				if e == nil {
					bad = fmt.Sprintf("system %s in order %s seems to match but is not asked to open the image", sys[fi][0], o)
					break loop
				}
				check(e, fi, o)
				if e.Kind == "operator:ok" {
					wantOK, wantOrd, wantFac = true, o, fi
					break loop
				}
			}
		}
		if bad == "" && (next("seems:") != nil || next("operator:") != nil) {
			bad = "a further system is asked after the first match"
		}
		if !s.Check(bad == "", "floppy", s.where(open), "%s: %s", what, bad) {
			continue
		}
		s.Check(good == wantOK, "floppy", s.where(open), "%s: success=%v, want %v", what, good, wantOK)
		if good && wantOK {
			okn++
			fi, _ := w.opOf(ret(r.Ret, 0))
			s.Check(fi == wantFac, "floppy", s.where(open), "%s: returns the wrong operator", what)
			s.Check(s.E.ValEq(r.St, ret(r.Ret, 1), ai.Lit(wantOrd)) == ai.True, "floppy", s.where(open), "%s: returned order is %s, want %s", what, ai.ValStr(ret(r.Ret, 1)), wantOrd)
		}
	}
	if !refuse {
		s.Check(okn > 0, "floppy", s.where(open), "%s: never opened", what)
	}
}

func runC03(c *Ctx) {
	c.Section("write-back", func(s *Sec) {
		wb := c.Fn("disk", "WriteBack")
		w := s.newWorld(stdSystems)
		for fi, sys := range stdSystems {
			for _, o := range []string{"do", "po", "raw"} {
				for _, size := range []string{"floppy", "other"} {
					st := s.E.NewState()
					n := ai.Num(floppy)
					if size == "other" {
						n = ai.Of(s.E.U.Input("len", floppy+1, 1<<30))
					}
					img, ic := s.Input(st, "image", n)
					op := w.op(fi, img)
					name := s.E.U.InputStr("name", "")
					wrote := 0
					for _, r := range s.Run(wb, st, name, op, ai.Lit(o), ai.BoolV{C: ai.Cond{Op: ai.CTrue}}) {
						ws := hostWrites(r.St)
						if len(ws) == 0 {
							s.Check(s.errOf(r.St, r.Ret) == 2, "write-back", s.where(wb), "writes nothing and reports no error")
							continue
						}
						wrote++
						if !s.Check(len(ws) == 1, "write-back", s.where(wb), "writes %d times", len(ws)) {
							continue
						}
						s.checkImage("write-back", s.where(wb), fmt.Sprintf("writing a %s disk (%s) back in order %s", sys[0], size, o), r.St, ws[0], ic, n, logToLog(sys[1], o))
					}
					s.Check(wrote > 0, "write-back", s.where(wb), "never writes")
				}
			}
		}
	})
	for _, cm := range mutators {
		cm := cm
		c.Section(cm.name, func(s *Sec) {
			t := c.Type("cmd", cm.typ)
			run := c.Method(t, "Run")
			s.E.FileLen = nil
			for _, o := range []string{"auto", "do", "po"} {
				for _, ext := range []string{".dsk", ".po", ".hdv"} {
					for _, sys := range [][][2]string{{{"dos3", "do"}}, {{"nakedos", "raw"}}, {{"prodos", "po"}}} {
						for _, change := range []bool{false, true} {
							if ext == ".hdv" && (o == "do" || sys[0][0] != "prodos") {
								continue
							}
							if cm.name == "mkhello" && sys[0][0] != "nakedos" {
								continue
							}
							s.roundTrip(cm, run, t, o, ext, sys, change)
						}
					}
				}
			}
		})
	}
}
