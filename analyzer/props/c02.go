package props

import (
	"fmt"
	"go/types"
	"path"
	"strings"

	"diskcheck/ai"
)

const floppy = 143360

func init() {
	register(&Spec{ID: "C02", Level: "other",
		Explanation: "Byte-provenance dataflow: the reordering routine and the reorder command are interpreted abstractly on an image whose bytes are all symbolic, so the result is an exact map from output byte to input byte; it is compared with the permutation the documented skews require, for every supported source/target order, for both explicit and extension-derived orders. For an arbitrary order table and an arbitrary image length the abstract state at every successful return must imply that the table is a permutation of 0..15 and the length is exactly one floppy.",
		MinRules:    map[string]int{"permutation": 6, "reject": 2, "reorder": 60},
		Run:         runC02})
}

// permCheck verifies that v holds img with the sectors of each track permuted
// by f. It returns "" or a description of the first difference.
func (s *Sec) permCheck(st *ai.State, v ai.Value, img *ai.Content, f []int64) string {
	sl, ok := v.(ai.SliceV)
	if !ok {
		return "result is not a byte slice"
	}
	n, ok := st.F.Const(sl.Len)
	if !ok || n != floppy {
		return fmt.Sprintf("result has length %s, want %d", sl.Len, floppy)
	}
	return s.permContent(s.E.Content(st, sl), sl.Off, f, img)
}

func (s *Sec) permContent(c *ai.Content, off ai.Lin, f []int64, img *ai.Content) string {
	if c == nil {
		return "result content unknown"
	}
	inv := inverse(f)
	for _, seg := range s.E.Segs(c, off, floppy) {
		if seg.Src != img {
			return fmt.Sprintf("bytes %d..%d of the result do not come from the image", seg.Lo, seg.Hi-1)
		}
		if !seg.SrcOff.IsConst() {
			return fmt.Sprintf("bytes %d..%d of the result come from image offset %s", seg.Lo, seg.Hi-1, seg.SrcOff)
		}
		for x := seg.Lo; x < seg.Hi; {
			sec := x / 256
			want := (sec/16)*4096 + inv[sec%16]*256 + x%256
			got := seg.SrcOff.C + x - seg.Lo
			if got != want {
				return fmt.Sprintf("byte %d of the result (track %d sector %d) is image byte %d, want image byte %d", x, sec/16, sec%16, got, want)
			}
			x = (sec + 1) * 256
		}
	}
	return ""
}

func runC02(c *Ctx) {
	c.Section("swizzle", func(s *Sec) {
		sw := c.Fn("disk", "Swizzle")
		for _, n := range []string{"LogicalToPhysicalByName", "PhysicalToLogicalByName"} {
			for o, l2p := range specL2P {
				want := l2p
				if n == "PhysicalToLogicalByName" {
					want = inverse(l2p)
				}
				st := s.E.NewState()
				img, ic := s.Input(st, "image", ai.Num(floppy))
				rs := s.Run(sw, st, img, s.ints(st, want))
				good := len(rs) > 0
				for _, r := range rs {
					if s.errOf(r.St, ret(r.Ret, 1)) != 1 {
						good = false
						c.Fail("permutation", s.where(sw), "may fail for a floppy-sized image and the valid %s order %q", n, o)
						continue
					}
					if d := s.permCheck(r.St, ret(r.Ret, 0), ic, want); d != "" {
						good = false
						c.Fail("permutation", s.where(sw), "order %s[%q]: %s", n, o, d)
					}
					if sl, ok := ret(r.Ret, 0).(ai.SliceV); ok && sl.Obj == img.Obj {
						c.Fail("permutation", s.where(sw), "result aliases the input image")
					}
					if cc := s.E.Content(r.St, img); cc != ic {
						c.Fail("permutation", s.where(sw), "the input image is modified")
					}
				}
				c.Check(good, "permutation", s.where(sw), "no successful outcome for %s[%q]", n, o)
			}
		}
		// arbitrary length, arbitrary order
		st := s.E.NewState()
		ln := s.E.U.Input("len(image)", 0, 1<<30)
		img, _ := s.Input(st, "imageN", ai.Of(ln))
		on := s.E.U.Input("len(order)", 0, 64)
		oc := s.E.InputContent("order", ai.Of(on), types.Typ[types.Int])
		ord := s.E.NewBytes(st, oc)
		var good int
		for _, r := range s.Run(sw, st, img, ord) {
			c.Ok("reject", 1)
			if s.errOf(r.St, ret(r.Ret, 1)) == 2 {
				continue
			}
			good++
			f := r.St.F
			if !f.ProveEq(ai.Of(ln).AddC(-floppy)) {
				c.Fail("reject", s.where(sw), "an image of length other than %d is reordered (facts: length in %v)", floppy, f.Range(ai.Of(ln)))
			}
			if !f.ProveEq(ai.Of(on).AddC(-16)) {
				c.Fail("reject", s.where(sw), "an order table with other than 16 entries is accepted")
				continue
			}
			el := make([]ai.Lin, 16)
			for i := range el {
				el[i] = s.E.Read(f, oc, ai.Num(int64(i))).(ai.IntV).L
				iv := f.Range(el[i])
				if iv.Lo < 0 || iv.Hi > 15 {
					c.Fail("reject", s.where(sw), "order entry %d outside 0..15 is accepted (range %v)", i, iv)
				}
				for j := 0; j < i; j++ {
					if !f.ProveNe(el[i].Sub(el[j])) {
						c.Fail("reject", s.where(sw), "an order table repeating entry %d at %d is accepted", j, i)
					}
				}
			}
		}
		c.Check(good > 0, "reject", s.where(sw), "no successful outcome at all")
	})
	c.Section("reorder", func(s *Sec) { reorderSection(c, s) })
}

// extOrder is the sector order a file name suggests.
func extOrder(name string) string {
	switch strings.ToLower(path.Ext(name)) {
	case ".dsk", ".do":
		return "do"
	case ".po":
		return "po"
	}
	return ""
}

func opposite(o string) string {
	if o == "do" {
		return "po"
	}
	return "do"
}

// wantOrders is the documented choice of input and output order; "" = error.
func wantOrders(in, out, inName, outName string) (string, string) {
	switch {
	case in == "auto" && out != "auto":
		return opposite(out), out
	case in != "auto" && out == "auto":
		return in, opposite(in)
	case in != out:
		return in, out
	case in != "auto":
		return "", ""
	}
	a, b := extOrder(inName), extOrder(outName)
	if a == b {
		return "", ""
	}
	if a == "" {
		a = opposite(b)
	}
	if b == "" {
		b = opposite(a)
	}
	return a, b
}

func reorderSection(c *Ctx, s *Sec) {
	t := c.Type("cmd", "ReorderCmd")
	run := c.Method(t, "Run")
	s.E.FileLen = func(key string, n ai.Lin) ai.Lin { return ai.Num(floppy) }
	orders := []string{"auto", "do", "po"}
	exts := []string{".dsk", ".do", ".po", ".PO", ".img"}
	outs := append([]string{"=", "noext"}, exts...)
	for _, in := range orders {
		for _, out := range orders {
			for _, ie := range exts {
				for _, oe := range outs {
					// names only matter when both orders are automatic
					if (in != "auto" || out != "auto") && !(ie == ".po" && (oe == "=" || oe == ".dsk")) {
						continue
					}
					st := s.E.NewState()
					inName := s.E.U.InputStr("input", ie)
					outName := s.E.U.InputStr("output", oe)
					target := outName
					on := "x" + oe
					if oe == "=" {
						outName, target, on = ai.Lit(""), inName, ""
					} else if oe == "noext" {
						outName, on = ai.Lit("newimage"), "newimage"
						target = outName
					}
					ov := ai.BoolV{C: s.E.BoolInput("overwrite")}
					cmd := s.Struct(st, t, map[string]ai.Value{"Order": ai.Lit(in), "NewOrder": ai.Lit(out), "Overwrite": ov, "DiskImage": inName, "NewDiskImage": outName})
					where := s.where(run)
					what := fmt.Sprintf("reorder --order %s --new-order %s x%s %s", in, out, ie, on)
					wf, wt := wantOrders(in, out, "x"+ie, on)
					wrote := 0
					for _, r := range s.Run(run, st, cmd, s.Globals(st)) {
						c.Ok("reorder", 1)
						failed := s.errOf(r.St, r.Ret) == 2
						var w []ai.Event
						for _, ev := range hostWrites(r.St) {
							w = append(w, ev)
						}
						if wf == "" {
							if !failed {
								c.Fail("reorder", where, "%s: succeeds although the orders cannot be determined", what)
							}
							if len(w) > 0 {
								c.Fail("reorder", where, "%s: writes a file although the orders cannot be determined", what)
							}
							continue
						}
						if len(w) == 0 {
							if !failed {
								c.Fail("reorder", where, "%s: reports success without writing", what)
							}
							continue
						}
						if len(w) != 1 {
							c.Fail("reorder", where, "%s: %d writes", what, len(w))
							continue
						}
						wrote++
						name, data, dataC := writeParts(w[0])
						if name.Key() != target.Key() {
							c.Fail("reorder", where, "%s: writes file %s, want %s", what, name, target)
						}
						img := s.E.InputContent("file:"+inName.String(), ai.Num(floppy), types.Typ[types.Uint8])
						if n, ok := r.St.F.Const(data.Len); !ok || n != floppy {
							c.Fail("reorder", where, "%s: writes %s bytes", what, data.Len)
						} else if d := s.permContent(dataC, data.Off, logToLog(wf, wt), img); d != "" {
							c.Fail("reorder", where, "%s: %s (orders %s to %s)", what, d, wf, wt)
						}
					}
					if wf != "" {
						c.Check(wrote > 0, "reorder", where, "%s: never writes its output", what)
					}
				}
			}
		}
	}
}
