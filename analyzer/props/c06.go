package props

import (
	"fmt"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C06", Level: "other",
		Explanation: "Recognising, opening, cataloguing and reading files are interpreted for every disk system on images of unknown size and contents (NakedOS: also with a known sector map), with unknown names and directories. On every path the image must be the very content that was passed in, GetBytes must be that image, nothing may be written to the host and no package-level state may change. Operations a system does not implement must fail and leave the image alone.",
		MinRules:    map[string]int{"unchanged": 20, "same-image": 3, "unsupported": 4},
		Run:         runC06})
}

func runC06(c *Ctx) {
	check := func(s *Sec, where, what string, st *ai.State, img ai.SliceV, ic *ai.Content) {
		s.Check(s.E.Content(st, img) == ic, "unchanged", where, "%s may change the image", what)
		for _, w := range hostWrites(st) {
			s.Check(w.Kind == "stdout.Write", "unchanged", where, "%s may write to the host (%s)", what, w.Kind)
		}
		for _, m := range s.E.Mutated(st) {
			s.Check(false, "unchanged", where, "%s may change package-level state: %s", what, m)
		}
		s.Ok("unchanged", 1)
	}
	for _, ft := range c.factories() {
		ft := ft
		naked := ft.String() == c.Type("supermon", "OperatorFactory").String()
		for _, sz := range imageSizes {
			sz := sz
			mkImg := func(s *Sec, st *ai.State) ai.SliceV {
				if naked && sz.name == "floppy" {
					return exampleDisk(true).image(s, st)
				}
				return s.Bytes(st, "image", s.in("len(image)", sz.lo, sz.hi))
			}
			c.Section(ft.String()+" "+sz.name+" SeemsToMatch", func(s *Sec) {
				if !naked || sz.name != "floppy" {
					s.E.PeelMax = 2
				}
				st := s.E.NewState()
				img := mkImg(s, st)
				ic := s.E.Content(st, img)
				fn := c.Method(ft, "SeemsToMatch")
				for _, r := range s.Run(fn, st, s.recv(st, ft), img, s.Int("debug", 0, 10)) {
					check(s, s.where(fn), "recognising an image", r.St, img, ic)
				}
			})
			if naked && sz.name != "floppy" {
				continue
			}
			c.Section(ft.String()+" "+sz.name, func(s *Sec) {
				if !naked {
					s.E.PeelMax = 2
				}
				st := s.E.NewState()
				img := mkImg(s, st)
				ic := s.E.Content(st, img)
				fn := c.Method(ft, "Operator")
				for _, r := range s.Run(fn, st, s.recv(st, ft), img, s.Int("debug", 0, 10)) {
					check(s, s.where(fn), "opening an image", r.St, img, ic)
					if s.errOf(r.St, ret(r.Ret, 1)) == 2 {
						continue
					}
					op, ok := ret(r.Ret, 0).(ai.IfaceV)
					if !s.Check(ok && op.Dyn != nil, "same-image", s.where(fn), "the operator's type is not known") {
						continue
					}
					for _, q := range s.opCall(r.St.Clone(), op, "GetBytes") {
						b, ok := q.Ret.(ai.SliceV)
						s.Check(ok && b.Obj == img.Obj && q.St.F.ProveEq(b.Off) && q.St.F.ProveEq(b.Len.Sub(img.Len)), "same-image", s.where(c.Method(op.Dyn, "GetBytes")), "GetBytes is not the image that was opened")
					}
					for _, m := range []string{"Catalog", "GetFile", "Name", "DiskOrder", "HasSubdirs", "Delete", "PutFile"} {
						writes := m == "Delete" || m == "PutFile"
						if writes && naked {
							continue // C11
						}
						fn := c.Method(op.Dyn, m)
						st2 := r.St.Clone()
						args := []ai.Value{op.Val}
						for i := 1; i < len(fn.Params); i++ {
							args = append(args, s.E.Named(fn.Params[i].Type(), fmt.Sprintf("arg%d", i)))
						}
						for _, q := range s.Run(fn, st2, args...) {
							check(s, s.where(fn), m, q.St, img, ic)
							if writes {
								s.Check(s.errOf(q.St, ret(q.Ret, 1)) == 2, "unsupported", s.where(fn), "%s changes nothing but does not fail", m)
							}
						}
					}
				}
			})
		}
	}
}
