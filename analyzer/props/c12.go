package props

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"diskcheck/ai"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Spec{ID: "C12", Level: "other",
		Explanation: "Recognition, every operator method of every disk system and both BASIC decoders with their printers are interpreted on an image (or program) whose length and every byte are unknown, with unknown names, flags and data. Every index, slice, division, type assertion, conversion and allocation reached is an obligation, decided from the conditions on the paths to it, including those on the number of loop iterations. An operation that certainly fails on a path, or fails under a condition on the inputs that is known exactly, is a violation; one that is neither proved nor known to fail is reported as undecided. Pointers kept in slices and maps are not followed one by one, so a nil pointer is a violation only if certain.",
		MinRules:    map[string]int{"no-panic": 300},
		Run:         func(c *Ctx) { runSafety(c, true, false) }})
	register(&Spec{ID: "C13", Level: "other",
		Explanation: "The same entry points are interpreted on images and programs of unknown length and contents, and every loop reached needs a termination argument: a range over a fixed collection, or a quantity that is bounded on one side and moves towards that bound by at least one on every way round the loop, such as a counter, the entries left unvisited of a fixed-size table, or the strictly growing offset of a link. The argument and its bound are recorded per loop; a loop without one is a violation, because on an image whose links form a ring nothing else would end it. Recursion must be bounded likewise or is reported.",
		MinRules:    map[string]int{"terminates": 20},
		Run:         func(c *Ctx) { runSafety(c, false, true) }})
}

// watch installs the safety hooks.
func (s *Sec) watch(safe, term bool, entry *string) {
	s.E.PeelMax = 2
	if safe {
		s.E.OnObligation = func(o ai.Obligation) {
			if o.Kind == "nil" && !o.Proven && !o.Definite {
				// pointers kept in slices and maps: not claimed unless certain
				s.Ok("nil-not-decided", 1)
				return
			}
			s.Ok("no-panic", 1)
			if !o.Proven && !o.Definite && !o.Exact {
				// may be the analysis that is too weak: neither proved nor called wrong
				s.Undecided("not-proved", o.Fn.String()+" ("+s.E.Pos(o.Instr.Pos())+")", "%s: %s is not shown to be impossible in %s", o.Kind, o.Detail, *entry)
				return
			}
			if !o.Proven {
				s.Fail("no-panic", o.Fn.String()+" ("+s.E.Pos(o.Instr.Pos())+")", "%s: %s may fail for some input of %s (call path %s)", o.Kind, o.Detail, *entry, o.Stack)
			}
		}
		s.E.OnBeyond = func(in ssa.Instruction, st *ai.State) {
			s.Undecided("not-proved", in.Parent().String()+" ("+s.E.Pos(in.Pos())+")", "may read past the length of the data, for some input of %s", *entry)
		}
	}
	if term {
		s.E.OnLoop = func(fn *ssa.Function, pos token.Pos, ok bool, detail string) {
			s.Ok("terminates", 1)
			if !ok {
				s.Fail("terminates", fn.String()+" ("+s.E.Pos(pos)+")", "%s, for some input of %s", detail, *entry)
			} else {
				s.Sample("%s %s: %s", fn, s.E.Pos(pos), detail)
			}
		}
	}
}

// factories lists the OperatorFactory implementations.
func (c *Ctx) factories() []types.Type {
	it := c.Type("types", "OperatorFactory").Underlying().(*types.Interface)
	var r []types.Type
	for _, t := range c.structTypes() {
		if types.Implements(t, it) {
			r = append(r, t)
		} else if types.Implements(types.NewPointer(t), it) {
			r = append(r, types.NewPointer(t))
		}
	}
	if len(r) == 0 {
		panic(missing{"no implementation of types.OperatorFactory"})
	}
	return r
}

// recv makes a receiver value for a factory type.
func (s *Sec) recv(st *ai.State, t types.Type) ai.Value {
	if p, ok := t.(*types.Pointer); ok {
		return s.E.Alloc(st, s.E.ZeroValue(p.Elem()), p.Elem(), "factory")
	}
	return s.E.ZeroValue(t)
}

func runSafety(c *Ctx, safe, term bool) {
	var entry string
	image := func(s *Sec, st *ai.State) ai.SliceV {
		return s.Bytes(st, "image", ai.Of(s.E.U.Input("len(image)", 0, 1<<30)))
	}
	for _, ft := range c.factories() {
		ft := ft
		c.Section(ft.String()+" SeemsToMatch", func(s *Sec) {
			s.watch(safe, term, &entry)
			st := s.E.NewState()
			img := image(s, st)
			entry = "SeemsToMatch"
			s.Run(c.Method(ft, "SeemsToMatch"), st, s.recv(st, ft), img, s.Int("debug", 0, 10))
		})
		for _, ms := range [][]string{{"Name", "DiskOrder", "HasSubdirs", "GetBytes", "Catalog"}, {"GetFile", "Delete"}, {"PutFile"}} {
			ms := ms
			c.Section(ft.String()+" "+strings.Join(ms, " "), func(s *Sec) {
				s.watch(safe, term, &entry)
				st := s.E.NewState()
				img := image(s, st)
				entry = "Operator"
				for _, r := range s.Run(c.Method(ft, "Operator"), st, s.recv(st, ft), img, s.Int("debug", 0, 10)) {
					if s.errOf(r.St, ret(r.Ret, 1)) == 2 {
						continue
					}
					op, ok := ret(r.Ret, 0).(ai.IfaceV)
					if !ok || op.Dyn == nil {
						s.Undecided("construct", ft.String(), "the operator's type is not known")
						continue
					}
					for _, m := range ms {
						entry = m
						fn := c.Method(op.Dyn, m)
						st := r.St.Clone()
						args := []ai.Value{op.Val}
						for i := 1; i < len(fn.Params); i++ {
							args = append(args, s.E.Named(fn.Params[i].Type(), fmt.Sprintf("arg%d", i)))
						}
						s.Run(fn, st, args...)
					}
				}
			})
		}
	}
	for _, pkg := range []string{"basic/applesoft", "basic/integer"} {
		pkg := pkg
		c.Section(pkg, func(s *Sec) {
			s.watch(safe, term, &entry)
			fn := c.Fn(pkg, "Decode")
			st := s.E.NewState()
			args := []ai.Value{s.Bytes(st, "program", ai.Of(s.E.U.Input("len(program)", 0, 1<<30)))}
			for i := 1; i < len(fn.Params); i++ {
				args = append(args, s.E.Named(fn.Params[i].Type(), fmt.Sprintf("arg%d", i)))
			}
			entry = pkg + ".Decode"
			for _, r := range s.Run(fn, st, args...) {
				if s.errOf(r.St, ret(r.Ret, 1)) == 2 {
					continue
				}
				lt := c.Type(pkg, "Listing")
				str := c.Method(lt, "String")
				entry = pkg + ".Listing.String"
				s.Run(str, r.St, s.argFor(r.St, str, ret(r.Ret, 0), lt))
			}
		})
	}
}

// imageSizes are the sizes of images, per run.
var imageSizes = []struct {
	name   string
	lo, hi int64
}{{"any", 0, 1 << 30}, {"floppy", floppy, floppy}}
