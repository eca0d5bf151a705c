package props

import (
	"fmt"
	"go/token"

	"diskcheck/ai"

	"golang.org/x/tools/go/ssa"
)

// The documented sector skews (Understanding the Apple II/IIe 9-42, 9-43).
var specL2P = map[string][]int64{
	"do":  {0x0, 0xD, 0xB, 0x9, 0x7, 0x5, 0x3, 0x1, 0xE, 0xC, 0xA, 0x8, 0x6, 0x4, 0x2, 0xF},
	"po":  {0x0, 0x2, 0x4, 0x6, 0x8, 0xA, 0xC, 0xE, 0x1, 0x3, 0x5, 0x7, 0x9, 0xB, 0xD, 0xF},
	"raw": {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
}

func inverse(p []int64) []int64 {
	r := make([]int64, len(p))
	for i, x := range p {
		r[x] = int64(i)
	}
	return r
}

// logToLog is the sector permutation taking order a to order b: sector i of
// the image in order a becomes sector f(i) in order b.
func logToLog(a, b string) []int64 {
	l2p, p2l := specL2P[a], inverse(specL2P[b])
	r := make([]int64, 16)
	for i := range r {
		r[i] = p2l[l2p[i]]
	}
	return r
}

// intSlice reads a constant integer slice.
func (s *Sec) intSlice(st *ai.State, v ai.Value) ([]int64, bool) {
	sl, ok := v.(ai.SliceV)
	if !ok {
		return nil, false
	}
	n, ok := st.F.Const(sl.Len)
	if !ok || n > 1<<20 {
		return nil, false
	}
	if n == 0 {
		return nil, true
	}
	c := s.E.Content(st, sl)
	if c == nil {
		return nil, false
	}
	r := make([]int64, n)
	for i := range r {
		iv, ok := s.E.Read(st.F, c, sl.Off.AddC(int64(i))).(ai.IntV)
		if !ok {
			return nil, false
		}
		if r[i], ok = st.F.Const(iv.L); !ok {
			return nil, false
		}
	}
	return r, true
}

func sameInts(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func init() {
	register(&Spec{ID: "C01", Level: "other",
		Explanation: "Package initialisation is interpreted abstractly (constants propagated through the SSA of every init function); the resulting sector tables are compared entry by entry with the published DOS 3.3 / ProDOS / raw skews, each table is checked to be a bijection and each pair to be mutually inverse, and every store in the program is checked not to reach them after initialisation (syntactic scan of every function plus store events of the abstract runs of the open, reorder and write-back entry points).",
		MinRules:    map[string]int{"table": 10, "inverse": 3, "no-write": 50},
		Run:         runC01})
}

func runC01(c *Ctx) {
	c.Section("tables", func(s *Sec) {
		st := s.E.NewState()
		named := []struct {
			v    string
			want []int64
		}{
			{"Dos33LogicalToPhysicalSectorMap", specL2P["do"]},
			{"Dos33PhysicalToLogicalSectorMap", inverse(specL2P["do"])},
			{"ProDOSLogicalToPhysicalSectorMap", specL2P["po"]},
			{"ProDosPhysicalToLogicalSectorMap", inverse(specL2P["po"])},
		}
		for _, n := range named {
			g := c.Global("disk", n.v)
			got, ok := s.intSlice(st, s.E.GlobalValue(st, g))
			c.Check(ok && sameInts(got, n.want), "table", "disk."+n.v+" ("+s.E.Pos(g.Pos())+")", "value is %v, the documented skew is %v", got, n.want)
		}
		maps := map[string]map[string][]int64{}
		for _, n := range []string{"LogicalToPhysicalByName", "PhysicalToLogicalByName"} {
			g := c.Global("disk", n)
			where := "disk." + n + " (" + s.E.Pos(g.Pos()) + ")"
			m, ok := s.E.MapOf(st, s.E.GlobalValue(st, g))
			if !c.Check(ok, "table", where, "not a constant map") {
				continue
			}
			maps[n] = map[string][]int64{}
			for _, en := range m.Ents {
				ks, okk := en.K.(ai.StrV)
				k, okc := st.F.ConstStr(ks)
				v, okv := s.intSlice(st, en.V)
				if !c.Check(okk && okc && okv, "table", where, "entry %s is not constant", ai.ValStr(en.K)) {
					continue
				}
				maps[n][k] = v
			}
			c.Check(len(m.Ents) == 3, "table", where, "expected exactly the orders do, po and raw; got %d entries", len(m.Ents))
			for o, l2p := range specL2P {
				want := l2p
				if n == "PhysicalToLogicalByName" {
					want = inverse(l2p)
				}
				c.Check(sameInts(maps[n][o], want), "table", where, "order %q is %v, the documented skew is %v", o, maps[n][o], want)
			}
		}
		for o := range specL2P {
			a, b := maps["LogicalToPhysicalByName"][o], maps["PhysicalToLogicalByName"][o]
			ok := len(a) == 16 && len(b) == 16
			for i := 0; ok && i < 16; i++ {
				ok = a[i] >= 0 && a[i] < 16 && b[a[i]] == int64(i)
			}
			c.Check(ok, "inverse", "disk order "+o, "logical-to-physical %v and physical-to-logical %v are not inverse bijections of 0..15", a, b)
		}
		c.Sample("tables read from the initialised program: %v", maps)
	})
	c.Section("no-write", func(s *Sec) {
		globals := map[*ssa.Global]bool{}
		for _, n := range []string{"Dos33LogicalToPhysicalSectorMap", "Dos33PhysicalToLogicalSectorMap", "ProDOSLogicalToPhysicalSectorMap", "ProDosPhysicalToLogicalSectorMap", "LogicalToPhysicalByName", "PhysicalToLogicalByName"} {
			globals[c.Global("disk", n)] = true
		}
		// every function of the program: no store through the variables
		for _, fn := range c.P.AllFuncs() {
			if fn.Name() == "init" && fn.Synthetic != "" {
				continue
			}
			c.Ok("no-write", 1)
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var target ssa.Value
					switch x := in.(type) {
					case *ssa.Store:
						target = x.Addr
					case *ssa.MapUpdate:
						target = x.Map
					case *ssa.Call:
						if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
							switch bi.Name() {
							case "copy", "delete", "clear", "append":
								target = x.Call.Args[0]
							}
						}
					}
					if target == nil {
						continue
					}
					if g := rootGlobal(target, map[ssa.Value]bool{}); g != nil && globals[g] {
						c.Fail("no-write", fn.String()+" ("+s.E.Pos(in.Pos())+")", "modifies the sector table %s", g.Name())
					}
				}
			}
		}
		// interprocedural: stores reached while opening, reordering, writing back
		tbl := map[int]string{}
		st := s.E.NewState()
		for g := range globals {
			tbl[s.E.GlobalPtr(g).Obj] = g.Name()
			switch v := s.E.GlobalValue(st, g).(type) {
			case ai.SliceV:
				tbl[v.Obj] = g.Name()
			case ai.MapV:
				tbl[v.Obj] = g.Name()
				if m, ok := s.E.MapOf(st, v); ok {
					for _, en := range m.Ents {
						if sl, ok := en.V.(ai.SliceV); ok {
							tbl[sl.Obj] = g.Name()
						}
					}
				}
			}
		}
		nstores := 0
		s.E.OnStore = func(st *ai.State, obj int, path []ai.PE, lo, n ai.Lin, pos token.Pos) {
			nstores++
			if t, ok := tbl[obj]; ok {
				c.Fail("no-write", s.E.Pos(pos), "store reaches the sector table %s", t)
			}
		}
		sw := c.Fn("disk", "Swizzle")
		for _, n := range []string{"LogicalToPhysicalByName", "PhysicalToLogicalByName"} {
			m, ok := s.E.MapOf(st, s.E.GlobalValue(st, c.Global("disk", n)))
			if !ok {
				continue
			}
			for _, en := range m.Ents {
				st2 := s.E.NewState()
				s.Run(sw, st2, s.Bytes(st2, "image", ai.Num(143360)), en.V)
				c.Ok("no-write", 1)
			}
		}
		c.Sample("no-write: %d abstract stores observed, none into a table", nstores)
		_ = fmt.Sprint
	})
}

// rootGlobal follows an address or container value to the variable it was
// loaded from.
func rootGlobal(v ssa.Value, seen map[ssa.Value]bool) *ssa.Global {
	if v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.IndexAddr:
		return rootGlobal(x.X, seen)
	case *ssa.FieldAddr:
		return rootGlobal(x.X, seen)
	case *ssa.Slice:
		return rootGlobal(x.X, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return rootGlobal(x.X, seen)
		}
	case *ssa.Lookup:
		return rootGlobal(x.X, seen)
	case *ssa.Extract:
		return rootGlobal(x.Tuple, seen)
	case *ssa.ChangeType:
		return rootGlobal(x.X, seen)
	case *ssa.Convert:
		return rootGlobal(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if g := rootGlobal(e, seen); g != nil {
				return g
			}
		}
	}
	return nil
}
