package props

import (
	"fmt"
	"strings"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C29", Level: "other",
		Explanation: "Adding and deleting symbols is interpreted on tables of up to five entries (six in thorough) in every arrangement of empty slots and two hash groups, each group chained in every order, for new and existing names (either case), addresses in the same, another or a new hash group, and names that are missing. Afterwards every other symbol must have its name and address at its place, the added one its address, a deleted slot must be empty and unlinked, and the symbols of each hash group must form exactly one chain of links. A full table, the address 0 and a missing name change nothing. As every table that satisfies this goes to a table that satisfies it, the chains stay whole over any sequence of changes.",
		MinRules:    map[string]int{"add": 2000, "delete": 500, "refuse": 100},
		Run:         runC29})
}

// stSym is an entry of a symbol table.
type stSym struct {
	name string
	addr int64
	link int64
}

// chained says what is wrong with the chains of a table ("" if nothing).
func chained(t []stSym) string {
	groups := map[int64][]int64{}
	from := map[int64]int{}
	for i, e := range t {
		if e.addr == 0 {
			if e.link != -1 || e.name != "" {
				return fmt.Sprintf("empty slot %d is not cleared", i)
			}
			continue
		}
		groups[addrHash(e.addr)] = append(groups[addrHash(e.addr)], int64(i))
		if e.link < -1 || e.link >= int64(len(t)) {
			return fmt.Sprintf("slot %d links outside the table", i)
		}
		if e.link >= 0 {
			from[e.link]++
			if t[e.link].addr == 0 || addrHash(t[e.link].addr) != addrHash(e.addr) {
				return fmt.Sprintf("slot %d links to slot %d, which is not of its group", i, e.link)
			}
		}
	}
	for h, g := range groups {
		heads := []int64{}
		for _, i := range g {
			if from[i] == 0 {
				heads = append(heads, i)
			}
		}
		if len(heads) != 1 {
			return fmt.Sprintf("the symbols of hash %02X form %d chains", h, len(heads))
		}
		n := 0
		for i := heads[0]; i >= 0 && n <= len(g); i = t[i].link {
			n++
		}
		if n != len(g) {
			return fmt.Sprintf("the chain of hash %02X has %d of %d symbols", h, n, len(g))
		}
	}
	return ""
}

func permute(v []int, f func([]int)) {
	var rec func(k int)
	rec = func(k int) {
		if k == len(v) {
			f(v)
			return
		}
		for i := k; i < len(v); i++ {
			v[k], v[i] = v[i], v[k]
			rec(k + 1)
			v[k], v[i] = v[i], v[k]
		}
	}
	rec(0)
}

// group addresses: slot i of group g (hashes $11, $00 and $7F).
func groupAddr(g, i int64) int64 {
	hi := 0xd8 + i
	lo := hi ^ []int64{0x11, 0, 0x7f}[g]
	if i%2 == 1 {
		lo ^= 0x80
	}
	return hi<<8 | lo
}

// symTables enumerates the tables of n slots.
func symTables(n int, f func([]stSym)) {
	kinds := make([]int, n)
	var rec func(k int)
	rec = func(k int) {
		if k < n {
			for kinds[k] = 0; kinds[k] < 3; kinds[k]++ {
				rec(k + 1)
			}
			return
		}
		t := make([]stSym, n)
		var a, b []int
		for i, kd := range kinds {
			t[i] = stSym{link: -1}
			if kd > 0 {
				t[i] = stSym{fmt.Sprintf("SYM%c", 'A'+i), groupAddr(int64(kd-1), int64(i)), -1}
			}
			switch kd {
			case 1:
				a = append(a, i)
			case 2:
				b = append(b, i)
			}
		}
		link := func(g []int) {
			for i, x := range g {
				t[x].link = -1
				if i+1 < len(g) {
					t[x].link = int64(g[i+1])
				}
			}
		}
		permute(a, func(a []int) {
			link(a)
			permute(b, func(b []int) {
				link(b)
				f(t)
			})
		})
	}
	rec(0)
}

func runC29(c *Ctx) {
	stt := c.Type("supermon", "SymbolTable")
	symt := c.Type("supermon", "Symbol")
	add, del := c.Method(stt, "AddSymbol"), c.Method(stt, "DeleteSymbol")
	build := func(s *Sec, st *ai.State, t []stSym) ai.SliceV {
		m := map[int]map[string]ai.Value{}
		for i, e := range t {
			m[i] = map[string]ai.Value{"Name": ai.Lit(e.name), "Address": num(e.addr), "Link": num(e.link)}
		}
		return s.symTable(st, len(t), m)
	}
	read := func(s *Sec, st *ai.State, v ai.Value) ([]stSym, bool) {
		els, ok := s.E.SliceElems(st, v)
		if !ok {
			return nil, false
		}
		var r []stSym
		for _, e := range els {
			a, _ := s.Field(e, symt, "Address").(ai.IntV)
			n, _ := s.Field(e, symt, "Name").(ai.StrV)
			l, _ := s.Field(e, symt, "Link").(ai.IntV)
			k, ok1 := st.F.Const(a.L)
			nm, ok2 := st.F.ConstStr(n)
			ln, ok3 := st.F.Const(l.L)
			if !ok1 || !ok2 || !ok3 {
				return nil, false
			}
			r = append(r, stSym{nm, k, ln})
		}
		return r, true
	}
	show := func(t []stSym) string {
		var p []string
		for _, e := range t {
			if e.addr == 0 {
				p = append(p, "-")
			} else {
				p = append(p, fmt.Sprintf("%s=%04X>%d", e.name, e.addr, e.link))
			}
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	same := func(a, b []stSym) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	// find is the slot of a name, or -1.
	find := func(t []stSym, name string) int {
		for i, e := range t {
			if e.addr != 0 && strings.EqualFold(e.name, name) {
				return i
			}
		}
		return -1
	}
	doAdd := func(s *Sec, t []stSym, name string, addr int64) {
		st := s.E.NewState()
		tab := build(s, st, t)
		what := fmt.Sprintf("adding %s=%04X to %s", name, addr, show(t))
		old := find(t, name)
		full := old < 0
		for _, e := range t {
			full = full && e.addr != 0
		}
		for _, r := range s.Run(add, st, s.argFor(st, add, tab, stt), ai.Lit(name), num(addr)) {
			u, ok := read(s, r.St, tab)
			if !s.Check(ok && len(u) == len(t), "add", s.where(add), "%s: the table is not known", what) {
				return
			}
			e := s.errOf(r.St, r.Ret)
			if full || addr == 0 {
				s.Check(e == 2, "refuse", s.where(add), "%s: accepted", what)
				s.Check(same(t, u), "refuse", s.where(add), "%s: refused, but the table becomes %s", what, show(u))
				continue
			}
			if !s.Check(e == 1, "add", s.where(add), "%s: refused", what) {
				continue
			}
			at := find(u, name)
			if !s.Check(at >= 0 && u[at].addr == addr, "add", s.where(add), "%s: the symbol is not in the table: %s", what, show(u)) {
				continue
			}
			n := 0
			for i := range u {
				if u[i].addr != 0 && strings.EqualFold(u[i].name, name) {
					n++
				}
				if i != at && i != old {
					s.Check(u[i].name == t[i].name && u[i].addr == t[i].addr, "add", s.where(add), "%s: another symbol is changed: %s", what, show(u))
				}
			}
			s.Check(n == 1, "add", s.where(add), "%s: the symbol is there %d times: %s", what, n, show(u))
			s.Check(at == old || t[at].addr == 0, "add", s.where(add), "%s: it takes the place of another symbol: %s", what, show(u))
			p := chained(u)
			s.Check(p == "", "add", s.where(add), "%s: %s: %s", what, p, show(u))
		}
	}
	doDel := func(s *Sec, t []stSym, name string) {
		st := s.E.NewState()
		tab := build(s, st, t)
		what := fmt.Sprintf("deleting %s from %s", name, show(t))
		old := find(t, name)
		for _, r := range s.Run(del, st, s.argFor(st, del, tab, stt), ai.Lit(name)) {
			u, ok := read(s, r.St, tab)
			if !s.Check(ok && len(u) == len(t), "delete", s.where(del), "%s: the table is not known", what) {
				return
			}
			b, _ := r.Ret.(ai.BoolV)
			v := r.St.F.Eval(b.C)
			if old < 0 {
				s.Check(v == ai.False && same(t, u), "refuse", s.where(del), "%s: it is reported as found, or the table becomes %s", what, show(u))
				continue
			}
			s.Check(v == ai.True, "delete", s.where(del), "%s: it is reported as missing", what)
			s.Check(u[old].addr == 0, "delete", s.where(del), "%s: it is still there: %s", what, show(u))
			for i := range u {
				if i != old {
					s.Check(u[i].name == t[i].name && u[i].addr == t[i].addr, "delete", s.where(del), "%s: another symbol is changed: %s", what, show(u))
				}
			}
			p := chained(u)
			s.Check(p == "", "delete", s.where(del), "%s: %s: %s", what, p, show(u))
		}
	}
	max := 5
	if c.Thorough {
		max = 6
	}
	for n := 1; n <= max; n++ {
		n := n
		// larger tables are shared out over several sections
		const parts = 4
		for part := 0; part < parts && (part == 0 || n > 5); part++ {
			part, seen := part, 0
			c.Section(fmt.Sprintf("add %d.%d", n, part), func(s *Sec) {
				symTables(n, func(t []stSym) {
					if seen++; n > 5 && seen%parts != part {
						return
					}
					for g := int64(0); g < 3; g++ {
						doAdd(s, t, "NEWNAME", groupAddr(g, 9))
					}
					doAdd(s, t, "NEWNAME", 0)
					for i, e := range t {
						if e.addr == 0 {
							continue
						}
						name := e.name
						if i%2 == 1 {
							name = strings.ToLower(name)
						}
						for g := int64(0); g < 3; g++ {
							doAdd(s, t, name, groupAddr(g, 9))
						}
						doAdd(s, t, name, 0)
					}
				})
			})
		}
		c.Section(fmt.Sprintf("delete %d", n), func(s *Sec) {
			symTables(n, func(t []stSym) {
				doDel(s, t, "NOSUCH")
				for i, e := range t {
					if e.addr == 0 {
						continue
					}
					name := e.name
					if i%2 == 0 {
						name = strings.ToLower(name)
					}
					doDel(s, t, name)
				}
			})
		})
	}
}
