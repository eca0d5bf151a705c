package props

import (
	"fmt"
	"strings"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C18", Level: "other",
		Explanation: "The filetype registry is built by interpreting the package initialisers. Looking up every full, three-letter and one-letter name is interpreted and must give the documented type code; names shown for a type must select that type; every ProDOS type byte is covered exactly once; the default list is exactly the list of non-extra types, and the filetypes command prints the list it was asked for.",
		MinRules:    map[string]int{"code": 60, "resolve": 250, "unique": 250, "default-list": 20, "unknown": 8, "printed": 20},
		Run:         runC18})
}

// documented filetype codes: full name, three-letter, one-letter.
var filetypeSpec = []struct {
	code          int64
	name, l3, l1  string
	shownNormally bool
}{
	{0x00, "Typeless", "", "", true}, {0x01, "BadBlocks", "", "", true}, {0x04, "ASCIIText", "TXT", "T", true}, {0x06, "Binary", "BIN", "B", true},
	{0x0f, "Directory", "DIR", "D", true}, {0x19, "AppleWorksDatabase", "ADB", "", true}, {0x1a, "AppleWorksWordProcessor", "AWP", "", true},
	{0x1b, "AppleWorksSpreadsheet", "ASP", "", true}, {0xef, "Pascal", "PAS", "", true}, {0xf0, "Command", "CMD", "", true},
	{0xfa, "IntegerBASIC", "INT", "I", true}, {0xfb, "IntegerBASICVariables", "IVR", "", true}, {0xfc, "ApplesoftBASIC", "BAS", "A", true},
	{0xfd, "ApplesoftBASICVariables", "VAR", "", true}, {0xfe, "Relocatable", "REL", "R", true}, {0xff, "System", "SYS", "", true},
	{0x100, "S", "", "S", true}, {0x101, "NewA", "", "", true}, {0x102, "NewB", "", "", true},
	{0x02, "SOSPascalCode", "", "", false}, {0x03, "SOSPascalText", "", "", false}, {0x05, "SOSPascalText2", "", "", false}, {0x07, "Font", "", "", false},
	{0x08, "GraphicsScreen", "", "", false}, {0x09, "BusinessBASIC", "", "", false}, {0x0a, "BusinessBASICData", "", "", false}, {0x0b, "SOSWordProcessor", "", "", false},
	{0x0c, "SOSSystem", "", "", false}, {0x10, "RPSData", "", "", false}, {0x11, "RPSIndex", "", "", false},
	{0xf1, "UserDefinedF1", "", "", false}, {0xf2, "UserDefinedF2", "", "", false}, {0xf3, "UserDefinedF3", "", "", false}, {0xf4, "UserDefinedF4", "", "", false},
	{0xf5, "UserDefinedF5", "", "", false}, {0xf6, "UserDefinedF6", "", "", false}, {0xf7, "UserDefinedF7", "", "", false}, {0xf8, "UserDefinedF8", "", "", false},
}

type ftInfo struct {
	typ                int64
	name, l3, l1, desc string
	extra              bool
}

// filetypes reads the registry as returned by FiletypeInfos(all).
func (s *Sec) filetypes(all bool) ([]ftInfo, *ai.State) { return s.filetypesAfter(s.E.NewState(), all) }

// filetypesAfter reads it after st.
func (s *Sec) filetypesAfter(st *ai.State, all bool) ([]ftInfo, *ai.State) {
	fn := s.Fn("types", "FiletypeInfos")
	t := s.Type("types", "FiletypeInfo")
	s.E.PeelMax = 600
	rs := s.Run(fn, st, ai.BoolV{C: tf(all)})
	if !s.Check(len(rs) == 1, "unique", s.where(fn), "%d outcomes", len(rs)) {
		return nil, nil
	}
	els, ok := s.E.SliceElems(rs[0].St, rs[0].Ret)
	if !s.Check(ok && len(els) > 0, "unique", s.where(fn), "the list of filetypes is not constant: %s", ai.ValStr(rs[0].Ret)) {
		return nil, nil
	}
	str := func(v ai.Value) string {
		x, _ := v.(ai.StrV)
		r, ok := rs[0].St.F.ConstStr(x)
		if !ok {
			panic(missing{"constant name of a filetype: " + ai.ValStr(v)})
		}
		return r
	}
	var out []ftInfo
	for _, e := range els {
		iv, _ := s.Field(e, t, "Type").(ai.IntV)
		k, ok := rs[0].St.F.Const(iv.L)
		if !ok {
			panic(missing{"constant filetype code"})
		}
		x, ok := s.cond(s.Field(e, t, "Extra"))
		out = append(out, ftInfo{k, str(s.Field(e, t, "Name")), str(s.Field(e, t, "ThreeLetter")), str(s.Field(e, t, "OneLetter")), str(s.Field(e, t, "Desc")), ok && rs[0].St.F.Eval(x) == ai.True})
	}
	return out, rs[0].St
}

func runC18(c *Ctx) {
	forName := c.Fn("types", "FiletypeForName")
	lookAfter := func(s *Sec, st *ai.State, name string) (int64, int) {
		s.E.PeelMax = 600
		rs := s.Run(forName, st.Clone(), ai.Lit(name))
		if len(rs) != 1 {
			return 0, 0
		}
		iv, _ := ret(rs[0].Ret, 0).(ai.IntV)
		k, ok := rs[0].St.F.Const(iv.L)
		if !ok {
			return 0, 0
		}
		return k, s.errOf(rs[0].St, ret(rs[0].Ret, 1))
	}
	look := func(s *Sec, name string) (int64, int) { return lookAfter(s, s.E.NewState(), name) }
	c.Section("code", func(s *Sec) {
		for _, f := range filetypeSpec {
			for _, n := range []string{f.name, f.l3, f.l1} {
				if n == "" {
					continue
				}
				k, e := look(s, n)
				s.Check(e == 1 && k == f.code, "code", s.where(forName), "name %q gives type 0x%02x (found=%v), want 0x%02x", n, k, e == 1, f.code)
			}
		}
		for _, n := range []string{"", "bin", "Bin", "BINARY", "BI", "X", "TXT ", "|", "Binary|BIN|B", "SOSReserved0F", "06", "FiletypeBinary"} {
			_, e := look(s, n)
			s.Check(e == 2, "unknown", s.where(forName), "unknown name %q is accepted", n)
		}
	})
	c.Section("registry", func(s *Sec) {
		infos, st := s.filetypes(true)
		if st == nil {
			return
		}
		where := s.where(c.Fn("types", "FiletypeInfos"))
		byCode := map[int64]ftInfo{}
		names := map[string]int64{}
		for _, f := range infos {
			_, dup := byCode[f.typ]
			s.Check(!dup, "unique", where, "type 0x%02x is listed twice", f.typ)
			byCode[f.typ] = f
			o, dup := names[f.name]
			s.Check(!dup && f.name != "", "unique", where, "name %q stands for types 0x%02x and 0x%02x", f.name, o, f.typ)
			names[f.name] = f.typ
		}
		for k := int64(0); k < 256; k++ {
			if k != 0xf9 {
				_, ok := byCode[k]
				s.Check(ok, "unique", where, "type 0x%02x is not in the registry", k)
			}
		}
		for _, f := range filetypeSpec {
			g, ok := byCode[f.code]
			s.Check(ok && g.name == f.name && g.l3 == f.l3 && (g.l1 == f.l1 || f.l1 == "") && g.extra != f.shownNormally, "code", where, "type 0x%02x is registered as %+v, want %+v", f.code, g, f)
		}
		strFn := c.Method(c.Type("types", "Filetype"), "String")
		for _, f := range infos {
			k, e := look(s, f.name)
			s.Check(e == 1 && k == f.typ, "resolve", s.where(forName), "name %q of type 0x%02x gives 0x%02x", f.name, f.typ, k)
			rs := s.Run(strFn, s.E.NewState(), num(f.typ))
			if !s.Check(len(rs) == 1, "resolve", s.where(strFn), "%d outcomes", len(rs)) {
				continue
			}
			sv, _ := rs[0].Ret.(ai.StrV)
			txt, ok := rs[0].St.F.ConstStr(sv)
			i := strings.LastIndex(txt, " (")
			if !s.Check(ok && i > 0 && strings.HasSuffix(txt, ")") && txt[:i] == f.desc, "resolve", s.where(strFn), "type 0x%02x is shown as %q, want %q and its names", f.typ, txt, f.desc) {
				continue
			}
			for j, n := range strings.Split(txt[i+2:len(txt)-1], "|") {
				k, e := look(s, n)
				s.Check(e == 1 && k == f.typ && (j > 0 || n == f.name), "resolve", s.where(strFn), "type 0x%02x is shown with the name %q, which selects type 0x%02x (found=%v)", f.typ, n, k, e == 1)
			}
		}
		for _, k := range []int64{0xf9, 0x103, -1, 1 << 20} {
			for _, r := range s.Run(strFn, s.E.NewState(), num(k)) {
				sv, _ := r.Ret.(ai.StrV)
				txt, ok := r.St.F.ConstStr(sv)
				s.Check(ok && strings.Contains(strings.ToLower(txt), "unknown"), "unknown", s.where(strFn), "unregistered type 0x%x is shown as %q", k, txt)
			}
		}
		short, _ := s.filetypes(false)
		i := 0
		for _, f := range infos {
			if f.extra {
				continue
			}
			s.Check(i < len(short) && short[i] == f, "default-list", where, "entry %d of the default list is not %q", i, f.name)
			i++
		}
		s.Check(i == len(short), "default-list", where, "the default list has %d entries, want %d", len(short), i)
	})
	c.Section("registry after use", func(s *Sec) {
		strFn := c.Method(c.Type("types", "Filetype"), "String")
		where := s.where(c.Fn("types", "FiletypeInfos"))
		infos, full := s.filetypes(true)
		_, short := s.filetypes(false)
		for k, st := range map[string]*ai.State{"the default list": short, "the full list": full} {
			if st == nil {
				continue
			}
			again, _ := s.filetypesAfter(st.Clone(), true)
			s.Check(len(again) == len(infos), "kept", where, "after %s, the full list has %d entries, not %d", k, len(again), len(infos))
			for i, f := range infos {
				if i < len(again) {
					s.Check(again[i] == f, "kept", where, "after %s, the full list's entry %d is %+v, not %+v", k, i, again[i], f)
				}
				c, e := lookAfter(s, st, f.name)
				s.Check(e == 1 && c == f.typ, "kept", s.where(forName), "after %s, name %q gives type 0x%02x (found=%v), want 0x%02x", k, f.name, c, e == 1, f.typ)
				for _, r := range s.Run(strFn, st.Clone(), num(f.typ)) {
					sv, _ := r.Ret.(ai.StrV)
					txt, ok := r.St.F.ConstStr(sv)
					s.Check(ok && strings.HasPrefix(txt, f.desc+" ("), "kept", s.where(strFn), "after %s, type 0x%02x is shown as %q", k, f.typ, txt)
				}
			}
		}
	})
	c.Section("printed", func(s *Sec) {
		s.E.PeelMax = 600
		s.E.TraceStdout = true
		run := c.Method(c.Type("cmd", "FiletypesCmd"), "Run")
		for _, all := range []bool{true, false} {
			infos, _ := s.filetypes(all)
			w := s.newWorld(nil)
			n := 0
			for _, r := range s.cmdRun("FiletypesCmd", w, s.E.NewState(), map[string]ai.Value{"All": ai.BoolV{C: tf(all)}}) {
				text, known := "", true
				for _, e := range r.St.Trace.Events() {
					if e.Kind == "tab.text" || e.Kind == "stdout.text" {
						sv, _ := e.Args[0].(ai.StrV)
						t, ok := r.St.F.ConstStr(sv)
						text, known = text+t, known && ok
					}
				}
				if !s.Check(known, "printed", s.where(run), "what is printed is not known") {
					continue
				}
				n++
				var rows []string
				for _, l := range strings.Split(text, "\n") {
					if strings.Count(l, "\t") >= 3 {
						rows = append(rows, l)
					}
				}
				k := 0
				for _, f := range infos {
					want := fmt.Sprintf("%s\t%s\t%s\t%s", f.desc, f.name, f.l3, f.l1)
					for k < len(rows) && rows[k] != want && k < 2 {
						k++
					}
					if !s.Check(k < len(rows) && rows[k] == want, "printed", s.where(run), "all=%v: the line %q is missing or out of order", all, want) {
						break
					}
					k++
				}
				s.Check(k == len(rows), "printed", s.where(run), "all=%v: %d further lines are printed", all, len(rows)-k)
			}
			s.Check(n > 0, "printed", s.where(run), "nothing is printed")
		}
	})
}
