package props

import (
	"fmt"
	"strings"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C28", Level: "other",
		Explanation: "Every file number and its spellings (DFxx and xx, either case), the numbers that are none, and symbol names in a table of unknown addresses are resolved by abstract interpretation and compared with the documented rules; compound names (number:symbol) and compound symbols (address:symbol) are enumerated by form. The catalog and retrieval of files are interpreted on a disk with known map and symbols and otherwise unknown contents, with and without a symbol table.",
		MinRules:    map[string]int{"number": 500, "symbol": 30, "compound": 30, "name": 200, "catalog": 20, "get": 100},
		Run:         runC28})
}

func runC28(c *Ctx) {
	stt := c.Type("supermon", "SymbolTable")
	ffn := c.Method(stt, "FileForName")
	call := func(s *Sec, st *ai.State, m string, tab ai.Value, args ...ai.Value) []ai.CallRes {
		fn := c.Method(stt, m)
		return s.Run(fn, st, append([]ai.Value{s.argFor(st, fn, tab, stt)}, args...)...)
	}
	resolved := func(s *Sec, rule string, rs []ai.CallRes, want ai.Lin, ok bool, what string) {
		s.Check(len(rs) > 0, rule, s.where(ffn), "%s: no outcome", what)
		for _, r := range rs {
			if !ok {
				s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 2, rule, s.where(ffn), "%s is taken for a file", what)
				continue
			}
			if s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 1, rule, s.where(ffn), "%s is not found", what) {
				s.sameLin(rule, s.where(ffn), r.St, ret(r.Ret, 0), want, "%s: file number", what)
			}
		}
	}
	// a table of symbols with unknown addresses
	table := func(s *Sec, st *ai.State) (ai.SliceV, ai.Lin) {
		f := s.in("file", 1, 0xfd)
		return s.symTable(st, 12, map[int]map[string]ai.Value{
			0:  {"Name": ai.Lit("ROUTINE"), "Address": ai.IntV{L: s.in("routine", 1, 0xdeff)}},
			2:  {"Name": ai.Lit("FHELLO"), "Address": num(0xdf01)},
			3:  {"Name": ai.Lit("DATA"), "Address": ai.IntV{L: f.AddC(0xdf00)}},
			4:  {"Name": ai.Lit("DF07"), "Address": num(0xdf09)},
			5:  {"Name": ai.Lit("FACADE"), "Address": num(0xdf0a)},
			6:  {"Name": ai.Lit("DATA2"), "Address": num(0xdffd)},
			7:  {"Name": ai.Lit("ZERO"), "Address": num(0xdf00)},
			8:  {"Name": ai.Lit("RESERVED"), "Address": ai.IntV{L: s.in("reserved", 0xdffe, 0xffff)}},
			9:  {"Name": ai.Lit("FACE"), "Address": num(0xdf0b)},
			11: {"Name": ai.Lit("LAST"), "Address": num(0xdf55)},
		}), f
	}
	c.Section("numbers", func(s *Sec) {
		for _, withTable := range []bool{false, true} {
			for n := int64(0); n < 256; n++ {
				for _, f := range []string{"DF%02X", "df%02x", "Df%02X", "%02X", "%02x", "%X"} {
					if withTable && (n > 0x12 || f == "Df%02X") {
						continue
					}
					name := fmt.Sprintf(f, n)
					st := s.E.NewState()
					var tab ai.Value = s.E.ZeroValue(stt)
					if withTable {
						tab, _ = table(s, st)
					}
					resolved(s, "number", call(s, st, "FileForName", tab, ai.Lit(name)), ai.Num(n), n >= 1 && n <= 0xfd, fmt.Sprintf("the name %q", name))
				}
			}
		}
		for _, name := range []string{"", "G1", "DF", "DF0G", "DE05", "E005", "1DF05", "DF005", "100", "0x05", "-5", "+5", "DF05 ", " 05", "DF:05", "05:"} {
			st := s.E.NewState()
			ok, want := name == "DF", int64(0xdf)
			resolved(s, "number", call(s, st, "FileForName", s.E.ZeroValue(stt), ai.Lit(name)), ai.Num(want), ok, fmt.Sprintf("the name %q", name))
		}
	})
	c.Section("symbols", func(s *Sec) {
		type tc struct {
			name string
			num  int64 // -1: the unknown file, 0: none
		}
		for _, k := range []tc{{"DATA", -1}, {"data", -1}, {"Data", -1}, {"FHELLO", 1}, {"fhello", 1}, {"DATA2", 0xfd}, {"ROUTINE", 0}, {"ZERO", 0}, {"RESERVED", 0}, {"NOPE", 0}, {"DAT", 0}, {"DATA3", 0}, {"", 0},
			{"FACADE", 10}, {"FACE", 11}, {"face", 11}, {"LAST", 0x55}, {"DF07", 7}} {
			st := s.E.NewState()
			tab, f := table(s, st)
			tc := s.E.Content(st, tab)
			want := ai.Num(k.num)
			if k.num < 0 {
				want = f
			}
			rs := call(s, st, "FileForName", tab, ai.Lit(k.name))
			resolved(s, "symbol", rs, want, k.num != 0, fmt.Sprintf("the name %q", k.name))
			for _, r := range rs {
				s.Check(s.E.Content(r.St, tab) == tc, "symbol", s.where(ffn), "looking up a name changes the table")
			}
			// ByName
			addr := map[string]int64{"FHELLO": 0xdf01, "DATA2": 0xdffd, "ZERO": 0xdf00, "FACADE": 0xdf0a, "FACE": 0xdf0b, "LAST": 0xdf55, "DF07": 0xdf09}[strings.ToUpper(k.name)]
			wa := ai.Num(addr)
			if strings.ToUpper(k.name) == "DATA" {
				wa = f.AddC(0xdf00)
			} else if k.name == "ROUTINE" {
				wa = s.in("routine", 1, 0xdeff)
			} else if k.name == "RESERVED" {
				wa = s.in("reserved", 0xdffe, 0xffff)
			}
			st = s.E.NewState()
			tab, _ = table(s, st)
			for _, r := range call(s, st, "ByName", tab, ai.Lit(k.name)) {
				s.sameLin("symbol", "SymbolTable.ByName", r.St, r.Ret, wa, "the address of the symbol %q", k.name)
			}
		}
	})
	c.Section("compound names", func(s *Sec) {
		// num: number part, named: file the symbol names (-1 unknown file), sym: symbol
		type tc struct {
			name       string
			num, named int64
			sym        string
			ok         bool
		}
		fn := "SymbolTable.FilesForCompoundName"
		for _, k := range []tc{{"DF05", 5, 0, "", true}, {"05", 5, 0, "", true}, {"dffd", 0xfd, 0, "", true}, {"DATA", -1, -1, "DATA", true}, {"data", -1, -1, "data", true}, {"NEWNAME", 0, 0, "NEWNAME", true},
			{"ROUTINE", 0, 0, "ROUTINE", true}, {"DF05:DATA", 5, -1, "DATA", true}, {"05:data", 5, -1, "data", true}, {"DF05:NEWNAME", 5, 0, "NEWNAME", true}, {"DF05:ROUTINE", 5, 0, "ROUTINE", true}, {"FD:FHELLO", 0xfd, 1, "FHELLO", true},
			{"DF05:FACE", 5, 11, "FACE", true}, {"DF05:DF06", 0, 0, "", false}, {"DF05:06", 0, 0, "", false}, {"DATA:DF05", 0, 0, "", false}, {"NEWNAME:DATA", 0, 0, "", false}, {"DF00:DATA", 0, 0, "", false}, {"DFFE:DATA", 0, 0, "", false},
			{"DF05:DATA:X", 0, 0, "", false}, {"DF05:DATA:", 0, 0, "", false}, {":DATA", 0, 0, "", false}} {
			st := s.E.NewState()
			tab, f := table(s, st)
			w := func(n int64) ai.Lin {
				if n < 0 {
					return f
				}
				return ai.Num(n)
			}
			for _, r := range call(s, st, "FilesForCompoundName", tab, ai.Lit(k.name)) {
				e := s.errOf(r.St, ret(r.Ret, 3))
				if !s.Check(e == 1 && k.ok || e == 2 && !k.ok, "compound", fn, "the name %q: accepted %v, want %v", k.name, e == 1, k.ok) || !k.ok {
					continue
				}
				s.sameLin("compound", fn, r.St, ret(r.Ret, 0), w(k.num), "the name %q: file number", k.name)
				s.sameLin("compound", fn, r.St, ret(r.Ret, 1), w(k.named), "the name %q: file of the symbol", k.name)
				sy, _ := ret(r.Ret, 2).(ai.StrV)
				got, ok := r.St.F.ConstStr(sy)
				s.Check(ok && got == k.sym, "compound", fn, "the name %q: symbol %s, want %q", k.name, sy, k.sym)
			}
		}
	})
	c.Section("compound symbols", func(s *Sec) {
		fn := "SymbolTable.ParseCompoundSymbol"
		type tc struct {
			name      string
			addr, sym int64
			nm        string
			ok        bool
		}
		for _, k := range []tc{{"6000", 0x6000, 0, "", true}, {"ffff", 0xffff, 0, "", true}, {"0", 0, 0, "", true}, {"10000", 0, 0, "10000", true}, {"DATA", 0, -1, "DATA", true}, {"data2", 0, 0xdffd, "data2", true}, {"NEWNAME", 0, 0, "NEWNAME", true},
			{"FACE", 0, 0xdf0b, "FACE", true}, {"BEEF", 0xbeef, 0, "", true}, {"AB CD", 0, 0, "", false}, {"", 0, 0, "", false}, {"TOOLONGNAME", 0, 0, "", false}, {"6000:DATA", 0x6000, -1, "DATA", true}, {"6000:NEWNAME", 0x6000, 0, "NEWNAME", true},
			{"df01:LAST", 0xdf01, 0xdf55, "LAST", true}, {"10000:DATA", 0, 0, "", false}, {"XYZ:DATA", 0, 0, "", false}, {":DATA", 0, 0, "", false}, {"6000:", 0, 0, "", false}, {"6000:A B", 0, 0, "", false}, {"6000:AB", 0, 0, "", false}, {"1:2:3", 0, 0, "", false}} {
			st := s.E.NewState()
			tab, f := table(s, st)
			for _, r := range call(s, st, "ParseCompoundSymbol", tab, ai.Lit(k.name)) {
				e := s.errOf(r.St, ret(r.Ret, 3))
				if !s.Check(e == 1 && k.ok || e == 2 && !k.ok, "compound", fn, "%q: accepted %v, want %v", k.name, e == 1, k.ok) || !k.ok {
					continue
				}
				w := ai.Num(k.sym)
				if k.sym < 0 {
					w = f.AddC(0xdf00)
				}
				s.sameLin("compound", fn, r.St, ret(r.Ret, 0), ai.Num(k.addr), "%q: address", k.name)
				s.sameLin("compound", fn, r.St, ret(r.Ret, 1), w, "%q: address of the symbol", k.name)
				sy, _ := ret(r.Ret, 2).(ai.StrV)
				got, ok := r.St.F.ConstStr(sy)
				s.Check(ok && got == k.nm, "compound", fn, "%q: symbol %s, want %q", k.name, sy, k.nm)
			}
		}
	})
	c.Section("names of files", func(s *Sec) {
		short, full := c.Fn("supermon", "NameForFile"), c.Fn("supermon", "FullnameForFile")
		for n := int64(1); n <= 0xfd; n++ {
			st := s.E.NewState()
			tab := s.symTable(st, 6, map[int]map[string]ai.Value{
				0: {"Name": ai.Lit("OTHER"), "Address": num(n)},
				2: {"Name": ai.Lit("FHELLO"), "Address": num(0xdf01)},
				3: {"Name": ai.Lit("MIDDLE"), "Address": num(0xdf7f)},
				4: {"Name": ai.Lit("SECOND"), "Address": num(0xdf7f)},
				5: {"Name": ai.Lit("TOP"), "Address": num(0xdffd)}})
			sym := map[int64]string{1: "FHELLO", 0x7f: "MIDDLE", 0xfd: "TOP"}[n]
			for _, withTable := range []bool{true, false} {
				var tv ai.Value = tab
				ws, wf := fmt.Sprintf("DF%02X", n), fmt.Sprintf("DF%02X", n)
				if !withTable {
					tv = s.E.ZeroValue(stt)
				} else if sym != "" {
					ws, wf = sym, wf+":"+sym
				}
				for _, r := range s.Run(short, st.Clone(), num(n), tv) {
					v, _ := r.Ret.(ai.StrV)
					got, ok := r.St.F.ConstStr(v)
					s.Check(ok && got == ws, "name", s.where(short), "file %02X is called %s, want %q", n, v, ws)
				}
				for _, r := range s.Run(full, st.Clone(), num(n), tv) {
					v, _ := r.Ret.(ai.StrV)
					got, ok := r.St.F.ConstStr(v)
					s.Check(ok && got == wf, "name", s.where(full), "file %02X is called %s, want %q", n, v, wf)
				}
			}
		}
	})
	for _, withTable := range []bool{true, false} {
		withTable := withTable
		c.Section(fmt.Sprintf("catalog, symbol table %v", withTable), func(s *Sec) {
			d := exampleDisk(withTable)
			st := s.E.NewState()
			img := d.image(s, st)
			ic := s.E.Content(st, img)
			op, st, ok := s.nakedOp(st, img)
			if !s.Check(ok, "catalog", "supermon.OperatorFactory", "the example disk is not recognised") {
				return
			}
			// description of a file, by number
			names := map[int64]string{}
			for _, sy := range d.syms {
				if f := sy.addr - 0xdf00; f > 0 && f < 0xfe && names[f] == "" {
					names[f] = sy.name
				}
			}
			dt := c.Type("types", "Descriptor")
			bin := s.filetype("FiletypeBinary")
			desc := func(rule, where string, st *ai.State, v ai.Value, f int64, full bool) {
				n := int64(len(d.sectors(f)))
				short := fmt.Sprintf("DF%02X", f)
				long := short
				if names[f] != "" {
					short, long = names[f], long+":"+names[f]
				}
				str := func(name string) string {
					sv, _ := s.Field(v, dt, name).(ai.StrV)
					t, ok := st.F.ConstStr(sv)
					if !ok {
						return sv.String()
					}
					return t
				}
				s.Check(str("Name") == short, rule, where, "file %02X is listed as %q, want %q", f, str("Name"), short)
				if full {
					s.Check(str("Fullname") == long, rule, where, "the full name of file %02X is listed as %q, want %q", f, str("Fullname"), long)
				}
				s.sameLin(rule, where, st, s.Field(v, dt, "Sectors"), ai.Num(n), "sectors of file %02X", f)
				s.sameLin(rule, where, st, s.Field(v, dt, "Length"), ai.Num(n*256), "length of file %02X", f)
				s.Check(s.isBool(st, s.Field(v, dt, "Locked"), false), rule, where, "file %02X is listed as locked", f)
				s.Check(s.E.ValEq(st, s.Field(v, dt, "Type"), bin) == ai.True, rule, where, "file %02X is not listed as binary", f)
			}
			var files []int64
			for f := int64(1); f < 0xfe; f++ {
				if len(d.sectors(f)) > 0 {
					files = append(files, f)
				}
			}
			where := "supermon.Operator.Catalog"
			for _, r := range s.opCall(st.Clone(), op, "Catalog", ai.Lit("")) {
				if !s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 1, "catalog", where, "fails") {
					continue
				}
				els, ok := s.E.SliceElems(r.St, ret(r.Ret, 0))
				if !s.Check(ok && len(els) == len(files), "catalog", where, "%d files are listed, want %d", len(els), len(files)) {
					continue
				}
				for i, f := range files {
					desc("catalog", where, r.St, els[i], f, true)
				}
				s.Check(s.E.Content(r.St, img) == ic, "catalog", where, "listing changes the image")
			}
			where = "supermon.Operator.GetFile"
			ft := c.Type("types", "FileInfo")
			get := func(name string, f int64) {
				for _, r := range s.opCall(st.Clone(), op, "GetFile", ai.Lit(name)) {
					secs := d.sectors(f)
					if len(secs) == 0 {
						s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 2, "get", where, "retrieving %q, which does not exist, succeeds", name)
						continue
					}
					if !s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 1, "get", where, "retrieving %q fails", name) {
						continue
					}
					fi := ret(r.Ret, 0)
					desc("get", where, r.St, s.Field(fi, ft, "Descriptor"), f, false)
					start := int64(0)
					if f == 1 {
						start = 0x1800
					}
					s.sameLin("get", where, r.St, s.Field(fi, ft, "StartAddress"), ai.Num(start), "start address of %q", name)
					sl, ok := s.Field(fi, ft, "Data").(ai.SliceV)
					if !s.Check(ok && r.St.F.ProveEq(sl.Len.AddC(int64(-256*len(secs)))), "get", where, "%q has %s bytes, want %d", name, sl.Len, 256*len(secs)) {
						continue
					}
					oc := s.E.Content(r.St, sl)
					for i := int64(0); i < int64(256*len(secs)); i++ {
						a, b := s.E.Read(r.St.F, oc, sl.Off.AddC(i)), s.E.Read(r.St.F, ic, ai.Num(secs[i/256]*256+i%256))
						if !s.Check(s.E.ValEq(r.St, a, b) == ai.True, "get", where, "byte %d of %q is %s, want %s", i, name, ai.ValStr(a), ai.ValStr(b)) {
							break
						}
					}
				}
			}
			for _, f := range files {
				get(fmt.Sprintf("DF%02X", f), f)
			}
			get("DF06", 6)
			get("NOTHERE", 0)
			get("FHELLO", map[bool]int64{true: 1}[withTable])
			get("data", map[bool]int64{true: 5}[withTable])
			get("ROUTINE1", 0)
			get("TAIL", 0x85)
		})
	}
}
