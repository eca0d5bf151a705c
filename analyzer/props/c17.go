package props

import (
	"fmt"
	"go/types"
	"strings"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C17", Level: "other",
		Explanation: "The token tables are evaluated from the package initialisers and compared with the documented Applesoft and Integer BASIC tables. The decoders are interpreted on programs whose line numbers and texts are unknown bytes, for every small shape of program, with and without the length header, and must return exactly those lines; malformed shapes must be refused. Listing a line is interpreted for every token and every class of character in every short sequence, and the text must be the one the token tables prescribe. Escaping is interpreted for every character.",
		MinRules:    map[string]int{"tokens": 230, "applesoft-decode": 30, "integer-decode": 30, "applesoft-list": 100, "integer-list": 300, "refuse": 20, "escape": 256, "command": 4},
		Run:         runC17})
}

var applesoftTokens = strings.Split(`END FOR NEXT DATA INPUT DEL DIM READ GR TEXT PR# IN# CALL PLOT HLIN VLIN HGR2 HGR HCOLOR= HPLOT DRAW XDRAW HTAB HOME ROT= SCALE= SHLOAD TRACE NOTRACE NORMAL INVERSE FLASH COLOR= POP VTAB HIMEM: LOMEM: ONERR RESUME RECALL STORE SPEED= LET GOTO RUN IF RESTORE & GOSUB RETURN REM STOP ON WAIT LOAD SAVE DEF POKE PRINT CONT LIST CLEAR GET NEW TAB( TO FN SPC( THEN AT NOT STEP + - * / ; AND OR > = < SGN INT ABS USR FRE SCRN( PDL POS SQR RND LOG EXP COS SIN TAN ATN PEEK LEN STR$ VAL ASC CHR$ LEFT$ RIGHT$ MID$`, " ")

var integerTokens = strings.Split(`HIMEM: ? _ : LOAD SAVE CON RUN RUN DEL , NEW CLR AUTO , MAN HIMEM: LOMEM: + - * / = # >= > <= <> < AND OR MOD ^ + ( , THEN THEN , , " " ( ! ! ( PEEK RND SGN ABS PDL RNDX ( + - NOT ( = # LEN( ASC( SCRN( , ( $ $ ( , , ; ; ; , , , TEXT GR CALL DIM DIM TAB END INPUT INPUT INPUT FOR = TO STEP NEXT , RETURN GOSUB REM LET GOTO IF PRINT PRINT PRINT POKE , COLOR= PLOT , HLIN , AT VLIN , AT VTAB = = ) ) LIST , LIST POP NODSP DSP NOTRACE DSP DSP TRACE PR# IN#`, " ")

// tokenTable reads a map[byte]string.
func (s *Sec) tokenTable(pkg string) map[int64]string {
	g := s.Global(pkg, "TokensByCode")
	st := s.E.NewState()
	m, ok := s.E.MapOf(st, s.E.GlobalValue(st, g))
	if !ok || m.Base != ai.MEmpty {
		panic(missing{"constant token table of " + pkg})
	}
	out := map[int64]string{}
	for _, en := range m.Ents {
		kv, _ := en.K.(ai.IntV)
		n, ok := st.F.Const(kv.L)
		sv, _ := en.V.(ai.StrV)
		t, ok2 := st.F.ConstStr(sv)
		if !ok || !ok2 {
			panic(missing{"constant token table of " + pkg})
		}
		out[n] = t
	}
	return out
}

func noSpace(s string) string { return strings.ReplaceAll(s, " ", "") }

func runC17(c *Ctx) {
	c.Section("tokens", func(s *Sec) {
		for _, k := range []struct {
			pkg   string
			first int64
			want  []string
		}{{"basic/applesoft", 0x80, applesoftTokens}, {"basic/integer", 0, integerTokens}} {
			got := s.tokenTable(k.pkg)
			for i, w := range k.want {
				t, ok := got[k.first+int64(i)]
				s.Check(ok && (w == "?" && t != "" || noSpace(t) == w), "tokens", k.pkg+".TokensByCode", "token 0x%02x is %q, want %q", k.first+int64(i), t, w)
			}
			s.Check(len(got) == len(k.want), "tokens", k.pkg+".TokensByCode", "%d tokens are known, want %d", len(got), len(k.want))
		}
	})
	c.Section("applesoft-decode", func(s *Sec) { s.applesoftDecode() })
	c.Section("integer-decode", func(s *Sec) { s.integerDecode() })
	c.Section("applesoft-list", func(s *Sec) { s.applesoftList() })
	c.Section("integer-list", func(s *Sec) { s.integerList() })
	c.Section("escape", func(s *Sec) { s.escapes() })
	c.Section("command", func(s *Sec) { s.decodeCommand() })
}

func (s *Sec) in(name string, lo, hi int64) ai.Lin {
	if lo == hi {
		return ai.Num(lo)
	}
	return ai.Of(s.E.U.Input(name, lo, hi))
}

// lines makes program lines with unknown numbers and texts. shapes: per line the classes of its bytes.
func (s *Sec) lineTexts(shape []string, classes map[byte][2]int64) (nums []ai.Lin, lo, hi []ai.Lin, texts [][]ai.Lin) {
	for i, sh := range shape {
		l, h := s.in(fmt.Sprintf("numlo%d", i), 0, 255), s.in(fmt.Sprintf("numhi%d", i), 0, 255)
		lo, hi = append(lo, l), append(hi, h)
		nums = append(nums, l.Add(h.Scale(256)))
		var t []ai.Lin
		for j := 0; j < len(sh); j++ {
			cl := classes[sh[j]]
			t = append(t, s.in(fmt.Sprintf("text%d.%d%c", i, j, sh[j]), cl[0], cl[1]))
		}
		texts = append(texts, t)
	}
	return
}

func (s *Sec) byteSlice(st *ai.State, b []ai.Lin) ai.SliceV {
	vals := make([]ai.Value, len(b))
	for i := range b {
		vals[i] = ai.IntV{L: b[i]}
	}
	return s.E.NewBytes(st, s.E.ArrayOf(vals, types.Typ[types.Uint8]).C)
}

// sameLines compares a decoded listing.
func (s *Sec) sameLines(rule, where, what string, r ai.CallRes, pkg string, nums []ai.Lin, texts [][]ai.Lin) {
	lt := s.Type(pkg, "Line")
	if !s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 1, rule, where, "%s: refused", what) {
		return
	}
	els, ok := s.E.SliceElems(r.St, ret(r.Ret, 0))
	if !s.Check(ok && len(els) == len(nums), rule, where, "%s: %d lines, want %d", what, len(els), len(nums)) {
		return
	}
	for i, e := range els {
		n, _ := s.Field(e, lt, "Num").(ai.IntV)
		s.Check(r.St.F.ProveEq(n.L.Sub(nums[i])), rule, where, "%s: line %d has number %s, want %s", what, i, n.L, nums[i])
		bs, ok := s.E.SliceElems(r.St, s.Field(e, lt, "Bytes"))
		if !s.Check(ok && len(bs) == len(texts[i]), rule, where, "%s: line %d has %d bytes of text, want %d", what, i, len(bs), len(texts[i])) {
			continue
		}
		for j := range bs {
			b, _ := bs[j].(ai.IntV)
			s.Check(r.St.F.ProveEq(b.L.Sub(texts[i][j])), rule, where, "%s: byte %d of line %d is %s, want %s", what, j, i, b.L, texts[i][j])
		}
	}
}

func (s *Sec) applesoftDecode() {
	fn := s.Fn("basic/applesoft", "Decode")
	where := s.where(fn)
	s.E.PeelMax = 64
	s.E.MaxParts = 64
	classes := map[byte][2]int64{'c': {1, 0x7f}, 'p': {0xba, 0xba}, 'e': {0x80, 0x80}, 'm': {0xea, 0xea}, 'x': {0xeb, 0xff}, 'r': {0xb2, 0xb2}, 'a': {0xaf, 0xaf}}
	header := func(n, extra int) []ai.Lin { return []ai.Lin{ai.Num(int64(n - extra)), ai.Num(0)} }
	for _, shape := range [][]string{{}, {""}, {"c"}, {"p", "c"}, {"cpc", "", "ecm"}, {"ra", "c", "c", "c"}} {
		for _, head := range []string{"none", "exact", "short by one"} {
			for _, tail := range []int{0, 1} {
				nums, lo, hi, texts := s.lineTexts(shape, classes)
				total := 2
				for _, t := range texts {
					total += 5 + len(t)
				}
				pre := s.in("locpage", 0, 250)
				loc := pre.Scale(256).AddC(1)
				var raw []ai.Lin
				at := 0
				for i, t := range texts {
					at += 5 + len(t)
					raw = append(raw, ai.Num(int64(at+1)%256), pre.AddC(int64(at+1)/256), lo[i], hi[i])
					raw = append(append(raw, t...), ai.Num(0))
				}
				raw = append(raw, ai.Num(0), ai.Num(0))
				for i := 0; i < tail; i++ {
					raw = append(raw, s.in("tail", 0, 255))
				}
				switch head {
				case "exact":
					raw = append(header(len(raw), 0), raw...)
				case "short by one":
					raw = append(header(len(raw), 1), raw...)
				}
				// Without a header, the first link must not look like one.
				if head == "none" && len(texts) == 0 {
					continue
				}
				st := s.E.NewState()
				if head == "none" && !st.F.AssumeGE(pre.AddC(-1)) {
					continue
				}
				what := fmt.Sprintf("program %q, length header %s", shape, head)
				n := 0
				for _, r := range s.Run(fn, st, s.byteSlice(st, raw), ai.IntV{L: loc}) {
					n++
					s.sameLines("applesoft-decode", where, what, r, "basic/applesoft", nums, texts)
				}
				s.Check(n > 0, "applesoft-decode", where, "%s: no outcome", what)
			}
		}
	}
	// malformed: each must be refused
	st := s.E.NewState()
	l0, l1 := s.in("numlo", 0, 255), s.in("numhi", 0, 255)
	C := func(v ...int64) (r []ai.Lin) {
		for _, x := range v {
			r = append(r, ai.Num(x))
		}
		return
	}
	cat := func(a ...[]ai.Lin) (r []ai.Lin) {
		for _, x := range a {
			r = append(r, x...)
		}
		return
	}
	for _, m := range []struct {
		what string
		raw  []ai.Lin
	}{
		{"an empty file", nil},
		{"a one-byte file", C(7)},
		{"a link without line number", C(0x07, 0x08)},
		{"half a line number", cat(C(0x07, 0x08), []ai.Lin{l0})},
		{"a line without end", cat(C(0x07, 0x08), []ai.Lin{l0, l1, s.in("ch", 1, 0x7f)})},
		{"no line after the last link", cat(C(0x07, 0x08), []ai.Lin{l0, l1, s.in("ch", 1, 0x7f), ai.Num(0)})},
		{"half a link", cat(C(0x07, 0x08), []ai.Lin{l0, l1, s.in("ch", 1, 0x7f), ai.Num(0), ai.Num(0)})},
		{"an unknown token", cat(C(0x07, 0x08), []ai.Lin{l0, l1, s.in("bad", 0xeb, 0xff), ai.Num(0), ai.Num(0), ai.Num(0)})},
		{"a link to itself", cat(C(0x01, 0x08), []ai.Lin{l0, l1, ai.Num(0), ai.Num(0), ai.Num(0)})},
		{"a link before the program", cat([]ai.Lin{ai.Num(1), s.in("page", 1, 7)}, []ai.Lin{l0, l1, ai.Num(0), ai.Num(0), ai.Num(0)})},
		{"a link behind the program", cat([]ai.Lin{s.in("low", 9, 255), s.in("page", 8, 255)}, []ai.Lin{l0, l1, ai.Num(0), ai.Num(0), ai.Num(0)})},
	} {
		st2 := st.Clone()
		n := 0
		for _, r := range s.Run(fn, st2, s.byteSlice(st2, m.raw), num(0x801)) {
			n++
			s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 2, "refuse", where, "Applesoft program with %s is accepted", m.what)
		}
		s.Check(n > 0, "refuse", where, "Applesoft program with %s: no outcome", m.what)
	}
}

func (s *Sec) integerDecode() {
	fn := s.Fn("basic/integer", "Decode")
	where := s.where(fn)
	s.E.PeelMax = 64
	s.E.MaxParts = 64
	classes := map[byte][2]int64{'c': {0, 255}}
	for _, shape := range [][]string{{}, {""}, {"c"}, {"cc", "c"}, {"ccc", "", "cccc"}, {"c", "c", "c", "c"}} {
		for _, head := range []string{"none", "exact", "short by one"} {
			for _, tail := range []int{0, 1, 2} {
				nums, lo, hi, texts := s.lineTexts(shape, classes)
				var raw []ai.Lin
				for i, t := range texts {
					raw = append(raw, ai.Num(int64(4+len(t))), lo[i], hi[i])
					raw = append(append(raw, t...), ai.Num(1))
				}
				for i := 0; i < tail; i++ {
					raw = append(raw, s.in(fmt.Sprintf("tail%d", i), 0, 255))
				}
				st := s.E.NewState()
				switch head {
				case "exact":
					raw = append([]ai.Lin{ai.Num(int64(len(raw))), ai.Num(0)}, raw...)
				case "short by one":
					if len(raw) == 0 {
						continue
					}
					raw = append([]ai.Lin{ai.Num(int64(len(raw) - 1)), ai.Num(0)}, raw...)
				case "none":
					// the first two bytes must not happen to be such a header
					if len(texts) == 0 || !st.F.AssumeGE(lo[0].AddC(-1)) {
						continue
					}
				}
				what := fmt.Sprintf("program %q, length header %s, %d bytes behind it", shape, head, tail)
				n := 0
				for _, r := range s.Run(fn, st, s.byteSlice(st, raw)) {
					n++
					s.sameLines("integer-decode", where, what, r, "basic/integer", nums, texts)
				}
				s.Check(n > 0, "integer-decode", where, "%s: no outcome", what)
			}
		}
	}
	x := func(i int) ai.Lin { return s.in(fmt.Sprintf("x%d", i), 1, 255) }
	for _, m := range []struct {
		what string
		raw  []ai.Lin
	}{
		{"a line shorter than its own header", []ai.Lin{s.in("size", 0, 3), x(0), x(1), x(2), x(3)}},
		{"a line longer than the file", []ai.Lin{s.in("size", 7, 255), x(0), x(1), x(2), x(3), ai.Num(1)}},
		{"a line without end mark", []ai.Lin{ai.Num(5), x(0), x(1), x(2), s.in("end", 2, 255)}},
		{"a line ended by 0", []ai.Lin{ai.Num(5), x(0), x(1), x(2), ai.Num(0)}},
		{"a second line without end mark", []ai.Lin{ai.Num(4), x(0), x(1), ai.Num(1), ai.Num(4), x(2), x(3), s.in("end", 2, 255)}},
	} {
		st := s.E.NewState()
		n := 0
		for _, r := range s.Run(fn, st, s.byteSlice(st, m.raw)) {
			n++
			s.Check(s.errOf(r.St, ret(r.Ret, 1)) == 2, "refuse", where, "Integer BASIC program with %s is accepted", m.what)
		}
		s.Check(n > 0, "refuse", where, "Integer BASIC program with %s: no outcome", m.what)
	}
}

// wantText is expected output: literals and unknown characters.
type wantText struct {
	lit   string
	char  ai.Lin
	isDec bool // char printed as a decimal number (verb)
	verb  string
}

// sameText compares a string with the expected pieces.
func (s *Sec) sameText(st *ai.State, got ai.Value, want []wantText) (bool, string) {
	var w ai.StrV
	for _, p := range want {
		switch {
		case p.lit != "":
			w = ai.Concat(w, ai.Lit(p.lit))
		case p.isDec:
			w = ai.Concat(w, s.E.FormatInt(st, p.verb, p.char))
		default:
			w = ai.Concat(w, s.E.ByteStr(st, p.char))
		}
	}
	g, ok := got.(ai.StrV)
	return ok && s.E.SameStr(st, g, w), w.String()
}

func (s *Sec) listLine(rule, pkg, verb, what string, text []ai.Lin, want []wantText) {
	lt := s.Type(pkg, "Line")
	fn := s.Method(lt, "String")
	nm := s.in("number", 0, 65535)
	st := s.E.NewState()
	v := s.StructVal(lt, map[string]ai.Value{"Num": ai.IntV{L: nm}, "Bytes": s.byteSlice(st, text)})
	want = append([]wantText{{char: nm, isDec: true, verb: verb}, {lit: " "}}, want...)
	n := 0
	for _, r := range s.Run(fn, st, s.argFor(st, fn, v, lt)) {
		n++
		ok, w := s.sameText(r.St, r.Ret, want)
		s.Check(ok, rule, s.where(fn), "%s is listed as %s, want %s", what, ai.ValStr(r.Ret), w)
	}
	s.Check(n > 0, rule, s.where(fn), "%s: no outcome", what)
}

func (s *Sec) applesoftList() {
	s.E.PeelMax = 64
	s.E.MaxParts = 64
	pkg := "basic/applesoft"
	table := s.tokenTable(pkg)
	pad := func(k int64) string { return " " + table[k] + " " }
	s.listLine("applesoft-list", pkg, "%d", "an empty line", nil, nil)
	for k := int64(0x80); k <= 0xea; k++ {
		a, b := s.in("a", 1, 0x7f), s.in("b", 1, 0x7f)
		s.listLine("applesoft-list", pkg, "%d", fmt.Sprintf("token 0x%02x between characters", k), []ai.Lin{a, ai.Num(k), b}, []wantText{{char: a}, {lit: pad(k)}, {char: b}})
	}
	s.listLine("applesoft-list", pkg, "%d", "two tokens", []ai.Lin{ai.Num(0xb8), ai.Num(0xc2)}, []wantText{{lit: pad(0xb8)}, {lit: pad(0xc2)}})
	var text []ai.Lin
	var want []wantText
	for i := 0; i < 5; i++ {
		ch := s.in(fmt.Sprintf("ch%d", i), 1, 0x7f)
		text = append(text, ch)
		want = append(want, wantText{char: ch})
	}
	s.listLine("applesoft-list", pkg, "%d", "plain text", text, want)
	s.listings("applesoft-list", pkg)
}

// listings: the listing of a program is its lines' listings in order, each ended by a newline.
func (s *Sec) listings(rule, pkg string) {
	lt, lg := s.Type(pkg, "Line"), s.Type(pkg, "Listing")
	fn, one := s.Method(lg, "String"), s.Method(lt, "String")
	for _, n := range []int{0, 1, 3} {
		st := s.E.NewState()
		var els []ai.Value
		var want ai.StrV
		for i := 0; i < n; i++ {
			lv := s.StructVal(lt, map[string]ai.Value{"Num": ai.IntV{L: s.in(fmt.Sprintf("num%d", i), 0, 65535)}, "Bytes": s.byteSlice(st, []ai.Lin{s.in(fmt.Sprintf("c%d", i), 0xc1, 0xda).AddC(map[bool]int64{true: -0x80, false: 0}[pkg == "basic/applesoft"])})})
			els = append(els, lv)
			st2 := st.Clone()
			rs := s.Run(one, st2, s.argFor(st2, one, lv, lt))
			if len(rs) != 1 {
				s.Check(false, rule, s.where(one), "listing a one-character line has %d outcomes", len(rs))
				return
			}
			t, _ := rs[0].Ret.(ai.StrV)
			want = ai.Concat(ai.Concat(want, t), ai.Lit("\n"))
		}
		l := s.E.NewBytes(st, s.E.ArrayOf(els, lt).C)
		for _, r := range s.Run(fn, st, s.argFor(st, fn, l, lg)) {
			g, ok := r.Ret.(ai.StrV)
			s.Check(ok && s.E.SameStr(r.St, g, want), rule, s.where(fn), "a program of %d lines is listed as %s, want %s", n, ai.ValStr(r.Ret), want)
		}
	}
}

func (s *Sec) integerList() {
	s.E.PeelMax = 64
	s.E.MaxParts = 64
	pkg := "basic/integer"
	table := s.tokenTable(pkg)
	spec := func(kinds string, raw []ai.Lin) []wantText {
		var w []wantText
		last := false
		for i := 0; i < len(raw); i++ {
			switch kinds[i] {
			case 't', 'T', 'R': // tokens
				k := raw[i].C
				t := table[k]
				if len(t) > 1 {
					t += " "
				}
				w = append(w, wantText{lit: t})
				last = false
				if kinds[i] == 'R' {
					for _, x := range raw[i+1:] {
						w = append(w, wantText{char: x.AddC(-0x80)})
					}
					return w
				}
			case 'd':
				if !last {
					if i+3 > len(raw) {
						w = append(w, wantText{lit: "?"})
						last = true
						break
					}
					w = append(w, wantText{char: raw[i+1].Add(raw[i+2].Scale(256)), isDec: true, verb: "%d"})
					i += 2
					last = true
					break
				}
				w = append(w, wantText{char: raw[i].AddC(-0x80)})
				last = true
			case 'l':
				w = append(w, wantText{char: raw[i].AddC(-0x80)})
				last = true
			case 'p':
				w = append(w, wantText{char: raw[i].AddC(-0x80)})
				last = false
			}
		}
		return w
	}
	mk := func(kinds string) []ai.Lin {
		var r []ai.Lin
		for i := 0; i < len(kinds); i++ {
			n := fmt.Sprintf("%c%d", kinds[i], i)
			switch kinds[i] {
			case 't':
				r = append(r, ai.Num(0x12))
			case 'T':
				r = append(r, ai.Num(0x5e))
			case 'R':
				r = append(r, ai.Num(0x5d))
			case 'd':
				r = append(r, s.in(n, 0xb0, 0xb9))
			case 'l':
				r = append(r, s.in(n, 0xc1, 0xda))
			case 'p':
				r = append(r, s.in(n, 0xa0, 0xaf))
			case 'n':
				r = append(r, s.in(n, 0, 255))
			case 'h':
				r = append(r, s.in(n, 0x80, 255))
			}
		}
		return r
	}
	for k := int64(0); k < 0x80; k++ {
		if k == 1 || k == 0x5d {
			continue
		}
		t := table[k]
		if len(t) > 1 {
			t += " "
		}
		a, b := s.in("a", 0xc1, 0xda), s.in("b", 0xc1, 0xda)
		s.listLine("integer-list", pkg, "%5d", fmt.Sprintf("token 0x%02x between letters", k), []ai.Lin{a, ai.Num(k), b}, []wantText{{char: a.AddC(-0x80)}, {lit: t}, {char: b.AddC(-0x80)}})
	}
	seen := map[string]bool{}
	try := func(k string) {
		if !seen[k] {
			seen[k] = true
			raw := mk(k)
			s.listLine("integer-list", pkg, "%5d", fmt.Sprintf("a line of form %q", k), raw, spec(k, raw))
		}
	}
	try("")
	kinds := "tTdlp"
	for _, a := range kinds {
		try(num3(string(a)))
		for _, b := range kinds {
			try(num3(string(a) + string(b)))
			for _, d := range kinds {
				try(num3(string(a) + string(b) + string(d)))
			}
		}
	}
	for _, k := range []string{"R", "Rhh", "lRhhh", "tRh", "d", "td", "ldd", "lddd", "dnnl", "dnnd", "dnnpdnn", "lpd", "dnntdnn"} {
		try(k)
	}
	s.listings("integer-list", pkg)
}

// num3 gives every number of a line form its two payload bytes.
func num3(k string) string {
	out := ""
	last := false
	for _, c := range k {
		out += string(c)
		if c == 'd' && !last {
			out += "nn"
		}
		last = c == 'd' || c == 'l'
	}
	return out
}

func (s *Sec) escapes() {
	for _, pkg := range []string{"basic", "basic/integer"} {
		fn := s.Fn(pkg, "ChevronControlCodes")
		for k := 0; k < 128; k++ {
			ch := string([]byte{byte(k)})
			want := ch
			switch {
			case k == '\n' || k == '\t' || k >= 32:
			case k >= 1 && k <= 26:
				want = "«ctrl-" + string(rune('A'-1+k)) + "»"
			case k == 27:
				want = "*"
			default:
				want = "«" + map[int]string{0: "NUL", 0x1c: "FS", 0x1d: "GS", 0x1e: "RS", 0x1f: "US"}[k] + "»"
			}
			for _, ctx := range [][2]string{{"", ""}, {"a", "\x04b"}} {
				for _, r := range s.Run(fn, s.E.NewState(), ai.Lit(ctx[0]+ch+ctx[1])) {
					sv, _ := r.Ret.(ai.StrV)
					t, ok := r.St.F.ConstStr(sv)
					w := ctx[0] + want
					if ctx[1] != "" {
						w += "«ctrl-D»b"
					}
					good := ok && t == w
					if k == 27 {
						good = ok && strings.HasPrefix(t, ctx[0]+"«") && !strings.Contains(t, "\x1b")
					}
					s.Check(good, "escape", s.where(fn), "%q is shown as %q, want %q", ctx[0]+ch+ctx[1], t, w)
				}
			}
		}
	}
}

func (s *Sec) decodeCommand() {
	run := s.Method(s.Type("cmd", "DecodeCmd"), "Run")
	where := s.where(run)
	s.E.TraceStdout = true
	s.E.PeelMax = 64
	s.E.MaxParts = 64
	for _, raw := range []bool{true, false} {
		for _, loc := range []int64{0x801, 0x3001} {
			for _, bad := range []bool{false, true} {
				name := s.E.U.InputStr("file", "x")
				prog := []int64{8, loc >> 8, 10, 0, 0xba, 4, 0, 14, loc >> 8, 0x39, 0x30, 'A', 0, 0, 0}
				if bad {
					prog[4] = 0xfe
				}
				s.E.FileBytes = func(st *ai.State, key string) *ai.Content {
					vals := make([]ai.Value, len(prog))
					for i, k := range prog {
						vals[i] = num(k)
					}
					return s.E.ArrayOf(vals, types.Typ[types.Uint8]).C
				}
				s.E.FileLen = func(key string, n ai.Lin) ai.Lin { return ai.Num(int64(len(prog))) }
				want := "10  PRINT \x04\n12345 A\n"
				if !raw {
					want = "10  PRINT «ctrl-D»\n12345 A\n"
				}
				n := 0
				for _, r := range s.cmdRun("DecodeCmd", s.newWorld(nil), s.E.NewState(), map[string]ai.Value{"Filename": name, "Location": num(loc), "Raw": ai.BoolV{C: tf(raw)}}) {
					out, known := s.stdout(r.St)
					if s.errOf(r.St, r.Ret) == 2 {
						s.Check(len(out.P) == 0, "command", where, "prints something although it fails")
						continue
					}
					if bad {
						s.Check(false, "command", where, "a program with an unknown token is accepted")
						continue
					}
					n++
					t, ok := r.St.F.ConstStr(out)
					s.Check(known && ok && t == want, "command", where, "raw=%v prints %s, want %q", raw, out, want)
				}
				s.Check(bad || n > 0, "command", where, "never prints the listing")
			}
		}
	}
}
