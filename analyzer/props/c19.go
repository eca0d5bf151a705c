package props

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
	"unicode"

	"diskcheck/ai"
)

func init() {
	register(&Spec{ID: "C19", Level: "other",
		Explanation: "main is interpreted with the command-line parser stood in for: the structure handed to it (its field types and tags) is the command line the user sees, the values handed to the chosen command are what it gets. Every documented command, alias, argument and flag must be there with its documented default and lead to its own implementation; every sector order and system offered must be one the program knows; the three disk systems must be registered, each reporting one name and one order for factory and operator; the address parser must accept exactly the 16-bit numbers.",
		MinRules:    map[string]int{"commands": 15, "choices": 20, "registered": 6, "identity": 10, "addresses": 20, "runnable": 9},
		Run:         runC19})
}

// kongTag parses a field's tag the way kong does: kong:"a,b='c'" or bare keys.
func kongTag(tag string) map[string]string {
	out := map[string]string{}
	st := reflect.StructTag(tag)
	if k, ok := st.Lookup("kong"); ok {
		for len(k) > 0 {
			i := strings.IndexAny(k, ",=")
			if i < 0 {
				out[k] = ""
				break
			}
			key := k[:i]
			if k[i] == ',' {
				out[key] = ""
				k = k[i+1:]
				continue
			}
			k = k[i+1:]
			val := ""
			if strings.HasPrefix(k, "'") {
				j := 1
				for j < len(k) && k[j] != '\'' {
					if k[j] == '\\' {
						j++
					}
					j++
				}
				if j >= len(k) {
					j = len(k) - 1
				}
				val = strings.ReplaceAll(k[1:j], `\'`, `'`)
				k = k[j+1:]
			} else {
				j := strings.IndexByte(k, ',')
				if j < 0 {
					j = len(k)
				}
				val, k = k[:j], k[j:]
			}
			out[key] = val
			k = strings.TrimPrefix(k, ",")
		}
		return out
	}
	for _, key := range []string{"cmd", "arg", "name", "aliases", "default", "enum", "short", "type", "required", "optional", "hidden", "embed", "-"} {
		if v, ok := st.Lookup(key); ok {
			out[key] = v
		}
	}
	return out
}

func kebab(s string) string {
	var b strings.Builder
	for i, r := range s {
		if unicode.IsUpper(r) && i > 0 {
			b.WriteByte('-')
		}
		b.WriteRune(unicode.ToLower(r))
	}
	return b.String()
}

type cliField struct {
	field string
	name  string
	tag   map[string]string
	typ   types.Type
}

func cliFields(t types.Type) []cliField {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []cliField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := kongTag(st.Tag(i))
		if _, ok := tag["-"]; ok {
			continue
		}
		if _, emb := tag["embed"]; emb || f.Anonymous() {
			r = append(r, cliFields(f.Type())...)
			continue
		}
		n := kebab(f.Name())
		if x := tag["name"]; x != "" {
			n = x
		}
		r = append(r, cliField{f.Name(), n, tag, f.Type()})
	}
	return r
}

func has(m map[string]string, k string) bool { _, ok := m[k]; return ok }

// documented command line
var cliSpec = []struct {
	path, typ string
	alias     []string
	args      []string // positional, "?" suffix: optional
	flags     []string // name[=default][/short]
}{
	{"ls", "LsCmd", []string{"list", "cat", "catalog"}, []string{"Image", "Directory?"}, []string{"order=auto", "system=auto", "short-names/s"}},
	{"reorder", "ReorderCmd", nil, []string{"DiskImage", "NewDiskImage?"}, []string{"order=auto", "new-order=auto", "overwrite/f"}},
	{"filetypes", "FiletypesCmd", nil, nil, []string{"all"}},
	{"put", "PutCmd", nil, []string{"DiskImage", "TargetFilename", "SourceFilename"}, []string{"order=auto", "system=auto", "filetype-name=B", "overwrite/f", "address=0x6000"}},
	{"rm", "DeleteCmd", []string{"delete"}, []string{"DiskImage", "Filename"}, []string{"order=auto", "system=auto", "missing-ok/f"}},
	{"dump", "DumpCmd", nil, []string{"DiskImage", "Filename"}, []string{"order=auto", "system=auto"}},
	{"nakedos mkhello", "MkHelloCmd", nil, []string{"DiskImage", "Filename"}, []string{"order=auto", "address=0x6000", "start=0xFFFF"}},
	{"mksd", "SDCmd", nil, []string{"DiskImage", "Binary"}, []string{"order=auto", "address=0x6000", "start=0xFFFF"}},
	{"applesoft decode", "DecodeCmd", nil, []string{"Filename?"}, []string{"location=0x801", "raw/r"}},
}

func sameNumber(a, b string) bool {
	var x, y int64
	na, _ := fmt.Sscanf(a, "%v", &x)
	nb, _ := fmt.Sscanf(b, "%v", &y)
	return a == b || na == 1 && nb == 1 && x == y
}

func runC19(c *Ctx) {
	c.Section("main", func(s *Sec) {
		fn := s.Fn("", "main")
		where := s.where(fn)
		var cli types.Type
		var mapper types.Type
		debug := s.Int("debug", 0, 100)
		dl := int64(0)
		runs := 0
		var facs []types.Type
		s.E.OnExtern = func(ec *ai.ExtCall) ([]ai.CallRes, bool) {
			switch {
			case strings.HasSuffix(ec.Name, "kong.NamedMapper"):
				if iv, ok := ec.Args[1].(ai.IfaceV); ok && s.E.ValEq(ec.St, ec.Args[0], ai.Lit("anybaseuint16")) == ai.True {
					mapper = iv.Dyn
				}
				return []ai.CallRes{{St: ec.St, Ret: s.E.Opaque()}}, true
			case strings.HasSuffix(ec.Name, "kong.Parse"), strings.HasSuffix(ec.Name, "kong.Must"), strings.HasSuffix(ec.Name, "kong.New"):
				iv, _ := ec.Args[0].(ai.IfaceV)
				if p, ok := iv.Dyn.(*types.Pointer); ok {
					cli = p.Elem()
					// the parser fills in the structure
					v := s.E.Named(cli, "cli")
					for _, f := range cliFields(cli) {
						if f.tag["short"] == "v" {
							v = setField(v, s.fieldPath(cli, f.field), debug)
							dl++
						}
					}
					s.E.Store(ec.St, iv.Val, v, cli, 0)
				}
				if strings.HasSuffix(ec.Name, "Parse") {
					return []ai.CallRes{{St: ec.St, Ret: s.E.Named(ec.Sig.Results().At(0).Type(), "kongctx")}}, true
				}
			case strings.Contains(ec.Name, "kong.Context).Run"):
				runs++
				for _, a := range ec.Args {
					els, ok := s.E.SliceElems(ec.St, a)
					if !ok {
						continue
					}
					for _, b := range els {
						iv, _ := b.(ai.IfaceV)
						pt, ok := iv.Dyn.(*types.Pointer)
						if !ok || pt.Elem() != s.Type("types", "Globals") {
							continue
						}
						g := s.E.Load(ec.St, iv.Val, pt.Elem())
						s.Check(dl > 0 && s.E.ValEq(ec.St, s.Field(g, pt.Elem(), "Debug"), debug) == ai.True, "registered", where, "the debug level given with -v is not handed to the command")
						fs, ok := s.E.SliceElems(ec.St, s.Field(g, pt.Elem(), "DiskOperatorFactories"))
						s.Check(ok, "registered", where, "the list of disk systems is not constant")
						for _, f := range fs {
							fv, _ := f.(ai.IfaceV)
							facs = append(facs, fv.Dyn)
						}
					}
				}
				return ec.Split(nil), true
			case strings.HasPrefix(ec.Name, "github.com/alecthomas/kong"):
				if ec.Sig.Results().Len() == 1 {
					return []ai.CallRes{{St: ec.St, Ret: s.E.Opaque()}}, true
				}
			}
			return nil, false
		}
		s.Run(fn, s.E.NewState())
		if !s.Check(cli != nil && runs > 0, "commands", where, "the command line is not handed to the parser, or no command is run") {
			return
		}
		s.commandLine(cli)
		// registered systems, in order
		known := map[string]bool{"auto": true}
		want := [][2]string{{"dos3", "do"}, {"nakedos", "raw"}, {"prodos", "po"}}
		s.Check(len(facs) == 3, "registered", where, "%d disk systems are registered, want 3", len(facs))
		for i, t := range facs {
			if t == nil || i >= 3 {
				s.Check(false, "registered", where, "disk system %d is not known", i)
				continue
			}
			n, o := s.identity(t, "factory", func(st *ai.State) (ai.Value, *ai.State) { return s.recv(st, t), st })
			known[n] = true
			s.Check(n == want[i][0] && o == want[i][1], "registered", where, "disk system %d is %s with order %s, want %s with %s", i, n, o, want[i][0], want[i][1])
			// the operators of the same package
			it := s.Type("types", "Operator").Underlying().(*types.Interface)
			made := 0
			for _, ot := range s.structTypes() {
				if ot.Obj().Pkg() != namedOf(t).Obj().Pkg() {
					continue
				}
				var rt types.Type = ot
				if !types.Implements(rt, it) {
					rt = types.NewPointer(ot)
				}
				if !types.Implements(rt, it) {
					continue
				}
				made++
				on, oo := s.identity(rt, "operator", func(st *ai.State) (ai.Value, *ai.State) { return s.recv(st, rt), st })
				s.Check(on == n && oo == o, "identity", rt.String(), "the factory is %s with order %s, its operator %s with order %s", n, o, on, oo)
			}
			s.Check(made > 0, "identity", t.String(), "no operator in the package")
		}
		s.choices(cli, known)
		s.Check(mapper != nil, "addresses", where, "no parser for 16-bit addresses is registered")
		if mapper != nil {
			s.addresses(mapper)
		}
	})
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.(*types.Named)
}

// identity is the constant name and order of a factory or operator.
func (s *Sec) identity(t types.Type, what string, recv func(*ai.State) (ai.Value, *ai.State)) (string, string) {
	var out [2]string
	for i, m := range []string{"Name", "DiskOrder"} {
		fn := s.Method(t, m)
		rv, st := recv(s.E.NewState())
		rs := s.Run(fn, st, rv)
		if s.Check(len(rs) == 1, "identity", s.where(fn), "%d outcomes", len(rs)) {
			sv, _ := rs[0].Ret.(ai.StrV)
			v, ok := rs[0].St.F.ConstStr(sv)
			s.Check(ok, "identity", s.where(fn), "the %s's answer is not constant: %s", what, ai.ValStr(rs[0].Ret))
			out[i] = v
		}
	}
	return out[0], out[1]
}

func (s *Sec) commandLine(cli types.Type) {
	gt := types.NewPointer(s.Type("types", "Globals"))
	for _, sp := range cliSpec {
		t := cli
		ok := true
		var last cliField
		for _, w := range strings.Fields(sp.path) {
			found := false
			for _, f := range cliFields(t) {
				if f.name == w && has(f.tag, "cmd") {
					t, found, last = f.typ, true, f
					break
				}
			}
			ok = ok && found
			if !found {
				break
			}
		}
		where := "command line: " + sp.path
		if p, isp := t.(*types.Pointer); isp {
			t = p.Elem()
		}
		if !s.Check(ok && types.Identical(t, s.Type("cmd", sp.typ)), "commands", where, "the command does not exist or runs something else (%s)", t) {
			continue
		}
		al := strings.FieldsFunc(last.tag["aliases"], func(r rune) bool { return r == ',' || r == ' ' })
		for _, a := range sp.alias {
			s.Check(contains(al, a), "commands", where, "alias %q is missing", a)
		}
		run := s.Method(types.NewPointer(t), "Run")
		good := true
		for i := 0; i < run.Signature.Params().Len(); i++ {
			good = good && types.Identical(run.Signature.Params().At(i).Type(), gt)
		}
		res := run.Signature.Results()
		s.Check(good && res.Len() == 1 && res.At(0).Type().String() == "error", "runnable", where, "Run wants something that main does not provide")
		var pos []string
		flags := map[string]cliField{}
		for _, f := range cliFields(t) {
			if has(f.tag, "arg") {
				n := f.field
				if has(f.tag, "optional") || has(f.tag, "default") {
					n += "?"
				}
				pos = append(pos, n)
				continue
			}
			flags[f.name] = f
		}
		s.Check(strings.Join(pos, " ") == strings.Join(sp.args, " "), "commands", where, "the arguments are %v, want %v", pos, sp.args)
		for _, fl := range sp.flags {
			n, short, _ := strings.Cut(fl, "/")
			n, def, _ := strings.Cut(n, "=")
			f, ok := flags[n]
			if !s.Check(ok, "commands", where, "flag --%s is missing", n) {
				continue
			}
			s.Check(short == "" || f.tag["short"] == short, "commands", where, "flag --%s is not also -%s", n, short)
			s.Check(sameNumber(f.tag["default"], def), "commands", where, "the default of --%s is %q, want %q", n, f.tag["default"], def)
			if b, ok := f.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uint16 {
				s.Check(f.tag["type"] == "anybaseuint16", "commands", where, "--%s does not accept hexadecimal addresses", n)
			}
		}
		for n, f := range flags {
			s.Check(!has(f.tag, "required"), "commands", where, "flag --%s is now required", n)
		}
	}
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// choices: everything offered for --order and --system is known.
func (s *Sec) choices(cli types.Type, systems map[string]bool) {
	orders := map[string]bool{"auto": true}
	st := s.E.NewState()
	for i, n := range []string{"LogicalToPhysicalByName", "PhysicalToLogicalByName"} {
		m, ok := s.E.MapOf(st, s.E.GlobalValue(st, s.Global("disk", n)))
		if !s.Check(ok, "choices", "disk."+n, "not a constant map") {
			return
		}
		for _, en := range m.Ents {
			sv, _ := en.K.(ai.StrV)
			k, _ := st.F.ConstStr(sv)
			if i == 0 {
				orders[k] = true
			}
		}
	}
	var walk func(t types.Type, path string)
	walk = func(t types.Type, path string) {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		for _, f := range cliFields(t) {
			if has(f.tag, "cmd") {
				walk(f.typ, path+" "+f.name)
				continue
			}
			set, kind := orders, "order"
			switch {
			case types.Identical(f.typ, s.Type("types", "DiskOrder")):
			case f.field == "System":
				set, kind = systems, "system"
			default:
				continue
			}
			where := "command line:" + path + " --" + f.name
			vals := strings.Split(f.tag["enum"], ",")
			for _, v := range vals {
				s.Check(set[strings.TrimSpace(v)], "choices", where, "%s %q is offered but unknown to the program", kind, v)
			}
			s.Check(contains(vals, f.tag["default"]), "choices", where, "the default %q is not among the choices", f.tag["default"])
			if kind == "order" {
				for _, o := range []string{"auto", "do", "po"} {
					s.Check(contains(vals, o), "choices", where, "order %q is not offered", o)
				}
			} else {
				s.Check(contains(vals, "auto") && contains(vals, "dos3"), "choices", where, "auto or dos3 is not offered")
				if strings.TrimSpace(path) == "ls" {
					for n := range systems {
						s.Check(contains(vals, n), "choices", where, "system %q is not offered", n)
					}
				}
			}
		}
	}
	walk(cli, "")
}

// addresses: the address parser.
func (s *Sec) addresses(t types.Type) {
	fn := s.Method(t, "Decode")
	where := s.where(fn)
	type tc struct {
		text string
		val  int64
	}
	cases := []tc{{"0", 0}, {"2049", 2049}, {"0x801", 0x801}, {"0X0801", 0x801}, {"0xFFFF", 65535}, {"0xc000", 0xc000}, {"65535", 65535}, {"0b101", 5}, {"0o17", 15},
		{"65536", -1}, {"0x10000", -1}, {"-1", -1}, {"", -1}, {"zz", -1}, {"0x", -1}, {"12x", -1}, {"1.5", -1}, {"99999999999999999999", -1}}
	for _, k := range cases {
		for _, pop := range []string{"ok", "fail"} {
			set := 0
			s.E.OnExtern = func(ec *ai.ExtCall) ([]ai.CallRes, bool) {
				switch {
				case strings.HasSuffix(ec.Name, ".PopValue"):
					rs := ec.Split([]ai.Value{s.tokenOf(ec, k.text)})
					if pop == "ok" {
						return rs[:1], true
					}
					return rs[1:], true
				case strings.HasSuffix(ec.Name, "reflect.Value).SetUint"), strings.HasSuffix(ec.Name, "reflect.Value).SetInt"), strings.HasSuffix(ec.Name, "reflect.Value).Set"):
					set++
					s.Check(pop == "ok" && k.val >= 0 && len(ec.Args) == 2 && s.E.ValEq(ec.St, ec.Args[1], num(k.val)) == ai.True, "addresses", where, "address %q is taken as %s", k.text, ai.ValStr(ec.Args[1]))
					return []ai.CallRes{{St: ec.St}}, true
				}
				return nil, false
			}
			st := s.E.NewState()
			args := []ai.Value{s.recv(st, t)}
			for i := 1; i < len(fn.Params); i++ {
				args = append(args, s.E.Named(fn.Params[i].Type(), fmt.Sprintf("arg%d", i)))
			}
			n := 0
			for _, r := range s.Run(fn, st, args...) {
				n++
				want := 1
				if pop == "fail" || k.val < 0 {
					want = 2
				}
				s.Check(s.errOf(r.St, r.Ret) == want, "addresses", where, "address %q: wrong verdict (accepted or refused)", k.text)
			}
			s.Check(n > 0 && (set > 0) == (pop == "ok" && k.val >= 0), "addresses", where, "address %q is not handed on", k.text)
		}
	}
	s.E.OnExtern = nil
}

// tokenOf is a kong token holding the text.
func (s *Sec) tokenOf(ec *ai.ExtCall, text string) ai.Value {
	t := ec.Sig.Results().At(0).Type()
	return s.StructVal(t, map[string]ai.Value{"Value": ai.IfaceV{Dyn: types.Typ[types.String], Val: ai.Lit(text), Nil: ai.False}})
}
