package ai

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded, type-checked repository.
type Program struct {
	Prog   *ssa.Program
	Pkgs   []*ssa.Package // dependency order
	Syntax map[string]*packages.Package
	ByPath map[string]*ssa.Package
	Module string
	Embeds map[string][]byte // global -> embedded content
	E      *Engine
}

// stdSource are standard-library packages whose source is analysed where no model exists.
var stdSource = []string{"slices", "maps", "cmp", "encoding/binary", "math/bits", "bytes", "strings", "unicode/utf8"}

// LoadRepo loads, type-checks and builds SSA for every package of the repository.
func LoadRepo(dir string) (*Program, error) {
	os.Setenv("GOFLAGS", "-mod=readonly -buildvcs=false")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOSUMDB", "off")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedEmbedFiles | packages.NeedModule, Dir: dir, Env: os.Environ()}
	all, err := packages.Load(cfg, append([]string{"./..."}, stdSource...)...)
	if err != nil {
		return nil, err
	}
	std := map[string]bool{}
	for _, s := range stdSource {
		std[s] = true
	}
	var pkgs []*packages.Package
	for _, p := range all {
		if !std[p.PkgPath] {
			pkgs = append(pkgs, p)
		}
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	for _, p := range pkgs {
		for _, er := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, er)
		}
	}
	prog, spkgs := ssautil.Packages(all, ssa.InstantiateGenerics)
	prog.Build()
	for i := len(all) - 1; i >= 0; i-- {
		if std[all[i].PkgPath] {
			spkgs = append(spkgs[:i], spkgs[i+1:]...)
		}
	}
	P := &Program{Prog: prog, Syntax: map[string]*packages.Package{}, ByPath: map[string]*ssa.Package{}, Embeds: map[string][]byte{}}
	by := map[*types.Package]*ssa.Package{}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		by[sp.Pkg] = sp
		P.Syntax[pkgs[i].PkgPath] = pkgs[i]
		P.ByPath[pkgs[i].PkgPath] = sp
		if pkgs[i].Module != nil {
			P.Module = pkgs[i].Module.Path
		}
	}
	done := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p] || by[p] == nil {
			return
		}
		done[p] = true
		imps := append([]*types.Package{}, p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, q := range imps {
			visit(q)
		}
		P.Pkgs = append(P.Pkgs, by[p])
	}
	for _, sp := range spkgs {
		visit(sp.Pkg)
	}
	P.loadEmbeds()
	return P, nil
}

// loadEmbeds finds //go:embed variables and the bytes they hold.
func (P *Program) loadEmbeds() {
	for path, pk := range P.Syntax {
		for _, f := range pk.Syntax {
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if !strings.HasPrefix(c.Text, "//go:embed ") {
						continue
					}
					pat := strings.TrimSpace(strings.TrimPrefix(c.Text, "//go:embed "))
					line := pk.Fset.Position(c.Pos()).Line
					fname := pk.Fset.Position(c.Pos()).Filename
					for name, m := range P.ByPath[path].Members {
						g, ok := m.(*ssa.Global)
						if !ok {
							continue
						}
						gp := pk.Fset.Position(g.Pos())
						if gp.Filename == fname && gp.Line == line+1 {
							dir := fname[:strings.LastIndex(fname, "/")]
							b, err := os.ReadFile(dir + "/" + pat)
							if err == nil {
								P.Embeds[path+"."+name] = b
							}
						}
					}
				}
			}
		}
	}
}

// NewEngine interprets package initialisation and returns a ready engine.
func (P *Program) NewEngine() (e *Engine, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = fmt.Errorf("package initialisation: %s", u.why)
				return
			}
			panic(r)
		}
	}()
	e = NewEngine(P.Prog, P.Pkgs)
	st := &State{F: &Facts{u: e.U}}
	// embedded data
	for _, p := range P.Pkgs {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			b, ok := P.Embeds[p.Pkg.Path()+"."+g.Name()]
			if !ok {
				continue
			}
			gp := e.globalPtr(g)
			t := g.Type().(*types.Pointer).Elem()
			if sl, ok := t.Underlying().(*types.Slice); ok {
				c := e.constContent(string(b), sl.Elem())
				s := e.NewBytes(st, c)
				e.objName[s.Obj] = p.Pkg.Path() + "." + g.Name()
				st.Heap = st.Heap.Set(gp.Obj, s)
			}
		}
	}
	for _, p := range P.Pkgs {
		init := p.Func("init")
		if init == nil {
			continue
		}
		rs := e.Call(init, nil, st)
		if len(rs) != 1 {
			return nil, fmt.Errorf("initialisation of %s has %d outcomes", p.Pkg.Path(), len(rs))
		}
		st = rs[0].St
	}
	st.Trace = nil
	st.Pend = nil
	st.Mut = PMap[bool]{}
	e.Init = st
	e.initObj = e.nextObj
	e.Problems = nil
	return e, nil
}

// GoVersion reports the toolchain used for loading.
func GoVersion() string {
	o, err := exec.Command("go", "version").Output()
	if err != nil {
		return "unknown"
	}
	return strings.TrimSpace(string(o))
}

// IsInitObj reports whether an object was created during package initialisation.
func (e *Engine) IsInitObj(id int) bool {
	if id <= e.initObj {
		return true
	}
	for _, g := range e.globals {
		if g == id {
			return true
		}
	}
	return false
}

// Undecided reports whether a recovered panic is the engine giving up, why,
// and whether it is for want of a bound on the work.
func Undecided(r interface{}) (why string, unbounded, ok bool) {
	if u, ok := r.(undecided); ok {
		return u.why, u.unbounded, true
	}
	return "", false, false
}

// AllFuncs lists every function of the repository with a body, including
// methods and closures.
func (P *Program) AllFuncs() []*ssa.Function {
	in := map[*ssa.Package]bool{}
	for _, p := range P.Pkgs {
		in[p] = true
	}
	var r []*ssa.Function
	for fn := range ssautil.AllFunctions(P.Prog) {
		if fn.Pkg != nil && in[fn.Pkg] && len(fn.Blocks) > 0 {
			r = append(r, fn)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}
