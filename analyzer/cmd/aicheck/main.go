// Command aicheck compares the analyser with real executions of the functions in toy/lib: what it says of a function
// must allow what the function does. It tests the analyser, not the repository.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"sort"

	"diskcheck/ai"
)

type Case struct {
	Fn       string
	Dst, Src []int
	N, K     int
	OutDst   []int
	OutSrc   []int
	R        int
	B        bool
}

var dump = flag.Bool("dump", false, "show the states")

func main() {
	dir := flag.String("dir", "toy", "the toy module")
	only := flag.String("only", "", "one function")
	flag.Parse()
	cmd := exec.Command("go", "run", ".")
	cmd.Dir = *dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var cases []Case
	if err := json.Unmarshal(b, &cases); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	by := map[string][]Case{}
	var names []string
	for _, c := range cases {
		if by[c.Fn] == nil {
			names = append(names, c.Fn)
		}
		by[c.Fn] = append(by[c.Fn], c)
	}
	sort.Strings(names)
	P, err := ai.LoadRepo(*dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	bad := 0
	for _, n := range names {
		if *only != "" && n != *only {
			continue
		}
		bad += run(P, n, by[n])
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func run(P *ai.Program, name string, cs []Case) (bad int) {
	defer func() {
		if r := recover(); r != nil {
			w, _, ok := ai.Undecided(r)
			if !ok {
				panic(r)
			}
			fmt.Printf("%-14s undecided: %s\n", name, w)
		}
	}()
	e, err := P.NewEngine()
	if err != nil {
		fmt.Println(name, err)
		return 1
	}
	fn := P.ByPath["toy/lib"].Func(name)
	st := e.NewState()
	sym := func(n string, lo, hi int64) ai.Lin { return ai.Of(e.U.Input(n, lo, hi)) }
	ld, ls, n, k := sym("ld", 0, 8), sym("ls", 0, 8), sym("n", 0, 8), sym("k", -3, 10)
	dc, sc := e.InputContent("dst", ld, types.Typ[types.Uint8]), e.InputContent("src", ls, types.Typ[types.Uint8])
	d, s := e.NewBytes(st, dc), e.NewBytes(st, sc)
	res := e.Call(fn, []ai.Value{d, s, ai.IntV{L: n}, ai.IntV{L: k}}, st)
	exact, vague := 0, 0
	if *dump {
		for _, r := range res {
			fmt.Printf("  %s\n  state: returns %s, dst %s, src %s\n", r.St.F, ai.ValStr(r.Ret), e.Content(r.St, d).Dump(6), e.Content(r.St, s).Dump(6))
		}
	}
	why := ""
	for _, c := range cs {
		ok, full := false, true
		notes := ""
		alive := 0
		for _, r := range res {
			st := r.St.Clone()
			f := st.F
			pin := func(l ai.Lin, v int) bool { return f.AssumeEQ(l.AddC(-int64(v))) }
			live := pin(ld, len(c.Dst)) && pin(ls, len(c.Src)) && pin(n, c.N) && pin(k, c.K)
			for i := 0; live && i < len(c.Dst); i++ {
				live = pin(e.Read(f, dc, ai.Num(int64(i))).(ai.IntV).L, c.Dst[i])
			}
			for i := 0; live && i < len(c.Src); i++ {
				live = pin(e.Read(f, sc, ai.Num(int64(i))).(ai.IntV).L, c.Src[i])
			}
			if !live || f.Dead {
				continue
			}
			alive++
			good, exactHere := true, true
			eq := func(what string, v ai.Value, want int) {
				l, isInt := v.(ai.IntV)
				if !isInt {
					exactHere = false
					notes += fmt.Sprintf(" %s is %s", what, ai.ValStr(v))
					return
				}
				if x, ok := f.Const(l.L); ok {
					if x != int64(want) {
						good = false
						notes += fmt.Sprintf(" %s is %d, want %d", what, x, want)
					}
					return
				}
				exactHere = false
				notes += fmt.Sprintf(" %s is %s, want %d", what, l.L, want)
				if !st.Clone().F.AssumeEQ(l.L.AddC(-int64(want))) {
					good = false
					notes += "!"
				}
			}
			t := r.Ret.(ai.TupleV)
			eq("result", t[0], c.R)
			switch f.Eval(t[1].(ai.BoolV).C) {
			case ai.True:
				good = good && c.B
			case ai.False:
				good = good && !c.B
			default:
				exactHere = false
				notes += " bool"
			}
			for i := range c.OutDst {
				eq(fmt.Sprintf("dst[%d]", i), e.Read(f, e.Content(st, d), d.Off.AddC(int64(i))), c.OutDst[i])
			}
			for i := range c.OutSrc {
				eq(fmt.Sprintf("src[%d]", i), e.Read(f, e.Content(st, s), s.Off.AddC(int64(i))), c.OutSrc[i])
			}
			ok = ok || good
			full = full && exactHere && good
		}
		if !ok {
			fmt.Printf("%-14s UNSOUND (%d states, %d possible): %+v:%s\n", name, len(res), alive, c, notes)
			return 1
		}
		if full && alive > 0 {
			exact++
		} else {
			vague++
			if why == "" {
				why = fmt.Sprintf("dst=%v src=%v n=%d k=%d:%s", c.Dst, c.Src, c.N, c.K, notes)
			}
		}
	}
	if len(why) > 200 {
		why = why[:200]
	}
	fmt.Printf("%-14s sound, %d states, exact %d/%d %s\n", name, len(res), exact, exact+vague, why)
	return 0
}
