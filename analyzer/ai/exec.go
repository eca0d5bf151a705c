package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime/metrics"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallRes is one possible outcome of a call.
type CallRes struct {
	St  *State
	Ret Value
}

type frame struct {
	fi     *fnInfo
	rets   []*State // R = results
	rkeys  []string
	args   []Value
	defs0  int
	serial int // allocation serial at entry
}

// edgeState is a state about to enter a block (phis evaluated).
type edgeState struct {
	to *ssa.BasicBlock
	st *State
}

// Call runs fn on args from st.
func (e *Engine) Call(fn *ssa.Function, args []Value, st *State) []CallRes {
	return e.call(fn, args, nil, st, nil)
}

// inRepo reports whether fn is part of the analysed repository.
func (e *Engine) inRepo(fn *ssa.Function) bool {
	if v, ok := e.repoFn[fn]; ok {
		return v
	}
	p := fn.Package()
	for f := fn; p == nil && f != nil; f = f.Parent() {
		p = f.Package()
		if o := f.Origin(); p == nil && o != nil {
			p = o.Package()
		}
	}
	// wrappers and bound methods have no package of their own
	v := p == nil || e.isRepoPkg(p)
	if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		v = false
		for _, q := range e.Pkgs {
			v = v || q.Pkg == fn.Object().Pkg()
		}
		if fn.Synthetic != "" {
			v = true
		}
	}
	if e.repoFn == nil {
		e.repoFn = map[*ssa.Function]bool{}
	}
	e.repoFn[fn] = v
	return v
}

func hasModel(fn *ssa.Function) bool {
	_, ok := extTable[fn.String()]
	if !ok && fn.Origin() != nil {
		_, ok = extTable[fn.Origin().String()]
	}
	return ok
}

// interpretable reports whether a library function is plain Go all the way down.
func (e *Engine) interpretable(fn *ssa.Function, depth int) bool {
	if v, ok := e.plainFn[fn]; ok {
		return v
	}
	if e.plainFn == nil {
		e.plainFn = map[*ssa.Function]bool{}
	}
	e.plainFn[fn] = true // recursion
	ok := len(fn.Blocks) > 0 && depth < 12
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var ops [12]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if o == nil || *o == nil {
					continue
				}
				switch x := (*o).(type) {
				case *ssa.Global:
					if !e.isRepoPkg(x.Pkg) {
						ok = false
					}
				case *ssa.Function:
					if !e.inRepo(x) && !hasModel(x) && !e.interpretable(x, depth+1) {
						ok = false
					}
				}
				if bt, isb := (*o).Type().Underlying().(*types.Basic); isb && bt.Kind() == types.UnsafePointer {
					ok = false
				}
			}
			switch in.(type) {
			case *ssa.Go, *ssa.Select, *ssa.Send:
				ok = false
			}
		}
	}
	e.plainFn[fn] = ok
	return ok
}

func (e *Engine) call(fn *ssa.Function, args, bind []Value, st *State, site ssa.CallInstruction) []CallRes {
	if e.OnCall != nil {
		if r, ok := e.OnCall(st, fn, args); ok {
			return r
		}
	}
	if len(fn.Blocks) == 0 || !e.inRepo(fn) && (hasModel(fn) || !e.interpretable(fn, 0)) {
		return e.extern(fn, args, st, site)
	}
	depth := 0
	for _, f := range e.stack {
		if f == fn {
			depth++
		}
	}
	if depth > e.RecDepth {
		if e.recording == 0 && e.OnLoop != nil {
			e.OnLoop(fn, fn.Pos(), false, "recursion in "+fn.String()+" is not shown to be bounded")
		}
		e.problem("recursion deeper than %d in %s: results havocked", e.RecDepth, fn)
		e.havocArgs(st, args)
		return e.splitErr(st, e.Unknown(fn.Signature.Results(), "rec"), fn.Signature, "recursion")
	}
	if len(e.stack) > 60 {
		panic(undecided{why: "call stack too deep at " + fn.String(), unbounded: true})
	}
	e.Analysed[fn] = true
	fi := e.info(fn)
	if fi.irred {
		panic(undecided{why: "irreducible control flow in " + fn.String()})
	}
	e.stack = append(e.stack, fn)
	saved := st.R
	savedDefs := st.Defs
	st.R = make([]Value, fi.n)
	st.Defs = nil
	if len(args) != len(fn.Params) {
		panic(undecided{why: fmt.Sprintf("argument count for %s", fn)})
	}
	for i := range args {
		st.R[i] = args[i]
	}
	for i := range bind {
		st.R[len(args)+i] = bind[i]
	}
	fr := &frame{fi: fi, args: args, serial: e.serial}
	exits := e.region(fr, nil, fn.Blocks[0], []*State{st})
	_ = exits
	e.stack = e.stack[:len(e.stack)-1]
	var out []CallRes
	for _, r := range fr.rets {
		res := r.R
		var ret Value
		switch len(res) {
		case 0:
		case 1:
			ret = res[0]
		default:
			ret = TupleV(res)
		}
		r.R = append([]Value{}, saved...)
		r.Defs = savedDefs
		if e.OnReturn != nil && e.recording == 0 {
			e.OnReturn(fn, r, ret)
		}
		if e.TrackPending {
			e.pendReturn(fn, r, res)
		}
		out = append(out, CallRes{r, ret})
	}
	return out
}

// errIndex returns the index of a trailing error result, or -1.
func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n == 0 {
		return -1
	}
	if isErrorType(sig.Results().At(n - 1).Type()) {
		return n - 1
	}
	return -1
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (e *Engine) pendReturn(fn *ssa.Function, st *State, res []Value) {
	i := errIndex(fn.Signature)
	if i >= 0 {
		if iv, ok := res[i].(IfaceV); ok && st.F.nilOf(iv.Nil, iv.Vid) == False {
			// the failure is reported to the caller: it subsumes what went wrong inside
			var keep []Pending
			for _, p := range st.Pend {
				if p.Depth <= len(e.stack) {
					keep = append(keep, p)
				}
			}
			st.Pend = keep
			e.addPend(st, "error of "+fn.String(), fn.Pos(), fn.String())
			return
		}
	}
	if e.PendDrop != nil {
		var keep []Pending
		for _, p := range st.Pend {
			if p.Depth > len(e.stack) && e.PendDrop(fn, p) {
				continue
			}
			keep = append(keep, p)
		}
		st.Pend = keep
	}
}

func (e *Engine) addPend(st *State, desc string, pos token.Pos, callee string) {
	key := callee
	for _, p := range st.Pend {
		if p.Key == key && p.Depth == len(e.stack) {
			return
		}
	}
	st.Pend = append(st.Pend[:len(st.Pend):len(st.Pend)], Pending{Key: key, Desc: desc, Pos: pos, Depth: len(e.stack)})
	sort.Slice(st.Pend, func(i, j int) bool { return st.Pend[i].Key < st.Pend[j].Key })
}

// region executes the blocks of loop l (or the whole function), entered at
// start. Back edges to the loop header are returned as edge states to it.
func (e *Engine) region(fr *frame, l *loop, start *ssa.BasicBlock, ins []*State) []edgeState {
	fi := fr.fi
	in := map[int]*parts{}
	add := func(b *ssa.BasicBlock, st *State) {
		p := in[b.Index]
		if p == nil {
			p = &parts{}
			in[b.Index] = p
		}
		e.addPart(p, fi.live[b.Index], fi, st)
	}
	for _, s := range ins {
		add(start, s)
	}
	var out []edgeState
	outParts := map[int]*parts{}
	emit := func(es edgeState) {
		if es.st.F.Dead {
			return
		}
		if es.to == start && l != nil || !l.has(es.to) {
			p := outParts[es.to.Index]
			if p == nil {
				p = &parts{}
				outParts[es.to.Index] = p
			}
			e.addPart(p, fi.live[es.to.Index], fi, es.st)
			return
		}
		add(es.to, es.st)
	}
	for _, b := range fi.rpo {
		p := in[b.Index]
		if p == nil || len(p.sts) == 0 {
			continue
		}
		delete(in, b.Index)
		if inner := e.loopAt(fi, b, l); inner != nil {
			for _, es := range e.runLoop(fr, inner, p.sts) {
				emit(es)
			}
			continue
		}
		for _, st := range p.sts {
			e.block(fr, b, 0, st, emit)
		}
	}
	for i := range in {
		if len(in[i].sts) > 0 {
			panic(undecided{why: "unprocessed block in " + fi.fn.String()})
		}
	}
	for _, b := range fi.fn.Blocks {
		if p := outParts[b.Index]; p != nil {
			for _, s := range p.sts {
				out = append(out, edgeState{b, s})
			}
		}
	}
	return out
}

// loopAt returns the loop headed by b directly inside l.
func (e *Engine) loopAt(fi *fnInfo, b *ssa.BasicBlock, l *loop) *loop {
	for _, x := range fi.loops {
		if x.header == b && x != l {
			return x
		}
	}
	return nil
}

// goTo evaluates the phis of succ index si of b and emits the edge.
func (e *Engine) goTo(fr *frame, b *ssa.BasicBlock, si int, st *State, emit func(edgeState)) {
	s := b.Succs[si]
	// which predecessor edge (handle duplicate edges by counting)
	pi, cnt := -1, 0
	for j := 0; j < si; j++ {
		if b.Succs[j] == s {
			cnt++
		}
	}
	for j, p := range s.Preds {
		if p == b {
			if cnt == 0 {
				pi = j
				break
			}
			cnt--
		}
	}
	var vals []Value
	var idx []int
	for _, in := range s.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(fr, st, ph.Edges[pi]))
		idx = append(idx, fr.fi.num[ph])
	}
	for i := range idx {
		st.R[idx[i]] = vals[i]
	}
	emit(edgeState{s, st})
}

// maxHeap is the memory, in bytes, a run may use.
const maxHeap = 16 << 30

func (e *Engine) tick() {
	e.steps++
	if e.steps%(1<<14) == 0 {
		m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		metrics.Read(m)
		if m[0].Value.Uint64() > maxHeap {
			panic(undecided{why: fmt.Sprintf("memory limit reached in %v", e.stack), unbounded: true})
		}
	}
	if e.steps > e.StepLimit {
		panic(undecided{why: fmt.Sprintf("step limit %d reached in %v", e.StepLimit, e.stack), unbounded: true})
	}
}

// block runs instructions i.. of b.
func (e *Engine) block(fr *frame, b *ssa.BasicBlock, i int, st *State, emit func(edgeState)) {
	for ; i < len(b.Instrs); i++ {
		if st.F.Dead {
			return
		}
		e.tick()
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			e.goTo(fr, b, 0, st, emit)
			return
		case *ssa.If:
			c := Cond{Op: CB, B: nil}
			if bv, ok := e.val(fr, st, in.Cond).(BoolV); ok {
				c = bv.C
			} else {
				c = Cond{Op: CB, B: e.U.freshB("cond")}
			}
			t := st.F.Eval(c)
			e.noteTest(fr, st, b, t, in)
			switch t {
			case True:
				e.goTo(fr, b, 0, st, emit)
			case False:
				e.goTo(fr, b, 1, st, emit)
			default:
				if c.Op == CEQ || c.Op == CNE {
					e.noteEq(c.L)
				}
				o := st.clone()
				if st.F.Assume(c) {
					e.goTo(fr, b, 0, st, emit)
				}
				if o.F.Assume(c.Not()) {
					e.goTo(fr, b, 1, o, emit)
				}
			}
			return
		case *ssa.Return:
			res := make([]Value, len(in.Results))
			for k, r := range in.Results {
				res[k] = e.val(fr, st, r)
			}
			st.R = res
			e.addRet(fr, st)
			return
		case *ssa.Panic:
			e.oblige(st, in, "panic", Cond{Op: CFalse}, "explicit panic")
			return
		case *ssa.RunDefers:
			sts := []*State{st}
			for len(sts) > 0 && len(sts[0].Defs) > 0 {
				var nx []*State
				for _, s := range sts {
					d := s.Defs[len(s.Defs)-1]
					s.Defs = s.Defs[:len(s.Defs)-1]
					for _, r := range e.callValue(s, d.fn, d.args, d.call) {
						nx = append(nx, r.St)
					}
				}
				sts = nx
			}
			if len(sts) == 1 && sts[0] == st {
				continue
			}
			for _, s := range sts {
				e.block(fr, b, i+1, s, emit)
			}
			return
		case *ssa.Defer:
			f, args, ok := e.callee(fr, st, in.Common())
			if !ok {
				return
			}
			st.Defs = append(st.Defs[:len(st.Defs):len(st.Defs)], deferred{in, f, args})
		case *ssa.Go, *ssa.Send, *ssa.Select:
			panic(undecided{why: "concurrency construct in " + fr.fi.fn.String()})
		case *ssa.Call:
			f, args, ok := e.callee(fr, st, in.Common())
			if !ok {
				return
			}
			rs := e.callValue(st, f, args, in)
			n := fr.fi.num[in]
			if len(rs) == 0 {
				return
			}
			if len(rs) == 1 {
				st = rs[0].St
				st.R[n] = rs[0].Ret
				continue
			}
			for _, r := range rs {
				r.St.R[n] = r.Ret
				e.block(fr, b, i+1, r.St, emit)
			}
			return
		case *ssa.Lookup, *ssa.Next:
			outs := e.forking(fr, st, in.(ssa.Instruction))
			if len(outs) == 0 {
				return
			}
			if len(outs) == 1 {
				st = outs[0]
				continue
			}
			for _, s := range outs {
				e.block(fr, b, i+1, s, emit)
			}
			return
		case *ssa.TypeAssert:
			outs := e.typeAssert(fr, st, in)
			if len(outs) == 0 {
				return
			}
			if len(outs) == 1 {
				st = outs[0]
				continue
			}
			for _, s := range outs {
				e.block(fr, b, i+1, s, emit)
			}
			return
		default:
			if !e.instr(fr, st, b.Instrs[i]) {
				return
			}
		}
	}
}

func (e *Engine) addRet(fr *frame, st *State) {
	if st.F.Dead {
		return
	}
	res := fr.fi.fn.Signature.Results()
	key := e.retKey(st, res)
	for i, k := range fr.rkeys {
		if k == key {
			fr.rets[i] = e.join(fr.rets[i], st, nil, func(i int) types.Type { return res.At(i).Type() })
			return
		}
	}
	if len(fr.rets) >= 2*e.MaxParts {
		// force-join with one of equal error nilness if possible
		best := len(fr.rets) - 1
		for i := range fr.rkeys {
			if strings.SplitN(fr.rkeys[i], "\x00", 2)[0] == strings.SplitN(key, "\x00", 2)[0] {
				best = i
			}
		}
		fr.rets[best] = e.join(fr.rets[best], st, nil, func(i int) types.Type { return res.At(i).Type() })
		fr.rkeys[best] = e.retKey(fr.rets[best], res)
		return
	}
	fr.rets = append(fr.rets, st)
	fr.rkeys = append(fr.rkeys, key)
}

func (e *Engine) retKey(st *State, res *types.Tuple) string {
	k := ""
	for i, v := range st.R {
		if isErrorType(res.At(i).Type()) {
			k = valClass(st.F, v) + "\x00"
		}
	}
	if k == "" {
		k = "\x00"
	}
	for _, v := range st.R {
		k += valClass(st.F, v) + ","
	}
	return k + st.stateKey()
}

func (s *State) stateKey() string {
	k := ""
	if s.Trace != nil {
		k += "|t" + s.Trace.Key
	}
	for _, p := range s.Pend {
		k += "|p" + p.Key
	}
	return k
}

// val evaluates an SSA operand.
func (e *Engine) val(fr *frame, st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return FuncV{Fn: v, Nil: False}
	case *ssa.Builtin:
		return FuncV{Blt: v, Nil: False}
	case *ssa.Global:
		return e.globalPtr(v)
	}
	n, ok := fr.fi.num[v]
	if !ok {
		panic(undecided{why: "operand " + v.String()})
	}
	r := st.R[n]
	if r == nil {
		if _, isT := v.Type().(*types.Tuple); isT {
			return nil
		}
		return e.Unknown(v.Type(), "undef")
	}
	return r
}

func (e *Engine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return e.ZeroValue(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolV{constCond(constant.BoolVal(c.Value))}
	case constant.String:
		return Lit(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger == 0 {
			return TopV{c.Type()}
		}
		if i, ok := constant.Int64Val(c.Value); ok && i < Inf && i > -Inf {
			return IntV{Num(i)}
		}
		return e.Unknown(c.Type(), "bigconst")
	}
	return TopV{c.Type()}
}

func (e *Engine) set(fr *frame, st *State, v ssa.Value, x Value) bool {
	st.R[fr.fi.num[v]] = x
	return true
}

// oblige records a runtime check and assumes it afterwards.
func (e *Engine) oblige(st *State, in ssa.Instruction, kind string, c Cond, detail string) bool {
	t := st.F.Eval(c)
	if e.recording == 0 {
		e.NObl++
		if t == True {
			e.NProven++
		}
		if e.OnObligation != nil {
			d, stack, exact := detail, "", false
			if t != True {
				d, stack = detail+" ["+c.String()+"]", e.stackStr()
				if os.Getenv("DC_FACTS") != "" && strings.Contains(d, os.Getenv("DC_FACTS")) {
					for _, k := range st.F.cons {
						fmt.Fprintf(os.Stderr, "FACT %s >= 0\n", k)
						for _, t := range k.T {
							fmt.Fprintf(os.Stderr, "    %s in %v\n", t.S, st.F.symRange(t.S))
						}
					}
				}
				exact = t != False && c.Exact() && st.Clone().F.Assume(c.Not())
			}
			e.OnObligation(Obligation{Kind: kind, Instr: in, Fn: in.Parent(), Proven: t == True, Definite: t == False, Exact: exact, Detail: d, Stack: stack, St: st})
		}
	}
	if t == True {
		return true
	}
	return st.F.Assume(c)
}

// StackStr is the current call path (for progress reports).
func (e *Engine) StackStr() string { return e.stackStr() }

func (e *Engine) stackStr() string {
	var p []string
	for _, f := range e.stack {
		p = append(p, f.RelString(nil))
	}
	return strings.Join(p, " > ")
}

// callee resolves the function value and arguments of a call.
func (e *Engine) callee(fr *frame, st *State, c *ssa.CallCommon) (Value, []Value, bool) {
	var args []Value
	if c.IsInvoke() {
		recv := e.val(fr, st, c.Value)
		for _, a := range c.Args {
			args = append(args, e.val(fr, st, a))
		}
		return invokeV{recv, c.Method}, args, true
	}
	f := e.val(fr, st, c.Value)
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	return f, args, true
}

type invokeV struct {
	recv Value
	m    *types.Func
}

func (e *Engine) callValue(st *State, f Value, args []Value, site ssa.CallInstruction) []CallRes {
	rs := e.callValue0(st, f, args, site)
	if e.TrackPending && site != nil {
		// an error result returned non-nil by an external function is pending
		_ = rs
	}
	return rs
}

func (e *Engine) callValue0(st *State, f Value, args []Value, site ssa.CallInstruction) []CallRes {
	switch f := f.(type) {
	case FuncV:
		if f.Blt != nil {
			return e.builtin(st, f.Blt, args, site)
		}
		if f.Fn == nil {
			if f.Nil == True {
				e.oblige(st, site.(ssa.Instruction), "nil", Cond{Op: CFalse}, "call of nil function")
				return nil
			}
			e.problem("call of unknown function value at %s", e.Pos(site.Pos()))
			e.havocArgs(st, args)
			return []CallRes{{st, e.Unknown(resultType(site.Common().Signature()), "dyncall")}}
		}
		return e.call(f.Fn, args, f.Bind, st, site)
	case invokeV:
		return e.invoke(st, f, args, site)
	case ChoiceV:
		var out []CallRes
		for i, a := range f.Alts {
			s := st
			if i < len(f.Alts)-1 {
				s = st.clone()
			}
			out = append(out, e.callValue0(s, a, args, site)...)
		}
		return out
	}
	panic(undecided{why: fmt.Sprintf("call of %T", f)})
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (e *Engine) invoke(st *State, f invokeV, args []Value, site ssa.CallInstruction) []CallRes {
	switch r := f.recv.(type) {
	case IfaceV:
		n := st.F.nilOf(r.Nil, r.Vid)
		if n != False {
			c := Cond{Op: CFalse}
			if n == Unknown && r.Vid != 0 {
				c = Cond{Op: CNotNil, Vid: r.Vid}
			}
			if !e.oblige(st, site.(ssa.Instruction), "nil", c, "method call on nil interface") {
				return nil
			}
			r.Nil = False
		} else {
			e.oblige(st, site.(ssa.Instruction), "nil", Cond{Op: CTrue}, "method call on interface")
		}
		if r.Dyn == nil {
			return e.externInvoke(st, r, f.m, args, site)
		}
		fn := e.Prog.LookupMethod(r.Dyn, f.m.Pkg(), f.m.Name())
		if fn == nil {
			panic(undecided{why: "method " + f.m.FullName() + " not found on " + r.Dyn.String()})
		}
		return e.call(fn, append([]Value{r.Val}, args...), nil, st, site)
	case ChoiceV:
		var out []CallRes
		for i, a := range r.Alts {
			s := st
			if i < len(r.Alts)-1 {
				s = st.clone()
			}
			out = append(out, e.invoke(s, invokeV{a, f.m}, args, site)...)
		}
		return out
	}
	panic(undecided{why: fmt.Sprintf("invoke on %T", f.recv)})
}

// nilCheck obliges a pointer to be non-nil. Returns the refined pointer.
func (e *Engine) nilCheck(st *State, in ssa.Instruction, p Value, what string) bool {
	switch p := p.(type) {
	case PtrV:
		switch st.F.nilOf(p.Nil, p.Vid) {
		case False:
			return e.oblige(st, in, "nil", Cond{Op: CTrue}, what)
		case True:
			return e.oblige(st, in, "nil", Cond{Op: CFalse}, what)
		}
		if p.Vid == 0 {
			// unknown and not refinable
			if e.recording == 0 {
				e.NObl++
				if e.OnObligation != nil {
					e.OnObligation(Obligation{Kind: "nil", Instr: in, Fn: in.Parent(), Detail: what + " [may be nil]", Stack: e.stackStr(), St: st})
				}
			}
			return true
		}
		return e.oblige(st, in, "nil", Cond{Op: CNotNil, Vid: p.Vid}, what)
	case ChoiceV:
		for _, a := range p.Alts {
			if !e.nilCheck(st, in, a, what) {
				return false
			}
		}
		return true
	}
	return true
}

// instr executes a simple instruction; false ends the path.
func (e *Engine) instr(fr *frame, st *State, in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		id := e.alloc(st, e.ZeroValue(t), t, e.site(in))
		e.objName[id] = in.Comment
		return e.set(fr, st, in, PtrV{Obj: id, Nil: False})
	case *ssa.BinOp:
		return e.set(fr, st, in, e.binop(fr, st, in))
	case *ssa.UnOp:
		return e.unop(fr, st, in)
	case *ssa.ChangeType:
		return e.set(fr, st, in, e.val(fr, st, in.X))
	case *ssa.ChangeInterface:
		return e.set(fr, st, in, e.val(fr, st, in.X))
	case *ssa.Convert:
		return e.set(fr, st, in, e.convert(st, e.val(fr, st, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		panic(undecided{why: "unsupported conversion in " + fr.fi.fn.String()})
	case *ssa.MakeInterface:
		return e.set(fr, st, in, IfaceV{Dyn: in.X.Type(), Val: e.val(fr, st, in.X), Nil: False})
	case *ssa.MakeClosure:
		f := FuncV{Fn: in.Fn.(*ssa.Function), Nil: False}
		for _, b := range in.Bindings {
			f.Bind = append(f.Bind, e.val(fr, st, b))
		}
		return e.set(fr, st, in, f)
	case *ssa.MakeMap:
		m := e.newMap(MEmpty, in.Type().Underlying().(*types.Map))
		id := e.alloc(st, m, in.Type(), e.site(in))
		return e.set(fr, st, in, MapV{Obj: id, Nil: False})
	case *ssa.MakeSlice:
		elem := in.Type().Underlying().(*types.Slice).Elem()
		l, okl := e.val(fr, st, in.Len).(IntV)
		c, okc := e.val(fr, st, in.Cap).(IntV)
		if !okl || !okc {
			panic(undecided{why: "make length"})
		}
		if !e.oblige(st, in, "make", Cond{Op: CAnd, Sub: []Cond{{Op: CGE, L: l.L}, {Op: CGE, L: c.L.Sub(l.L)}}}, "make with negative length or len>cap") {
			return false
		}
		n := canon(st.F, c.L)
		id := e.alloc(st, ArrV{e.zeroContent(n, elem)}, in.Type(), e.site(in))
		return e.set(fr, st, in, SliceV{Obj: id, Off: Num(0), Len: canon(st.F, l.L), Cap: n, Nil: False})
	case *ssa.MakeChan:
		panic(undecided{why: "channel in " + fr.fi.fn.String()})
	case *ssa.Extract:
		t, ok := e.val(fr, st, in.Tuple).(TupleV)
		if !ok || in.Index >= len(t) {
			return e.set(fr, st, in, e.Unknown(in.Type(), "extract"))
		}
		return e.set(fr, st, in, t[in.Index])
	case *ssa.Field:
		switch s := e.val(fr, st, in.X).(type) {
		case StructV:
			return e.set(fr, st, in, s.F[in.Field])
		default:
			return e.set(fr, st, in, e.Unknown(in.Type(), "field"))
		}
	case *ssa.FieldAddr:
		p := e.val(fr, st, in.X)
		if !e.nilCheck(st, in, p, "field access through nil pointer") {
			return false
		}
		return e.set(fr, st, in, mapPtr(p, func(p PtrV) PtrV {
			return PtrV{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], PE{Field: in.Field}), Nil: False}
		}))
	case *ssa.Index:
		return e.index(fr, st, in)
	case *ssa.IndexAddr:
		return e.indexAddr(fr, st, in)
	case *ssa.Slice:
		return e.slice(fr, st, in)
	case *ssa.Store:
		p := e.val(fr, st, in.Addr)
		if !e.nilCheck(st, in, p, "store through nil pointer") {
			return false
		}
		e.Store(st, p, e.val(fr, st, in.Val), in.Val.Type(), in.Pos())
		return true
	case *ssa.MapUpdate:
		m := e.val(fr, st, in.Map)
		k, v := e.val(fr, st, in.Key), e.val(fr, st, in.Value)
		return e.mapUpdate(st, in, m, k, v)
	case *ssa.Range:
		return e.rangeStart(fr, st, in)
	}
	panic(undecided{why: fmt.Sprintf("instruction %T in %s", in, fr.fi.fn)})
}

func (e *Engine) site(in ssa.Instruction) string {
	return e.Pos(in.Pos())
}

func mapPtr(p Value, f func(PtrV) PtrV) Value {
	switch p := p.(type) {
	case PtrV:
		if p.Obj < 0 {
			return PtrV{Obj: -1, Nil: False}
		}
		return f(p)
	case ChoiceV:
		r := ChoiceV{}
		for _, a := range p.Alts {
			if pv, ok := a.(PtrV); ok && pv.Obj >= 0 {
				r.Alts = append(r.Alts, f(pv))
			}
		}
		if len(r.Alts) == 1 {
			return r.Alts[0]
		}
		return r
	}
	return PtrV{Obj: -1, Nil: False}
}

func (e *Engine) unop(fr *frame, st *State, in *ssa.UnOp) bool {
	x := e.val(fr, st, in.X)
	switch in.Op {
	case token.MUL:
		if !e.nilCheck(st, in, x, "nil dereference") {
			return false
		}
		return e.set(fr, st, in, e.Load(st, x, in.Type()))
	case token.NOT:
		if b, ok := x.(BoolV); ok {
			return e.set(fr, st, in, BoolV{b.C.Not()})
		}
	case token.SUB:
		if i, ok := x.(IntV); ok {
			return e.set(fr, st, in, IntV{e.wrap(st.F, i.L.Neg(), in.Type())})
		}
	case token.XOR:
		if i, ok := x.(IntV); ok {
			lo, hi, _ := intBounds(in.Type())
			if lo == 0 && hi < Inf {
				return e.set(fr, st, in, IntV{Num(hi).Sub(i.L)})
			}
			if lo < 0 {
				return e.set(fr, st, in, IntV{i.L.Neg().AddC(-1)})
			}
		}
	case token.ARROW:
		panic(undecided{why: "channel receive"})
	}
	return e.set(fr, st, in, e.Unknown(in.Type(), "unop"))
}

// wrap reduces l modulo the width of integer type t.
func (e *Engine) wrap(f *Facts, l Lin, t types.Type) Lin {
	lo, hi, ok := intBounds(t)
	if !ok {
		return l
	}
	iv := f.Range(l)
	if iv.Lo >= lo && iv.Hi <= hi {
		return l
	}
	if hi >= Inf {
		if lo == 0 {
			if f.Prove(l) {
				return l
			}
			return Of(e.U.Fresh("uwrap", 0, bigInt))
		}
		return l
	}
	if f.Prove(l.AddC(-lo)) && f.Prove(Num(hi).Sub(l)) {
		return l
	}
	if iv.Lo <= -Inf || iv.Hi >= Inf {
		// still well defined mathematically
	}
	w := hi - lo + 1
	return e.U.Mod(l.AddC(-lo), w, f).AddC(lo)
}

func (e *Engine) convert(st *State, x Value, from, to types.Type) Value {
	ut := to.Underlying()
	if b, ok := ut.(*types.Basic); ok {
		if b.Info()&types.IsInteger != 0 {
			if i, ok := x.(IntV); ok {
				return IntV{e.wrap(st.F, i.L, to)}
			}
			return e.Unknown(to, "conv")
		}
		if b.Info()&types.IsString != 0 {
			switch v := x.(type) {
			case StrV:
				return v
			case IntV:
				if c, ok := st.F.Const(v.L); ok {
					return Lit(string(rune(c)))
				}
				in := rangeOf(v.L, intrinsic{})
				if iv := st.F.Range(v.L); iv.Lo >= 0 && iv.Hi < 128 {
					return e.ByteStr(st, v.L)
				}
				s := e.U.strSym("rune:"+v.L.Key(), "string(rune "+v.L.String()+")")
				s.MinLen, s.MaxLen = 1, 4
				if in.Lo >= 0 && in.Hi < 0x800 {
					s.MaxLen = 2
				}
				return StrV{P: []Piece{{Sym: s}}}
			case SliceV:
				if isByteElem(from) {
					return e.bytesToStr(st, v)
				}
			case ChoiceV:
				return e.U.FreshStr("conv")
			}
			return e.U.FreshStr("conv")
		}
		return TopV{to}
	}
	if sl, ok := ut.(*types.Slice); ok {
		if s, ok := x.(StrV); ok {
			if lo, hi, _ := intBounds(sl.Elem()); lo == 0 && hi == 255 {
				c := e.strContent(st.F, s)
				n := e.U.StrLen(st.F.resolveStr(s))
				id := e.alloc(st, ArrV{c}, to, "string->[]byte")
				return SliceV{Obj: id, Off: Num(0), Len: n, Cap: n, Nil: False}
			}
			return e.Unknown(to, "runes")
		}
	}
	return x
}

func isByteElem(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		lo, hi, ok := intBounds(s.Elem())
		return ok && lo == 0 && hi == 255
	}
	return false
}

// bytesToStr converts a byte slice to a string value.
func (e *Engine) bytesToStr(st *State, s SliceV) Value {
	c := e.Content(st, s)
	n, okn := st.F.Const(s.Len)
	if okn && n == 0 {
		return StrV{}
	}
	if c == nil {
		return e.U.FreshStr("bytes")
	}
	return e.contentStr(st.F, c, s.Off, s.Len)
}

// contentStr is the string made of region [off,off+n) of c.
func (e *Engine) contentStr(f *Facts, c *Content, off, ln Lin) StrV {
	off, ln = canon(f, off), canon(f, ln)
	n, okn := f.Const(ln)
	if okn && n <= 0 {
		return StrV{}
	}
	if okn && n <= 4096 {
		// literal prefix / whole
		buf := make([]byte, 0, n)
		for i := int64(0); i < n; i++ {
			v, ok := e.Read(f, c, off.AddC(i)).(IntV)
			if !ok {
				break
			}
			k, isC := f.Const(v.L)
			if !isC {
				break
			}
			buf = append(buf, byte(k))
		}
		if int64(len(buf)) == n {
			return Lit(string(buf))
		}
	}
	// resolve to the base region when possible so that equal data gives equal strings
	bc, bo := c, off
	if okn && off.IsConst() {
		sg := e.Segs(c, off, n)
		if len(sg) == 1 && sg[0].Src != nil {
			bc, bo = sg[0].Src, sg[0].SrcOff
		}
	}
	if bc.Kind == KInput && bc.Str != nil && bo.IsConst() && bo.C == 0 && f.ProveEq(ln.Sub(bc.N)) {
		return *bc.Str
	}
	key := fmt.Sprintf("bytes:%d:%s:%s", bc.ID, bo.Key(), ln.Key())
	s := e.U.strSym(key, fmt.Sprintf("string(%s[%v:+%v])", contName(bc), bo, ln))
	s.Bytes, s.Off, s.BLen = bc, bo, ln
	return StrV{P: []Piece{{Sym: s}}}
}

func contName(c *Content) string {
	if c.Name != "" {
		return c.Name
	}
	return fmt.Sprintf("c%d", c.ID)
}

var byteType = types.Typ[types.Uint8]

// strContent is the byte content of a string.
func (e *Engine) strContent(f *Facts, s StrV) *Content {
	s = f.resolveStr(s)
	if l, ok := f.ConstStr(s); ok {
		return e.constContent(l, byteType)
	}
	one := func(p Piece) (*Content, Lin, Lin) {
		if p.Sym == nil {
			return e.constContent(p.Lit, byteType), Num(0), Num(int64(len(p.Lit)))
		}
		if p.Sym.Bytes != nil {
			return p.Sym.Bytes, p.Sym.Off, p.Sym.BLen
		}
		n := e.U.strSymLen(p.Sym)
		c := e.InputContent(fmt.Sprintf("str$%d", p.Sym.ID), n, byteType)
		c.Name = p.Sym.Name
		sv := StrV{P: []Piece{p}}
		c.Str = &sv
		return c, Num(0), n
	}
	if len(s.P) == 1 {
		c, off, n := one(s.P[0])
		if off.IsConst() && off.C == 0 && c.N.Eq(n) {
			return c
		}
		return e.writeCopy(f, e.zeroContent(n, byteType), Num(0), n, c, off)
	}
	total := e.U.StrLen(s)
	out := e.zeroContent(total, byteType)
	pos := Num(0)
	for _, p := range s.P {
		c, off, n := one(p)
		out = e.writeCopy(f, out, pos, n, c, off)
		pos = pos.Add(n)
	}
	return out
}

func (e *Engine) binop(fr *frame, st *State, in *ssa.BinOp) (res Value) {
	x, y := e.val(fr, st, in.X), e.val(fr, st, in.Y)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(overflow); ok {
				res = e.Unknown(in.Type(), "ovf")
				return
			}
			panic(r)
		}
	}()
	switch in.Op {
	case token.EQL:
		return BoolV{e.eqCond(st.F, x, y)}
	case token.NEQ:
		return BoolV{e.eqCond(st.F, x, y).Not()}
	}
	if a, ok := x.(IntV); ok {
		if b, ok := y.(IntV); ok {
			switch in.Op {
			case token.LSS:
				return BoolV{geCond(b.L.Sub(a.L).AddC(-1))}
			case token.LEQ:
				return BoolV{geCond(b.L.Sub(a.L))}
			case token.GTR:
				return BoolV{geCond(a.L.Sub(b.L).AddC(-1))}
			case token.GEQ:
				return BoolV{geCond(a.L.Sub(b.L))}
			}
			if in.Op == token.QUO || in.Op == token.REM {
				if !e.oblige(st, in, "div", Cond{Op: CNE, L: b.L}, "division by zero") {
					return e.Unknown(in.Type(), "div0")
				}
			}
			if in.Op == token.SHL || in.Op == token.SHR {
				if !e.oblige(st, in, "shift", Cond{Op: CGE, L: b.L}, "negative shift count") {
					return e.Unknown(in.Type(), "shift")
				}
			}
			return IntV{e.arith(st.F, in.Op, a.L, b.L, in.Type())}
		}
	}
	if a, ok := x.(StrV); ok {
		if b, ok := y.(StrV); ok {
			if in.Op == token.ADD {
				return concat(st.F.resolveStr(a), st.F.resolveStr(b))
			}
			ca, oka := st.F.ConstStr(a)
			cb, okb := st.F.ConstStr(b)
			if oka && okb {
				switch in.Op {
				case token.LSS:
					return BoolV{constCond(ca < cb)}
				case token.LEQ:
					return BoolV{constCond(ca <= cb)}
				case token.GTR:
					return BoolV{constCond(ca > cb)}
				case token.GEQ:
					return BoolV{constCond(ca >= cb)}
				}
			}
			return BoolV{Cond{Op: CB, B: e.U.freshB("strcmp")}}
		}
	}
	return e.Unknown(in.Type(), "binop")
}

func geCond(l Lin) Cond {
	if l.IsConst() {
		return constCond(l.C >= 0)
	}
	return Cond{Op: CGE, L: l}
}

func (e *Engine) arith(f *Facts, op token.Token, a, b Lin, t types.Type) Lin {
	u := e.U
	a, b = canon(f, a), canon(f, b)
	fresh := func() Lin {
		lo, hi, _ := inputBounds(t)
		return Of(u.Fresh("arith", lo, hi))
	}
	nonneg := func(l Lin) bool { return f.Prove(l) }
	switch op {
	case token.ADD:
		return e.wrap(f, a.Add(b), t)
	case token.SUB:
		return e.wrap(f, a.Sub(b), t)
	case token.MUL:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			return e.wrap(f, a.Scale(b.C), t)
		}
		if a.Key() > b.Key() {
			a, b = b, a
		}
		ra, rb := f.Range(a), f.Range(b)
		lo, hi := int64(-Inf), int64(Inf)
		if ra.Lo >= 0 && rb.Lo >= 0 {
			lo = satMul(ra.Lo, rb.Lo)
			hi = satMul(ra.Hi, rb.Hi)
		}
		ia, ib := rangeOf(a, intrinsic{}), rangeOf(b, intrinsic{})
		slo, shi := int64(-Inf), int64(Inf)
		if ia.Lo >= 0 && ib.Lo >= 0 {
			slo, shi = satMul(ia.Lo, ib.Lo), satMul(ia.Hi, ib.Hi)
		}
		p := u.Opaque2(SymMul, "mul", a, b, slo, shi)
		if lo > -Inf {
			f.AssumeGE(p.AddC(-lo))
		}
		if hi < Inf {
			f.AssumeGE(Num(hi).Sub(p))
		}
		return e.wrap(f, p, t)
	case token.QUO, token.REM:
		if b.IsConst() && b.C > 0 {
			var q Lin
			if nonneg(a) {
				q = u.Div(a, b.C, f)
			} else if a.IsConst() {
				q = Num(a.C / b.C)
			} else if nonneg(a.Neg()) {
				q = u.Div(a.Neg(), b.C, f).Neg()
			} else {
				if op == token.REM {
					r := Of(u.Fresh("rem", -(b.C - 1), b.C-1))
					return r
				}
				iv := f.Range(a)
				lo, hi := iv.Lo, iv.Hi
				if lo > -Inf {
					lo = lo / b.C
				}
				if hi < Inf {
					hi = hi / b.C
				}
				return Of(u.Fresh("quo", lo, hi))
			}
			if op == token.QUO {
				return q
			}
			return a.addMul(-b.C, q)
		}
		if a.IsConst() && b.IsConst() && b.C != 0 {
			if op == token.QUO {
				return Num(a.C / b.C)
			}
			return Num(a.C % b.C)
		}
		return fresh()
	case token.SHL:
		if b.IsConst() {
			if b.C >= 62 {
				return fresh()
			}
			return e.wrap(f, a.Scale(int64(1)<<uint(b.C)), t)
		}
		if a.IsConst() && a.C == 0 {
			return a
		}
		rb := f.Range(b)
		ra := f.Range(a)
		if rb.Lo >= 0 && rb.Hi < 32 && ra.Lo >= 0 && ra.Hi < 1<<24 {
			s := u.Opaque2(SymShl, "shl", a, b, 0, Inf)
			f.AssumeGE(s.AddC(-(ra.Lo << uint(rb.Lo))))
			f.AssumeGE(Num(ra.Hi << uint(rb.Hi)).Sub(s))
			return e.wrap(f, s, t)
		}
		return fresh()
	case token.SHR:
		if b.IsConst() {
			if b.C >= 62 {
				if nonneg(a) {
					return Num(0)
				}
				return fresh()
			}
			return u.Div(a, int64(1)<<uint(b.C), f)
		}
		ra, rb := f.Range(a), f.Range(b)
		if ra.Lo >= 0 && rb.Lo >= 0 {
			s := u.Opaque2(SymShr, "shr", a, b, 0, Inf)
			if ra.Hi < Inf {
				h := ra.Hi
				if rb.Lo < 62 {
					h >>= uint(rb.Lo)
				} else {
					h = 0
				}
				f.AssumeGE(Num(h).Sub(s))
			}
			return s
		}
		return fresh()
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if !nonneg(a) || !nonneg(b) {
			if a.IsConst() && b.IsConst() {
				switch op {
				case token.AND:
					return Num(a.C & b.C)
				case token.OR:
					return Num(a.C | b.C)
				case token.XOR:
					return Num(a.C ^ b.C)
				}
				return Num(a.C &^ b.C)
			}
			if op == token.AND && a.IsConst() {
				a, b = b, a
			}
			if op == token.AND && b.IsConst() && b.C >= 0 {
				// x & mask for a two's complement x is still floor arithmetic
				return u.AndC(a, b.C, f)
			}
			return fresh()
		}
		if !a.IsConst() && !b.IsConst() {
			// keep symbols of bitwise expressions well-founded by ranges
			a, b = canon(f, a), canon(f, b)
		}
		c := u.And(a, b, f)
		switch op {
		case token.AND:
			return c
		case token.OR:
			return a.Add(b).Sub(c)
		case token.XOR:
			return a.Add(b).addMul(-2, c)
		default:
			return a.Sub(c)
		}
	}
	return fresh()
}

// ---- indexing and slicing

// strIndexVal reads byte i of string s.
func (e *Engine) strIndexVal(f *Facts, s StrV, i Lin) Value {
	s = f.resolveStr(s)
	if l, ok := f.ConstStr(s); ok {
		if c, okc := f.Const(i); okc && c >= 0 && c < int64(len(l)) {
			return IntV{Num(int64(l[c]))}
		}
	}
	return e.Read(f, e.strContent(f, s), i)
}

func (e *Engine) inBounds(st *State, in ssa.Instruction, i, n Lin, what string) bool {
	c := Cond{Op: CAnd, Sub: []Cond{geCond(i), geCond(n.Sub(i).AddC(-1))}}
	return e.oblige(st, in, "index", c, what)
}

func (e *Engine) index(fr *frame, st *State, in *ssa.Index) bool {
	x := e.val(fr, st, in.X)
	i, ok := e.val(fr, st, in.Index).(IntV)
	if !ok {
		panic(undecided{why: "index"})
	}
	switch v := x.(type) {
	case ArrV:
		n := in.X.Type().Underlying().(*types.Array).Len()
		if !e.inBounds(st, in, i.L, Num(n), "array index out of range") {
			return false
		}
		return e.set(fr, st, in, e.Read(st.F, v.C, i.L))
	case StrV:
		if !e.inBounds(st, in, i.L, e.U.StrLen(st.F.resolveStr(v)), "string index out of range") {
			return false
		}
		return e.set(fr, st, in, e.strIndexVal(st.F, v, i.L))
	}
	return e.set(fr, st, in, e.Unknown(in.Type(), "index"))
}

func (e *Engine) indexAddr(fr *frame, st *State, in *ssa.IndexAddr) bool {
	x := e.val(fr, st, in.X)
	i, ok := e.val(fr, st, in.Index).(IntV)
	if !ok {
		panic(undecided{why: "index"})
	}
	one := func(x Value) (Value, bool) {
		switch v := x.(type) {
		case SliceV:
			if !e.inBounds(st, in, i.L, v.Len, "slice index out of range") {
				return nil, false
			}
			if v.Obj < 0 {
				return PtrV{Obj: -1, Nil: False}, true
			}
			return PtrV{Obj: v.Obj, Path: append(v.Path[:len(v.Path):len(v.Path)], PE{Field: -1, Idx: canon(st.F, v.Off.Add(i.L))}), Nil: False}, true
		case PtrV:
			if !e.nilCheck(st, in, v, "index through nil array pointer") {
				return nil, false
			}
			n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			if !e.inBounds(st, in, i.L, Num(n), "array index out of range") {
				return nil, false
			}
			if v.Obj < 0 {
				return v, true
			}
			return PtrV{Obj: v.Obj, Path: append(v.Path[:len(v.Path):len(v.Path)], PE{Field: -1, Idx: canon(st.F, i.L)}), Nil: False}, true
		}
		return PtrV{Obj: -1, Nil: False}, true
	}
	if c, ok := x.(ChoiceV); ok {
		r := ChoiceV{}
		for _, a := range c.Alts {
			p, ok := one(a)
			if !ok {
				continue
			}
			r.Alts = append(r.Alts, p)
		}
		return e.set(fr, st, in, r)
	}
	p, ok := one(x)
	if !ok {
		return false
	}
	return e.set(fr, st, in, p)
}

func (e *Engine) slice(fr *frame, st *State, in *ssa.Slice) bool {
	x := e.val(fr, st, in.X)
	get := func(v ssa.Value, d Lin) Lin {
		if v == nil {
			return d
		}
		if i, ok := e.val(fr, st, v).(IntV); ok {
			return canon(st.F, i.L)
		}
		panic(undecided{why: "slice bound"})
	}
	check := func(lo, hi, max, lim Lin) bool {
		return e.oblige(st, in, "slice", Cond{Op: CAnd, Sub: []Cond{geCond(lo), geCond(hi.Sub(lo)), geCond(max.Sub(hi)), geCond(lim.Sub(max))}}, "slice bounds out of range")
	}
	one := func(x Value) (Value, bool) {
		switch v := x.(type) {
		case StrV:
			v = st.F.resolveStr(v)
			n := e.U.StrLen(v)
			lo, hi := get(in.Low, Num(0)), get(in.High, n)
			if !check(lo, hi, hi, n) {
				return nil, false
			}
			return e.substr(st.F, v, lo, hi), true
		case SliceV:
			lo, hi := get(in.Low, Num(0)), get(in.High, v.Len)
			max := get(in.Max, v.Cap)
			top := max
			if in.Max == nil && st.F.Prove(v.Len.Sub(hi)) {
				top = hi // within the length, and so within the capacity
			}
			if !check(lo, hi, top, v.Cap.Sub(max).Add(top)) {
				return nil, false
			}
			// re-slicing beyond the length exposes bytes that were not part of the value
			if in.High != nil && e.OnBeyond != nil && e.recording == 0 && !st.F.Prove(v.Len.Sub(hi)) {
				e.OnBeyond(in, st)
			}
			r := v
			r.Off, r.Len, r.Cap = canon(st.F, v.Off.Add(lo)), canon(st.F, hi.Sub(lo)), canon(st.F, max.Sub(lo))
			return r, true
		case PtrV:
			if !e.nilCheck(st, in, v, "slice of nil array pointer") {
				return nil, false
			}
			n := Num(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			lo, hi := get(in.Low, Num(0)), get(in.High, n)
			max := get(in.Max, n)
			if !check(lo, hi, max, n) {
				return nil, false
			}
			return SliceV{Obj: v.Obj, Path: v.Path, Off: lo, Len: canon(st.F, hi.Sub(lo)), Cap: canon(st.F, max.Sub(lo)), Nil: False}, true
		}
		return e.Unknown(in.Type(), "slice"), true
	}
	if c, ok := x.(ChoiceV); ok {
		r := ChoiceV{}
		for _, a := range c.Alts {
			p, ok := one(a)
			if ok {
				r.Alts = append(r.Alts, p)
			}
		}
		return e.set(fr, st, in, r)
	}
	p, ok := one(x)
	if !ok {
		return false
	}
	return e.set(fr, st, in, p)
}

// substr is v[lo:hi].
func (e *Engine) substr(f *Facts, v StrV, lo, hi Lin) StrV {
	n := e.U.StrLen(v)
	if lo.IsConst() && lo.C == 0 && hi.Eq(n) {
		return v
	}
	// literal prefix handling
	if lo.IsConst() {
		k := lo.C
		p := append([]Piece{}, v.P...)
		for len(p) > 0 && k > 0 && p[0].Sym == nil {
			m := int64(len(p[0].Lit))
			if m <= k {
				k -= m
				p = p[1:]
			} else {
				p[0].Lit = p[0].Lit[k:]
				k = 0
			}
		}
		if k == 0 {
			rest := StrV{P: p}
			rh := hi.AddC(-lo.C)
			if rh.Eq(e.U.StrLen(rest)) {
				return rest
			}
			// literal up to hi
			if rh.IsConst() && len(p) > 0 && p[0].Sym == nil && rh.C <= int64(len(p[0].Lit)) {
				return Lit(p[0].Lit[:rh.C])
			}
			// drop literal suffix
			if d := e.U.StrLen(rest).Sub(rh); d.IsConst() && d.C > 0 && len(p) > 0 {
				l := p[len(p)-1]
				if l.Sym == nil && int64(len(l.Lit)) >= d.C {
					return dropLitEnd(rest, int(d.C))
				}
			}
		}
	}
	return e.contentStr(f, e.strContent(f, v), lo, hi.Sub(lo))
}

// ---- maps

func (e *Engine) mapUpdate(st *State, in *ssa.MapUpdate, m, k, v Value) bool {
	mv, ok := m.(MapV)
	if !ok {
		if c, isC := m.(ChoiceV); isC {
			for _, a := range c.Alts {
				if am, ok := a.(MapV); ok && am.Obj >= 0 {
					mc, _ := e.obj(st, am.Obj).(*MapC)
					if mc != nil {
						st.Heap = st.Heap.Set(am.Obj, e.newMap(MUnknown, mc.T))
					}
				}
			}
			return true
		}
		panic(undecided{why: "map update"})
	}
	if mv.Nil != False {
		c := Cond{Op: CFalse}
		if mv.Nil == Unknown {
			c = Cond{Op: CB, B: e.U.freshB("mapnil")}
		}
		if !e.oblige(st, in, "nil", c, "assignment to entry in nil map") {
			return false
		}
	}
	mc, _ := e.obj(st, mv.Obj).(*MapC)
	if mc == nil {
		panic(undecided{why: "map object"})
	}
	e.noteStore(st, mv.Obj, nil, Num(0), Num(1), in.Pos())
	if _, pres := e.mapGet(st.F, mc, k); pres == False {
		if n, _ := st.FI.Get(mv.Obj); n >= 0 {
			st.FI = st.FI.Set(mv.Obj, n+1)
		}
	}
	st.Heap = st.Heap.Set(mv.Obj, e.mapSet(st.F, mc, k, v))
	return true
}

// forking executes instructions that may split the state.
func (e *Engine) forking(fr *frame, st *State, in ssa.Instruction) []*State {
	switch in := in.(type) {
	case *ssa.Lookup:
		x := e.val(fr, st, in.X)
		k := e.val(fr, st, in.Index)
		if s, ok := x.(StrV); ok {
			i, ok := k.(IntV)
			if !ok {
				panic(undecided{why: "string index"})
			}
			if !e.inBounds(st, in, i.L, e.U.StrLen(st.F.resolveStr(s)), "string index out of range") {
				return nil
			}
			e.set(fr, st, in, e.strIndexVal(st.F, s, i.L))
			return []*State{st}
		}
		elem := in.X.Type().Underlying().(*types.Map).Elem()
		put := func(s *State, v Value, present Value) {
			if in.CommaOk {
				e.set(fr, s, in, TupleV{v, present})
			} else {
				e.set(fr, s, in, v)
			}
		}
		yes, no := BoolV{Cond{Op: CTrue}}, BoolV{Cond{Op: CFalse}}
		mv, ok := x.(MapV)
		if !ok {
			put(st, e.Unknown(elem, "lookup"), BoolV{Cond{Op: CB, B: e.U.freshB("ok")}})
			return []*State{st}
		}
		if mv.Obj < 0 {
			put(st, e.ZeroValue(elem), no)
			return []*State{st}
		}
		mc, _ := e.obj(st, mv.Obj).(*MapC)
		if mc == nil {
			panic(undecided{why: "map object"})
		}
		vals, pres := e.mapGet(st.F, mc, k)
		if pres == True && len(vals) == 1 {
			put(st, vals[0], yes)
			return []*State{st}
		}
		if pres == False {
			put(st, e.ZeroValue(elem), no)
			return []*State{st}
		}
		// constant map looked up with an unknown key: split per entry when small
		if mc.Base == MEmpty && len(vals) <= 24 {
			var outs []*State
			rest := st.clone()
			for _, en := range mc.Ents {
				if en.Del {
					continue
				}
				c := e.eqCond(st.F, en.K, k)
				if st.F.Eval(c) == False {
					continue
				}
				s := rest.clone()
				if s.F.Assume(c) {
					vs, p := e.mapGet(s.F, mc, en.K)
					if p == True && len(vs) == 1 {
						put(s, vs[0], yes)
						outs = append(outs, s)
					} else {
						put(s, e.Unknown(elem, "lookup"), yes)
						outs = append(outs, s)
					}
				}
				if !rest.F.Assume(c.Not()) {
					break
				}
			}
			if !rest.F.Dead {
				put(rest, e.ZeroValue(elem), no)
				st2 := rest
				st2.Heap = st2.Heap.Set(mv.Obj, e.mapAbsent(mc, k))
				outs = append(outs, st2)
			}
			return e.mergeForks(fr, outs, in)
		}
		o := st.clone()
		var v Value
		if len(vals) == 1 {
			v = vals[0]
		} else {
			g := e.generalize(st.F, vals[0], elem)
			for _, x := range vals[1:] {
				g = e.joinGen(g, e.generalize(st.F, x, elem), elem)
			}
			v = e.instantiate(st.F, g, elem)
		}
		put(st, v, yes)
		st.Heap = st.Heap.Set(mv.Obj, e.mapSet(st.F, mc, k, v))
		put(o, e.ZeroValue(elem), no)
		o.Heap = o.Heap.Set(mv.Obj, e.mapAbsent(mc, k))
		return []*State{st, o}
	case *ssa.Next:
		return e.rangeNext(fr, st, in)
	}
	panic("forking")
}

// mergeForks joins the outcomes with equal result class to keep the fan-out small.
func (e *Engine) mergeForks(fr *frame, outs []*State, in *ssa.Lookup) []*State {
	return outs
}

// mapAbsent records that k is absent.
func (e *Engine) mapAbsent(m *MapC, k Value) *MapC {
	r := e.newMap(m.Base, m.T)
	r.KSum, r.VSum = m.KSum, m.VSum
	r.Ents = append(m.Ents[:len(m.Ents):len(m.Ents)], MapEnt{K: k, Del: true})
	r.allC = false
	return r
}

func (e *Engine) rangeStart(fr *frame, st *State, in *ssa.Range) bool {
	x := e.val(fr, st, in.X)
	r := RangeV{X: x, Rid: e.U.Vid()}
	switch v := x.(type) {
	case StrV:
		r.Str = st.F.resolveStr(v)
		if _, ok := st.F.ConstStr(r.Str); !ok {
			r.Sum = true
		}
	case MapV:
		if v.Obj < 0 {
			r.Map = e.newMap(MEmpty, in.X.Type().Underlying().(*types.Map))
		} else {
			r.Map, _ = e.obj(st, v.Obj).(*MapC)
		}
		if r.Map == nil || r.Map.Base != MEmpty || !r.Map.allC {
			r.Sum = true
		}
		for _, en := range r.Map.Ents {
			if en.Del {
				r.Sum = true
			}
		}
	default:
		r.Sum = true
	}
	return e.set(fr, st, in, r)
}

func (e *Engine) rangeNext(fr *frame, st *State, in *ssa.Next) []*State {
	r, ok := e.val(fr, st, in.Iter).(RangeV)
	if !ok {
		panic(undecided{why: "range iterator"})
	}
	tt := in.Type().(*types.Tuple)
	yes, no := BoolV{Cond{Op: CTrue}}, BoolV{Cond{Op: CFalse}}
	it := fr.fi.num[in.Iter]
	zero := func(i int) Value {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return IntV{Num(0)}
		}
		return e.ZeroValue(tt.At(i).Type())
	}
	if !r.Sum {
		if in.IsString {
			s, _ := st.F.ConstStr(r.Str)
			if r.I >= len(s) {
				e.set(fr, st, in, TupleV{no, IntV{Num(0)}, IntV{Num(0)}})
				return []*State{st}
			}
			for i, c := range s[r.I:] {
				if i == 0 {
					w := len(string(c))
					if c == 0xFFFD {
						w = 1
						if strings.HasPrefix(s[r.I:], "\uFFFD") {
							w = 3
						}
					}
					e.set(fr, st, in, TupleV{yes, IntV{Num(int64(r.I))}, IntV{Num(int64(c))}})
					r.I += w
					st.R[it] = r
				}
				break
			}
			return []*State{st}
		}
		if r.I >= len(r.Map.Ents) {
			e.set(fr, st, in, TupleV{no, zero(1), zero(2)})
			return []*State{st}
		}
		en := r.Map.Ents[r.I]
		r.I++
		st.R[it] = r
		e.set(fr, st, in, TupleV{yes, en.K, en.V})
		return []*State{st}
	}
	o := st.clone()
	e.set(fr, o, in, TupleV{no, zero(1), zero(2)})
	if in.IsString {
		n := e.U.StrLen(r.Str)
		if k, ok := st.F.Const(n); ok && k == 0 {
			return []*State{o}
		}
		// next byte position: strictly increasing, below the length
		pos := e.U.Fresh("strpos", 0, 1<<40)
		st.F.AssumeGE(n.Sub(Of(pos)).AddC(-1))
		rn := e.U.Fresh("rune", 0, 0x10FFFF)
		e.set(fr, st, in, TupleV{yes, IntV{Of(pos)}, IntV{Of(rn)}})
		if st.F.Dead {
			return []*State{o}
		}
		return []*State{st, o}
	}
	mt, _ := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	var k, v Value
	if r.Map != nil && r.Map.Base != MUnknown {
		var gk, gv Value
		for _, en := range r.Map.Ents {
			if en.Del {
				continue
			}
			x, y := e.generalize(st.F, en.K, mt.Key()), e.generalize(st.F, en.V, mt.Elem())
			if gk == nil {
				gk, gv = x, y
			} else {
				gk, gv = e.joinGen(gk, x, mt.Key()), e.joinGen(gv, y, mt.Elem())
			}
		}
		if r.Map.KSum != nil {
			if gk == nil {
				gk, gv = r.Map.KSum, r.Map.VSum
			} else {
				gk, gv = e.joinGen(gk, r.Map.KSum, mt.Key()), e.joinGen(gv, r.Map.VSum, mt.Elem())
			}
		}
		if gk == nil {
			return []*State{o}
		}
		k, v = e.instantiate(st.F, gk, mt.Key()), e.instantiate(st.F, gv, mt.Elem())
	} else {
		k, v = e.Unknown(mt.Key(), "key"), e.Unknown(mt.Elem(), "val")
	}
	e.set(fr, st, in, TupleV{yes, k, v})
	return []*State{st, o}
}

func (e *Engine) typeAssert(fr *frame, st *State, in *ssa.TypeAssert) []*State {
	x := e.val(fr, st, in.X)
	yes, no := BoolV{Cond{Op: CTrue}}, BoolV{Cond{Op: CFalse}}
	isIface := types.IsInterface(in.AssertedType)
	put := func(s *State, v Value, ok bool) *State {
		if in.CommaOk {
			b := no
			if ok {
				b = yes
			}
			e.set(fr, s, in, TupleV{v, b})
		} else {
			e.set(fr, s, in, v)
		}
		return s
	}
	if c, ok := x.(ChoiceV); ok {
		_ = c
		x = IfaceV{Nil: Unknown, Vid: e.U.Vid()}
	}
	v, ok := x.(IfaceV)
	if !ok {
		panic(undecided{why: fmt.Sprintf("type assertion on %T", x)})
	}
	n := st.F.nilOf(v.Nil, v.Vid)
	if n == False && v.Dyn != nil {
		match := false
		if isIface {
			match = types.Implements(v.Dyn, in.AssertedType.Underlying().(*types.Interface))
		} else {
			match = types.Identical(v.Dyn, in.AssertedType)
		}
		if match {
			if isIface {
				return []*State{put(st, v, true)}
			}
			return []*State{put(st, v.Val, true)}
		}
	}
	if n == True || (n == False && v.Dyn != nil) {
		if in.CommaOk {
			return []*State{put(st, e.ZeroValue(in.AssertedType), false)}
		}
		e.oblige(st, in, "assert", Cond{Op: CFalse}, "type assertion fails")
		return nil
	}
	// unknown
	var got Value
	if isIface {
		g := v
		g.Nil = False
		got = g
	} else {
		got = e.keyedUnknown(fmt.Sprintf("assert:%d:%s", v.Vid, in.AssertedType), "assert", in.AssertedType, nil, Lin{})
	}
	b := Cond{Op: CB, B: e.U.bsym(fmt.Sprintf("isa:%d:%s", v.Vid, in.AssertedType), "isa")}
	if v.Vid == 0 {
		b = Cond{Op: CB, B: e.U.freshB("isa")}
	}
	if !in.CommaOk {
		if !e.oblige(st, in, "assert", b, "type assertion may fail") {
			return nil
		}
		return []*State{put(st, got, true)}
	}
	o := st.clone()
	var outs []*State
	if st.F.Assume(b) && (v.Vid == 0 || st.F.Assume(Cond{Op: CNotNil, Vid: v.Vid})) {
		outs = append(outs, put(st, got, true))
	}
	if o.F.Assume(b.Not()) {
		outs = append(outs, put(o, e.ZeroValue(in.AssertedType), false))
	}
	return outs
}
