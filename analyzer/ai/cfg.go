package ai

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// fnInfo is per-function control-flow information.
type fnInfo struct {
	fn    *ssa.Function
	num   map[ssa.Value]int
	vals  []ssa.Value
	n     int
	order []int // block index -> reverse postorder position (-1 unreachable)
	rpo   []*ssa.BasicBlock
	loops []*loop
	inner []*loop // innermost loop per block index
	live  [][]int // live-in registers per block (excluding its phis' operands, including its phis)
	irred bool
}

type loop struct {
	header *ssa.BasicBlock
	in     map[int]bool
	parent *loop
}

func (l *loop) has(b *ssa.BasicBlock) bool { return l == nil || l.in[b.Index] }

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, num: map[ssa.Value]int{}}
	e.fns[fn] = fi
	add := func(v ssa.Value) {
		fi.num[v] = fi.n
		fi.vals = append(fi.vals, v)
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	nb := len(fn.Blocks)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// reverse postorder
	fi.order = make([]int, nb)
	for i := range fi.order {
		fi.order[i] = -1
	}
	seen := make([]bool, nb)
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if nb > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		fi.order[post[i].Index] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	// natural loops
	byHeader := map[int]*loop{}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if fi.order[s.Index] <= fi.order[b.Index] {
				if !s.Dominates(b) {
					fi.irred = true
					continue
				}
				l := byHeader[s.Index]
				if l == nil {
					l = &loop{header: s, in: map[int]bool{s.Index: true}}
					byHeader[s.Index] = l
					fi.loops = append(fi.loops, l)
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.in[x.Index] {
						continue
					}
					l.in[x.Index] = true
					for _, p := range x.Preds {
						if seen[p.Index] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	sort.Slice(fi.loops, func(i, j int) bool { return len(fi.loops[i].in) > len(fi.loops[j].in) })
	fi.inner = make([]*loop, nb)
	for _, l := range fi.loops { // larger first
		l.parent = fi.inner[l.header.Index]
		for i := range l.in {
			fi.inner[i] = l
		}
	}
	// liveness
	liveSet := make([]map[int]bool, nb)
	for i := range liveSet {
		liveSet[i] = map[int]bool{}
	}
	use := func(m map[int]bool, v ssa.Value) {
		if n, ok := fi.num[v]; ok {
			m[n] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			m := map[int]bool{}
			for _, s := range b.Succs {
				ph := map[int]bool{}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					ph[fi.num[p]] = true
				}
				for k := range liveSet[s.Index] {
					if !ph[k] {
						m[k] = true
					}
				}
			}
			for _, s := range b.Succs {
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
						for _, in := range s.Instrs {
							ph, ok := in.(*ssa.Phi)
							if !ok {
								break
							}
							use(m, ph.Edges[pi])
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if ph, ok := in.(*ssa.Phi); ok {
					// live-in at block entry (after edge evaluation) if used
					_ = ph
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(m, fi.num[v])
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						use(m, *op)
					}
				}
			}
			if len(m) != len(liveSet[b.Index]) {
				changed = true
			} else {
				for k := range m {
					if !liveSet[b.Index][k] {
						changed = true
					}
				}
			}
			liveSet[b.Index] = m
		}
	}
	fi.live = make([][]int, nb)
	for i, m := range liveSet {
		for k := range m {
			fi.live[i] = append(fi.live[i], k)
		}
		sort.Ints(fi.live[i])
	}
	return fi
}
