package ai

import "strings"

// exactSym says that s is an unknown of the input itself, or computed from
// such, and not one that stands for the result of a merge or a loop.
func exactSym(s *Sym) bool {
	switch s.Kind {
	case SymInput, SymLen:
		return !strings.Contains(s.Name, "#") && (s.Kind == SymLen || strings.HasPrefix(s.Key, "in:"))
	case SymSel:
		return s.Base != nil && s.Base.Kind == KInput && s.Base.Name != "" && !strings.Contains(s.Base.Name, "#") && exactLin(s.A)
	case SymDiv:
		return exactLin(s.A)
	case SymAnd, SymShl, SymShr, SymMul:
		return exactLin(s.A) && exactLin(s.B)
	}
	return false
}

func exactLin(l Lin) bool {
	for _, t := range l.T {
		if !exactSym(t.S) {
			return false
		}
	}
	return true
}

// Exact says that c is a condition on the unknowns of the input alone.
func (c Cond) Exact() bool {
	switch c.Op {
	case CTrue, CFalse:
		return true
	case CGE, CEQ, CNE:
		return exactLin(c.L)
	case CAnd, COr:
		for _, s := range c.Sub {
			if !s.Exact() {
				return false
			}
		}
		return true
	}
	return false
}
