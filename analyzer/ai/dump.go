package ai

import (
	"fmt"
	"strings"
)

// Dump describes a content, for debugging.
func (c *Content) Dump(depth int) string {
	if c == nil {
		return "nil"
	}
	if depth == 0 {
		return fmt.Sprintf("c%d..", c.ID)
	}
	switch c.Kind {
	case KZero:
		return fmt.Sprintf("zero(%s)", c.N)
	case KInput:
		return fmt.Sprintf("%s(%s)", c.Name, c.N)
	case KConst:
		return fmt.Sprintf("const(%d)", len(c.Data))
	case KSum:
		return fmt.Sprintf("c%d=sum(%s)", c.ID, ValStr(c.Sum))
	case KJoin:
		return fmt.Sprintf("c%d=join{%s | %s}", c.ID, c.A.Dump(depth-1), c.B.Dump(depth-1))
	}
	var w strings.Builder
	fmt.Fprintf(&w, "c%d=[%s+%s:", c.ID, c.Off, c.Len)
	switch {
	case c.Havoc:
		w.WriteString("havoc")
	case c.Src != nil:
		fmt.Fprintf(&w, "%s@%s", c.Src.Dump(depth-1), c.SrcOff)
	default:
		w.WriteString(ValStr(c.Val))
	}
	return w.String() + "]<" + c.Prev.Dump(depth-1)
}
