// Package lib holds small functions with which the analyser is compared with the real thing.
package lib

import (
	"bytes"
	"strings"
)

type F func(dst, src []byte, n, k int) (int, bool)

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func CopyBuiltin(dst, src []byte, n, k int) (int, bool) { return copy(dst, src), true }

func CopyLoop(dst, src []byte, n, k int) (int, bool) {
	for i := 0; i < len(dst) && i < len(src); i++ {
		dst[i] = src[i]
	}
	return 0, false
}

func CopyRange(dst, src []byte, n, k int) (int, bool) {
	for i, b := range src {
		if i >= len(dst) {
			break
		}
		dst[i] = b
	}
	return 0, false
}

func CopyDown(dst, src []byte, n, k int) (int, bool) {
	for i := min(len(dst), len(src)) - 1; i >= 0; i-- {
		dst[i] = src[i]
	}
	return 0, false
}

func ShiftDown(dst, src []byte, n, k int) (int, bool) {
	for i := 0; i+1 < len(dst); i++ {
		dst[i] = dst[i+1]
	}
	return 0, false
}

// Smear copies the first element everywhere.
func Smear(dst, src []byte, n, k int) (int, bool) {
	for i := 0; i+1 < len(dst); i++ {
		dst[i+1] = dst[i]
	}
	return 0, false
}

func Clear(dst, src []byte, n, k int) (int, bool) {
	for i := range dst {
		dst[i] = 0
	}
	return 0, false
}

func ClearTail(dst, src []byte, n, k int) (int, bool) {
	for i := n; i < len(dst); i++ {
		dst[i] = 0xa0
	}
	return n, false
}

func Reverse(dst, src []byte, n, k int) (int, bool) {
	for i := 0; i < len(dst) && i < len(src); i++ {
		dst[i] = src[len(src)-1-i]
	}
	return 0, false
}

func Skip(dst, src []byte, n, k int) (int, bool) {
	for i := 0; i < len(dst) && i < len(src); i++ {
		if i == n {
			continue
		}
		dst[i] = src[i]
	}
	return 0, false
}

func StopAtZero(dst, src []byte, n, k int) (int, bool) {
	i := 0
	for i < len(dst) && i < len(src) {
		if src[i] == 0 {
			break
		}
		dst[i] = src[i]
		i++
	}
	return i, i == len(src)
}

func Twice(dst, src []byte, n, k int) (int, bool) {
	for i := 0; 2*i+1 < len(dst) && i < len(src); i++ {
		dst[2*i] = src[i]
		dst[2*i+1] = 0
	}
	return 0, false
}

func Pairs(dst, src []byte, n, k int) (int, bool) {
	for i := 0; i+1 < len(dst) && i+1 < len(src); i += 2 {
		dst[i] = src[i]
		dst[i+1] = src[i+1]
	}
	return 0, false
}

func AppendPad(dst, src []byte, n, k int) (int, bool) {
	b := append([]byte{}, src...)
	for len(b) < n {
		b = append(b, 0)
	}
	return copy(dst, b), len(b) == n
}

func AppendPadOne(dst, src []byte, n, k int) (int, bool) {
	b := append([]byte{}, src...)
	for len(b) < n {
		b = append(b, 1)
	}
	b = append(b, 2)
	return copy(dst, b), len(b) == n
}

func AppendSome(dst, src []byte, n, k int) (int, bool) {
	var b []byte
	for i, c := range src {
		if i >= n {
			b = append(b, c)
		}
	}
	return copy(dst, b), len(b) == n
}

func AppendAll(dst, src []byte, n, k int) (int, bool) {
	var b []byte
	for _, c := range src {
		b = append(b, c)
	}
	return copy(dst, b), len(b) == n
}

func AppendOdd(dst, src []byte, n, k int) (int, bool) {
	b := []byte{9}
	for i := range src {
		b = append(b, src[i])
		if src[i] > 100 {
			b[0] = 7
		}
	}
	return copy(dst, b), len(b) == n
}

func AppendAlias(dst, src []byte, n, k int) (int, bool) {
	b := src[:0]
	for i := 0; i < len(src); i++ {
		b = append(b, 5)
	}
	return copy(dst, src), len(b) == n
}

func AppendBehind(dst, src []byte, n, k int) (int, bool) {
	b := append([]byte{}, src...)
	c := b
	for i := 0; i < n; i++ {
		c = append(c, byte(1))
		if i == 2 {
			c = b
		}
	}
	return copy(dst, c), len(c) == n
}

func Sliding(dst, src []byte, n, k int) (int, bool) {
	i := 0
	for len(src) > 1 && i < len(dst) {
		dst[i] = src[1]
		src = src[1:]
		i++
	}
	return i, true
}

func TwoArrays(dst, src []byte, n, k int) (int, bool) {
	for i := 0; i < len(dst) && i < len(src); i++ {
		dst[i] = src[i]
		src[i] = 0
	}
	return int(sum(src)), true
}

func sum(b []byte) (r byte) {
	for _, c := range b {
		r += c
	}
	return r
}

func Count(dst, src []byte, n, k int) (int, bool) {
	c := 0
	for _, b := range src {
		if b == byte(n) {
			c++
		}
	}
	return c, c > 0
}

func Last(dst, src []byte, n, k int) (int, bool) {
	r := -1
	for i := 0; i < len(src); i++ {
		if src[i] != 0 {
			r = i
		}
	}
	return r, r >= n
}

func Nested(dst, src []byte, n, k int) (int, bool) {
	for i := 0; i < n; i++ {
		for j := range dst {
			dst[j] = byte(i)
		}
	}
	return 0, true
}

func NestedRows(dst, src []byte, n, k int) (int, bool) {
	for i := 0; i+2 <= len(dst); i += 2 {
		for j := 0; j < 2; j++ {
			if i+j < len(src) {
				dst[i+j] = src[i+j]
			}
		}
	}
	return 0, true
}

func Window(dst, src []byte, n, k int) (int, bool) {
	if k < 0 || k > len(dst) {
		return -1, false
	}
	d := dst[k:]
	for i := 0; i < len(d) && i < len(src); i++ {
		d[i] = src[i]
	}
	return len(d), true
}

func BytesBuffer(dst, src []byte, n, k int) (int, bool) {
	var b bytes.Buffer
	b.Write(src)
	for b.Len() < n {
		b.WriteByte(' ')
	}
	return copy(dst, b.Bytes()), true
}

func StringPad(dst, src []byte, n, k int) (int, bool) {
	s := string(src)
	if len(s) < n {
		s += strings.Repeat(" ", n-len(s))
	}
	return copy(dst, s), true
}

func TrimZeros(dst, src []byte, n, k int) (int, bool) {
	e := len(src)
	for e > 0 && src[e-1] == 0 {
		e--
	}
	return copy(dst, src[:e]), e == 0
}

func DivMod(dst, src []byte, n, k int) (int, bool) {
	q, r := k/4, k%4
	return q*10 + r, k&3 == r
}

func Shifts(dst, src []byte, n, k int) (int, bool) {
	b := byte(k)
	return int(b>>2) + int(b&3)<<4 + int(b<<1), b&0x80 != 0
}

func Bits(dst, src []byte, n, k int) (int, bool) {
	if n >= len(dst) {
		return 0, false
	}
	dst[n] |= 0x80 >> uint(k&7)
	dst[n] &^= 1
	return int(dst[n] ^ 0xff), dst[n] > 4
}

func Switch(dst, src []byte, n, k int) (int, bool) {
	switch {
	case k < 0:
		return -k, false
	case k == 3, k == 5:
		return 100, true
	case k > n:
		return k - n, true
	}
	return n, false
}

func Closure(dst, src []byte, n, k int) (int, bool) {
	t := 0
	add := func(x int) { t += x }
	for i := 0; i < n; i++ {
		add(k)
	}
	return t, t == n*k
}

func Table(dst, src []byte, n, k int) (int, bool) {
	tab := [...]int{5, 3, 8, 1, 9, 2, 7, 0, 6}
	return tab[n], tab[n] > k
}

func MapLookup(dst, src []byte, n, k int) (int, bool) {
	m := map[int]int{1: 10, 2: 20, 5: 50}
	v, ok := m[n]
	return v, ok
}

func Goto(dst, src []byte, n, k int) (int, bool) {
	i := 0
outer:
	for {
		for j := 0; j < 3; j++ {
			i++
			if i > n {
				break outer
			}
			if j == k {
				continue outer
			}
		}
	}
	return i, true
}

func Euclid(dst, src []byte, n, k int) (int, bool) {
	a, b := n+1, 12
	for b != 0 {
		a, b = b, a%b
	}
	return a, a == 1
}

func Defer(dst, src []byte, n, k int) (r int, ok bool) {
	defer func() { r += k }()
	if n > 4 {
		return n, true
	}
	return 0, false
}

func LowerHalf(dst, src []byte, n, k int) (int, bool) {
	for i := range dst {
		if dst[i] >= 'a' && dst[i] <= 'z' {
			dst[i] -= 32
		}
	}
	return 0, false
}

func Swap(dst, src []byte, n, k int) (int, bool) {
	for i, j := 0, len(dst)-1; i < j; i, j = i+1, j-1 {
		dst[i], dst[j] = dst[j], dst[i]
	}
	return 0, false
}

func Index(dst, src []byte, n, k int) (int, bool) {
	i := bytes.IndexByte(src, byte(n))
	return i, bytes.Contains(src, []byte{byte(n)})
}

func Modulo(dst, src []byte, n, k int) (int, bool) {
	for i := range dst {
		if len(src) > 0 {
			dst[i] = src[i%len(src)]
		}
	}
	return 0, false
}

var All = map[string]F{
	"CopyBuiltin": CopyBuiltin, "CopyLoop": CopyLoop, "CopyRange": CopyRange, "CopyDown": CopyDown, "ShiftDown": ShiftDown,
	"Smear": Smear, "Clear": Clear, "ClearTail": ClearTail, "Reverse": Reverse, "Skip": Skip, "StopAtZero": StopAtZero,
	"Twice": Twice, "Pairs": Pairs, "AppendPad": AppendPad, "AppendPadOne": AppendPadOne, "AppendSome": AppendSome,
	"AppendAll": AppendAll, "AppendOdd": AppendOdd, "AppendAlias": AppendAlias, "AppendBehind": AppendBehind, "Sliding": Sliding,
	"TwoArrays": TwoArrays, "Count": Count, "Last": Last, "Nested": Nested, "NestedRows": NestedRows, "Window": Window,
	"BytesBuffer": BytesBuffer, "StringPad": StringPad, "TrimZeros": TrimZeros, "DivMod": DivMod, "Shifts": Shifts, "Bits": Bits,
	"Switch": Switch, "Closure": Closure, "Table": Table, "MapLookup": MapLookup, "Goto": Goto, "Euclid": Euclid, "Defer": Defer,
	"LowerHalf": LowerHalf, "Swap": Swap, "Index": Index, "Modulo": Modulo,
}
