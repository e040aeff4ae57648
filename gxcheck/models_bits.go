package main

import (
	"fmt"
	"go/types"
	"strings"
)

// wideModels models the carry arithmetic of math/bits on exact integers.
func wideModels(e *Engine) {
	for _, w := range []struct {
		n string
		b *types.Basic
	}{{"64", types.Typ[types.Uint64]}, {"32", types.Typ[types.Uint32]}, {"", types.Typ[types.Uint]}} {
		w := w
		_, hi := intRange(w.b)
		H := kn(hi)
		span := H.AddK(1)
		e.models["math/bits.Add"+w.n] = func(c *callCtx) Value {
			s := c.args[0].(VInt).L.Add(c.args[1].(VInt).L).Add(c.args[2].(VInt).L)
			if c.st.cond(H.Sub(s)) {
				return VTuple{VInt{s}, VInt{K(0)}}
			}
			return VTuple{VInt{s.Sub(span)}, VInt{K(1)}}
		}
		e.models["math/bits.Sub"+w.n] = func(c *callCtx) Value {
			d := c.args[0].(VInt).L.Sub(c.args[1].(VInt).L).Sub(c.args[2].(VInt).L)
			if c.st.cond(d) {
				return VTuple{VInt{d}, VInt{K(0)}}
			}
			return VTuple{VInt{d.Add(span)}, VInt{K(1)}}
		}
		e.models["math/bits.Mul"+w.n] = func(c *callCtx) Value {
			p := c.st.mulLin(c.args[0].(VInt).L, c.args[1].(VInt).L)
			if c.st.cond(H.Sub(p)) {
				return VTuple{VInt{K(0)}, VInt{p}}
			}
			// the high word is not zero; nothing more is kept of either
			h, l := c.st.freshInt(w.b, "hi"), c.st.freshInt(w.b, "lo")
			c.st.assume(h.AddK(-1))
			return VTuple{VInt{h}, VInt{l}}
		}
	}
}

// sliceLib is the text of the slice helpers for one element type.
func sliceLib(elem string) string {
	const t = `
func slices_E_Insert(s []E, i int, v ...E) []E {
	_ = s[i:]
	n := len(v)
	r := append(s, v...)
	if n == 0 {
		return s
	}
	copy(r[i+n:], s[i:])
	copy(r[i:], v)
	return r
}

func slices_E_Delete(s []E, i, j int) []E {
	_ = s[i:j:len(s)]
	if i == j {
		return s
	}
	n := len(s)
	r := append(s[:i], s[j:]...)
	var z E
	for k := len(r); k < n; k++ {
		s[k] = z
	}
	return r
}

func slices_E_Clone(s []E) []E {
	if s == nil {
		return nil
	}
	return append([]E{}, s...)
}

func slices_E_Index(s []E, v E) int {
	for i := range s {
		if v == s[i] {
			return i
		}
	}
	return -1
}

func slices_E_Contains(s []E, v E) bool {
	for i := range s {
		if v == s[i] {
			return true
		}
	}
	return false
}

func slices_E_Reverse(s []E) {
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
}

func slices_E_Grow(s []E, n int) []E {
	if n < 0 {
		panic("cannot be negative")
	}
	if n -= cap(s) - len(s); n > 0 {
		s = append(s[:cap(s)], make([]E, n)...)[:len(s)]
	}
	return s
}

func slices_E_Concat(ss ...[]E) []E {
	var r []E
	for _, s := range ss {
		r = append(r, s...)
	}
	return r
}
`
	r := strings.ReplaceAll(t, "slices_E_", "slices_"+elem+"__")
	r = strings.ReplaceAll(r, "[]E", "[]"+elem)
	r = strings.ReplaceAll(r, "v E)", "v "+elem+")")
	r = strings.ReplaceAll(r, "...E)", "..."+elem+")")
	return strings.ReplaceAll(r, "var z E", "var z "+elem)
}

var sliceElems = []string{"int", "byte", "uint32", "uint64", "string"}

func sliceLibs() string {
	t := ""
	for _, e := range sliceElems {
		t += sliceLib(e)
	}
	return t
}

// sliceKey names the helper that stands for an instance of a slices function.
func sliceKey(key string, targs []types.Type) string {
	if !strings.HasPrefix(key, "slices.") || len(targs) == 0 {
		return key
	}
	el := targs[len(targs)-1]
	if s, ok := targs[0].Underlying().(*types.Slice); ok {
		el = s.Elem()
	}
	b := basicOf(el)
	if b == nil {
		return key
	}
	n := b.Name()
	if n == "uint8" {
		n = "byte"
	}
	return fmt.Sprintf("slices_%s.%s", n, strings.TrimPrefix(key, "slices."))
}
