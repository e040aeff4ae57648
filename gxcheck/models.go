package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// newErr is a freshly allocated error value.
func (st *State) newErr(why string) VIface {
	s := newSym("err")
	symTab[s].def = &symDef{op: "newerr", tag: why}
	l := symLin(s)
	return VIface{Opq: &l, Tag: "error"}
}

// fnStr is an unknown string that is a function of key.
func (st *State) fnStr(key, name string) VStr {
	s, ok := fnSeqs[key]
	if !ok {
		s = newSeq(name, types.Typ[types.Byte])
		s.fixed = true
		fnSeqs[key] = s
	}
	n, _ := defSym("fnstrlen:"+key, "len("+name+")", &symDef{op: "fn", tag: "len " + key})
	l := symLin(n)
	st.assume(l)
	st.assume(K(1 << 40).Sub(l))
	return VStr{seqRope(s, K(0), l)}
}

var fnSeqs = map[string]*Seq{}

func (st *State) sliceVals(v Value) []Value {
	s, ok := v.(VSlice)
	if !ok {
		giveUp("argument list %s", vstr(v))
	}
	if s.Arr == 0 {
		return nil
	}
	n := st.c.norm(s.Len)
	if !n.isK() {
		giveUp("argument list of unknown length")
	}
	r := st.content(s)
	var out []Value
	for i := int64(0); i < n.c.int64(); i++ {
		out = append(out, st.read(r, K(i)))
	}
	return out
}

// deepKey names a value including what slices show at the moment.
func (st *State) deepKey(v Value) string {
	switch x := v.(type) {
	case VIface:
		if x.Dyn != nil {
			return x.Dyn.String() + ":" + st.deepKey(x.V)
		}
	case VSlice:
		if x.Arr == 0 {
			return "nil"
		}
		return "[" + st.ropeKey(st.content(x)) + "]"
	case VStr:
		return "\"" + st.ropeKey(x.R) + "\""
	case VStruct:
		p := []string{}
		for _, f := range x.F {
			p = append(p, st.deepKey(f))
		}
		return "{" + strings.Join(p, ",") + "}"
	case VInt:
		return st.c.norm(x.L).key()
	case VArray:
		return "[" + st.ropeKey(x.R) + "]"
	}
	if l, ok := valLin(v); ok {
		return "?" + st.c.norm(l).key()
	}
	return vstr(v)
}

func stdModels(e *Engine) {
	nop := func(c *callCtx) Value { return VTuple{} }
	m := e.models
	m["fmt.Errorf"] = func(c *callCtx) Value { return c.st.newErr("fmt.Errorf at " + c.pos) }
	m["errors.New"] = func(c *callCtx) Value { return c.st.newErr("errors.New at " + c.pos) }
	m["fmt.Sprintf"] = modelSprintf
	m["fmt.Sprint"] = func(c *callCtx) Value {
		var p []string
		args := c.st.sliceVals(c.args[0])
		isStr := func(a Value) bool {
			x, ok := a.(VIface)
			if !ok || x.Dyn == nil {
				return false
			}
			b, ok := x.Dyn.Underlying().(*types.Basic)
			return ok && b.Kind() == types.String
		}
		f, ok := "", true
		for i, a := range args {
			x, isI := a.(VIface)
			if !isI || x.Dyn == nil {
				ok = false
				break
			}
			if b, basic := x.Dyn.Underlying().(*types.Basic); !basic || b.Info()&(types.IsInteger|types.IsString) == 0 {
				ok = false
				break
			}
			// a space goes between two operands when neither is a string
			if i > 0 && !isStr(a) && !isStr(args[i-1]) {
				f += " "
			}
			f += "%v"
		}
		if ok {
			if r, ok := c.st.format(f, args); ok {
				return VStr{c.st.normRope(r)}
			}
		}
		for _, a := range c.st.sliceVals(c.args[0]) {
			p = append(p, c.st.deepKey(a))
		}
		return c.st.fnStr("Sprint:"+strings.Join(p, "|"), "Sprint")
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		m[n] = func(c *callCtx) Value { return VTuple{c.st.fresh(types.Typ[types.Int], "n"), VIface{}} }
	}
	_ = nop
	for _, n := range []string{"strconv.FormatUint", "strconv.FormatInt", "strconv.Itoa"} {
		m[n] = func(c *callCtx) Value {
			if len(c.args) > 1 {
				if b := c.st.c.norm(c.args[1].(VInt).L); !b.isK() || b.c.int64() != 10 {
					giveUp("%s: conversion in another base", c.pos)
				}
			}
			l := c.st.c.norm(c.args[0].(VInt).L)
			if l.isK() {
				return VStr{strRope(l.c.String())}
			}
			if c.st.eng.digits {
				if r, ok := c.st.decimal("%d", l); ok {
					return VStr{r}
				}
			}
			v := c.st.fnStr("fmt:%d:"+l.key(), "fmt %d "+l.String())
			c.st.eng.noteFmt(c.st, "%d", l, v)
			return v
		}
	}
	lockModels(e)
	bytesModels(e)
	wideModels(e)
}

// sprintfArgs splits the variadic argument.
func modelSprintf(c *callCtx) Value {
	st := c.st
	f, ok := constRope(c.args[0].(VStr).R)
	if a, isSlice := c.args[1].(VSlice); isSlice && a.Arr != 0 && !st.c.norm(a.Len).isK() {
		return st.fnStr("Sprintf:"+st.ropeKey(c.args[0].(VStr).R)+":"+st.deepKey(a), "Sprintf")
	}
	args := st.sliceVals(c.args[1])
	if ok {
		if r, ok := st.format(f, args); ok {
			return VStr{st.normRope(r)}
		}
	}
	var p []string
	for _, a := range args {
		p = append(p, st.deepKey(a))
	}
	return st.fnStr("Sprintf:"+st.ropeKey(c.args[0].(VStr).R)+":"+strings.Join(p, "|"), "Sprintf")
}

// format interprets the verbs that give text the analysis can follow: each verb
// becomes an unknown string determined by verb and argument, %s of a string is the
// string itself.
func (st *State) format(f string, args []Value) (Rope, bool) {
	var out Rope
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = append(out, strRope(f[i:j])...)
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil, false
		}
		if f[j] == '%' {
			out = append(out, strRope("%")...)
			i = j
			continue
		}
		if ai >= len(args) {
			return nil, false
		}
		a := args[ai]
		ai++
		verb := f[i : j+1]
		if len(verb) == 3 && verb[1] == '0' {
			verb = "%" + verb[2:] // a zero flag without a width
		}
		if verb == "%v" {
			if x, ok := a.(VIface); ok && x.Dyn != nil && !hasStringer(x.Dyn) {
				switch x.V.(type) {
				case VInt:
					verb = "%d"
				case VStr:
					verb = "%s"
				}
			}
		}
		iv, isI := a.(VIface)
		if !isI || iv.Dyn == nil && iv.Opq == nil {
			return nil, false
		}
		if iv.Opq != nil {
			out = append(out, st.fnStr("fmt:"+verb+":"+st.c.norm(*iv.Opq).key(), "fmt "+verb).R...)
			i = j
			continue
		}
		if s, ok := iv.V.(VStr); ok && verb == "%s" && !hasStringer(iv.Dyn) {
			out = append(out, s.R...)
			i = j
			continue
		}
		if verb == "%x" && !hasStringer(iv.Dyn) {
			var r Rope
			isB := true
			switch x := iv.V.(type) {
			case VStr:
				r = x.R
			case VSlice:
				if sl, ok := iv.Dyn.Underlying().(*types.Slice); !ok || basicOf(sl.Elem()) == nil || basicOf(sl.Elem()).Kind() != types.Uint8 {
					isB = false
				} else {
					r = st.content(x)
				}
			case VArray:
				if al, ok := iv.Dyn.Underlying().(*types.Array); !ok || basicOf(al.Elem()) == nil || basicOf(al.Elem()).Kind() != types.Uint8 {
					isB = false
				}
				r = x.R
			default:
				isB = false
			}
			if isB {
				out = append(out, st.hexText(r).R...)
				i = j
				continue
			}
		}
		if n, ok := iv.V.(VInt); ok {
			l := st.c.norm(n.L)
			if hasMethod(iv.Dyn, "Format") || hasStringer(iv.Dyn) && verb[len(verb)-1] != 'd' { // %d never asks for the text
				return nil, false
			}
			// fixed-width hexadecimal of a value that fits is the text of its bytes
			if w, err := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(verb, "%0"), "x")); err == nil && strings.HasPrefix(verb, "%0") && strings.HasSuffix(verb, "x") && w%2 == 0 && w <= 14 &&
				!l.isK() && st.c.entails(l) && st.c.entails(K(int64(1)<<uint(4*w)-1).Sub(l)) {
				out = append(out, st.hexText(st.bigEndian(l, w/2)).R...)
				i = j
				continue
			}
			if l.isK() && l.c.isInt64() {
				out = append(out, strRope(fmt.Sprintf(verb, l.c.int64()))...)
				i = j
				continue
			}
			if st.eng.digits {
				if r, ok := st.decimal(verb, l); ok {
					out = append(out, r...)
					i = j
					continue
				}
			}
			v := st.fnStr("fmt:"+verb+":"+l.key(), "fmt "+verb+" "+l.String())
			st.eng.noteFmt(st, verb, l, v)
			out = append(out, v.R...)
			i = j
			continue
		}
		out = append(out, st.fnStr("fmt:"+verb+":"+st.deepKey(a), "fmt "+verb).R...)
		i = j
	}
	if ai != len(args) {
		return nil, false
	}
	return out, true
}

func hasStringer(t types.Type) bool { return hasMethod(t, "String", "Error", "Format", "GoString") }

func hasMethod(t types.Type, names ...string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		for _, n := range names {
			if n == ms.At(i).Obj().Name() {
				return true
			}
		}
	}
	return false
}

// noteFmt records facts about the text of a formatted integer.
func (e *Engine) noteFmt(st *State, verb string, l Lin, v VStr) {
	n := ropeLen(v.R)
	st.assume(n.AddK(-1))
	if verb == "%03d" && st.c.entails(l) && st.c.entails(K(999).Sub(l)) {
		st.assumeEq(n.AddK(-3))
	}
	if len(verb) >= 2 && st.c.entails(l) && st.c.entails(K(255).Sub(l)) && (verb == "%02x" || verb == "%02X") {
		st.assumeEq(n.AddK(-2))
	}
}

// Ranging over a map visits the keys of its unknown base in one arbitrary order.
func (st *State) rangeStart(x *ssa.Range) Value {
	m, ok := st.val(x.X).(VMap)
	if !ok {
		giveUp("%s: range over %s", st.eng.p.pos(x), vstr(st.val(x.X)))
	}
	if st.eng.onMapRead != nil && m.Obj > 0 {
		st.eng.onMapRead(st, m, st.eng.p.pos(x))
	}
	n := K(0)
	if m.Obj > 0 {
		if c := st.mapC(m); len(c.log) > 0 {
			giveUp("%s: range over an updated map", st.eng.p.pos(x))
		}
		n = st.mapLen(m)
	}
	return VPtr{Obj: st.newObj(x.X.Type(), VTuple{m, VInt{K(0)}, VInt{n}}, "range")}
}

func (st *State) rangeNext(x *ssa.Next) Value {
	p, ok := st.val(x.Iter).(VPtr)
	if !ok || x.IsString {
		giveUp("%s: range over a string", st.eng.p.pos(x))
	}
	o := st.heap[p.Obj]
	t := o.v.(VTuple)
	m, i := t[0].(VMap), t[1].(VInt).L
	mt := o.typ.Underlying().(*types.Map)
	none := VTuple{VBool(false), st.eng.zero(mt.Key()), st.eng.zero(mt.Elem())}
	if m.Obj <= 0 {
		return none
	}
	c := st.mapC(m)
	if len(c.log) > 0 {
		giveUp("%s: range over an updated map", st.eng.p.pos(x))
	}
	if c.base == nil || !st.cond(t[2].(VInt).L.Sub(i).AddK(-1)) {
		return none
	}
	st.store(VPtr{Obj: p.Obj}, VTuple{m, VInt{i.AddK(1)}, t[2]})
	k := st.seqElem(c.base.mapKeys(mt), i)
	return VTuple{VBool(true), k, VJunk{}}
}

// mapKeys are the keys of an unknown map, in some order.
func (b *Seq) mapKeys(mt *types.Map) *Seq {
	if b.keys == nil {
		b.keys = newSeq("key of "+b.name, mt.Key())
		b.keys.fixed = true
	}
	return b.keys
}

// decimal is the decimal text of l as a rope of digit characters (forking on the
// number of digits), padded as the verb says.
func (st *State) decimal(verb string, l Lin) (Rope, bool) {
	width := 0
	switch {
	case verb == "%d" || verb == "%v":
	case len(verb) > 3 && verb[1] == '0' && verb[len(verb)-1] == 'd':
		n, err := strconv.Atoi(verb[2 : len(verb)-1])
		if err != nil {
			return nil, false
		}
		width = n
	default:
		return nil, false
	}
	if !st.c.entails(l) {
		return nil, false
	}
	if width > 0 && width < 19 {
		p := int64(1)
		for i := 0; i < width; i++ {
			p *= 10
		}
		if st.c.entails(K(p - 1).Sub(l)) {
			var out Rope
			for i := width - 1; i >= 0; i-- {
				out = append(out, single(VInt{st.digit(l, i).AddK('0')})...)
			}
			return st.normRope(out), true
		}
	}
	n := 1
	for p := int64(10); n < 19; n, p = n+1, p*10 {
		if !st.cond(l.AddK(-p)) {
			break
		}
	}
	if n == 19 && st.cond(l.Sub(KU(10000000000000000000))) {
		n = 20
	}
	var out Rope
	for i := n; i < width; i++ {
		out = append(out, tableRope([]int64{'0'})...)
	}
	for i := n - 1; i >= 0; i-- {
		out = append(out, single(VInt{st.digit(l, i).AddK('0')})...)
	}
	return st.normRope(out), true
}

// digit is the decimal digit of weight 10^i.
func (st *State) digit(l Lin, i int) Lin {
	p := int64(1)
	for k := 0; k < i && k < 18; k++ {
		p *= 10
	}
	q, _ := st.divmod(l, K(p))
	if i == 19 {
		q, _ = st.divmod(q, K(10))
		return q
	}
	_, r := st.divmod(q, K(10))
	return r
}
