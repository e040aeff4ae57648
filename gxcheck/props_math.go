package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C08"] = &propCheck{run: checkCmp, minObl: 30}
	props["C10"] = &propCheck{run: checkRanges, minObl: 30}
	props["C13"] = &propCheck{run: checkComma, minObl: 20}
	props["C11"] = &propCheck{run: checkBits, minObl: 6}
}

func constOf(sp *ssa.Package, name string) (Value, types.Type) {
	k, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		giveUp("constant %s.%s not found", sp.Pkg.Path(), name)
	}
	v, ok := constant.Int64Val(constant.ToInt(k.Val()))
	if !ok {
		giveUp("constant %s", name)
	}
	return VInt{K(v)}, k.Type()
}

// keyField is the field of a node that it is ordered by: its value.
func keyField(t types.Type) int {
	s := t.Underlying().(*types.Struct)
	vf := -1
	for j := 0; j < s.NumFields(); j++ {
		_, isStruct := s.Field(j).Type().Underlying().(*types.Struct)
		if isStruct {
			_, _, isStruct = hashFields(s.Field(j).Type())
		}
		if (isInt(s.Field(j).Type()) || isStruct) && vf < 0 {
			vf = j
		}
	}
	if vf < 0 {
		giveUp("%s has no value", t)
	}
	return vf
}

// hashFields are the fields Size and Hash of a file hash.
func hashFields(t types.Type) (size, hash int, ok bool) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	size, hash = -1, -1
	for i := 0; i < u.NumFields(); i++ {
		switch {
		case u.Field(i).Name() == "Size" && isInt(u.Field(i).Type()):
			size = i
		case u.Field(i).Name() == "Hash" && isString(u.Field(i).Type()):
			hash = i
		}
	}
	return size, hash, size >= 0 && hash >= 0
}

// freshKey is any value of a node: a number, or a file hash.
func freshKey(st *State, t types.Type, n string) Value {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return st.fresh(t, n)
	}
	f := append([]Value{}, st.eng.zero(t).(VStruct).F...)
	for i := range f {
		if isString(u.Field(i).Type()) {
			k := "key:" + n + "." + u.Field(i).Name()
			f[i] = st.fnStr(k, k)
		} else {
			f[i] = st.fresh(u.Field(i).Type(), n)
		}
	}
	return VStruct{f}
}

// keyLess: a number by its size, a file hash by size, then by hash.
func (s *State) keyLess(t types.Type, a, b Value) bool {
	switch x := a.(type) {
	case VInt:
		return s.cond(b.(VInt).L.Sub(x.L).AddK(-1))
	case VStruct:
		size, hash, ok := hashFields(t)
		if !ok {
			break
		}
		y := b.(VStruct)
		if k, l := x.F[size].(VInt).L, y.F[size].(VInt).L; !s.condEq(k, l) {
			return s.cond(l.Sub(k).AddK(-1))
		}
		return s.strLess(x.F[hash].(VStr), y.F[hash].(VStr))
	}
	giveUp("order of %s", vstr(a))
	return false
}

func checkCmp(c *Ctx) {
	for _, x := range [][2]string{{"stl", "CmpInt"}, {"stl", "CmpIntTreeNode"}, {"fs", "CmpFileHash"}} {
		sp, typ := c.pkg(x[0]), x[1]
		lesser, _ := constOf(sp, typ+"Lesser")
		greater, _ := constOf(sp, typ+"Greater")
		want := func(s *State, ret []Value, pan *progPanic, w Value, what string) string {
			if pan != nil {
				return panMsg(pan)
			}
			return wantSame(s, ret[0], w, what)
		}
		for i, me := range []Value{lesser, greater} {
			nm := []string{"lesser", "greater"}[i]
			c.oblige(typ+": the "+nm+" comparator", func() {
				e := c.engine(sp)
				fn := c.fn(sp, typ+".F")
				var kt types.Type
				for _, f := range e.fork(e.newState(), func(st *State) Value {
					pt, ok := fn.Params[1].Type().Underlying().(*types.Pointer)
					if !ok {
						a, b := st.fresh(fn.Params[1].Type(), "left"), st.fresh(fn.Params[2].Type(), "right")
						return VTuple{a, b, a, b}
					}
					// nodes compare by their value
					vf := keyField(pt.Elem())
					ns := pt.Elem().Underlying().(*types.Struct)
					kt = ns.Field(vf).Type()
					var out [4]Value
					for j, n := range []string{"left", "right"} {
						z := VStruct{make([]Value, ns.NumFields())}
						for k := range z.F {
							if k == vf {
								z.F[k] = freshKey(st, kt, n)
							} else {
								z.F[k] = st.fresh(ns.Field(k).Type(), n)
							}
						}
						out[j], out[j+2] = VPtr{Obj: st.newObj(pt.Elem(), z, n)}, z.F[vf]
					}
					return VTuple(out[:])
				}) {
					x := f.v.(VTuple)
					l, r := x[2], x[3]
					if i == 1 {
						l, r = r, l
					}
					c.run(e, f.st, fn, []Value{me, x[0], x[1]}, func(s *State, ret []Value, pan *progPanic) string {
						if pan != nil {
							return panMsg(pan)
						}
						return wantBool(s, ret[0], s.keyLess(kt, l, r), "result")
					})
				}
			})
			c.oblige(typ+": name of the "+nm+" comparator", func() {
				e := c.engine(sp)
				c.run(e, e.newState(), c.fn(sp, typ+".String"), []Value{me}, func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					k, ok := constRope(ret[0].(VStr).R)
					if !ok || !strings.EqualFold(k, nm) {
						return "its name is " + vstr(ret[0])
					}
					return ""
				})
			})
		}
		any := func(st *State, fn *ssa.Function) Value { return st.fresh(fn.Params[0].Type(), "me") }
		for i, m := range []string{"Lesser", "Greater"} {
			w := []Value{lesser, greater}[i]
			c.oblige(typ+"."+m, func() {
				e := c.engine(sp)
				st := e.newState()
				fn := c.fn(sp, typ+"."+m)
				c.run(e, st, fn, []Value{any(st, fn)}, func(s *State, ret []Value, pan *progPanic) string { return want(s, ret, pan, w, "result") })
			})
			c.oblige(fmt.Sprintf("%s.CreateByBool(%v)", typ, i == 1), func() {
				e := c.engine(sp)
				st := e.newState()
				fn := c.fn(sp, typ+".CreateByBool")
				c.run(e, st, fn, []Value{any(st, fn), VBool(i == 1)}, func(s *State, ret []Value, pan *progPanic) string { return want(s, ret, pan, w, "result") })
			})
		}
		for _, f := range []string{typ + ".CreateByName", "Create" + typ} {
			c.oblige(f+" for every name", func() {
				e := c.engine(sp)
				st := e.newState()
				fn := c.fn(sp, f)
				name := st.fresh(types.Typ[types.String], "name").(VStr)
				args := []Value{name}
				if strings.Contains(f, ".") {
					args = []Value{any(st, fn), name}
				}
				c.run(e, st, fn, args, func(s *State, ret []Value, pan *progPanic) string {
					is := func(k string) bool { return s.condStrEq(name.R, strRope(k)) }
					switch {
					case is("") || is("Lesser"):
						return want(s, ret, pan, lesser, "result")
					case is("Greater"):
						return want(s, ret, pan, greater, "result")
					}
					if pan == nil {
						return "an unknown name does not panic"
					}
					return ""
				})
			})
		}
	}
}

// ---- ranged integers ----

func checkRanges(c *Ctx) {
	sp := c.pkg("math")
	for _, x := range []struct {
		typ  string
		bits uint
	}{{"RangeUint32", 32}, {"RangeUInt64", 64}} {
		checkRange(c, sp, x.typ, x.bits)
	}
}

func checkRange(c *Ctx, sp *ssa.Package, typ string, bits uint) {
	t, s := structOf(sp, typ)
	vf, mn, mx := fieldLike(s, "val", "value", "v"), fieldLike(s, "min", "lo", "low"), fieldLike(s, "max", "hi", "high")
	if vf < 0 || mn < 0 || mx < 0 {
		giveUp("%s has no fields val, min, max", typ)
	}
	it := s.Field(vf).Type()
	full := KU(1<<bits - 1)
	if bits == 64 {
		full = KU(^uint64(0))
	}
	type rc struct {
		st            *State
		ret           []Value
		val, min, max Lin // before
		a             []Lin
		v2, n2, x2    Lin // after
		err           bool
		hasErr        bool
	}
	in := func(x *rc, l Lin) bool { // decides min <= l <= max, forking
		return x.st.cond(l.Sub(x.min)) && x.st.cond(x.max.Sub(l))
	}
	unchanged := func(x *rc) string {
		if !x.st.provesEq(x.val, x.v2) || !x.st.provesEq(x.min, x.n2) || !x.st.provesEq(x.max, x.x2) {
			return fmt.Sprintf("the object changed to val=%s min=%s max=%s", x.v2, x.n2, x.x2)
		}
		return ""
	}
	run := func(name string, nargs int, f func(x *rc) string) {
		c.oblige(typ+"."+name, func() {
			e := c.engine(sp)
			st := e.newState()
			z := e.zero(t).(VStruct)
			x0 := rc{}
			for _, p := range []struct {
				f int
				l *Lin
			}{{vf, &x0.val}, {mn, &x0.min}, {mx, &x0.max}} {
				v := st.fresh(it, s.Field(p.f).Name())
				z.F[p.f] = v
				*p.l = v.(VInt).L
			}
			st.assume(x0.val.Sub(x0.min))
			st.assume(x0.max.Sub(x0.val))
			obj := st.newObj(t, z, typ)
			args := []Value{VPtr{Obj: obj}}
			fn := c.fn(sp, typ+"."+name)
			for i := 1; i < len(fn.Params); i++ {
				v := st.fresh(fn.Params[i].Type(), fmt.Sprintf("arg%d", i))
				args = append(args, v)
				x0.a = append(x0.a, v.(VInt).L)
			}
			if len(x0.a) < nargs {
				giveUp("%s.%s takes %d arguments", typ, name, len(x0.a))
			}
			c.run(e, st, fn, args, func(s2 *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				x := x0
				x.st, x.ret = s2, ret
				o := s2.heap[obj].v.(VStruct).F
				x.v2, x.n2, x.x2 = o[vf].(VInt).L, o[mn].(VInt).L, o[mx].(VInt).L
				if len(ret) > 0 {
					if er, ok := ret[len(ret)-1].(VIface); ok {
						x.hasErr, x.err = true, !isNil(er)
					}
				}
				if x.hasErr && x.err {
					if m := unchanged(&x); m != "" {
						return "an error is reported but " + m
					}
				}
				if !s2.c.entails(x.v2.Sub(x.n2)) || !s2.c.entails(x.x2.Sub(x.v2)) {
					return fmt.Sprintf("the value %s may leave [%s, %s]", x.v2, x.n2, x.x2)
				}
				return f(&x)
			})
		})
	}
	arith := func(name string, exact func(x *rc) (Lin, bool)) {
		run(name, 1, func(x *rc) string {
			l, ok := exact(x)
			if m := unchanged(x); m != "" {
				return m
			}
			if !x.hasErr {
				return "reports no error"
			}
			if !x.err {
				if !ok {
					return "no error although the result does not exist"
				}
				if m := wantInt(x.st, x.ret[0], l, "result"); m != "" {
					return m
				}
				if !x.st.c.entails(l.Sub(x.min)) || !x.st.c.entails(x.max.Sub(l)) {
					return "no error although the result may be outside the range"
				}
				return ""
			}
			if ok && in(x, l) && x.st.cond(full.Sub(l)) && x.st.cond(l) {
				return "an error although the exact result " + l.String() + " is in range"
			}
			return ""
		})
	}
	arith("Add", func(x *rc) (Lin, bool) { return x.val.Add(x.a[0]), true })
	arith("Sub", func(x *rc) (Lin, bool) { return x.val.Sub(x.a[0]), true })
	arith("Mul", func(x *rc) (Lin, bool) { return x.st.mulLin(x.val, x.a[0]), true })
	arith("Div", func(x *rc) (Lin, bool) {
		if x.st.condEq(x.a[0], K(0)) {
			return K(0), false
		}
		q, _ := x.st.divmod(x.val, x.a[0])
		return q, true
	})
	arith("Mod", func(x *rc) (Lin, bool) {
		if x.st.condEq(x.a[0], K(0)) {
			return K(0), false
		}
		_, r := x.st.divmod(x.val, x.a[0])
		return r, true
	})
	setter := func(name string, target func(x *rc) Lin) {
		run(name, 0, func(x *rc) string {
			l := target(x)
			if !x.st.provesEq(x.min, x.n2) || !x.st.provesEq(x.max, x.x2) {
				return "the bounds changed"
			}
			if in(x, l) {
				if x.err {
					return "an error although the new value is in range"
				}
				if !x.st.provesEq(x.v2, l) {
					return fmt.Sprintf("the value is %s, expected %s", x.v2, l)
				}
				return wantInt(x.st, x.ret[0], x.val, "the previous value")
			}
			if !x.err {
				return "no error although the new value is outside the range"
			}
			return ""
		})
	}
	setter("Inc", func(x *rc) Lin { return x.val.AddK(1) })
	setter("Dec", func(x *rc) Lin { return x.val.AddK(-1) })
	setter("Set", func(x *rc) Lin { return x.a[0] })
	run("Init", 3, func(x *rc) string {
		v, lo, hi := x.a[0], x.a[1], x.a[2]
		if x.st.cond(v.Sub(lo)) && x.st.cond(hi.Sub(v)) {
			if x.err {
				return "an error although the range is valid"
			}
			if !x.st.provesEq(x.v2, v) || !x.st.provesEq(x.n2, lo) || !x.st.provesEq(x.x2, hi) {
				return "Init stores something else"
			}
			return ""
		}
		if !x.err {
			return "no error although the value is outside the range"
		}
		return ""
	})
	for _, r := range []struct {
		name string
		to   func(x *rc) Lin
	}{{"Reset", func(x *rc) Lin { return x.min }}, {"ResetR", func(x *rc) Lin { return x.max }}} {
		run(r.name, 0, func(x *rc) string {
			if !x.st.provesEq(x.v2, r.to(x)) || !x.st.provesEq(x.min, x.n2) || !x.st.provesEq(x.max, x.x2) {
				return "stores something else than the bound"
			}
			return wantBool(x.st, x.ret[0], true, "result")
		})
	}
	run("InRange", 1, func(x *rc) string { return and(unchanged(x), wantBool(x.st, x.ret[0], in(x, x.a[0]), "result")) })
	run("InCurrentRange", 1, func(x *rc) string {
		w := x.st.cond(x.a[0].Sub(x.min)) && x.st.cond(x.val.Sub(x.a[0]))
		return and(unchanged(x), wantBool(x.st, x.ret[0], w, "result"))
	})
	run("Get", 0, func(x *rc) string {
		return and(unchanged(x), wantInt(x.st, x.ret[0], x.val, "val"), wantInt(x.st, x.ret[1], x.min, "min"), wantInt(x.st, x.ret[2], x.max, "max"))
	})
	run("Val", 0, func(x *rc) string { return and(unchanged(x), wantInt(x.st, x.ret[0], x.val, "val")) })
	run("Min", 0, func(x *rc) string { return and(unchanged(x), wantInt(x.st, x.ret[0], x.min, "min")) })
	run("Max", 0, func(x *rc) string { return and(unchanged(x), wantInt(x.st, x.ret[0], x.max, "max")) })
	c.oblige("New"+typ, func() {
		e := c.engine(sp)
		st := e.newState()
		v, lo, hi := st.fresh(it, "val"), st.fresh(it, "min"), st.fresh(it, "max")
		c.run(e, st, c.fn(sp, "New"+typ), []Value{v, lo, hi}, func(s2 *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			vl, ll, hl := v.(VInt).L, lo.(VInt).L, hi.(VInt).L
			bad := !isNil(ret[1])
			if s2.cond(vl.Sub(ll)) && s2.cond(hl.Sub(vl)) {
				if bad {
					return "an error although the range is valid"
				}
				p := ret[0].(VPtr)
				if p.Obj == 0 {
					return "no object"
				}
				f := s2.heap[p.Obj].v.(VStruct).F
				return and(wantInt(s2, f[vf], vl, "val"), wantInt(s2, f[mn], ll, "min"), wantInt(s2, f[mx], hl, "max"))
			}
			if !bad {
				return "no error although the value is outside the range"
			}
			if !isNil(ret[0]) {
				return "an object is returned with the error"
			}
			return ""
		})
	})
}

// ---- bits ----

func checkBits(c *Ctx) {
	sp := c.pkg("math")
	for _, x := range []struct {
		name  string
		width int64
	}{{"GetBit", 1}, {"GetByte", 8}, {"GetWord", 16}} {
		n := 32 / x.width
		for i := int64(0); i < n; i++ {
			c.oblige(fmt.Sprintf("%s(v, %d)", x.name, i), func() {
				e := c.engine(sp)
				st := e.newState()
				v := st.fresh(types.Typ[types.Uint32], "v")
				c.run(e, st, c.fn(sp, x.name), []Value{v, VInt{K(i)}}, func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					if !isNil(ret[1]) {
						return "an error for an index inside the value"
					}
					q, _ := s.divmod(v.(VInt).L, K(1<<uint(i*x.width)))
					_, r := s.divmod(q, K(1<<uint(x.width)))
					g, ok := ret[0].(VInt)
					if !ok {
						return "result " + vstr(ret[0])
					}
					if s.provesEq(g.L, r) {
						return ""
					}
					a, b := s.bitsOf(g.L, 32), s.bitsOf(v.(VInt).L, 32)
					if s.c.entailsEq(g.L.Sub(s.fromBits(b[i*x.width : (i+1)*x.width]))) {
						return ""
					}
					for j := int64(0); j < 32; j++ {
						w := bit{}
						if j < x.width {
							w = b[i*x.width+j]
						}
						if a[j] != w {
							return fmt.Sprintf("bit %d of the result is wrong", j)
						}
					}
					return ""
				})
			})
		}
		c.oblige(x.name+" for every index outside", func() {
			e := c.engine(sp)
			st := e.newState()
			v, i := st.fresh(types.Typ[types.Uint32], "v"), st.fresh(types.Typ[types.Uint32], "idx")
			st.assume(i.(VInt).L.AddK(-n))
			c.run(e, st, c.fn(sp, x.name), []Value{v, i}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if isNil(ret[1]) {
					return "no error for an index outside the value"
				}
				return wantInt(s, ret[0], K(0), "result")
			})
		})
	}
	for i, b := range []VBool{false, true} {
		for _, f := range []string{"Bool.I", "BToI"} {
			c.oblige(fmt.Sprintf("%s(%v)", f, bool(b)), func() {
				e := c.engine(sp)
				c.run(e, e.newState(), c.fn(sp, f), []Value{b}, func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					return wantInt(s, ret[0], K(int64(i)), "result")
				})
			})
		}
	}
	c.oblige("ItoB for every int", func() {
		e := c.engine(sp)
		st := e.newState()
		v := st.fresh(types.Typ[types.Int], "i")
		c.run(e, st, c.fn(sp, "ItoB"), []Value{v}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			return wantBool(s, ret[0], !s.condEq(v.(VInt).L, K(0)), "result")
		})
	})
}

// ---- comma format ----

func checkComma(c *Ctx) {
	sp := c.pkg("math")
	lo := KU(0)
	for n := 1; n <= 20; n++ {
		hi := KU(^uint64(0))
		if n < 20 {
			p := uint64(1)
			for i := 0; i < n; i++ {
				p *= 10
			}
			hi = KU(p - 1)
		}
		from := lo
		lo = hi.AddK(1)
		c.oblige(fmt.Sprintf("CommaString of every number of %d digits", n), func() {
			e := c.engine(sp)
			e.digits = true
			e.unroll, e.maxPeel = 24, 64
			st := e.newState()
			fn := c.fn(sp, "Uint64.CommaString")
			v := st.fresh(fn.Params[0].Type(), "v")
			l := v.(VInt).L
			st.assume(l.Sub(from))
			st.assume(hi.Sub(l))
			c.run(e, st, fn, []Value{v}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				var want Rope
				for i := n - 1; i >= 0; i-- {
					want = append(want, single(VInt{s.digit(l, i).AddK('0')})...)
					if i > 0 && i%3 == 0 {
						want = append(want, strRope(",")...)
					}
				}
				got := ret[0].(VStr).R
				if !s.provesEq(ropeLen(got), ropeLen(want)) {
					return fmt.Sprintf("the text has %s characters, expected %s", s.c.norm(ropeLen(got)), ropeLen(want))
				}
				if !s.ropeEq(got, s.normRope(want)) {
					return fmt.Sprintf("the text is %s, expected %s", got, want)
				}
				return ""
			})
		})
	}
}
