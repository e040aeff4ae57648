package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
)

func init() {
	props["C24"] = &propCheck{run: checkSmall, minObl: 5}
}

// ---- reflection: every type is a case; what code can see of a type is its identity
// and its kind, so one predeclared and one declared type of every kind stand for all.

type typeWorld struct {
	ts  []types.Type
	ids map[types.Type]int64
}

var kindOfBasic = map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
	types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
	types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return kindOfBasic[u.Kind()]
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func newTypeWorld() *typeWorld {
	w := &typeWorld{ids: map[types.Type]int64{}}
	pk := types.NewPackage("some/where", "where")
	add := func(t types.Type) {
		w.ts = append(w.ts, t)
		n := types.NewNamed(types.NewTypeName(0, pk, fmt.Sprintf("T%d", len(w.ts)), nil), t, nil)
		w.ts = append(w.ts, n)
	}
	for k := types.Bool; k <= types.UnsafePointer; k++ {
		if _, ok := kindOfBasic[k]; ok {
			add(types.Typ[k])
		}
	}
	i := types.Typ[types.Int]
	add(types.NewArray(i, 3))
	add(types.NewChan(types.SendRecv, i))
	add(types.NewSignatureType(nil, nil, nil, nil, nil, false))
	add(types.NewMap(i, i))
	add(types.NewPointer(i))
	add(types.NewSlice(i))
	add(types.NewStruct([]*types.Var{types.NewField(0, pk, "X", i, false)}, nil))
	return w
}

func (w *typeWorld) id(t types.Type) int64 {
	for _, u := range w.ts {
		if types.Identical(t, u) {
			t = u
		}
	}
	if _, ok := w.ids[t]; !ok {
		w.ids[t] = int64(len(w.ids) + 1)
	}
	return w.ids[t]
}

func (w *typeWorld) typeOf(c *callCtx, l Lin) types.Type {
	l = c.st.c.norm(l)
	if l.isK() {
		for t, i := range w.ids {
			if i == l.c.int64() {
				return t
			}
		}
	}
	giveUp("%s: unknown type", c.pos)
	return nil
}

func (w *typeWorld) val(t types.Type) Value {
	l := K(w.id(t))
	return VIface{Opq: &l, Tag: "reflect type"}
}

func (w *typeWorld) install(e *Engine) {
	m := e.models
	iface := func(c *callCtx, v Value) VIface {
		i, ok := v.(VIface)
		if !ok || i.Opq != nil {
			giveUp("%s: reflection on %s", c.pos, vstr(v))
		}
		return i
	}
	m["reflect.TypeOf"] = func(c *callCtx) Value {
		i := iface(c, c.args[0])
		if i.Dyn == nil {
			return VIface{}
		}
		return w.val(i.Dyn)
	}
	m["reflect.ValueOf"] = func(c *callCtx) Value { return VStruct{[]Value{iface(c, c.args[0])}} }
	mk := func(c *callCtx) types.Type {
		i, ok := c.args[0].(VIface)
		if !ok || i.Opq == nil {
			c.st.raise("reflect: nil type")
		}
		return w.typeOf(c, *i.Opq)
	}
	m["reflect.New"] = func(c *callCtx) Value {
		t := mk(c)
		return VStruct{[]Value{VIface{Dyn: types.NewPointer(t), V: VPtr{Obj: c.st.newObj(t, zeroOf(c.st, t), "new")}}}}
	}
	m["reflect.Zero"] = func(c *callCtx) Value {
		t := mk(c)
		return VStruct{[]Value{VIface{Dyn: t, V: zeroOf(c.st, t)}}}
	}
	for _, n := range []string{"reflect.PtrTo", "reflect.PointerTo"} {
		m[n] = func(c *callCtx) Value { return w.val(types.NewPointer(mk(c))) }
	}
	inner := func(c *callCtx) VIface {
		s, ok := c.args[0].(VStruct)
		if !ok || len(s.F) != 1 {
			giveUp("%s: reflect value %s", c.pos, vstr(c.args[0]))
		}
		return s.F[0].(VIface)
	}
	m["(reflect.Value).Interface"] = func(c *callCtx) Value {
		i := inner(c)
		if i.Dyn == nil {
			c.st.raise("reflect: invalid value")
		}
		return i
	}
	m["(reflect.Value).Type"] = func(c *callCtx) Value {
		i := inner(c)
		if i.Dyn == nil {
			c.st.raise("reflect: invalid value")
		}
		return w.val(i.Dyn)
	}
	m["(reflect.Value).Kind"] = func(c *callCtx) Value {
		i := inner(c)
		if i.Dyn == nil {
			return VInt{K(0)}
		}
		return VInt{K(int64(kindOf(i.Dyn)))}
	}
	m["(reflect.Value).IsValid"] = func(c *callCtx) Value { return VBool(inner(c).Dyn != nil) }
	m["(reflect.Value).Elem"] = func(c *callCtx) Value {
		i := inner(c)
		p, ok := i.V.(VPtr)
		if !ok || p.Obj == 0 {
			giveUp("%s: element of %s", c.pos, vstr(i))
		}
		return VStruct{[]Value{VIface{Dyn: i.Dyn.Underlying().(*types.Pointer).Elem(), V: c.st.load(p)}}}
	}
	e.invoke = func(c *callCtx, recv VIface, method string) (Value, bool) {
		if recv.Opq == nil || recv.Tag != "reflect type" {
			return nil, false
		}
		t := w.typeOf(c, *recv.Opq)
		switch method {
		case "Kind":
			return VInt{K(int64(kindOf(t)))}, true
		case "Comparable":
			return VBool(types.Comparable(t)), true
		case "Elem":
			if p, ok := t.Underlying().(*types.Pointer); ok {
				return w.val(p.Elem()), true
			}
		case "PkgPath":
			if n, ok := t.(*types.Named); ok {
				return VStr{strRope(n.Obj().Pkg().Path())}, true
			}
			return VStr{}, true
		}
		return nil, false
	}
}

func zeroOf(st *State, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Chan:
		return VOpq{K(0), "chan"}
	case *types.Basic:
		if u.Info()&types.IsComplex != 0 || u.Kind() == types.UnsafePointer {
			return VOpq{K(0), u.Name()}
		}
	}
	return st.eng.zero(t)
}

// ---- floats: the difference of the arguments is a case of its own

type fclass struct {
	nan    bool
	lo, hi *big.Rat // nil: unbounded; equal: a point; otherwise open
	inf    int      // an infinity
}

func (f fclass) neg() fclass {
	n := func(r *big.Rat) *big.Rat {
		if r == nil {
			return nil
		}
		return new(big.Rat).Neg(r)
	}
	return fclass{f.nan, n(f.hi), n(f.lo), -f.inf}
}

func (f fclass) point() bool { return f.lo != nil && f.hi != nil && f.lo.Cmp(f.hi) == 0 }

// cmp compares with a number: 1, 0, -1, or 2 when undecided (3: not comparable).
func (f fclass) cmp(q *big.Rat) int {
	switch {
	case f.nan:
		return 3
	case f.inf != 0:
		return f.inf
	case f.point():
		return f.lo.Cmp(q)
	case f.lo != nil && f.lo.Cmp(q) >= 0:
		return 1
	case f.hi != nil && f.hi.Cmp(q) <= 0:
		return -1
	}
	return 2
}

type floatWorld struct {
	d       fclass
	classes []fclass
}

func (w *floatWorld) put(f fclass) Value {
	w.classes = append(w.classes, f)
	return VOpq{K(int64(len(w.classes) - 1)), "float class"}
}

func (w *floatWorld) rel(st *State, op token.Token, c int) Value {
	if c == 3 {
		return VBool(false)
	}
	if c == 2 {
		c = st.choose(3) - 1
	}
	switch op {
	case token.LSS:
		return VBool(c < 0)
	case token.LEQ:
		return VBool(c <= 0)
	case token.GTR:
		return VBool(c > 0)
	case token.GEQ:
		return VBool(c >= 0)
	case token.EQL:
		return VBool(c == 0)
	case token.NEQ:
		return VBool(c != 0)
	}
	giveUp("operator %s on floats", op)
	return nil
}

func (w *floatWorld) op(st *State, op token.Token, a, b Value) Value {
	type arg struct {
		name string
		cl   *fclass
		k    *big.Rat
	}
	get := func(v Value) arg {
		o, ok := v.(VOpq)
		if !ok {
			giveUp("float %s", vstr(v))
		}
		switch o.Tag {
		case "arg a", "arg b":
			return arg{name: o.Tag}
		case "float class":
			return arg{cl: &w.classes[o.L.c.int64()]}
		}
		if o.L.isK() && o.L.c.sign() == 0 {
			return arg{k: new(big.Rat)}
		}
		if s, ok := o.L.onlySym(); ok {
			if d := symDefOf(s); d != nil && d.op == "float" {
				if r, ok := new(big.Rat).SetString(d.tag); ok {
					f, _ := r.Float64()
					return arg{k: new(big.Rat).SetFloat64(f)}
				}
			}
		}
		giveUp("float %s", vstr(v))
		return arg{}
	}
	x := get(a)
	if b == nil {
		switch {
		case x.cl != nil:
			return w.put(x.cl.neg())
		case x.k != nil:
			r := new(big.Rat).Neg(x.k)
			return w.put(fclass{lo: r, hi: r})
		}
		giveUp("negation of an argument")
	}
	y := get(b)
	if x.name != "" && y.name != "" {
		d := w.d
		if x.name == y.name {
			giveUp("an argument with itself")
		}
		if x.name == "arg b" {
			d = d.neg()
		}
		if op == token.SUB {
			return w.put(d)
		}
		if d.nan { // both infinite alike, or one is no number
			if (op == token.LEQ || op == token.GEQ || op == token.EQL) && st.choose(2) == 0 {
				return VBool(true)
			}
			return VBool(op == token.NEQ)
		}
		return w.rel(st, op, d.cmp(new(big.Rat)))
	}
	if x.k != nil && y.cl != nil {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if x.cl != nil && y.k != nil {
		if x.cl.nan && op == token.NEQ {
			return VBool(true)
		}
		return w.rel(st, op, x.cl.cmp(y.k))
	}
	if x.cl != nil && y.cl != nil && y.cl.point() {
		return w.rel(st, op, x.cl.cmp(y.cl.lo))
	}
	if x.cl != nil && y.cl != nil && x.cl.point() {
		return w.rel(st, op, -map[int]int{0: 0, 1: 1, -1: -1, 2: -2, 3: -3}[y.cl.cmp(x.cl.lo)])
	}
	giveUp("operator %s on floats", op)
	return nil
}

func (w *floatWorld) install(e *Engine) {
	e.floatOp = w.op
	cl := func(c *callCtx) fclass {
		o, ok := c.args[0].(VOpq)
		if !ok || o.Tag != "float class" {
			giveUp("%s: function of %s", c.pos, vstr(c.args[0]))
		}
		return w.classes[o.L.c.int64()]
	}
	e.models["math.Abs"] = func(c *callCtx) Value {
		f := cl(c)
		if f.cmp(new(big.Rat)) == -1 {
			f = f.neg()
		}
		return w.put(f)
	}
	e.models["math.IsNaN"] = func(c *callCtx) Value { return VBool(cl(c).nan) }
}

func checkSmall(c *Ctx) {
	sp := c.pkg("reflect")
	each := func(name string, fn string, nilToo bool, judge func(w *typeWorld, t types.Type, s *State, ret Value) string) {
		c.oblige(name, func() {
			w := newTypeWorld()
			ts := append([]types.Type{}, w.ts...)
			if nilToo {
				ts = append(ts, nil)
			}
			for _, t := range ts {
				e := c.engine(sp)
				st := e.newState()
				w.install(e)
				arg := VIface{}
				if t != nil {
					arg = VIface{Dyn: t, V: sampleOf(st, t)}
				}
				old := e.objCount
				c.run(e, st, c.fn(sp, fn), []Value{arg}, func(s *State, ret []Value, pan *progPanic) string {
					what := "nil"
					if t != nil {
						what = t.String()
					}
					if pan != nil {
						return "for " + what + ": " + panMsg(pan)
					}
					if fn == "New" {
						r, ok := ret[0].(VIface)
						if !ok || r.Dyn == nil || !types.Identical(r.Dyn, types.NewPointer(t)) {
							return "for " + what + ": returns " + vstr(ret[0])
						}
						p, ok := r.V.(VPtr)
						if !ok || p.Obj <= old || len(p.Path) > 0 {
							return "for " + what + ": the value pointed to is not new"
						}
						return ""
					}
					if m := judge(w, t, s, ret[0]); m != "" {
						return "for " + what + ": " + m
					}
					return ""
				})
			}
		})
	}
	each("New: a new value of the sample's type", "New", false, nil)
	each("Kind: the dynamic type's kind", "Kind", false, func(w *typeWorld, t types.Type, s *State, ret Value) string {
		if v, ok := ret.(VInt); !ok || !s.c.entailsEq(v.L.AddK(-int64(kindOf(t)))) {
			return "the kind is " + vstr(ret) + ", expected " + kindOf(t).String()
		}
		return ""
	})
	each("IsCmpableInnterType: exactly the predeclared ordered types", "IsCmpableInnterType", true, func(w *typeWorld, t types.Type, s *State, ret Value) string {
		want := false
		if b, ok := t.(*types.Basic); ok {
			want = b.Info()&types.IsOrdered != 0 && b.Kind() != types.Uintptr
		}
		if v, ok := ret.(VBool); !ok || bool(v) != want {
			return "returns " + vstr(ret)
		}
		return ""
	})
	c.oblige("IsSameType: identical dynamic types", func() {
		w := newTypeWorld()
		ts := append(append([]types.Type{}, w.ts...), nil)
		e := c.engine(sp)
		w.install(e)
		for _, t := range ts {
			for _, u := range ts {
				st := e.newState()
				v := func(t types.Type) VIface {
					if t == nil {
						return VIface{}
					}
					return VIface{Dyn: t, V: sampleOf(st, t)}
				}
				c.run(e, st, c.fn(sp, "IsSameType"), []Value{v(t), v(u)}, func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					if b, ok := ret[0].(VBool); !ok || bool(b) != (t == u) {
						return fmt.Sprintf("for %v and %v: returns %s", t, u, vstr(ret[0]))
					}
					return ""
				})
			}
		}
	})
	c.oblige("Equal: every pair of floats", func() {
		mp := c.pkg("math")
		fn := c.fn(mp, "Equal")
		eps := new(big.Rat).SetFloat64(1e-6)
		pt := func(r *big.Rat) fclass { return fclass{lo: r, hi: r} }
		zero, neg := new(big.Rat), new(big.Rat).Neg(eps)
		for _, x := range []struct {
			d    fclass
			want bool
		}{
			{fclass{nan: true}, false}, {fclass{inf: -1}, false}, {fclass{hi: neg}, false}, {pt(neg), false},
			{fclass{lo: neg, hi: zero}, true}, {pt(zero), true}, {fclass{lo: zero, hi: eps}, true},
			{pt(eps), false}, {fclass{lo: eps}, false}, {fclass{inf: 1}, false},
		} {
			e := c.engine(mp)
			st := e.newState()
			w := &floatWorld{d: x.d}
			w.install(e)
			c.run(e, st, fn, []Value{VOpq{symLin(newSym("a")), "arg a"}, VOpq{symLin(newSym("b")), "arg b"}}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if b, ok := ret[0].(VBool); !ok || bool(b) != x.want {
					return fmt.Sprintf("when the difference is %s the result is %s", x.d, vstr(ret[0]))
				}
				return ""
			})
		}
	})
}

func (f fclass) String() string {
	switch {
	case f.nan:
		return "not a number"
	case f.inf != 0:
		return "infinite"
	case f.point():
		return "exactly " + f.lo.FloatString(9)
	}
	p := func(r *big.Rat) string {
		if r == nil {
			return "unbounded"
		}
		return r.FloatString(9)
	}
	return "between " + p(f.lo) + " and " + p(f.hi)
}

func sampleOf(st *State, t types.Type) Value {
	switch t.Underlying().(type) {
	case *types.Basic, *types.Slice, *types.Pointer:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 && b.Info()&types.IsInteger == 0 {
			return VOpq{symLin(newSym("sample")), "sample"}
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return VOpq{symLin(newSym("sample")), "sample"}
		}
		return st.fresh(t, "sample")
	}
	return VOpq{symLin(newSym("sample")), "sample"}
}
