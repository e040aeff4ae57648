package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C01"] = &propCheck{run: func(c *Ctx) { checkRing(c, "IntDeque", "NewGOGPDequeNamePrefixDeque", dequeOps) }, minObl: 30}
	props["C02"] = &propCheck{run: func(c *Ctx) { checkRing(c, "IntQueue", "NewGOGPQueueNamePrefixQueue", queueOps) }, minObl: 28}
	props["C03"] = &propCheck{run: checkStack, minObl: 16}
	props["C04"] = &propCheck{run: checkSortSlice, minObl: 56}
}

// ringOp is a method of a circular container and its meaning on sequences.
type ringOp struct {
	name string
	// spec gives the expected contents and results for the contents before.
	spec func(x *ringCase) string
	args func(st *State) []Value
}

type ringRoles struct{ d, head, tail int }

// ringCase is one outcome to be judged.
type ringCase struct {
	st        *State
	args      []Value
	ret       []Value
	obj       ObjID
	r         ringRoles
	before    Rope
	bufBefore VSlice
	after     Rope
}

// ringAbs reads the contents of a ring buffer; msg reports a broken invariant.
func (st *State) ringAbs(obj ObjID, r ringRoles) (rope Rope, buf VSlice, msg string) {
	f := st.heap[obj].v.(VStruct).F
	d := f[r.d].(VSlice)
	h, t := f[r.head].(VInt).L, f[r.tail].(VInt).L
	if d.Arr == 0 {
		if !st.c.entailsEq(h) || !st.c.entailsEq(t) {
			return nil, d, fmt.Sprintf("buffer is nil but head=%s tail=%s", h, t)
		}
		return nil, d, ""
	}
	c := st.content(d)
	if !st.c.entails(h) || !st.c.entails(t) || !st.c.entails(d.Len.Sub(h).AddK(-1)) || !st.c.entails(d.Len.Sub(t).AddK(-1)) {
		return nil, d, fmt.Sprintf("head %s or tail %s may lie outside the buffer of length %s", h, t, d.Len)
	}
	if st.cond(t.Sub(h)) {
		return st.sub(c, h, t.Sub(h)), d, ""
	}
	a := st.sub(c, h, d.Len.Sub(h))
	b := st.sub(c, K(0), t)
	return append(append(Rope{}, a...), b...), d, ""
}

func (x *ringCase) wantAfter(r Rope, what string) string {
	if !x.st.ropeEq(x.after, r) {
		return fmt.Sprintf("%s: contents are %s, expected %s", what, x.st.normRope(x.after), x.st.normRope(r))
	}
	return ""
}

func wantBool(st *State, v Value, b bool, what string) string {
	g, ok := v.(VBool)
	if !ok || bool(g) != b {
		return fmt.Sprintf("%s is %s, expected %v", what, vstr(v), b)
	}
	return ""
}

func wantInt(st *State, v Value, l Lin, what string) string {
	g, ok := v.(VInt)
	if !ok || !st.provesEq(g.L, l) {
		return fmt.Sprintf("%s is %s, expected %s", what, vstr(v), l)
	}
	return ""
}

func wantSame(st *State, v, w Value, what string) string {
	if !st.sameVal(v, w) {
		return fmt.Sprintf("%s is %s, expected %s", what, vstr(v), vstr(w))
	}
	return ""
}

func and(msgs ...string) string {
	for _, m := range msgs {
		if m != "" {
			return m
		}
	}
	return ""
}

func opPush(front bool) func(x *ringCase) string {
	return func(x *ringCase) string {
		v := single(x.args[0])
		var want Rope
		if front {
			want = append(append(Rope{}, v...), x.before...)
		} else {
			want = append(append(Rope{}, x.before...), v...)
		}
		return and(wantBool(x.st, x.ret[0], true, "result of a push"), x.wantAfter(want, "push"))
	}
}

func opPop(front, remove bool) func(x *ringCase) string {
	return func(x *ringCase) string {
		st := x.st
		n := ropeLen(x.before)
		if st.condEq(n, K(0)) {
			return and(wantBool(st, x.ret[1], false, "ok on an empty container"), wantInt(st, x.ret[0], K(0), "value on an empty container"), x.wantAfter(nil, "empty"))
		}
		st.assume(n.AddK(-1))
		pos, from := K(0), K(1)
		if !front {
			pos, from = n.AddK(-1), K(0)
		}
		want := x.before
		if remove {
			want = st.sub(x.before, from, n.AddK(-1))
		}
		el := st.read(x.before, pos)
		return and(wantBool(st, x.ret[1], true, "ok"), wantSame(st, x.ret[0], el, "returned element"), x.wantAfter(want, "after"))
	}
}

func opSize(x *ringCase) string {
	return and(wantInt(x.st, x.ret[0], ropeLen(x.before), "Size"), x.wantAfter(x.before, "Size"))
}

func opEmpty(x *ringCase) string {
	e := x.st.condEq(ropeLen(x.before), K(0))
	return and(wantBool(x.st, x.ret[0], e, "Empty"), x.wantAfter(x.before, "Empty"))
}

func opClear(x *ringCase) string { return x.wantAfter(nil, "cleared") }

func opShrink(x *ringCase) string {
	st := x.st
	d := st.heap[x.obj].v.(VStruct).F[x.r.d].(VSlice)
	ok, isB := x.ret[0].(VBool)
	if !isB {
		return "result of Shrink is " + vstr(x.ret[0])
	}
	oldLen, newLen := valLen(st, x.bufBefore), valLen(st, d)
	if bool(ok) {
		if !st.c.entails(oldLen.Sub(newLen).AddK(-1)) {
			return fmt.Sprintf("Shrink reports true but the buffer went from %s to %s", oldLen, newLen)
		}
	} else if !st.c.entailsEq(newLen.Sub(oldLen)) {
		return fmt.Sprintf("Shrink reports false but the buffer went from %s to %s", oldLen, newLen)
	}
	return x.wantAfter(x.before, "Shrink")
}

func intArg(name string) func(st *State) []Value {
	return func(st *State) []Value { return []Value{st.fresh(types.Typ[types.Int], name)} }
}

var dequeOps = []ringOp{
	{"PushFront", opPush(true), intArg("v")}, {"PushBack", opPush(false), intArg("v")},
	{"PopFront", opPop(true, true), nil}, {"PopBack", opPop(false, true), nil},
	{"Front", opPop(true, false), nil}, {"Back", opPop(false, false), nil},
	{"Shrink", opShrink, nil}, {"Clear", opClear, nil}, {"Init", opClear, intArg("bufSize")},
	{"Size", opSize, nil}, {"Empty", opEmpty, nil},
}

var queueOps = []ringOp{
	{"Push", opPush(false), intArg("v")}, {"Pop", opPop(true, true), nil},
	{"Front", opPop(true, false), nil}, {"Back", opPop(false, false), nil},
	{"Shrink", opShrink, nil}, {"Clear", opClear, nil}, {"Init", opClear, intArg("bufSize")},
	{"Size", opSize, nil}, {"Empty", opEmpty, nil},
}

func structOf(sp *ssa.Package, name string) (types.Type, *types.Struct) {
	m, ok := sp.Members[name].(*ssa.Type)
	if !ok {
		giveUp("type %s.%s not found", sp.Pkg.Path(), name)
	}
	s, ok := m.Type().Underlying().(*types.Struct)
	if !ok {
		giveUp("type %s is not a struct", name)
	}
	return m.Type(), s
}

func fieldLike(s *types.Struct, names ...string) int {
	for _, n := range names {
		for i := 0; i < s.NumFields(); i++ {
			if strings.EqualFold(s.Field(i).Name(), n) {
				return i
			}
		}
	}
	return -1
}

func checkRing(c *Ctx, typ, ctor string, ops []ringOp) {
	sp := c.pkg("stl")
	t, s := structOf(sp, typ)
	var ints []int
	d := -1
	for i := 0; i < s.NumFields(); i++ {
		if isInt(s.Field(i).Type()) {
			ints = append(ints, i)
		} else if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
			d = i
		}
	}
	if d < 0 || len(ints) != 2 {
		giveUp("%s is not a slice with two cursors", typ)
	}
	h, tl := fieldLike(s, "head", "h", "first", "front"), fieldLike(s, "tail", "t", "last", "end")
	if h < 0 || tl < 0 {
		h, tl = ints[0], ints[1]
	}
	all := func(r ringRoles) func() { return func() { checkRingRoles(c, sp, t, typ, ctor, ops, r) } }
	c.firstOf(all(ringRoles{d, h, tl}), all(ringRoles{d, tl, h}))
}

func checkRingRoles(c *Ctx, sp *ssa.Package, t types.Type, typ, ctor string, ops []ringOp, r ringRoles) {
	elem := t.Underlying().(*types.Struct).Field(r.d).Type().Underlying().(*types.Slice).Elem()
	parts := []string{"nil buffer", "contiguous", "wrapped"}
	mk := func(e *Engine, st *State, part int) ObjID {
		z := e.zero(t).(VStruct)
		if part > 0 {
			buf := st.fresh(types.NewSlice(elem), "d").(VSlice)
			st.assume(buf.Len.AddK(-1))
			h, tl := symLin(newSym("head")), symLin(newSym("tail"))
			st.assume(h)
			st.assume(tl)
			st.assume(buf.Len.Sub(h).AddK(-1))
			st.assume(buf.Len.Sub(tl).AddK(-1))
			if part == 1 {
				st.assume(tl.Sub(h))
			} else {
				st.assume(h.Sub(tl).AddK(-1))
			}
			z.F[r.d], z.F[r.head], z.F[r.tail] = buf, VInt{h}, VInt{tl}
		}
		return st.newObj(t, z, typ)
	}
	for _, op := range ops {
		for pi, pn := range parts {
			c.oblige(fmt.Sprintf("%s.%s on a %s", typ, op.name, pn), func() {
				e := c.engine(sp)
				st := e.newState()
				obj := mk(e, st, pi)
				before, buf, _ := st.ringAbs(obj, r)
				var args []Value
				if op.args != nil {
					args = op.args(st)
				}
				fn := c.fn(sp, typ+"."+op.name)
				c.run(e, st, fn, append([]Value{VPtr{Obj: obj}}, args...), func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					after, _, msg := s.ringAbs(obj, r)
					if msg != "" {
						return msg
					}
					return op.spec(&ringCase{st: s, args: args, ret: ret, obj: obj, r: r, before: before, bufBefore: buf, after: after})
				})
			})
		}
	}
	c.oblige(ctor+" makes an empty container", func() {
		e := c.engine(sp)
		st := e.newState()
		a := st.fresh(types.Typ[types.Int], "bufSize")
		c.run(e, st, c.fn(sp, ctor), []Value{a}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			p, ok := ret[0].(VPtr)
			if !ok || p.Obj == 0 {
				return "constructor returns " + vstr(ret[0])
			}
			r, _, msg := s.ringAbs(p.Obj, r)
			if msg != "" {
				return msg
			}
			if !s.ropeEq(r, nil) {
				return "a new container is not empty"
			}
			return ""
		})
	})
}

// ---- slice-backed containers ----

type sliceCase struct {
	st     *State
	args   []Value
	ret    []Value
	pan    *progPanic
	before Rope
	after  Rope
	zero   Value
	obj    ObjID
}

func (x *sliceCase) wantAfter(r Rope, what string) string {
	if !x.st.ropeEq(x.after, r) {
		return fmt.Sprintf("%s: contents are %s, expected %s", what, x.st.normRope(x.after), x.st.normRope(r))
	}
	return ""
}

type sliceOp struct {
	name string
	args func(st *State) []Value
	spec func(x *sliceCase) string
}

// checkSliceType checks methods of a struct whose contents are its one slice field.
func checkSliceType(c *Ctx, sp *ssa.Package, typ string, ops []sliceOp) {
	t, s := structOf(sp, typ)
	d := -1
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
			d = i
		}
	}
	if d < 0 || s.NumFields() != 1 {
		giveUp("%s is not a struct around one slice", typ)
	}
	elem := s.Field(d).Type().Underlying().(*types.Slice).Elem()
	for _, op := range ops {
		for pi, pn := range []string{"nil slice", "slice"} {
			c.oblige(fmt.Sprintf("%s.%s on a %s", typ, op.name, pn), func() {
				e := c.engine(sp)
				st := e.newState()
				z := e.zero(t).(VStruct)
				if pi == 1 {
					z.F[d] = st.fresh(types.NewSlice(elem), "d")
				}
				obj := st.newObj(t, z, typ)
				before := st.content(z.F[d].(VSlice))
				var args []Value
				if op.args != nil {
					args = op.args(st)
				}
				fn := c.fn(sp, typ+"."+op.name)
				c.run(e, st, fn, append([]Value{VPtr{Obj: obj}}, args...), func(s *State, ret []Value, pan *progPanic) string {
					after := s.content(s.heap[obj].v.(VStruct).F[d].(VSlice))
					return op.spec(&sliceCase{st: s, args: args, ret: ret, pan: pan, before: before, after: after, zero: e.zero(elem), obj: obj})
				})
			})
		}
	}
}

func noPanic(f func(x *sliceCase) string) func(x *sliceCase) string {
	return func(x *sliceCase) string {
		if x.pan != nil {
			return panMsg(x.pan)
		}
		return f(x)
	}
}

func slicePop(remove bool) func(x *sliceCase) string {
	return noPanic(func(x *sliceCase) string {
		st := x.st
		n := ropeLen(x.before)
		if st.condEq(n, K(0)) {
			return and(wantBool(st, x.ret[1], false, "ok when empty"), wantSame(st, x.ret[0], x.zero, "value when empty"), x.wantAfter(nil, "empty"))
		}
		st.assume(n.AddK(-1))
		want := x.before
		if remove {
			want = st.sub(x.before, K(0), n.AddK(-1))
		}
		return and(wantBool(st, x.ret[1], true, "ok"), wantSame(st, x.ret[0], st.read(x.before, n.AddK(-1)), "returned element"), x.wantAfter(want, "after"))
	})
}

func checkStack(c *Ctx) {
	sp := c.pkg("stl")
	ops := []sliceOp{
		{"Push", intArg("v"), noPanic(func(x *sliceCase) string {
			return and(wantBool(x.st, x.ret[0], true, "result"), x.wantAfter(append(append(Rope{}, x.before...), single(x.args[0])...), "push"))
		})},
		{"Pop", nil, slicePop(true)}, {"Top", nil, slicePop(false)},
		{"Size", nil, noPanic(func(x *sliceCase) string {
			return and(wantInt(x.st, x.ret[0], ropeLen(x.before), "Size"), x.wantAfter(x.before, "Size"))
		})},
		{"Empty", nil, noPanic(func(x *sliceCase) string {
			return and(wantBool(x.st, x.ret[0], x.st.condEq(ropeLen(x.before), K(0)), "Empty"), x.wantAfter(x.before, "Empty"))
		})},
		{"Clear", nil, noPanic(func(x *sliceCase) string { return x.wantAfter(nil, "cleared") })},
		{"Init", intArg("bufSize"), noPanic(func(x *sliceCase) string { return x.wantAfter(nil, "initialised") })},
	}
	checkSliceType(c, sp, "IntStack", ops)
	checkSliceCtor(c, sp, "IntStack", "NewGOGPStackNamePrefixStack", false)
}

// checkSliceCtor: the constructor yields an empty container (negLen: a negative size may panic).
func checkSliceCtor(c *Ctx, sp *ssa.Package, typ, ctor string, negMayPanic bool) {
	c.oblige(ctor+" makes an empty container", func() {
		e := c.engine(sp)
		st := e.newState()
		a := st.fresh(types.Typ[types.Int], "size")
		c.run(e, st, c.fn(sp, ctor), []Value{a}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				if negMayPanic && s.c.entails(a.(VInt).L.Neg().AddK(-1)) {
					return ""
				}
				return panMsg(pan)
			}
			p, ok := ret[0].(VPtr)
			if !ok || p.Obj == 0 {
				return "constructor returns " + vstr(ret[0])
			}
			sl, ok := s.heap[p.Obj].v.(VStruct).F[0].(VSlice)
			if !ok || !s.ropeEq(s.content(sl), nil) {
				return "a new container is not empty"
			}
			return ""
		})
	})
}

// the instances of the sort slice: package and type
var sortSlices = [][2]string{{"stl", "IntSortSlice"}, {"stl", "IntTreeNodeSortSlice"}, {"fs", "FileHashSortSlice"}}

func checkSortSlice(c *Ctx) {
	for _, x := range sortSlices {
		sp, typ := c.pkg(x[0]), x[1]
		t, s := structOf(sp, typ)
		_ = t
		elem := s.Field(0).Type().Underlying().(*types.Slice).Elem()
		el := func(st *State) Value { return st.fresh(elem, "v") }
		idx := func(st *State) Value { return st.fresh(types.Typ[types.Int], "idx") }
		inside := func(x *sliceCase, i Lin) bool {
			return x.st.cond(i) && x.st.cond(ropeLen(x.before).Sub(i).AddK(-1))
		}
		ops := []sliceOp{
			{"Push", func(st *State) []Value { return []Value{el(st)} }, noPanic(func(x *sliceCase) string {
				return and(wantInt(x.st, x.ret[0], ropeLen(x.before).AddK(1), "new length"), x.wantAfter(append(append(Rope{}, x.before...), single(x.args[0])...), "push"))
			})},
			{"Insert", func(st *State) []Value { return []Value{el(st), idx(st)} }, noPanic(func(x *sliceCase) string {
				st := x.st
				want := append(append(Rope{}, x.before...), single(x.args[0])...)
				if i := x.args[1].(VInt).L; inside(x, i) {
					a, b := st.split(x.before, i)
					want = append(append(append(Rope{}, a...), single(x.args[0])...), b...)
				}
				return and(wantInt(st, x.ret[0], ropeLen(x.before).AddK(1), "new length"), x.wantAfter(want, "insert"))
			})},
			{"Remove", func(st *State) []Value { return []Value{idx(st)} }, noPanic(func(x *sliceCase) string {
				st := x.st
				i := x.args[0].(VInt).L
				if !inside(x, i) {
					return and(wantBool(st, x.ret[1], false, "ok outside"), x.wantAfter(x.before, "remove outside"))
				}
				a, b := st.split(x.before, i)
				_, b = st.split(b, K(1))
				return and(wantBool(st, x.ret[1], true, "ok"), wantSame(st, x.ret[0], st.read(x.before, i), "removed element"),
					x.wantAfter(append(append(Rope{}, a...), b...), "remove"))
			})},
			{"Pop", nil, slicePop(true)},
			{"Get", func(st *State) []Value { return []Value{idx(st)} }, noPanic(func(x *sliceCase) string {
				st := x.st
				i := x.args[0].(VInt).L
				if !inside(x, i) {
					return and(wantBool(st, x.ret[1], false, "ok outside"), x.wantAfter(x.before, "get outside"))
				}
				return and(wantBool(st, x.ret[1], true, "ok"), wantSame(st, x.ret[0], st.read(x.before, i), "element"), x.wantAfter(x.before, "get"))
			})},
			{"MustGet", func(st *State) []Value { return []Value{idx(st)} }, func(x *sliceCase) string {
				st := x.st
				i := x.args[0].(VInt).L
				if !inside(x, i) {
					if x.pan == nil {
						return "MustGet does not panic for an index outside"
					}
					return ""
				}
				if x.pan != nil {
					return panMsg(x.pan)
				}
				return and(wantSame(st, x.ret[0], st.read(x.before, i), "element"), x.wantAfter(x.before, "mustget"))
			}},
			{"Len", nil, noPanic(func(x *sliceCase) string {
				return and(wantInt(x.st, x.ret[0], ropeLen(x.before), "Len"), x.wantAfter(x.before, "Len"))
			})},
			{"Buffer", nil, noPanic(func(x *sliceCase) string {
				s, ok := x.ret[0].(VSlice)
				if !ok || !x.st.ropeEq(x.st.content(s), x.before) {
					return "Buffer shows something else than the contents"
				}
				return x.wantAfter(x.before, "Buffer")
			})},
			{"Swap", func(st *State) []Value { return []Value{idx(st), idx(st)} }, func(x *sliceCase) string {
				st := x.st
				i, j := x.args[0].(VInt).L, x.args[1].(VInt).L
				if !inside(x, i) || !inside(x, j) {
					return "" // the sort package only passes indexes inside
				}
				if x.pan != nil {
					return panMsg(x.pan)
				}
				vi, vj := st.read(x.before, i), st.read(x.before, j)
				return x.wantAfter(st.write(st.write(x.before, i, vj), j, vi), "swap")
			}},
		}
		checkSliceType(c, sp, typ, ops)
		checkSliceCtor(c, sp, typ, "New"+typ, true)
	}
}
