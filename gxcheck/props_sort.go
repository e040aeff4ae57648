package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C26"] = &propCheck{par: true, run: checkSort, minObl: 13}
}

// sortWorld judges calls of the library's sort routines: what they are given (length,
// comparison, exchange) must be exactly the contents of a slice and the ascending order
// of the keys; then the slice holds a sorted permutation afterwards.
type sortWorld struct {
	keys *Seq // key of a node
	elem types.Type
	vf   int
	vt   types.Type // the type of the value of a node
	path []pathEl   // where the object has the slice
	obj  ObjID
}

func (w *sortWorld) key(s *State, v Value) Value {
	switch v := v.(type) {
	case VInt:
		return v
	case VOpq:
		num := func(t types.Type) Value {
			l := symLin(s.appSym(w.keys, v.L))
			lo, hi := intRange(basicOf(t))
			s.assume(l.Sub(kn(lo)))
			s.assume(kn(hi).Sub(l))
			return VInt{l}
		}
		if isInt(w.vt) {
			return num(w.vt)
		}
		size, _, _ := hashFields(w.vt)
		u := w.vt.Underlying().(*types.Struct)
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = VJunk{}
			if i == size {
				f[i] = num(u.Field(i).Type())
			} else if isString(u.Field(i).Type()) {
				f[i] = s.fnStr("node "+s.c.norm(v.L).key()+"."+u.Field(i).Name(), "node."+u.Field(i).Name())
			}
		}
		return VStruct{f}
	}
	giveUp("key of %s", vstr(v))
	return nil
}

func (w *sortWorld) slice(s *State) VSlice {
	b, ok := s.getPath(s.heap[w.obj].v, w.path).(VSlice)
	if !ok {
		giveUp("the slice is gone")
	}
	return b
}

// index gives any index inside.
func (w *sortWorld) index(s *State, n Lin, name string) Value {
	i := s.fresh(types.Typ[types.Int], name)
	s.assume(i.(VInt).L)
	s.assume(n.Sub(i.(VInt).L).AddK(-1))
	return i
}

// try runs a callback of a sort routine on a copy of the state.
func (w *sortWorld) try(c *callCtx, s *State, what string, f VFunc, args []Value, ret types.Type, post func(s *State, ret []Value) string) {
	var rs *types.Tuple
	if ret != nil {
		rs = types.NewTuple(types.NewVar(0, nil, "", ret))
	}
	sig := types.NewSignatureType(nil, nil, nil, nil, rs, false)
	for _, o := range c.e.callValue(s.clone(), f, args, c.inst, sig) {
		if o.pan != nil {
			giveUp("%s: %s panics: %s", c.pos, what, o.pan.why)
		}
		for _, x := range c.e.fork(o.st, func(s *State) Value { return post(s, o.ret) }) {
			if x.pan != nil {
				giveUp("%s: %s: %s", c.pos, what, x.pan.why)
			}
			if m, _ := x.v.(string); m != "" {
				giveUp("%s: %s: %s", c.pos, what, m)
			}
		}
	}
}

// less: the outcome must be whether the key of the element i is below that of j.
func (w *sortWorld) less(c *callCtx, s *State, b VSlice, f VFunc, recv []Value) {
	s = s.clone()
	r := s.content(b)
	if s.c.entailsEq(b.Len) {
		return
	}
	s.assume(b.Len.AddK(-1))
	i, j := w.index(s, b.Len, "i"), w.index(s, b.Len, "j")
	w.try(c, s, "the comparison", f, append(append([]Value{}, recv...), i, j), types.Typ[types.Bool], func(s *State, ret []Value) string {
		ki, kj := w.key(s, s.read(r, i.(VInt).L)), w.key(s, s.read(r, j.(VInt).L))
		if !s.ropeEq(s.content(b), r) {
			return "it changes the slice"
		}
		return wantBool(s, ret[0], s.keyLess(w.vt, ki, kj), "its result on any two elements")
	})
}

// sorted: the slice holds a sorted permutation of what it held.
func (w *sortWorld) sorted(s *State, b VSlice) Value {
	r := s.content(b)
	q := newSeq("sorted", w.elem)
	q.fixed = true
	s.ghost["sorted:"+q.name+fmt.Sprint(q.id)] = VStr{r}
	if b.Arr != 0 && !s.c.entailsEq(b.Len) {
		s.spliceArr(b, b.Off, seqRope(q, K(0), b.Len))
	}
	return VTuple{}
}

func (w *sortWorld) install(e *Engine) {
	whole := func(c *callCtx) Value {
		it, ok := c.args[0].(VIface)
		if !ok || it.Dyn == nil || it.Opq != nil {
			giveUp("%s: the object to sort is %s", c.pos, vstr(c.args[0]))
		}
		if n, ok := it.Dyn.(*types.Named); ok && n.String() == "sort.IntSlice" {
			return w.sorted(c.st, it.V.(VSlice))
		}
		b := w.slice(c.st)
		w.try(c, c.st, "Len", VFunc{Builtin: "invoke:Len"}, []Value{it}, types.Typ[types.Int], func(s *State, ret []Value) string {
			return wantInt(s, ret[0], b.Len, "the length")
		})
		w.less(c, c.st, b, VFunc{Builtin: "invoke:Less"}, []Value{it})
		if !c.st.c.entailsEq(b.Len) {
			s := c.st.clone()
			s.assume(b.Len.AddK(-1))
			i, j := w.index(s, b.Len, "i"), w.index(s, b.Len, "j")
			r := s.content(b)
			w.try(c, s, "Swap", VFunc{Builtin: "invoke:Swap"}, []Value{it, i, j}, nil, func(s *State, ret []Value) string {
				vi, vj := s.read(r, i.(VInt).L), s.read(r, j.(VInt).L)
				want := s.write(s.write(r, i.(VInt).L, vj), j.(VInt).L, vi)
				if !s.ropeEq(s.content(w.slice(s)), want) {
					return "it does not exchange the two elements and nothing else"
				}
				return ""
			})
		}
		return w.sorted(c.st, b)
	}
	e.models["sort.Sort"], e.models["sort.Stable"] = whole, whole
	bySlice := func(c *callCtx) Value {
		it, ok := c.args[0].(VIface)
		if !ok {
			giveUp("%s: the object to sort is %s", c.pos, vstr(c.args[0]))
		}
		b, ok := it.V.(VSlice)
		f, ok2 := c.args[1].(VFunc)
		if !ok || !ok2 {
			giveUp("%s: the slice to sort is %s", c.pos, vstr(it.V))
		}
		w.less(c, c.st, b, f, nil)
		return w.sorted(c.st, b)
	}
	e.models["sort.Slice"], e.models["sort.SliceStable"] = bySlice, bySlice
	plain := func(c *callCtx) Value {
		if !isInt(w.elem) {
			giveUp("%s: natural order of %s", c.pos, w.elem)
		}
		return w.sorted(c.st, c.args[0].(VSlice))
	}
	e.models["sort.Ints"], e.models["slices.Sort"] = plain, plain
	byFunc := func(c *callCtx) Value {
		b, ok := c.args[0].(VSlice)
		f, ok2 := c.args[1].(VFunc)
		if !ok || !ok2 {
			giveUp("%s: the slice to sort is %s", c.pos, vstr(c.args[0]))
		}
		if c.st.c.entailsEq(b.Len) {
			return VTuple{}
		}
		s := c.st.clone()
		s.assume(b.Len.AddK(-1))
		i, j := w.index(s, b.Len, "i").(VInt).L, w.index(s, b.Len, "j").(VInt).L
		r := s.content(b)
		w.try(c, s, "the comparison", f, []Value{s.read(r, i), s.read(r, j)}, types.Typ[types.Int], func(s *State, ret []Value) string {
			ki, kj := w.key(s, s.read(r, i)), w.key(s, s.read(r, j))
			v, ok := ret[0].(VInt)
			if !ok {
				return "no number"
			}
			switch {
			case s.keyLess(w.vt, ki, kj):
				ok = s.c.entails(v.L.Neg().AddK(-1))
			case s.keyLess(w.vt, kj, ki):
				ok = s.c.entails(v.L.AddK(-1))
			default:
				ok = s.c.entailsEq(v.L)
			}
			if !ok {
				return "its result has not the sign of the comparison: " + vstr(ret[0])
			}
			return ""
		})
		return w.sorted(c.st, b)
	}
	e.models["slices.SortFunc"], e.models["slices.SortStableFunc"] = byFunc, byFunc
	e.models["cmp.Compare"] = func(c *callCtx) Value {
		a, ok := c.args[0].(VInt)
		b, ok2 := c.args[1].(VInt)
		if !ok || !ok2 {
			giveUp("%s: comparison of %s", c.pos, vstr(c.args[0]))
		}
		switch {
		case c.st.cond(b.L.Sub(a.L).AddK(-1)):
			return VInt{K(-1)}
		case c.st.cond(a.L.Sub(b.L).AddK(-1)):
			return VInt{K(1)}
		}
		return VInt{K(0)}
	}
	// nodes
	if !isInt(w.elem) {
		nt := w.elem.Underlying().(*types.Pointer).Elem()
		ns := nt.Underlying().(*types.Struct)
		w.vf = keyField(nt)
		w.vt = ns.Field(w.vf).Type()
		w.keys = newSeq("key", nil)
		e.derefOpq = func(st *State, v VOpq) (VPtr, bool) {
			if st.condEq(v.L, K(0)) {
				panic(infeasible{}) // the slice holds nodes
			}
			f := make([]Value, ns.NumFields())
			for i := range f {
				f[i] = VJunk{}
			}
			f[w.vf] = w.key(st, v)
			return VPtr{Obj: st.newObj(nt, VStruct{f}, "node")}, true
		}
		e.onStore = func(st *State, p VPtr, v Value) {
			if o := st.heap[p.Obj]; o != nil && o.name == "node" {
				giveUp("a node is modified")
			}
		}
	}
}

func checkSort(c *Ctx) {
	for _, x := range sortSlices {
		sp, typ := c.pkg(x[0]), x[1]
		for pi, pn := range []string{"nil slice", "slice"} {
			c.oblige(fmt.Sprintf("%s.Sort on a %s", typ, pn), func() { sortOne(c, sp, typ, "Sort", pi == 1) })
		}
	}
	for _, x := range [][2]string{{"stl", "IntTreeNode"}, {"fs", "FileHashTreeNode"}} {
		sp, typ := c.pkg(x[0]), x[1]
		for pi, pn := range []string{"node without children", "node"} {
			c.oblige(fmt.Sprintf("%s.SortChildren on a %s", typ, pn), func() { sortOne(c, sp, typ, "SortChildren", pi == 1) })
		}
	}
	sp := c.pkg("stl")
	for _, max := range []bool{true, false} {
		name := map[bool]string{true: "a max heap sorts upwards", false: "a min heap sorts downwards"}[max]
		c.oblige("SortHeap: "+name, func() {
			e := c.engine(sp)
			x := heapObj(c, sp, e, max, false)
			x.h.sort = true
			c.run(e, x.st, c.fn(sp, "IntHeap.SortHeap"), []Value{VPtr{Obj: x.obj}, x.b}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				r, ok := ret[0].(VSlice)
				if !ok || !s.c.entailsEq(r.Len.Sub(x.n)) || !s.c.entailsEq(x.n) && (r.Arr != x.b.Arr || !s.c.entailsEq(r.Off.Sub(x.b.Off))) {
					return "the result is not the given slice"
				}
				if !x.h.proves(s, s.content(x.b), "S", []Lin{K(0), x.n}) {
					return "two neighbours may be out of order"
				}
				return x.wantBag(s, x.b, x.sum, "SortHeap")
			})
		})
	}
}

func sortOne(c *Ctx, sp *ssa.Package, typ, m string, some bool) {
	t, _ := structOf(sp, typ)
	w := &sortWorld{}
	var find func(t types.Type, at []pathEl) bool
	find = func(t types.Type, at []pathEl) bool {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			w.path, w.elem = append([]pathEl(nil), at...), u.Elem()
			return true
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if find(u.Field(i).Type(), append(at, pathEl{field: i})) {
					return true
				}
			}
		}
		return false
	}
	if !find(t, nil) {
		giveUp("%s has no slice", typ)
	}
	e := c.engine(sp)
	w.install(e)
	st := e.newState()
	z := Value(e.zero(t))
	if some {
		z = st.setPath(z, w.path, st.fresh(types.NewSlice(w.elem), "d"))
	}
	w.obj = st.newObj(t, z, typ)
	b := w.slice(st)
	before := st.content(b)
	c.run(e, st, c.fn(sp, typ+"."+m), []Value{VPtr{Obj: w.obj}}, func(s *State, ret []Value, pan *progPanic) string {
		if pan != nil {
			return panMsg(pan)
		}
		after := s.content(w.slice(s))
		if s.cond(K(1).Sub(ropeLen(before))) {
			// at most one element
			ok := s.ropeEq(after, before)
			for _, v := range s.ghost {
				if o, is := v.(VStr); is && !ok {
					ok = s.ropeEq(o.R, before) && s.c.entailsEq(ropeLen(after).Sub(ropeLen(before)))
				}
			}
			if !ok {
				return "the contents change"
			}
			return ""
		}
		s.assume(ropeLen(before).AddK(-2))
		r := s.normRope(after)
		if len(r) != 1 || r[0].seq == nil || r[0].dir < 0 || !s.c.entailsEq(r[0].start) {
			return fmt.Sprintf("the contents are not shown to be sorted: %s", r)
		}
		o, ok := s.ghost["sorted:"+r[0].seq.name+fmt.Sprint(r[0].seq.id)].(VStr)
		if !ok {
			return fmt.Sprintf("the contents are not shown to be sorted: %s", r)
		}
		if !s.c.entailsEq(ropeLen(after).Sub(ropeLen(before))) || !s.ropeEq(o.R, before) {
			return "something else than the contents is sorted"
		}
		return ""
	})
}
