package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C09"] = &propCheck{run: checkTree, minObl: 46}
}

// treeWorld describes an arbitrary immutable tree: a node is an integer identity p,
// its children are the sequence kids(p) of length n(p), its other fields functions
// of p.
type treeWorld struct {
	sp      *ssa.Package
	node    types.Type // the node struct
	vf      int        // the field that holds its value
	vt      types.Type
	funs    map[string][]Sym
	kidSeqs []kidSeq
	recv    Lin // the node whose values are collected
	// the path of last children from some node: last[0], its last child last[1], ...
	// down to the leaf last[leaf]; lastIdx[j] is the position of last[j+1]
	last, lastIdx *Seq
	leaf          Lin
	from          *[2]Lin // last[0] is this child, if set
}

type kidSeq struct {
	p Lin
	s *Seq
}

// fun is an uninterpreted function of a node.
func (w *treeWorld) fun(st *State, name string, p Lin) Lin {
	p = st.c.norm(p)
	key := "tree:" + name + ":" + p.key()
	if s, ok := symMemo[key]; ok {
		return symLin(s)
	}
	for _, s := range w.funs[name] {
		if st.provesEq(symDefOf(s).args[0], p) {
			return symLin(s)
		}
	}
	s, _ := defSym(key, name+"("+p.String()+")", &symDef{op: "fn", tag: "tree:" + name, args: []Lin{p}})
	w.funs[name] = append(w.funs[name], s)
	return symLin(s)
}

// num is the number of children of p.
func (w *treeWorld) num(st *State, p Lin) Lin {
	j, on := w.onLast(st, p)
	var n Lin
	if on {
		n = symLin(st.appSym(w.lastIdx, j)).AddK(1)
	} else {
		n = w.fun(st, "n", p)
	}
	st.assume(n)
	st.assume(K(1 << maxLenBits).Sub(n))
	if on {
		if st.c.entailsEq(j.Sub(w.leaf)) {
			st.assumeEq(n)
		} else if st.c.entails(w.leaf.Sub(j).AddK(-1)) {
			st.assume(n.AddK(-1))
		} else if st.orc != nil {
			if st.condEq(j, w.leaf) {
				st.assumeEq(n)
			} else if st.cond(w.leaf.Sub(j)) {
				st.assume(n.AddK(-1))
			}
		}
	}
	return n
}

// onLast: p is last[j].
func (w *treeWorld) onLast(st *State, p Lin) (j Lin, ok bool) {
	if w.last == nil {
		return
	}
	s, one := st.c.norm(p).onlySym()
	if !one {
		return
	}
	d := symDefOf(s)
	if d == nil || d.op != "app" || d.seq != w.last {
		return
	}
	return d.args[0], true
}

// lastPath sets up the path of last children from a child (nil: from any node).
func (w *treeWorld) lastPath(st *State, from *[2]Lin) {
	w.from = from
	w.leaf = symLin(newSym("leaf"))
	st.ghost["leaf"] = VInt{w.leaf} // loop invariants speak about it
	st.eng.focus = append(st.eng.focus, w.leaf)
	st.assume(w.leaf)
	st.assume(K(1 << (maxLenBits - 2)).Sub(w.leaf))
	w.last, w.lastIdx = newSeq("L", types.NewPointer(w.node)), newSeq("M", types.Typ[types.Int])
	w.last.fixed, w.lastIdx.fixed, w.lastIdx.shifts = true, true, true
	w.last.mk = func(st *State, j Lin) Value { return w.ref(st, symLin(st.appSym(w.last, j))) }
}

func (w *treeWorld) kids(st *State, p Lin) *Seq {
	p = st.c.norm(p)
	for _, k := range w.kidSeqs {
		if k.p.eq(p) {
			return k.s
		}
	}
	for _, k := range w.kidSeqs {
		if st.provesEq(k.p, p) {
			return k.s
		}
	}
	s := newSeq("child("+p.String()+")", types.NewPointer(w.node))
	s.fixed = true
	s.mk = func(st *State, i Lin) Value { return w.child(st, p, i) }
	s.refs, s.family, s.arg = symsIn(p), "children", p
	w.kidSeqs = append(w.kidSeqs, kidSeq{p, s})
	return s
}

func (w *treeWorld) child(st *State, p, i Lin) Value {
	if j, ok := w.onLast(st, p); ok && st.provesEq(i, w.num(st, p).AddK(-1)) {
		return w.last.mk(st, j.AddK(1))
	}
	if w.from != nil && st.provesEq(i, w.from[1]) && st.provesEq(p, w.from[0]) {
		return w.last.mk(st, K(0))
	}
	return w.ref(st, symLin(st.appSym(w.kids(st, p), i)))
}

func (w *treeWorld) ref(st *State, l Lin) Value {
	st.assumeNe(l)
	return VOpq{l, "node"}
}

// value builds the content of the field type t of node p.
func (w *treeWorld) value(st *State, t types.Type, p Lin, path string) Value {
	if types.Identical(t, w.vt) && !isInt(t) {
		return VOpq{w.fun(st, path, p), "value"} // nothing looks into it
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			l := w.fun(st, path, p)
			lo, hi := intRange(u)
			st.assume(l.Sub(kn(lo)))
			st.assume(kn(hi).Sub(l))
			return VInt{l}
		}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = w.value(st, u.Field(i).Type(), p, path+"."+u.Field(i).Name())
		}
		return VStruct{f}
	case *types.Slice:
		if types.Identical(u.Elem(), types.NewPointer(w.node)) {
			n := w.num(st, p)
			id := st.newObj(types.NewArray(u.Elem(), -1), VArray{seqRope(w.kids(st, p), K(0), n)}, "children")
			return VSlice{Arr: id, Off: K(0), Len: n, Cap: n}
		}
	}
	giveUp("field %s of a tree node", path)
	return nil
}

// install makes dereferences of node identities work.
func (w *treeWorld) install(e *Engine) {
	e.derefOpq = func(st *State, v VOpq) (VPtr, bool) {
		if st.condEq(v.L, K(0)) {
			st.raise("nil dereference")
		}
		var ids []ObjID
		for id, o := range st.heap {
			if o.name == "tree node" {
				ids = append(ids, id)
			}
		}
		sortIDs(ids)
		for _, id := range ids {
			f := st.heap[id].v.(VStruct).F
			if st.provesEq(f[len(f)-1].(VOpq).L, v.L) {
				return VPtr{Obj: id}, true
			}
		}
		s := w.value(st, w.node, v.L, "field").(VStruct)
		return VPtr{Obj: st.newObj(w.node, VStruct{append(s.F, v)}, "tree node")}, true
	}
	e.onStore = func(st *State, p VPtr, v Value) {
		if o := st.heap[p.Obj]; o != nil && (o.name == "tree node" || o.name == "children") {
			giveUp("the tree is modified")
		}
	}
}

func isNilNode(st *State, v Value) bool {
	switch v := v.(type) {
	case VPtr:
		return v.Obj == 0
	case VOpq:
		return st.c.entailsEq(v.L)
	}
	return false
}

func wantNode(st *State, v Value, l Lin, what string) string {
	if o, ok := v.(VOpq); ok && st.provesEq(o.L, l) {
		return ""
	}
	return fmt.Sprintf("%s is %s, expected %s", what, vstr(v), st.c.norm(l))
}

// visitorRoles are the fields of a visitor.
type visitorRoles struct{ node, parents, idx int }

func checkTree(c *Ctx) {
	for _, x := range [][2]string{{"stl", "IntTreeNode"}, {"fs", "FileHashTreeNode"}} {
		checkTreeType(c, c.pkg(x[0]), x[1])
	}
}

func checkTreeType(c *Ctx, sp *ssa.Package, name string) {
	nt, ns := structOf(sp, name)
	vt, vs := structOf(sp, name+"Visitor")
	np := types.NewPointer(nt)
	r := visitorRoles{-1, -1, -1}
	for i := 0; i < vs.NumFields(); i++ {
		t := vs.Field(i).Type()
		if types.Identical(t, np) && r.node < 0 {
			r.node = i
		} else if s, ok := t.Underlying().(*types.Slice); ok {
			if types.Identical(s.Elem(), np) {
				r.parents = i
			} else if isInt(s.Elem()) {
				r.idx = i
			}
		}
	}
	if r.node < 0 || r.parents < 0 || r.idx < 0 {
		giveUp("a visitor is not a node with a stack of parents and a stack of positions")
	}
	checkTreeChildren(c, sp, name, nt, ns)
	world := func() (*treeWorld, *Engine, *State) {
		e := c.engine(sp)
		w := &treeWorld{sp: sp, node: nt, funs: map[string][]Sym{}, vf: keyField(nt)}
		w.vt = ns.Field(w.vf).Type()
		w.install(e)
		return w, e, e.newState()
	}
	checkVisitor(c, sp, name, vt, r, world)
	checkAll(c, sp, name, np, world)
}

// visitorState makes a visitor at node x (nil: none) with m ancestors.
type visitorState struct {
	w    *treeWorld
	obj  ObjID
	P, I *Seq
	m    Lin
}

func (v *visitorState) fields(st *State, r visitorRoles) (node Value, P, I Rope, ps, is VSlice) {
	f := st.heap[v.obj].v.(VStruct).F
	ps, is = f[r.parents].(VSlice), f[r.idx].(VSlice)
	return f[r.node], st.content(ps), st.content(is), ps, is
}

func checkVisitor(c *Ctx, sp *ssa.Package, tn string, vt types.Type, r visitorRoles, world func() (*treeWorld, *Engine, *State)) {
	// what other fields a visitor that has started holds
	extra := map[int]Value{}
	next := c.fn(sp, tn+"Visitor.Next")
	mk := func(e *Engine, w *treeWorld, st *State, facts func(st *State, P, I Value, j Lin)) *visitorState {
		v := &visitorState{w: w}
		z := e.zero(vt).(VStruct)
		for i, x := range extra {
			z.F[i] = x
		}
		np := types.NewPointer(w.node)
		v.m = symLin(newSym("depth"))
		st.assume(v.m)
		st.assume(K(1 << (maxLenBits - 1)).Sub(v.m))
		v.P, v.I = newSeq("P", np), newSeq("I", types.Typ[types.Int])
		v.P.fixed, v.I.fixed = true, true
		pAt := func(st *State, j Lin) Value { return w.ref(st, symLin(st.appSym(v.P, j))) }
		v.P.mk = pAt
		v.I.mk = func(st *State, j Lin) Value {
			x := symLin(st.appSym(v.I, j))
			p := pAt(st, j).(VOpq).L
			st.assume(x)
			st.assume(w.num(st, p).Sub(x).AddK(-1))
			if facts != nil && st.orc != nil {
				facts(st, VOpq{p, "node"}, VInt{x}, j)
			}
			return VInt{x}
		}
		stack := func(s *Seq, elem types.Type) VSlice {
			cp := symLin(newSym("cap"))
			st.assume(cp.Sub(v.m))
			st.assume(K(1 << maxLenBits).Sub(cp))
			rp := append(seqRope(s, K(0), v.m), Piece{n: cp.Sub(v.m), kind: pJunk})
			id := st.newObj(types.NewArray(elem, -1), VArray{rp}, "stack")
			return VSlice{Arr: id, Off: K(0), Len: v.m, Cap: cp}
		}
		z.F[r.parents] = stack(v.P, np)
		z.F[r.idx] = stack(v.I, types.Typ[types.Int])
		v.obj = st.newObj(vt, z, "visitor")
		return v
	}
	setNode := func(st *State, v *visitorState, x Value) {
		st.store(VPtr{Obj: v.obj, Path: []pathEl{{field: r.node}}}, x)
	}
	// judge compares the state after a step.
	judge := func(s *State, v *visitorState, ret []Value, pan *progPanic, ok bool, node *Lin, P, I Rope) string {
		if pan != nil {
			return panMsg(pan)
		}
		if m := wantBool(s, ret[0], ok, "the result of the step"); m != "" {
			return m
		}
		n, ap, ai, _, _ := v.fields(s, r)
		if o, ok := n.(VOpq); ok {
			v.w.num(s, o.L) // what is known about the node
		}
		if node == nil {
			if !isNilNode(s, n) {
				return "the visitor is at " + vstr(n) + " after the last node"
			}
		} else if m := wantNode(s, n, *node, "the node after the step"); m != "" {
			return m
		}
		if !s.ropeEq(ap, P) {
			return fmt.Sprintf("the ancestors are %s, expected %s", s.normRope(ap), s.normRope(P))
		}
		if !s.ropeEq(ai, I) {
			return fmt.Sprintf("the positions are %s, expected %s", s.normRope(ai), s.normRope(I))
		}
		return ""
	}
	c.oblige("a fresh visitor starts at the node itself", func() {
		w, e, st := world()
		root := symLin(newSym("root"))
		st.assumeNe(root)
		e.pinObj, e.pinSeq, e.pinSym = e.objCount, seqCount, Sym(len(symTab)-1)
		for _, o := range e.Call(st, c.fn(sp, tn+".Visitor"), []Value{VOpq{root, "node"}}, nil, nil) {
			if o.pan != nil {
				c.fail("Visitor %s", panMsg(o.pan))
				continue
			}
			p, ok := o.ret[0].(VPtr)
			if !ok || p.Obj == 0 || len(p.Path) > 0 {
				c.fail("Visitor returns %s", vstr(o.ret[0]))
				continue
			}
			v := &visitorState{w: w, obj: p.Obj}
			c.run(e, o.st, next, []Value{p}, func(s *State, ret []Value, pan *progPanic) string {
				if m := judge(s, v, ret, pan, true, &root, nil, nil); m != "" {
					return m
				}
				for i, x := range s.heap[p.Obj].v.(VStruct).F {
					if i != r.node && i != r.parents && i != r.idx {
						switch x.(type) {
						case VBool, VInt:
							extra[i] = x
						default:
							giveUp("a visitor field holds %s", vstr(x))
						}
					}
				}
				return ""
			})
		}
	})
	here := func(st *State) Lin {
		x := symLin(newSym("x"))
		st.assumeNe(x)
		return x
	}
	c.oblige("Next at a node with children goes to the first child", func() {
		w, e, st := world()
		v := mk(e, w, st, nil)
		x := here(st)
		setNode(st, v, VOpq{x, "node"})
		st.assume(w.num(st, x).AddK(-1))
		c.run(e, st, next, []Value{VPtr{Obj: v.obj}}, func(s *State, ret []Value, pan *progPanic) string {
			to := w.child(s, x, K(0)).(VOpq).L
			return judge(s, v, ret, pan, true, &to,
				append(seqRope(v.P, K(0), v.m), single(VOpq{x, "node"})...), append(seqRope(v.I, K(0), v.m), single(VInt{K(0)})...))
		})
	})
	c.oblige("Next at a leaf goes to the next sibling of the nearest ancestor-or-self that has one", func() {
		w, e, st := world()
		j0 := symLin(newSym("j0"))
		v := mk(e, w, st, func(st *State, P, I Value, j Lin) {
			// j0 is the innermost level with a further sibling
			p, i := P.(VOpq).L, I.(VInt).L
			if !st.cond(j.Sub(j0)) {
				return
			}
			if st.condEq(j, j0) {
				st.assume(w.num(st, p).Sub(i).AddK(-2))
			} else {
				st.assumeEq(w.num(st, p).Sub(i).AddK(-1))
			}
		})
		st.ghost["j0"] = VInt{j0}
		e.focus = append(e.focus, j0)
		st.assume(j0)
		st.assume(v.m.Sub(j0).AddK(-1))
		x := here(st)
		setNode(st, v, VOpq{x, "node"})
		st.assumeEq(w.num(st, x))
		c.run(e, st, next, []Value{VPtr{Obj: v.obj}}, func(s *State, ret []Value, pan *progPanic) string {
			p := v.P.mk(s, j0).(VOpq).L
			i := v.I.mk(s, j0).(VInt).L
			to := w.child(s, p, i.AddK(1)).(VOpq).L
			return judge(s, v, ret, pan, true, &to, seqRope(v.P, K(0), j0.AddK(1)),
				append(seqRope(v.I, K(0), j0), single(VInt{i.AddK(1)})...))
		})
	})
	c.oblige("Next at the last leaf ends the walk", func() {
		w, e, st := world()
		v := mk(e, w, st, func(st *State, P, I Value, j Lin) {
			st.assumeEq(w.num(st, P.(VOpq).L).Sub(I.(VInt).L).AddK(-1))
		})
		x := here(st)
		setNode(st, v, VOpq{x, "node"})
		st.assumeEq(w.num(st, x))
		c.run(e, st, next, []Value{VPtr{Obj: v.obj}}, func(s *State, ret []Value, pan *progPanic) string {
			return judge(s, v, ret, pan, false, nil, nil, nil)
		})
	})
	c.oblige("Next after the end reports false again", func() {
		w, e, st := world()
		v := mk(e, w, st, nil)
		st.assumeEq(v.m)
		c.run(e, st, next, []Value{VPtr{Obj: v.obj}}, func(s *State, ret []Value, pan *progPanic) string {
			return judge(s, v, ret, pan, false, nil, nil, nil)
		})
	})
	prev := c.fn(sp, tn+"Visitor.Prev")
	c.oblige("a fresh visitor goes back to the last node", func() {
		w, e, st := world()
		w.lastPath(st, nil)
		root := w.last.mk(st, K(0))
		e.pinObj, e.pinSeq, e.pinSym = e.objCount, seqCount, Sym(len(symTab)-1)
		for _, o := range e.Call(st, c.fn(sp, tn+".Visitor"), []Value{root}, nil, nil) {
			if o.pan != nil {
				c.fail("Visitor %s", panMsg(o.pan))
				continue
			}
			p, ok := o.ret[0].(VPtr)
			if !ok || p.Obj == 0 || len(p.Path) > 0 {
				c.fail("Visitor returns %s", vstr(o.ret[0]))
				continue
			}
			v := &visitorState{w: w, obj: p.Obj}
			c.run(e, o.st, prev, []Value{p}, func(s *State, ret []Value, pan *progPanic) string {
				to := w.last.mk(s, w.leaf).(VOpq).L
				return judge(s, v, ret, pan, true, &to, seqRope(w.last, K(0), w.leaf), seqRope(w.lastIdx, K(0), w.leaf))
			})
		}
	})
	c.oblige("Prev at a node with an elder sibling goes to the last node below it", func() {
		w, e, st := world()
		v := mk(e, w, st, nil)
		x := here(st)
		setNode(st, v, VOpq{x, "node"})
		st.assume(v.m.AddK(-1))
		p := v.P.mk(st, v.m.AddK(-1)).(VOpq).L
		i := v.I.mk(st, v.m.AddK(-1)).(VInt).L
		st.assume(i.AddK(-1))
		w.lastPath(st, &[2]Lin{p, i.AddK(-1)})
		c.run(e, st, prev, []Value{VPtr{Obj: v.obj}}, func(s *State, ret []Value, pan *progPanic) string {
			to := w.last.mk(s, w.leaf).(VOpq).L
			return judge(s, v, ret, pan, true, &to, append(seqRope(v.P, K(0), v.m), seqRope(w.last, K(0), w.leaf)...),
				append(append(seqRope(v.I, K(0), v.m.AddK(-1)), single(VInt{i.AddK(-1)})...), seqRope(w.lastIdx, K(0), w.leaf)...))
		})
	})
	c.oblige("Prev at a first child goes to its parent", func() {
		w, e, st := world()
		v := mk(e, w, st, nil)
		x := here(st)
		setNode(st, v, VOpq{x, "node"})
		st.assume(v.m.AddK(-1))
		p := v.P.mk(st, v.m.AddK(-1)).(VOpq).L
		st.assumeEq(v.I.mk(st, v.m.AddK(-1)).(VInt).L)
		c.run(e, st, prev, []Value{VPtr{Obj: v.obj}}, func(s *State, ret []Value, pan *progPanic) string {
			return judge(s, v, ret, pan, true, &p, seqRope(v.P, K(0), v.m.AddK(-1)), seqRope(v.I, K(0), v.m.AddK(-1)))
		})
	})
	for _, end := range []bool{true, false} {
		name := map[bool]string{true: "Prev after the end reports false again", false: "Prev at the first node ends the walk"}[end]
		c.oblige(name, func() {
			w, e, st := world()
			v := mk(e, w, st, nil)
			st.assumeEq(v.m)
			if !end {
				setNode(st, v, VOpq{here(st), "node"})
			}
			c.run(e, st, prev, []Value{VPtr{Obj: v.obj}}, func(s *State, ret []Value, pan *progPanic) string {
				return judge(s, v, ret, pan, false, nil, nil, nil)
			})
		})
	}
	for _, at := range []bool{true, false} {
		name := map[bool]string{true: "Get at a node is its value", false: "Get outside is the zero value"}[at]
		c.oblige(name, func() {
			w, e, st := world()
			v := mk(e, w, st, nil)
			want := e.zero(w.vt)
			if at {
				x := here(st)
				setNode(st, v, VOpq{x, "node"})
				want = w.val(st, x)
			}
			P, I := seqRope(v.P, K(0), v.m), seqRope(v.I, K(0), v.m)
			c.run(e, st, c.fn(sp, tn+"Visitor.Get"), []Value{VPtr{Obj: v.obj}}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				_, p, i, _, _ := v.fields(s, r)
				if !s.ropeEq(p, P) || !s.ropeEq(i, I) {
					return "Get moves the visitor"
				}
				return wantVal(s, ret[0], want, "the value")
			})
		})
	}
}

// val is the value of node p.
func (w *treeWorld) val(st *State, p Lin) Value {
	f := w.node.Underlying().(*types.Struct).Field(w.vf)
	return w.value(st, f.Type(), p, "field."+f.Name())
}

// wantVal: a value of a node.
func wantVal(s *State, got, want Value, what string) string {
	if w, ok := want.(VInt); ok {
		return wantInt(s, got, w.L, what)
	}
	return wantSame(s, got, want, what)
}

// flatKind is how a function that collects values takes and gives its list.
type flatKind struct{ node, list, ptr, free, self int } // parameter and captured variable numbers, -1 when absent

func flatSig(fn *ssa.Function, np, vt types.Type) (k flatKind, ok bool) {
	k = flatKind{-1, -1, -1, -1, -1}
	ints := types.NewSlice(vt)
	for i, p := range fn.Params {
		switch {
		case types.Identical(p.Type(), np) && k.node < 0:
			k.node = i
		case types.Identical(p.Type(), ints) && k.list < 0:
			k.list = i
		case types.Identical(p.Type(), types.NewPointer(ints)) && k.ptr < 0:
			k.ptr = i
		default:
			return k, false
		}
	}
	for i, p := range fn.FreeVars {
		t, ok := p.Type().(*types.Pointer)
		if !ok {
			return k, false
		}
		switch {
		case types.Identical(t.Elem(), ints) && k.free < 0:
			k.free = i
		case types.Identical(t.Elem(), fn.Signature) && k.self < 0:
			k.self = i
		default:
			return k, false
		}
	}
	res := fn.Signature.Results()
	switch {
	case k.node < 0 || k.list >= 0 && k.ptr >= 0 || k.free >= 0 && (k.list >= 0 || k.ptr >= 0):
		return k, false
	case k.ptr >= 0 || k.free >= 0:
		return k, res.Len() == 0
	}
	return k, res.Len() == 1 && types.Identical(res.At(0).Type(), ints)
}

// checkAll: by induction on the tree, the collected values of a node are its own
// followed by those of each child in order.
func checkAll(c *Ctx, sp *ssa.Package, tn string, np types.Type, world func() (*treeWorld, *Engine, *State)) {
	done := map[*ssa.Function]bool{}
	queue := []*ssa.Function{c.fn(sp, tn+".All")}
	for len(queue) > 0 {
		fn := queue[0]
		queue = queue[1:]
		if done[fn] {
			continue
		}
		done[fn] = true
		c.oblige(fn.Name()+" collects the values of a node in order", func() {
			w, e, st := world()
			vt := w.vt
			k, ok := flatSig(fn, np, vt)
			if !ok {
				giveUp("%s does not collect the values of a node", fn)
			}
			root := symLin(newSym("root"))
			st.assumeNe(root)
			val := w.val(st, root)
			e.focus = append(e.focus, w.num(st, root))
			G := newSeq("values of the children", vt)
			G.fixed = true
			st.ghost["count"], st.ghost["off"] = VInt{K(0)}, VInt{K(0)}
			args := make([]Value, len(fn.Params))
			args[k.node] = VOpq{root, "node"}
			var before Rope
			var cell ObjID
			var bind []Value
			if len(fn.FreeVars) > 0 {
				bind = make([]Value, len(fn.FreeVars))
			}
			if k.list >= 0 || k.ptr >= 0 || k.free >= 0 {
				l := st.fresh(types.NewSlice(vt), "list").(VSlice)
				before = st.content(l)
				if k.list >= 0 {
					args[k.list] = l
				} else {
					cell = st.newObj(types.NewSlice(vt), l, "list cell")
					if k.ptr >= 0 {
						args[k.ptr] = VPtr{Obj: cell}
					} else {
						bind[k.free] = VPtr{Obj: cell}
					}
				}
			}
			if k.self >= 0 {
				self := st.newObj(fn.Signature, VFunc{Fn: fn, Bind: bind}, "walk")
				bind[k.self] = VPtr{Obj: self}
			}
			e.onCall = func(s *State, f *ssa.Function, a, bd []Value) ([]Outcome, bool) {
				kf, ok := flatSig(f, np, vt)
				if !ok {
					return nil, false
				}
				q, ok := a[kf.node].(VOpq)
				if !ok || s.provesEq(q.L, root) && f != fn {
					return nil, false
				}
				if len(s.frames) == 0 {
					return nil, false // the call under analysis
				}
				cnt, off := s.ghost["count"].(VInt).L, s.ghost["off"].(VInt).L
				want := w.child(s, root, cnt).(VOpq).L
				if !s.provesEq(q.L, want) {
					giveUp("%s is called on %s when child %s is due", f, vstr(q), cnt)
				}
				queue = append(queue, f)
				s = s.clone()
				n := symLin(newSym("size"))
				s.assume(n.AddK(-1))
				s.assume(K(1 << (maxLenBits - 2)).Sub(n))
				got := seqRope(G, off, n)
				s.ghost["count"], s.ghost["off"] = VInt{cnt.AddK(1)}, VInt{off.Add(n)}
				pre := Rope(nil)
				var to Value
				switch {
				case kf.list >= 0:
					pre = s.content(a[kf.list].(VSlice))
				case kf.ptr >= 0:
					to = a[kf.ptr]
				case kf.free >= 0:
					to = bd[kf.free]
				}
				if to != nil {
					pre = s.content(s.load(to).(VSlice))
				}
				if len(pre) > 0 {
					// append may or may not reuse the buffer: what matters is that the list
					// is used on, so a new one stands for both
					got = append(append(Rope{}, pre...), got...)
				}
				id := s.newObj(types.NewArray(vt, -1), VArray{got}, "collected")
				res := VSlice{Arr: id, Off: K(0), Len: ropeLen(got), Cap: ropeLen(got)}
				if to != nil {
					s.store(to, res)
					return []Outcome{{st: s}}, true
				}
				return []Outcome{{st: s, ret: []Value{res}}}, true
			}
			c.runBind(e, st, fn, args, bind, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				var l Value
				if cell != 0 {
					l = s.heap[cell].v
				} else {
					l = ret[0]
				}
				res, ok := l.(VSlice)
				if !ok {
					return "the list is " + vstr(l)
				}
				cnt, off := s.ghost["count"].(VInt).L, s.ghost["off"].(VInt).L
				if !s.provesEq(cnt, w.num(s, root)) {
					return fmt.Sprintf("%s of %s children are collected", cnt, w.num(s, root))
				}
				want := append(append(append(Rope{}, before...), single(val)...), seqRope(G, K(0), off)...)
				if !s.ropeEq(s.content(res), want) {
					return fmt.Sprintf("the list is %s, expected %s", s.normRope(s.content(res)), s.normRope(want))
				}
				return ""
			})
		})
	}
}

// checkTreeChildren: the operations on the children of one node.
func checkTreeChildren(c *Ctx, sp *ssa.Package, tn string, nt types.Type, ns *types.Struct) {
	np := types.NewPointer(nt)
	var path []pathEl
	var find func(t types.Type, at []pathEl) bool
	find = func(t types.Type, at []pathEl) bool {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if types.Identical(u.Elem(), np) {
				path = append([]pathEl(nil), at...)
				return true
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if find(u.Field(i).Type(), append(at, pathEl{field: i})) {
					return true
				}
			}
		}
		return false
	}
	if !find(nt, nil) {
		giveUp("a tree node has no list of children")
	}
	num := keyField(nt)
	anyVal := func(st *State, n string) Value {
		if t := ns.Field(num).Type(); isInt(t) {
			return st.fresh(t, n)
		}
		return VOpq{symLin(newSym(n)), "value"}
	}
	inside := func(x *sliceCase, i Lin) bool {
		return x.st.cond(i) && x.st.cond(ropeLen(x.before).Sub(i).AddK(-1))
	}
	idx := func(st *State) Value { return st.fresh(types.Typ[types.Int], "idx") }
	insert := func(x *sliceCase, v Value, i Lin) string {
		want := append(append(Rope{}, x.before...), single(v)...)
		if inside(x, i) {
			a, b := x.st.split(x.before, i)
			want = append(append(append(Rope{}, a...), single(v)...), b...)
		}
		return x.wantAfter(want, "the children")
	}
	ops := []sliceOp{
		{"AddChild", func(st *State) []Value { return []Value{anyVal(st, "v"), idx(st)} }, noPanic(func(x *sliceCase) string {
			p, ok := x.ret[0].(VPtr)
			if !ok || p.Obj == 0 || p.Obj == x.obj || len(p.Path) > 0 {
				return "the new child is " + vstr(x.ret[0])
			}
			n, ok := x.st.heap[p.Obj].v.(VStruct)
			if !ok {
				return "the new child is not a node"
			}
			ch := x.st.getPath(n, path).(VSlice)
			if !x.st.ropeEq(x.st.content(ch), nil) {
				return "the new child has children"
			}
			return and(wantVal(x.st, n.F[num], x.args[0], "the value of the new child"), insert(x, p, x.args[1].(VInt).L))
		})},
		{"AddChildNode", func(st *State) []Value {
			n := symLin(newSym("node"))
			st.assumeNe(n)
			return []Value{VOpq{n, "node"}, idx(st)}
		}, noPanic(func(x *sliceCase) string {
			return and(wantSame(x.st, x.ret[0], x.args[0], "the returned node"), insert(x, x.args[0], x.args[1].(VInt).L))
		})},
		{"NumChildren", nil, noPanic(func(x *sliceCase) string {
			return and(wantInt(x.st, x.ret[0], ropeLen(x.before), "the number of children"), x.wantAfter(x.before, "the children"))
		})},
		{"Children", nil, noPanic(func(x *sliceCase) string {
			s, ok := x.ret[0].(VSlice)
			if !ok || !x.st.ropeEq(x.st.content(s), x.before) {
				return "Children shows something else than the children"
			}
			return x.wantAfter(x.before, "the children")
		})},
		{"GetChild", func(st *State) []Value { return []Value{idx(st)} }, noPanic(func(x *sliceCase) string {
			i := x.args[0].(VInt).L
			if !inside(x, i) {
				return and(wantBool(x.st, x.ret[1], false, "ok outside"), x.wantAfter(x.before, "the children"))
			}
			return and(wantBool(x.st, x.ret[1], true, "ok"), wantSame(x.st, x.ret[0], x.st.read(x.before, i), "the child"), x.wantAfter(x.before, "the children"))
		})},
		{"RemoveChild", func(st *State) []Value { return []Value{idx(st)} }, noPanic(func(x *sliceCase) string {
			st := x.st
			i := x.args[0].(VInt).L
			if !inside(x, i) {
				return and(wantBool(st, x.ret[1], false, "ok outside"), x.wantAfter(x.before, "the children"))
			}
			a, b := st.split(x.before, i)
			_, b = st.split(b, K(1))
			return and(wantBool(st, x.ret[1], true, "ok"), wantSame(st, x.ret[0], st.read(x.before, i), "the removed child"),
				x.wantAfter(append(append(Rope{}, a...), b...), "the children"))
		})},
	}
	for _, op := range ops {
		for pi, pn := range []string{"node without children", "node"} {
			c.oblige(fmt.Sprintf("%s on a %s", op.name, pn), func() {
				e := c.engine(sp)
				st := e.newState()
				z := e.zero(nt).(VStruct)
				val := anyVal(st, "val")
				z.F[num] = val
				var v Value = z
				if pi == 1 {
					v = st.setPath(v, path, st.fresh(types.NewSlice(np), "children"))
				}
				before := st.content(st.getPath(v, path).(VSlice))
				obj := st.newObj(nt, v, "node")
				var args []Value
				if op.args != nil {
					args = op.args(st)
				}
				c.run(e, st, c.fn(sp, tn+"."+op.name), append([]Value{VPtr{Obj: obj}}, args...), func(s *State, ret []Value, pan *progPanic) string {
					f := s.heap[obj].v.(VStruct)
					after := s.content(s.getPath(f, path).(VSlice))
					return and(op.spec(&sliceCase{st: s, args: args, ret: ret, pan: pan, before: before, after: after, obj: obj}),
						wantVal(s, f.F[num], val, "the node's own value"))
				})
			})
		}
	}
}

// symsIn lists the symbols that a term depends on.
func symsIn(l Lin) (out []Sym) {
	for _, t := range l.t {
		out = append(out, t.s)
		if d := symDefOf(t.s); d != nil {
			for _, a := range d.args {
				out = append(out, symsIn(a)...)
			}
			if d.seq != nil {
				out = append(out, d.seq.refs...)
			}
		}
	}
	return
}
