package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C05"] = &propCheck{run: checkList, minObl: 200}
	props["C06"] = &propCheck{run: checkSList, minObl: 150}
}

// scene is a list before a call: its parts in order. Upper-case letters are stretches
// of one or more unnamed nodes, lower-case letters are named nodes.
type scene struct {
	c    *Ctx
	e    *Engine
	st   *State
	k    *listKind
	text string
	q    *Seq
	at   map[byte]Lin
	n    map[byte]Lin
	id   map[byte]ObjID
	len  Lin
	list ObjID
}

type listKind struct {
	sp    *ssa.Package
	list  types.Type
	node  *listSpec
	head  int  // field of the list that names the first node
	dummy bool // the field is a dummy node whose next is the first node
	ring  bool
}

func (k *listKind) headOf(st *State, list ObjID) Value {
	f := st.heap[list].v.(VStruct).F[k.head]
	if k.dummy {
		return f.(VStruct).F[k.node.next]
	}
	return f
}

func (k *listKind) setHead(st *State, list ObjID, p VPtr) {
	o := *st.heap[list]
	f := append([]Value(nil), o.v.(VStruct).F...)
	if k.dummy {
		d := append([]Value(nil), f[k.head].(VStruct).F...)
		d[k.node.next] = p
		f[k.head] = VStruct{d}
	} else {
		f[k.head] = p
	}
	o.v = VStruct{f}
	st.heap[list] = &o
}

// newScene builds a well-formed list.
func (k *listKind) newScene(c *Ctx, e *Engine, st *State, text, name string) *scene {
	s := &scene{c: c, e: e, st: st, k: k, text: text, at: map[byte]Lin{}, n: map[byte]Lin{}, id: map[byte]ObjID{}, len: K(0)}
	vt := k.node.typ.Underlying().(*types.Struct).Field(k.node.val).Type()
	s.q = newSeq(name, vt)
	s.list = st.newObj(k.list, e.zero(k.list), name)
	for i := 0; i < len(text); i++ {
		b := text[i]
		s.at[b] = s.len
		if b >= 'A' && b <= 'Z' {
			n := symLin(newSym("n" + string(b)))
			st.assume(n.AddK(-1))
			st.assume(K(1 << 46).Sub(n))
			s.n[b] = n
			s.id[b] = st.newSeg(k.node, s.q, s.len, n, 1)
		} else {
			s.n[b] = K(1)
			s.id[b] = st.newNode(k.node, s.q, s.len)
		}
		s.len = s.len.Add(s.n[b])
	}
	for i := 0; i < len(text); i++ {
		var next, prev Value = VPtr{}, VPtr{}
		if i+1 < len(text) {
			next = s.first(text[i+1])
		} else if k.ring {
			next = s.first(text[0])
		}
		if k.ring {
			prev = s.last(text[(i+len(text)-1)%len(text)])
		}
		s.link(text[i], next, prev)
	}
	if len(text) > 0 {
		k.setHead(st, s.list, s.first(text[0]).(VPtr))
	}
	return s
}

func (s *scene) link(b byte, next, prev Value) {
	id := s.id[b]
	if v, ok := s.st.heap[id].v.(VSeg); ok {
		v.next, v.prev = next, prev
		if !s.k.ring {
			v.prev = VPtr{}
		}
		s.st.setSeg(id, v)
		return
	}
	s.st.setLinks(s.k.node, id, next, prev)
}

func (s *scene) first(b byte) Value {
	if b >= 'A' && b <= 'Z' {
		return VPtr{Obj: s.id[b], End: 1}
	}
	return VPtr{Obj: s.id[b]}
}

func (s *scene) last(b byte) Value {
	if b >= 'A' && b <= 'Z' {
		return VPtr{Obj: s.id[b], End: 2}
	}
	return VPtr{Obj: s.id[b]}
}

// rope gives the nodes named by the letters, in that order.
func (s *scene) rope(letters string) Rope {
	var r Rope
	for i := 0; i < len(letters); i++ {
		r = append(r, seqRope(s.q, s.at[letters[i]], s.n[letters[i]])...)
	}
	return r
}

func (s *scene) all() Rope { return seqRope(s.q, K(0), s.len) }

// detached makes a node that is in no list.
func (k *listKind) detached(st *State, name string) (*Seq, VPtr) {
	vt := k.node.typ.Underlying().(*types.Struct).Field(k.node.val).Type()
	q := newSeq(name, vt)
	return q, VPtr{Obj: st.newNode(k.node, q, K(0))}
}

// walk reads a list as a sequence of nodes; msg reports malformed links. Nodes made by
// the call appear as a record of their payload.
func (k *listKind) walk(st *State, list ObjID) (r Rope, fresh []ObjID, msg string) {
	head, ok := k.headOf(st, list).(VPtr)
	if !ok {
		return nil, nil, "the first node is " + vstr(k.headOf(st, list))
	}
	if head.Obj == 0 {
		return nil, nil, ""
	}
	r, fresh, msg = k.walkFrom(st, head)
	return
}

func (k *listKind) walkFrom(st *State, head VPtr) (r Rope, fresh []ObjID, msg string) {
	norm := func(p VPtr) VPtr {
		if p.End == 2 {
			p = st.materialize(p)
		}
		return p
	}
	var ids []ObjID
	var first part
	// bring every part on the way into a state where pointers name first nodes
	for again := true; again; {
		again = false
		p := head
		seen := map[ObjID]bool{}
		for p.Obj != 0 && !seen[p.Obj] {
			if len(p.Path) != 0 {
				return nil, nil, "a link points inside a node"
			}
			seen[p.Obj] = true
			if p.End == 2 && !st.segLenOne(p.Obj) {
				o := p.Obj
				n := norm(p)
				if head.Obj == o && head.End == 2 || st.heap[head.Obj] == nil {
					head = n
				}
				again = true
				break
			}
			pt, ok := st.part(p.Obj)
			if !ok {
				return nil, nil, fmt.Sprintf("a link points to %s", st.heap[p.Obj].name)
			}
			nx, ok := pt.next.(VPtr)
			if !ok {
				return nil, nil, "a link is " + vstr(pt.next)
			}
			p = nx
		}
	}
	p := head
	for i := 0; ; i++ {
		if i > 60 {
			return nil, nil, "the list does not end"
		}
		pt, ok := st.part(p.Obj)
		if !ok {
			return nil, nil, "a link points outside the list"
		}
		if i == 0 {
			first = pt
		}
		for _, x := range ids {
			if x == pt.id {
				return nil, nil, "the links run into the middle of the list"
			}
		}
		if i > 0 && k.ring {
			prev, _ := st.part(ids[len(ids)-1])
			if !st.atEnd(pt.prev, prev, 2) {
				return nil, nil, fmt.Sprintf("the backward link of node %d does not name its predecessor", i)
			}
		}
		ids = append(ids, pt.id)
		switch {
		case pt.q != nil && pt.orig:
			piece := seqRope(pt.q, pt.start, pt.n)
			if pt.seg && pt.dir < 0 {
				piece[0].dir = -1
			}
			r = append(r, piece...)
		case pt.q != nil:
			return nil, nil, "the value of a node was changed"
		default:
			f := st.heap[pt.id].v.(VStruct).F
			r = append(r, Piece{kind: pConst, n: K(1), val: VStruct{[]Value{f[pt.sp.val]}}})
			fresh = append(fresh, pt.id)
		}
		nx := pt.next.(VPtr)
		if !k.ring {
			if nx.Obj == 0 {
				return r, fresh, ""
			}
		} else {
			if nx.Obj == 0 {
				return nil, nil, "a forward link in the ring is nil"
			}
			if nx.Obj == first.id {
				if !st.atEnd(nx, first, 1) {
					return nil, nil, "the ring closes in the middle"
				}
				if !st.atEnd(first.prev, pt, 2) {
					return nil, nil, "the backward link of the first node does not name the last node"
				}
				return r, fresh, ""
			}
		}
		p = nx
	}
}

func (st *State) atEnd(v Value, p part, end int) bool {
	x, ok := v.(VPtr)
	if !ok || x.Obj != p.id || len(x.Path) != 0 {
		return false
	}
	return !p.seg || x.End == end || st.segLenOne(p.id)
}

// nodeIs says whether v points to the original node q[idx].
func (k *listKind) nodeIs(st *State, v Value, q *Seq, idx Lin) bool {
	p, ok := v.(VPtr)
	if !ok || p.Obj == 0 || len(p.Path) != 0 {
		return false
	}
	pt, ok := st.part(p.Obj)
	if !ok || pt.q != q {
		return false
	}
	at := pt.start
	if pt.seg && p.End == 2 {
		at = pt.start.Add(pt.n.AddK(-1).Scale(pt.dir))
	}
	return st.provesEq(at, idx)
}

func isNil(v Value) bool {
	switch x := v.(type) {
	case VPtr:
		return x.Obj == 0
	case VIface:
		return x.Dyn == nil && x.Opq == nil
	case VSlice:
		return x.Arr == 0
	case VFunc:
		return x.Fn == nil && x.Opq == nil && x.Builtin == ""
	case VMap:
		return x.Obj == 0
	}
	return false
}

// unlinked checks that a node outside every list has no links left.
func (k *listKind) unlinked(st *State, v Value) string {
	p, _ := v.(VPtr)
	if p.Obj == 0 {
		return ""
	}
	pt, ok := st.part(p.Obj)
	if !ok {
		return "the returned node is not a node"
	}
	if pt.seg && !st.segLenOne(p.Obj) {
		return "the removed node is still linked"
	}
	if !isNil(pt.next) || k.ring && !isNil(pt.prev) {
		return "the removed node is still linked"
	}
	return ""
}

// variants drops every subset of the upper-case letters.
func variants(p string) []string {
	out := []string{""}
	for i := 0; i < len(p); i++ {
		var n []string
		for _, s := range out {
			n = append(n, s+p[i:i+1])
			if p[i] >= 'A' && p[i] <= 'Z' {
				n = append(n, s)
			}
		}
		out = n
	}
	return out
}

// lcase is one outcome of a list call to be judged.
type lcase struct {
	*scene
	st    *State
	ret   []Value
	pan   *progPanic
	after Rope
	fresh []ObjID
	o     *scene // other list
	xq    *Seq   // detached node
	xp    VPtr
	arg   Value
}

// is checks the order of the nodes after the call.
func (x *lcase) is(want Rope) string {
	if !x.st.ropeEq(x.after, want) {
		return fmt.Sprintf("the list is %s, expected %s", x.st.normRope(x.after), x.st.normRope(want))
	}
	return ""
}

func (x *lcase) same() string { return x.is(x.all()) }

func (x *lcase) retNode(q *Seq, idx Lin) string {
	if !x.k.nodeIs(x.st, x.ret[0], q, idx) {
		return fmt.Sprintf("the result is %s, expected %s[%s]", vstr(x.ret[0]), q.name, idx)
	}
	return ""
}

func (x *lcase) retNil() string {
	if !isNil(x.ret[0]) {
		return "the result is " + vstr(x.ret[0]) + ", expected nil"
	}
	return ""
}

// moved: the node must end up in the wanted order; nil is only for calls that change nothing.
func (x *lcase) moved(want Rope, q *Seq, idx Lin) string {
	if m := x.is(want); m != "" {
		return m
	}
	if isNil(x.ret[0]) {
		if m := x.same(); m != "" {
			return "reports nil although the list changed"
		}
		return ""
	}
	return x.retNode(q, idx)
}

// pushed: the only new node is the result and holds the value.
func (x *lcase) pushed(want Rope) string {
	if m := x.is(want); m != "" {
		return m
	}
	p, ok := x.ret[0].(VPtr)
	if !ok || len(x.fresh) != 1 || p.Obj != x.fresh[0] {
		return "the result is not the new node"
	}
	return ""
}

func (x *lcase) newNode() Rope {
	return Rope{{kind: pConst, n: K(1), val: VStruct{[]Value{x.arg}}}}
}

func cat(rs ...Rope) Rope {
	var out Rope
	for _, r := range rs {
		out = append(out, r...)
	}
	return out
}

// lop is a list method with the scenes it is checked on.
type lop struct {
	name   string
	scenes []string
	// args builds the arguments; letters name nodes of the scene, x a detached node,
	// 0 nil, v a value, O..: the other list with that scene
	args  string
	other []string
	spec  func(x *lcase) string
}

func (k *listKind) run(c *Ctx, typ string, ops []lop) {
	for _, op := range ops {
		others := op.other
		if others == nil {
			others = []string{"-"}
		}
		for _, text := range op.scenes {
			for _, ot := range others {
				label := fmt.Sprintf("%s.%s(%s) on <%s>", typ, op.name, op.args, text)
				if ot != "-" {
					label += " with <" + ot + ">"
				}
				c.oblige(label, func() {
					e := c.engine(k.sp)
					e.lists = append(e.lists, k.node)
					st := e.newState()
					s := k.newScene(c, e, st, text, "l")
					x := lcase{scene: s}
					args := []Value{VPtr{Obj: s.list}}
					for i := 0; i < len(op.args); i++ {
						switch b := op.args[i]; {
						case b == 'x':
							if x.xp.Obj == 0 {
								x.xq, x.xp = k.detached(st, "x")
								st.ghost["x"] = x.xp
							}
							args = append(args, x.xp)
						case b == '0':
							args = append(args, VPtr{})
						case b == 'v':
							vt := k.node.typ.Underlying().(*types.Struct).Field(k.node.val).Type()
							x.arg = st.fresh(vt, "v")
							args = append(args, x.arg)
						case b == 'O':
							x.o = k.newScene(c, e, st, ot, "o")
							args = append(args, VPtr{Obj: x.o.list})
						case b >= 'A' && b <= 'Z':
							args = append(args, s.first(b))
						default:
							args = append(args, VPtr{Obj: s.id[b]})
						}
					}
					fn := c.fn(k.sp, typ+"."+op.name)
					c.run(e, st, fn, args, func(s2 *State, ret []Value, pan *progPanic) string {
						if pan != nil {
							return panMsg(pan)
						}
						y := x
						y.st, y.ret, y.pan = s2, ret, pan
						var msg string
						y.after, y.fresh, msg = k.walk(s2, s.list)
						if msg != "" {
							return msg
						}
						return op.spec(&y)
					})
				})
			}
		}
	}
}

func nodeType(c *Ctx, sp *ssa.Package, list string) (lt types.Type, k *listKind) {
	lt, ls := structOf(sp, list)
	k = &listKind{sp: sp, list: lt, head: -1}
	for i := 0; i < ls.NumFields(); i++ {
		t := ls.Field(i).Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Struct); ok && k.head < 0 {
				k.head = i
				k.node = &listSpec{typ: p.Elem(), next: -1, prev: -1, val: -1}
			}
		} else if _, ok := t.Underlying().(*types.Struct); ok && k.head < 0 {
			k.head, k.dummy = i, true
			k.node = &listSpec{typ: t, next: -1, prev: -1, val: -1}
		}
	}
	if k.head < 0 {
		giveUp("%s has no field that names its first node", list)
	}
	ns := k.node.typ.Underlying().(*types.Struct)
	var links []int
	for i := 0; i < ns.NumFields(); i++ {
		if p, ok := ns.Field(i).Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), k.node.typ) {
			links = append(links, i)
		} else if k.node.val < 0 {
			k.node.val = i
		}
	}
	if k.node.val < 0 || len(links) == 0 || len(links) > 2 {
		giveUp("%s has %d links", k.node.typ, len(links))
	}
	k.node.next = fieldLike(ns, "next")
	if k.node.next < 0 {
		k.node.next = links[0]
	}
	for _, l := range links {
		if l != k.node.next {
			k.node.prev = l
		}
	}
	k.ring = k.node.prev >= 0
	return
}

func (x *lcase) before(b byte) string { return x.text[:strings.IndexByte(x.text, b)] }
func (x *lcase) behind(b byte) string { return x.text[strings.IndexByte(x.text, b)+1:] }
func (x *lcase) without(b byte) string {
	return strings.Replace(x.text, string(b), "", 1)
}

func removed(b byte) func(x *lcase) string {
	return func(x *lcase) string {
		return and(x.is(x.rope(x.without(b))), x.retNode(x.q, x.at[b]), x.k.unlinked(x.st, x.ret[0]))
	}
}

func nothing(x *lcase) string { return and(x.same(), x.retNil()) }

func (x *lcase) detachedIntact() string {
	if x.xp.Obj == 0 {
		return ""
	}
	if m := x.k.unlinked(x.st, x.st.ghost["x"]); m != "" {
		return "the node that was not inserted was changed"
	}
	return ""
}

func checkList(c *Ctx) {
	sp := c.pkg("stl")
	_, k := nodeType(c, sp, "IntList")
	if !k.ring {
		giveUp("IntList nodes have no backward link")
	}
	swapped := *k
	ns := *k.node
	ns.next, ns.prev = ns.prev, ns.next
	swapped.node = &ns
	c.firstOf(func() { checkListWith(c, k) }, func() { checkListWith(c, &swapped) })
}

func popSpec(front, node bool) func(x *lcase) string {
	return func(x *lcase) string {
		st := x.st
		if x.text == "" {
			if node {
				return and(x.same(), x.retNil())
			}
			return and(x.same(), wantBool(st, x.ret[1], false, "ok"), wantInt(st, x.ret[0], K(0), "value"))
		}
		at, rest := K(0), seqRope(x.q, K(1), x.len.AddK(-1))
		if !front {
			at, rest = x.len.AddK(-1), seqRope(x.q, K(0), x.len.AddK(-1))
		}
		if node {
			return and(x.is(rest), x.retNode(x.q, at), x.k.unlinked(st, x.ret[0]))
		}
		return and(x.is(rest), wantBool(st, x.ret[1], true, "ok"), wantSame(st, x.ret[0], st.seqElem(x.q, at), "value"))
	}
}

func endSpec(front bool) func(x *lcase) string {
	return func(x *lcase) string {
		if x.text == "" {
			return nothing(x)
		}
		at := K(0)
		if !front {
			at = x.len.AddK(-1)
		}
		return and(x.same(), x.retNode(x.q, at))
	}
}

func spliceSpec(front bool) func(x *lcase) string {
	return func(x *lcase) string {
		or, _, msg := x.k.walk(x.st, x.o.list)
		if msg != "" {
			return "the other list: " + msg
		}
		if !x.st.ropeEq(or, nil) {
			return "the other list is not empty afterwards"
		}
		if len(x.ret) == 1 {
			if m := wantBool(x.st, x.ret[0], x.o.text != "", "result"); m != "" {
				return m
			}
		}
		if front {
			return x.is(cat(x.o.all(), x.all()))
		}
		return x.is(cat(x.all(), x.o.all()))
	}
}

func reachSpec(b bool) func(x *lcase) string {
	return func(x *lcase) string { return and(x.same(), wantBool(x.st, x.ret[0], b, "result")) }
}

func checkListWith(c *Ctx, k *listKind) {
	whole := []string{"", "a", "aB"}
	one := variants("AnB")
	two := append(variants("AnBmC"), variants("AmBnC")...)
	x1 := func(x *lcase) Rope { return seqRope(x.xq, K(0), K(1)) }
	reverse := func(x *lcase) string {
		r := seqRope(x.q, x.len.AddK(-1), x.len)
		r[0].dir = -1
		if x.text == "" {
			r = nil
		}
		return x.is(r)
	}
	ops := []lop{
		{name: "Front", scenes: []string{"", "a", "A", "aB"}, spec: endSpec(true)},
		{name: "Back", scenes: []string{"", "a", "A", "aB"}, spec: endSpec(false)},
		{name: "Empty", scenes: []string{"", "a", "A"}, spec: func(x *lcase) string {
			return and(x.same(), wantBool(x.st, x.ret[0], x.text == "", "Empty"))
		}},
		{name: "Clear", scenes: []string{"", "a", "A"}, spec: func(x *lcase) string { return x.is(nil) }},
		{name: "RotateForward", scenes: []string{"", "a", "A", "aB"}, spec: func(x *lcase) string {
			if x.text == "" {
				return x.is(nil)
			}
			return x.is(cat(seqRope(x.q, K(1), x.len.AddK(-1)), seqRope(x.q, K(0), K(1))))
		}},
		{name: "RotateBackward", scenes: []string{"", "a", "A", "Ab"}, spec: func(x *lcase) string {
			if x.text == "" {
				return x.is(nil)
			}
			return x.is(cat(seqRope(x.q, x.len.AddK(-1), K(1)), seqRope(x.q, K(0), x.len.AddK(-1))))
		}},
		{name: "PushFront", args: "v", scenes: []string{"", "a", "A"}, spec: func(x *lcase) string { return x.pushed(cat(x.newNode(), x.all())) }},
		{name: "PushBack", args: "v", scenes: []string{"", "a", "A"}, spec: func(x *lcase) string { return x.pushed(cat(x.all(), x.newNode())) }},
		{name: "InsertFront", args: "x", scenes: []string{"", "a", "A"}, spec: func(x *lcase) string { return and(x.is(cat(x1(x), x.all())), x.retNode(x.xq, K(0))) }},
		{name: "InsertBack", args: "x", scenes: []string{"", "a", "A"}, spec: func(x *lcase) string { return and(x.is(cat(x.all(), x1(x))), x.retNode(x.xq, K(0))) }},
		{name: "InsertFront", args: "0", scenes: []string{"", "a", "A"}, spec: nothing},
		{name: "InsertBack", args: "0", scenes: []string{"", "a", "A"}, spec: nothing},
		{name: "PopFront", scenes: []string{"", "a", "A", "aB"}, spec: popSpec(true, false)},
		{name: "PopBack", scenes: []string{"", "a", "A", "Ab"}, spec: popSpec(false, false)},
		{name: "RemoveFront", scenes: []string{"", "a", "A", "aB"}, spec: popSpec(true, true)},
		{name: "RemoveBack", scenes: []string{"", "a", "A", "Ab"}, spec: popSpec(false, true)},
		{name: "InsertFrontList", args: "O", scenes: whole, other: []string{"", "a", "A"}, spec: spliceSpec(true)},
		{name: "InsertBackList", args: "O", scenes: whole, other: []string{"", "a", "A"}, spec: spliceSpec(false)},
		{name: "PushBefore", args: "vn", scenes: one, spec: func(x *lcase) string {
			return x.pushed(cat(x.rope(x.before('n')), x.newNode(), x.rope("n"+x.behind('n'))))
		}},
		{name: "PushAfter", args: "vn", scenes: one, spec: func(x *lcase) string {
			return x.pushed(cat(x.rope(x.before('n')+"n"), x.newNode(), x.rope(x.behind('n'))))
		}},
		{name: "PushBefore", args: "v0", scenes: []string{"", "A"}, spec: nothing},
		{name: "PushAfter", args: "v0", scenes: []string{"", "A"}, spec: nothing},
		{name: "InsertBefore", args: "xn", scenes: one, spec: func(x *lcase) string {
			return and(x.is(cat(x.rope(x.before('n')), x1(x), x.rope("n"+x.behind('n')))), x.retNode(x.xq, K(0)))
		}},
		{name: "InsertAfter", args: "xn", scenes: one, spec: func(x *lcase) string {
			return and(x.is(cat(x.rope(x.before('n')+"n"), x1(x), x.rope(x.behind('n')))), x.retNode(x.xq, K(0)))
		}},
		{name: "InsertBefore", args: "0n", scenes: one, spec: nothing},
		{name: "InsertAfter", args: "0n", scenes: one, spec: nothing},
		{name: "InsertBefore", args: "x0", scenes: whole, spec: func(x *lcase) string { return and(x.same(), x.detachedIntact()) }},
		{name: "InsertAfter", args: "x0", scenes: whole, spec: func(x *lcase) string { return and(x.same(), x.detachedIntact()) }},
		{name: "InsertBefore", args: "nn", scenes: one, spec: func(x *lcase) string { return x.same() }},
		{name: "InsertAfter", args: "nn", scenes: one, spec: func(x *lcase) string { return x.same() }},
		{name: "Remove", args: "n", scenes: one, spec: removed('n')},
		{name: "Remove", args: "0", scenes: whole, spec: nothing},
		{name: "Remove", args: "x", scenes: whole, spec: nothing},
		{name: "MoveFront", args: "n", scenes: one, spec: func(x *lcase) string { return x.moved(x.rope("n"+x.without('n')), x.q, x.at['n']) }},
		{name: "MoveBack", args: "n", scenes: one, spec: func(x *lcase) string { return x.moved(x.rope(x.without('n')+"n"), x.q, x.at['n']) }},
		{name: "MoveFront", args: "0", scenes: whole, spec: nothing},
		{name: "MoveBack", args: "0", scenes: whole, spec: nothing},
		{name: "MoveFront", args: "x", scenes: whole, spec: nothing},
		{name: "MoveBack", args: "x", scenes: whole, spec: nothing},
		{name: "MoveBefore", args: "nm", scenes: two, spec: func(x *lcase) string {
			return x.moved(x.rope(strings.Replace(x.without('n'), "m", "nm", 1)), x.q, x.at['n'])
		}},
		{name: "MoveAfter", args: "nm", scenes: two, spec: func(x *lcase) string {
			return x.moved(x.rope(strings.Replace(x.without('n'), "m", "mn", 1)), x.q, x.at['n'])
		}},
		{name: "MoveBefore", args: "nn", scenes: one, spec: nothing},
		{name: "MoveAfter", args: "nn", scenes: one, spec: nothing},
		{name: "MoveBefore", args: "0n", scenes: one, spec: nothing},
		{name: "MoveAfter", args: "0n", scenes: one, spec: nothing},
		{name: "MoveBefore", args: "n0", scenes: one, spec: nothing},
		{name: "MoveAfter", args: "n0", scenes: one, spec: nothing},
		{name: "MoveBefore", args: "xn", scenes: one, spec: nothing},
		{name: "MoveAfter", args: "xn", scenes: one, spec: nothing},
		{name: "Reverse", scenes: []string{"", "a", "A", "aB"}, spec: reverse},
		{name: "Reachable", args: "nm", scenes: two, spec: reachSpec(true)},
		{name: "Reachable", args: "nn", scenes: one, spec: reachSpec(true)},
		{name: "Reachable", args: "nx", scenes: one, spec: reachSpec(false)},
		{name: "Reachable", args: "xn", scenes: one, spec: reachSpec(false)},
		{name: "Reachable", args: "0n", scenes: one, spec: reachSpec(false)},
		{name: "Reachable", args: "n0", scenes: one, spec: reachSpec(false)},
		{name: "IsValidNode", args: "n", scenes: one, spec: reachSpec(true)},
		{name: "IsValidNode", args: "x", scenes: whole, spec: reachSpec(false)},
		{name: "IsValidNode", args: "0", scenes: whole, spec: reachSpec(false)},
	}
	k.run(c, "IntList", ops)
	k.nodeOps(c, "IntListNode", one)
	k.visitor(c, "IntList", "IntListNodeVisitor", true)
	c.oblige("NewIntList makes an empty list", func() { k.ctor(c, "NewIntList") })
}

func (k *listKind) ctor(c *Ctx, name string) {
	e := c.engine(k.sp)
	st := e.newState()
	c.run(e, st, c.fn(k.sp, name), nil, func(s *State, ret []Value, pan *progPanic) string {
		if pan != nil {
			return panMsg(pan)
		}
		p, ok := ret[0].(VPtr)
		if !ok || p.Obj == 0 {
			return "returns " + vstr(ret[0])
		}
		if !isNil(k.headOf(s, p.Obj)) {
			return "a new list is not empty"
		}
		return ""
	})
}

// nodeOps checks the accessors of a node.
func (k *listKind) nodeOps(c *Ctx, typ string, scenes []string) {
	node := func(name string, text string, f func(x *lcase) string, args ...func(st *State) Value) {
		c.oblige(fmt.Sprintf("%s.%s on <%s>", typ, name, text), func() {
			e := c.engine(k.sp)
			e.lists = append(e.lists, k.node)
			st := e.newState()
			s := k.newScene(c, e, st, text, "l")
			a := []Value{VPtr{Obj: s.id['n']}}
			x := lcase{scene: s}
			for _, g := range args {
				x.arg = g(st)
				a = append(a, x.arg)
			}
			c.run(e, st, c.fn(k.sp, typ+"."+name), a, func(s2 *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				y := x
				y.st, y.ret = s2, ret
				return f(&y)
			})
		})
	}
	same := func(x *lcase) string {
		var m string
		x.after, x.fresh, m = k.walk(x.st, x.list)
		return and(m, x.same())
	}
	for _, text := range scenes {
		node("Get", text, func(x *lcase) string {
			return and(same(x), wantSame(x.st, x.ret[0], x.st.seqElem(x.q, x.at['n']), "Get"))
		})
		node("Next", text, func(x *lcase) string {
			i := x.at['n'].AddK(1)
			if strings.HasSuffix(x.text, "n") {
				if !k.ring {
					return and(same(x), x.retNil())
				}
				i = K(0)
			}
			return and(same(x), x.retNode(x.q, i))
		})
		if k.ring {
			node("Prev", text, func(x *lcase) string {
				i := x.at['n'].AddK(-1)
				if strings.HasPrefix(x.text, "n") {
					i = x.len.AddK(-1)
				}
				return and(same(x), x.retNode(x.q, i))
			})
		}
	}
	if !k.ring {
		for _, text := range scenes {
			node("Tail", text, func(x *lcase) string {
				return and(same(x), x.retNode(x.q, x.len.AddK(-1)), wantInt(x.st, x.ret[1], x.len.Sub(x.at['n']), "the number of nodes"))
			})
		}
		c.oblige(typ+".Tail on nil", func() {
			e := c.engine(k.sp)
			st := e.newState()
			c.run(e, st, c.fn(k.sp, typ+".Tail"), []Value{VPtr{}}, func(s2 *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				x := lcase{st: s2, ret: ret}
				return and(x.retNil(), wantInt(s2, ret[1], K(0), "the number of nodes"))
			})
		})
	}
	node("Set", "AnB", func(x *lcase) string {
		p, ok := x.st.heap[x.id['n']]
		if !ok {
			return "the node is gone"
		}
		f := p.v.(VStruct).F
		return and(wantSame(x.st, f[k.node.val], x.arg, "the value"), wantSame(x.st, x.ret[0], x.st.seqElem(x.q, x.at['n']), "the old value"))
	}, func(st *State) Value {
		return st.fresh(k.node.typ.Underlying().(*types.Struct).Field(k.node.val).Type(), "v")
	})
}

// visitor checks one step of a visitor from every position.
func (k *listKind) visitor(c *Ctx, list, typ string, back bool) {
	t, s := structOf(k.sp, typ)
	nf, hf := fieldLike(s, "node", "cur", "p"), fieldLike(s, "head", "first")
	if nf < 0 || hf < 0 {
		nf, hf = 0, 1
	}
	step := func(name, text string, at byte, f func(x *lcase, v VStruct) string) {
		c.oblige(fmt.Sprintf("%s.%s on <%s> at %c", typ, name, text, at), func() {
			e := c.engine(k.sp)
			e.lists = append(e.lists, k.node)
			st := e.newState()
			sc := k.newScene(c, e, st, text, "l")
			z := e.zero(t).(VStruct)
			if text != "" {
				z.F[hf] = sc.first(text[0])
			}
			if at != '-' {
				z.F[nf] = VPtr{Obj: sc.id[at]}
			}
			vo := st.newObj(t, z, "visitor")
			c.run(e, st, c.fn(k.sp, typ+"."+name), []Value{VPtr{Obj: vo}}, func(s2 *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				x := &lcase{scene: sc, st: s2, ret: ret}
				var m string
				if x.after, _, m = k.walk(s2, sc.list); m != "" {
					return m
				}
				if m = x.same(); m != "" {
					return m
				}
				return f(x, s2.heap[vo].v.(VStruct))
			})
		})
	}
	is := func(x *lcase, v VStruct, ok bool, idx Lin) string {
		if m := wantBool(x.st, x.ret[0], ok, "result"); m != "" || !ok {
			return m
		}
		if !k.nodeIs(x.st, v.F[nf], x.q, idx) {
			return fmt.Sprintf("the visitor is at %s, expected node %s", vstr(v.F[nf]), idx)
		}
		return ""
	}
	step("Next", "", '-', func(x *lcase, v VStruct) string { return is(x, v, false, K(0)) })
	for _, t := range []string{"a", "A"} {
		step("Next", t, '-', func(x *lcase, v VStruct) string { return is(x, v, true, K(0)) })
	}
	for _, t := range variants("AnB") {
		step("Next", t, 'n', func(x *lcase, v VStruct) string { return is(x, v, !strings.HasSuffix(t, "n"), x.at['n'].AddK(1)) })
	}
	if back {
		step("Prev", "", '-', func(x *lcase, v VStruct) string { return is(x, v, false, K(0)) })
		for _, t := range []string{"a", "A"} {
			step("Prev", t, '-', func(x *lcase, v VStruct) string { return is(x, v, true, x.len.AddK(-1)) })
		}
		for _, t := range variants("AnB") {
			step("Prev", t, 'n', func(x *lcase, v VStruct) string { return is(x, v, !strings.HasPrefix(t, "n"), x.at['n'].AddK(-1)) })
		}
	}
	for _, t := range variants("AnB") {
		step("Get", t, 'n', func(x *lcase, v VStruct) string {
			return and(x.retNode(x.q, x.at['n']), wantSame(x.st, v.F[nf], VPtr{Obj: x.id['n']}, "position"))
		})
	}
	for _, text := range []string{"", "A"} {
		c.oblige(fmt.Sprintf("%s.Visitor on <%s>", list, text), func() {
			e := c.engine(k.sp)
			e.lists = append(e.lists, k.node)
			st := e.newState()
			sc := k.newScene(c, e, st, text, "l")
			c.run(e, st, c.fn(k.sp, list+".Visitor"), []Value{VPtr{Obj: sc.list}}, func(s2 *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				p, ok := ret[0].(VPtr)
				if !ok || p.Obj == 0 {
					return "returns " + vstr(ret[0])
				}
				v := s2.heap[p.Obj].v.(VStruct)
				if !isNil(v.F[nf]) {
					return "a new visitor is already at a node"
				}
				if text == "" {
					if !isNil(v.F[hf]) {
						return "the visitor of an empty list has a first node"
					}
					return ""
				}
				if !k.nodeIs(s2, v.F[hf], sc.q, K(0)) {
					return "the visitor does not start at the first node"
				}
				return ""
			})
		})
	}
}

func checkSList(c *Ctx) {
	sp := c.pkg("stl")
	_, k := nodeType(c, sp, "IntSList")
	if k.ring {
		giveUp("IntSList nodes have a backward link")
	}
	one := variants("AnB")
	two := append(variants("AnBmC"), variants("AmBnC")...)
	whole := []string{"", "a", "A"}
	x1 := func(x *lcase) Rope { return seqRope(x.xq, K(0), K(1)) }
	ops := []lop{
		{name: "Front", scenes: whole, spec: endSpec(true)},
		{name: "Empty", scenes: whole, spec: func(x *lcase) string {
			return and(x.same(), wantBool(x.st, x.ret[0], x.text == "", "Empty"))
		}},
		{name: "Len", scenes: whole, spec: func(x *lcase) string { return and(x.same(), wantInt(x.st, x.ret[0], x.len, "Len")) }},
		{name: "Clear", scenes: whole, spec: func(x *lcase) string { return x.is(nil) }},
		{name: "PushFront", args: "v", scenes: whole, spec: func(x *lcase) string { return x.pushed(cat(x.newNode(), x.all())) }},
		{name: "InsertFront", args: "x", scenes: whole, spec: func(x *lcase) string { return and(x.is(cat(x1(x), x.all())), x.retNode(x.xq, K(0))) }},
		{name: "InsertFront", args: "0", scenes: whole, spec: nothing},
		{name: "PopFront", scenes: whole, spec: popSpec(true, false)},
		{name: "RemoveFront", scenes: whole, spec: popSpec(true, true)},
		{name: "PushFrontList", args: "O", scenes: whole, other: whole, spec: spliceSpec(true)},
		{name: "PushAfter", args: "vn", scenes: one, spec: func(x *lcase) string {
			return x.pushed(cat(x.rope(x.before('n')+"n"), x.newNode(), x.rope(x.behind('n'))))
		}},
		{name: "PushAfter", args: "v0", scenes: whole, spec: nothing},
		{name: "InsertAfter", args: "xn", scenes: one, spec: func(x *lcase) string {
			return and(x.is(cat(x.rope(x.before('n')+"n"), x1(x), x.rope(x.behind('n')))), x.retNode(x.xq, K(0)))
		}},
		{name: "InsertAfter", args: "0n", scenes: one, spec: nothing},
		{name: "InsertAfter", args: "nn", scenes: one, spec: nothing},
		{name: "InsertAfter", args: "x0", scenes: whole, spec: func(x *lcase) string { return and(nothing(x), x.detachedIntact()) }},
		{name: "Remove", args: "n", scenes: one, spec: removed('n')},
		{name: "Remove", args: "0", scenes: whole, spec: nothing},
		{name: "Remove", args: "x", scenes: whole, spec: func(x *lcase) string { return and(nothing(x), x.detachedIntact()) }},
		{name: "MoveFront", args: "n", scenes: one, spec: func(x *lcase) string { return x.moved(x.rope("n"+x.without('n')), x.q, x.at['n']) }},
		{name: "MoveFront", args: "0", scenes: whole, spec: nothing},
		{name: "MoveFront", args: "x", scenes: whole, spec: func(x *lcase) string { return and(nothing(x), x.detachedIntact()) }},
		{name: "MoveAfter", args: "nm", scenes: two, spec: func(x *lcase) string {
			return x.moved(x.rope(strings.Replace(x.without('n'), "m", "mn", 1)), x.q, x.at['n'])
		}},
		{name: "MoveAfter", args: "nn", scenes: one, spec: nothing},
		{name: "MoveAfter", args: "0n", scenes: one, spec: nothing},
		{name: "MoveAfter", args: "n0", scenes: one, spec: nothing},
		{name: "MoveAfter", args: "xn", scenes: one, spec: func(x *lcase) string { return and(nothing(x), x.detachedIntact()) }},
		{name: "Reverse", scenes: whole, spec: func(x *lcase) string {
			if x.text == "" {
				return x.is(nil)
			}
			r := seqRope(x.q, x.len.AddK(-1), x.len)
			r[0].dir = -1
			return x.is(r)
		}},
		{name: "HasCycle", args: "0", scenes: whole, spec: reachSpec(false)},
		{name: "HasCycle", args: "n", scenes: one, spec: reachSpec(false)},
		{name: "HasCycle", args: "A", scenes: []string{"A"}, spec: reachSpec(false)},
		{name: "Reachable", args: "nm", scenes: variants("AnBmC"), spec: reachSpec(true)},
		{name: "Reachable", args: "nm", scenes: variants("AmBnC"), spec: reachSpec(false)},
		{name: "Reachable", args: "nn", scenes: one, spec: reachSpec(true)},
		{name: "Reachable", args: "nx", scenes: one, spec: reachSpec(false)},
		{name: "Reachable", args: "xn", scenes: one, spec: reachSpec(false)},
		{name: "Reachable", args: "0n", scenes: one, spec: reachSpec(false)},
		{name: "Reachable", args: "n0", scenes: one, spec: reachSpec(false)},
		{name: "IsValidNode", args: "n", scenes: one, spec: reachSpec(true)},
		{name: "IsValidNode", args: "x", scenes: whole, spec: reachSpec(false)},
		{name: "IsValidNode", args: "0", scenes: whole, spec: reachSpec(false)},
	}
	k.run(c, "IntSList", ops)
	k.nodeOps(c, "IntSListNode", one)
	k.visitor(c, "IntSList", "IntSListNodeVisitor", false)
	c.oblige("NewIntSList makes an empty list", func() { k.ctor(c, "NewIntSList") })
}
