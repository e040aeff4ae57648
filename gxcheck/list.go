package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// listSpec describes a linked node type: which fields are the links and the payload.
type listSpec struct {
	typ        types.Type // the node struct type
	next, prev int        // field indexes; prev < 0 for singly linked nodes
	val        int
}

func (e *Engine) listSpecOf(t types.Type) *listSpec {
	for _, l := range e.lists {
		if types.Identical(l.typ, t) {
			return l
		}
	}
	return nil
}

// newSeg allocates a segment of n>=1 nodes q[start], q[start+dir], ...
func (st *State) newSeg(sp *listSpec, q *Seq, start, n Lin, dir int64) ObjID {
	return st.newObj(sp.typ, VSeg{q: q, start: start, n: n, dir: dir, next: VPtr{}, prev: VPtr{}}, "seg "+q.name)
}

// newNode allocates the single original node q[idx].
func (st *State) newNode(sp *listSpec, q *Seq, idx Lin) ObjID {
	z := st.eng.zero(sp.typ).(VStruct)
	z.F[sp.val] = st.seqElem(q, idx)
	id := st.newObj(sp.typ, z, "node "+q.name)
	o := *st.heap[id]
	o.nodeQ, o.nodeIdx = q, idx
	st.heap[id] = &o
	return id
}

func mapPtrs(v Value, f func(VPtr) VPtr) (Value, bool) {
	switch x := v.(type) {
	case VPtr:
		if x.Obj == 0 {
			return v, false
		}
		y := f(x)
		if y.Obj != x.Obj || y.End != x.End {
			return y, true
		}
		return v, false
	case VStruct:
		var out []Value
		for i, e := range x.F {
			if n, ch := mapPtrs(e, f); ch {
				if out == nil {
					out = append([]Value(nil), x.F...)
				}
				out[i] = n
			}
		}
		if out != nil {
			return VStruct{out}, true
		}
	case VTuple:
		var out []Value
		for i, e := range x {
			if n, ch := mapPtrs(e, f); ch {
				if out == nil {
					out = append([]Value(nil), x...)
				}
				out[i] = n
			}
		}
		if out != nil {
			return VTuple(out), true
		}
	case VIface:
		if x.V != nil {
			if n, ch := mapPtrs(x.V, f); ch {
				x.V = n
				return x, true
			}
		}
	case VFunc:
		var out []Value
		for i, e := range x.Bind {
			if n, ch := mapPtrs(e, f); ch {
				if out == nil {
					out = append([]Value(nil), x.Bind...)
				}
				out[i] = n
			}
		}
		if out != nil {
			x.Bind = out
			return x, true
		}
	case VArray:
		var out Rope
		for i, p := range x.R {
			if p.kind == pConst {
				if n, ch := mapPtrs(p.val, f); ch {
					if out == nil {
						out = append(Rope{}, x.R...)
					}
					out[i].val = n
				}
			}
		}
		if out != nil {
			return VArray{out}, true
		}
	case VSeg:
		n, c1 := mapPtrs(x.next, f)
		p, c2 := mapPtrs(x.prev, f)
		if c1 || c2 {
			x.next, x.prev = n, p
			return x, true
		}
	case VMapC:
		var out []mapEnt
		for i, en := range x.log {
			k, c1 := mapPtrs(en.key, f)
			var v Value
			c2 := false
			if en.val != nil {
				v, c2 = mapPtrs(en.val, f)
			}
			if c1 || c2 {
				if out == nil {
					out = append([]mapEnt(nil), x.log...)
				}
				out[i] = mapEnt{k, v}
			}
		}
		if out != nil {
			return VMapC{x.base, out}, true
		}
	}
	return v, false
}

// rewritePtrs applies f to every pointer in the state.
func (st *State) rewritePtrs(f func(VPtr) VPtr) {
	for id, o := range st.heap {
		if v, ch := mapPtrs(o.v, f); ch {
			n := *o
			n.v = v
			st.heap[id] = &n
		}
	}
	for i, fr := range st.frames {
		var nf *Frame
		for k, v := range fr.env {
			if nv, ch := mapPtrs(v, f); ch {
				if nf == nil {
					nf = fr.clone()
				}
				nf.env[k] = nv
			}
		}
		for di, d := range fr.defers {
			nfn, c1 := mapPtrs(d.fn, f)
			args := append([]Value(nil), d.args...)
			any := c1
			for ai, a := range args {
				if na, ch := mapPtrs(a, f); ch {
					args[ai] = na
					any = true
				}
			}
			if any {
				if nf == nil {
					nf = fr.clone()
				}
				nd := append([]deferRec(nil), nf.defers...)
				nd[di] = deferRec{fn: nfn.(VFunc), args: args, inst: d.inst}
				nf.defers = nd
			}
		}
		if nf != nil {
			if i == len(st.frames)-1 {
				*fr = *nf // the top frame is owned by this state
			} else {
				st.frames[i] = nf
			}
		}
	}
	for k, v := range st.ghost {
		if nv, ch := mapPtrs(v, f); ch {
			st.ghost[k] = nv
		}
	}
}

// materialize turns the end of a segment a pointer names into a node of its own.
func (st *State) materialize(p VPtr) VPtr {
	o := st.heap[p.Obj]
	s, ok := o.v.(VSeg)
	if !ok {
		giveUp("pointer to the end of something that is not a list segment")
	}
	sp := st.eng.listSpecOf(o.typ)
	seg := p.Obj
	if st.condEq(s.n, K(1)) {
		n := st.newNode(sp, s.q, s.start)
		st.setLinks(sp, n, s.next, s.prev)
		st.rewritePtrs(func(x VPtr) VPtr {
			if x.Obj == seg {
				return VPtr{Obj: n, Path: x.Path}
			}
			return x
		})
		delete(st.heap, seg)
		return VPtr{Obj: n, Path: p.Path}
	}
	st.assume(s.n.AddK(-2))
	if p.End == 1 {
		n := st.newNode(sp, s.q, s.start)
		st.rewritePtrs(func(x VPtr) VPtr {
			if x.Obj == seg && x.End == 1 {
				return VPtr{Obj: n, Path: x.Path}
			}
			return x
		})
		s = st.heap[seg].v.(VSeg)
		st.setLinks(sp, n, VPtr{Obj: seg, End: 1}, s.prev)
		s.start = s.start.Add(K(s.dir))
		s.n = s.n.AddK(-1)
		s.prev = VPtr{Obj: n}
		if sp.prev < 0 {
			s.prev = VPtr{}
		}
		st.setSeg(seg, s)
		return VPtr{Obj: n, Path: p.Path}
	}
	n := st.newNode(sp, s.q, s.start.Add(s.n.AddK(-1).Scale(s.dir)))
	st.rewritePtrs(func(x VPtr) VPtr {
		if x.Obj == seg && x.End == 2 {
			return VPtr{Obj: n, Path: x.Path}
		}
		return x
	})
	s = st.heap[seg].v.(VSeg)
	st.setLinks(sp, n, s.next, VPtr{Obj: seg, End: 2})
	s.n = s.n.AddK(-1)
	s.next = VPtr{Obj: n}
	st.setSeg(seg, s)
	return VPtr{Obj: n, Path: p.Path}
}

func (st *State) setSeg(id ObjID, s VSeg) {
	o := *st.heap[id]
	o.v = s
	st.heap[id] = &o
}

func (st *State) setLinks(sp *listSpec, id ObjID, next, prev Value) {
	o := *st.heap[id]
	f := append([]Value(nil), o.v.(VStruct).F...)
	f[sp.next] = next
	if sp.prev >= 0 {
		f[sp.prev] = prev
	}
	o.v = VStruct{f}
	st.heap[id] = &o
}

// part is a node or segment seen uniformly.
type part struct {
	id         ObjID
	sp         *listSpec
	q          *Seq
	start, n   Lin
	dir        int64 // 0: a single node
	next, prev Value
	orig       bool // payload unchanged
	seg        bool
	one        bool // a segment of exactly one node: its ends coincide
}

func (st *State) part(id ObjID) (part, bool) {
	o := st.heap[id]
	if o == nil || o.glob {
		return part{}, false
	}
	sp := st.eng.listSpecOf(o.typ)
	if sp == nil {
		return part{}, false
	}
	switch v := o.v.(type) {
	case VSeg:
		return part{id: id, sp: sp, q: v.q, start: v.start, n: v.n, dir: v.dir, next: v.next, prev: v.prev, orig: true, seg: true, one: st.c.entailsEq(v.n.AddK(-1))}, true
	case VStruct:
		p := part{id: id, sp: sp, q: o.nodeQ, start: o.nodeIdx, n: K(1), next: v.F[sp.next], prev: VPtr{}}
		if sp.prev >= 0 {
			p.prev = v.F[sp.prev]
		}
		if o.nodeQ != nil {
			p.orig = st.sameVal(v.F[sp.val], st.seqElem(o.nodeQ, o.nodeIdx))
			for i, f := range v.F {
				if i != sp.next && i != sp.prev && i != sp.val && !st.sameVal(f, st.eng.zero(sp.typ.Underlying().(*types.Struct).Field(i).Type())) {
					p.orig = false
				}
			}
		}
		return p, true
	}
	return part{}, false
}

func isEnd(v Value, p part, end int) bool {
	x, ok := v.(VPtr)
	if !ok || x.Obj != p.id || len(x.Path) != 0 {
		return false
	}
	return !p.seg || p.one || x.End == end
}

// foldLists merges adjacent original nodes and segments that nothing else points into.
func (st *State) foldLists() {
	if len(st.eng.lists) == 0 {
		return
	}
	for n := 0; n < 200 && st.foldOnce(); n++ {
	}
}

type refCount struct{ first, last, any int }

// outside references, not counting the links between parts
func (st *State) outerRefs() map[ObjID]*refCount {
	m := map[ObjID]*refCount{}
	add := func(x VPtr) VPtr {
		r := m[x.Obj]
		if r == nil {
			r = &refCount{}
			m[x.Obj] = r
		}
		r.any++
		switch {
		case x.End == 1:
			r.first++
		case x.End == 2:
			r.last++
		default:
			r.first++
			r.last++
		}
		return x
	}
	for _, o := range st.heap {
		sp := st.eng.listSpecOf(o.typ)
		if sp != nil && !o.glob {
			switch v := o.v.(type) {
			case VSeg:
				continue
			case VStruct:
				for i, f := range v.F {
					if i != sp.next && i != sp.prev {
						mapPtrs(f, add)
					}
				}
				continue
			}
		}
		mapPtrs(o.v, add)
	}
	for _, fr := range st.frames {
		for _, v := range fr.env {
			mapPtrs(v, add)
		}
		for _, d := range fr.defers {
			mapPtrs(d.fn, add)
			for _, a := range d.args {
				mapPtrs(a, add)
			}
		}
	}
	for _, v := range st.ghost {
		mapPtrs(v, add)
	}
	return m
}

func (st *State) foldOnce() bool {
	// link references from list parts
	refs := st.outerRefs()
	parts := map[ObjID]part{}
	var ids []ObjID
	for id := range st.heap {
		if p, ok := st.part(id); ok {
			parts[id] = p
			ids = append(ids, id)
		}
	}
	sortIDs(ids)
	// count link references to each end
	links := map[ObjID]*refCount{}
	for _, id := range ids {
		p := parts[id]
		for _, v := range []Value{p.next, p.prev} {
			if x, ok := v.(VPtr); ok && x.Obj != 0 {
				r := links[x.Obj]
				if r == nil {
					r = &refCount{}
					links[x.Obj] = r
				}
				if x.End == 1 || x.End == 0 {
					r.first++
				}
				if x.End == 2 || x.End == 0 {
					r.last++
				}
			}
		}
	}
	get := func(m map[ObjID]*refCount, id ObjID) refCount {
		if r := m[id]; r != nil {
			return *r
		}
		return refCount{}
	}
	for _, aid := range ids {
		a := parts[aid]
		if !a.orig || a.q == nil {
			continue
		}
		nx, ok := a.next.(VPtr)
		if !ok || nx.Obj == 0 || nx.Obj == aid {
			continue
		}
		b, ok := parts[nx.Obj]
		if !ok || !b.orig || b.q != a.q || b.sp != a.sp || !isEnd(a.next, b, 1) {
			continue
		}
		if a.sp.prev >= 0 && !isEnd(b.prev, a, 2) {
			continue
		}
		// b's first node must not be referenced from elsewhere; nor a's last (unless a is one node)
		rb, lb := get(refs, b.id), get(links, b.id)
		bad := false
		if b.one {
			// it becomes the last node, whichever end is named
		} else if b.seg {
			bad = rb.first > 0 || lb.first > 1
		} else {
			// only a's link may name b as "first"; b's successor may name it as prev
			bad = rb.any > 0
			allowed := 1
			if a.sp.prev >= 0 {
				if bn, ok := b.next.(VPtr); ok && bn.Obj != 0 {
					if c, ok := parts[bn.Obj]; ok && isEnd(c.prev, b, 2) {
						allowed++
					}
				}
			}
			if lb.first > allowed {
				bad = true
			}
		}
		if bad {
			continue
		}
		if a.seg && !a.one {
			ra, la := get(refs, a.id), get(links, a.id)
			want := 0
			if a.sp.prev >= 0 {
				want = 1
			}
			if ra.last > 0 || la.last > want {
				continue
			}
		}
		// direction
		var dir int64
		for _, d := range []int64{1, -1} {
			if (a.dir == 0 || a.dir == d || st.c.entailsEq(a.n.AddK(-1))) && (b.dir == 0 || b.dir == d || st.c.entailsEq(b.n.AddK(-1))) &&
				st.c.entailsEq(b.start.Sub(a.start).Sub(a.n.Scale(d))) {
				dir = d
				break
			}
		}
		if dir == 0 {
			continue
		}
		seg := st.newSeg(a.sp, a.q, a.start, a.n.Add(b.n), dir)
		s := st.heap[seg].v.(VSeg)
		s.next, s.prev = b.next, a.prev
		st.setSeg(seg, s)
		ai, bi := a.id, b.id
		delete(st.heap, ai)
		delete(st.heap, bi)
		st.rewritePtrs(func(x VPtr) VPtr {
			if x.Obj == ai {
				if a.seg && !a.one && x.End == 2 {
					giveUp("lost reference while folding a list")
				}
				return VPtr{Obj: seg, End: 1, Path: x.Path}
			}
			if x.Obj == bi {
				if b.seg && !b.one && x.End == 1 {
					giveUp("lost reference while folding a list")
				}
				return VPtr{Obj: seg, End: 2, Path: x.Path}
			}
			return x
		})
		return true
	}
	// a lone original node that only links name becomes a one-node segment, so that
	// shapes with one and with many nodes agree
	for _, id := range ids {
		p := parts[id]
		if p.seg || !p.orig || p.q == nil {
			continue
		}
		hasPath := false
		st.scanPtrs(func(x VPtr) {
			if x.Obj == id && len(x.Path) > 0 {
				hasPath = true
			}
		})
		if hasPath {
			continue
		}
		seg := st.newSeg(p.sp, p.q, p.start, K(1), 1)
		s := st.heap[seg].v.(VSeg)
		s.next, s.prev = p.next, p.prev
		st.setSeg(seg, s)
		delete(st.heap, id)
		prevOf := map[ObjID]bool{}
		for _, o := range ids {
			if o != id && parts[o].sp.prev >= 0 && isEnd(parts[o].prev, p, 2) {
				prevOf[o] = true
			}
		}
		st.rewritePtrs(func(x VPtr) VPtr {
			if x.Obj == id {
				return VPtr{Obj: seg, End: 1, Path: x.Path}
			}
			return x
		})
		// links that see the node from behind name its last node
		for o := range prevOf {
			st.relinkPrev(o, VPtr{Obj: seg, End: 2})
		}
		s = st.heap[seg].v.(VSeg)
		if x, ok := s.prev.(VPtr); ok && x.Obj == seg {
			s.prev = VPtr{Obj: seg, End: 2}
			st.setSeg(seg, s)
		}
		return true
	}
	return false
}

func (st *State) relinkPrev(id ObjID, to VPtr) {
	o := *st.heap[id]
	sp := st.eng.listSpecOf(o.typ)
	switch v := o.v.(type) {
	case VSeg:
		v.prev = to
		o.v = v
	case VStruct:
		f := append([]Value(nil), v.F...)
		f[sp.prev] = to
		o.v = VStruct{f}
	}
	st.heap[id] = &o
}

func (st *State) scanPtrs(f func(VPtr)) {
	g := func(x VPtr) VPtr { f(x); return x }
	for _, o := range st.heap {
		mapPtrs(o.v, g)
	}
	for _, fr := range st.frames {
		for _, v := range fr.env {
			mapPtrs(v, g)
		}
		for _, d := range fr.defers {
			mapPtrs(d.fn, g)
			for _, a := range d.args {
				mapPtrs(a, g)
			}
		}
	}
	for _, v := range st.ghost {
		mapPtrs(v, g)
	}
}

func sortIDs(ids []ObjID) {
	for i := 1; i < len(ids); i++ {
		for j := i; j > 0 && ids[j] < ids[j-1]; j-- {
			ids[j], ids[j-1] = ids[j-1], ids[j]
		}
	}
}

var _ = ssa.BuilderMode(0)
