package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// walker visits a state in a canonical order. It produces the shape (everything but
// the integers), the list of integers (slots) and, through the callbacks, a copy of
// the state with the integers and unknown sequences replaced.
type walker struct {
	st    *State
	out   *State // nil when only collecting
	e     *Engine
	b     strings.Builder
	slots []Lin
	objs  map[ObjID]int
	queue []ObjID
	seqs  map[*Seq]int
	seqO  []*Seq
	slot  func(i int, l Lin) Lin
	seqf  func(i int, s *Seq) *Seq
	pin   ObjID
	pinS  int
	refs  map[Sym]bool
}

func newWalker(st *State, pin ObjID, pinS int) *walker {
	return &walker{st: st, e: st.eng, objs: map[ObjID]int{}, seqs: map[*Seq]int{}, pin: pin, pinS: pinS}
}

func (w *walker) obj(id ObjID) int {
	if i, ok := w.objs[id]; ok {
		return i
	}
	i := len(w.objs)
	w.objs[id] = i
	w.queue = append(w.queue, id)
	return i
}

func (w *walker) objKey(id ObjID) {
	if id == 0 {
		w.b.WriteString("nil")
		return
	}
	w.obj(id)
	if id <= w.pin || w.isGlob(id) {
		fmt.Fprintf(&w.b, "o%d", id)
	} else {
		fmt.Fprintf(&w.b, "#%d", w.objs[id])
	}
}

func (w *walker) isGlob(id ObjID) bool {
	o := w.st.heap[id]
	return o != nil && o.glob
}

func (w *walker) seq(s *Seq) *Seq {
	if s == nil {
		w.b.WriteString("-")
		return nil
	}
	if s.id <= w.pinS || s.mk != nil || s.fixed {
		fmt.Fprintf(&w.b, "S%d", s.id)
		for _, y := range s.refs {
			if w.refs == nil {
				w.refs = map[Sym]bool{}
			}
			w.refs[y] = true
		}
		return s
	}
	i, ok := w.seqs[s]
	if !ok {
		i = len(w.seqO)
		w.seqs[s] = i
		w.seqO = append(w.seqO, s)
	}
	fmt.Fprintf(&w.b, "s%d:%s", i, s.name)
	if w.seqf != nil {
		return w.seqf(i, s)
	}
	return s
}

func (w *walker) lin(l Lin) Lin {
	l = w.st.c.norm(l)
	one, shift := l, l.Sub(l)
	if len(l.t) == 1 && l.t[0].k == 1 && l.c.sign() != 0 {
		if d := symDefOf(l.t[0].s); d != nil && (d.op == "app" && d.seq.shifts || d.op == "wrap" && w.st.eng.rawMul) {
			one = symLin(l.t[0].s)
			shift = l.Sub(one)
		}
	}
	if s, ok := one.onlySym(); ok {
		if d := symDefOf(s); d != nil && d.op == "wrap" && w.st.eng.rawMul {
			fmt.Fprintf(&w.b, "W(%s:%s:", d.tag, shift.String())
			tn, ok := types.Universe.Lookup(d.tag).(*types.TypeName)
			if !ok {
				giveUp("wrapped value of type %s", d.tag)
			}
			b := basicOf(tn.Type())
			lo, hi := intRange(b)
			in := shift.c.sign() != 0 && w.st.c.entails(l.Sub(kn(lo))) && w.st.c.entails(kn(hi).Sub(l))
			if in {
				w.b.WriteString("in:")
			}
			arg := w.mono(d.args[0])
			w.b.WriteString(")")
			if w.out == nil {
				return l
			}
			r := w.out.wrapSym(arg, b).Add(shift)
			if in {
				w.out.assume(r.Sub(kn(lo)))
				w.out.assume(kn(hi).Sub(r))
			}
			return r
		}
		if d := symDefOf(s); d != nil && d.op == "app" && !d.seq.plain {
			w.b.WriteString("A(")
			if shift.c.sign() != 0 {
				w.b.WriteString(shift.String() + ":")
			}
			q := w.seq(d.seq)
			idx := w.lin(d.args[0])
			w.b.WriteString(")")
			if w.out == nil {
				return l
			}
			v := w.out.seqElem(q, idx)
			r, ok := valLin(v)
			if !ok {
				giveUp("element of %s has no identity", q.name)
			}
			return r.Add(shift)
		}
	}
	i := len(w.slots)
	w.slots = append(w.slots, l)
	w.b.WriteString("$")
	if w.slot != nil {
		return w.slot(i, l)
	}
	return l
}

// mono walks k*x + c with its coefficients as part of the shape.
func (w *walker) mono(l Lin) Lin {
	l = w.st.c.norm(l)
	if len(l.t) != 1 {
		return w.lin(l)
	}
	one := symLin(l.t[0].s)
	k := l.t[0].k
	shift := l.Sub(one.Scale(k))
	fmt.Fprintf(&w.b, "%v*+%s:", k, shift.String())
	return w.lin(one).Scale(k).Add(shift)
}

func (w *walker) path(p []pathEl) []pathEl {
	if len(p) == 0 {
		return p
	}
	r := make([]pathEl, len(p))
	for i, x := range p {
		r[i] = x
		if x.isIdx {
			w.b.WriteString("[")
			r[i].idx = w.lin(x.idx)
			w.b.WriteString("]")
		} else {
			fmt.Fprintf(&w.b, ".%d", x.field)
		}
	}
	return r
}

func (w *walker) rope(r Rope) Rope {
	r = w.st.normRope(r)
	out := make(Rope, len(r))
	w.b.WriteString("<")
	for i, p := range r {
		if v, ok := p.uniform(); ok {
			p = Piece{n: p.n, kind: pConst, val: VInt{K(v)}}
		}
		q := p
		switch p.kind {
		case pSeq:
			fmt.Fprintf(&w.b, "q%d ", p.dir)
			q.seq = w.seq(p.seq)
			q.start = w.lin(p.start)
			q.n = w.lin(p.n)
		case pConst:
			w.b.WriteString("c ")
			q.n = w.lin(p.n)
			q.val = w.val(p.val)
		case pTable:
			fmt.Fprintf(&w.b, "t%v", p.tab)
		case pJunk:
			w.b.WriteString("j ")
			q.n = w.lin(p.n)
		}
		w.b.WriteString(";")
		out[i] = q
	}
	w.b.WriteString(">")
	return out
}

// uniform: a table of at least two equal numbers, which a loop may be filling.
func (p Piece) uniform() (int64, bool) {
	if p.kind != pTable || len(p.tab) < 2 {
		return 0, false
	}
	for _, x := range p.tab {
		if x != p.tab[0] {
			return 0, false
		}
	}
	return p.tab[0], true
}

func (w *walker) vals(vs []Value) []Value {
	out := make([]Value, len(vs))
	for i, v := range vs {
		out[i] = w.val(v)
		w.b.WriteString(",")
	}
	return out
}

func (w *walker) val(v Value) Value {
	switch x := v.(type) {
	case nil:
		w.b.WriteString("_")
		return nil
	case VInt:
		w.b.WriteString("i")
		return VInt{w.lin(x.L)}
	case VBool:
		fmt.Fprintf(&w.b, "%v", bool(x))
		return x
	case VPtr:
		w.b.WriteString("p")
		w.objKey(x.Obj)
		if x.End != 0 {
			fmt.Fprintf(&w.b, "^%d", x.End)
		}
		return VPtr{Obj: x.Obj, End: x.End, Path: w.path(x.Path)}
	case VSlice:
		w.b.WriteString("l")
		w.objKey(x.Arr)
		if x.Arr == 0 {
			return x
		}
		p := w.path(x.Path)
		return VSlice{Arr: x.Arr, Path: p, Off: w.lin(x.Off), Len: w.lin(x.Len), Cap: w.lin(x.Cap)}
	case VStr:
		w.b.WriteString("s")
		return VStr{w.rope(x.R)}
	case VStruct:
		w.b.WriteString("{")
		f := w.vals(x.F)
		w.b.WriteString("}")
		return VStruct{f}
	case VArray:
		w.b.WriteString("a")
		return VArray{w.rope(x.R)}
	case VTuple:
		w.b.WriteString("(")
		f := w.vals(x)
		w.b.WriteString(")")
		return VTuple(f)
	case VFunc:
		switch {
		case x.Opq != nil:
			w.b.WriteString("f?")
			l := w.lin(*x.Opq)
			return VFunc{Opq: &l}
		case x.Fn != nil:
			fmt.Fprintf(&w.b, "f%s[", x.Fn.String())
			bd := w.vals(x.Bind)
			w.b.WriteString("]")
			return VFunc{Fn: x.Fn, Bind: bd}
		}
		w.b.WriteString("fb" + x.Builtin)
		return x
	case VIface:
		switch {
		case x.Opq != nil:
			w.b.WriteString("I?" + x.Tag + " ")
			l := w.lin(*x.Opq)
			if x.V != nil {
				return VIface{Opq: &l, Tag: x.Tag, V: w.val(x.V)}
			}
			return VIface{Opq: &l, Tag: x.Tag}
		case x.Dyn != nil:
			w.b.WriteString("I:" + x.Dyn.String() + " ")
			return VIface{Dyn: x.Dyn, V: w.val(x.V)}
		}
		w.b.WriteString("Inil")
		return x
	case VMap:
		w.b.WriteString("m")
		if x.Obj < 0 {
			w.b.WriteString("-")
			return x
		}
		w.objKey(x.Obj)
		return x
	case VOpq:
		w.b.WriteString("?" + x.Tag + " ")
		return VOpq{w.lin(x.L), x.Tag}
	case VMapC:
		w.b.WriteString("M")
		r := VMapC{base: w.seq(x.base)}
		for _, en := range x.log {
			w.b.WriteString("|")
			r.log = append(r.log, mapEnt{w.val(en.key), w.val(en.val)})
		}
		return r
	case VFact:
		w.b.WriteString("Q" + x.kind + " ")
		r := VFact{kind: x.kind, q: w.seq(x.q)}
		for _, l := range x.p {
			r.p = append(r.p, w.lin(l))
			w.b.WriteString(",")
		}
		return r
	case VSeg:
		fmt.Fprintf(&w.b, "G%d ", x.dir)
		r := VSeg{dir: x.dir}
		r.q = w.seq(x.q)
		r.start = w.lin(x.start)
		r.n = w.lin(x.n)
		r.next = w.val(x.next)
		r.prev = w.val(x.prev)
		return r
	case VJunk:
		w.b.WriteString("J")
		return x
	}
	giveUp("cannot canonicalise %T", v)
	return nil
}

// run walks the whole state; when w.out is set it is filled with the copy.
func (w *walker) run(live map[ssa.Value]bool) {
	st := w.st
	for fi, fr := range st.frames {
		inf := w.e.fnInfoOf(fr.fn)
		fmt.Fprintf(&w.b, "\nF%s", fr.fn.String())
		var regs []ssa.Value
		for v := range fr.env {
			if fi == len(st.frames)-1 && live != nil && !live[v] {
				continue
			}
			regs = append(regs, v)
		}
		sort.Slice(regs, func(i, j int) bool { return inf.num[regs[i]] < inf.num[regs[j]] })
		nf := &Frame{fn: fr.fn, call: fr.call, opaque: fr.opaque, env: make(map[ssa.Value]Value, len(regs))}
		for _, r := range regs {
			fmt.Fprintf(&w.b, " r%d=", inf.num[r])
			nf.env[r] = w.val(fr.env[r])
		}
		for _, d := range fr.defers {
			fmt.Fprintf(&w.b, " D%p", d.inst)
			f := w.val(d.fn).(VFunc)
			nf.defers = append(nf.defers, deferRec{fn: f, args: w.vals(d.args), inst: d.inst})
		}
		if w.out != nil {
			w.out.frames = append(w.out.frames, nf)
		}
	}
	var gs []string
	for g := range st.ghost {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		w.b.WriteString("\ng" + g + "=")
		v := w.val(st.ghost[g])
		if w.out != nil {
			w.out.ghost[g] = v
		}
	}
	var roots []ObjID
	for id, o := range st.heap {
		if o.glob && w.e.initHeap[id] == o {
			if w.out != nil {
				w.out.heap[id] = o
			}
			continue
		}
		if id <= w.pin || o.glob {
			roots = append(roots, id)
		}
	}
	sortIDs(roots)
	for _, id := range roots {
		w.obj(id)
	}
	for len(w.queue) > 0 {
		id := w.queue[0]
		w.queue = w.queue[1:]
		o := st.heap[id]
		if o == nil {
			giveUp("dangling object o%d", id)
		}
		if o.glob && w.e.initHeap[id] == o {
			continue
		}
		w.b.WriteString("\n")
		w.objKey(id)
		fmt.Fprintf(&w.b, " %s=", o.name)
		n := *o
		if o.nodeQ != nil {
			w.b.WriteString("N")
			n.nodeQ = w.seq(o.nodeQ)
			n.nodeIdx = w.lin(o.nodeIdx)
		}
		n.v = w.val(o.v)
		if w.out != nil {
			w.out.heap[id] = &n
		}
	}
}

// canonKey returns the shape and the integers of a state.
func (e *Engine) canonKey(st *State, live map[ssa.Value]bool) (*walker, string) {
	w := newWalker(st, e.pinObj, e.pinSeq)
	w.run(live)
	return w, w.b.String()
}

// dedupe drops states that are covered by another one.
func (e *Engine) dedupe(ss []*State, inf *fnInfo, b *ssa.BasicBlock) []*State {
	live := inf.liveIn[b]
	type ent struct {
		st    *State
		slots []Lin
	}
	groups := map[string][]ent{}
	var order []string
	for _, s := range ss {
		env := s.top().env
		for v := range env {
			if !live[v] {
				delete(env, v)
			}
		}
		w, k := e.canonKey(s, live)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], ent{s, w.slots})
	}
	var out []*State
	for _, k := range order {
		g := groups[k]
		keep := make([]bool, len(g))
		for i := range g {
			keep[i] = true
		}
		for i := range g {
			for j := range g {
				if i == j || !keep[i] || !keep[j] {
					continue
				}
				// j covered by i?
				if e.covers(g[i].st, g[i].slots, g[j].st, g[j].slots) {
					keep[j] = false
				}
			}
		}
		for i := range g {
			if keep[i] {
				out = append(out, g[i].st)
			}
		}
	}
	return out
}

// covers: every concrete state of b is one of a (same integers, weaker facts).
func (e *Engine) covers(a *State, as []Lin, b *State, bs []Lin) bool {
	for i := range as {
		if !as[i].eq(bs[i]) && !b.c.entailsEq(as[i].Sub(bs[i])) {
			return false
		}
	}
	for k, v := range a.facts {
		if w, ok := b.facts[k]; !ok || w != v {
			return false
		}
	}
	for k, v := range a.strK {
		if w, ok := b.strK[k]; !ok || w != v {
			return false
		}
	}
	for s, l := range a.c.sub {
		if !b.c.entailsEq(symLin(s).Sub(l)) {
			return false
		}
	}
	for _, l := range a.c.ineq {
		if !b.c.entails(l) {
			return false
		}
	}
	for _, l := range a.c.neq {
		if !b.c.entailsNeq(l) {
			return false
		}
	}
	return true
}
