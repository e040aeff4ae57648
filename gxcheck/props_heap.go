package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C07"] = &propCheck{par: true, run: checkHeapProp, minObl: 33}
}

// Quantified statements about an array q, kept at loop heads. ord(x, y) means that x
// may stand below y in the heap. An edge is a pair (i, p) with i = 2p+1 or i = 2p+2.
//
//	G0 lo W      every edge with lo < i < W is in order
//	GB h lo W    ... except those that touch h
//	GS h lo W    ... except the one from h upwards
//	GP h lo W    ... except those from h downwards
//	C  h lo W    the children below W of h are in order with h's parent (if h > lo)
//	D  h v lo    v is in order below h's parent (if h > lo)
//	E  h v W     the children below W of h are in order below v
//	V  m x       q[m] is x
//	S  k n       q[k:n] is in order
//	U  k n       if k < n, the elements before k are in order below q[k]
//	A  v k n     if k < n, v is in order below q[k]
//	N  i         the edge from i upwards is out of order
//	P  i u       if i > 0, u is its parent
//	B0 T n       the weights of the first n elements of q sum up to T
//	B  h v T n   ... with v in the place of q[h]
type heapWorld struct {
	e    *Engine
	sign int64 // 1: max heap, -1: min heap
	w    *Seq  // weight of a value
	sort bool  // also look for sorted parts
	sums map[*Seq]heapSum
}
type heapSum struct{ s, n Lin } // the sum over the first n elements

// ord: x may stand below y.
func (h *heapWorld) ord(x, y Lin) Lin { return y.Sub(x).Scale(h.sign) }

type hterm struct {
	name string
	l    Lin
}

func (h *heapWorld) facts(s *State) (out []VFact) {
	var ks []string
	for k := range s.ghost {
		if strings.HasPrefix(k, "h") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if f, ok := s.ghost[k].(VFact); ok {
			out = append(out, f)
		}
	}
	return
}

func (h *heapWorld) at(s *State, q *Seq, i Lin) Lin {
	l, ok := valLin(s.seqElem(q, i))
	if !ok {
		giveUp("element of %s is no number", q.name)
	}
	return h.same(s, l)
}

// same replaces an element by one with an equal index that the store knows about.
func (h *heapWorld) same(s *State, l Lin) Lin {
	y, ok := l.onlySym()
	if !ok {
		return l
	}
	d := symDefOf(y)
	if d == nil || d.op != "app" {
		return l
	}
	var cand []Sym
	add := func(x Sym) {
		e := symDefOf(x)
		if e == nil || e.op != "app" || e.seq != d.seq || x == y {
			return
		}
		for _, z := range cand {
			if z == x {
				return
			}
		}
		cand = append(cand, x)
	}
	for x, v := range s.c.sub {
		add(x)
		for _, t := range v.t {
			add(t.s)
		}
	}
	for _, q := range s.c.ineq {
		for _, t := range q.t {
			add(t.s)
		}
	}
	sort.Slice(cand, func(i, j int) bool { return cand[i] < cand[j] })
	for _, x := range cand {
		if s.c.entailsEq(symDefOf(x).args[0].Sub(d.args[0])) {
			s.assumeEq(symLin(x).Sub(l))
			return s.c.norm(l)
		}
	}
	return l
}

// parent finds (or names) the parent of i >= 1; split allows a case distinction.
func (h *heapWorld) parent(s *State, i Lin, known []Lin, split bool) (Lin, bool) {
	n := s.c.norm(i)
	even := true
	for _, t := range n.t {
		even = even && t.k%2 == 0
	}
	if even && n.c.isInt64() {
		k := n.c.int64()
		side := int64(1)
		if k%2 == 0 {
			side = 2
		}
		r := Lin{c: n64((k - side) / 2)}
		for _, t := range n.t {
			r = r.Add(symLin(t.s).Scale(t.k / 2))
		}
		return r, true
	}
	for _, u := range known {
		d := n.Sub(u.Scale(2))
		if s.c.entails(d.AddK(-1)) && s.c.entails(K(2).Sub(d)) {
			return u, true
		}
	}
	if !split {
		return Lin{}, false
	}
	u := h.skolem("par", s)
	s.assume(u)
	d := n.Sub(u.Scale(2))
	if s.choose(2) == 0 {
		s.assumeEq(d.AddK(-1))
	} else {
		s.assumeEq(d.AddK(-2))
	}
	return u, true
}

// skolem gives an arbitrary number that is new to this case; the same names serve
// again in the next proof.
func (h *heapWorld) skolem(name string, s *State) Lin {
	for i := 0; ; i++ {
		k := fmt.Sprintf("heap:%s%d", name, i)
		if s.facts[k] {
			continue
		}
		if s.facts == nil {
			s.facts = map[string]bool{}
		}
		s.facts[k] = true
		y, ok := symMemo[k]
		if !ok {
			y = newSym(name)
			symMemo[k] = y
		}
		return symLin(y)
	}
}

// merge makes elements with equal indexes equal; the cases made since they were
// read may have told so.
func (h *heapWorld) merge(s *State, more ...Lin) {
	var apps []Sym
	seen := map[Sym]bool{}
	add := func(l Lin) {
		for _, t := range l.t {
			if seen[t.s] {
				continue
			}
			seen[t.s] = true
			if d := symDefOf(t.s); d != nil && d.op == "app" && d.seq != h.w {
				apps = append(apps, t.s)
			}
		}
	}
	for _, l := range more {
		add(l)
	}
	var ks []Sym
	for x := range s.c.sub {
		ks = append(ks, x)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, x := range ks {
		add(symLin(x))
		add(s.c.sub[x])
	}
	for _, q := range s.c.ineq {
		add(q)
	}
	for i, x := range apps {
		dx := symDefOf(x)
		for _, y := range apps[i+1:] {
			dy := symDefOf(y)
			if dx.seq == dy.seq && s.c.entailsEq(dx.args[0].Sub(dy.args[0])) {
				s.assumeEq(symLin(x).Sub(symLin(y)))
			}
		}
	}
}

// under decides ord(x, y) in a case of a proof.
func (h *heapWorld) under(s *State, x, y Lin, use func()) bool {
	if s.c.entails(h.ord(x, y)) {
		return true
	}
	use()
	if s.c.entails(h.ord(x, y)) {
		return true
	}
	h.merge(s, x, y)
	return s.c.entails(h.ord(x, y))
}

// use instantiates the known facts at the given parents.
func (h *heapWorld) use(s *State, fs []VFact, ts []Lin, goal []Lin) {
	isGoal := func(t Lin) bool {
		for _, g := range goal {
			if g.eq(t) {
				return true
			}
		}
		return false
	}
	// holds decides a guard, splitting only for the terms of the goal
	holds := func(l Lin, split bool) bool {
		if s.c.entails(l) {
			return true
		}
		return split && s.cond(l)
	}
	differ := func(a, b Lin, split bool) bool {
		d := a.Sub(b)
		if s.c.entailsNeq(d) {
			return true
		}
		if s.c.entailsEq(d) {
			return false
		}
		return split && !s.condEq(a, b)
	}
	for _, f := range fs {
		switch f.kind {
		case "G0", "GB", "GS", "GP":
			p := f.p
			var hole Lin
			if f.kind != "G0" {
				hole, p = p[0], p[1:]
			}
			lo, W := p[0], p[1]
			for _, t := range ts {
				if !s.c.entails(t) {
					continue
				}
				sp := isGoal(t)
				for side := int64(1); side <= 2; side++ {
					i := t.Scale(2).AddK(side)
					if !holds(W.Sub(i).AddK(-1), sp) || !holds(i.Sub(lo).AddK(-1), sp) {
						continue
					}
					if (f.kind == "GB" || f.kind == "GS") && !differ(i, hole, sp) {
						continue
					}
					if (f.kind == "GB" || f.kind == "GP") && !differ(t, hole, sp) {
						continue
					}
					s.assume(h.ord(h.at(s, f.q, i), h.at(s, f.q, t)))
				}
			}
		case "C", "D":
			hole := f.p[0]
			lo := f.p[1]
			if f.kind == "D" {
				lo = f.p[2]
			}
			if !holds(hole.AddK(-1), true) || !holds(hole.Sub(lo).AddK(-1), true) {
				continue
			}
			u, ok := h.parent(s, hole, ts, true)
			if !ok {
				continue
			}
			if f.kind == "D" {
				s.assume(h.ord(f.p[1], h.at(s, f.q, u)))
				continue
			}
			for side := int64(1); side <= 2; side++ {
				if i := hole.Scale(2).AddK(side); holds(f.p[2].Sub(i).AddK(-1), true) {
					s.assume(h.ord(h.at(s, f.q, i), h.at(s, f.q, u)))
				}
			}
		case "E":
			for side := int64(1); side <= 2; side++ {
				if i := f.p[0].Scale(2).AddK(side); holds(f.p[2].Sub(i).AddK(-1), true) {
					s.assume(h.ord(h.at(s, f.q, i), f.p[1]))
				}
			}
		case "V":
			s.assumeEq(h.at(s, f.q, f.p[0]).Sub(f.p[1]))
		case "N":
			if u, ok := h.parent(s, f.p[0], ts, true); ok {
				s.assume(h.ord(h.at(s, f.q, f.p[0]), h.at(s, f.q, u)).Neg().AddK(-1))
			}
		}
	}
}

// parents applies what is known about indexes and their parents.
func (h *heapWorld) parents(s *State, fs []VFact) {
	for _, f := range fs {
		if f.kind == "P" && s.cond(f.p[0].AddK(-1)) {
			d := f.p[0].Sub(f.p[1].Scale(2))
			s.assume(d.AddK(-1))
			s.assume(K(2).Sub(d))
		}
	}
}

// useSorted instantiates what is known about sorted parts and the root at the elements
// of the goal.
func (h *heapWorld) useSorted(s *State, fs []VFact, els []Lin) {
	for _, f := range fs {
		var at []Lin
		for _, l := range els {
			y, ok := l.onlySym()
			if !ok {
				continue
			}
			if d := symDefOf(y); d != nil && d.op == "app" && d.seq == f.q {
				at = append(at, d.args[0])
			}
		}
		switch f.kind {
		case "G0":
			// by induction along the edges no element is above the root
			if !s.c.entailsEq(f.p[0]) {
				continue
			}
			for _, e := range at {
				if s.c.entails(e) && s.cond(f.p[1].Sub(e).AddK(-1)) {
					s.assume(h.ord(h.at(s, f.q, e), h.at(s, f.q, K(0))))
				}
			}
		case "S":
			for _, e := range at {
				if s.cond(e.Sub(f.p[0])) && s.cond(f.p[1].Sub(e).AddK(-2)) {
					s.assume(h.ord(h.at(s, f.q, e), h.at(s, f.q, e.AddK(1))))
				}
			}
		case "U":
			if !s.cond(f.p[1].Sub(f.p[0]).AddK(-1)) {
				continue
			}
			for _, e := range at {
				if s.c.entails(e) && s.cond(f.p[0].Sub(e).AddK(-1)) {
					s.assume(h.ord(h.at(s, f.q, e), h.at(s, f.q, f.p[0])))
				}
			}
		case "A":
			if s.cond(f.p[2].Sub(f.p[1]).AddK(-1)) {
				s.assume(h.ord(f.p[0], h.at(s, f.q, f.p[1])))
			}
		}
	}
}

func usesSeq(r Rope, q *Seq) bool {
	for _, p := range r {
		if p.kind == pSeq && p.seq == q {
			return true
		}
		if p.kind == pConst {
			if l, ok := valLin(p.val); ok {
				for _, t := range l.t {
					if d := symDefOf(t.s); d != nil && d.op == "app" && d.seq == q {
						return true
					}
				}
			}
		}
	}
	return false
}

// proves decides a statement about the array with content r.
func (h *heapWorld) proves(st *State, r Rope, kind string, p []Lin) (good bool) {
	heapProofs++
	t0 := time.Now()
	defer func() {
		k := fmt.Sprintf("%s %v", kind, good)
		e := heapStat[k]
		e.n++
		e.t += time.Since(t0)
		heapStat[k] = e
	}()
	var fs []VFact
	var ts []Lin
	for _, f := range h.facts(st) {
		if usesSeq(r, f.q) {
			fs = append(fs, f)
			switch f.kind {
			case "GB", "GS", "GP", "C", "D", "E":
				ts = append(ts, f.p[0])
			}
		}
	}
	good = true
	tryit := func(f func(s *State) bool) {
		if !good {
			return
		}
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(undecided); !ok {
					panic(x)
				}
				good = false
			}
		}()
		for _, x := range h.e.fork(st, func(s *State) Value {
			if !good {
				panic(infeasible{})
			}
			h.parents(s, fs)
			if !f(s) {
				good = false
			}
			return nil
		}) {
			if x.pan != nil {
				good = false
			}
		}
	}
	rd := func(s *State, i Lin) Lin {
		l, ok := valLin(s.read(r, i))
		if !ok {
			giveUp("no number")
		}
		return h.same(s, l)
	}
	n := ropeLen(r)
	switch kind {
	case "G0", "GB", "GS", "GP":
		q := p
		var hole Lin
		if kind != "G0" {
			hole, q = p[0], p[1:]
		}
		lo, W := q[0], q[1]
		for side := int64(1); side <= 2; side++ {
			tryit(func(s *State) bool {
				t := h.skolem("p", s)
				s.assume(t)
				i := t.Scale(2).AddK(side)
				s.assume(W.Sub(i).AddK(-1))
				s.assume(i.Sub(lo).AddK(-1))
				if kind == "GB" || kind == "GS" {
					s.assumeNe(i.Sub(hole))
				}
				if kind == "GB" || kind == "GP" {
					s.assumeNe(t.Sub(hole))
				}
				if !s.c.entails(n.Sub(i).AddK(-1)) {
					return false
				}
				x, y := rd(s, i), rd(s, t)
				ok := h.under(s, x, y, func() { h.use(s, fs, append([]Lin{t}, ts...), []Lin{t}) })
				if !ok && h.e.debug && os.Getenv("GXH") == kind {
					fmt.Fprintf(os.Stderr, "UNPROVED %s %v: t=%s i=%s x=%s y=%s\n  r=%s\n  fs=%v\n  %s\n", kind, p, s.c.norm(t), s.c.norm(i), s.c.norm(x), s.c.norm(y), r, fs, s.c)
				}
				return ok
			})
		}
	case "C", "D":
		hole := p[0]
		lo := p[1]
		if kind == "D" {
			lo = p[2]
		}
		for side := int64(1); side <= 2; side++ {
			if kind == "D" && side == 2 {
				break
			}
			tryit(func(s *State) bool {
				s.assume(hole.AddK(-1))
				s.assume(hole.Sub(lo).AddK(-1))
				if !s.c.entails(n.Sub(hole).AddK(-1)) {
					return false
				}
				u, _ := h.parent(s, hole, ts, true)
				y := rd(s, u)
				x := p[1]
				if kind == "C" {
					i := hole.Scale(2).AddK(side)
					s.assume(p[2].Sub(i).AddK(-1))
					if !s.c.entails(n.Sub(i).AddK(-1)) {
						return false
					}
					x = rd(s, i)
				}
				return h.under(s, x, y, func() { h.use(s, fs, append([]Lin{hole, u}, ts...), []Lin{u, hole}) })
			})
		}
	case "E":
		hole, v, W := p[0], p[1], p[2]
		for side := int64(1); side <= 2; side++ {
			tryit(func(s *State) bool {
				i := hole.Scale(2).AddK(side)
				s.assume(W.Sub(i).AddK(-1))
				if !s.c.entails(hole) || !s.c.entails(n.Sub(i).AddK(-1)) {
					return false
				}
				x := rd(s, i)
				return h.under(s, x, v, func() { h.use(s, fs, append([]Lin{hole}, ts...), []Lin{hole}) })
			})
		}
	case "S":
		tryit(func(s *State) bool {
			j := h.skolem("p", s)
			s.assume(j)
			s.assume(j.Sub(p[0]))
			s.assume(p[1].Sub(j).AddK(-2))
			if !s.c.entails(n.Sub(j).AddK(-2)) {
				return false
			}
			x, y := rd(s, j), rd(s, j.AddK(1))
			return h.under(s, x, y, func() { h.useSorted(s, fs, []Lin{x, y}) })
		})
	case "U":
		tryit(func(s *State) bool {
			i := h.skolem("p", s)
			s.assume(i)
			s.assume(p[1].Sub(p[0]).AddK(-1))
			s.assume(p[0].Sub(i).AddK(-1))
			if !s.c.entails(n.Sub(p[0]).AddK(-1)) {
				return false
			}
			x, y := rd(s, i), rd(s, p[0])
			return h.under(s, x, y, func() { h.useSorted(s, fs, []Lin{x, y}) })
		})
	case "A":
		tryit(func(s *State) bool {
			s.assume(p[2].Sub(p[1]).AddK(-1))
			if !s.c.entails(p[1]) || !s.c.entails(n.Sub(p[1]).AddK(-1)) {
				return false
			}
			x, y := p[0], rd(s, p[1])
			return h.under(s, x, y, func() { h.useSorted(s, fs, []Lin{x, y}) })
		})
	case "N":
		tryit(func(s *State) bool {
			if !s.c.entails(p[0].AddK(-1)) || !s.c.entails(n.Sub(p[0]).AddK(-1)) {
				return false
			}
			u, _ := h.parent(s, p[0], ts, true)
			x, y := rd(s, p[0]), rd(s, u)
			goal := h.ord(x, y).Neg().AddK(-1)
			if s.c.entails(goal) {
				return true
			}
			h.use(s, fs, []Lin{u}, nil)
			h.merge(s, x, y)
			return s.c.entails(goal)
		})
	case "P":
		tryit(func(s *State) bool {
			s.assume(p[0].AddK(-1))
			d := p[0].Sub(p[1].Scale(2))
			return s.c.entails(d.AddK(-1)) && s.c.entails(K(2).Sub(d))
		})
	case "V":
		tryit(func(s *State) bool {
			if !s.c.entails(p[0]) || !s.c.entails(n.Sub(p[0]).AddK(-1)) {
				return false
			}
			x := rd(s, p[0])
			if s.c.entailsEq(x.Sub(p[1])) {
				return true
			}
			h.use(s, fs, nil, nil)
			h.merge(s, x, p[1])
			return s.c.entailsEq(x.Sub(p[1]))
		})
	}
	return good
}

// ---- sums of weights ----

func (h *heapWorld) weight(s *State, v Lin) Lin { return symLin(s.appSym(h.w, v)) }

// totals lists the known expressions for the sum of weights of a rope.
func (h *heapWorld) totals(s *State, r Rope) (out []Lin) {
	r = s.normRope(r)
	fs := h.facts(s)
	for _, f := range fs {
		if f.kind == "V" && usesSeq(r, f.q) {
			s.assumeEq(h.at(s, f.q, f.p[0]).Sub(f.p[1]))
		}
	}
	done := map[*Seq]bool{}
	for _, b := range r {
		if b.kind != pSeq || done[b.seq] {
			continue
		}
		done[b.seq] = true
		q := b.seq
		// the sum over the first n elements of q
		type base struct{ s, n Lin }
		var bases []base
		if b, ok := h.sums[q]; ok {
			bases = append(bases, base{b.s, b.n})
		}
		for _, f := range fs {
			if f.q != q {
				continue
			}
			switch f.kind {
			case "B0":
				bases = append(bases, base{f.p[0], f.p[1]})
			case "B":
				bases = append(bases, base{f.p[2].Add(h.weight(s, h.at(s, q, f.p[0]))).Sub(h.weight(s, f.p[1])), f.p[3]})
			}
		}
		for _, hs := range bases {
			sum, pos := hs.s, K(0)
			ok := true
			for _, p := range r {
				if p.kind == pSeq && p.seq == q && p.dir == 1 && s.c.entailsEq(p.start.Sub(pos)) && s.c.entails(hs.n.Sub(pos).Sub(p.n)) {
					pos = pos.Add(p.n)
					continue
				}
				if p.kind == pSeq && p.seq == q && p.dir == -1 && s.c.entailsEq(p.start.AddK(1).Sub(p.n).Sub(pos)) && s.c.entails(hs.n.Sub(pos).Sub(p.n)) {
					// the same elements, turned around
					pos = pos.Add(p.n)
					continue
				}
				n := s.c.norm(p.n)
				if !n.isK() || !n.c.isInt64() || n.c.int64() > 4 {
					ok = false
					break
				}
				for i := int64(0); i < n.c.int64(); i++ {
					l, isN := valLin(s.elemAt(p, K(i)))
					if !isN {
						ok = false
						break
					}
					sum = sum.Add(h.weight(s, l))
					if s.cond(hs.n.Sub(pos).AddK(-1)) {
						sum = sum.Sub(h.weight(s, h.at(s, q, pos)))
					}
					pos = pos.AddK(1)
				}
			}
			if !ok {
				continue
			}
			// what is left of q
			rest := s.c.norm(hs.n.Sub(pos))
			if !rest.isK() {
				for k := int64(0); k <= 1; k++ {
					if s.c.entailsEq(rest.AddK(-k)) {
						rest = K(k)
					}
				}
			}
			if s.c.entails(rest.Neg()) {
				rest = K(0)
			}
			if !rest.isK() || !rest.c.isInt64() || rest.c.int64() > 2 {
				continue
			}
			for i := int64(0); i < rest.c.int64(); i++ {
				sum = sum.Sub(h.weight(s, h.at(s, q, pos.AddK(i))))
			}
			out = append(out, sum)
		}
	}
	// written out element by element
	sum, all := K(0), true
	for _, p := range r {
		n := s.c.norm(p.n)
		if !n.isK() || !n.c.isInt64() || n.c.int64() > 4 {
			all = false
			break
		}
		for i := int64(0); i < n.c.int64(); i++ {
			l, ok := valLin(s.elemAt(p, K(i)))
			if !ok {
				all = false
				break
			}
			sum = sum.Add(h.weight(s, l))
		}
	}
	if all {
		out = append(out, sum)
	}
	return
}

// sameSum: equal by arithmetic and by equal weights of equal values.
func (h *heapWorld) sameSum(s *State, a, b Lin) bool {
	d := s.c.norm(a.Sub(b))
	for changed := true; changed; {
		changed = false
		if d.isK() && d.c.sign() == 0 || s.c.entailsEq(d) {
			return true
		}
	pairs:
		for i, x := range d.t {
			for _, y := range d.t[i+1:] {
				dx, dy := symDefOf(x.s), symDefOf(y.s)
				if x.k*y.k < 0 && dx != nil && dy != nil && dx.op == "app" && dy.op == "app" && dx.seq == h.w && dy.seq == h.w && s.provesEq(dx.args[0], dy.args[0]) {
					d = d.Sub(symLin(y.s).Scale(y.k)).Add(symLin(x.s).Scale(y.k))
					changed = true
					break pairs
				}
			}
		}
	}
	return false
}

// rigid: made of symbols that mean the same throughout the call.
func (h *heapWorld) rigid(l Lin) bool {
	for _, t := range l.t {
		if t.s <= h.e.pinSym {
			continue
		}
		d := symDefOf(t.s)
		if d == nil || d.op != "app" || d.seq != h.w && d.seq.id > h.e.pinSeq || !h.rigid(d.args[0]) {
			return false
		}
	}
	return true
}

// ---- loop heads ----

// slices lists every slice in the state.
func (h *heapWorld) slices(s *State) (out []VSlice) {
	var walk func(v Value)
	walk = func(v Value) {
		switch x := v.(type) {
		case VSlice:
			if x.Arr != 0 && len(x.Path) == 0 {
				out = append(out, x)
			}
		case VStruct:
			for _, f := range x.F {
				walk(f)
			}
		case VTuple:
			for _, f := range x {
				walk(f)
			}
		}
	}
	h.eachReg(s, func(_ string, v Value) { walk(v) })
	var ids []ObjID
	for id, o := range s.heap {
		if !o.glob {
			ids = append(ids, id)
		}
	}
	sortIDs(ids)
	for _, id := range ids {
		walk(s.heap[id].v)
	}
	return
}

func (h *heapWorld) eachReg(s *State, f func(name string, v Value)) {
	for fi := len(s.frames) - 1; fi >= 0; fi-- {
		fr := s.frames[fi]
		inf := h.e.fnInfoOf(fr.fn)
		var regs []ssa.Value
		for v := range fr.env {
			regs = append(regs, v)
		}
		sort.Slice(regs, func(i, j int) bool { return inf.num[regs[i]] < inf.num[regs[j]] })
		for _, r := range regs {
			f(fmt.Sprintf("f%d.%d", fi, inf.num[r]), fr.env[r])
		}
	}
}

func (h *heapWorld) onLoop(s *State, hdr *ssa.BasicBlock) {
	// the arrays in play
	lens := map[ObjID][]hterm{}
	var arrs []ObjID
	skip := map[ObjID]bool{}
	for _, sl := range h.slices(s) {
		o := s.heap[sl.Arr]
		at, ok := o.typ.Underlying().(*types.Array)
		if !ok || basicOf(at.Elem()) == nil {
			continue
		}
		if _, ok := o.v.(VArray); !ok || !s.c.entailsEq(sl.Off) {
			skip[sl.Arr] = true
			continue
		}
		if lens[sl.Arr] == nil {
			arrs = append(arrs, sl.Arr)
		}
		lens[sl.Arr] = append(lens[sl.Arr], hterm{fmt.Sprintf("len%d", len(lens[sl.Arr])), sl.Len})
	}
	var ints []hterm
	seen := map[string]bool{}
	h.eachReg(s, func(name string, v Value) {
		if x, ok := v.(VInt); ok {
			fr, _, _ := strings.Cut(name, ".")
			if k := fr + s.c.norm(x.L).key(); !seen[k] {
				seen[k] = true
				ints = append(ints, hterm{name, x.L})
			}
		}
	})
	old := map[string]bool{}
	for k := range s.ghost {
		if strings.HasPrefix(k, "hf:") {
			old[k] = true
		}
	}
	add := map[string]Value{}
	for ai, id := range arrs {
		if skip[id] {
			continue
		}
		L := lens[id][0].l
		for _, x := range lens[id] {
			if s.c.entails(x.l.Sub(L)) {
				L = x.l
			}
		}
		top := true
		for _, x := range lens[id] {
			top = top && s.c.entails(L.Sub(x.l))
		}
		if !top {
			continue
		}
		o := s.heap[id]
		var r, rest Rope
		rs := h.e.fork(s, func(s *State) Value { r, rest = s.split(o.v.(VArray).R, L); return nil })
		if len(rs) != 1 {
			giveUp("the array is cut at an unclear place")
		}
		fs := h.learn(s, r, L, lens[id], ints)
		var q *Seq
		if len(r) == 1 && r[0].kind == pSeq && r[0].seq.id <= h.e.pinSeq && r[0].dir == 1 && s.c.entailsEq(r[0].start) {
			q = r[0].seq
		} else {
			q = newSeq("heap", types.Typ[types.Int])
			q.general, q.plain = true, true
			n := *o
			n.v = VArray{append(seqRope(q, K(0), L), rest...)}
			s.heap[id] = &n
		}
		for _, f := range fs {
			f.f.q = q
			add[fmt.Sprintf("hf:%d:%s", ai, f.name)] = f.f
		}
	}
	if h.e.debug {
		fmt.Fprintf(os.Stderr, "HEAD %s t=%v proofs=%d\n", h.e.posBlock(hdr), time.Since(started), heapProofs)
		for _, k := range sortedKeys(add) {
			fmt.Fprintf(os.Stderr, "   %s = %s\n", k, vstr(add[k]))
		}
	}
	for k := range old {
		delete(s.ghost, k)
	}
	for k, v := range add {
		s.ghost[k] = v
	}
}

var heapProofs int
var heapStat = map[string]struct {
	n int
	t time.Duration
}{}

func sortedKeys(m map[string]Value) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

type namedFact struct {
	name string
	f    VFact
}

// learn finds the statements that hold for the array content r.
func (h *heapWorld) learn(s *State, r Rope, L Lin, lens, ints []hterm) (out []namedFact) {
	zero := hterm{"0", K(0)}
	// index-like and value-like numbers
	var idx, vals []hterm
	for _, x := range ints {
		switch {
		case s.c.entails(x.l.AddK(1)):
			if s.c.entails(L.Sub(x.l)) {
				idx = append(idx, x)
			}
		case !s.c.norm(x.l).isK():
			vals = append(vals, x)
		}
	}
	// a child of another number says nothing new
	var keep []hterm
	for i, x := range idx {
		derived := false
		for j, y := range idx {
			d := x.l.Sub(y.l.Scale(2))
			fx, _, _ := strings.Cut(x.name, ".")
			fy, _, _ := strings.Cut(y.name, ".")
			derived = derived || i != j && fx == fy && !y.l.isK() && (s.c.entailsEq(d.AddK(-1)) || s.c.entailsEq(d.AddK(-2)))
		}
		if !derived {
			keep = append(keep, x)
		}
	}
	idx = keep
	put := func(kind string, ps ...hterm) bool {
		f := VFact{kind: kind}
		name := kind
		for _, p := range ps {
			f.p = append(f.p, p.l)
			name += "," + p.name
		}
		// implied by what is known already
		for _, g := range out {
			if h.implies(s, g.f, f) {
				return true
			}
		}
		if !h.proves(s, r, kind, f.p) {
			return false
		}
		out = append(out, namedFact{name, f})
		return true
	}
	// under its own name, even when implied: the name may outlast the others
	alias := func(kind string, ps ...hterm) {
		f := VFact{kind: kind}
		name := kind
		for _, p := range ps {
			f.p = append(f.p, p.l)
			name += "," + p.name
		}
		for _, g := range out {
			if g.name == name {
				return
			}
		}
		for _, g := range out {
			if h.implies(s, g.f, f) {
				out = append(out, namedFact{name, f})
				return
			}
		}
	}
	var Ws []hterm
	seen := map[string]bool{}
	addW := func(x hterm) {
		if k := s.c.norm(x.l).key(); !seen[k] && s.c.entails(L.Sub(x.l)) {
			seen[k] = true
			Ws = append(Ws, x)
		}
	}
	addW(hterm{"L", L})
	for _, x := range lens {
		addW(x)
	}
	nlen := len(Ws)
	// a loop that only reads may go through the edges in any order
	clean := len(r) == 1 && r[0].kind == pSeq && r[0].seq.id <= h.e.pinSeq
	for _, x := range idx {
		if !clean {
			break
		}
		addW(x)
		addW(hterm{x.name + "+1", x.l.AddK(1)})
		addW(hterm{"2" + x.name + "+1", x.l.Scale(2).AddK(1)})
	}
	los := []hterm{zero}
	seenW := seen
	seen = map[string]bool{s.c.norm(K(0)).key(): true}
	addLo := func(x hterm) {
		if k := s.c.norm(x.l).key(); !seen[k] && s.c.entails(x.l) {
			seen[k] = true
			los = append(los, x)
		}
	}
	for _, x := range idx {
		if !s.c.entails(L.Sub(x.l).AddK(-1)) {
			continue
		}
		addLo(hterm{"2" + x.name, x.l.Scale(2)})
		addLo(hterm{"2" + x.name + "+2", x.l.Scale(2).AddK(2)})
		if clean {
			addLo(x)
		}
	}
	for _, x := range idx {
		for _, y := range idx {
			if x.name != y.name && s.c.entails(x.l) && s.c.entails(x.l.Sub(y.l)) && !x.l.isK() {
				put("P", x, y)
			}
		}
	}
	for _, x := range idx {
		if clean {
			put("N", x)
			put("N", hterm{x.name + "-1", x.l.AddK(-1)})
		}
	}
	some := false
	for i, W := range Ws {
		for _, lo := range los {
			if i >= nlen && lo.name != "0" {
				break
			}
			if put("G0", lo, W) {
				some = true
			}
		}
	}
	var holes []hterm
	frame := fmt.Sprintf("f%d.", len(s.frames)-1)
	for _, x := range idx {
		if strings.HasPrefix(x.name, frame) && s.c.entails(x.l) && s.c.entails(L.Sub(x.l).AddK(-1)) {
			holes = append(holes, x)
		}
	}
	around := func(Ws []hterm) {
		for _, x := range holes {
			los := []hterm{zero}
			for _, y := range idx {
				if y.name != x.name && s.c.entails(y.l) && s.c.entails(x.l.Sub(y.l)) {
					los = append(los, hterm{"2" + y.name, y.l.Scale(2)})
				}
			}
			for _, W := range Ws {
				for _, lo := range los {
					for _, kind := range []string{"GS", "GP", "GB"} {
						if put(kind, x, lo, W) {
							some = true
						}
					}
					put("C", x, lo, W)
				}
				for _, v := range vals {
					put("E", x, v, W)
				}
			}
			for _, v := range vals {
				for _, lo := range los {
					put("D", x, v, lo)
				}
			}
		}
	}
	around(Ws[:nlen])
	if !some && !clean {
		// perhaps only a first part is in order
		n := len(Ws)
		seen = seenW
		for _, x := range idx {
			addW(x)
			addW(hterm{x.name + "+1", x.l.AddK(1)})
		}
		for _, W := range Ws[n:] {
			put("G0", zero, W)
		}
		around(Ws[n:])
	}
	if h.sort {
		cuts := append([]hterm{}, lens...)
		for _, x := range idx {
			if s.c.entails(x.l.AddK(1)) {
				cuts = append(cuts, hterm{x.name + "+1", x.l.AddK(1)})
				if s.c.entails(x.l) {
					cuts = append(cuts, x)
				}
			}
		}
		end := hterm{"L", L}
		for _, k := range cuts {
			if !s.c.entails(k.l) || !s.c.entails(L.Sub(k.l)) || !put("S", k, end) {
				continue
			}
			put("U", k, end)
			for _, v := range vals {
				put("A", v, k, end)
			}
		}
		for _, x := range idx {
			if !strings.HasPrefix(x.name, frame) {
				continue
			}
			for _, k := range []hterm{x, {x.name + "+1", x.l.AddK(1)}} {
				if s.c.entails(k.l) && s.c.entails(L.Sub(k.l)) {
					put("G0", zero, k)
					alias("G0", zero, k)
					alias("S", k, end)
					alias("U", k, end)
				}
			}
		}
	}
	var ms []hterm
	seen = map[string]bool{}
	addM := func(x hterm) {
		if k := s.c.norm(x.l).key(); !seen[k] {
			seen[k] = true
			ms = append(ms, x)
		}
	}
	for _, x := range lens {
		addM(x)
		addM(hterm{x.name + "-1", x.l.AddK(-1)})
	}
	for _, x := range holes {
		addM(x)
	}
	for _, m := range ms {
		if !s.c.entails(m.l) || !s.c.entails(L.Sub(m.l).AddK(-1)) {
			continue
		}
		for _, v := range vals {
			put("V", m, v)
		}
	}
	// sums
	bag := func(x, v *hterm) {
		var T Lin
		found, bad := false, false
		n := 0
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(undecided); !ok {
						panic(x)
					}
					n = 99
				}
			}()
			for range h.e.fork(s, func(s *State) Value {
				n++
				for _, t := range h.totals(s, r) {
					if x != nil {
						l, ok := valLin(s.read(r, x.l))
						if !ok {
							continue
						}
						t = t.Sub(h.weight(s, l)).Add(h.weight(s, v.l))
					}
					t = h.simplify(s, t)
					if h.rigid(t) {
						if !found {
							T, found = t, true
						} else if !s.provesEq(T, t) {
							bad = true
						}
						return nil
					}
				}
				bad = true
				return nil
			}) {
			}
		}()
		if n > 6 || bad || !found {
			return
		}
		if x == nil {
			out = append(out, namedFact{"B0", VFact{kind: "B0", p: []Lin{T, L}}})
		} else {
			out = append(out, namedFact{"B," + x.name + "," + v.name, VFact{kind: "B", p: []Lin{x.l, v.l, T, L}}})
		}
	}
	bag(nil, nil)
	for i := range holes {
		for j := range vals {
			bag(&holes[i], &vals[j])
		}
	}
	return
}

// simplify cancels weights of equal values and prefers fixed names.
func (h *heapWorld) simplify(s *State, l Lin) Lin {
	l = s.c.norm(l)
again:
	for i, x := range l.t {
		dx := symDefOf(x.s)
		if dx == nil || dx.op != "app" || dx.seq != h.w {
			continue
		}
		for j, y := range l.t {
			dy := symDefOf(y.s)
			if i == j || x.k*y.k >= 0 || dy == nil || dy.op != "app" || dy.seq != h.w || !s.provesEq(dx.args[0], dy.args[0]) {
				continue
			}
			l = l.Sub(symLin(y.s).Scale(y.k)).Add(symLin(x.s).Scale(y.k))
			goto again
		}
	}
	return l
}

// implies: fact g makes f superfluous.
func (h *heapWorld) implies(s *State, g, f VFact) bool {
	le := func(a, b Lin) bool { return s.c.entails(b.Sub(a)) }
	eq := func(a, b Lin) bool { return s.c.entailsEq(a.Sub(b)) }
	if strings.HasPrefix(g.kind, "G") && strings.HasPrefix(f.kind, "G") {
		gp, fp := g.p, f.p
		if g.kind != "G0" {
			if f.kind == "G0" || !eq(gp[0], fp[0]) || g.kind != f.kind && f.kind != "GB" {
				return false
			}
			gp = gp[1:]
		}
		if f.kind != "G0" {
			fp = fp[1:]
		}
		return le(gp[0], fp[0]) && le(fp[1], gp[1])
	}
	if g.kind != f.kind {
		return false
	}
	switch f.kind {
	case "C":
		return eq(g.p[0], f.p[0]) && le(g.p[1], f.p[1]) && le(f.p[2], g.p[2])
	case "D":
		return eq(g.p[0], f.p[0]) && eq(g.p[1], f.p[1]) && le(g.p[2], f.p[2])
	case "E":
		return eq(g.p[0], f.p[0]) && eq(g.p[1], f.p[1]) && le(f.p[2], g.p[2])
	}
	return false
}

// ---- obligations ----

type heapCase struct {
	h    *heapWorld
	e    *Engine
	st   *State
	obj  ObjID
	buf  int // field with the buffer
	b    VSlice
	q    *Seq
	n    Lin
	sum  Lin
	lim  Lin
	cons *Lin
}

// heapObj makes an object as the constructor leaves it, with any buffer.
func heapObj(c *Ctx, sp *ssa.Package, e *Engine, max, isHeap bool) *heapCase {
	x := &heapCase{e: e}
	st := e.newState()
	lim := st.fresh(types.Typ[types.Int], "limit")
	x.lim = lim.(VInt).L
	e.pinObj, e.pinSeq, e.pinSym = e.objCount, seqCount, Sym(len(symTab)-1)
	outs := e.Call(st, c.fn(sp, "NewIntHeap"), []Value{VInt{K(0)}, lim, VBool(max)}, nil, nil)
	if len(outs) != 1 || outs[0].pan != nil {
		giveUp("NewIntHeap does not end in one way")
	}
	st = outs[0].st
	p, ok := outs[0].ret[0].(VPtr)
	if !ok || p.Obj == 0 || len(p.Path) > 0 {
		giveUp("NewIntHeap returns %s", vstr(outs[0].ret[0]))
	}
	x.st, x.obj = st, p.Obj
	o := *st.heap[p.Obj]
	f := append([]Value{}, o.v.(VStruct).F...)
	ss := o.typ.Underlying().(*types.Struct)
	x.buf = -1
	for i := range f {
		if sl, ok := ss.Field(i).Type().Underlying().(*types.Slice); ok && basicOf(sl.Elem()) != nil {
			if x.buf >= 0 {
				giveUp("IntHeap has two buffers")
			}
			x.buf = i
		}
	}
	if x.buf < 0 {
		giveUp("IntHeap has no buffer")
	}
	x.b = st.fresh(types.NewSlice(types.Typ[types.Int]), "b").(VSlice)
	f[x.buf] = x.b
	o.v = VStruct{f}
	st.heap[p.Obj] = &o
	x.finish(max, isHeap)
	return x
}

// finish sets the world up around the buffer.
func (x *heapCase) finish(max, isHeap bool) {
	st := x.st
	x.q = st.arr(x.b)[0].seq
	x.q.plain = true
	x.n = x.b.Len
	h := &heapWorld{e: x.e, sign: 1, sums: map[*Seq]heapSum{}}
	if !max {
		h.sign = -1
	}
	h.w = newSeq("weight", nil)
	h.w.plain = true
	x.sum = symLin(newSym("sum(b)"))
	h.sums[x.q] = heapSum{x.sum, x.n}
	if isHeap {
		st.ghost["hp:0"] = VFact{kind: "G0", q: x.q, p: []Lin{K(0), x.n}}
	}
	x.h = h
	x.e.onLoop = h.onLoop
	x.e.maxPeel, x.e.perShape, x.e.shrDiv = 0, 1, true
}

// small: the sum over a buffer of known small length is that of its elements.
func (x *heapCase) sumNow(s *State) Lin {
	if n := s.c.norm(x.n); n.isK() && n.c.isInt64() && n.c.int64() <= 2 {
		t := K(0)
		for i := int64(0); i < n.c.int64(); i++ {
			t = t.Add(x.h.weight(s, x.h.at(s, x.q, K(i))))
		}
		return t
	}
	return x.sum
}

// wantBag: the slice holds exactly elements of total weight want.
func (x *heapCase) wantBag(s *State, b VSlice, want Lin, what string) string {
	r := s.content(b)
	now := x.sumNow(s)
	small := func(l Lin) Lin {
		return l.subst(func(y Sym) (Lin, bool) {
			if symLin(y).eq(x.sum) {
				return now, true
			}
			return Lin{}, false
		})
	}
	for _, t := range x.h.totals(s, r) {
		if x.h.sameSum(s, small(t), small(want)) {
			return ""
		}
	}
	return fmt.Sprintf("%s: the elements are not shown to be those expected: %s, sums %v, expected %s", what, r, x.h.totals(s, r), want)
}

func (x *heapCase) wantHeap(s *State, b VSlice, what string) string {
	if !x.h.proves(s, s.content(b), "G0", []Lin{K(0), b.Len}) {
		return what + ": an element may be better than its parent"
	}
	return ""
}

func (x *heapCase) slice(s *State) VSlice {
	return s.heap[x.obj].v.(VStruct).F[x.buf].(VSlice)
}

func checkHeapProp(c *Ctx) {
	sp := c.pkg("stl")
	for _, max := range []bool{true, false} {
		name := map[bool]string{true: "max heap", false: "min heap"}[max]
		obl := func(what string, isHeap bool, f func(x *heapCase)) {
			c.oblige(name+": "+what, func() {
				e := c.engine(sp)
				f(heapObj(c, sp, e, max, isHeap))
			})
		}
		this := func(x *heapCase) Value { return VPtr{Obj: x.obj} }
		ofn := func(m string) *ssa.Function { return c.fn(sp, "IntHeap."+m) }
		// functions on a given slice
		obl("PushHeap adds the value and keeps the heap", true, func(x *heapCase) {
			v := x.st.fresh(types.Typ[types.Int], "v")
			c.run(x.e, x.st, ofn("PushHeap"), []Value{this(x), x.b, v}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				r, ok := ret[0].(VSlice)
				if !ok || !s.c.entailsEq(r.Len.Sub(x.n).AddK(-1)) {
					return "the result is not one element longer"
				}
				return and(x.wantHeap(s, r, "PushHeap"), x.wantBag(s, r, x.sum.Add(x.h.weight(s, v.(VInt).L)), "PushHeap"))
			})
		})
		obl("PopHeap takes the root and keeps the heap", true, func(x *heapCase) {
			c.run(x.e, x.st, ofn("PopHeap"), []Value{this(x), x.b}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				r, ok := ret[0].(VSlice)
				if !ok {
					return "no slice"
				}
				return x.popped(s, r, ret[1:], "PopHeap")
			})
		})
		obl("MakeHeap orders any slice", false, func(x *heapCase) {
			c.run(x.e, x.st, ofn("MakeHeap"), []Value{this(x), x.b}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				return and(x.wantHeap(s, x.b, "MakeHeap"), x.wantBag(s, x.b, x.sum, "MakeHeap"))
			})
		})
		obl("CheckHeap accepts every heap", true, func(x *heapCase) {
			c.run(x.e, x.st, ofn("CheckHeap"), []Value{this(x), x.b}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if r, ok := ret[0].(VBool); ok && !bool(r) {
					x.h.contradict(s, x.q)
					return "CheckHeap may reject a heap"
				}
				return and(wantBool(s, ret[0], true, "CheckHeap"), x.wantSameBuf(s, x.b, "CheckHeap"))
			})
		})
		obl("CheckHeap accepts nothing else", false, func(x *heapCase) {
			c.run(x.e, x.st, ofn("CheckHeap"), []Value{this(x), x.b}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				r, ok := ret[0].(VBool)
				if !ok {
					return "no answer"
				}
				if bool(r) {
					return and(x.wantHeap(s, x.b, "CheckHeap is true"), x.wantSameBuf(s, x.b, "CheckHeap"))
				}
				return x.wantSameBuf(s, x.b, "CheckHeap")
			})
		})
		obl("Reverse reverses", false, func(x *heapCase) {
			x.e.onLoop, x.e.maxPeel, x.e.perShape = nil, 64, 6
			x.q.plain = false
			c.run(x.e, x.st, ofn("Reverse"), []Value{this(x), x.b}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				want := Rope{{n: x.n, kind: pSeq, seq: x.q, start: x.n.AddK(-1), dir: -1}}
				if r := s.content(x.b); !s.ropeEq(r, want) {
					return fmt.Sprintf("the slice is %s, expected %s", s.normRope(r), want)
				}
				return ""
			})
		})
		// the object
		method := func(m, what string, pre func(x *heapCase), args func(x *heapCase) []Value, post func(x *heapCase, s *State, a, ret []Value) string) {
			obl(m+" "+what, true, func(x *heapCase) {
				if pre != nil {
					pre(x)
				}
				var a []Value
				if args != nil {
					a = args(x)
				}
				before := x.st.heap[x.obj].v.(VStruct)
				c.run(x.e, x.st, ofn(m), append([]Value{this(x)}, a...), func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					for i, v := range s.heap[x.obj].v.(VStruct).F {
						if i != x.buf && !s.sameVal(v, before.F[i]) {
							return "a field other than the buffer changes"
						}
					}
					return post(x, s, a, ret)
				})
			})
		}
		value := func(x *heapCase) []Value { return []Value{x.st.fresh(types.Typ[types.Int], "v")} }
		adds := func(x *heapCase, s *State, a, ret []Value) string {
			b := x.slice(s)
			if !s.c.entailsEq(b.Len.Sub(x.n).AddK(-1)) {
				return fmt.Sprintf("the heap has %s elements after the push, expected %s", b.Len, x.n.AddK(1))
			}
			return and(x.wantHeap(s, b, "Push"), x.wantBag(s, b, x.sum.Add(x.h.weight(s, a[0].(VInt).L)), "Push"))
		}
		method("Push", "adds the value if there is no limit", func(x *heapCase) { x.st.assume(x.lim.Scale(-1)) }, value, adds)
		method("Push", "adds the value below the limit", func(x *heapCase) { x.st.assume(x.lim.Sub(x.n).AddK(-1)) }, value, adds)
		method("Push", "replaces the top of a full heap unless the value ranks above it", func(x *heapCase) {
			x.st.assumeEq(x.lim.Sub(x.n))
			x.st.assume(x.n.AddK(-1))
		}, value, func(x *heapCase, s *State, a, ret []Value) string {
			b := x.slice(s)
			v := a[0].(VInt).L
			top := x.h.at(s, x.q, K(0))
			if !s.c.entailsEq(b.Len.Sub(x.n)) {
				return fmt.Sprintf("a full heap has %s elements after the push, expected %s", b.Len, x.n)
			}
			if s.cond(x.h.ord(v, top)) {
				return and(x.wantHeap(s, b, "Push"), x.wantBag(s, b, x.sum.Add(x.h.weight(s, v)).Sub(x.h.weight(s, top)), "Push on a full heap"))
			}
			return and(x.wantHeap(s, b, "Push"), x.wantBag(s, b, x.sum, "rejected Push"))
		})
		method("Pop", "takes the root", nil, nil, func(x *heapCase, s *State, a, ret []Value) string {
			return x.popped(s, x.slice(s), ret, "Pop")
		})
		method("Top", "shows the root", nil, nil, func(x *heapCase, s *State, a, ret []Value) string {
			if s.condEq(x.n, K(0)) {
				return and(wantBool(s, ret[1], false, "ok on an empty heap"), wantInt(s, ret[0], K(0), "top of an empty heap"))
			}
			s.assume(x.n.AddK(-1))
			return and(wantBool(s, ret[1], true, "ok"), wantInt(s, ret[0], x.h.at(s, x.q, K(0)), "Top"), x.wantSameBuf(s, x.slice(s), "Top"))
		})
		method("Size", "counts", nil, nil, func(x *heapCase, s *State, a, ret []Value) string {
			return and(wantInt(s, ret[0], x.n, "Size"), x.wantSameBuf(s, x.slice(s), "Size"))
		})
		method("Empty", "tells", nil, nil, func(x *heapCase, s *State, a, ret []Value) string {
			return and(wantBool(s, ret[0], s.condEq(x.n, K(0)), "Empty"), x.wantSameBuf(s, x.slice(s), "Empty"))
		})
		method("Buffer", "shows the contents", nil, nil, func(x *heapCase, s *State, a, ret []Value) string {
			b, ok := ret[0].(VSlice)
			if !ok {
				return "no slice"
			}
			return and(x.wantSameBuf(s, b, "Buffer"), x.wantSameBuf(s, x.slice(s), "Buffer"))
		})
		for _, max2 := range []bool{true, false} {
			obl(fmt.Sprintf("Init makes it an empty heap (max: %v)", max2), true, func(x *heapCase) {
				lim := x.st.fresh(types.Typ[types.Int], "limit2")
				cp := x.st.fresh(types.Typ[types.Int], "capacity")
				x.st.assume(K(1 << maxLenBits).Sub(cp.(VInt).L))
				// what the constructor makes
				outs := x.e.Call(x.st, c.fn(sp, "NewIntHeap"), []Value{cp, lim, VBool(max2)}, nil, nil)
				for _, o := range outs {
					p, ok := Value(nil), false
					if o.pan == nil {
						p = o.ret[0]
						_, ok = p.(VPtr)
					}
					if !ok || p.(VPtr).Obj == 0 {
						c.fail("NewIntHeap panics or yields nothing")
						continue
					}
					made := o.st.heap[p.(VPtr).Obj].v.(VStruct)
					if b, ok := made.F[x.buf].(VSlice); !ok || !o.st.c.entailsEq(b.Len) {
						c.fail("NewIntHeap: a new heap is not empty")
					}
					x.e.pinObj = x.e.objCount
					c.run(x.e, o.st, ofn("Init"), []Value{this(x), cp, lim, VBool(max2)}, func(s *State, ret []Value, pan *progPanic) string {
						if pan != nil {
							return panMsg(pan)
						}
						for i, v := range s.heap[x.obj].v.(VStruct).F {
							if i == x.buf {
								if b, ok := v.(VSlice); !ok || !s.c.entailsEq(b.Len) {
									return "the heap is not empty after Init"
								}
							} else if !s.sameVal(v, made.F[i]) {
								return "Init and the constructor differ"
							}
						}
						return ""
					})
				}
			})
		}
	}
}

// wantSameBuf: the slice shows the contents before.
func (x *heapCase) wantSameBuf(s *State, b VSlice, what string) string {
	if !s.ropeEq(s.content(b), seqRope(x.q, K(0), x.n)) {
		return what + ": the contents change"
	}
	return ""
}

// contradict uses the order of the heap at every pair of a child and a parent that
// the path has looked at; the path is impossible if that is against what it saw.
func (h *heapWorld) contradict(s *State, q *Seq) {
	var at []Lin
	seen := map[Sym]bool{}
	add := func(l Lin) {
		for _, t := range l.t {
			if d := symDefOf(t.s); !seen[t.s] && d != nil && d.op == "app" && d.seq == q {
				seen[t.s] = true
				at = append(at, d.args[0])
			}
		}
	}
	for _, l := range s.c.ineq {
		add(l)
	}
	for y, l := range s.c.sub {
		add(symLin(y))
		add(l)
	}
	sortLins(at)
	var ts []Lin
	for _, t := range at {
		for _, i := range at {
			d := i.Sub(t.Scale(2))
			if s.c.entails(d.AddK(-1)) && s.c.entails(K(2).Sub(d)) {
				ts = append(ts, t)
				s.condEq(d, K(1))
			}
		}
	}
	for _, f := range h.facts(s) {
		if f.kind == "N" {
			if u, ok := h.parent(s, f.p[0], ts, true); ok {
				ts = append(ts, u)
				s.condEq(f.p[0].Sub(u.Scale(2)), K(1))
			}
		}
	}
	h.use(s, h.facts(s), ts, nil)
	h.merge(s)
	if s.c.entails(K(-1)) {
		panic(infeasible{})
	}
}

// popped judges the results (top, ok) and the remaining slice of a pop.
func (x *heapCase) popped(s *State, r VSlice, ret []Value, what string) string {
	if s.condEq(x.n, K(0)) {
		if !s.c.entailsEq(r.Len) {
			return what + ": an empty heap grows"
		}
		return and(wantBool(s, ret[1], false, "ok on an empty heap"), wantInt(s, ret[0], K(0), "top of an empty heap"))
	}
	s.assume(x.n.AddK(-1))
	top := x.h.at(s, x.q, K(0))
	if !s.c.entailsEq(r.Len.Sub(x.n).AddK(1)) {
		return what + ": the heap does not lose one element"
	}
	return and(wantBool(s, ret[1], true, "ok"), wantInt(s, ret[0], top, "the popped value"), x.wantHeap(s, r, what), x.wantBag(s, r, x.sum.Sub(x.h.weight(s, top)), what))
}
