package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// disjunct is the invariant of one shape at a loop head: slots x_j, affine
// equalities, inequalities and the facts about the fixed symbols around the loop.
type disjunct struct {
	limits []Lin // constants the body compares with
	key    string
	base   *State // a state with this shape; its objects give the invariant its names
	x      []Sym
	eqs    []Lin // over x and rigid symbols
	ges    []Lin
	rigG   []Lin
	rigN   []Lin
	seqs   []*Seq
	cur    *State // current invariant
	dirty  bool
	runs   int
	widens int
	back   []*State
	exits  []edgeState
	outs   []Outcome
}

func (r *runner) prune(st *State, hdr *ssa.BasicBlock) {
	live := r.inf.liveIn[hdr]
	env := st.top().env
	for v := range env {
		if !live[v] {
			delete(env, v)
		}
	}
}

// loop computes the effect of a natural loop on the incoming states.
func (r *runner) loop(hdr *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, sts []*State) []edgeState {
	e := r.e
	e.stLoops++
	var done []edgeState
	// peel iterations whose continuation is forced
	var start []*State
	extra := e.unroll
	peel := e.maxPeel
	splits, ndone := 2, 0
	for _, s := range sts {
		s.trace = ""
	}
	// facts about fixed symbols on entry, before peeling rewrites them
	var entry []Lin
	seenE := map[string]bool{}
	for _, s := range sts {
		for _, l := range s.c.ineq {
			if k := l.key(); !seenE[k] {
				seenE[k] = true
				entry = append(entry, l)
			}
		}
	}
	work := sts
	for len(work) > 0 {
		var next []*State
		for _, s := range work {
			r.prune(s, hdr)
			save := r.out
			r.out = nil
			probe := s.clone()
			probe.trace = ""
			back, exits := r.region(hdr, body, []*State{probe}, true)
			outs := r.out
			r.out = save
			forced := len(back) == 0 || len(exits) == 0 && len(outs) == 0
			if !forced && extra <= 0 || peel <= 0 && len(back) > 0 {
				start = append(start, s)
				continue
			}
			done = append(done, exits...)
			r.out = append(r.out, outs...)
			next = append(next, back...)
		}
		if len(start) > 0 {
			start = append(start, next...)
			break
		}
		// only a single line of states is worth peeling
		if len(next)+len(done) > len(work)+ndone && extra <= 0 {
			splits--
		}
		ndone = len(done)
		for _, s := range next {
			s.foldLists()
		}
		if splits < 0 {
			start = append(start, next...)
			break
		}
		extra--
		peel--
		if len(next) > e.maxPeelStates {
			start = append(start, next...)
			break
		}
		work = next
	}
	if len(start) == 0 {
		return done
	}
	ds := map[string]*disjunct{}
	perShape := map[string]int{}
	var order []*disjunct
	live := r.inf.liveIn[hdr]
	limits := loopLimits(body)
	join := func(s *State) {
		r.prune(s, hdr)
		s.foldLists()
		if e.onLoop != nil {
			e.onLoop(s, hdr)
		}
		w, key := e.canonKey(s, live)
		// states of one shape that came through different branches of the body keep
		// separate invariants, up to a small number
		shape := key
		key += "|" + s.trace
		s.trace = ""
		d := ds[key]
		if d == nil && perShape[shape] >= e.perShape {
			key = shape + "|*"
			d = ds[key]
		}
		if d == nil {
			perShape[shape]++
			d = e.newDisjunct(s, w, key, entry)
			d.limits = limits
			ds[key] = d
			order = append(order, d)
			if len(order) > e.maxDisj {
				giveUp("%s: loop needs more than %d shapes", e.p.pos(hdr.Instrs[0]), e.maxDisj)
			}
			return
		}
		if d.join(e, s, w, live) {
			d.dirty = true
		}
	}
	for _, s := range start {
		join(s)
	}
	for n := 0; ; n++ {
		var d *disjunct
		for _, x := range order {
			if x.dirty {
				d = x
				break
			}
		}
		if d == nil {
			break
		}
		if n > e.maxLoopRuns {
			giveUp("%s: no loop invariant found in %d rounds", e.posBlock(hdr), e.maxLoopRuns)
		}
		d.dirty = false
		d.runs++
		save := r.out
		r.out = nil
		s := d.instance(e, live)
		if e.debug {
			fmt.Fprintf(os.Stderr, "-- loop %s disjunct %p run %d\n%s", e.posBlock(hdr), d, d.runs, s.dump())
		}
		back, exits := r.region(hdr, body, []*State{s}, true)
		d.exits, d.outs = exits, r.out
		d.back = nil
		r.out = save
		for _, b := range back {
			if e.checkTerm {
				d.back = append(d.back, b.clone())
			}
			join(b)
		}
	}
	for _, d := range order {
		if e.checkTerm && len(d.back) > 0 {
			e.termCheck(r, hdr, d)
		}
		done = append(done, d.exits...)
		r.out = append(r.out, d.outs...)
	}
	return done
}

func (e *Engine) posBlock(b *ssa.BasicBlock) string {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return e.p.pos(in)
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return e.p.pos(in)
			}
		}
	}
	return b.Parent().String()
}

func (e *Engine) newDisjunct(s *State, w *walker, key string, entry []Lin) *disjunct {
	d := &disjunct{key: key, base: s, dirty: true}
	for i, l := range w.slots {
		x := newSym(fmt.Sprintf("x%d", i))
		d.x = append(d.x, x)
		d.eqs = append(d.eqs, symLin(x).Sub(l))
	}
	d.seqs = append(d.seqs, w.seqO...)
	var rig []Lin
	for y, l := range s.c.sub {
		if y > e.pinSym && symDefOf(y) == nil && !w.refs[y] {
			continue // eliminated everywhere and unknown to the checks
		}
		rig = append(rig, symLin(y).Sub(l))
	}
	sortLins(rig)
	d.eqs = append(rig, d.eqs...)
	d.rigG = append(d.rigG, s.c.ineq...)
	own := map[string]bool{}
	for _, l := range s.c.ineq {
		own[l.key()] = true
	}
	for _, l := range entry {
		if !own[l.key()] && s.c.entails(l) {
			d.rigG = append(d.rigG, l)
		}
	}
	d.rigN = append(d.rigN, s.c.neq...)
	d.cur = s
	return d
}

func sortLins(ls []Lin) {
	// deterministic order (map iteration above)
	for i := 1; i < len(ls); i++ {
		for j := i; j > 0 && ls[j].key() < ls[j-1].key(); j-- {
			ls[j], ls[j-1] = ls[j-1], ls[j]
		}
	}
}

// cons builds the constraint store of the invariant.
func (d *disjunct) cons() *Cons {
	c := emptyCons
	for _, l := range d.eqs {
		c = c.eq(l)
	}
	for _, l := range d.rigG {
		c = c.ge(l)
	}
	for _, l := range d.ges {
		c = c.ge(l)
	}
	for _, l := range d.rigN {
		c = c.ne(l)
	}
	if c == nil {
		giveUp("inconsistent loop invariant")
	}
	return c
}

// instance rebuilds a state from the invariant.
func (d *disjunct) instance(e *Engine, live map[ssa.Value]bool) *State {
	out := &State{heap: map[ObjID]*Obj{}, ghost: map[string]Value{}, eng: e}
	out.c = d.cons()
	if len(d.base.facts) > 0 {
		out.facts = map[string]bool{}
		for k, v := range d.base.facts {
			out.facts[k] = v
		}
	}
	if len(d.base.strK) > 0 {
		out.strK = map[string]string{}
		for k, v := range d.base.strK {
			out.strK[k] = v
		}
	}
	out.path = append(out.path, d.base.path...)
	w := newWalker(d.base, e.pinObj, e.pinSeq)
	w.out = out
	w.slot = func(i int, l Lin) Lin { return out.c.norm(symLin(d.x[i])) }
	w.seqf = func(i int, s *Seq) *Seq { return d.seqs[i] }
	// values may need the store while they are rebuilt; frames are filled by run
	w.run(live)
	d.cur = out
	return out
}

// join folds state s (same shape) into the invariant; reports whether it grew.
func (d *disjunct) join(e *Engine, s *State, w *walker, live map[ssa.Value]bool) bool {
	grew := false
	pos := map[Sym]int{}
	for i, x := range d.x {
		pos[x] = i
	}
	bind := func(l Lin) Lin {
		return l.subst(func(y Sym) (Lin, bool) {
			if i, ok := pos[y]; ok {
				return w.slots[i], true
			}
			return Lin{}, false
		})
	}
	old := d.cons()
	// facts
	for k, v := range d.base.facts {
		if x, ok := s.facts[k]; !ok || x != v {
			if !grew {
				d.base = d.base.clone()
			}
			delete(d.base.facts, k)
			grew = true
		}
	}
	cloned := grew
	for k, v := range d.base.strK {
		if x, ok := s.strK[k]; !ok || x != v {
			if !cloned {
				d.base = d.base.clone()
				cloned = true
			}
			delete(d.base.strK, k)
			grew = true
		}
	}
	// unknown sequences
	for i, q := range w.seqO {
		if d.seqs[i] != q && !d.seqs[i].general {
			n := newSeq(d.seqs[i].name, d.seqs[i].elem)
			n.lo, n.hi, n.plain = d.seqs[i].lo, d.seqs[i].hi, d.seqs[i].plain
			n.general = true
			d.seqs[i] = n
			grew = true
		}
	}
	filter := func(ls []Lin, ok func(Lin) bool) []Lin {
		var out []Lin
		for _, l := range ls {
			if ok(l) {
				out = append(out, l)
			} else {
				grew = true
			}
		}
		return out
	}
	d.rigG = filter(d.rigG, s.c.entails)
	d.rigN = filter(d.rigN, s.c.entailsNeq)
	d.ges = filter(d.ges, func(l Lin) bool { return s.c.entails(bind(l)) })
	// equalities: keep those that hold, combine the others pairwise by residual
	var keep []Lin
	type dropped struct {
		e, rho Lin
	}
	var reps []dropped
	for _, q := range d.eqs {
		b := bind(q)
		rho := s.c.norm(b)
		if s.c.entailsEq(rho) {
			keep = append(keep, q)
			continue
		}
		grew = true
		done := false
		for _, r := range reps {
			if a, b, ok := proportional(rho, r.rho); ok {
				c1, ok1 := Lin{}.add2(q, b)
				if !ok1 {
					continue
				}
				c2, ok2 := c1.add2(r.e, -a)
				if !ok2 {
					continue
				}
				keep = append(keep, c2)
				done = true
				break
			}
		}
		if !done {
			reps = append(reps, dropped{q, rho})
		}
	}
	d.eqs = keep
	if !grew {
		return false
	}
	d.widens++
	if d.widens > e.maxWiden {
		giveUp("loop invariant does not stabilise")
	}
	// new candidate inequalities
	var cand []Lin
	for _, r := range reps {
		cand = append(cand, r.e, r.e.Neg())
	}
	if d.widens <= 4 || len(reps) > 0 {
		ec := emptyCons
		for _, l := range d.eqs {
			ec = ec.eq(l)
		}
		isX := func(l Lin) bool {
			for _, t := range l.t {
				if _, ok := pos[t.s]; ok {
					return true
				}
			}
			return false
		}
		var moving, fixed, consts []Lin
		seen := map[string]bool{}
		for _, x := range d.x {
			n := ec.norm(symLin(x))
			k := n.key()
			if seen[k] {
				continue
			}
			seen[k] = true
			if isX(n) {
				moving = append(moving, n)
			} else if !n.isK() {
				fixed = append(fixed, n)
			} else {
				consts = append(consts, n)
			}
		}
		for _, f := range fixed {
			cand = append(cand, f, f.AddK(-1))
			for _, g := range e.focus {
				cand = append(cand, f.Sub(g), g.Sub(f), f.Sub(g).AddK(-1), g.Sub(f).AddK(-1), f.Sub(g).AddK(1), g.Sub(f).AddK(1))
			}
		}
		for _, g := range e.focus {
			if n := ec.norm(g); !seen[n.key()] {
				fixed = append(fixed, n)
			}
		}
		consts = append(consts, d.limits...)
		if len(consts) > 12 {
			consts = consts[:12]
		}
		for _, k := range consts {
			if k.c.sign() != 0 {
				fixed = append(fixed, k)
			}
		}
		fixed = append(fixed, K(0))
		if len(moving) > 24 {
			moving = moving[:24]
		}
		for i, m := range moving {
			for _, f := range fixed {
				cand = append(cand, m.Sub(f), f.Sub(m), m.Sub(f).AddK(-1), f.Sub(m).AddK(-1), m.Sub(f).AddK(1), f.Sub(m).AddK(1))
			}
			for j, o := range moving {
				if i != j {
					cand = append(cand, m.Sub(o), m.Sub(o).AddK(-1))
				}
			}
		}
		// constant bounds of the joining state
		for i, x := range d.x {
			v := s.c.norm(w.slots[i])
			if len(v.t) == 0 {
				continue
			}
			for _, q := range s.c.ineq {
				if len(q.t) != len(v.t) {
					continue
				}
				if k, ok := q.add2(v, 1); ok && k.isK() {
					cand = append(cand, k.Sub(symLin(x)))
				} else if k, ok := q.add2(v, -1); ok && k.isK() {
					cand = append(cand, symLin(x).Add(k))
				}
			}
		}
		// bounds of the joining state against fixed terms: what a branch of the body
		// established about a value that is now in a slot
		nb := 0
		known := map[string]bool{}
		for _, g := range d.rigG {
			known[g.key()] = true
		}
		for i, x := range d.x {
			v := s.c.norm(w.slots[i])
			if n := ec.norm(symLin(x)); v.isK() && !n.isK() {
				// the value is still a number: read it as the bound's constant
				if _, ok := n.onlySym(); !ok {
					continue
				}
				for _, q := range s.c.ineq {
					if len(q.t) < 2 || len(q.t) > 4 || isX(q) || nb > 128 || known[q.key()] {
						continue
					}
					nb++
					cand = append(cand, q.Add(v).Sub(symLin(x)), q.Sub(v).Add(symLin(x)))
				}
				continue
			}
			for _, t := range v.t {
				if t.k != 1 && t.k != -1 {
					continue
				}
				// t.s = t.k * (x - rest)
				rest := v.Sub(symLin(t.s).Scale(t.k))
				if isX(rest) {
					continue
				}
				val := symLin(x).Sub(rest).Scale(t.k)
				for _, q := range s.c.ineq {
					has, ok := false, len(q.t) <= 4
					for _, u := range q.t {
						if u.s == t.s {
							has = true
						} else if _, isx := pos[u.s]; isx {
							ok = false
						}
					}
					if !has || !ok || nb > 128 {
						continue
					}
					g := q.subst(func(y Sym) (Lin, bool) {
						if y == t.s {
							return val, true
						}
						return Lin{}, false
					})
					nb++
					cand = append(cand, g)
				}
			}
		}
		for _, tm := range e.templates {
			for _, m := range moving {
				cand = append(cand, tm(m)...)
			}
		}
	}
	have := map[string]bool{}
	for _, g := range d.ges {
		have[g.key()] = true
	}
	for _, g := range cand {
		g = tighten(g)
		k := g.key()
		if have[k] || len(g.t) == 0 {
			continue
		}
		have[k] = true
		if old.entails(g) && s.c.entails(bind(g)) {
			d.ges = append(d.ges, g)
		}
	}
	return true
}

// proportional: b·p == a·q for small integers a, b (b > 0).
func proportional(p, q Lin) (a, b int64, ok bool) {
	var pk, qk int64
	if len(p.t) > 0 && len(q.t) > 0 {
		if len(p.t) != len(q.t) || p.t[0].s != q.t[0].s {
			return
		}
		pk, qk = p.t[0].k, q.t[0].k
	} else if len(p.t) == 0 && len(q.t) == 0 {
		if !p.c.isInt64() || !q.c.isInt64() {
			return
		}
		pk, qk = p.c.int64(), q.c.int64()
	} else {
		return
	}
	if qk == 0 || pk == 0 {
		return
	}
	g := gcd64(pk, qk)
	a, b = pk/g, qk/g
	if b < 0 {
		a, b = -a, -b
	}
	if a > 1<<20 || a < -1<<20 || b > 1<<20 {
		return 0, 0, false
	}
	l, ok1 := Lin{}.add2(p, b)
	if !ok1 {
		return 0, 0, false
	}
	l, ok1 = l.add2(q, -a)
	if !ok1 || len(l.t) != 0 || l.c.sign() != 0 {
		return 0, 0, false
	}
	return a, b, true
}

func (e *Engine) termCheck(r *runner, hdr *ssa.BasicBlock, d *disjunct) {}

// loopLimits lists the integer constants that the body compares something with.
func loopLimits(body map[*ssa.BasicBlock]bool) (out []Lin) {
	seen := map[int64]bool{0: true}
	var ks []int64
	for b := range body {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch x.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			for _, o := range []ssa.Value{x.X, x.Y} {
				k, ok := o.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
					continue
				}
				if n, ok := constant.Int64Val(k.Value); ok && !seen[n] {
					seen[n] = true
					ks = append(ks, n)
				}
			}
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		out = append(out, K(k))
	}
	return
}
