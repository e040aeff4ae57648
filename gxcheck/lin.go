package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sym is a rigid integer symbol: an unknown but fixed integer.
type Sym int32

type term struct {
	s Sym
	k int64
}

// Lin is an immutable linear expression c + Σ k·s, terms sorted by symbol.
type Lin struct {
	t []term
	c i128
}

// undecided aborts the analysis of one obligation; the driver reports it as a failure.
type undecided struct{ msg string }

func giveUp(f string, a ...any) { panic(undecided{fmt.Sprintf(f, a...)}) }

func K(x int64) Lin     { return Lin{c: n64(x)} }
func KU(x uint64) Lin   { return Lin{c: nu64(x)} }
func kn(x i128) Lin     { return Lin{c: x} }
func symLin(s Sym) Lin  { return Lin{t: []term{{s, 1}}} }
func (a Lin) isK() bool { return len(a.t) == 0 }

func (a Lin) add2(b Lin, k int64) (Lin, bool) {
	if k == 0 {
		return a, true
	}
	r := Lin{t: make([]term, 0, len(a.t)+len(b.t))}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || i < len(a.t) && a.t[i].s < b.t[j].s:
			r.t = append(r.t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].s < a.t[i].s:
			m, ok := mulOK(b.t[j].k, k)
			if !ok {
				return r, false
			}
			r.t = append(r.t, term{b.t[j].s, m})
			j++
		default:
			m, ok := mulOK(b.t[j].k, k)
			if !ok {
				return r, false
			}
			m, ok = addOK(a.t[i].k, m)
			if !ok {
				return r, false
			}
			if m != 0 {
				r.t = append(r.t, term{a.t[i].s, m})
			}
			i++
			j++
		}
	}
	bc, ok := b.c.mul(k)
	if !ok {
		return r, false
	}
	r.c, ok = a.c.add(bc)
	return r, ok
}

func must(l Lin, ok bool) Lin {
	if !ok {
		giveUp("integer overflow in a linear expression")
	}
	return l
}

func (a Lin) Add(b Lin) Lin     { return must(a.add2(b, 1)) }
func (a Lin) Sub(b Lin) Lin     { return must(a.add2(b, -1)) }
func (a Lin) Scale(k int64) Lin { return must(Lin{}.add2(a, k)) }
func (a Lin) Neg() Lin          { return a.Scale(-1) }
func (a Lin) AddK(k int64) Lin  { return a.Add(K(k)) }
func (a Lin) coef(s Sym) int64 {
	for _, t := range a.t {
		if t.s == s {
			return t.k
		}
	}
	return 0
}
func (a Lin) eq(b Lin) bool {
	if a.c != b.c || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

// onlySym returns the symbol if the expression is exactly one symbol.
func (a Lin) onlySym() (Sym, bool) {
	if len(a.t) == 1 && a.t[0].k == 1 && a.c.sign() == 0 {
		return a.t[0].s, true
	}
	return 0, false
}

func (a Lin) key() string {
	b := make([]byte, 0, 12*len(a.t)+8)
	for _, t := range a.t {
		b = strconv.AppendInt(b, t.k, 10)
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(t.s), 10)
		b = append(b, '+')
	}
	b = append(b, a.c.String()...)
	return string(b)
}

func (a Lin) String() string {
	if len(a.t) == 0 {
		return a.c.String()
	}
	var b strings.Builder
	for i, t := range a.t {
		n := symName(t.s)
		switch {
		case t.k == 1 && i == 0:
			b.WriteString(n)
		case t.k == 1:
			b.WriteString("+" + n)
		case t.k == -1:
			b.WriteString("-" + n)
		case t.k > 0 && i > 0:
			fmt.Fprintf(&b, "+%d*%s", t.k, n)
		default:
			fmt.Fprintf(&b, "%d*%s", t.k, n)
		}
	}
	if a.c.sign() > 0 {
		b.WriteString("+" + a.c.String())
	} else if a.c.sign() < 0 {
		b.WriteString(a.c.String())
	}
	return b.String()
}

func (a Lin) subst(m func(Sym) (Lin, bool)) Lin {
	hit := false
	for _, t := range a.t {
		if _, ok := m(t.s); ok {
			hit = true
			break
		}
	}
	if !hit {
		return a
	}
	r := Lin{c: a.c}
	for _, t := range a.t {
		if l, ok := m(t.s); ok {
			r = must(r.add2(l, t.k))
		} else {
			r = must(r.add2(symLin(t.s), t.k))
		}
	}
	return r
}

// ---- symbols (global, rigid) ----

type symInfo struct {
	name string
	def  *symDef
}

// symDef gives a symbol a functional meaning (uninterpreted function of its arguments).
type symDef struct {
	op   string // "div","mod","mul","app","bits","fn"
	args []Lin
	seq  *Seq  // for app
	bits []bit // for bits
	tag  string
}

var symTab []symInfo
var symMemo map[string]Sym

func resetSyms() {
	symTab = []symInfo{{name: "_"}}
	symMemo = map[string]Sym{}
}

func newSym(name string) Sym {
	s := Sym(len(symTab))
	symTab = append(symTab, symInfo{name: fmt.Sprintf("%s#%d", name, s)})
	return s
}

func defSym(key, name string, d *symDef) (Sym, bool) {
	if s, ok := symMemo[key]; ok {
		return s, false
	}
	s := newSym(name)
	symTab[s].def = d
	symMemo[key] = s
	return s, true
}

func symName(s Sym) string { return symTab[s].name }
func symDefOf(s Sym) *symDef {
	return symTab[s].def
}

// ---- constraint store ----

// Cons is an immutable conjunction of linear facts over rigid symbols.
type Cons struct {
	sub   map[Sym]Lin // solved equalities, fully reduced
	ineq  []Lin       // each >= 0, reduced by sub
	neq   []Lin       // each != 0, reduced by sub
	cache map[string]bool
	bot   bool
	// integer solutions of parts of ineq (each closed under sharing symbols): they
	// refute most of what does not follow without an elimination
	models []model
}

type model map[Sym]i128

// value evaluates l; all tells whether the model has every symbol of it, any whether it has one.
func (m model) value(l Lin) (v i128, all, any bool) {
	v, all = l.c, true
	for _, t := range l.t {
		x, ok := m[t.s]
		if !ok {
			all = false
			continue
		}
		any = true
		x, ok = x.mul(t.k)
		if ok {
			v, ok = v.add(x)
		}
		if !ok {
			return v, false, true
		}
	}
	return
}

// keep hands on the models that are consistent with one more statement.
func (c *Cons) keep(from *Cons, ok func(m model) bool) {
	for _, m := range from.models {
		if ok(m) {
			c.models = append(c.models, m)
		}
	}
}
func keepGe(l Lin) func(m model) bool {
	return func(m model) bool {
		v, all, any := m.value(l)
		return !any || all && v.sign() >= 0
	}
}
func keepEq(l Lin) func(m model) bool {
	return func(m model) bool {
		v, all, any := m.value(l)
		return !any || all && v.sign() == 0
	}
}

const maxModels = 12

func (c *Cons) addModel(m model) {
	if m == nil {
		return
	}
	ms := append(make([]model, 0, maxModels), m)
	for _, x := range c.models {
		if len(ms) < maxModels {
			ms = append(ms, x)
		}
	}
	c.models = ms
}

// refuted: a known solution makes l negative.
func (c *Cons) refuted(l Lin) bool {
	for _, m := range c.models {
		if v, all, _ := m.value(l); all && v.sign() < 0 {
			return true
		}
	}
	return false
}

var emptyCons = &Cons{sub: map[Sym]Lin{}, cache: map[string]bool{}}

func (c *Cons) norm(l Lin) Lin {
	if len(c.sub) == 0 {
		return l
	}
	return l.subst(func(s Sym) (Lin, bool) { r, ok := c.sub[s]; return r, ok })
}

// tighten divides by the gcd of the coefficients (rounding the constant down).
func tighten(l Lin) Lin {
	if len(l.t) == 0 {
		return l
	}
	g := int64(0)
	for _, t := range l.t {
		g = gcd64(g, t.k)
	}
	if g > 1 {
		r := Lin{t: make([]term, len(l.t)), c: l.c.floorDiv(g)}
		for i, t := range l.t {
			r.t[i] = term{t.s, t.k / g}
		}
		return r
	}
	return l
}

func coefKey(l Lin) string {
	b := make([]byte, 0, len(l.t)*8)
	for _, t := range l.t {
		b = append(b, byte(t.s), byte(t.s>>8), byte(t.s>>16))
		k := t.k
		for i := 0; i < 8; i++ {
			b = append(b, byte(k))
			k >>= 8
		}
	}
	return string(b)
}

func coefHash(l Lin) uint64 {
	h := uint64(14695981039346656037)
	for _, t := range l.t {
		h = (h ^ uint64(t.s)) * 1099511628211
		h = (h ^ uint64(t.k)) * 1099511628211
	}
	return h
}
func sameCoef(a, b Lin) bool {
	if len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

const fmLimit = 600

var fmCalls int

// unsat reports whether the conjunction of ls (each >= 0) has no integer solution,
// as far as Fourier–Motzkin with integer tightening can tell.
func unsat(ls []Lin) bool { r, _ := solve(ls); return r }

type elim struct {
	s      Sym
	ps, ns []Lin
}

// solve decides by elimination whether ls has no solution; if it finds none of the
// contradictions it may give an integer solution.
func solve(ls []Lin) (no bool, sol model) {
	fmCalls++
	var steps []elim
	all := ls
	// each symbol gets a small number
	num := map[Sym]int{}
	var syms []Sym
	for _, l := range ls {
		for _, t := range l.t {
			if _, ok := num[t.s]; !ok {
				num[t.s] = 0
				syms = append(syms, t.s)
			}
		}
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i] < syms[j] })
	for i, s := range syms {
		num[s] = i
	}
	type count struct {
		pos, neg   int
		bigP, bigN bool
	}
	cnt := make([]count, len(syms))
	var cur []Lin
	at := map[uint64]int{}
	place := func(l Lin) {
		h := coefHash(l)
		if i, ok := at[h]; ok {
			if o := cur[i]; sameCoef(o, l) {
				if l.c.cmp(o.c) < 0 {
					cur[i] = l
				}
				return
			}
		}
		at[h] = len(cur)
		cur = append(cur, l)
	}
	add := func(l Lin) bool { // returns true when contradictory
		l = tighten(l)
		if len(l.t) == 0 {
			return l.c.sign() < 0
		}
		place(l)
		return false
	}
	for _, l := range ls {
		if add(l) {
			return true, nil
		}
	}
	for len(cur) > 0 {
		for i := range cnt {
			cnt[i] = count{}
		}
		for _, l := range cur {
			for _, t := range l.t {
				c := &cnt[num[t.s]]
				if t.k > 0 {
					c.pos++
					c.bigP = c.bigP || t.k > 1
				} else {
					c.neg++
					c.bigN = c.bigN || t.k < -1
				}
			}
		}
		best, bc := -1, 0
		for i, c := range cnt {
			if c.pos+c.neg == 0 {
				continue
			}
			k := c.pos*c.neg - c.pos - c.neg
			if c.bigP && c.bigN {
				k += 8 // not exact for integers
			}
			if best < 0 || k < bc {
				best, bc = i, k
			}
		}
		bs := syms[best]
		var ps, ns, rest []Lin
		for _, l := range cur {
			switch k := l.coef(bs); {
			case k > 0:
				ps = append(ps, l)
			case k < 0:
				ns = append(ns, l)
			default:
				rest = append(rest, l)
			}
		}
		if len(rest)+len(ps)*len(ns) > fmLimit {
			return false, nil
		}
		cur = make([]Lin, 0, len(rest)+len(ps)*len(ns))
		clear(at)
		for _, l := range rest {
			place(l)
		}
		steps = append(steps, elim{bs, ps, ns})
		for _, p := range ps {
			for _, n := range ns {
				kp, kn := p.coef(bs), -n.coef(bs)
				g := gcd64(kp, kn)
				a := p
				var ok bool
				if kn/g != 1 {
					if a, ok = (Lin{}).add2(p, kn/g); !ok {
						continue
					}
				}
				if a, ok = a.add2(n, kp/g); !ok {
					continue
				}
				if add(a) {
					return true, nil
				}
			}
		}
	}
	sol = model{}
	for i := len(steps) - 1; i >= 0; i-- {
		e := steps[i]
		var lo, hi i128
		var hasLo, hasHi bool
		for _, l := range append(append([]Lin{}, e.ps...), e.ns...) {
			v, k := l.c, int64(0)
			for _, t := range l.t {
				if t.s == e.s {
					k = t.k
					continue
				}
				x, ok := sol[t.s].mul(t.k) // a symbol without bounds of its own is 0
				if ok {
					v, ok = v.add(x)
				}
				if !ok {
					return false, nil
				}
				if _, ok := sol[t.s]; !ok {
					sol[t.s] = i128{}
				}
			}
			if k > 0 { // s >= -v/k, rounded up
				if x := v.floorDiv(k).neg(); !hasLo || x.cmp(lo) > 0 {
					lo, hasLo = x, true
				}
			} else if x := v.floorDiv(-k); !hasHi || x.cmp(hi) < 0 {
				hi, hasHi = x, true
			}
		}
		switch {
		case hasLo && hasHi && lo.cmp(hi) > 0:
			return false, nil
		case hasLo:
			sol[e.s] = lo
		default:
			sol[e.s] = hi
		}
	}
	for _, l := range all {
		for _, t := range l.t {
			if _, ok := sol[t.s]; !ok {
				sol[t.s] = i128{}
			}
		}
		if v, ok, _ := sol.value(l); !ok || v.sign() < 0 {
			return false, nil
		}
	}
	return false, sol
}

// relevant selects the inequalities connected to the symbols of l.
func (c *Cons) relevant(l Lin) []Lin {
	in := map[Sym]bool{}
	for _, t := range l.t {
		in[t.s] = true
	}
	used := make([]bool, len(c.ineq))
	var out []Lin
	for ch := true; ch; {
		ch = false
		for i, q := range c.ineq {
			if used[i] {
				continue
			}
			for _, t := range q.t {
				if in[t.s] {
					used[i] = true
					break
				}
			}
			if used[i] {
				out = append(out, q)
				for _, t := range q.t {
					in[t.s] = true
				}
				ch = true
			}
		}
	}
	return out
}

// entails reports c ⊨ l >= 0.
func (c *Cons) entails(l Lin) bool {
	if c.bot {
		return true
	}
	l = tighten(c.norm(l))
	if len(l.t) == 0 {
		return l.c.sign() >= 0
	}
	k := l.key()
	if r, ok := c.cache[k]; ok {
		return r
	}
	r := false
	for _, q := range c.ineq {
		if len(q.t) == len(l.t) && q.c.cmp(l.c) <= 0 {
			same := true
			for i := range q.t {
				if q.t[i] != l.t[i] {
					same = false
					break
				}
			}
			if same {
				r = true
				break
			}
		}
	}
	// a symbol that nothing bounds on the side that matters can take any value there
	for _, t := range l.t {
		if r {
			break
		}
		bounded := false
		for _, q := range c.ineq {
			if k := q.coef(t.s); k > 0 && t.k > 0 || k < 0 && t.k < 0 {
				bounded = true
				break
			}
		}
		if !bounded {
			c.cache[k] = false
			return false
		}
	}
	if !r && !c.refuted(l) {
		n := must(Lin{c: n64(-1)}.add2(l, -1))
		var m model
		r, m = solve(append(c.relevant(l), n))
		c.addModel(m)
	}
	c.cache[k] = r
	return r
}

func (c *Cons) entailsEq(l Lin) bool {
	l = c.norm(l)
	if len(l.t) == 0 {
		return c.bot || l.c.sign() == 0
	}
	return c.entails(l) && c.entails(l.Neg())
}

func (c *Cons) entailsNeq(l Lin) bool {
	l = c.norm(l)
	if len(l.t) == 0 {
		return c.bot || l.c.sign() != 0
	}
	n := l.Neg()
	for _, q := range c.neq {
		if q.eq(l) || q.eq(n) {
			return true
		}
	}
	// gcd argument: Σk·s + c with g ∤ c can never be zero
	g := int64(0)
	for _, t := range l.t {
		g = gcd64(g, t.k)
	}
	if g > 1 {
		q := l.c.floorDiv(g)
		if b, ok := q.mul(g); ok && b != l.c {
			return true
		}
	}
	return c.entails(l.AddK(-1)) || c.entails(n.AddK(-1))
}

func (c *Cons) clone() *Cons {
	r := &Cons{sub: make(map[Sym]Lin, len(c.sub)+1), cache: map[string]bool{}, bot: c.bot}
	for k, v := range c.sub {
		r.sub[k] = v
	}
	r.ineq = append(r.ineq, c.ineq...)
	r.neq = append(r.neq, c.neq...)
	r.models = c.models
	return r
}

// ge adds l >= 0; returns nil when that makes the store infeasible.
func (c *Cons) ge(l Lin) *Cons {
	if c == nil {
		return nil
	}
	if c.bot || c.entails(l) {
		return c
	}
	l = tighten(c.norm(l))
	if c.entails(l.Neg().AddK(-1)) {
		return nil
	}
	// l >= 0 and l <= 0 known: an equality
	if c.entails(l.Neg()) {
		return c.eq(l)
	}
	r := c.clone()
	// drop weaker copies of the same constraint
	k := coefKey(l)
	out := r.ineq[:0:0]
	for _, q := range r.ineq {
		if coefKey(q) == k && q.c.cmp(l.c) >= 0 {
			continue
		}
		out = append(out, q)
	}
	r.ineq = append(out, l)
	r.models = nil
	r.keep(c, keepGe(l))
	return r.fixNeq()
}

// fixNeq strengthens disequalities that touch a boundary.
func (c *Cons) fixNeq() *Cons {
	for i, q := range c.neq {
		if len(q.t) == 0 {
			if q.c.sign() == 0 {
				return nil
			}
			r := c.clone()
			r.neq = append(r.neq[:i:i], r.neq[i+1:]...)
			return r.fixNeq()
		}
		var s Lin
		switch {
		case c.entails(q.AddK(-1)) || c.entails(q.Neg().AddK(-1)):
			r := c.clone()
			r.neq = append(r.neq[:i:i], r.neq[i+1:]...)
			return r.fixNeq()
		case c.entails(q):
			s = q.AddK(-1)
		case c.entails(q.Neg()):
			s = q.Neg().AddK(-1)
		default:
			continue
		}
		r := c.clone()
		r.neq = append(r.neq[:i:i], r.neq[i+1:]...)
		return r.ge(s)
	}
	return c
}

// eq adds l == 0.
func (c *Cons) eq(l Lin) *Cons {
	if c == nil {
		return nil
	}
	if c.bot {
		return c
	}
	l = c.norm(l)
	if len(l.t) == 0 {
		if l.c.sign() == 0 {
			return c
		}
		return nil
	}
	if c.entailsNeq(l) {
		return nil
	}
	g := int64(0)
	for _, t := range l.t {
		g = gcd64(g, t.k)
	}
	if g > 1 {
		r := Lin{c: l.c.floorDiv(g)}
		for _, t := range l.t {
			r.t = append(r.t, term{t.s, t.k / g})
		}
		l = r
	}
	pick := -1
	for i, t := range l.t {
		if t.k == 1 || t.k == -1 {
			// prefer the newest symbol without a definition
			if pick < 0 {
				pick = i
				continue
			}
			pd, td := symDefOf(l.t[pick].s) != nil, symDefOf(t.s) != nil
			if pd && !td || pd == td && t.s > l.t[pick].s {
				pick = i
			}
		}
	}
	if pick < 0 {
		r := c.clone()
		r.ineq = append(r.ineq, l, l.Neg())
		r.models = nil
		r.keep(c, keepEq(l))
		if unsat(r.relevant(l)) {
			return nil
		}
		return r.fixNeq()
	}
	s := l.t[pick].s
	val := Lin{c: l.c}
	for i, t := range l.t {
		if i != pick {
			val.t = append(val.t, t)
		}
	}
	if l.t[pick].k == 1 {
		val = val.Neg()
	}
	m := func(x Sym) (Lin, bool) {
		if x == s {
			return val, true
		}
		return Lin{}, false
	}
	r := &Cons{sub: make(map[Sym]Lin, len(c.sub)+1), cache: map[string]bool{}}
	for k, v := range c.sub {
		r.sub[k] = v.subst(m)
	}
	r.sub[s] = val
	r.keep(c, keepEq(l))
	seen := map[string]int{}
	for _, q := range c.ineq {
		q = tighten(q.subst(m))
		if len(q.t) == 0 {
			if q.c.sign() < 0 {
				return nil
			}
			continue
		}
		k := coefKey(q)
		if i, ok := seen[k]; ok {
			if q.c.cmp(r.ineq[i].c) < 0 {
				r.ineq[i] = q
			}
			continue
		}
		seen[k] = len(r.ineq)
		r.ineq = append(r.ineq, q)
	}
	for _, q := range c.neq {
		q = q.subst(m)
		if len(q.t) == 0 {
			if q.c.sign() == 0 {
				return nil
			}
			continue
		}
		r.neq = append(r.neq, q)
	}
	// bounds that have met are an equality
	for _, q := range r.ineq {
		if i, ok := seen[coefKey(q.Neg())]; ok && r.ineq[i].c.cmp(q.Neg().c) == 0 {
			return r.eq(q)
		}
	}
	if len(val.t) > 0 || len(r.ineq) > 0 {
		probe := Lin{}
		for _, q := range r.ineq {
			hit := false
			for _, t := range q.t {
				if val.coef(t.s) != 0 {
					hit = true
				}
			}
			if hit {
				probe = q
				if unsat(r.relevant(probe)) {
					return nil
				}
				break
			}
		}
	}
	return r.fixNeq()
}

func (c *Cons) ne(l Lin) *Cons {
	if c == nil {
		return nil
	}
	if c.bot || c.entailsNeq(l) {
		return c
	}
	l = c.norm(l)
	if c.entailsEq(l) {
		return nil
	}
	r := c.clone()
	r.neq = append(r.neq, l)
	return r.fixNeq()
}

func (c *Cons) String() string {
	var p []string
	var ss []Sym
	for s := range c.sub {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
	for _, s := range ss {
		p = append(p, symName(s)+"="+c.sub[s].String())
	}
	for _, q := range c.ineq {
		p = append(p, q.String()+">=0")
	}
	for _, q := range c.neq {
		p = append(p, q.String()+"!=0")
	}
	return strings.Join(p, " & ")
}
