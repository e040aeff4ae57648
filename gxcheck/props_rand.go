package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C29"] = &propCheck{run: func(c *Ctx) { checkRand(c); checkRandText(c, c.pkg("math/rand")) }, minObl: 29}
}

// randWorld is a generator that other goroutines use at the same time.
type randWorld struct {
	*spinWorld
	w int
}

// section makes the fields of the generator plain variables while one of its own
// locks is held, and turns what the section did into one step.
func (r *randWorld) section(e *Engine) {
	t := r.typ.Underlying().(*types.Struct)
	isInt := func(i int) bool { b := basicOf(t.Field(i).Type()); return b != nil && b.Info()&types.IsInteger != 0 }
	e.onAcquire = func(st *State, l VPtr, excl bool) {
		if l.Obj != r.obj {
			return
		}
		z := e.zero(r.typ).(VStruct)
		for i := range z.F {
			if isInt(i) {
				z.F[i] = VInt{r.value(st, t.Field(i).Name(), basicOf(t.Field(i).Type()))}
				st.ghost["sec:"+t.Field(i).Name()] = z.F[i]
			}
		}
		o := *st.heap[r.obj]
		o.v = z
		st.heap[r.obj] = &o
	}
	e.onRelease = func(st *State, l VPtr, excl bool) {
		if l.Obj != r.obj {
			return
		}
		z := st.heap[r.obj].v.(VStruct)
		for i := range z.F {
			if k := "sec:" + t.Field(i).Name(); st.ghost[k] != nil {
				nw, ok := z.F[i].(VInt)
				if !ok {
					giveUp("the generator holds %s", vstr(z.F[i]))
				}
				if !excl && !st.c.entailsEq(nw.L.Sub(st.ghost[k].(VInt).L)) {
					st.broken("%s is written under a read lock", t.Field(i).Name())
				}
				if !st.c.entailsEq(nw.L.Sub(st.ghost[k].(VInt).L)) {
					r.change(st, t.Field(i).Name(), st.ghost[k].(VInt).L, nw.L)
				}
				delete(st.ghost, k)
			}
		}
		o := *st.heap[r.obj]
		o.v = VJunk{}
		st.heap[r.obj] = &o
	}
	store, load := e.onStore, e.onLoad
	e.onStore = func(st *State, p VPtr, v Value) {
		if len(st.heldLocks()) == 0 {
			store(st, p, v)
		}
	}
	e.onLoad = func(st *State, p VPtr) {
		if len(st.heldLocks()) == 0 {
			load(st, p)
		}
	}
}

func newRandWorld(e *Engine, st *State, t types.Type, id ObjID, w int) *randWorld {
	r := &randWorld{spinWorld: &spinWorld{obj: id, typ: t, cell: map[string]bool{}}, w: w}
	r.steps, e.rawMul = true, true
	r.install(e)
	r.section(e)
	return r
}

// affine gives l as a*s + c modulo 2^w, following the reductions in it.
func affine(l Lin, w int) (s Sym, a, c *big.Int, ok bool) {
	mod := new(big.Int).Lsh(big.NewInt(1), uint(w))
	a, c = new(big.Int), new(big.Int)
	n := 0
	var add func(l Lin, k *big.Int) bool
	add = func(l Lin, k *big.Int) bool {
		b, bok := new(big.Int).SetString(l.c.String(), 10)
		if !bok {
			return false
		}
		c.Add(c, b.Mul(b, k))
		for _, t := range l.t {
			kk := new(big.Int).Mul(k, big.NewInt(t.k))
			if d := symDefOf(t.s); d != nil {
				if d.op != "wrap" || !strings.HasSuffix(d.tag, fmt.Sprint(w)) || !add(d.args[0], kk) {
					return false
				}
				continue
			}
			if n > 0 && s != t.s {
				return false
			}
			n++
			s = t.s
			a.Add(a, kk)
		}
		return true
	}
	if !add(l, big.NewInt(1)) || n == 0 {
		return 0, nil, nil, false
	}
	return s, a.Mod(a, mod), c.Mod(c, mod), true
}

// oneStep checks that a call drew exactly one number; it gives the new seed.
func oneStep(st *State, w int) (nw Lin, msg string) {
	ev := st.spinEvents()
	if len(ev) != 1 {
		return nw, "the seed is not changed in exactly one atomic step: " + evText(ev)
	}
	s, a, _, ok := affine(ev[0].new, w)
	o, isSym := ev[0].old.onlySym()
	if !ok || !isSym || s != o {
		return nw, "the new seed is not an affine function of the seed it replaces: " + evText(ev)
	}
	if a.Bit(0) == 0 {
		return nw, fmt.Sprintf("different seeds lead to the same next seed (multiplier %s)", a)
	}
	return ev[0].new, ""
}

func checkRand(c *Ctx) {
	sp := c.pkg("math/rand")
	ext := func(e *Engine) {
		tm := c.p.pkgs["time"]
		if tm == nil {
			return
		}
		for _, m := range tm.Members {
			if f, ok := m.(*ssa.Function); ok && f.Blocks == nil {
				r := f.Signature.Results()
				if r.Len() == 1 && basicOf(r.At(0).Type()) != nil {
					e.models[f.String()] = func(c *callCtx) Value { return c.st.fresh(r.At(0).Type(), "clock") }
				}
			}
		}
		privateAtomics(e)
		e.models["time.Now"] = func(c *callCtx) Value { return VJunk{} }
		for _, n := range []string{"Unix", "UnixNano", "UnixMilli", "UnixMicro"} {
			e.models["(time.Time)."+n] = func(c *callCtx) Value { return c.st.fresh(types.Typ[types.Int64], "clock") }
		}
	}
	c.setup, c.keepPtrs = ext, true
	for _, w := range []int{32, 64} {
		w := w
		ut := types.Typ[types.Uint32]
		if w == 64 {
			ut = types.Typ[types.Uint64]
		}
		tn := fmt.Sprintf("Rand%dT", w)
		tm := sp.Type(tn)
		if tm == nil {
			c.fail("type %s not found", tn)
			return
		}
		t := tm.Type()
		_, hi := intRange(ut)
		// a call on a generator in any state, shared with other goroutines
		on := func(name string, pre func(st *State) []Value, post func(st *State, a []Value, ret Lin) string) {
			c.oblige(tn+"."+name, func() {
				fn := c.fn(sp, tn+"."+strings.TrimSuffix(strings.Fields(name)[0], ":"))
				e := c.engine(sp)
				st := e.newState()
				id := st.newObj(t, VJunk{}, "generator")
				newRandWorld(e, st, t, id, w)
				a := []Value{VPtr{Obj: id}}
				if pre != nil {
					a = append(a, pre(st)...)
				}
				c.run(e, st, fn, a, func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return "panics: " + pan.why
					}
					r, ok := ret[0].(VInt)
					if !ok {
						return "returns " + vstr(ret[0])
					}
					return post(s, a, r.L)
				})
			})
		}
		two := func(st *State) []Value { return []Value{st.fresh(ut, "min"), st.fresh(ut, "max")} }
		arg := func(a []Value, i int) Lin { return a[i].(VInt).L }
		on("Rand: one step, and its number is the new seed", nil, func(st *State, a []Value, r Lin) string {
			n, msg := oneStep(st, w)
			if msg == "" && !st.c.entailsEq(n.Sub(r)) {
				msg = fmt.Sprintf("returns %s, the seed became %s", st.c.norm(r), n)
			}
			return msg
		})
		between := func(st *State, r, lo, hi Lin) string {
			if !st.c.entails(r.Sub(lo)) || !st.c.entails(hi.Sub(r)) {
				return fmt.Sprintf("returns %s, which need not lie in [%s,%s]", st.c.norm(r), st.c.norm(lo), st.c.norm(hi))
			}
			return ""
		}
		rng := func(st *State, a []Value, r Lin) string {
			_, msg := oneStep(st, w)
			return and(msg, between(st, r, arg(a, 1), arg(a, 2)))
		}
		ordered := func(st *State) []Value {
			v := two(st)
			st.assume(v[1].(VInt).L.Sub(v[0].(VInt).L))
			return v
		}
		on("RandRange in order", ordered, rng)
		on("RandRange swapped", func(st *State) []Value {
			v := ordered(st)
			return []Value{v[1], v[0]}
		}, func(st *State, a []Value, r Lin) string { return rng(st, []Value{a[0], a[2], a[1]}, r) })
		on("RandRange of everything", func(st *State) []Value { return []Value{VInt{K(0)}, VInt{kn(hi)}} }, rng)
		// every number of the range is drawn: at its distance from the lower end
		on("RandRange reaches every number", ordered, func(st *State, a []Value, r Lin) string {
			n, msg := oneStep(st, w)
			if msg != "" {
				return msg
			}
			// n <= max-min makes the result min+n
			g := st.c.ge(arg(a, 2).Sub(arg(a, 1)).Sub(n))
			if g == nil {
				return ""
			}
			s := *st
			s.c = g
			want := n.Add(arg(a, 1))
			if !g.entailsEq(r.Sub(want)) {
				return fmt.Sprintf("returns %s for the step to %s, not %s", g.norm(r), n, g.norm(want))
			}
			return ""
		})
		pos := func(st *State) []Value {
			v := st.fresh(ut, "max").(VInt)
			st.assume(v.L.AddK(-1))
			return []Value{v}
		}
		on("RandMax below max", pos, func(st *State, a []Value, r Lin) string {
			_, msg := oneStep(st, w)
			return and(msg, between(st, r, K(0), arg(a, 1).AddK(-1)))
		})
		on("RandMax of nothing", func(st *State) []Value { return []Value{VInt{K(0)}} }, func(st *State, a []Value, r Lin) string {
			_, msg := oneStep(st, w)
			return msg
		})
		on("Seed", nil, func(st *State, a []Value, r Lin) string {
			if ev := st.spinEvents(); len(ev) != 0 {
				return "changes the generator: " + evText(ev)
			}
			if _, ok := st.c.norm(r).onlySym(); !ok {
				return "returns " + r.String() + ", not the seed"
			}
			return ""
		})
		on("Srand", func(st *State) []Value { return []Value{st.fresh(ut, "seed")} }, func(st *State, a []Value, r Lin) string {
			ev := st.spinEvents()
			if len(ev) == 0 && st.c.entailsEq(r.Sub(arg(a, 1))) {
				return "" // it had that seed
			}
			if len(ev) != 1 || !st.c.entailsEq(ev[0].new.Sub(arg(a, 1))) || !st.c.entailsEq(ev[0].old.Sub(r)) {
				return fmt.Sprintf("does not swap the seed in one step: %s, returns %s", evText(ev), st.c.norm(r))
			}
			return ""
		})
		// construction
		c.oblige(fmt.Sprintf("NewRand%dS starts from the seed", w), func() {
			fn, seed := c.fn(sp, fmt.Sprintf("NewRand%dS", w)), c.fn(sp, tn+".Seed")
			e := c.engine(sp)
			st := e.newState()
			v := st.fresh(ut, "seed").(VInt)
			c.run(e, st, fn, []Value{v}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return "panics: " + pan.why
				}
				msg := ""
				for _, o := range e.Call(s, seed, ret, nil, nil) {
					if o.pan != nil || len(o.ret) != 1 {
						return "Seed panics"
					}
					if r, ok := o.ret[0].(VInt); !ok || !o.st.c.entailsEq(r.L.Sub(v.L)) {
						msg = "Seed returns " + vstr(o.ret[0])
					}
				}
				return msg
			})
		})
		// the package's own generator
		glob := func(name, call string, args func(st *State) []Value, post func(st *State, a []Value, r Lin) string) {
			c.oblige(name, func() {
				fn := c.fn(sp, call)
				e := c.engine(sp)
				st := e.newState()
				id := randGlobal(st, t)
				if id == 0 {
					c.fail("no generator of type %s among the package variables", tn)
					return
				}
				newRandWorld(e, st, t, id, w)
				var a []Value
				if args != nil {
					a = args(st)
				}
				c.run(e, st, fn, a, func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return "panics: " + pan.why
					}
					r, ok := ret[0].(VInt)
					if !ok {
						return "returns " + vstr(ret[0])
					}
					return post(s, a, r.L)
				})
			})
		}
		glob(fmt.Sprintf("Rand%d", w), fmt.Sprintf("Rand%d", w), nil, func(st *State, a []Value, r Lin) string {
			n, msg := oneStep(st, w)
			if msg == "" && !st.c.entailsEq(n.Sub(r)) {
				msg = "returns another number than the one drawn"
			}
			return msg
		})
		glob(fmt.Sprintf("RandRange%d", w), fmt.Sprintf("RandRange%d", w), ordered, func(st *State, a []Value, r Lin) string {
			return between(st, r, arg(a, 0), arg(a, 1))
		})
		glob(fmt.Sprintf("RandMax%d", w), fmt.Sprintf("RandMax%d", w), pos, func(st *State, a []Value, r Lin) string {
			return between(st, r, K(0), arg(a, 0).AddK(-1))
		})
	}
}

// checkRandText: strings.Rand makes texts of the length asked for, whatever numbers
// the generators draw (their ranges are obligations of their own).
func checkRandText(c *Ctx, rnd *ssa.Package) {
	sp := c.pkg("strings")
	fn := c.fn(sp, "Rand")
	for _, w := range []int{32, 64} {
		c.fn(rnd, fmt.Sprintf("Rand%dT.RandMax", w))
	}
	contracts := func(e *Engine) {
		for _, w := range []int{32, 64} {
			ut := types.Typ[types.Uint32]
			if w == 64 {
				ut = types.Typ[types.Uint64]
			}
			draw := func(st *State, lo, hi Lin) Value {
				v := st.fresh(ut, "drawn").(VInt)
				st.assume(v.L.Sub(lo))
				st.assume(hi.Sub(v.L))
				return v
			}
			max := func(c *callCtx) Value {
				m := c.args[len(c.args)-1].(VInt).L
				if !c.st.cond(m.AddK(-1)) {
					return c.st.fresh(ut, "drawn")
				}
				return draw(c.st, K(0), m.AddK(-1))
			}
			rng := func(c *callCtx) Value {
				lo, hi := c.args[len(c.args)-2].(VInt).L, c.args[len(c.args)-1].(VInt).L
				if !c.st.cond(hi.Sub(lo)) {
					lo, hi = hi, lo
				}
				return draw(c.st, lo, hi)
			}
			any := func(c *callCtx) Value { return c.st.fresh(ut, "drawn") }
			pre, path := fmt.Sprintf("(*%s/math/rand.Rand%dT).", modPath, w), modPath+"/math/rand."
			e.models[pre+"RandMax"], e.models[fmt.Sprintf("%sRandMax%d", path, w)] = max, max
			e.models[pre+"RandRange"], e.models[fmt.Sprintf("%sRandRange%d", path, w)] = rng, rng
			e.models[pre+"Rand"], e.models[fmt.Sprintf("%sRand%d", path, w)] = any, any
		}
	}
	letters := func(r Value, st *State, n Lin) string {
		s, ok := r.(VStr)
		if !ok {
			return "returns " + vstr(r)
		}
		for _, p := range st.normRope(s.R) {
			if !st.isLetters(p) {
				return "bytes that are not capital letters: " + vstr(r)
			}
		}
		if l := ropeLen(s.R); !st.c.entailsEq(l.Sub(n)) {
			return fmt.Sprintf("returns %s bytes, %s were asked for", st.c.norm(l), st.c.norm(n))
		}
		return ""
	}
	for _, z := range []string{"of any length", "of no length"} {
		z := z
		c.oblige("strings.Rand "+z, func() {
			e := c.engine(rnd, sp)
			contracts(e)
			e.onLoop = foldLetters
			st := e.newState()
			n := VInt{K(0)}
			if z == "of any length" {
				n = st.fresh(types.Typ[types.Int], "length").(VInt)
				st.assume(n.L)
				st.assume(K(1 << 46).Sub(n.L))
			}
			c.run(e, st, fn, []Value{st.fresh(fn.Params[0].Type(), "rule"), n}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return "panics: " + pan.why
				}
				return letters(ret[0], s, n.L)
			})
		})
	}
}

// isLetters: the piece consists of capital letters.
func (st *State) isLetters(p Piece) bool {
	if st.c.entailsEq(p.n) {
		return true
	}
	switch p.kind {
	case pSeq:
		if p.seq.lo != nil && p.seq.hi != nil && st.c.entails(p.seq.lo.AddK(-'A')) && st.c.entails(K('Z').Sub(*p.seq.hi)) {
			return true
		}
		return p.seq.name == "letters"
	case pTable:
		for _, v := range p.tab {
			if v < 'A' || v > 'Z' {
				return false
			}
		}
		return true
	case pConst:
		l, ok := valLin(p.val)
		return ok && st.c.entails(l.AddK(-'A')) && st.c.entails(K('Z').Sub(l))
	}
	return false
}

// foldLetters replaces runs of capital letters in byte arrays and texts at a loop head by
// unknown capital letters.
func foldLetters(st *State, hdr *ssa.BasicBlock) {
	fold := func(r Rope) (Rope, bool) {
		r = st.normRope(r)
		var out Rope
		n, k, ch := K(0), 0, false
		flush := func(p *Piece) {
			if k == 1 && p.kind == pSeq && p.seq.name == "letters" {
				out = append(out, *p)
			} else if k > 0 {
				out = append(out, seqRope(newSeq("letters", byteT()), K(0), n)...)
				ch = true
			}
			n, k = K(0), 0
		}
		for i := range r {
			if st.isLetters(r[i]) {
				n = n.Add(r[i].n)
				k++
				continue
			}
			if k > 0 {
				flush(&r[i-1])
			}
			out = append(out, r[i])
		}
		if k > 0 {
			flush(&r[len(r)-1])
		}
		return out, ch
	}
	for id, o := range st.heap {
		if a, ok := o.v.(VArray); ok && !o.glob {
			if et, isA := elemOf(o.typ); isA && basicOf(et) != nil && basicOf(et).Kind() == types.Uint8 {
				if r, ch := fold(a.R); ch {
					n := *o
					n.v = VArray{r}
					st.heap[id] = &n
				}
			}
		}
	}
	env := st.top().env
	for k, v := range env {
		if s, ok := v.(VStr); ok {
			if r, ch := fold(s.R); ch {
				env[k] = VStr{r}
			}
		}
	}
}

func elemOf(t types.Type) (types.Type, bool) {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem(), true
	case *types.Slice:
		return u.Elem(), true
	}
	return t, basicOf(t) != nil
}

// randGlobal finds the object of type t a package variable holds or points to and
// forgets its content.
func randGlobal(st *State, t types.Type) ObjID {
	var ids []ObjID
	for id, o := range st.heap {
		if types.Identical(o.typ, t) {
			ids = append(ids, id)
		}
	}
	if len(ids) != 1 {
		return 0
	}
	o := *st.heap[ids[0]]
	o.v = VJunk{}
	st.heap[ids[0]] = &o
	return ids[0]
}

// privateAtomics gives the atomic operations on memory nobody else uses.
func privateAtomics(e *Engine) {
	for _, k := range []types.BasicKind{types.Int32, types.Uint32, types.Int64, types.Uint64} {
		b := types.Typ[k]
		nm := strings.ToUpper(b.Name()[:1]) + b.Name()[1:]
		def := func(op string, f func(c *callCtx, at VPtr, old Lin) Value) {
			e.models["sync/atomic."+op+nm] = func(c *callCtx) Value {
				p := c.st.resolve(c.args[0])
				return f(c, p, c.st.typed(c.st.load(p), b, "atomic").(VInt).L)
			}
			e.models["(*sync/atomic."+nm+")."+op] = func(c *callCtx) Value {
				p := c.st.resolve(c.args[0])
				p = valueField(c.st, p)
				return f(c, p, c.st.typed(c.st.load(p), b, "atomic").(VInt).L)
			}
		}
		def("Load", func(c *callCtx, at VPtr, old Lin) Value { return VInt{old} })
		def("Store", func(c *callCtx, at VPtr, old Lin) Value { c.st.store(at, c.args[1]); return VTuple{} })
		def("Swap", func(c *callCtx, at VPtr, old Lin) Value { c.st.store(at, c.args[1]); return VInt{old} })
		def("Add", func(c *callCtx, at VPtr, old Lin) Value {
			n := VInt{c.st.wrap(old.Add(c.args[1].(VInt).L), b)}
			c.st.store(at, n)
			return n
		})
		def("CompareAndSwap", func(c *callCtx, at VPtr, old Lin) Value {
			if !c.st.condEq(old, c.args[1].(VInt).L) {
				return VBool(false)
			}
			c.st.store(at, c.args[2])
			return VBool(true)
		})
	}
}

// valueField is the place of the number inside an atomic type.
func valueField(st *State, p VPtr) VPtr {
	s, ok := st.load(p).(VStruct)
	if !ok {
		giveUp("atomic type of unknown layout")
	}
	for i, f := range s.F {
		if _, isI := f.(VInt); isI {
			return VPtr{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], pathEl{field: i})}
		}
	}
	giveUp("atomic type of unknown layout")
	return p
}
