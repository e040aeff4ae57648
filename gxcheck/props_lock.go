package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C18"] = &propCheck{run: func(c *Ctx) { checkSpin(c, "SpinLock", false) }, minObl: 5}
	props["C19"] = &propCheck{run: func(c *Ctx) { checkSpin(c, "RWSpinLock", true) }, minObl: 9}
}

const maxReaders = 1 << 29

// spinWorld is the thread-modular view of one lock: between any two atomic steps of
// the analysed call, other goroutines may change every cell of the lock within the
// protocol (rely), except cells whose value this call's holder fixes.
//
// Ghost variables: "own:cell" the fixed value of a cell, "ev" the changing steps
// (cell name, old, new).
type spinWorld struct {
	obj  ObjID
	typ  types.Type
	rely func(st *State, cell string, v Lin)
	cell map[string]bool

	steps bool // steps that change nothing count, too
}

func (w *spinWorld) name(st *State, p VPtr) string {
	t := w.typ
	var s []string
	for _, x := range p.Path {
		u, ok := t.Underlying().(*types.Struct)
		if !ok || x.isIdx {
			return fmt.Sprintf("cell%v", p.Path)
		}
		if strings.Contains(t.String(), "sync/atomic.") {
			break
		}
		s = append(s, u.Field(x.field).Name())
		t = u.Field(x.field).Type()
	}
	return strings.Join(s, ".")
}

func (w *spinWorld) value(st *State, cell string, b *types.Basic) Lin {
	w.cell[cell] = true
	if v, ok := st.ghost["own:"+cell].(VInt); ok {
		return v.L
	}
	l := st.freshInt(b, cell)
	if w.rely != nil {
		w.rely(st, cell, l)
	}
	return l
}

func (w *spinWorld) change(st *State, cell string, old, nw Lin) {
	if !w.steps && st.condEq(old, nw) {
		return
	}
	ev, _ := st.ghost["ev"].(VTuple)
	if len(ev) >= 8 {
		st.broken("more than eight changes of the lock state in one call")
	}
	st.ghost["ev"] = append(ev[:len(ev):len(ev)], VTuple{VStr{strRope(cell)}, VInt{old}, VInt{nw}})
	if w.steps {
		return
	}
	// a step 0 -> x or x -> 0 with constant x takes or gives up the cell
	o, n := st.c.norm(old), st.c.norm(nw)
	switch {
	case o.isK() && o.c.sign() == 0 && n.isK() && n.c.sign() != 0 && !(n.c.isInt64() && n.c.int64() == 1 && cell == st.eng.readerCell):
		st.ghost["own:"+cell] = VInt{n}
	default:
		delete(st.ghost, "own:"+cell)
	}
}

func (w *spinWorld) install(e *Engine) {
	own := func(c *callCtx) (string, bool) {
		p := c.st.resolve(c.args[0])
		if p.Obj != w.obj {
			return "", false
		}
		return w.name(c.st, p), true
	}
	for _, k := range []types.BasicKind{types.Int32, types.Uint32, types.Int64, types.Uint64} {
		b := types.Typ[k]
		nm := strings.ToUpper(b.Name()[:1]) + b.Name()[1:]
		def := func(op string, f func(c *callCtx, st *State, cell string, old Lin) Value) {
			m := func(c *callCtx) Value {
				cell, ok := own(c)
				if !ok {
					giveUp("%s: atomic operation on something other than the lock", c.pos)
				}
				return f(c, c.st, cell, w.value(c.st, cell, b))
			}
			e.models["sync/atomic."+op+nm] = m
			e.models["(*sync/atomic."+nm+")."+op] = m
		}
		arg := func(c *callCtx, i int) Lin { return c.args[i].(VInt).L }
		def("Load", func(c *callCtx, st *State, cell string, old Lin) Value { return VInt{old} })
		def("Store", func(c *callCtx, st *State, cell string, old Lin) Value {
			w.change(st, cell, old, arg(c, 1))
			return VTuple{}
		})
		def("Swap", func(c *callCtx, st *State, cell string, old Lin) Value {
			w.change(st, cell, old, arg(c, 1))
			return VInt{old}
		})
		def("Add", func(c *callCtx, st *State, cell string, old Lin) Value {
			n := st.wrap(old.Add(arg(c, 1)), b)
			w.change(st, cell, old, n)
			return VInt{n}
		})
		def("CompareAndSwap", func(c *callCtx, st *State, cell string, old Lin) Value {
			if !st.condEq(old, arg(c, 1)) {
				return VBool(false)
			}
			w.change(st, cell, old, arg(c, 2))
			return VBool(true)
		})
	}
	for _, n := range []string{"runtime.Gosched", "time.Sleep"} {
		e.models[n] = func(c *callCtx) Value { return VTuple{} }
	}
	e.onStore = func(st *State, p VPtr, v Value) {
		if p.Obj == w.obj {
			st.broken("%s is written without an atomic operation", w.name(st, p))
		}
	}
	e.onLoad = func(st *State, p VPtr) {
		if p.Obj == w.obj {
			st.broken("%s is read without an atomic operation", w.name(st, p))
		}
	}
}

type spinEv struct {
	cell     string
	old, new Lin
}

func (st *State) spinEvents() (r []spinEv) {
	ev, _ := st.ghost["ev"].(VTuple)
	for _, x := range ev {
		t := x.(VTuple)
		r = append(r, spinEv{constStr(t[0].(VStr).R), st.c.norm(t[1].(VInt).L), st.c.norm(t[2].(VInt).L)})
	}
	return
}

func evText(ev []spinEv) string {
	var s []string
	for _, x := range ev {
		s = append(s, fmt.Sprintf("%s: %s -> %s", x.cell, x.old, x.new))
	}
	if s == nil {
		return "no change"
	}
	return strings.Join(s, ", ")
}

func constStr(r Rope) string {
	var b []byte
	for _, p := range r {
		if p.kind == pTable {
			for _, v := range p.tab {
				b = append(b, byte(v))
			}
			continue
		}
		l, _ := valLin(p.val)
		for i := int64(0); p.kind == pConst && i < p.n.c.int64(); i++ {
			b = append(b, byte(l.c.int64()))
		}
	}
	return string(b)
}

func checkSpin(c *Ctx, typ string, rw bool) {
	sp := c.pkg("sync")
	lock, unlock := c.fn(sp, typ+".Lock"), c.fn(sp, typ+".Unlock")
	var rlock, runlock *ssa.Function
	if rw {
		rlock, runlock = c.fn(sp, typ+".RLock"), c.fn(sp, typ+".RUnlock")
	}
	t := sp.Type(typ).Type()
	start := func(reader string) (*Engine, *State, *spinWorld) {
		e := c.engine(sp)
		e.readerCell = reader
		st := e.newState()
		id := st.newObj(t, VJunk{}, "lock")
		w := &spinWorld{obj: id, typ: t, cell: map[string]bool{}}
		w.install(e)
		return e, st, w
	}
	// inference: which cells does a successful call change, and how
	taken := map[string]int64{}
	var reader string
	if rw {
		c.oblige("RLock: one counting cell", func() {
			e, st, w := start("")
			found := map[string]bool{}
			for _, o := range e.Call(st, rlock, []Value{VPtr{Obj: w.obj}}, nil, nil) {
				if o.pan == nil {
					for _, x := range o.st.spinEvents() {
						found[x.cell] = true
					}
				}
			}
			if len(found) != 1 {
				c.fail("%s: a successful RLock changes %d cells of the lock instead of one", c.p.pos(rlock), len(found))
				return
			}
			for k := range found {
				reader = k
			}
		})
		if reader == "" {
			return
		}
	}
	c.oblige("Lock: what a holder sets", func() {
		e, st, w := start(reader)
		n := 0
		for _, o := range e.Call(st, lock, []Value{VPtr{Obj: w.obj}}, nil, nil) {
			if o.pan != nil {
				continue
			}
			n++
			for _, x := range o.st.spinEvents() {
				if !x.new.isK() || !x.new.c.isInt64() {
					continue
				}
				if v := x.new.c.int64(); v != 0 {
					if old, ok := taken[x.cell]; ok && old != v {
						c.fail("%s: Lock sets %s to %d on one path and %d on another", c.p.pos(lock), x.cell, old, v)
					}
					taken[x.cell] = v
				}
			}
		}
		if n == 0 {
			c.fail("%s: Lock never returns", c.p.pos(lock))
		}
		if len(taken) == 0 {
			c.fail("%s: Lock returns without setting anything", c.p.pos(lock))
		}
		if v, ok := taken[reader]; rw && (!ok || v >= 0) {
			c.fail("%s: Lock does not set the reader counter %s to a negative value", c.p.pos(lock), reader)
		}
	})
	if len(taken) == 0 || rw && taken[reader] >= 0 {
		return
	}
	var cells []string
	for k := range taken {
		cells = append(cells, k)
	}
	sort.Strings(cells)
	// any reachable value of a cell
	anyVal := func(st *State, cell string, v Lin) {
		h, ok := taken[cell]
		if !ok && cell != reader {
			giveUp("cell %s is not part of the lock protocol", cell)
		}
		if cell == reader {
			if st.choose(2) == 0 {
				st.assumeEq(v.AddK(-h))
			} else {
				st.assume(v)
				st.assume(K(maxReaders).Sub(v))
			}
			return
		}
		if st.choose(2) == 0 {
			st.assumeEq(v)
		} else {
			st.assumeEq(v.AddK(-h))
		}
	}
	mainCell := reader
	if !rw {
		mainCell = cells[0]
	}
	holdAll := func(st *State) {
		for _, k := range cells {
			st.ghost["own:"+k] = VInt{K(taken[k])}
		}
	}
	type rule func(s *State, ev []spinEv) string
	// took: exactly one step per cell, each from free to the holder's value
	took := func(s *State, ev []spinEv) string {
		seen := map[string]bool{}
		for _, x := range ev {
			if seen[x.cell] || !s.c.entailsEq(x.old) || !s.c.entailsEq(x.new.AddK(-taken[x.cell])) {
				return "acquires by " + evText(ev)
			}
			seen[x.cell] = true
		}
		if len(seen) != len(cells) {
			return "returns after " + evText(ev) + ": not everything an owner holds was taken"
		}
		return ""
	}
	gave := func(s *State, ev []spinEv) string {
		seen := map[string]bool{}
		for _, x := range ev {
			if seen[x.cell] || !s.c.entailsEq(x.old.AddK(-taken[x.cell])) || !s.c.entailsEq(x.new) {
				return "releases by " + evText(ev)
			}
			seen[x.cell] = true
		}
		if len(seen) != len(cells) {
			return "returns after " + evText(ev) + ": not everything an owner holds was released"
		}
		return ""
	}
	count := func(d int64) rule {
		return func(s *State, ev []spinEv) string {
			if len(ev) == 1 && ev[0].cell == reader && s.c.entailsEq(ev[0].new.Sub(ev[0].old).AddK(-d)) && s.c.entails(ev[0].old) && s.c.entails(ev[0].new) {
				return ""
			}
			return "returns after " + evText(ev)
		}
	}
	// nothing: a call that gives up leaves every cell as it was
	nothing := func(s *State, ev []spinEv) string {
		last := map[string]spinEv{}
		first := map[string]spinEv{}
		for _, x := range ev {
			if y, ok := last[x.cell]; !ok {
				first[x.cell] = x
			} else if !s.c.entailsEq(x.old.Sub(y.new)) || x.cell == mainCell {
				return "panics after " + evText(ev)
			}
			last[x.cell] = x
		}
		for k, x := range last {
			if k == mainCell || !s.c.entailsEq(x.new.Sub(first[k].old)) {
				return "panics after " + evText(ev)
			}
		}
		return ""
	}
	never := func(s *State, ev []spinEv) string { return "panics" }
	do := func(name string, fn *ssa.Function, prep func(st *State, w *spinWorld), ret, pan rule) {
		c.oblige(name, func() {
			e, st, w := start(reader)
			w.rely = anyVal
			if prep != nil {
				prep(st, w)
			}
			c.mayHang = name == "Lock: a lock held by another" || name == "Lock: a reader inside" || strings.HasSuffix(name, "a writer inside")
			defer func() { c.mayHang = false }()
			c.run(e, st, fn, []Value{VPtr{Obj: w.obj}}, func(s *State, r []Value, p *progPanic) string {
				ev := s.spinEvents()
				if p == nil {
					return ret(s, ev)
				}
				if strings.Contains(p.why, "atomic operation") || strings.Contains(p.why, "eight changes") {
					return p.why
				}
				if m := pan(s, ev); m != "" {
					return m + " (" + p.why + ")"
				}
				return ""
			})
		})
	}
	stuck := func(s *State, ev []spinEv) string { return "returns although the lock is taken, after " + evText(ev) }
	fix := func(vals map[string]int64) func(st *State, w *spinWorld) {
		return func(st *State, w *spinWorld) {
			for k, v := range vals {
				st.ghost["own:"+k] = VInt{K(v)}
			}
		}
	}
	free := map[string]int64{reader: 0}
	if !rw {
		delete(free, reader)
	}
	for _, k := range cells {
		free[k] = 0
	}
	do("Lock: any interleaving", lock, nil, took, nothing)
	do("Lock: a free lock", lock, fix(free), took, never)
	do("Lock: a lock held by another", lock, func(st *State, w *spinWorld) { holdAll(st) }, stuck, nothing)
	do("Unlock: by the holder", unlock, func(st *State, w *spinWorld) { holdAll(st) }, gave, never)
	do("Unlock: a free lock", unlock, fix(free), func(s *State, ev []spinEv) string { return "returns although nothing was held" }, nothing)
	// in a race of releases, the step on the deciding cell makes this call the holder
	do("Unlock: any interleaving", unlock, func(st *State, w *spinWorld) {
		w.rely = func(st *State, cell string, v Lin) {
			for _, x := range st.spinEvents() {
				if x.cell == mainCell && cell != mainCell {
					st.assumeEq(v.AddK(-taken[cell]))
					return
				}
			}
			anyVal(st, cell, v)
		}
	}, gave, nothing)
	if !rw {
		return
	}
	h := taken[reader]
	atLeast := func(n int64, writer bool) func(st *State, w *spinWorld) {
		return func(st *State, w *spinWorld) {
			w.rely = func(st *State, cell string, v Lin) {
				if cell != reader {
					anyVal(st, cell, v)
					return
				}
				st.assume(v.AddK(-n))
				st.assume(K(maxReaders - 1).Sub(v))
			}
		}
	}
	do("RLock: any interleaving", rlock, nil, count(1), nothing)
	do("RLock: any number of readers inside", rlock, func(st *State, w *spinWorld) {
		v := st.freshInt(types.Typ[types.Int32], "readers")
		st.assume(v)
		st.assume(K(maxReaders).Sub(v))
		st.ghost["own:"+reader] = VInt{v}
		w.rely = anyVal
	}, count(1), never)
	do("RLock: a writer inside", rlock, func(st *State, w *spinWorld) { holdAll(st) }, stuck, nothing)
	do("Lock: a reader inside", lock, func(st *State, w *spinWorld) { atLeast(1, false)(st, w) }, stuck, nothing)
	do("RUnlock: by a reader", runlock, func(st *State, w *spinWorld) { atLeast(1, false)(st, w) }, count(-1), never)
	do("RUnlock: any interleaving", runlock, nil, count(-1), nothing)
	do("RUnlock: no reader inside", runlock, func(st *State, w *spinWorld) {
		w.rely = func(st *State, cell string, v Lin) {
			if cell != reader {
				anyVal(st, cell, v)
			} else if st.choose(2) == 0 {
				st.assumeEq(v)
			} else {
				st.assumeEq(v.AddK(-h))
			}
		}
	}, func(s *State, ev []spinEv) string { return "returns although no reader is inside" }, nothing)
	do("Unlock: readers inside", unlock, func(st *State, w *spinWorld) { atLeast(0, false)(st, w) }, func(s *State, ev []spinEv) string { return "returns although no writer is inside" }, nothing)
}
