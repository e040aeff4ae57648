package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C23"] = &propCheck{run: checkFactory, minObl: 10}
}

// factoryWorld: the registry is unknown, and other goroutines may change it whenever
// this one does not hold the lock: taking the lock makes it unknown again. Every
// critical section is recorded as (what the registry was, what was done to it).
// Ghost variables: secs, calls (of creators), lock (the one lock used).
type factoryWorld struct {
	c     *Ctx
	lock  *string // place of the lock relative to the factory
	maps  map[ObjID]bool
	f     VPtr
	where string
}

func isCreatorMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	i, ok := m.Elem().Underlying().(*types.Interface)
	return ok && i.NumMethods() == 1 && i.Method(0).Name() == "Create"
}

// registry finds the map of creators a factory holds.
func (w *factoryWorld) registry(st *State, p VPtr) (found []VMap) {
	seen := map[ObjID]bool{}
	var walk func(v Value)
	walk = func(v Value) {
		switch v := v.(type) {
		case VStruct:
			for _, f := range v.F {
				walk(f)
			}
		case VPtr:
			if v.Obj > 0 && !seen[v.Obj] {
				seen[v.Obj] = true
				walk(st.heap[v.Obj].v)
			}
		case VMap:
			if v.Obj > 0 && isCreatorMap(st.heap[v.Obj].typ) {
				found = append(found, v)
			}
		}
	}
	walk(p)
	return
}

func (w *factoryWorld) one(st *State) VMap {
	r := w.registry(st, w.f)
	if len(r) != 1 {
		giveUp("the factory holds %d maps of creators", len(r))
	}
	return r[0]
}

// unknown makes the registry and whatever else the factory stores unknown.
func (w *factoryWorld) unknown(st *State) *Seq {
	seen := map[ObjID]bool{}
	var walk func(id ObjID)
	walk = func(id ObjID) {
		o := st.heap[id]
		v, ok := o.v.(VStruct)
		if !ok || seen[id] {
			return
		}
		seen[id] = true
		u := o.typ.Underlying().(*types.Struct)
		f := append([]Value(nil), v.F...)
		for i := range f {
			t := u.Field(i).Type()
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
				continue
			}
			switch x := f[i].(type) {
			case VMap:
				if x.Obj != 0 && !isCreatorMap(t) {
					giveUp("the factory holds a map %s", t)
				}
			case VPtr:
				if x.Obj != 0 {
					walk(x.Obj)
				}
			case VIface:
				l := symLin(newSym(u.Field(i).Name()))
				f[i] = VIface{Opq: &l, Tag: u.Field(i).Name()}
			default:
				f[i] = st.fresh(t, u.Field(i).Name())
			}
		}
		n := *o
		n.v = VStruct{f}
		st.heap[id] = &n
	}
	walk(w.f.Obj)
	m := w.one(st)
	b := newSeq("registry", nil)
	o := *st.heap[m.Obj]
	o.v = VMapC{base: b}
	st.heap[m.Obj] = &o
	return b
}

func (w *factoryWorld) install(e *Engine) {
	add := func(st *State, name string, v Value) {
		t, _ := st.ghost[name].(VTuple)
		st.ghost[name] = append(t[:len(t):len(t)], v)
	}
	e.onAcquire = func(st *State, l VPtr, excl bool) {
		b := w.unknown(st)
		st.ghost["open"] = VMapC{base: b}
	}
	e.onRelease = func(st *State, l VPtr, excl bool) {
		m := w.one(st)
		add(st, "secs", VTuple{st.ghost["open"], st.heap[m.Obj].v})
		delete(st.ghost, "open")
		w.unknown(st) // whatever it is from now on
	}
	held := func(st *State, m VMap, what, pos string, write bool) {
		r := w.one(st)
		if r.Obj != m.Obj && !isCreatorMap(st.heap[m.Obj].typ) {
			return
		}
		h := st.heldLocks()
		if len(h) == 0 {
			st.broken("%s: the registry is %s without its lock", pos, what)
		}
		if len(h) > 1 {
			giveUp("%s: several locks are held", pos)
		}
		t := h[0].(VTuple)
		if write && t[1].(VInt).L.c.int64() != 1 {
			st.broken("%s: the registry is %s under a shared lock", pos, what)
		}
		l := t[0].(VPtr)
		at := ""
		for _, x := range l.Path {
			at += vstrPath(x)
		}
		at = fmt.Sprint(l.Obj == w.f.Obj) + at
		if *w.lock == "" {
			*w.lock = at
		}
		if *w.lock != at {
			st.broken("%s: the registry is %s under another lock than elsewhere", pos, what)
		}
	}
	e.onMapRead = func(st *State, m VMap, pos string) { held(st, m, "read", pos, false) }
	e.onMapWrite = func(st *State, m VMap, pos string) { held(st, m, "changed", pos, true) }
	e.onStore = func(st *State, p VPtr, v Value) {
		if m, ok := v.(VMap); ok && p.Obj == w.f.Obj {
			held(st, m, "replaced", "store", true)
		}
	}
	e.invoke = func(c *callCtx, recv VIface, method string) (Value, bool) {
		st := c.st
		if method != "Create" || recv.Opq == nil {
			return nil, false
		}
		if len(st.heldLocks()) > 0 {
			st.broken("%s: a creator runs while the lock is held", c.pos)
		}
		r := symLin(newSym("created"))
		res := VIface{Opq: &r, Tag: "created"}
		add(st, "calls", VTuple{recv, c.args[0], res})
		return res, true
	}
}

type section struct {
	base *Seq
	log  []mapEnt
	in   int // 1: has the key, -1: has not, 0: not looked at
	val  Value
	bad  string
}

// sections lists the critical sections of a path with what it knows about key.
func (w *factoryWorld) sections(st *State, key Value, mt *types.Map) (r []section) {
	t, _ := st.ghost["secs"].(VTuple)
	for _, x := range t {
		pre, post := x.(VTuple)[0].(VMapC), x.(VTuple)[1].(VMapC)
		s := section{base: pre.base, log: post.log}
		if post.base != pre.base {
			s.bad = "the registry is replaced"
		}
		if f, ok := st.facts[fmt.Sprintf("in:%d:%s", pre.base.id, st.valKey(key))]; ok {
			s.in = -1
			if f {
				s.in = 1
				s.val, _ = st.mapBase(pre.base, key, mt)
			}
		}
		r = append(r, s)
	}
	return
}

// sets: the section leaves the registry as it was except that key has value v (nil: is absent).
func (s section) sets(st *State, key, v Value, kt types.Type) bool {
	if len(s.log) == 0 {
		return false
	}
	for _, x := range s.log {
		if !st.sameVal(x.key, key) {
			return false
		}
	}
	last := s.log[len(s.log)-1].val
	if v == nil || last == nil {
		return v == nil && last == nil
	}
	return st.sameVal(last, v)
}

func checkFactory(c *Ctx) {
	sp := c.pkg("factory")
	c.keepPtrs = true // what they point to is made unknown
	var lockS, lockI string
	type impl struct {
		name, ctor string
		add        func() *ssa.Function
		rem        func() *ssa.Function
		create     func() *ssa.Function
		lock       *string
		global     bool
	}
	fn := func(n string) func() *ssa.Function { return func() *ssa.Function { return c.fn(sp, n) } }
	impls := []impl{
		{"FactoryS", "NewFactoryS", fn("FactoryS.AddCreater"), fn("FactoryS.RemoveCreater"), fn("FactoryS.Create"), &lockS, false},
		{"FactoryI", "NewFactoryI", fn("FactoryI.AddCreater"), fn("FactoryI.RemoveCreater"), fn("FactoryI.Create"), &lockI, false},
		{"the shared factory", "", fn("AddCreater"), fn("RemoveCreater"), fn("Create"), &lockS, true},
	}
	for _, im := range impls {
		start := func() (*Engine, *State, *factoryWorld, []Value) {
			e := c.engine(sp)
			st := e.newState()
			w := &factoryWorld{c: c, lock: im.lock}
			var args []Value
			if im.global {
				w.f = sharedFactory(sp, st)
			} else {
				outs := e.Call(st, c.fn(sp, im.ctor), nil, nil, nil)
				if len(outs) != 1 || outs[0].pan != nil {
					giveUp("%s does not simply return", im.ctor)
				}
				st = outs[0].st
				p, ok := outs[0].ret[0].(VPtr)
				if !ok || p.Obj == 0 {
					giveUp("%s returns %s", im.ctor, vstr(outs[0].ret[0]))
				}
				w.f = p
				args = []Value{p}
			}
			w.install(e)
			w.unknown(st)
			return e, st, w, args
		}
		key := func(st *State, f *ssa.Function, recv int) Value {
			t := f.Signature.Params().At(0).Type()
			if isStringT(t) {
				return VStr{st.freshRope("name", byteT())}
			}
			return st.fresh(t, "number")
		}
		creator := func() VIface {
			l := symLin(newSym("creator"))
			return VIface{Opq: &l, Tag: "creator"}
		}
		mapT := func(w *factoryWorld, s *State) *types.Map {
			return s.heap[w.one(s).Obj].typ.Underlying().(*types.Map)
		}
		clean := func(s *State, secs []section, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			if len(s.heldLocks()) > 0 {
				return "returns with the lock held"
			}
			for _, x := range secs {
				if x.bad != "" {
					return x.bad
				}
			}
			return ""
		}
		some := func(secs []section, f func(x section) bool) bool {
			for _, x := range secs {
				if f(x) {
					return true
				}
			}
			return false
		}
		unchanged := func(secs []section) bool { return !some(secs, func(x section) bool { return len(x.log) > 0 }) }
		// only one section changes anything, and it does what set says
		changes := func(s *State, secs []section, in int, k, v Value) bool {
			n := 0
			good := false
			for _, x := range secs {
				if len(x.log) > 0 {
					n++
					good = x.in == in && x.sets(s, k, v, nil)
				}
			}
			return n == 1 && good
		}
		noCalls := func(s *State) bool { _, called := s.ghost["calls"]; return !called }
		for _, isNilC := range []bool{false, true} {
			c.oblige(fmt.Sprintf("%s: registering (nil creator: %v)", im.name, isNilC), func() {
				e, st, w, args := start()
				f := im.add()
				k := key(st, f, 0)
				cr := VIface{}
				if !isNilC {
					cr = creator()
				}
				c.run(e, st, f, append(args, k, cr), func(s *State, ret []Value, pan *progPanic) string {
					secs := w.sections(s, k, mapT(w, s))
					if m := clean(s, secs, pan); m != "" {
						return m
					}
					if !noCalls(s) {
						return "a creator runs"
					}
					if isNil(ret[0]) {
						if isNilC {
							return "registering nil reports success"
						}
						if !changes(s, secs, -1, k, cr) {
							return "reports success, but does not exactly add the free name in one critical section: " + secsStr(secs)
						}
						return ""
					}
					if !unchanged(secs) {
						return "reports an error after changing the registry: " + secsStr(secs)
					}
					if !isNilC && !some(secs, func(x section) bool { return x.in == 1 }) {
						return "reports an error although the name was not seen taken"
					}
					return ""
				})
			})
		}
		c.oblige(im.name+": removing", func() {
			e, st, w, args := start()
			f := im.rem()
			k := key(st, f, 0)
			c.run(e, st, f, append(args, k), func(s *State, ret []Value, pan *progPanic) string {
				secs := w.sections(s, k, mapT(w, s))
				if m := clean(s, secs, pan); m != "" {
					return m
				}
				if !noCalls(s) {
					return "a creator runs"
				}
				if isNil(ret[0]) {
					if !changes(s, secs, 1, k, nil) {
						return "reports success, but does not exactly remove the present name in one critical section: " + secsStr(secs)
					}
					return ""
				}
				if !unchanged(secs) {
					return "reports an error after changing the registry: " + secsStr(secs)
				}
				if !some(secs, func(x section) bool { return x.in == -1 }) {
					return "reports an error although the name was not seen absent"
				}
				return ""
			})
		})
		c.oblige(im.name+": creating", func() {
			e, st, w, args := start()
			f := im.create()
			k := key(st, f, 0)
			elem := f.Signature.Params().At(1).Type().(*types.Slice).Elem()
			for _, none := range []bool{false, true} {
				s0 := st.clone()
				var given Value = VSlice{}
				if !none {
					q := newSeq("argument", elem)
					n := s0.freshInt(types.Typ[types.Int], "arguments")
					s0.assume(n)
					s0.assume(K(1 << 40).Sub(n))
					given = s0.newSlice(elem, seqRope(q, K(0), n), "arguments")
				}
				want := Rope(nil)
				if g := given.(VSlice); g.Arr != 0 {
					want = s0.content(g)
				}
				c.run(e, s0, f, append(append([]Value{}, args...), k, given), func(s *State, ret []Value, pan *progPanic) string {
					secs := w.sections(s, k, mapT(w, s))
					if m := clean(s, secs, pan); m != "" {
						return m
					}
					if !unchanged(secs) {
						return "creating changes the registry"
					}
					calls, _ := s.ghost["calls"].(VTuple)
					if len(calls) == 0 {
						if !isNil(ret[0]) {
							return "returns " + vstr(ret[0]) + " without calling a creator"
						}
						if !some(secs, func(x section) bool { return x.in == -1 }) {
							return "calls no creator although the name was not seen absent"
						}
						return ""
					}
					if len(calls) > 1 {
						return fmt.Sprintf("calls creators %d times", len(calls))
					}
					call := calls[0].(VTuple)
					if !some(secs, func(x section) bool { return x.in == 1 && s.sameVal(x.val, call[0]) }) {
						return "the creator called is not the one registered for the name"
					}
					if !s.sameVal(ret[0], call[2]) {
						return "returns " + vstr(ret[0]) + ", not what the creator returned"
					}
					a, ok := call[1].(VSlice)
					if !ok {
						giveUp("arguments %s", vstr(call[1]))
					}
					var got Rope
					if a.Arr != 0 {
						got = s.content(a)
					}
					if !s.ropeEq(got, want) {
						return "the creator gets " + s.normRope(got).String() + ", expected " + s.normRope(want).String()
					}
					return ""
				})
			}
		})
		if !im.global {
			c.oblige(im.ctor+": a new empty registry", func() {
				e := c.engine(sp)
				st := e.newState()
				w := &factoryWorld{c: c}
				old := e.objCount
				c.run(e, st, c.fn(sp, im.ctor), nil, func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					p, ok := ret[0].(VPtr)
					if !ok || p.Obj <= old {
						return "returns " + vstr(ret[0])
					}
					w.f = p
					m := w.one(s)
					if m.Obj <= old {
						return "two factories share their registry"
					}
					if k := s.mapC(m); k.base != nil || len(k.log) > 0 {
						return "the registry is not empty: " + k.String()
					}
					return ""
				})
			})
		}
	}
}

func secsStr(secs []section) string {
	var p []string
	for _, x := range secs {
		p = append(p, fmt.Sprintf("(has the name: %d, changes: %v)", x.in, VMapC{log: x.log}))
	}
	return "[" + strings.Join(p, " ") + "]"
}

// sharedFactory is the factory the package-level functions use: the only package
// variable that points to one.
func sharedFactory(sp *ssa.Package, st *State) VPtr {
	var found []VPtr
	for _, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		t := g.Type().(*types.Pointer).Elem()
		if types.Identical(t, types.NewPointer(sp.Type("FactoryS").Type())) {
			if p, ok := st.load(st.val(g)).(VPtr); ok && p.Obj != 0 {
				found = append(found, p)
			}
		} else if types.Identical(t, sp.Type("FactoryS").Type()) {
			found = append(found, st.val(g).(VPtr))
		}
	}
	if len(found) != 1 {
		giveUp("%d shared factories", len(found))
	}
	return found[0]
}
