package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C34"] = &propCheck{run: checkErrors, minObl: 16}
}

const (
	errFirst = 1001 // the first id
	errLast  = 9999
)

// errReg: where the package keeps the names and the last id.
type errReg struct {
	list, last *ssa.Global
}

func findErrReg(e *Engine, sp *ssa.Package) (r errReg) {
	seen := map[*ssa.Global]bool{}
	for _, a := range e.flow.acc {
		if !a.write || a.g.Pkg != sp || seen[a.g] || !a.directly() {
			continue
		}
		seen[a.g] = true
		t := a.g.Type().(*types.Pointer).Elem()
		if s, ok := t.Underlying().(*types.Slice); ok && isString(s.Elem()) {
			if r.list != nil {
				giveUp("more than one list of names")
			}
			r.list = a.g
		} else if isInt(t) {
			if r.last != nil {
				giveUp("more than one counter")
			}
			r.last = a.g
		} else if _, ok := t.Underlying().(*types.Struct); !ok { // a lock
			giveUp("state in %s", a.g)
		}
	}
	if r.list == nil {
		giveUp("the list of names was not found")
	}
	return
}

func checkErrors(c *Ctx) {
	sp := c.pkg("errors")
	start := func() (*Engine, *State, errReg) {
		e := c.engine(sp)
		e.invoke = func(c *callCtx, recv VIface, m string) (Value, bool) { // an error made by the package
			if recv.Tag != "error" || m != "Error" || recv.Opq == nil {
				return nil, false
			}
			return c.st.fnStr("text of error:"+c.st.c.norm(*recv.Opq).key(), "text of error"), true
		}
		return e, e.newState(), findErrReg(e, sp)
	}
	// arbitrary: some names before, this one, some after
	arbitrary := func(e *Engine, st *State, r errReg) (name VStr, id, n Lin) {
		str := types.Typ[types.String]
		a, b := st.freshRope("names before", str), st.freshRope("names after", str)
		name = VStr{st.fnStr("name", "name").R}
		all := append(append(append(Rope{}, a...), Piece{kind: pConst, val: name, n: K(1)}), b...)
		n = ropeLen(all)
		st.assume(K(errLast - errFirst + 1).Sub(n))
		st.store(VPtr{Obj: e.global(st, r.list)}, st.newSlice(str, all, "names"))
		if r.last != nil {
			st.store(VPtr{Obj: e.global(st, r.last)}, VInt{n.AddK(errFirst - 1)})
		}
		return name, ropeLen(a).AddK(errFirst), n
	}
	holds := func(e *Engine, s *State, r errReg, names Rope) string {
		l, ok := s.load(VPtr{Obj: e.global(s, r.list)}).(VSlice)
		if !ok {
			return "the list of names is gone"
		}
		if !s.ropeEq(s.content(l), names) {
			return "the names are " + s.normRope(s.content(l)).String() + " instead of " + s.normRope(names).String()
		}
		if r.last == nil {
			return ""
		}
		return wantInt(s, s.load(VPtr{Obj: e.global(s, r.last)}), ropeLen(names).AddK(errFirst-1), "the last id")
	}
	one := func(e *Engine, s *State, fn *ssa.Function, args ...Value) (*State, []Value) {
		o := e.Call(s, fn, args, nil, nil)
		if len(o) != 1 || o[0].pan != nil {
			giveUp("%s does not end in exactly one way", fn)
		}
		return o[0].st, o[0].ret
	}
	get := func() *ssa.Function { return c.fn(sp, "errId.Get") }
	// what initialisation leaves
	for _, x := range []struct{ id, name string }{{"ERRID_UNKNOWN", "unknown error"}, {"ERRID_STD", "standard error"}} {
		x := x
		c.oblige("initially "+x.id+" is the "+x.name, func() {
			c.setup = func(e *Engine) {
				e.keep = map[string]bool{}
				for n, m := range sp.Members {
					if _, ok := m.(*ssa.Global); ok {
						e.keep[n] = true
					}
				}
			}
			defer func() { c.setup = nil }()
			e, st, r := start()
			names := Rope{{kind: pConst, val: VStr{strRope("unknown error")}, n: K(1)}, {kind: pConst, val: VStr{strRope("standard error")}, n: K(1)}}
			if m := initialNames(e, st, r, names); m != "" {
				c.fail("%s: %s", sp.Pkg.Path(), m)
			}
			var id Value
			if g, ok := sp.Members[x.id].(*ssa.Global); ok {
				id = st.load(VPtr{Obj: e.global(st, g)})
			} else {
				id, _ = constOf(sp, x.id)
			}
			c.run(e, st, get(), []Value{id}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				return and(s.wantBytes(ret[0], strRope(x.name), "the name"), wantNilErr(ret[1]))
			})
		})
	}
	c.oblige("Reg: the next id, with the name", func() {
		fn := c.fn(sp, "Reg")
		e, st, r := start()
		_, _, n := arbitrary(e, st, r)
		before := st.content(st.load(VPtr{Obj: e.global(st, r.list)}).(VSlice))
		st.assume(K(errLast - errFirst).Sub(n))
		name := VStr{st.fnStr("new", "new name").R}
		c.run(e, st, fn, []Value{name}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			all := append(append(Rope{}, before...), Piece{kind: pConst, val: name, n: K(1)})
			if m := and(wantInt(s, ret[0], n.AddK(errFirst), "the id"), wantNilErr(ret[1]), holds(e, s, r, all)); m != "" {
				return m
			}
			s2, g := one(e, s, get(), ret[0])
			return and(s2.wantBytes(g[0], name.R, "the name of the new id"), wantNilErr(g[1]))
		})
	})
	c.oblige("Reg: all ids taken", func() {
		fn := c.fn(sp, "Reg")
		e, st, r := start()
		_, _, n := arbitrary(e, st, r)
		before := st.content(st.load(VPtr{Obj: e.global(st, r.list)}).(VSlice))
		st.assumeEq(n.AddK(-(errLast - errFirst + 1)))
		e.models[sp.Pkg.Path()[:len(sp.Pkg.Path())-len("errors")]+"debug.Caller"] = func(c *callCtx) Value { return VStr{c.st.freshRope("caller", byteT())} }
		c.run(e, st, fn, []Value{VStr{st.fnStr("new", "new name").R}}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			if !isErr(ret[1]) {
				return "reports no error although all ids are taken"
			}
			id := ret[0].(VInt).L
			if s.cond(id.AddK(-errFirst)) && s.cond(K(errLast).Sub(id)) {
				return "returns an id that belongs to another error"
			}
			return holds(e, s, r, before)
		})
	})
	c.oblige("Get: the registered name", func() {
		e, st, r := start()
		name, id, _ := arbitrary(e, st, r)
		before := st.content(st.load(VPtr{Obj: e.global(st, r.list)}).(VSlice))
		c.run(e, st, get(), []Value{VInt{id}}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			return and(s.wantBytes(ret[0], name.R, "the name"), wantNilErr(ret[1]), holds(e, s, r, before))
		})
	})
	outside := func(st *State, n Lin, t types.Type) VInt {
		id := st.fresh(t, "id").(VInt)
		if st.choose(2) == 1 {
			st.assume(K(errFirst - 1).Sub(id.L))
		} else {
			st.assume(id.L.Sub(n).AddK(-errFirst))
		}
		return id
	}
	idT := func() types.Type { return get().Params[0].Type() }
	c.oblige("Get: any other id", func() {
		e, st0, r := start()
		for _, f := range e.fork(st0, func(st *State) Value {
			_, _, n := arbitrary(e, st, r)
			return outside(st, n, idT())
		}) {
			before := f.st.content(f.st.load(VPtr{Obj: e.global(f.st, r.list)}).(VSlice))
			c.run(e, f.st, get(), []Value{f.v.(Value)}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if !isErr(ret[1]) {
					return "reports no error"
				}
				return and(s.wantBytes(ret[0], nil, "the name"), holds(e, s, r, before))
			})
		}
	})
	text := func(s *State, f string, vals ...Value) Rope {
		r, ok := s.format(f, vals)
		if !ok {
			giveUp("analysis: text %q", f)
		}
		return r
	}
	show := func(s *State, id Lin, name VStr) Rope {
		return text(s, "error#%d (%s)", VIface{Dyn: idT(), V: VInt{id}}, VIface{Dyn: types.Typ[types.String], V: name})
	}
	c.oblige("String: number and name", func() {
		fn := c.fn(sp, "errId.String")
		e, st, r := start()
		name, id, _ := arbitrary(e, st, r)
		c.run(e, st, fn, []Value{VInt{id}}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			return s.wantBytes(ret[0], show(s, id, name), "the text")
		})
	})
	method := func(e *Engine, s *State, err Value, name string) (*State, Value) {
		i, ok := err.(VIface)
		if !ok || i.Dyn == nil {
			giveUp("the error is %s", vstr(err))
		}
		fn, _ := e.method(i.Dyn, name)
		if fn == nil {
			giveUp("no method %s", name)
		}
		s2, ret := one(e, s, fn, i.V)
		return s2, ret[0]
	}
	// errors made from an id
	for _, x := range []string{"New", "Newf", "StdErr"} {
		x := x
		c.oblige(x+": has the id, the name and the text", func() {
			fn := c.fn(sp, x)
			e, st, r := start()
			name, id, _ := arbitrary(e, st, r)
			var args []Value
			var tail func(s *State) Rope
			switch x {
			case "New":
				args = []Value{VInt{id}}
				tail = func(*State) Rope { return nil }
			case "Newf":
				f := VStr{st.fnStr("format", "format").R}
				para := st.newSlice(fn.Params[2].Type().Underlying().(*types.Slice).Elem(), st.freshRope("parameters", fn.Params[2].Type().Underlying().(*types.Slice).Elem()), "parameters")
				args = []Value{VInt{id}, f, para}
				tail = func(s *State) Rope {
					return append(strRope(": "), s.fnStr("Sprintf:"+s.ropeKey(f.R)+":"+s.deepKey(para), "Sprintf").R...)
				}
			case "StdErr":
				g, ok := sp.Members["ERRID_STD"].(*ssa.Global)
				if !ok {
					giveUp("ERRID_STD not found")
				}
				v, ok := st.load(VPtr{Obj: e.global(st, g)}).(VInt)
				if !ok {
					giveUp("ERRID_STD has no value")
				}
				st.assumeEq(v.L.Sub(id))
				t := st.fnStr("error text", "error text")
				l := symLin(newSym("error"))
				e.invoke = func(c *callCtx, recv VIface, m string) (Value, bool) {
					return t, recv.Tag == "given error" && m == "Error"
				}
				args = []Value{VIface{Opq: &l, Tag: "given error"}}
				tail = func(*State) Rope { return append(strRope(": "), t.R...) }
			}
			c.run(e, st, fn, args, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				s2, i := method(e, s, ret[0], "Id")
				if m := wantInt(s2, i, id, "the id"); m != "" {
					return m
				}
				s2, t := method(e, s2, ret[0], "Error")
				return s2.wantBytes(t, append(append(Rope{}, show(s2, id, name)...), tail(s2)...), "the text")
			})
		})
	}
	c.oblige("an error with another id has a text", func() {
		fn := c.fn(sp, "New")
		e, st0, r := start()
		for _, f := range e.fork(st0, func(st *State) Value {
			_, _, n := arbitrary(e, st, r)
			return outside(st, n, idT())
		}) {
			c.run(e, f.st, fn, []Value{f.v.(Value)}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				s2, i := method(e, s, ret[0], "Id")
				if m := wantInt(s2, i, f.v.(VInt).L, "the id"); m != "" {
					return m
				}
				i2 := ret[0].(VIface)
				fe, _ := e.method(i2.Dyn, "Error")
				for _, o := range e.Call(s2, fe, []Value{i2.V}, nil, nil) {
					if o.pan != nil {
						return panMsg(o.pan)
					}
				}
				return ""
			})
		}
	})
	for _, n := range []int{1, 2, 3, 5} {
		n := n
		c.oblige(fmt.Sprintf("ShowAll: the number and every one of %d errors", n), func() {
			fn := c.fn(sp, "ShowAll")
			e, st, r := start()
			var all Rope
			var names []VStr
			for i := 0; i < n; i++ {
				names = append(names, VStr{st.fnStr(fmt.Sprint("name ", i), "name").R})
				all = append(all, Piece{kind: pConst, val: names[i], n: K(1)})
			}
			st.store(VPtr{Obj: e.global(st, r.list)}, st.newSlice(types.Typ[types.String], all, "names"))
			if r.last != nil {
				st.store(VPtr{Obj: e.global(st, r.last)}, VInt{K(int64(errFirst - 1 + n))})
			}
			c.run(e, st, fn, nil, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				k, ok := c.pkg("consts").Pkg.Scope().Lookup("NewLine").(*types.Const)
				if !ok || k.Val().Kind() != constant.String {
					giveUp("constant consts.NewLine not found")
				}
				nl := strRope(constant.StringVal(k.Val()))
				want := strRope(fmt.Sprintf("[errors] Count:%d", n))
				for i := range names {
					want = append(append(want, nl...), show(s, K(int64(errFirst+i)), names[i])...)
				}
				return and(s.wantBytes(ret[0], want, "the list"), holds(e, s, r, all))
			})
		})
	}
}

func initialNames(e *Engine, st *State, r errReg, names Rope) string {
	l, ok := st.load(VPtr{Obj: e.global(st, r.list)}).(VSlice)
	if !ok {
		return "there is no list of names after initialisation"
	}
	got := st.normRope(st.content(l))
	if !st.c.entailsEq(ropeLen(got).Sub(ropeLen(names))) {
		return "initialisation leaves " + got.String()
	}
	for i := int64(0); i < 2; i++ {
		a, ok1 := st.read(got, K(i)).(VStr)
		b := st.read(names, K(i)).(VStr)
		if !ok1 || st.ropeKey(a.R) != st.ropeKey(b.R) {
			return fmt.Sprintf("the name %d after initialisation is %s", i, vstr(st.read(got, K(i))))
		}
	}
	return ""
}
