package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C21"] = &propCheck{run: checkDebug, minObl: 14}
}

// frameWorld: frames are numbered outward from the analysed function (0), its caller
// is 1; the outermost frame has the unknown number h. What the run-time reports about
// frame j is a function of j.
type frameWorld struct {
	h       Lin
	raw, pc *Seq // return addresses and frame program counters by frame
	list    int  // longest list
}

// number picks one expression among those equal on this path.
func (w *frameWorld) number(st *State, j Lin) Lin {
	return symDefOf(st.appSym(w.pc, j)).args[0]
}

func (w *frameWorld) text(st *State, what string, j Lin) VStr {
	j = w.number(st, j)
	return st.fnStr("frame "+what+":"+j.key(), what+"("+j.String()+")")
}

func (w *frameWorld) line(st *State, j Lin) Lin {
	j = w.number(st, j)
	s, _ := defSym("frame line:"+j.key(), "line("+j.String()+")", &symDef{op: "fn", tag: "line " + j.key()})
	l := symLin(s)
	st.assume(l)
	st.assume(K(1 << 31).Sub(l))
	return l
}

func (w *frameWorld) frame(st *State, t types.Type, j Lin) Value {
	v := st.eng.zero(t).(VStruct)
	f := append([]Value(nil), v.F...)
	u := t.Underlying().(*types.Struct)
	for i := range f {
		switch u.Field(i).Name() {
		case "PC":
			f[i] = st.seqElem(w.pc, j)
		case "Function":
			f[i] = w.text(st, "function", j)
		case "File":
			f[i] = w.text(st, "file", j)
		case "Line":
			f[i] = VInt{w.line(st, j)}
		case "Func":
			f[i] = VOpq{w.funcOf(st, j), "Func"}
		default:
			f[i] = VJunk{}
		}
	}
	return VStruct{f}
}

func (w *frameWorld) funcOf(st *State, j Lin) Lin {
	j = w.number(st, j)
	s, _ := defSym("frame func:"+j.key(), "func("+j.String()+")", &symDef{op: "framefn", args: []Lin{j}})
	return symLin(s)
}

// frameOf: the frame a program counter belongs to.
func (w *frameWorld) frameOf(st *State, pc Lin) (Lin, bool) {
	for _, x := range []struct {
		q *Seq
		k int64
	}{{w.pc, 0}, {w.raw, 1}} {
		if s, ok := st.c.norm(pc.AddK(x.k)).onlySym(); ok {
			if d := symDefOf(s); d != nil && d.op == "app" && d.seq == x.q {
				return d.args[0], true
			}
		}
	}
	return Lin{}, false
}

func (w *frameWorld) install(e *Engine) {
	// skip counts from the function that calls the run-time
	level := func(c *callCtx, skip Lin) Lin { return skip.AddK(-int64(len(c.st.frames) - 1)) }
	e.models["runtime.Caller"] = func(c *callCtx) Value {
		st := c.st
		skip := c.args[0].(VInt).L
		j := level(c, skip)
		if !st.cond(skip) {
			giveUp("%s: negative skip", c.pos)
		}
		if !st.cond(w.h.Sub(j)) {
			return VTuple{VInt{K(0)}, VStr{}, VInt{K(0)}, VBool(false)}
		}
		return VTuple{st.seqElem(w.pc, j), w.text(st, "file", j), VInt{w.line(st, j)}, VBool(true)}
	}
	e.models["runtime.FuncForPC"] = func(c *callCtx) Value {
		if j, ok := w.frameOf(c.st, c.args[0].(VInt).L); ok {
			return VOpq{w.funcOf(c.st, j), "Func"}
		}
		return VOpq{symLin(newSym("func of another address")), "Func"}
	}
	e.models["(*runtime.Func).Name"] = func(c *callCtx) Value {
		o, ok := c.args[0].(VOpq)
		if !ok {
			giveUp("%s: name of %s", c.pos, vstr(c.args[0]))
		}
		if s, ok := c.st.c.norm(o.L).onlySym(); ok {
			if d := symDefOf(s); d != nil && d.op == "framefn" {
				return w.text(c.st, "function", d.args[0])
			}
		}
		return VStr{c.st.freshRope("name of another function", byteT())}
	}
	e.models["runtime.Callers"] = func(c *callCtx) Value {
		st := c.st
		skip := c.args[0].(VInt).L
		j := level(c, skip.AddK(-1))
		if !st.cond(skip) {
			giveUp("%s: negative skip", c.pos)
		}
		s := c.args[1].(VSlice)
		size := st.c.norm(s.Len)
		if !size.isK() || size.c.int64() > 200 {
			giveUp("%s: buffer of %s program counters", c.pos, size)
		}
		n := K(0)
		switch avail := w.h.Sub(j).AddK(1); {
		case !st.cond(avail.AddK(-1)):
			return VInt{n}
		case st.cond(avail.Sub(size)):
			n = size
		default:
			n = avail
		}
		st.spliceArr(s, s.Off, seqRope(w.raw, j, n))
		return VInt{n}
	}
	e.models["runtime.CallersFrames"] = func(c *callCtx) Value {
		st := c.st
		s := c.args[0].(VSlice)
		start, n := K(0), K(0)
		if s.Arr != 0 {
			r := st.normRope(st.content(s))
			l := st.c.norm(ropeLen(r))
			if st.cond(l.AddK(-1)) {
				n = l
				// a single counter is an element of the sequence
				if len(r) == 1 && r[0].kind == pConst {
					v, _ := valLin(r[0].val)
					if y, ok := st.c.norm(v).onlySym(); ok {
						if d := symDefOf(y); d != nil && d.op == "app" && d.seq == w.raw {
							r = seqRope(w.raw, d.args[0], K(1))
						}
					}
				}
				if len(r) != 1 || r[0].kind != pSeq || r[0].seq != w.raw || r[0].dir != 1 {
					giveUp("%s: frames of %s", c.pos, r)
				}
				start = r[0].start
			}
		}
		id := st.newObj(types.Typ[types.Int], VTuple{VInt{start}, VInt{n}}, "frames")
		return VPtr{Obj: id}
	}
	e.models["(*runtime.Frames).Next"] = func(c *callCtx) Value {
		st := c.st
		p := st.resolve(c.args[0])
		t := st.heap[p.Obj].v.(VTuple)
		left := st.c.norm(t[1].(VInt).L)
		ft := c.sig.Results().At(0).Type()
		if !st.cond(left.AddK(-1)) {
			return VTuple{st.eng.zero(ft), VBool(false)}
		}
		j := t[0].(VInt).L
		st.store(VPtr{Obj: p.Obj}, VTuple{VInt{j.AddK(1)}, VInt{left.AddK(-1)}})
		return VTuple{w.frame(st, ft, j), VBool(st.cond(left.AddK(-2)))}
	}
}

func checkDebug(c *Ctx) {
	sp := c.pkg("debug")
	start := func() (*Engine, *State, *frameWorld) {
		e := c.engine(sp)
		e.exactCap = true // texts and a list of immutable texts
		e.unroll, e.maxPeel, e.maxPeelStates = 64, 400, 1<<20
		st := e.newState()
		w := &frameWorld{h: symLin(newSym("outermost frame")), list: 50}
		w.raw, w.pc = newSeq("return address", types.Typ[types.Uintptr]), newSeq("pc", types.Typ[types.Uintptr])
		w.raw.fixed, w.pc.fixed = true, true
		st.assume(w.h.AddK(-1))
		st.assume(K(1 << 40).Sub(w.h))
		w.install(e)
		return e, st, w
	}
	num := func(st *State, verb string, v Value) Rope {
		r, ok := st.format(verb, []Value{VIface{Dyn: types.Typ[types.Uintptr], V: v}})
		if !ok {
			giveUp("format")
		}
		return r
	}
	cat := func(st *State, parts ...any) Rope {
		var r Rope
		for _, p := range parts {
			switch p := p.(type) {
			case string:
				r = append(r, strRope(p)...)
			case VStr:
				r = append(r, p.R...)
			case Rope:
				r = append(r, p...)
			}
		}
		return st.normRope(r)
	}
	info := func(w *frameWorld, s *State, kind int, head Rope, j Lin) Rope {
		if !s.cond(w.h.Sub(j)) {
			return nil
		}
		fn := w.text(s, "function", j)
		file, line := w.text(s, "file", j), num(s, "%d", VInt{w.line(s, j)})
		switch kind {
		case 1:
			return cat(s, head, " FileLine{", file, " : ", line, "}")
		case 2:
			return cat(s, head, " Func{", fn, "}")
		}
		return cat(s, head, " Func{", fn, "} FileLine{", file, " : ", line, "} pc{", num(s, "%X", s.seqElem(w.pc, j)), "}")
	}
	same := func(s *State, v Value, want Rope) string {
		g, ok := v.(VStr)
		if !ok || !s.ropeEq(g.R, want) {
			return "the report is " + vstr(v) + ", expected " + s.normRope(want).String()
		}
		return ""
	}
	for _, x := range []struct {
		n      string
		kind   int
		caller bool
	}{{"Bt", 3, false}, {"BtFileLine", 1, false}, {"BtFunc", 2, false}, {"Caller", 3, true}, {"CallerFileLine", 1, true}, {"CallerFunc", 2, true}} {
		c.oblige(x.n+": every stack", func() {
			e, st, w := start()
			fn := c.fn(sp, x.n)
			var args []Value
			j, head := K(1), strRope("")
			if x.caller {
				d := st.freshInt(types.Typ[types.Int], "depth")
				st.assume(d)
				st.assume(K(1 << 40).Sub(d))
				args = []Value{VInt{d}}
				j, head = d.AddK(2), strRope("Caller:")
			}
			c.run(e, st, fn, args, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				return same(s, ret[0], info(w, s, x.kind, head, j))
			})
		})
	}
	// the form numbers are read off the declarations' uses by the functions above
	for kind, by := range map[int]string{1: "BtFileLine", 2: "BtFunc", 3: "Bt"} {
		c.oblige("CallStackInfo: form of "+by, func() {
			e, st, w := start()
			fn := c.fn(sp, "CallStackInfo")
			form, ok := constArg(c.fn(sp, by), fn, 1)
			if !ok {
				return // the form is not passed as a constant; the functions above are judged directly
			}
			d := st.freshInt(types.Typ[types.Int], "depth")
			st.assume(d)
			st.assume(K(1 << 40).Sub(d))
			head := VStr{st.freshRope("head", byteT())}
			c.run(e, st, fn, []Value{VInt{d}, VInt{K(form)}, head}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				return same(s, ret[0], info(w, s, kind, head.R, d))
			})
		})
	}
	c.oblige("CallStackInfo: any form", func() {
		e, st, w := start()
		fn := c.fn(sp, "CallStackInfo")
		d := st.freshInt(types.Typ[types.Int], "depth")
		st.assume(d)
		st.assume(K(1 << 40).Sub(d))
		head := VStr{st.freshRope("head", byteT())}
		form := st.fresh(fn.Signature.Params().At(1).Type(), "form")
		c.run(e, st, fn, []Value{VInt{d}, form, head}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			for k := 1; k <= 3; k++ {
				if same(s, ret[0], info(w, s, k, head.R, d)) == "" {
					return ""
				}
			}
			return "the report has none of the three forms: " + vstr(ret[0])
		})
	})
	// number of frames listed when the outermost is h and the first is j
	count := func(w *frameWorld, s *State, j Lin) int64 {
		n := int64(0)
		for ; n < int64(w.list) && s.cond(w.h.Sub(j).AddK(-n)); n++ {
		}
		return n
	}
	listing := func(s *State, w *frameWorld, first int64) Rope {
		var want Rope
		for i, n := int64(0), count(w, s, K(first)); i < n; i++ {
			j := K(first + i)
			want = append(want, cat(s, "#", num(s, "%d", VInt{K(i)}), " Func{", w.text(s, "function", j), "} File{", w.text(s, "file", j), " : ", num(s, "%d", VInt{w.line(s, j)}),
				"} pc{", num(s, "%X", s.seqElem(w.pc, j)), "}\n")...)
		}
		return want
	}
	c.oblige("Bts: every stack", func() {
		e, st, w := start()
		c.run(e, st, c.fn(sp, "Bts"), nil, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			return same(s, ret[0], listing(s, w, 1))
		})
	})
	c.oblige("Assert: every stack", func() {
		for _, b := range []bool{true, false} {
			e, st, w := start()
			c.run(e, st, c.fn(sp, "Assert"), []Value{VBool(b)}, func(s *State, ret []Value, pan *progPanic) string {
				if b {
					if pan != nil {
						return panMsg(pan)
					}
					if v, ok := ret[0].(VBool); !ok || !bool(v) {
						return "a true assertion returns " + vstr(ret[0])
					}
					return ""
				}
				if pan == nil {
					return "a false assertion returns"
				}
				v, ok := pan.val.(VIface)
				if !ok || !isStringT(v.Dyn) {
					return "a false assertion panics with " + vstr(pan.val)
				}
				return same(s, v.V, cat(s, "Assert fail\n", listing(s, w, 0)))
			})
		}
	})
	c.oblige("CallStackList: every stack and depth", func() {
		e, st, w := start()
		d := st.freshInt(types.Typ[types.Int], "depth")
		st.assume(d.AddK(-1))
		st.assume(K(1 << 40).Sub(d))
		c.run(e, st, c.fn(sp, "CallStackList"), []Value{VInt{d}}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			j := d.AddK(-1)
			n := count(w, s, j)
			l, ok := ret[0].(VSlice)
			if !ok || !s.c.entailsEq(l.Len.AddK(-n)) {
				return fmt.Sprintf("the list has %s entries, expected %d", vstr(ret[0]), n)
			}
			if n == 0 {
				return ""
			}
			for i, v := range s.sliceVals(l) {
				x, isS := v.(VStr)
				if !isS {
					return "an entry is " + vstr(v)
				}
				k := j.AddK(int64(i))
				want := cat(s, "Func{", w.text(s, "function", k), "} FileLine{", w.text(s, "file", k), " : ", num(s, "%d", VInt{w.line(s, k)}), "} pc{", num(s, "%X", s.seqElem(w.pc, k)), "}")
				if m := same(s, x, want); m != "" {
					return m
				}
			}
			return ""
		})
	})
}

// constArg finds the constant that fn passes as argument i of callee.
func constArg(fn, callee *ssa.Function, i int) (int64, bool) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Call); ok && x.Call.StaticCallee() == callee && i < len(x.Call.Args) {
				if k, ok := x.Call.Args[i].(*ssa.Const); ok && k.Value != nil {
					return k.Int64(), true
				}
			}
		}
	}
	return 0, false
}
