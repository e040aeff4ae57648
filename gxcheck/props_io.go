package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C17"] = &propCheck{run: checkCopys, minObl: 6}
}

// copyWorld: the source delivers the bytes of one endless sequence in reads of any
// size; one arbitrary destination (index k) is watched. Ghost variables:
//
//	read   bytes read so far         base   bytes read before the last read
//	got    bytes the watched destination accepted
//	seen   the watched destination was offered the bytes of the last read
//	rerr   error of the last read    stop   error that must end the copy
//
// A broken rule ends the path like a panic.
type copyWorld struct {
	src   *Seq
	dsts  *Seq
	n, k  Lin
	eofV  Value
	short Value
}

func (st *State) gl(name string) Lin { return st.ghost[name].(VInt).L }

// broken ends the path with a violation.
func (st *State) broken(format string, a ...any) {
	st.raise(fmt.Sprintf(format, a...))
}

func isTag(v VIface, tag string) bool { return v.Opq != nil && v.Tag == tag }

func (w *copyWorld) index(st *State, v VIface) (Lin, bool) {
	if v.Opq == nil {
		return Lin{}, false
	}
	s, ok := st.c.norm(*v.Opq).onlySym()
	if !ok {
		return Lin{}, false
	}
	d := symDefOf(s)
	if d == nil || d.op != "app" || d.seq != w.dsts {
		return Lin{}, false
	}
	return d.args[0], true
}

func (w *copyWorld) install(e *Engine) {
	flag := func(st *State, n string) bool { b, _ := st.ghost[n].(VBool); return bool(b) }
	e.invoke = func(c *callCtx, recv VIface, method string) (Value, bool) {
		st := c.st
		over := func(what string) {
			if _, ok := st.ghost["stop"]; ok {
				st.broken("%s: %s after a failed or short write", c.pos, what)
			}
			if flag(st, "handed") {
				st.broken("%s: %s after the copy was handed over to the source or the destination", c.pos, what)
			}
		}
		switch {
		case method == "Read" && isTag(recv, "src"):
			over("a read")
			buf, ok := c.args[0].(VSlice)
			if !ok {
				return nil, false
			}
			if r, ok := st.ghost["rerr"]; ok && !isNil(r) {
				st.broken("%s: a read after the source reported %s", c.pos, vstr(r))
			}
			n := st.freshInt(types.Typ[types.Int], "n")
			st.assume(n)
			st.assume(buf.Len.Sub(n))
			at := st.gl("read")
			st.assume(K(1 << 62).Sub(at.Add(n)))
			if buf.Arr != 0 {
				st.spliceArr(buf, buf.Off, append(seqRope(w.src, at, n), Piece{n: buf.Len.Sub(n), kind: pJunk}))
			}
			if !flag(st, "seen") && !st.c.entailsEq(st.gl("read").Sub(st.gl("base"))) {
				st.broken("%s: the next read begins before the destination was offered the last bytes", c.pos)
			}
			st.ghost["base"] = VInt{at}
			st.ghost["read"] = VInt{at.Add(n)}
			st.ghost["seen"] = VBool(st.condEq(n, K(0)))
			var er Value = VIface{}
			switch st.choose(3) {
			case 1:
				er = w.eofV
			case 2:
				er = st.newErr("read error")
			}
			st.ghost["rerr"] = er
			return VTuple{VInt{n}, er}, true
		case method == "Write":
			i, ok := w.index(st, recv)
			if !ok {
				return nil, false
			}
			over("a write")
			p := st.bytesOf(c.args[0])
			n := ropeLen(p)
			nw := st.freshInt(types.Typ[types.Int], "nw")
			st.assume(nw)
			st.assume(n.Sub(nw))
			var ew Value = VIface{}
			if st.choose(2) == 1 {
				ew = st.newErr("write error")
				st.ghost["stop"] = ew
			} else if !st.condEq(nw, n) {
				st.ghost["stop"] = w.short
			}
			if st.condEq(i, w.k) {
				got := st.gl("got")
				switch {
				case !st.ropeEq(p, seqRope(w.src, got, n)):
					st.broken("%s: a destination that has accepted %s bytes is offered %s", c.pos, got, st.normRope(p))
				}
				st.ghost["got"] = VInt{got.Add(nw)}
				if st.condEq(got.Add(n), st.gl("read")) {
					st.ghost["seen"] = VBool(true)
				}
			}
			return VTuple{VInt{nw}, ew}, true
		case method == "WriteTo" && isTag(recv, "src"), method == "ReadFrom":
			to := c.args[0]
			if method == "ReadFrom" {
				if x, ok := to.(VIface); !ok || !isTag(x, "src") {
					st.broken("%s: a destination reads from something other than the source", c.pos)
				}
				to = recv
			}
			return w.hand(c, to), true
		}
		return nil, false
	}
	for _, n := range []string{"io.Copy", "io.CopyBuffer"} {
		e.models[n] = func(c *callCtx) Value {
			if x, ok := c.args[1].(VIface); !ok || !isTag(x, "src") {
				giveUp("%s: %s of something other than the source", c.pos, n)
			}
			if b, ok := c.args[len(c.args)-1].(VSlice); ok && b.Arr != 0 && c.st.condEq(b.Len, K(0)) {
				c.st.raise("empty buffer in CopyBuffer")
			}
			return w.hand(c, c.args[0])
		}
	}
}

// hand: the copy is left to one destination alone.
func (w *copyWorld) hand(c *callCtx, to Value) Value {
	st := c.st
	i, ok := VIface{}, false
	if i, ok = to.(VIface); !ok {
		giveUp("%s: copy to %s", c.pos, vstr(to))
	}
	idx, ok := w.index(st, i)
	if !ok {
		giveUp("%s: copy to %s", c.pos, vstr(to))
	}
	if !st.c.entailsEq(w.n.AddK(-1)) || !st.c.entailsEq(idx) {
		st.broken("%s: with other destinations present, the copy feeds only one of them", c.pos)
	}
	if !st.c.entailsEq(st.gl("read")) {
		st.broken("%s: the copy is handed over after bytes were read", c.pos)
	}
	st.ghost["handed"] = VBool(true)
	n := st.fresh(types.Typ[types.Int64], "copied")
	var er Value = VIface{}
	if st.choose(2) == 1 {
		er = st.newErr("copy error")
	}
	st.ghost["hn"], st.ghost["he"] = n, er
	return VTuple{n, er}
}

func checkCopys(c *Ctx) {
	sp := c.pkg("io")
	one := func(fn *ssa.Function, what string, prep func(st *State, w *copyWorld), buf func(st *State) Value) {
		c.oblige(fn.Name()+": "+what, func() {
			e := c.engine(sp)
			st := e.newState()
			w := &copyWorld{}
			ioGlob := func(n string) Value {
				for _, imp := range sp.Pkg.Imports() {
					if imp.Path() == "io" {
						g := sp.Prog.Package(imp).Var(n)
						return st.load(st.val(g))
					}
				}
				giveUp("package io is not imported")
				return nil
			}
			w.eofV, w.short = ioGlob("EOF"), ioGlob("ErrShortWrite")
			w.src = newSeq("stream", byteT())
			w.src.fixed = true
			wt := fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type().(*types.Slice).Elem()
			d := st.fresh(types.NewSlice(wt), "dsts").(VSlice)
			w.dsts = st.arr(d)[0].seq
			w.n = d.Len
			k := symLin(newSym("k"))
			st.assume(k)
			st.assume(d.Len.Sub(k).AddK(-1))
			w.k = k
			prep(st, w)
			st.ghost["k"] = VInt{k}
			for _, g := range []string{"read", "base", "got"} {
				st.ghost[g] = VInt{K(0)}
			}
			st.ghost["seen"] = VBool(true)
			l := symLin(newSym("src"))
			args := []Value{VIface{Opq: &l, Tag: "src"}}
			if fn.Signature.Params().Len() == 3 {
				args = append(args, buf(st))
			}
			args = append(args, d)
			w.install(e)
			c.run(e, st, fn, args, func(s *State, ret []Value, pan *progPanic) string { return w.judge(s, ret, pan) })
		})
	}
	any := func(*State, *copyWorld) {}
	many := func(st *State, w *copyWorld) { st.assume(w.n.AddK(-2)) }
	single := func(st *State, w *copyWorld) { st.assumeEq(w.n.AddK(-1)) }
	nilBuf := func(*State) Value { return VSlice{} }
	anyBuf := func(st *State) Value { return st.freshBytes("buf") }
	cb, cp := c.fn(sp, "CopysBuffer"), c.fn(sp, "Copys")
	for _, x := range []struct {
		n string
		f func(*State, *copyWorld)
	}{{"any number of destinations", any}, {"one destination", single}, {"two or more destinations", many}} {
		one(cb, x.n+", any buffer", x.f, anyBuf)
		one(cb, x.n+", no buffer", x.f, nilBuf)
		one(cp, x.n, x.f, nil)
	}
}

func (w *copyWorld) judge(s *State, ret []Value, pan *progPanic) string {
	if pan != nil {
		return panMsg(pan)
	}
	if h, _ := s.ghost["handed"].(VBool); bool(h) {
		return and(wantSame(s, ret[0], s.ghost["hn"], "the count of the handed-over copy"), wantSame(s, ret[1], s.ghost["he"], "its error"))
	}
	if e, ok := s.ghost["stop"]; ok {
		return and(wantSame(s, ret[1], e, "the error after a failed or short write"), wantInt(s, ret[0], s.gl("base"), "the count after a failed write"))
	}
	if !s.c.entailsEq(s.gl("got").Sub(s.gl("read"))) {
		return fmt.Sprintf("%s bytes were read and no write failed, but a destination got %s", s.gl("read"), s.gl("got"))
	}
	er, ok := s.ghost["rerr"]
	if !ok || isNil(er) {
		return "the copy ends before the source reported its end"
	}
	if m := wantInt(s, ret[0], s.gl("read"), "the count"); m != "" {
		return m
	}
	if s.sameVal(er, w.eofV) {
		if !isNil(ret[1]) {
			return "an error at end of file: " + vstr(ret[1])
		}
		return ""
	}
	return wantSame(s, ret[1], er, "the error after a failed read")
}
