package main

import (
	"fmt"
	"go/types"
	"strings"
)

func byteT() types.Type { return types.Typ[types.Byte] }

// bytesOf is the content of a string or byte slice argument.
func (st *State) bytesOf(v Value) Rope {
	switch x := v.(type) {
	case VStr:
		return x.R
	case VSlice:
		return st.normRope(st.content(x))
	}
	giveUp("text argument %s", vstr(v))
	return nil
}

// repeatRope is r repeated n times.
func (st *State) repeatRope(r Rope, n Lin) Rope {
	r = st.normRope(r)
	l := st.c.norm(ropeLen(r))
	if l.isK() && l.c.sign() == 0 {
		return nil
	}
	if l.isK() && l.c.int64() == 1 {
		return Rope{{n: n, kind: pConst, val: st.read(r, K(0))}}
	}
	k := st.c.norm(n)
	if k.isK() && k.c.int64() <= 64 {
		var out Rope
		for i := int64(0); i < k.c.int64(); i++ {
			out = append(out, r...)
		}
		return out
	}
	giveUp("repetition of a text of unknown or larger length")
	return nil
}

// trimRight cuts the longest tail whose characters satisfy pred. pred gets the value
// of a character and decides it (splitting the state when needed).
func (st *State) trimRight(r Rope, pred func(st *State, ch Lin) bool) Lin {
	n := ropeLen(r)
	k := symLin(newSym("trimmed length"))
	st.assume(k)
	st.assume(n.Sub(k))
	char := func(at Lin) Lin {
		b := st.read(r, at).(VInt).L
		if st.cond(K(127).Sub(b)) {
			return b
		}
		x := symLin(newSym("character"))
		st.assume(x.AddK(-128))
		st.assume(K(0x10FFFF).Sub(x))
		return x
	}
	if !st.condEq(k, K(0)) {
		// the last character kept does not satisfy pred
		if pred(st, char(k.AddK(-1))) {
			panic(infeasible{})
		}
	}
	// the last element of every piece that was cut satisfies it
	pos := K(0)
	for _, p := range r {
		if st.condEq(p.n, K(0)) {
			continue
		}
		pos = pos.Add(p.n)
		if st.cond(pos.Sub(k).AddK(-1)) {
			if !pred(st, char(pos.AddK(-1))) {
				panic(infeasible{})
			}
		}
	}
	return k
}

func (st *State) bufField(p Value) VPtr {
	q := st.resolve(p)
	return VPtr{Obj: q.Obj, Path: append(q.Path[:len(q.Path):len(q.Path)], pathEl{field: 0})}
}

// textModels models the byte and text helpers of the standard library.
func bytesModels(e *Engine) {
	m := e.models
	m["bytes.Repeat"] = func(c *callCtx) Value {
		n := c.args[1].(VInt).L
		if !c.st.cond(n) {
			c.st.raise("bytes: negative Repeat count")
		}
		r := c.st.repeatRope(c.st.bytesOf(c.args[0]), n)
		s := c.st.newSlice(byteT(), r, "Repeat")
		return s
	}
	m["strings.Repeat"] = func(c *callCtx) Value {
		n := c.args[1].(VInt).L
		if !c.st.cond(n) {
			c.st.raise("strings: negative Repeat count")
		}
		return VStr{c.st.normRope(c.st.repeatRope(c.st.bytesOf(c.args[0]), n))}
	}
	trimmed := func(c *callCtx, pred func(st *State, ch Lin) bool) Value {
		s, isS := c.args[0].(VSlice)
		if isS && s.Arr == 0 {
			return s
		}
		k := c.st.trimRight(c.st.bytesOf(c.args[0]), pred)
		if isS {
			// an empty result is nil
			if c.st.condEq(k, K(0)) {
				return VSlice{}
			}
			s.Len = k
			return s
		}
		return VStr{c.st.normRope(c.st.sub(c.args[0].(VStr).R, K(0), k))}
	}
	for _, pk := range []string{"bytes", "strings"} {
		m[pk+".TrimRightFunc"] = func(c *callCtx) Value {
			f := c.args[1].(VFunc)
			return trimmed(c, func(st *State, ch Lin) bool {
				return st.callPred(f, VInt{ch}, c)
			})
		}
		m[pk+".TrimRight"] = func(c *callCtx) Value {
			cut, ok := constRope(c.args[1].(VStr).R)
			if !ok {
				giveUp("%s: TrimRight with an unknown cut set", c.pos)
			}
			return trimmed(c, func(st *State, ch Lin) bool {
				for _, r := range cut {
					if st.condEq(ch, K(int64(r))) {
						return true
					}
				}
				return false
			})
		}
	}
	// bytes.Buffer (its first field is the unread data) and strings.Builder
	m["bytes.NewBuffer"] = func(c *callCtx) Value {
		t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		z := c.e.zero(t).(VStruct)
		f := append([]Value(nil), z.F...)
		f[0] = c.args[0]
		return VPtr{Obj: c.st.newObj(t, VStruct{f}, "bytes.Buffer")}
	}
	m["bytes.NewBufferString"] = func(c *callCtx) Value {
		t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		z := c.e.zero(t).(VStruct)
		f := append([]Value(nil), z.F...)
		f[0] = c.st.newSlice(byteT(), c.args[0].(VStr).R, "bytes.Buffer")
		return VPtr{Obj: c.st.newObj(t, VStruct{f}, "bytes.Buffer")}
	}
	add := func(idx int) func(c *callCtx, r Rope) {
		return func(c *callCtx, r Rope) {
			q := c.st.resolve(c.args[0])
			p := VPtr{Obj: q.Obj, Path: append(q.Path[:len(q.Path):len(q.Path)], pathEl{field: idx})}
			s, ok := c.st.load(p).(VSlice)
			if !ok {
				giveUp("%s: buffer %s", c.pos, vstr(c.st.load(p)))
			}
			c.st.store(p, c.st.doAppend(s, byteT(), r))
		}
	}
	for _, t := range []struct {
		name string
		idx  int
	}{{"bytes.Buffer", 0}, {"strings.Builder", 1}} {
		put := add(t.idx)
		at := func(c *callCtx) VSlice {
			q := c.st.resolve(c.args[0])
			s, ok := c.st.load(VPtr{Obj: q.Obj, Path: append(q.Path[:len(q.Path):len(q.Path)], pathEl{field: t.idx})}).(VSlice)
			if !ok {
				giveUp("%s: buffer", c.pos)
			}
			return s
		}
		pre := "(*" + t.name + ")."
		m[pre+"WriteByte"] = func(c *callCtx) Value {
			put(c, single(c.args[1]))
			return VIface{}
		}
		for _, n := range []string{"Write", "WriteString"} {
			m[pre+n] = func(c *callCtx) Value {
				r := c.st.bytesOf(c.args[1])
				put(c, r)
				return VTuple{VInt{ropeLen(r)}, VIface{}}
			}
		}
		m[pre+"Len"] = func(c *callCtx) Value { return VInt{valLen(c.st, at(c))} }
		m[pre+"Grow"] = func(c *callCtx) Value {
			if !c.st.cond(c.args[1].(VInt).L) {
				c.st.raise("negative count")
			}
			s := at(c)
			if s.Arr != 0 {
				// may move the data
				if !c.st.cond(s.Cap.Sub(s.Len).Sub(c.args[1].(VInt).L)) {
					n := c.st.newSlice(byteT(), c.st.content(s), "grown")
					s = c.st.spare(n, symLin(newSym("cap")), byteT())
				}
			}
			q := c.st.resolve(c.args[0])
			c.st.store(VPtr{Obj: q.Obj, Path: append(q.Path[:len(q.Path):len(q.Path)], pathEl{field: t.idx})}, s)
			return VTuple{}
		}
		m[pre+"String"] = func(c *callCtx) Value { return VStr{c.st.normRope(c.st.content(at(c)))} }
		m[pre+"Bytes"] = func(c *callCtx) Value { return at(c) }
	}
	for _, t := range []string{"bytes.Equal", "slices.Equal"} {
		m[t] = func(c *callCtx) Value { return VBool(c.st.condStrEq(c.st.bytesOf(c.args[0]), c.st.bytesOf(c.args[1]))) }
	}
	m["bytes.Clone"] = func(c *callCtx) Value {
		s := c.args[0].(VSlice)
		if s.Arr == 0 {
			return s
		}
		n := c.st.newSlice(byteT(), c.st.content(s), "clone")
		return c.st.spare(n, symLin(newSym("cap")), byteT())
	}
	// fixed-size integers
	for _, o := range []struct {
		recv string
		big  bool
	}{{"(encoding/binary.bigEndian)", true}, {"(encoding/binary.littleEndian)", false}} {
		for _, w := range []int{16, 32, 64} {
			n := w / 8
			enc := func(st *State, l Lin) Rope {
				bs := st.bitsOf(l, w)
				var r Rope
				for i := 0; i < n; i++ {
					j := i
					if o.big {
						j = n - 1 - i
					}
					r = append(r, single(VInt{st.fromBits(bs[8*j : 8*j+8])})...)
				}
				return r
			}
			m[fmt.Sprintf("%s.PutUint%d", o.recv, w)] = func(c *callCtx) Value {
				s := c.args[1].(VSlice)
				if s.Arr == 0 || !c.st.cond(s.Len.AddK(int64(-n))) {
					c.st.raise("index out of range")
				}
				c.st.spliceArr(s, s.Off, enc(c.st, c.args[2].(VInt).L))
				return VTuple{}
			}
			m[fmt.Sprintf("%s.AppendUint%d", o.recv, w)] = func(c *callCtx) Value {
				return c.st.doAppend(c.args[1].(VSlice), byteT(), enc(c.st, c.args[2].(VInt).L))
			}
		}
	}
	m["encoding/hex.EncodeToString"] = func(c *callCtx) Value { return c.st.hexText(c.st.bytesOf(c.args[0])) }
}

// callPred calls a predicate of one argument inside a model; it must be decidable
// without side effects.
func (st *State) callPred(f VFunc, arg Value, c *callCtx) bool {
	outs := c.e.callValue(st, f, []Value{arg}, c.inst, types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Rune])), types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false))
	if len(outs) == 0 {
		panic(infeasible{})
	}
	i := st.choose(len(outs))
	o := outs[i]
	if o.pan != nil {
		panic(*o.pan)
	}
	// only knowledge may be gained
	for id, ob := range o.st.heap {
		if old, ok := st.heap[id]; ok && old != ob {
			giveUp("%s: predicate with side effects", c.pos)
		}
	}
	st.c, st.facts = o.st.c, o.st.facts
	b, ok := o.ret[0].(VBool)
	if !ok {
		giveUp("%s: predicate result %s", c.pos, vstr(o.ret[0]))
	}
	return bool(b)
}

var _ = strings.Contains
