package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C14"] = &propCheck{run: checkPadding, minObl: 12}
}

// freshBytes is a byte slice somewhere inside a larger array.
func (st *State) freshBytes(name string) VSlice {
	return st.fresh(types.NewSlice(byteT()), name).(VSlice)
}

// dataIn is a slice showing r, inside an array with unknown neighbours.
func (st *State) dataIn(r Rope, name string) VSlice {
	off, c := symLin(newSym("offset")), symLin(newSym("spare"))
	for _, l := range []Lin{off, c} {
		st.assume(l)
		st.assume(K(1 << 40).Sub(l))
	}
	n := ropeLen(r)
	full := append(append(seqRope(newSeq(name+"~before", byteT()), K(0), off), r...), seqRope(newSeq(name+"~after", byteT()), K(0), c)...)
	id := st.newObj(types.NewArray(byteT(), -1), VArray{full}, name)
	return VSlice{Arr: id, Off: off, Len: n, Cap: n.Add(c)}
}

func (st *State) blockSize(t types.Type) Lin {
	bs := st.fresh(t, "blockSize").(VInt).L
	st.assume(bs.AddK(-1))
	st.assume(K(255).Sub(bs))
	return bs
}

// unchanged: the array behind s still holds what it held in r.
func (st *State) unchanged(s VSlice, r Rope, what string) string {
	if s.Arr == 0 {
		return ""
	}
	if !st.ropeEq(st.arr(s), r) {
		return what + " was modified: now " + st.arr(s).String()
	}
	return ""
}

func (st *State) wantBytes(v Value, r Rope, what string) string {
	if _, ok := v.(VStr); !ok {
		if _, ok := v.(VSlice); !ok {
			return what + " is " + vstr(v)
		}
	}
	got := st.normRope(st.bytesOf(v))
	if len(got) == 1 && got[0].kind == pSeq && got[0].seq.alias != nil && got[0].dir == 1 && st.c.entailsEq(got[0].start) {
		for j := range got[0].seq.alias {
			if a := got[0].seq.alias[:j]; st.c.entailsEq(got[0].n.Sub(ropeLen(a))) {
				got = a
				break
			}
		}
	}
	if !st.ropeEq(got, r) {
		return what + " is " + got.String() + " instead of " + st.normRope(r).String()
	}
	return ""
}

func checkPadding(c *Ctx) {
	pc, pa := c.pkg("crypto"), c.pkg("crypto/aes")
	for _, f := range []struct {
		sp   *ssa.Package
		name string
		zero bool
		un   string
		str  bool
	}{
		{pc, "ZeroPadding", true, "ZeroUnPadding", false},
		{pc, "PKCS5Padding", false, "PKCS5UnPadding", false},
		{pa, "PKCS7Padding", false, "PKCS7Unpadding", false},
		{pa, "PKCS7PaddingString", false, "", true},
	} {
		fn := c.fn(f.sp, f.name)
		for _, kind := range []string{"any input", "nil"} {
			if kind == "nil" && f.str {
				continue
			}
			c.oblige(f.name+": "+kind, func() {
				e := c.engine(f.sp)
				for _, x := range e.fork(e.newState(), func(st *State) Value {
					bs := st.blockSize(fn.Params[1].Type())
					var in Value = VSlice{}
					if f.str {
						in = VStr{st.freshRope("s", byteT())}
					} else if kind != "nil" {
						in = st.freshBytes("b")
					}
					q, r := st.divmod(valLen(st, in), bs)
					return VTuple{in, VInt{bs}, VInt{q}, VInt{r}}
				}) {
					t := x.v.(VTuple)
					in, bs, r := t[0], t[1].(VInt).L, t[3].(VInt).L
					var before, arr Rope
					if kind != "nil" {
						before = x.st.bytesOf(in)
						if s, ok := in.(VSlice); ok {
							arr = x.st.arr(s)
						}
					}
					c.run(e, x.st, fn, []Value{in, VInt{bs}}, func(s *State, ret []Value, pan *progPanic) string {
						if pan != nil {
							return panMsg(pan)
						}
						pad := bs.Sub(r)
						fill := pad
						if f.zero {
							fill = K(0)
						}
						if !s.c.entails(pad.AddK(-1)) || !s.c.entails(bs.Sub(pad)) {
							return "analysis: pad length out of range"
						}
						if sl, ok := in.(VSlice); ok && sl.Arr != 0 {
							if m := s.unchanged(sl, arr, "the caller's buffer"); m != "" {
								return m
							}
							if out, ok := ret[0].(VSlice); ok && out.Arr == sl.Arr {
								return "the result shares the caller's buffer"
							}
						}
						return s.wantBytes(ret[0], append(append(Rope{}, before...), Piece{n: pad, kind: pConst, val: VInt{fill}}), "the padded data")
					})
				}
			})
		}
		if f.un == "" {
			continue
		}
		un := c.fn(f.sp, f.un)
		c.oblige(f.un+": undoes "+f.name, func() {
			e := c.engine(f.sp)
			for _, x := range e.fork(e.newState(), func(st *State) Value {
				orig := st.freshRope("orig", byteT())
				pad := symLin(newSym("pad"))
				st.assume(pad.AddK(-1))
				st.assume(K(255).Sub(pad))
				fill := pad
				if f.zero {
					fill = K(0)
					if !st.condEq(ropeLen(orig), K(0)) {
						st.assumeNe(st.read(orig, ropeLen(orig).AddK(-1)).(VInt).L)
					}
				}
				return VTuple{st.dataIn(append(append(Rope{}, orig...), Piece{n: pad, kind: pConst, val: VInt{fill}}), "padded"), VStr{orig}}
			}) {
				t := x.v.(VTuple)
				in, orig := t[0].(VSlice), t[1].(VStr).R
				arr := x.st.arr(in)
				c.run(e, x.st, un, []Value{in}, func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					return and(s.wantBytes(ret[0], orig, "the unpadded data"), s.unchanged(in, arr, "the padded data"))
				})
			}
		})
		c.oblige(f.un+": any data", func() {
			e := c.engine(f.sp)
			st := e.newState()
			in := st.freshBytes("b")
			before, arr := st.bytesOf(in), st.arr(in)
			c.run(e, st, un, []Value{in}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if m := s.unchanged(in, arr, "the data"); m != "" {
					return m
				}
				out := s.bytesOf(ret[0])
				if !s.cond(in.Len.Sub(ropeLen(out))) {
					return "the result is longer than the data"
				}
				a, _ := s.split(before, ropeLen(out))
				return s.wantBytes(ret[0], a, "the result")
			})
		})
		c.oblige(f.un+": nil", func() {
			e := c.engine(f.sp)
			c.run(e, e.newState(), un, []Value{VSlice{}}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				return s.wantBytes(ret[0], nil, "the result")
			})
		})
	}
}

func init() {
	props["C15"] = &propCheck{run: checkAES, minObl: 10}
}

// ---- CBC mode as an uninterpreted pair of inverse functions ----

type cbcText struct {
	key, chain string
	src        Rope
	n          Lin
	seq        *Seq
	next       Lin
}

// cbc is what the analysis knows about produced ciphertexts, by sequence.
type cbcWorld struct{ made map[int]*cbcText }

func modelAES(e *Engine) *cbcWorld {
	w := &cbcWorld{made: map[int]*cbcText{}}
	m := e.models
	m["crypto/aes.NewCipher"] = func(c *callCtx) Value {
		st := c.st
		n := valLen(st, c.args[0])
		for _, k := range []int64{16, 24, 32} {
			if st.condEq(n, K(k)) {
				s, _ := defSym("aes:"+st.ropeKey(st.bytesOf(c.args[0])), "cipher", &symDef{op: "fn", tag: "aes cipher"})
				l := symLin(s)
				return VTuple{VIface{Opq: &l, Tag: "aes"}, VIface{}}
			}
		}
		return VTuple{VIface{}, st.newErr("aes key size")}
	}
	for i, n := range []string{"crypto/cipher.NewCBCEncrypter", "crypto/cipher.NewCBCDecrypter"} {
		m[n] = func(c *callCtx) Value {
			st := c.st
			b, ok := c.args[0].(VIface)
			if !ok || b.Opq == nil || b.Tag != "aes" {
				giveUp("%s: block cipher %s", c.pos, vstr(c.args[0]))
			}
			iv := st.bytesOf(c.args[1])
			if !st.condEq(ropeLen(iv), K(16)) {
				st.raise("cipher: IV length must equal block size")
			}
			s, _ := defSym("iv:"+st.ropeKey(iv), "iv", &symDef{op: "fn", tag: "iv"})
			id := st.newObj(types.Typ[types.Int], VStruct{[]Value{VInt{K(int64(i))}, VOpq{*b.Opq, "key"}, VOpq{symLin(s), "chain"}}}, "cbc")
			l := symLin(newSym("cbc"))
			return VIface{Opq: &l, Tag: "cbc", V: VPtr{Obj: id}}
		}
	}
	e.invoke = func(c *callCtx, recv VIface, method string) (Value, bool) {
		st := c.st
		if recv.Tag == "aes" && method == "BlockSize" || recv.Tag == "cbc" && method == "BlockSize" {
			return VInt{K(16)}, true
		}
		if recv.Tag != "cbc" || method != "CryptBlocks" {
			return nil, false
		}
		id := recv.V.(VPtr).Obj
		f := st.heap[id].v.(VStruct).F
		key, chain := st.c.norm(f[1].(VOpq).L).key(), st.c.norm(f[2].(VOpq).L).key()
		dst, src := c.args[0].(VSlice), c.args[1].(VSlice)
		n := valLen(st, src)
		if _, r := st.divmod(n, K(16)); !st.condEq(r, K(0)) {
			st.raise("crypto/cipher: input not full blocks")
		}
		if !st.cond(valLen(st, dst).Sub(n)) {
			st.raise("crypto/cipher: output smaller than input")
		}
		if st.condEq(n, K(0)) {
			return VTuple{}, true
		}
		if dst.Arr == src.Arr && !st.c.entailsEq(dst.Off.Sub(src.Off)) {
			giveUp("%s: CryptBlocks on overlapping buffers", c.pos)
		}
		in := st.bytesOf(src)
		var out Rope
		var next Lin
		if st.c.norm(f[0].(VInt).L).c.int64() == 0 {
			q := newSeq("ciphertext", byteT())
			q.fixed = true
			s := newSym("last block")
			t := &cbcText{key: key, chain: chain, src: in, n: n, seq: q, next: symLin(s)}
			w.made[q.id] = t
			out, next = seqRope(q, K(0), n), t.next
		} else {
			next = symLin(newSym("last block"))
			if len(in) == 1 && in[0].kind == pSeq {
				if t := w.made[in[0].seq.id]; t != nil && in[0].dir == 1 && st.c.entailsEq(in[0].start) && st.c.entailsEq(t.n.Sub(n)) {
					next = t.next
					if t.key == key && t.chain == chain {
						out = t.src
					}
				}
			}
			if out == nil {
				out = seqRope(newSeq("plaintext of unknown data", byteT()), K(0), n)
				st.ghost["plain"] = VStr{out}
			}
		}
		st.spliceArr(dst, dst.Off, out)
		st.store(VPtr{Obj: id}, VStruct{[]Value{f[0], f[1], VOpq{next, "chain"}}})
		return VTuple{}, true
	}
	return w
}

// cbcOf finds the one CBC object reachable from v.
func (st *State) cbcOf(v Value) ObjID {
	found := ObjID(0)
	seen := map[ObjID]bool{}
	var walk func(v Value)
	walk = func(v Value) {
		switch x := v.(type) {
		case VPtr:
			if x.Obj != 0 && !seen[x.Obj] {
				seen[x.Obj] = true
				walk(st.heap[x.Obj].v)
			}
		case VStruct:
			for _, f := range x.F {
				walk(f)
			}
		case VIface:
			if x.Tag == "cbc" && x.Opq != nil {
				id := x.V.(VPtr).Obj
				if found != 0 && found != id {
					giveUp("more than one block mode in one object")
				}
				found = id
			} else if x.V != nil {
				walk(x.V)
			}
		}
	}
	walk(v)
	if found == 0 {
		giveUp("no block mode in %s", vstr(v))
	}
	return found
}

// heapSame: the objects that existed before are as they were, except those listed.
func heapSame(before, after *State, except ...ObjID) string {
	for id, o := range before.heap {
		skip := false
		for _, x := range except {
			if x == id {
				skip = true
			}
		}
		if skip || after.heap[id] == o {
			continue
		}
		n := after.heap[id]
		if n == nil {
			continue
		}
		if _, ok := o.v.(VJunk); ok {
			if _, ok := n.v.(VJunk); ok && o.glob {
				continue
			}
		}
		if a, ok := o.v.(VArray); ok {
			if b, ok := n.v.(VArray); ok && after.ropeEq(a.R, b.R) {
				continue
			}
		}
		if !after.sameVal(o.v, n.v) {
			return "the call changed " + o.name + " from " + vstr(o.v) + " to " + vstr(n.v)
		}
	}
	return ""
}

func checkAES(c *Ctx) {
	sp := c.pkg("crypto/aes")
	newE, newD := c.fn(sp, "NewAESEncrypter"), c.fn(sp, "NewAESDecrypter")
	for _, fn := range []*ssa.Function{newE, newD} {
		c.oblige(fn.Name()+": every key", func() {
			e := c.engine(sp)
			modelAES(e)
			st := e.newState()
			key := st.freshBytes("key")
			before := st.arr(key)
			bst := st.clone()
			c.run(e, st, fn, []Value{key}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if m := and(s.unchanged(key, before, "the key"), heapSame(bst, s)); m != "" {
					return m
				}
				obj, ok1 := ret[0].(VPtr)
				err, ok2 := ret[1].(VIface)
				if !ok1 || !ok2 {
					return "unexpected results"
				}
				valid := s.condEq(key.Len, K(16)) || s.condEq(key.Len, K(24)) || s.condEq(key.Len, K(32))
				if !valid {
					if obj.Obj != 0 || err.Opq == nil && err.Dyn == nil {
						return "an invalid key is not reported as an error with a nil object"
					}
					return ""
				}
				if obj.Obj == 0 || err.Opq != nil || err.Dyn != nil {
					return "a valid key is rejected"
				}
				return ""
			})
		})
		c.oblige(fn.Name()+": nil key", func() {
			e := c.engine(sp)
			modelAES(e)
			c.run(e, e.newState(), fn, []Value{VSlice{}}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if p, ok := ret[0].(VPtr); !ok || p.Obj != 0 {
					return "a nil key yields an object"
				}
				if v, ok := ret[1].(VIface); !ok || v.Opq == nil && v.Dyn == nil {
					return "a nil key is not reported"
				}
				return ""
			})
		})
	}
	// pair makes an encrypter and a decrypter of one key; both chains then become one
	// arbitrary value (the state after any number of messages, by induction).
	type pair struct {
		st       *State
		enc, dec VPtr
		ce, cd   ObjID
	}
	pairs := func(e *Engine, check bool) (out []pair) {
		st := e.newState()
		key := st.freshBytes("key")
		for _, o := range e.Call(st, newE, []Value{key}, nil, nil) {
			if o.pan != nil {
				continue
			}
			enc, ok := o.ret[0].(VPtr)
			if !ok || enc.Obj == 0 {
				continue
			}
			for _, d := range e.Call(o.st, newD, []Value{key}, nil, nil) {
				if d.pan != nil {
					c.fail("%s: %s: %s", c.p.pos(newD), newD, panMsg(d.pan))
					continue
				}
				dec, ok := d.ret[0].(VPtr)
				if !ok || dec.Obj == 0 {
					c.fail("%s: a key accepted by the encrypter is rejected by the decrypter", c.p.pos(newD))
					continue
				}
				s := d.st
				ce, cd := s.cbcOf(enc), s.cbcOf(dec)
				fe, fd := s.heap[ce].v.(VStruct).F, s.heap[cd].v.(VStruct).F
				if check {
					c.cur.cases++
					if k, _ := fe[0].(VInt); !k.L.isK() || k.L.c.int64() != 0 {
						c.fail("%s: the encrypter does not encrypt", c.p.pos(newE))
					}
					if k, _ := fd[0].(VInt); !k.L.isK() || k.L.c.int64() != 1 {
						c.fail("%s: the decrypter does not decrypt", c.p.pos(newD))
					}
					if !s.sameVal(fe[1], fd[1]) {
						c.fail("%s: encrypter and decrypter use different keys", c.p.pos(newD))
					}
					if !s.sameVal(fe[2], fd[2]) {
						c.fail("%s: encrypter and decrypter start from different initial vectors", c.p.pos(newD))
					}
				}
				s = s.clone()
				ch := VOpq{symLin(newSym("chain")), "chain"}
				s.store(VPtr{Obj: ce}, VStruct{[]Value{fe[0], fe[1], ch}})
				s.store(VPtr{Obj: cd}, VStruct{[]Value{fd[0], fd[1], ch}})
				out = append(out, pair{s, enc, dec, ce, cd})
			}
		}
		if len(out) == 0 {
			c.fail("no key yields an encrypter and a decrypter")
		}
		return
	}
	c.oblige("fresh pair is in step", func() {
		e := c.engine(sp)
		modelAES(e)
		pairs(e, true)
	})
	for _, en := range []string{"Encrypt", "EncryptString"} {
		fe := c.fn(sp, "AESEncrypter."+en)
		for _, de := range []string{"Decrypt", "DecryptToString"} {
			fd := c.fn(sp, "AESDecrypter."+de)
			c.oblige(en+" then "+de, func() {
				e := c.engine(sp)
				modelAES(e)
				for _, p := range pairs(e, false) {
					st := p.st
					var msg Value
					if en == "Encrypt" {
						msg = st.freshBytes("message")
					} else {
						msg = VStr{st.freshRope("message", byteT())}
					}
					plain := st.bytesOf(msg)
					before := st.clone()
					e.pinObj, e.pinSeq, e.pinSym = e.objCount, seqCount, Sym(len(symTab)-1)
					for _, o := range e.Call(st, fe, []Value{p.enc, msg}, nil, nil) {
						if o.pan != nil {
							c.fail("%s: %s: %s", o.pan.pos, fe, panMsg(o.pan))
							continue
						}
						s := o.st
						ct, ok := o.ret[0].(VSlice)
						if !ok || ct.Arr == 0 {
							c.fail("%s: %s: no ciphertext", c.p.pos(fe), fe)
							continue
						}
						if _, old := before.heap[ct.Arr]; old {
							c.fail("%s: %s: the ciphertext shares memory with the object or the message", c.p.pos(fe), fe)
						}
						c.check(e, fe, []Outcome{{st: s, ret: o.ret}}, func(s *State, ret []Value, pan *progPanic) string {
							if m := heapSame(before, s, p.ce); m != "" {
								return m
							}
							_, r := s.divmod(ct.Len, K(16))
							if !s.c.entailsEq(r) || !s.c.entails(ct.Len.AddK(-16)) {
								return "the length of the ciphertext is not a positive multiple of the block size"
							}
							return ""
						})
						mid := s.clone()
						c.run(e, s, fd, []Value{p.dec, ct}, func(s *State, ret []Value, pan *progPanic) string {
							if pan != nil {
								return panMsg(pan)
							}
							if r, ok := ret[0].(VSlice); ok && r.Arr != 0 {
								if _, old := mid.heap[r.Arr]; old {
									return "the plaintext shares memory with the ciphertext or the object"
								}
							}
							if m := and(heapSame(mid, s, p.cd), s.wantBytes(ret[0], plain, "the decrypted message")); m != "" {
								return m
							}
							a, b := s.heap[p.ce].v.(VStruct).F[2], s.heap[p.cd].v.(VStruct).F[2]
							if !s.sameVal(a, b) {
								return "encrypter and decrypter are out of step after the message"
							}
							return ""
						})
					}
				}
			})
		}
	}
	for _, de := range []string{"Decrypt", "DecryptToString"} {
		fd := c.fn(sp, "AESDecrypter."+de)
		c.oblige(de+": any data", func() {
			e := c.engine(sp)
			modelAES(e)
			for _, p := range pairs(e, false) {
				st := p.st
				data := st.freshBytes("data")
				before := st.clone()
				c.run(e, st, fd, []Value{p.dec, data}, func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					if m := heapSame(before, s, p.cd); m != "" {
						return m
					}
					_, r := s.divmod(data.Len, K(16))
					if !s.condEq(r, K(0)) {
						if !isEmptyNil(s, ret[0]) {
							return "data that is not a multiple of the block size does not yield nil"
						}
						if !s.sameVal(before.heap[p.cd].v, s.heap[p.cd].v) {
							return "rejected data changed the decrypter"
						}
						return ""
					}
					if s.condEq(data.Len, K(0)) {
						return s.wantBytes(ret[0], nil, "the result for no data")
					}
					pl, ok := s.ghost["plain"].(VStr)
					if !ok {
						return "data of full blocks is not decrypted"
					}
					if last := s.read(pl.R, data.Len.AddK(-1)).(VInt).L; s.cond(last.Sub(data.Len).AddK(-1)) && !isEmptyNil(s, ret[0]) {
						return "a pad length beyond the data does not yield nil"
					}
					return ""
				})
			}
		})
		c.oblige(de+": nil", func() {
			e := c.engine(sp)
			modelAES(e)
			for _, p := range pairs(e, false) {
				c.run(e, p.st, fd, []Value{p.dec, VSlice{}}, func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					return s.wantBytes(ret[0], nil, "the result for no data")
				})
			}
		})
	}
}

func isEmptyNil(s *State, v Value) bool {
	switch x := v.(type) {
	case VSlice:
		return x.Arr == 0
	case VStr:
		return s.c.entailsEq(ropeLen(x.R))
	}
	return false
}
