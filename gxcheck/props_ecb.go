package main

import (
	"fmt"
)

func init() {
	props["C31"] = &propCheck{run: checkECB, minObl: 7}
}

// ---- block ciphers used block by block, as uninterpreted inverse functions ----

type ecbOp struct {
	enc bool
	key Rope
	id  string
}

// ecbText is a view of an array with operations applied to each block of eight bytes.
type ecbText struct {
	ops  []ecbOp
	view Rope // the array the blocks come from
	base Lin  // where its first block starts
	vkey string
	seq  *Seq
}

type ecbWorld struct {
	made  map[int]*ecbText
	byKey map[string]*ecbText
	ciph  map[string][]ecbOp // what a cipher does to encrypt
}

func (w *ecbWorld) text(ops []ecbOp, view Rope, base Lin, vkey string) *ecbText {
	k := vkey
	for _, o := range ops {
		k += fmt.Sprintf("|%v%s", o.enc, o.id)
	}
	if t := w.byKey[k]; t != nil {
		return t
	}
	q := newSeq("blocks", byteT())
	q.fixed = true
	t := &ecbText{ops: ops, view: view, base: base, vkey: vkey, seq: q}
	if len(ops) == 0 && base.isK() && base.c.sign() == 0 {
		q.alias = view
	}
	w.made[q.id], w.byKey[k] = t, t
	return t
}

// then applies more operations; neighbours that undo each other vanish.
func (w *ecbWorld) then(st *State, t *ecbText, ops []ecbOp) *ecbText {
	return w.text(ecbReduce(st, t.ops, ops), t.view, t.base, t.vkey)
}

func ecbReduce(st *State, l, ops []ecbOp) []ecbOp {
	l = append([]ecbOp{}, l...)
	for _, o := range ops {
		if n := len(l); n > 0 && l[n-1].enc != o.enc && st.ropeEq(l[n-1].key, o.key) {
			l = l[:n-1]
			continue
		}
		l = append(l, o)
	}
	return l
}

func ecbInverse(ops []ecbOp) (out []ecbOp) {
	for i := len(ops) - 1; i >= 0; i-- {
		o := ops[i]
		o.enc = !o.enc
		out = append(out, o)
	}
	return
}

func (w *ecbWorld) op(st *State, enc bool, key Rope) ecbOp {
	key = st.normRope(key)
	return ecbOp{enc, key, st.ropeKey(key)}
}

func modelDES(e *Engine) *ecbWorld {
	w := &ecbWorld{made: map[int]*ecbText{}, byKey: map[string]*ecbText{}, ciph: map[string][]ecbOp{}}
	cipher := func(st *State, ops ...ecbOp) Value {
		k := "des"
		for _, o := range ops {
			k += "|" + o.id
		}
		s, _ := defSym(k, "cipher", &symDef{op: "fn", tag: "des cipher"})
		l := symLin(s)
		w.ciph[l.key()] = ops
		return VTuple{VIface{Opq: &l, Tag: "des"}, VIface{}}
	}
	e.models["crypto/des.NewCipher"] = func(c *callCtx) Value {
		if !c.st.condEq(valLen(c.st, c.args[0]), K(8)) {
			return VTuple{VIface{}, c.st.newErr("des key size")}
		}
		return cipher(c.st, w.op(c.st, true, c.st.bytesOf(c.args[0])))
	}
	e.models["crypto/des.NewTripleDESCipher"] = func(c *callCtx) Value {
		st := c.st
		if !st.condEq(valLen(st, c.args[0]), K(24)) {
			return VTuple{VIface{}, st.newErr("des key size")}
		}
		k1, r := st.split(st.bytesOf(c.args[0]), K(8))
		k2, k3 := st.split(r, K(8))
		return cipher(st, w.op(st, true, k1), w.op(st, false, k2), w.op(st, true, k3))
	}
	prev := e.invoke
	e.invoke = func(c *callCtx, recv VIface, method string) (Value, bool) {
		st := c.st
		if recv.Tag != "des" || recv.Opq == nil {
			if prev != nil {
				return prev(c, recv, method)
			}
			return nil, false
		}
		if method == "BlockSize" {
			return VInt{K(8)}, true
		}
		e.noAlias = true
		defer func() { e.noAlias = false }()
		ck := st.c.norm(*recv.Opq).key()
		ops := w.ciph[ck]
		if ops == nil {
			giveUp("%s: cipher %s", c.pos, vstr(recv))
		}
		if method == "Decrypt" {
			ops = ecbInverse(ops)
		}
		dst, src := c.args[0].(VSlice), c.args[1].(VSlice)
		if !st.cond(valLen(st, src).AddK(-8)) || !st.cond(valLen(st, dst).AddK(-8)) {
			st.raise("crypto/des: input or output not full block")
		}
		if dst.Arr == src.Arr && !st.c.entailsEq(dst.Off.Sub(src.Off)) {
			giveUp("%s: block cipher on overlapping buffers", c.pos)
		}
		// blocks done so far by this cipher into this buffer
		g := fmt.Sprintf("ecb:%s:%s:%d:", method, ck, dst.Arr)
		get := func(n string) Lin { return st.c.norm(st.ghost[g+n].(VInt).L) }
		started := st.ghost[g+"cnt"] != nil
		arr := st.normRope(st.arr(src))
		var t *ecbText
		var at Lin
		isMade := false
		for _, p := range arr {
			isMade = isMade || p.kind == pSeq && w.made[p.seq.id] != nil
		}
		if isMade && !(started && src.Arr == dst.Arr && st.ghost[g+"view"] != nil) {
			s8 := src
			s8.Len = K(8)
			win := st.normRope(st.bytesOf(s8))
			if len(win) != 1 || win[0].kind != pSeq || w.made[win[0].seq.id] == nil || win[0].dir != 1 {
				giveUp("%s: block %s", c.pos, win)
			}
			g += fmt.Sprintf("%d:", win[0].seq.id)
			if st.ghost[g+"cnt"] == nil {
				st.ghost[g+"cnt"] = VInt{K(0)}
			}
			t, at = w.made[win[0].seq.id], win[0].start
			t = w.then(st, t, ops)
		} else {
			if !started || st.ghost[g+"view"] == nil || !st.c.entailsEq(src.Off.Sub(get("base")).Sub(get("cnt").Scale(8))) {
				// a new pass
				st.ghost[g+"cnt"] = VInt{K(0)}
				st.ghost[g+"base"] = VInt{st.c.norm(src.Off)}
				st.ghost[g+"view"] = VStr{arr}
				t := w.then(st, w.text(nil, arr, st.c.norm(src.Off), st.ropeKey(arr)+"@"+st.c.norm(src.Off).key()), ops)
				st.ghost[g+"text"] = VInt{K(int64(t.seq.id))}
			}
			// nothing but the blocks of this pass may have been written since it began
			if st.ropeKey(st.normRope(st.ghost[g+"view"].(VStr).R)) != st.ropeKey(arr) {
				giveUp("%s: the data changes between blocks", c.pos)
			}
			id := get("text")
			if !id.isK() || w.made[int(id.c.int64())] == nil {
				giveUp("%s: different data on different paths", c.pos)
			}
			t, at = w.made[int(id.c.int64())], src.Off.Sub(get("base"))
		}
		if st.c.entailsEq(at.Sub(get("cnt").Scale(8))) {
			st.ghost[g+"cnt"] = VInt{get("cnt").AddK(1)}
		} else if !st.c.entailsEq(at.Sub(get("cnt").AddK(-1).Scale(8))) {
			giveUp("%s: blocks are not taken one after the other (%s)", c.pos, st.c.norm(at))
		}
		st.spliceArr(dst, dst.Off, seqRope(t.seq, at, K(8)))
		if st.ghost[g+"view"] != nil && src.Arr == dst.Arr {
			st.ghost[g+"view"] = VStr{st.normRope(st.arr(src))}
		}
		return VTuple{}, true
	}
	return w
}

// tripleKeys is the 24 byte key made from key: cut or filled with zeros.
func (st *State) tripleKeys(key Rope) (k [3]Rope) {
	n := ropeLen(key)
	full := key
	if st.cond(n.AddK(-24)) {
		full, _ = st.split(key, K(24))
	} else {
		full = append(append(Rope{}, key...), Piece{n: K(24).Sub(n), kind: pConst, val: VInt{K(0)}})
	}
	for i := range k {
		k[i], full = st.split(full, K(8))
	}
	return
}

func (w *ecbWorld) triple(st *State, key Rope) []ecbOp {
	k := st.tripleKeys(key)
	return []ecbOp{w.op(st, true, k[0]), w.op(st, false, k[1]), w.op(st, true, k[2])}
}

// is checks that r is exactly the blocks of data with ops applied.
func (w *ecbWorld) is(st *State, r Rope, ops []ecbOp, data Rope, what string) string {
	r = st.normRope(r)
	if len(r) != 1 || r[0].kind != pSeq || r[0].dir != 1 || w.made[r[0].seq.id] == nil || !st.c.entailsEq(r[0].start) {
		return what + " is " + r.String() + ", not the data block by block"
	}
	t := w.made[r[0].seq.id]
	ops = ecbReduce(st, nil, ops)
	if len(t.ops) != len(ops) {
		return fmt.Sprintf("%s is made with %d operations per block, not %d", what, len(t.ops), len(ops))
	}
	for i, o := range t.ops {
		if o.enc != ops[i].enc || !st.ropeEq(o.key, ops[i].key) {
			return fmt.Sprintf("%s: operation %d is %s with key %s, not %s with %s", what, i+1, encName(o), o.key, encName(ops[i]), ops[i].key)
		}
	}
	if !st.c.entailsEq(r[0].n.Sub(ropeLen(data))) {
		return fmt.Sprintf("%s has length %s, not %s", what, st.c.norm(r[0].n), st.c.norm(ropeLen(data)))
	}
	_, v := st.split(t.view, t.base)
	v, _ = st.split(v, ropeLen(data))
	if !st.ropeEq(v, data) {
		return fmt.Sprintf("%s is made from %s, not %s", what, st.normRope(v), st.normRope(data))
	}
	return ""
}

func encName(o ecbOp) string {
	if o.enc {
		return "encryption"
	}
	return "decryption"
}

func isErr(v Value) bool {
	x, ok := v.(VIface)
	return ok && (x.Opq != nil || x.Dyn != nil)
}

func isNilBytes(v Value) bool {
	x, ok := v.(VSlice)
	return ok && x.Arr == 0
}

func zeroPadded(st *State, data Rope) Rope {
	_, r := st.divmod(ropeLen(data), K(8))
	return append(append(Rope{}, data...), Piece{n: K(8).Sub(r), kind: pConst, val: VInt{K(0)}})
}

func checkECB(c *Ctx) {
	sp := c.pkg("crypto/ecb")
	enc, dec := c.fn(sp, "TripleDesEncrypt"), c.fn(sp, "TripleDesDecrypt")
	fresh := func(st *State, kind, name string) VSlice {
		if kind == "nil" {
			return VSlice{}
		}
		return st.freshBytes(name)
	}
	keep := func(s *State, in, key VSlice, ia, ka Rope) string {
		return and(s.unchanged(in, ia, "the data"), s.unchanged(key, ka, "the key"))
	}
	for _, kind := range []string{"any", "nil"} {
		kind := kind
		c.oblige("TripleDesEncrypt: "+kind+" data and key", func() {
			e := c.engine(sp)
			w := modelDES(e)
			st := e.newState()
			in, key := fresh(st, kind, "data"), fresh(st, kind, "key")
			var data, kb, ia, ka Rope
			if kind != "nil" {
				data, kb, ia, ka = st.bytesOf(in), st.bytesOf(key), st.arr(in), st.arr(key)
			}
			c.run(e, st, enc, []Value{in, key}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if isErr(ret[1]) {
					return "returns an error"
				}
				out, ok := ret[0].(VSlice)
				if !ok || out.Arr == 0 {
					return "returns " + vstr(ret[0])
				}
				return and(w.is(s, s.bytesOf(out), w.triple(s, kb), zeroPadded(s, data), "the result"), keep(s, in, key, ia, ka))
			})
		})
	}
	c.oblige("TripleDesDecrypt: data that is not whole blocks, or none", func() {
		e := c.engine(sp)
		modelDES(e)
		for _, x := range e.fork(e.newState(), func(st *State) Value {
			in := st.freshBytes("data")
			_, r := st.divmod(in.Len, K(8))
			if st.condEq(r, K(0)) && !st.condEq(in.Len, K(0)) {
				st.assume(K(-1))
			}
			return VTuple{in, st.freshBytes("key")}
		}) {
			t := x.v.(VTuple)
			in, key := t[0].(VSlice), t[1].(VSlice)
			ia, ka := x.st.arr(in), x.st.arr(key)
			c.run(e, x.st, dec, []Value{in, key}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if !isErr(ret[1]) || !isNilBytes(ret[0]) {
					return "does not report an error and nil"
				}
				return keep(s, in, key, ia, ka)
			})
		}
	})
	c.oblige("TripleDesDecrypt: nil data", func() {
		e := c.engine(sp)
		modelDES(e)
		st := e.newState()
		c.run(e, st, dec, []Value{VSlice{}, st.freshBytes("key")}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			if !isErr(ret[1]) || !isNilBytes(ret[0]) {
				return "does not report an error and nil"
			}
			return ""
		})
	})
	c.oblige("TripleDesDecrypt: whole blocks", func() {
		e := c.engine(sp)
		w := modelDES(e)
		for _, x := range e.fork(e.newState(), func(st *State) Value {
			in := st.freshBytes("data")
			_, r := st.divmod(in.Len, K(8))
			st.assumeEq(r)
			st.assume(in.Len.AddK(-1))
			return VTuple{in, st.freshBytes("key")}
		}) {
			t := x.v.(VTuple)
			in, key := t[0].(VSlice), t[1].(VSlice)
			data, kb, ia, ka := x.st.bytesOf(in), x.st.bytesOf(key), x.st.arr(in), x.st.arr(key)
			c.run(e, x.st, dec, []Value{in, key}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if isErr(ret[1]) {
					return "returns an error"
				}
				out := s.bytesOf(ret[0])
				if !s.cond(in.Len.Sub(ropeLen(out))) {
					return "the result is longer than the data"
				}
				if s.condEq(ropeLen(out), K(0)) {
					return keep(s, in, key, ia, ka)
				}
				d, _ := s.split(data, ropeLen(out))
				return and(w.is(s, out, ecbInverse(w.triple(s, kb)), d, "the result"), keep(s, in, key, ia, ka))
			})
		}
	})
	c.oblige("TripleDesDecrypt undoes TripleDesEncrypt", func() {
		e := c.engine(sp)
		w := modelDES(e)
		for _, x := range e.fork(e.newState(), func(st *State) Value {
			orig, key := st.freshRope("message", byteT()), st.freshBytes("key")
			if !st.condEq(ropeLen(orig), K(0)) {
				st.assumeNe(st.read(orig, ropeLen(orig).AddK(-1)).(VInt).L)
			}
			p := st.normRope(zeroPadded(st, orig))
			t := w.then(st, w.text(nil, p, K(0), st.ropeKey(p)), w.triple(st, st.bytesOf(key)))
			return VTuple{st.dataIn(seqRope(t.seq, K(0), ropeLen(p)), "ciphertext"), key, VStr{orig}}
		}) {
			t := x.v.(VTuple)
			in, key, orig := t[0].(VSlice), t[1].(VSlice), t[2].(VStr).R
			ia, ka := x.st.arr(in), x.st.arr(key)
			c.run(e, x.st, dec, []Value{in, key}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if isErr(ret[1]) {
					return "returns an error"
				}
				return and(s.wantBytes(ret[0], orig, "the message"), keep(s, in, key, ia, ka))
			})
		}
	})
}
