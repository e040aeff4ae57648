package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C32"] = &propCheck{run: checkRSA, minObl: 22}
}

const codecKey = "ac643718-9730-e711-59210"

// made is what the analysis knows about a byte sequence: what made it, from what.
type rsaMade struct {
	kind string // "pem", "pkcs1", "pkix", "base64"
	src  Rope   // pem, base64
	key  VPtr   // pkcs1, pkix
	enc  string // base64 alphabet
}

type rsaKey struct {
	priv bool
	der  Rope // parsed from
}

type rsaWorld struct {
	made      map[int]*rsaMade
	keys      map[ObjID]*rsaKey
	pub, priv types.Type // key structures
}

func (w *rsaWorld) make(st *State, key, name string, m *rsaMade) Rope {
	r := st.fnStr(key, name).R
	w.made[r[0].seq.id] = m
	return r
}

func (w *rsaWorld) whole(st *State, r Rope, kind string) *rsaMade {
	r = st.normRope(r)
	if len(r) == 1 && r[0].kind == pSeq && r[0].dir == 1 && st.c.entailsEq(r[0].start) {
		if m := w.made[r[0].seq.id]; m != nil && m.kind == kind {
			n, _ := defSym("fnstrlen:"+w.keyOf(r[0].seq), "", nil)
			if st.c.entailsEq(r[0].n.Sub(symLin(n))) {
				return m
			}
		}
	}
	return nil
}

func (w *rsaWorld) keyOf(q *Seq) string {
	for k, s := range fnSeqs {
		if s == q {
			return k
		}
	}
	giveUp("sequence %s has no origin", q.name)
	return ""
}

// note records a library step and its outcome.
func (st *State) rsaNote(name string, v ...Value) {
	ev, _ := st.ghost["rsa"].(VTuple)
	st.ghost["rsa"] = append(ev[:len(ev):len(ev)], VTuple(append([]Value{VStr{strRope(name)}}, v...)))
}

func (st *State) rsaNotes() (names []string, args []VTuple) {
	ev, _ := st.ghost["rsa"].(VTuple)
	for _, e := range ev {
		t := e.(VTuple)
		n, ok := constText(st.normRope(t[0].(VStr).R))
		if !ok {
			giveUp("events differ")
		}
		names, args = append(names, n), append(args, t[1:])
	}
	return
}

func constText(r Rope) (string, bool) {
	var b []byte
	for _, p := range r {
		if p.kind != pTable {
			return "", false
		}
		for _, x := range p.tab {
			b = append(b, byte(x))
		}
	}
	return string(b), true
}

func modelRSA(e *Engine, sp *ssa.Package) *rsaWorld {
	w := &rsaWorld{made: map[int]*rsaMade{}, keys: map[ObjID]*rsaKey{}}
	for _, p := range sp.Pkg.Imports() {
		if p.Path() == "crypto/rsa" {
			w.pub, w.priv = p.Scope().Lookup("PublicKey").Type(), p.Scope().Lookup("PrivateKey").Type()
		}
	}
	if w.pub == nil {
		giveUp("crypto/rsa is not used")
	}
	m := e.models
	fail := func(st *State, what string) (VIface, bool) {
		if st.choose(2) == 1 {
			err := st.newErr(what)
			st.rsaNote("fail "+what, err)
			return err, true
		}
		return VIface{}, false
	}
	b64 := func(c *callCtx) string { return c.args[0].(VOpq).Tag }
	m["(*encoding/base64.Encoding).EncodeToString"] = func(c *callCtx) Value {
		r := c.st.normRope(c.st.bytesOf(c.args[1]))
		return VStr{w.make(c.st, "base64:"+b64(c)+c.st.ropeKey(r), "base64 text", &rsaMade{kind: "base64", src: r, enc: b64(c)})}
	}
	m["(*encoding/base64.Encoding).DecodeString"] = func(c *callCtx) Value {
		st := c.st
		in := c.args[1].(VStr).R
		if x := w.whole(st, in, "base64"); x != nil && x.enc == b64(c) {
			return VTuple{st.newSlice(byteT(), x.src, "decoded"), VIface{}}
		}
		if err, bad := fail(st, "base64"); bad {
			return VTuple{st.newSlice(byteT(), st.freshRope("partly decoded", byteT()), "partly decoded"), err}
		}
		return VTuple{st.newSlice(byteT(), st.fnStr("decoded:"+b64(c)+st.ropeKey(st.normRope(in)), "decoded").R, "decoded"), VIface{}}
	}
	m["encoding/hex.DecodeString"] = func(c *callCtx) Value {
		st := c.st
		if err, bad := fail(st, "hex"); bad {
			return VTuple{st.newSlice(byteT(), st.freshRope("partly decoded", byteT()), "partly decoded"), err}
		}
		return VTuple{st.newSlice(byteT(), st.fnStr("unhex:"+st.ropeKey(st.normRope(c.args[0].(VStr).R)), "decoded").R, "decoded"), VIface{}}
	}
	// PEM
	block := func(st *State, t types.Type, data Rope) Value {
		z := e.zero(t).(VStruct)
		f := append([]Value(nil), z.F...)
		f[0], f[2] = VStr{st.freshRope("type", byteT())}, st.newSlice(byteT(), data, "pem bytes")
		return VPtr{Obj: st.newObj(t, VStruct{f}, "pem block")}
	}
	m["encoding/pem.Decode"] = func(c *callCtx) Value {
		st := c.st
		in := st.normRope(st.bytesOf(c.args[0]))
		t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		rest := st.newSlice(byteT(), st.freshRope("rest", byteT()), "rest")
		if x := w.whole(st, in, "pem"); x != nil {
			return VTuple{block(st, t, x.src), rest}
		}
		if st.choose(2) == 1 {
			st.rsaNote("fail pem")
			return VTuple{VPtr{}, c.args[0]}
		}
		return VTuple{block(st, t, st.fnStr("pem of:"+st.ropeKey(in), "der").R), rest}
	}
	pem := func(st *State, b Value) Rope {
		f := st.load(b).(VStruct).F
		if h, ok := f[1].(VMap); ok && h != (VMap{}) {
			giveUp("PEM headers")
		}
		der := st.normRope(st.bytesOf(f[2]))
		r := w.make(st, "pem:"+st.ropeKey(der), "pem text", &rsaMade{kind: "pem", src: der})
		st.assume(ropeLen(r).AddK(-1)) // there always is a header
		return r
	}
	m["encoding/pem.Encode"] = func(c *callCtx) Value {
		st := c.st
		if err, bad := fail(st, "pem write"); bad {
			return err
		}
		out, ok := c.args[0].(VIface)
		if !ok || out.Dyn == nil || out.Dyn.String() != "*bytes.Buffer" {
			giveUp("%s: PEM to %s", c.pos, vstr(c.args[0]))
		}
		q := st.resolve(out.V)
		p := VPtr{Obj: q.Obj, Path: append(q.Path[:len(q.Path):len(q.Path)], pathEl{field: 0})}
		s, ok := st.load(p).(VSlice)
		if !ok {
			giveUp("%s: buffer", c.pos)
		}
		st.store(p, st.doAppend(s, byteT(), pem(st, c.args[1])))
		return VIface{}
	}
	m["encoding/pem.EncodeToMemory"] = func(c *callCtx) Value { return c.st.newSlice(byteT(), pem(c.st, c.args[0]), "pem text") }
	// keys
	parse := func(st *State, t types.Type, der Rope, priv bool) VPtr {
		id := st.newObj(t, VJunk{}, "key")
		w.keys[id] = &rsaKey{priv, der}
		return VPtr{Obj: id}
	}
	ptr := func(t types.Type) types.Type { return types.NewPointer(t) }
	m["crypto/x509.ParsePKIXPublicKey"] = func(c *callCtx) Value {
		st := c.st
		der := st.normRope(st.bytesOf(c.args[0]))
		if x := w.whole(st, der, "pkix"); x != nil {
			return VTuple{VIface{Dyn: ptr(w.pub), V: x.key}, VIface{}}
		}
		if err, bad := fail(st, "pkix"); bad {
			return VTuple{VIface{}, err}
		}
		if st.choose(2) == 1 {
			st.rsaNote("fail other key")
			other := types.NewNamed(types.NewTypeName(0, nil, "another public key", nil), types.NewStruct(nil, nil), nil)
			return VTuple{VIface{Dyn: ptr(other), V: VPtr{Obj: st.newObj(other, VStruct{}, "other key")}}, VIface{}}
		}
		return VTuple{VIface{Dyn: ptr(w.pub), V: parse(st, w.pub, der, false)}, VIface{}}
	}
	m["crypto/x509.ParsePKCS1PrivateKey"] = func(c *callCtx) Value {
		st := c.st
		der := st.normRope(st.bytesOf(c.args[0]))
		if x := w.whole(st, der, "pkcs1"); x != nil {
			return VTuple{x.key, VIface{}}
		}
		if err, bad := fail(st, "pkcs1"); bad {
			return VTuple{VPtr{}, err}
		}
		return VTuple{parse(st, w.priv, der, true), VIface{}}
	}
	m["crypto/rsa.GenerateKey"] = func(c *callCtx) Value {
		st := c.st
		if err, bad := fail(st, "generate"); bad {
			return VTuple{VPtr{}, err}
		}
		p := parse(st, w.priv, nil, true)
		st.rsaNote("generate", c.args[0], c.args[1], p)
		return VTuple{p, VIface{}}
	}
	pubOf := func(p VPtr) VPtr {
		return VPtr{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], pathEl{field: 0})}
	}
	m["(*crypto/rsa.PrivateKey).Public"] = func(c *callCtx) Value {
		return VIface{Dyn: ptr(w.pub), V: pubOf(c.st.resolve(c.args[0]))}
	}
	der := func(st *State, kind string, key Value) Value {
		p, ok := key.(VPtr)
		if !ok || p.Obj == 0 {
			giveUp("key %s", vstr(key))
		}
		return st.newSlice(byteT(), w.make(st, fmt.Sprintf("%s:%d:%d", kind, p.Obj, len(p.Path)), kind+" data", &rsaMade{kind: kind, key: p}), kind)
	}
	m["crypto/x509.MarshalPKCS1PrivateKey"] = func(c *callCtx) Value { return der(c.st, "pkcs1", c.args[0]) }
	m["crypto/x509.MarshalPKIXPublicKey"] = func(c *callCtx) Value {
		if err, bad := fail(c.st, "marshal"); bad {
			return VTuple{VSlice{}, err}
		}
		i, ok := c.args[0].(VIface)
		if !ok || i.Dyn == nil || !types.Identical(i.Dyn, ptr(w.pub)) {
			giveUp("%s: public key %s", c.pos, vstr(c.args[0]))
		}
		return VTuple{der(c.st, "pkix", i.V), VIface{}}
	}
	// operations: every call is recorded with its result
	op := func(name string, text []int, result bool) modelFn {
		return func(c *callCtx) Value {
			st := c.st
			rec := append([]Value{}, c.args...)
			for _, i := range text {
				rec[i] = VStr{st.normRope(st.bytesOf(c.args[i]))}
			}
			if st.choose(2) == 1 {
				err := st.newErr(name)
				st.rsaNote(name, append(rec, VStr{}, err)...)
				if !result {
					return err
				}
				return VTuple{VSlice{}, err}
			}
			r := st.freshRope(name+" result", byteT())
			st.rsaNote(name, append(rec, VStr{r}, VIface{})...)
			if !result {
				return VIface{}
			}
			return VTuple{st.newSlice(byteT(), r, name), VIface{}}
		}
	}
	m["crypto/rsa.EncryptPKCS1v15"] = op("encrypt", []int{2}, true)
	m["crypto/rsa.DecryptPKCS1v15"] = op("decrypt", []int{2}, true)
	m["crypto/rsa.SignPKCS1v15"] = op("sign", []int{3}, true)
	m["crypto/rsa.VerifyPKCS1v15"] = op("verify", []int{2, 3}, false)
	// hashes
	modelHashes(e)
	m["(crypto.Hash).New"] = func(c *callCtx) Value {
		id := c.st.newObj(types.Typ[types.Int], VStruct{[]Value{VInt{K(hashByNumber(c.st, c.args[0].(VInt).L))}, VStr{}}}, "hash state")
		l := symLin(newSym("hash"))
		return VIface{Opq: &l, Tag: "hash", V: VPtr{Obj: id}}
	}
	m["(crypto.Hash).Available"] = func(c *callCtx) Value { return VBool(true) }
	sizes := map[string]Lin{}
	size := func(c *callCtx) Value {
		k := c.key + vstr(c.args[0])
		if n, ok := c.args[0].(VInt); ok {
			k = "hash" + c.st.c.norm(n.L).String()
		}
		l, ok := sizes[k]
		if !ok {
			l = symLin(newSym("size"))
			sizes[k] = l
		}
		c.st.assume(l.AddK(-1))
		c.st.assume(K(1 << 20).Sub(l))
		return VInt{l}
	}
	m["(crypto.Hash).Size"] = size
	m["(*crypto/rsa.PublicKey).Size"] = size
	m["(crypto.Hash).HashFunc"] = func(c *callCtx) Value { return c.args[0] }
	return w
}

func hashByNumber(st *State, n Lin) int64 {
	n = st.c.norm(n)
	if n.isK() {
		switch n.c.int64() {
		case 2:
			return algoIndex("md5", 0, 0)
		case 3:
			return algoIndex("sha1", 0, 0)
		case 4:
			return algoIndex("sha224", 0, 0)
		case 5:
			return algoIndex("sha256", 0, 0)
		case 6:
			return algoIndex("sha384", 0, 0)
		case 7:
			return algoIndex("sha512", 0, 0)
		}
	}
	return algoIndex("hash number "+n.key(), 64, 128)
}

func checkRSA(c *Ctx) {
	sp := c.pkg("crypto/rsa")
	start := func() (*Engine, *State, *rsaWorld, *ecbWorld) {
		e := c.engine(sp)
		w := modelRSA(e, sp)
		d := modelDES(e)
		return e, e.newState(), w, d
	}
	text := func(st *State, str bool, r Rope) Value {
		if str {
			return VStr{r}
		}
		return st.dataIn(r, "data")
	}
	empty := func(st *State, v Value) bool {
		switch x := v.(type) {
		case VSlice:
			return x.Arr == 0
		case VStr:
			return st.c.entailsEq(ropeLen(x.R))
		}
		return false
	}
	// ---- the keyed text codec ----
	for _, x := range []struct {
		enc, dec string
		str      bool
	}{{"Encode", "Decode", false}, {"EncodeString", "DecodeString", true}} {
		x := x
		c.oblige(x.enc+": base64 of the encrypted data", func() {
			fn := c.fn(sp, x.enc)
			e, st, w, d := start()
			data := st.freshRope("data", byteT())
			in := text(st, x.str, data)
			before := st.clone()
			c.run(e, st, fn, []Value{in}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				r, ok := ret[0].(VStr)
				if !ok {
					return "returns " + vstr(ret[0])
				}
				m := w.whole(s, r.R, "base64")
				if m == nil || m.enc != "encoding/base64.StdEncoding" {
					return "the result is " + s.normRope(r.R).String() + ", not standard base64"
				}
				return and(d.is(s, m.src, d.triple(s, strRope(codecKey)), zeroPadded(s, data), "the encoded data"), heapSame(before, s))
			})
		})
		c.oblige(x.dec+" undoes "+x.enc, func() {
			fn := c.fn(sp, x.dec)
			e, st0, w, d := start()
			for _, f := range e.fork(st0, func(st *State) Value {
				orig := st.freshRope("message", byteT())
				if !st.condEq(ropeLen(orig), K(0)) {
					st.assumeNe(st.read(orig, ropeLen(orig).AddK(-1)).(VInt).L)
				}
				p := st.normRope(zeroPadded(st, orig))
				t := d.then(st, d.text(nil, p, K(0), st.ropeKey(p)), d.triple(st, strRope(codecKey)))
				r := seqRope(t.seq, K(0), ropeLen(p))
				const std = "encoding/base64.StdEncoding"
				return VTuple{VStr{w.make(st, "base64:"+std+st.ropeKey(r), "base64 text", &rsaMade{kind: "base64", src: r, enc: std})}, VStr{orig}}
			}) {
				t := f.v.(VTuple)
				c.run(e, f.st, fn, []Value{t[0]}, func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					return s.wantBytes(ret[0], t[1].(VStr).R, "the message")
				})
			}
		})
		c.oblige(x.dec+": any text", func() {
			fn := c.fn(sp, x.dec)
			e, st, _, d := start()
			in := VStr{st.freshRope("text", byteT())}
			before := st.clone()
			c.run(e, st, fn, []Value{in}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if m := heapSame(before, s); m != "" {
					return m
				}
				raw := s.fnStr("decoded:encoding/base64.StdEncoding"+s.ropeKey(s.normRope(in.R)), "decoded").R
				_, r := s.divmod(ropeLen(raw), K(8))
				names, _ := s.rsaNotes()
				bad := len(names) == 1 && names[0] == "fail base64"
				if !bad && len(names) != 0 {
					return "unexpected library failure"
				}
				if bad || s.condEq(ropeLen(raw), K(0)) || !s.condEq(r, K(0)) {
					if !empty(s, ret[0]) {
						return "malformed text does not yield an empty result"
					}
					return ""
				}
				out := s.bytesOf(ret[0])
				if !s.cond(ropeLen(raw).Sub(ropeLen(out))) {
					return "the result is longer than the data"
				}
				if s.condEq(ropeLen(out), K(0)) {
					return ""
				}
				p, _ := s.split(raw, ropeLen(out))
				return d.is(s, out, ecbInverse(d.triple(s, strRope(codecKey))), p, "the result")
			})
		})
	}
	for _, x := range []struct {
		name string
		str  bool
	}{{"Hash", false}, {"HashString", true}} {
		x := x
		c.oblige(x.name+": five rounds of key, data, key", func() {
			fn := c.fn(sp, x.name)
			e, st, _, _ := start()
			data := st.freshRope("data", byteT())
			in := text(st, x.str, data)
			before := st.clone()
			c.run(e, st, fn, []Value{in}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				var all Rope
				for i := 0; i < 5; i++ {
					all = append(append(append(all, strRope(codecKey)...), data...), strRope(codecKey)...)
				}
				want := s.digest(algoIndex("sha512", 0, 0), s.normRope(all))
				if x.str {
					want = s.hexText(want).R
				}
				return and(s.wantBytes(ret[0], want, "the hash"), heapSame(before, s))
			})
		})
	}
	c.oblige("BytesToHexString", func() {
		fn := c.fn(sp, "BytesToHexString")
		e, st, _, _ := start()
		data := st.freshRope("data", byteT())
		c.run(e, st, fn, []Value{text(st, false, data)}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			return s.wantBytes(ret[0], s.hexText(data).R, "the text")
		})
	})
	c.oblige("HexStringToBytes", func() {
		fn := c.fn(sp, "HexStringToBytes")
		e, st, _, _ := start()
		in := VStr{st.freshRope("text", byteT())}
		c.run(e, st, fn, []Value{in}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			if n, _ := s.rsaNotes(); len(n) > 0 {
				if !empty(s, ret[0]) {
					return "malformed text does not yield nil"
				}
				return ""
			}
			return s.wantBytes(ret[0], s.fnStr("unhex:"+s.ropeKey(s.normRope(in.R)), "decoded").R, "the data")
		})
	})
	// ---- RSA ----
	type side struct{ typ, make, must string }
	client, server := side{"RsaClient", "NewClient", "MustNewClient"}, side{"RsaServer", "NewServer", "MustNewServer"}
	// obj is an object of the type holding an arbitrary key, made by the constructor.
	type held struct {
		st  *State
		obj Value
		key ObjID
	}
	build := func(e *Engine, st *State, w *rsaWorld, sd side) (out []held) {
		pemText := st.freshBytes("pem")
		for _, o := range e.Call(st, c.fn(sp, sd.make), []Value{pemText}, nil, nil) {
			if o.pan != nil || len(o.ret) != 2 {
				continue // judged by the obligations about construction
			}
			p, ok := o.ret[0].(VPtr)
			if !ok || p.Obj == 0 {
				continue
			}
			var key ObjID
			for id := range w.keys {
				if o.st.heap[id] != nil && int(id) > 0 {
					if key != 0 {
						giveUp("more than one key")
					}
					key = id
				}
			}
			delete(o.st.ghost, "rsa")
			out = append(out, held{o.st, p, key})
		}
		if len(out) == 0 {
			c.fail("%s never succeeds", sd.make)
		}
		return
	}
	for _, sd := range []side{client, server} {
		sd := sd
		for _, must := range []bool{false, true} {
			must := must
			name := sd.make
			if must {
				name = sd.must
			}
			c.oblige(name+": the key in the text, or a failure", func() {
				fn := c.fn(sp, name)
				e, st, w, _ := start()
				in := st.freshBytes("pem")
				text, arr := st.normRope(st.bytesOf(in)), st.arr(in)
				c.run(e, st, fn, []Value{in}, func(s *State, ret []Value, pan *progPanic) string {
					names, _ := s.rsaNotes()
					if len(names) > 0 { // something failed
						if must {
							if pan == nil {
								return "does not panic when the key is unusable: " + names[0]
							}
							return ""
						}
						if pan != nil {
							return panMsg(pan)
						}
						if p, ok := ret[0].(VPtr); !ok || p.Obj != 0 || !isErr(ret[1]) {
							return "does not report an error and nil: " + names[0]
						}
						return s.unchanged(in, arr, "the text")
					}
					if pan != nil {
						return panMsg(pan)
					}
					if !must && isErr(ret[1]) {
						return "reports an error for a usable key"
					}
					p, ok := ret[0].(VPtr)
					if !ok || p.Obj == 0 {
						return "returns nil for a usable key"
					}
					n := 0
					for id, k := range w.keys {
						if s.heap[id] == nil {
							continue
						}
						n++
						if k.priv != (sd == server) || !s.ropeEq(k.der, s.fnStr("pem of:"+s.ropeKey(text), "der").R) {
							return "the key is not the one in the text"
						}
					}
					if n != 1 {
						return fmt.Sprintf("%d keys were read", n)
					}
					return s.unchanged(in, arr, "the text")
				})
			})
		}
	}
	// one library operation with exactly these arguments; its outcome is the outcome
	type call struct {
		sd            side
		method, event string
		signed, hash  bool
		deflt         bool
	}
	for _, x := range []call{
		{client, "Encrypt", "encrypt", false, false, false}, {server, "Decrypt", "decrypt", false, false, false},
		{server, "Sign", "sign", false, true, false}, {server, "SignDefault", "sign", false, true, true},
		{client, "Verify", "verify", true, true, false}, {client, "VerifyDefault", "verify", true, true, true},
	} {
		x := x
		c.oblige(x.sd.typ+"."+x.method, func() {
			fn := c.fn(sp, x.sd.typ+"."+x.method)
			e, st, w, _ := start()
			for _, h := range build(e, st, w, x.sd) {
				st := h.st
				data := st.freshBytes("data")
				arr, raw := st.arr(data), st.normRope(st.bytesOf(data))
				args := []Value{h.obj, data}
				var sig Rope
				if x.signed {
					s := st.freshBytes("signature")
					sig = st.normRope(st.bytesOf(s))
					args = append(args, s)
				}
				hash := K(7)
				if x.hash && !x.deflt {
					v := st.fresh(fn.Params[len(fn.Params)-1].Type(), "hash").(VInt)
					hash = v.L
					args = append(args, v)
				}
				key := h.key
				c.run(e, st, fn, args, func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					names, ev := s.rsaNotes()
					if len(names) != 1 || names[0] != x.event {
						return fmt.Sprintf("does not %s exactly once: %v", x.event, names)
					}
					a := ev[0]
					ki := 1
					if x.event == "verify" {
						ki = 0
					}
					if k, ok := a[ki].(VPtr); !ok || k.Obj != key || len(k.Path) != 0 {
						return "uses another key"
					}
					if x.event == "encrypt" {
						if r, ok := a[0].(VIface); !ok || r.Tag != "crypto/rand.Reader" {
							return "does not use the secure random source"
						}
					}
					want := raw
					di := 2
					if x.hash {
						if h, ok := a[ki+1].(VInt); !ok || !s.c.entailsEq(h.L.Sub(hash)) {
							return "names another hash"
						}
						want, di = s.digest(hashByNumber(s, hash), raw), ki+2
					}
					if m := s.wantBytes(a[di], want, "the text handed over"); m != "" {
						return m
					}
					if x.signed {
						if m := s.wantBytes(a[di+1], sig, "the signature handed over"); m != "" {
							return m
						}
					}
					res, err := a[len(a)-2].(VStr), a[len(a)-1].(VIface)
					got := ret[len(ret)-1]
					if g, ok := got.(VIface); !ok || isErr(got) != isErr(err) || isErr(got) && !s.sameVal(g, err) {
						return "the outcome is not the one of the operation"
					}
					if len(ret) == 2 {
						if isErr(err) {
							if !empty(s, ret[0]) {
								return "a failed operation yields data"
							}
						} else if m := s.wantBytes(ret[0], res.R, "the result"); m != "" {
							return m
						}
					}
					return s.unchanged(data, arr, "the data")
				})
			}
		})
	}
	c.oblige("GenRsaKeys: a private key and its public key", func() {
		fn := c.fn(sp, "GenRsaKeys")
		e, st, w, _ := start()
		bits := st.fresh(types.Typ[types.Int], "bits").(VInt)
		c.run(e, st, fn, []Value{bits}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			names, ev := s.rsaNotes()
			var key VPtr
			failed := false
			for i, n := range names {
				if n != "generate" {
					failed = true
					continue
				}
				if r, ok := ev[i][0].(VIface); !ok || r.Tag != "crypto/rand.Reader" {
					return "does not use the secure random source"
				}
				if b := ev[i][1].(VInt); !s.c.entailsEq(b.L.Sub(bits.L)) {
					return "makes a key of another size"
				}
				if key.Obj != 0 {
					return "makes more than one key"
				}
				key = ev[i][2].(VPtr)
			}
			if failed {
				if !isErr(ret[2]) || !empty(s, ret[0]) || !empty(s, ret[1]) {
					return "a failure does not yield an error and no keys"
				}
				return ""
			}
			if isErr(ret[2]) || key.Obj == 0 {
				return "reports an error without a failure"
			}
			get := func(v Value, kind string) (VPtr, bool) {
				if sl, ok := v.(VSlice); !ok || sl.Arr == 0 {
					return VPtr{}, false
				}
				p := w.whole(s, s.bytesOf(v), "pem")
				if p == nil {
					return VPtr{}, false
				}
				d := w.whole(s, p.src, kind)
				if d == nil {
					return VPtr{}, false
				}
				return d.key, true
			}
			if p, ok := get(ret[0], "pkcs1"); !ok || p.Obj != key.Obj || len(p.Path) != 0 {
				return "the first text is not the private key"
			}
			if p, ok := get(ret[1], "pkix"); !ok || p.Obj != key.Obj || len(p.Path) != 1 {
				return "the second text is not the public key"
			}
			return ""
		})
	})
}
