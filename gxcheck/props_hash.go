package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C16"] = &propCheck{run: checkHash, minObl: 30}
}

// ---- library hashes: an algorithm applied to the bytes written since the last reset ----

type hashAlgo struct {
	name        string
	size, block int64
}

var hashAlgos = []hashAlgo{{"md5", 16, 64}, {"sha1", 20, 64}, {"sha224", 28, 64}, {"sha256", 32, 64}, {"sha384", 48, 128}, {"sha512", 64, 128},
	{"sha512/224", 28, 128}, {"sha512/256", 32, 128}, {"adler32", 4, 4}, {"fnv32", 4, 1}, {"fnv32a", 4, 1}, {"fnv64", 8, 1}, {"fnv64a", 8, 1}}

func algoIndex(name string, size, block int64) int64 {
	for i, a := range hashAlgos {
		if a.name == name {
			return int64(i)
		}
	}
	hashAlgos = append(hashAlgos, hashAlgo{name, size, block})
	return int64(len(hashAlgos) - 1)
}

// digest is the rope of the digest of data.
func (st *State) digest(algo int64, data Rope) Rope {
	key := fmt.Sprintf("digest:%s:%s", hashAlgos[algo].name, st.ropeKey(data))
	s, ok := fnSeqs[key]
	if !ok {
		s = newSeq(hashAlgos[algo].name+" digest", byteT())
		s.fixed = true
		fnSeqs[key] = s
	}
	return seqRope(s, K(0), K(hashAlgos[algo].size))
}

func modelHashes(e *Engine) {
	m := e.models
	mk := func(st *State, i int64) Value {
		id := st.newObj(types.Typ[types.Int], VStruct{[]Value{VInt{K(i)}, VStr{}}}, hashAlgos[i].name+" state")
		l := symLin(newSym("hash"))
		return VIface{Opq: &l, Tag: "hash", V: VPtr{Obj: id}}
	}
	for fn, a := range map[string]string{"crypto/md5.New": "md5", "crypto/sha1.New": "sha1", "crypto/sha256.New": "sha256", "crypto/sha256.New224": "sha224",
		"crypto/sha512.New": "sha512", "crypto/sha512.New384": "sha384", "crypto/sha512.New512_224": "sha512/224", "crypto/sha512.New512_256": "sha512/256",
		"hash/adler32.New": "adler32", "hash/fnv.New32": "fnv32", "hash/fnv.New32a": "fnv32a", "hash/fnv.New64": "fnv64", "hash/fnv.New64a": "fnv64a"} {
		m[fn] = func(c *callCtx) Value { return mk(c.st, algoIndex(a, 0, 0)) }
	}
	for fn, a := range map[string]string{"crypto/md5.Sum": "md5", "crypto/sha1.Sum": "sha1", "crypto/sha256.Sum256": "sha256", "crypto/sha512.Sum512": "sha512"} {
		m[fn] = func(c *callCtx) Value {
			return VArray{c.st.digest(algoIndex(a, 0, 0), c.st.bytesOf(c.args[0]))}
		}
	}
	table := func(kind string, poly Lin) Value {
		s, _ := defSym(kind+" table "+poly.key(), kind+" table", &symDef{op: "crctable", tag: kind + ":" + poly.String()})
		return VOpq{symLin(s), "crctable"}
	}
	for _, k := range []string{"crc32", "crc64"} {
		m["hash/"+k+".MakeTable"] = func(c *callCtx) Value {
			l := c.st.c.norm(c.args[0].(VInt).L)
			if !l.isK() {
				giveUp("%s: unknown polynomial", c.pos)
			}
			return table(k, l)
		}
		size := int64(4)
		if k == "crc64" {
			size = 8
		}
		m["hash/"+k+".New"] = func(c *callCtx) Value {
			t, ok := c.args[0].(VOpq)
			if ok {
				if s, ok := c.st.c.norm(t.L).onlySym(); ok {
					if d := symDefOf(s); d != nil && d.op == "crctable" {
						return mk(c.st, algoIndex(d.tag, size, 1))
					}
					if strings.Contains(symName(s), "crc32.IEEETable") {
						return mk(c.st, algoIndex("crc32:"+K(0xedb88320).String(), 4, 1))
					}
				}
			}
			giveUp("%s: unknown checksum table", c.pos)
			return nil
		}
	}
	m["hash/crc32.NewIEEE"] = func(c *callCtx) Value { return mk(c.st, algoIndex("crc32:"+K(0xedb88320).String(), 4, 1)) }
	e.invoke = func(c *callCtx, recv VIface, method string) (Value, bool) {
		if recv.Tag != "hash" {
			return nil, false
		}
		st := c.st
		id := recv.V.(VPtr).Obj
		f := st.heap[id].v.(VStruct).F
		a := f[0].(VInt).L.c.int64()
		data := f[1].(VStr).R
		switch method {
		case "Write":
			r := st.bytesOf(c.args[0])
			st.store(VPtr{Obj: id}, VStruct{[]Value{f[0], VStr{st.normRope(append(append(Rope{}, data...), r...))}}})
			return VTuple{VInt{ropeLen(r)}, VIface{}}, true
		case "Sum":
			return st.doAppend(c.args[0].(VSlice), byteT(), st.digest(a, data)), true
		case "Reset":
			st.store(VPtr{Obj: id}, VStruct{[]Value{f[0], VStr{}}})
			return VTuple{}, true
		case "Size":
			return VInt{K(hashAlgos[a].size)}, true
		case "BlockSize":
			return VInt{K(hashAlgos[a].block)}, true
		}
		return nil, false
	}
	m["io.WriteString"] = func(c *callCtx) Value {
		b := c.st.newSlice(byteT(), c.args[1].(VStr).R, "[]byte(string)")
		outs := c.e.callValue(c.st, VFunc{Builtin: "invoke:Write"}, []Value{c.args[0], b}, c.inst, c.sig)
		return reenter{outs}
	}
	atomicModels(e)
}

// atomicModels: a read-modify-write of a package counter returns an unknown value
// (other goroutines run in between) and leaves a record.
func atomicModels(e *Engine) {
	rmw := func(c *callCtx, delta Lin, b *types.Basic) Value {
		p := c.st.resolve(c.args[0])
		old := c.st.freshInt(b, "counter")
		nw := c.st.wrap(old.Add(delta), b)
		n, _ := c.st.ghost["rmw"].(VTuple)
		c.st.ghost["rmw"] = append(n[:len(n):len(n)], VTuple{VPtr{Obj: p.Obj, Path: p.Path}, VInt{delta}, VInt{nw}})
		return VInt{nw}
	}
	for _, k := range []types.BasicKind{types.Int32, types.Uint32, types.Int64, types.Uint64} {
		b := types.Typ[k]
		nm := strings.ToUpper(b.Name()[:1]) + b.Name()[1:]
		add := func(c *callCtx) Value { return rmw(c, c.args[1].(VInt).L, b) }
		e.models["sync/atomic.Add"+nm] = add
		e.models["(*sync/atomic."+nm+").Add"] = add
	}
}

// hexText is the lower-case hexadecimal text of r.
func (st *State) hexText(r Rope) VStr {
	r = st.normRope(r)
	var out Rope
	for _, p := range r {
		switch {
		case p.kind == pSeq && p.dir == 1:
			key := fmt.Sprintf("hex of seq %d", p.seq.id)
			s, ok := fnSeqs[key]
			if !ok {
				s = newSeq("hex("+p.seq.name+")", byteT())
				s.fixed = true
				fnSeqs[key] = s
			}
			out = append(out, seqRope(s, p.start.Scale(2), p.n.Scale(2))...)
		case p.kind == pTable:
			for _, v := range p.tab {
				out = append(out, strRope(fmt.Sprintf("%02x", byte(v)))...)
			}
		default:
			n := st.c.norm(p.n)
			l, ok := valLin(p.val)
			if p.kind != pConst || !ok || !n.isK() || n.c.int64() > 64 {
				giveUp("hexadecimal text of %s", r)
			}
			if lo := st.lowerK(l); st.c.entailsEq(l.AddK(-lo)) {
				for i := int64(0); i < n.c.int64(); i++ {
					out = append(out, strRope(fmt.Sprintf("%02x", byte(lo)))...)
				}
				continue
			}
			key := "hex of byte " + st.c.norm(l).key()
			s, ok := fnSeqs[key]
			if !ok {
				s = newSeq("hex("+l.String()+")", byteT())
				s.fixed = true
				fnSeqs[key] = s
			}
			for i := int64(0); i < n.c.int64(); i++ {
				out = append(out, seqRope(s, K(0), K(2))...)
			}
		}
	}
	return VStr{st.normRope(out)}
}

// bigEndian is the n low bytes of l, most significant first.
func (st *State) bigEndian(l Lin, n int) Rope {
	bs := st.bitsOf(l, 64)
	var r Rope
	for i := n - 1; i >= 0; i-- {
		r = append(r, single(VInt{st.fromBits(bs[8*i : 8*i+8])})...)
	}
	return r
}

func (st *State) hashState(v Value) (algo string, id ObjID, data Rope, ok bool) {
	i, isI := v.(VIface)
	if !isI || i.Opq == nil || i.Tag != "hash" {
		return
	}
	id = i.V.(VPtr).Obj
	f := st.heap[id].v.(VStruct).F
	return hashAlgos[f[0].(VInt).L.c.int64()].name, id, f[1].(VStr).R, true
}

// fingerprint describes a Fingerprint object: its parts by algorithm and its counter.
type fpParts struct {
	md5, sha1, crc ObjID
	size           int
}

func (st *State) fpOf(p VPtr, t *types.Struct) fpParts {
	r := fpParts{size: -1}
	o, ok := st.heap[p.Obj].v.(VStruct)
	if !ok {
		giveUp("fingerprint object is %s", vstr(st.heap[p.Obj].v))
	}
	for i, f := range o.F {
		if a, id, _, ok := st.hashState(f); ok {
			var d *ObjID
			switch a {
			case "md5":
				d = &r.md5
			case "sha1":
				d = &r.sha1
			case crc64ISO():
				d = &r.crc
			default:
				giveUp("the fingerprint contains %s", a)
			}
			if *d != 0 {
				giveUp("the fingerprint contains %s twice", a)
			}
			*d = id
			continue
		}
		if b := basicOf(t.Field(i).Type()); b != nil && b.Kind() == types.Int64 {
			if r.size >= 0 {
				giveUp("the fingerprint has two counters")
			}
			r.size = i
		}
	}
	if r.md5 == 0 || r.sha1 == 0 || r.crc == 0 || r.size < 0 {
		giveUp("the fingerprint is not made of an MD5, a SHA1, a CRC64 and a counter: %s", vstr(o))
	}
	return r
}

func crc64ISO() string { return "crc64:" + KU(0xD800000000000000).String() }

func (st *State) hashData(id ObjID) Rope { return st.heap[id].v.(VStruct).F[1].(VStr).R }

// fpDigest is the specified digest of the fingerprint in its present state.
func (st *State) fpDigest(p VPtr, f fpParts) Rope {
	size := st.heap[p.Obj].v.(VStruct).F[f.size].(VInt).L
	r := st.bigEndian(size, 6)
	for _, x := range []struct {
		id   ObjID
		a, b int64
	}{{f.md5, 4, 10}, {f.sha1, 7, 13}, {f.crc, 1, 7}} {
		a := st.heap[x.id].v.(VStruct).F[0].(VInt).L.c.int64()
		r = append(r, st.sub(st.digest(a, st.hashData(x.id)), K(x.a), K(x.b-x.a))...)
	}
	return r
}

func checkHash(c *Ctx) {
	sp := c.pkg("hash")
	newM := c.fn(sp, "HashMethod.New")
	newF := c.fn(sp, "New")
	strH, strHL := c.fn(sp, "HashMethod.StringHash"), c.fn(sp, "HashMethod.StringHashL")
	ht := newM.Params[0].Type()
	start := func() (*Engine, *State) {
		resetAll()
		e := newEngine(c.p)
		e.debug = c.debug
		modelHashes(e)
		e.runInit(sp)
		return e, e.newState()
	}
	methods := []struct{ name, algo string }{{"MD5", "md5"}, {"SHA1", "sha1"}, {"SHA256", "sha256"}, {"SHA512", "sha512"}, {"CRC32", "crc32:" + K(0xedb88320).String()}, {"CRC64", crc64ISO()}, {"FINGERPRINT", ""}, {"NONE", ""}}
	isNone := func(s *State, v Value) (Lin, string) {
		i, ok := v.(VIface)
		if !ok || i.Dyn == nil || !strings.HasSuffix(i.Dyn.String(), "NoneHash") {
			return Lin{}, "the result is not a placeholder hash: " + vstr(v)
		}
		p, ok := i.V.(VPtr)
		if !ok || p.Obj == 0 {
			return Lin{}, "the placeholder is nil"
		}
		return s.noneID(p)
	}
	for _, m := range methods {
		mv, mt := constOf(sp, m.name)
		if !types.Identical(mt, ht) {
			c.fail("%s is not a HashMethod", m.name)
		}
		for _, fn := range []*ssa.Function{newM, newF} {
			c.oblige(m.name+": "+fn.Name()+" as "+strings.TrimPrefix(fn.RelString(sp.Pkg), ""), func() {
				e, st := start()
				c.run(e, st, fn, []Value{mv}, func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					switch m.name {
					case "NONE":
						_, msg := isNone(s, ret[0])
						return msg
					case "FINGERPRINT":
						i, ok := ret[0].(VIface)
						if !ok || i.Dyn == nil || !strings.HasSuffix(i.Dyn.String(), "Fingerprint") {
							return "the result is not a fingerprint: " + vstr(ret[0])
						}
						return s.freshFP(i.V.(VPtr), i.Dyn)
					}
					a, _, data, ok := s.hashState(ret[0])
					if !ok || a != m.algo {
						return "the result is " + a + vstr(ret[0]) + " instead of " + m.algo
					}
					if !s.c.entailsEq(ropeLen(data)) {
						return "the new hash has already been written to"
					}
					return ""
				})
			})
		}
		for _, fn := range []*ssa.Function{strH, strHL} {
			c.oblige(m.name+": "+fn.Name(), func() {
				e, st := start()
				s := VStr{st.freshRope("s", byteT())}
				// a string is shorter than 2^46 bytes
				c.run(e, st, fn, []Value{mv, s}, func(x *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					var d Rope
					switch m.name {
					case "NONE":
						n, _ := x.ghost["rmw"].(VTuple)
						if len(n) != 1 {
							return "the identity does not come from one atomic step"
						}
						d = x.bigEndian(n[0].(VTuple)[2].(VInt).L, 4)
					case "FINGERPRINT":
						d = x.bigEndian(ropeLen(s.R), 6)
						d = append(d, x.sub(x.digest(algoIndex("md5", 0, 0), s.R), K(4), K(6))...)
						d = append(d, x.sub(x.digest(algoIndex("sha1", 0, 0), s.R), K(7), K(6))...)
						d = append(d, x.sub(x.digest(algoIndex(crc64ISO(), 8, 1), s.R), K(1), K(6))...)
					default:
						d = x.digest(algoIndex(m.algo, 0, 0), s.R)
					}
					want := x.hexText(d).R
					if fn == strHL {
						pre, ok := x.format("%010d-", []Value{VIface{Dyn: types.Typ[types.Int], V: VInt{ropeLen(s.R)}}})
						if !ok {
							return "analysis: length text"
						}
						want = append(append(Rope{}, pre...), want...)
					}
					return x.wantBytes(ret[0], want, "the text")
				})
			})
		}
	}
	// declared values of the type
	var declared []int64
	for _, n := range sp.Pkg.Scope().Names() {
		if k, ok := sp.Pkg.Scope().Lookup(n).(*types.Const); ok && types.Identical(k.Type(), ht) {
			if v, ok := constant.Int64Val(constant.ToInt(k.Val())); ok {
				declared = append(declared, v)
			}
		}
	}
	for _, fn := range []*ssa.Function{newM, newF} {
		c.oblige("unknown method: "+fn.RelString(sp.Pkg), func() {
			e, st := start()
			v := st.fresh(ht, "method").(VInt)
			for _, d := range declared {
				st.assumeNe(v.L.AddK(-d))
			}
			c.run(e, st, fn, []Value{v}, func(s *State, ret []Value, pan *progPanic) string {
				if pan == nil {
					return "an unknown method yields a hash"
				}
				return ""
			})
		})
	}
	checkFingerprint(c, sp, start)
	checkNone(c, sp, start)
}

func (s *State) freshFP(p VPtr, dyn types.Type) string {
	st := dyn.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	f := s.fpOf(p, st)
	for _, id := range []ObjID{f.md5, f.sha1, f.crc} {
		if !s.c.entailsEq(ropeLen(s.hashData(id))) {
			return "a part of the fresh fingerprint has been written to"
		}
	}
	return wantInt(s, s.heap[p.Obj].v.(VStruct).F[f.size], K(0), "the size of a fresh fingerprint")
}

func (s *State) noneID(p VPtr) (Lin, string) {
	n, _ := s.ghost["rmw"].(VTuple)
	if len(n) != 1 {
		return Lin{}, fmt.Sprintf("creation makes %d atomic steps on the identity counter instead of one", len(n))
	}
	r := n[0].(VTuple)
	cnt := r[0].(VPtr)
	if o := s.heap[cnt.Obj]; o == nil || !o.glob {
		return Lin{}, "the identity counter is not shared by all creations"
	}
	d := s.c.norm(r[1].(VInt).L)
	if !d.isK() || d.c.lo&1 == 0 {
		return Lin{}, "the identity counter does not advance by an odd constant"
	}
	o, ok := s.heap[p.Obj].v.(VStruct)
	if !ok {
		return Lin{}, "unexpected placeholder representation"
	}
	for _, f := range o.F {
		if v, ok := f.(VInt); ok && s.provesEq(v.L, r[2].(VInt).L) {
			return v.L, ""
		}
	}
	return Lin{}, "the identity is not the value of the counter after the step"
}

func checkFingerprint(c *Ctx, sp *ssa.Package, start func() (*Engine, *State)) {
	newFP := c.fn(sp, "NewFingerprint")
	ft := newFP.Signature.Results().At(0).Type()
	stt := ft.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	c.oblige("NewFingerprint: fresh state", func() {
		e, st := start()
		c.run(e, st, newFP, nil, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			p, ok := ret[0].(VPtr)
			if !ok || p.Obj == 0 {
				return "no object"
			}
			return s.freshFP(p, ft)
		})
	})
	type fpCase struct {
		e       *Engine
		st      *State
		p       VPtr
		f       fpParts
		before  *State
		size    Lin
		sizeTyp types.Type
	}
	// with runs f on a fingerprint in an arbitrary state
	with := func(name string, f func(x *fpCase)) {
		c.oblige("Fingerprint."+name, func() {
			e, st := start()
			outs := e.Call(st, newFP, nil, nil, nil)
			if len(outs) != 1 || outs[0].pan != nil {
				giveUp("NewFingerprint does not end in exactly one way")
			}
			s := outs[0].st.clone()
			p := outs[0].ret[0].(VPtr)
			fp := s.fpOf(p, stt)
			for _, id := range []ObjID{fp.md5, fp.sha1, fp.crc} {
				o := s.heap[id].v.(VStruct)
				s.store(VPtr{Obj: id}, VStruct{[]Value{o.F[0], VStr{s.freshRope("written", byteT())}}})
			}
			size := symLin(newSym("size"))
			s.assume(size)
			s.assume(K(1 << 61).Sub(size))
			s.store(VPtr{Obj: p.Obj, Path: []pathEl{{field: fp.size}}}, VInt{size})
			f(&fpCase{e: e, st: s, p: p, f: fp, before: s.clone(), size: size, sizeTyp: stt.Field(fp.size).Type()})
		})
	}
	meth := func(n string) *ssa.Function { return c.fn(sp, "Fingerprint."+n) }
	with("Write", func(x *fpCase) {
		b := x.st.freshBytes("p")
		data := x.st.bytesOf(b)
		x.before = x.st.clone()
		c.run(x.e, x.st, meth("Write"), []Value{x.p, b}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			if m := and(heapSame(x.before, s, x.p.Obj, x.f.md5, x.f.sha1, x.f.crc), wantInt(s, ret[0], b.Len, "the count"), wantNilErr(ret[1])); m != "" {
				return m
			}
			for i, id := range []ObjID{x.f.md5, x.f.sha1, x.f.crc} {
				if !s.ropeEq(s.hashData(id), append(append(Rope{}, x.before.hashData(id)...), data...)) {
					return "part " + []string{"md5", "sha1", "crc64"}[i] + " did not get exactly the bytes written"
				}
			}
			return and(wantInt(s, s.heap[x.p.Obj].v.(VStruct).F[x.f.size], x.size.Add(b.Len), "the size"))
		})
	})
	for _, kind := range []string{"any buffer", "nil"} {
		with("Sum: "+kind, func(x *fpCase) {
			b := VSlice{}
			if kind != "nil" {
				b = x.st.freshBytes("b")
			}
			x.before = x.st.clone()
			c.run(x.e, x.st, meth("Sum"), []Value{x.p, b}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if m := heapSame(x.before, s); m != "" {
					return m
				}
				var pre Rope
				if b.Arr != 0 {
					pre = s.bytesOf(b)
				}
				return s.wantBytes(ret[0], append(append(Rope{}, pre...), s.fpDigest(x.p, x.f)...), "the digest")
			})
		})
	}
	with("String", func(x *fpCase) {
		c.run(x.e, x.st, meth("String"), []Value{x.p}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			if m := heapSame(x.before, s); m != "" {
				return m
			}
			d := s.fpDigest(x.p, x.f)
			var want Rope
			for i := int64(0); i < 4; i++ {
				if i > 0 {
					want = append(want, strRope("-")...)
				}
				want = append(want, s.hexText(s.sub(d, K(6*i), K(6))).R...)
			}
			return s.wantBytes(ret[0], want, "the text")
		})
	})
	with("Reset", func(x *fpCase) {
		c.run(x.e, x.st, meth("Reset"), []Value{x.p}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			return and(heapSame(x.before, s, x.p.Obj, x.f.md5, x.f.sha1, x.f.crc), s.freshFP(x.p, ft))
		})
	})
	with("Resetsize", func(x *fpCase) {
		n := x.st.fresh(types.Typ[types.Int64], "n").(VInt)
		c.run(x.e, x.st, meth("Resetsize"), []Value{x.p, n}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			return and(heapSame(x.before, s, x.p.Obj), wantInt(s, s.heap[x.p.Obj].v.(VStruct).F[x.f.size], n.L, "the size"))
		})
	})
	for _, n := range []string{"Size", "Hash", "BlockSize"} {
		with(n, func(x *fpCase) {
			c.run(x.e, x.st, meth(n), []Value{x.p}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				m := heapSame(x.before, s)
				switch n {
				case "Size":
					m = and(m, wantInt(s, ret[0], K(24), "Size"))
				case "Hash":
					m = and(m, wantSame(s, ret[0], VIface{Dyn: ft, V: x.p}, "Hash"))
				}
				return m
			})
		})
	}
}

func wantNilErr(v Value) string {
	if i, ok := v.(VIface); ok && i.Opq == nil && i.Dyn == nil {
		return ""
	}
	return "an error is reported: " + vstr(v)
}

func checkNone(c *Ctx, sp *ssa.Package, start func() (*Engine, *State)) {
	newN := c.fn(sp, "NewNoneHash")
	c.oblige("NewNoneHash: own identity", func() {
		e, st := start()
		c.run(e, st, newN, nil, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			i, ok := ret[0].(VIface)
			if !ok || i.Dyn == nil {
				return "no object"
			}
			_, msg := s.noneID(i.V.(VPtr))
			return msg
		})
	})
	with := func(name string, f func(e *Engine, st *State, p VPtr, id Lin)) {
		c.oblige("NoneHash."+name, func() {
			e, st := start()
			for _, o := range e.Call(st, newN, nil, nil, nil) {
				if o.pan != nil {
					continue
				}
				p := o.ret[0].(VIface).V.(VPtr)
				id, msg := o.st.noneID(p)
				if msg != "" {
					c.fail("%s", msg)
					return
				}
				s := o.st.clone()
				f(e, s, p, id)
			}
		})
	}
	meth := func(n string) *ssa.Function { return c.fn(sp, "NoneHash."+n) }
	with("Write", func(e *Engine, st *State, p VPtr, id Lin) {
		b := st.freshBytes("p")
		before := st.clone()
		c.run(e, st, meth("Write"), []Value{p, b}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			return and(heapSame(before, s), wantInt(s, ret[0], b.Len, "the count"), wantNilErr(ret[1]))
		})
	})
	for _, kind := range []string{"any buffer", "nil"} {
		with("Sum: "+kind, func(e *Engine, st *State, p VPtr, id Lin) {
			b := VSlice{}
			if kind != "nil" {
				b = st.freshBytes("b")
			}
			before := st.clone()
			c.run(e, st, meth("Sum"), []Value{p, b}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if m := heapSame(before, s); m != "" {
					return m
				}
				var pre Rope
				if b.Arr != 0 {
					pre = s.bytesOf(b)
				}
				return s.wantBytes(ret[0], append(append(Rope{}, pre...), s.bigEndian(id, 4)...), "the digest")
			})
		})
	}
	for _, n := range []string{"Reset", "Size", "BlockSize"} {
		with(n, func(e *Engine, st *State, p VPtr, id Lin) {
			before := st.clone()
			c.run(e, st, meth(n), []Value{p}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if n == "Size" {
					return and(heapSame(before, s), wantInt(s, ret[0], K(4), "Size"))
				}
				return heapSame(before, s)
			})
		})
	}
}
