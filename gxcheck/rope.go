package main

import (
	"fmt"
	"go/types"
	"strings"
)

func ropeLen(r Rope) Lin {
	l := K(0)
	for _, p := range r {
		l = l.Add(p.n)
	}
	return l
}

func tableRope(vals []int64) Rope {
	if len(vals) == 0 {
		return nil
	}
	return Rope{{n: K(int64(len(vals))), kind: pTable, tab: vals}}
}

func strRope(s string) Rope {
	t := make([]int64, len(s))
	for i := 0; i < len(s); i++ {
		t[i] = int64(s[i])
	}
	return tableRope(t)
}

func constRope(r Rope) (string, bool) {
	var b strings.Builder
	for _, p := range r {
		if p.kind != pTable {
			if p.n.isK() && p.n.c.sign() == 0 {
				continue
			}
			return "", false
		}
		for _, v := range p.tab {
			b.WriteByte(byte(v))
		}
	}
	return b.String(), true
}

func seqRope(s *Seq, start, n Lin) Rope {
	return Rope{{n: n, kind: pSeq, seq: s, start: start, dir: 1}}
}

// single is a one-element rope.
func single(v Value) Rope {
	if l, ok := valLin(v); ok {
		if _, isInt := v.(VInt); isInt && l.isK() && l.c.isInt64() {
			return tableRope([]int64{l.c.int64()})
		}
		if s, ok := l.onlySym(); ok {
			if d := symDefOf(s); d != nil && d.op == "app" {
				return Rope{{n: K(1), kind: pSeq, seq: d.seq, start: d.args[0], dir: 1}}
			}
		}
	}
	return Rope{{n: K(1), kind: pConst, val: v}}
}

// valLin gives the integer identity of int-like and opaque values.
func valLin(v Value) (Lin, bool) {
	switch v := v.(type) {
	case VInt:
		return v.L, true
	case VOpq:
		return v.L, true
	case VIface:
		if v.Opq != nil {
			return *v.Opq, true
		}
	}
	return Lin{}, false
}

// elem reads element idx of an unknown sequence.
func (st *State) seqElem(s *Seq, idx Lin) Value {
	if s.mk != nil {
		return s.mk(st, idx)
	}
	return st.wrapElem(s, symLin(st.appSym(s, idx)))
}

func (st *State) appSym(s *Seq, idx Lin) Sym {
	n := st.c.norm(idx)
	key := fmt.Sprintf("app:%d:%s", s.id, n.key())
	if y, ok := symMemo[key]; ok {
		return y
	}
	for _, a := range s.apps {
		if st.c.entailsEq(symDefOf(a).args[0].Sub(n)) {
			return a
		}
	}
	y, _ := defSym(key, s.name+"["+n.String()+"]", &symDef{op: "app", seq: s, args: []Lin{n}})
	s.apps = append(s.apps, y)
	return y
}

// wrapElem turns an identity into a value of the sequence's element type and
// records the type's range.
func (st *State) wrapElem(s *Seq, l Lin) Value {
	if s.elem == nil {
		return VInt{l}
	}
	if b, ok := s.elem.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		lo, hi := intRange(b)
		if s.lo != nil {
			st.assume(l.Sub(*s.lo))
		} else {
			st.assume(l.Sub(kn(lo)))
		}
		if s.hi != nil {
			st.assume(s.hi.Sub(l))
		} else {
			st.assume(kn(hi).Sub(l))
		}
		return VInt{l}
	}
	if _, ok := s.elem.Underlying().(*types.Interface); ok {
		return VIface{Opq: &l, Tag: s.name}
	}
	return VOpq{l, s.name}
}

var tabSeqs map[string]*Seq

func (st *State) tableSeq(tab []int64, elem types.Type) *Seq {
	pk := fmt.Sprintf("%p:%d", &tab[0], len(tab))
	if s, ok := tabSeqs[pk]; ok {
		return s
	}
	k := fmt.Sprint(tab)
	if s, ok := tabSeqs[k]; ok {
		tabSeqs[pk] = s
		return s
	}
	inc := true
	for i := 1; i < len(tab); i++ {
		inc = inc && tab[i-1] < tab[i]
	}
	s := newSeq(fmt.Sprintf("table%d", len(tab)), elem)
	lo, hi := int64(1<<62), int64(-1<<62)
	for _, v := range tab {
		lo, hi = min(lo, v), max(hi, v)
	}
	kl, kh := K(lo), K(hi)
	s.lo, s.hi = &kl, &kh
	s.mk = func(st *State, idx Lin) Value {
		n := st.c.norm(idx)
		for _, h := range st.eng.tabHint {
			if st.cond(n.Sub(h)) {
				st.condEq(n, h)
			}
		}
		n = st.c.norm(n)
		if n.isK() && len(st.eng.tabHint) == 0 {
			return VInt{K(tab[n.c.int64()])}
		}
		var y Lin
		if n.isK() {
			y = K(tab[n.c.int64()])
		} else {
			y = symLin(st.appSym(s, n))
			st.assume(y.AddK(-lo))
			st.assume(K(hi).Sub(y))
		}
		if inc {
			for _, a := range s.apps {
				i, x := symDefOf(a).args[0], symLin(a)
				switch {
				case st.c.entailsEq(i.Sub(n)):
					st.assumeEq(x.Sub(y))
				case st.c.entails(i.Sub(n).AddK(-1)):
					st.assume(x.Sub(y).AddK(-1))
				case st.c.entails(n.Sub(i).AddK(-1)):
					st.assume(y.Sub(x).AddK(-1))
				}
			}
			// the tabulated values at a constant bound of the index
			if b := st.lowerK(n); b > 0 && b < int64(len(tab)) {
				st.assume(y.AddK(-tab[b]))
			}
			if b, ok := st.upperK(n); ok && b < int64(len(tab)) {
				st.assume(K(tab[b]).Sub(y))
			}
		}
		return VInt{y}
	}
	tabSeqs[k], tabSeqs[pk] = s, s
	return s
}

// cutPiece splits p after the first k elements (0 <= k <= n known).
func (st *State) cutPiece(p Piece, k Lin) (Piece, Piece) {
	a, b := p, p
	a.n, b.n = k, p.n.Sub(k)
	switch p.kind {
	case pSeq:
		b.start = p.start.Add(k.Scale(p.dir))
	case pTable:
		kk := st.c.norm(k)
		if kk.isK() {
			i := kk.c.int64()
			a.tab, b.tab = p.tab[:i:i], p.tab[i:]
			a.n, b.n = K(i), K(int64(len(p.tab))-i)
		} else {
			s := st.tableSeq(p.tab, types.Typ[types.Int])
			a = Piece{n: k, kind: pSeq, seq: s, start: K(0), dir: 1}
			b = Piece{n: p.n.Sub(k), kind: pSeq, seq: s, start: k, dir: 1}
		}
	}
	return a, b
}

// split cuts a rope at position at, 0 <= at <= len.
func (st *State) split(r Rope, at Lin) (Rope, Rope) {
	pos := K(0)
	// a piece boundary by mere arithmetic
	left := st.c.norm(at)
	for i, p := range r {
		if left.isK() && left.c.sign() == 0 {
			return r[:i:i], r[i:]
		}
		left = left.Sub(st.c.norm(p.n))
	}
	if left.isK() && left.c.sign() == 0 {
		return r, nil
	}
	for i, p := range r {
		if st.c.entailsEq(at.Sub(pos)) {
			return r[:i:i], r[i:]
		}
		end := pos.Add(p.n)
		if st.c.entailsEq(at.Sub(end)) {
			return r[: i+1 : i+1], r[i+1:]
		}
		if i == len(r)-1 || !st.cond(at.Sub(end)) {
			a, b := st.cutPiece(p, at.Sub(pos))
			l := append(append(Rope{}, r[:i]...), a)
			rr := append(Rope{b}, r[i+1:]...)
			return l, rr
		}
		pos = end
	}
	return r, nil
}

// sub extracts r[from:from+n].
func (st *State) sub(r Rope, from, n Lin) Rope {
	_, t := st.split(r, from)
	m, _ := st.split(t, n)
	return m
}

func (st *State) elemAt(p Piece, off Lin) Value {
	switch p.kind {
	case pSeq:
		return st.seqElem(p.seq, p.start.Add(off.Scale(p.dir)))
	case pConst:
		return p.val
	case pTable:
		o := st.c.norm(off)
		if o.isK() && o.c.isInt64() && len(st.eng.tabHint) == 0 {
			return VInt{K(p.tab[o.c.int64()])}
		}
		return st.seqElem(st.tableSeq(p.tab, types.Typ[types.Int]), off)
	}
	return VJunk{}
}

// read returns element i (0 <= i < len known).
func (st *State) read(r Rope, i Lin) Value {
	pos := K(0)
	for k, p := range r {
		end := pos.Add(p.n)
		if k == len(r)-1 || !st.cond(i.Sub(end)) {
			return st.elemAt(p, i.Sub(pos))
		}
		pos = end
	}
	giveUp("read from an empty array")
	return nil
}

func (st *State) write(r Rope, i Lin, v Value) Rope {
	a, t := st.split(r, i)
	_, b := st.split(t, K(1))
	out := append(append(append(Rope{}, a...), single(v)...), b...)
	return st.normRope(out)
}

// normRope drops empty pieces and merges adjacent ones.
func (st *State) normRope(r Rope) Rope {
	var out Rope
	for i, p := range r {
		if p.kind == pSeq && p.seq.alias != nil && !st.eng.noAlias && p.dir == 1 && st.c.entailsEq(p.start) {
			if a := p.seq.alias; st.c.entailsEq(p.n.Sub(ropeLen(a))) {
				return st.normRope(append(append(append(Rope{}, r[:i]...), a...), r[i+1:]...))
			}
		}
		if p.n.isK() && p.n.c.sign() == 0 || st.c.entailsEq(p.n) {
			continue
		}
		if p.kind == pConst {
			if _, isStr := p.val.(VStr); !isStr {
				nn := st.c.norm(p.n)
				if l, ok := p.val.(VInt); ok && l.L.isK() && l.L.c.isInt64() && nn.isK() && nn.c.isInt64() && nn.c.int64() <= 64 {
					t := make([]int64, nn.c.int64())
					for i := range t {
						t[i] = l.L.c.int64()
					}
					p = Piece{n: nn, kind: pTable, tab: t}
				}
			}
		}
		if len(out) > 0 {
			q := &out[len(out)-1]
			switch {
			case q.kind == pTable && p.kind == pTable:
				t := append(q.tab[:len(q.tab):len(q.tab)], p.tab...)
				*q = Piece{n: K(int64(len(t))), kind: pTable, tab: t}
				continue
			case q.kind == pConst && p.kind == pTable:
				// a run takes in the equal elements next to it
				if v, ok := q.val.(VInt); ok && v.L.isK() && v.L.c.isInt64() {
					k := 0
					for k < len(p.tab) && p.tab[k] == v.L.c.int64() {
						k++
					}
					q.n = q.n.AddK(int64(k))
					if k == len(p.tab) {
						continue
					}
					p = Piece{n: K(int64(len(p.tab) - k)), kind: pTable, tab: p.tab[k:]}
				}
			case q.kind == pTable && p.kind == pConst:
				if v, ok := p.val.(VInt); ok && v.L.isK() && v.L.c.isInt64() {
					k := len(q.tab)
					for k > 0 && q.tab[k-1] == v.L.c.int64() {
						k--
					}
					p.n = p.n.AddK(int64(len(q.tab) - k))
					if k == 0 {
						out = out[:len(out)-1]
						if m := len(out); m > 0 && out[m-1].kind == pConst && st.sameVal(out[m-1].val, p.val) {
							out[m-1].n = out[m-1].n.Add(p.n)
							continue
						}
					} else {
						*q = Piece{n: K(int64(k)), kind: pTable, tab: q.tab[:k:k]}
					}
				}
			case q.kind == pJunk && p.kind == pJunk:
				q.n = q.n.Add(p.n)
				continue
			case q.kind == pConst && p.kind == pConst && st.sameVal(q.val, p.val):
				q.n = q.n.Add(p.n)
				continue
			case q.kind == pSeq && p.kind == pSeq && q.seq == p.seq:
				qd, pd := q.dir, p.dir
				if st.c.entailsEq(q.n.AddK(-1)) {
					qd = 0
				}
				if st.c.entailsEq(p.n.AddK(-1)) {
					pd = 0
				}
				done := false
				for _, d := range []int64{1, -1} {
					if (qd == 0 || qd == d) && (pd == 0 || pd == d) && st.c.entailsEq(p.start.Sub(q.start).Sub(q.n.Scale(d))) {
						q.n = q.n.Add(p.n)
						q.dir = d
						done = true
						break
					}
				}
				if done {
					continue
				}
			}
		}
		out = append(out, p)
	}
	return out
}

// sameVal: provably equal values (no splitting).
func (st *State) sameVal(a, b Value) bool {
	switch x := a.(type) {
	case VInt:
		y, ok := b.(VInt)
		return ok && st.provesEq(x.L, y.L)
	case VOpq:
		y, ok := b.(VOpq)
		return ok && st.provesEq(x.L, y.L)
	case VBool:
		y, ok := b.(VBool)
		return ok && x == y
	case VPtr:
		y, ok := b.(VPtr)
		if !ok || x.Obj != y.Obj || len(x.Path) != len(y.Path) {
			return false
		}
		if x.End != y.End && !(x.Obj != 0 && st.segLenOne(x.Obj)) {
			return false
		}
		for i := range x.Path {
			if x.Path[i].isIdx != y.Path[i].isIdx || x.Path[i].field != y.Path[i].field {
				return false
			}
			if x.Path[i].isIdx && !st.provesEq(x.Path[i].idx, y.Path[i].idx) {
				return false
			}
		}
		return true
	case VIface:
		y, ok := b.(VIface)
		if !ok {
			return false
		}
		if x.Opq != nil || y.Opq != nil {
			return x.Opq != nil && y.Opq != nil && st.provesEq(*x.Opq, *y.Opq)
		}
		if x.Dyn == nil || y.Dyn == nil {
			return x.Dyn == nil && y.Dyn == nil
		}
		return types.Identical(x.Dyn, y.Dyn) && st.sameVal(x.V, y.V)
	case VStr:
		y, ok := b.(VStr)
		return ok && st.ropeKey(x.R) == st.ropeKey(y.R)
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !st.sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case VSlice:
		y, ok := b.(VSlice)
		if !ok || x.Arr != y.Arr {
			return false
		}
		return x.Arr == 0 || st.provesEq(x.Off, y.Off) && st.provesEq(x.Len, y.Len) && st.provesEq(x.Cap, y.Cap)
	case VMap:
		y, ok := b.(VMap)
		return ok && x == y
	case VFunc:
		y, ok := b.(VFunc)
		return ok && x.Fn == y.Fn && x.Builtin == y.Builtin && len(x.Bind) == 0 && len(y.Bind) == 0 && x.Opq == nil && y.Opq == nil
	}
	return false
}

func (st *State) segLenOne(o ObjID) bool {
	ob := st.heap[o]
	if ob == nil {
		return false
	}
	s, ok := ob.v.(VSeg)
	return ok && st.c.entailsEq(s.n.AddK(-1))
}

// ropeKey is a canonical text of a rope under the current facts.
func (st *State) ropeKey(r Rope) string {
	r = st.normRope(r)
	var b strings.Builder
	for _, p := range r {
		switch p.kind {
		case pSeq:
			fmt.Fprintf(&b, "S%d@%s*%s/%d;", p.seq.id, st.c.norm(p.start).key(), st.c.norm(p.n).key(), p.dir)
		case pConst:
			if l, ok := valLin(p.val); ok {
				fmt.Fprintf(&b, "C%s*%s;", st.c.norm(l).key(), st.c.norm(p.n).key())
			} else {
				fmt.Fprintf(&b, "C%s*%s;", vstr(p.val), st.c.norm(p.n).key())
			}
		case pTable:
			fmt.Fprintf(&b, "T%v;", p.tab)
		default:
			fmt.Fprintf(&b, "J%d;", newSym("junk"))
		}
	}
	return b.String()
}

// ropeEq: provably equal contents; may split the state to align piece boundaries.
func (st *State) ropeEq(a, b Rope) bool {
	a, b = st.normRope(a), st.normRope(b)
	for {
		for len(a) > 0 && st.c.entailsEq(a[0].n) {
			a = a[1:]
		}
		for len(b) > 0 && st.c.entailsEq(b[0].n) {
			b = b[1:]
		}
		if len(a) == 0 && len(b) == 0 {
			return true
		}
		if len(a) == 0 || len(b) == 0 {
			rest := a
			if len(a) == 0 {
				rest = b
			}
			// equal only if the rest is empty
			if st.condEq(ropeLen(rest), K(0)) {
				return true
			}
			return false
		}
		p, q := a[0], b[0]
		var n Lin
		switch {
		case st.c.entailsEq(p.n.Sub(q.n)):
			n = p.n
			a, b = a[1:], b[1:]
		case st.cond(q.n.Sub(p.n)): // p shorter or equal
			n = p.n
			x, y := st.cutPiece(q, n)
			q = x
			a = a[1:]
			b = append(Rope{y}, b[1:]...)
		default:
			n = q.n
			x, y := st.cutPiece(p, n)
			p = x
			b = b[1:]
			a = append(Rope{y}, a[1:]...)
		}
		if st.c.entailsEq(n) {
			continue
		}
		if !st.pieceEq(p, q, n) {
			// perhaps this run is empty in the failing case
			if !st.c.entails(n.AddK(-1)) {
				if st.condEq(n, K(0)) {
					continue
				}
				if st.pieceEq(p, q, n) {
					continue
				}
			}
			return false
		}
	}
}

func (st *State) pieceEq(p, q Piece, n Lin) bool {
	if p.kind == pSeq && q.kind == pSeq && p.seq == q.seq && p.dir == q.dir && st.c.entailsEq(p.start.Sub(q.start)) {
		return true
	}
	if p.kind == pConst && q.kind == pConst && st.sameVal(p.val, q.val) {
		return true
	}
	nn := st.c.norm(n)
	if nn.isK() && nn.c.isInt64() && nn.c.int64() <= 4096 {
		for i := int64(0); i < nn.c.int64(); i++ {
			x, y := st.elemAt(p, K(i)), st.elemAt(q, K(i))
			if !st.sameVal(x, y) {
				return false
			}
		}
		return true
	}
	return false
}

// condStrEq decides string equality, splitting on an uninterpreted fact if needed.
func (st *State) condStrEq(a, b Rope) bool {
	a, b = st.normRope(a), st.normRope(b)
	ka, kb := st.ropeKey(a), st.ropeKey(b)
	if ka == kb {
		return true
	}
	ca, oka := constRope(a)
	if !oka {
		if c, ok := st.strK[ka]; ok {
			ca, oka = c, true
		}
	}
	cb, okb := constRope(b)
	if !okb {
		if c, ok := st.strK[kb]; ok {
			cb, okb = c, true
		}
	}
	if oka && okb {
		return ca == cb
	}
	la, lb := ropeLen(a), ropeLen(b)
	if st.c.entailsNeq(la.Sub(lb)) {
		return false
	}
	if oka && ca == "" || okb && cb == "" {
		return st.condEq(la, lb)
	}
	// a character that is known to differ
	if oka != okb {
		r, k := b, ca
		if okb {
			r, k = a, cb
		}
		for i := 0; i < len(k) && i < 3 && st.c.entails(ropeLen(r).AddK(int64(-1-i))); i++ {
			if v, ok := st.read(r, K(int64(i))).(VInt); !ok || st.c.entailsNeq(v.L.AddK(-int64(k[i]))) {
				if ok {
					return false
				}
				break
			}
		}
	}
	// a single known character
	if oka && len(ca) == 1 || okb && len(cb) == 1 {
		r, k := b, ca
		if !oka || len(ca) != 1 {
			r, k = a, cb
		}
		if !st.condEq(ropeLen(r), K(1)) {
			return false
		}
		if v, ok := st.read(r, K(0)).(VInt); ok {
			return st.condEq(v.L, K(int64(k[0])))
		}
	}
	if ka > kb {
		ka, kb = kb, ka
	}
	fk := "streq:" + ka + "=" + kb
	if f, ok := st.facts[fk]; ok {
		return f
	}
	r := st.choose(2) == 0
	if st.facts == nil {
		st.facts = map[string]bool{}
	}
	st.facts[fk] = r
	if r {
		st.assumeEq(la.Sub(lb))
		if x, y := st.ropeKey(a), st.ropeKey(b); x > y {
			st.facts["streq:"+y+"="+x] = true
		} else {
			st.facts["streq:"+x+"="+y] = true
		}
		if st.strK == nil {
			st.strK = map[string]string{}
		}
		// remember the constant under the key both before and after the length is known
		if oka {
			st.strK[st.ropeKey(b)] = ca
			st.strK[kb] = ca
		} else if okb {
			st.strK[st.ropeKey(a)] = cb
			st.strK[ka] = cb
		}
		if oka || okb {
			c, other := ca, b
			if okb {
				c, other = cb, a
			}
			for i := 0; i < len(c) && i < 64; i++ {
				if l, ok := valLin(st.read(other, K(int64(i)))); ok {
					st.assumeEq(l.AddK(-int64(c[i])))
				}
			}
		}
	}
	return r
}

func intRange(b *types.Basic) (lo, hi i128) {
	switch b.Kind() {
	case types.Int8:
		return n64(-1 << 7), n64(1<<7 - 1)
	case types.Int16:
		return n64(-1 << 15), n64(1<<15 - 1)
	case types.Int32:
		return n64(-1 << 31), n64(1<<31 - 1)
	case types.Int64, types.Int:
		return n64(-1 << 63), n64(1<<63 - 1)
	case types.Uint8:
		return n64(0), n64(1<<8 - 1)
	case types.Uint16:
		return n64(0), n64(1<<16 - 1)
	case types.Uint32:
		return n64(0), n64(1<<32 - 1)
	case types.Uint64, types.Uint, types.Uintptr:
		return n64(0), nu64(^uint64(0))
	}
	return n64(-1 << 63), n64(1<<63 - 1)
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func isUnsigned(b *types.Basic) bool { return b.Info()&types.IsUnsigned != 0 }
