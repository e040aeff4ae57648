package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxLenBits = 46 // no slice is longer than 2^46 elements (address space)

type modelFn func(c *callCtx) Value

type callCtx struct {
	e    *Engine
	st   *State
	args []Value
	key  string
	sig  *types.Signature
	pos  string
	inst ssa.Instruction
}

// Engine is the abstract interpreter.
type Engine struct {
	p        *Program
	maxFork  int
	shrDiv   bool // shift right is a division
	objCount ObjID
	models   map[string]modelFn
	invoke   func(c *callCtx, recv VIface, method string) (Value, bool)
	callOpq  func(c *callCtx, f VFunc) (Value, bool)
	derefOpq func(st *State, v VOpq) (VPtr, bool)
	onCall   func(st *State, fn *ssa.Function, args, bind []Value) ([]Outcome, bool)
	globIDs  map[*ssa.Global]ObjID
	initHeap map[ObjID]*Obj
	initCons *Cons
	unroll   int // extra peeled iterations for loops whose exit is undecided
	info     map[*ssa.Function]*fnInfo
	lists    []*listSpec
	// statistics
	fnSeen     map[*ssa.Function]bool
	stFns      int
	stBlocks   int
	stStates   int
	stLoops    int
	stCalls    int
	maxState   int
	flow       *globFlow
	floatOp    func(st *State, op token.Token, a, b Value) Value
	keepPtrs   bool            // variables whose pointee only changes keep their value
	keep       map[string]bool // changing variables whose initial value is wanted anyway
	inited     map[string]bool
	debug      bool
	noAlias    bool // sequences are not replaced by what they are
	rawMul     bool // products that may overflow stay one term
	inInit     bool // initialisers run: sums that overflow do not split the state
	digits     bool // expand decimal texts into their digits
	lits       map[*ssa.Alloc][]int64
	litDone    map[ssa.Instruction]bool
	onDiv      func(st *State, a, b Lin) (q, r Lin, ok bool)
	tabHint    []Lin // indexes of tables to keep apart
	focus      []Lin // terms that loop invariants relate to everything
	onLoop     func(st *State, hdr *ssa.BasicBlock)
	onStore    func(st *State, p VPtr, v Value)
	onLoad     func(st *State, p VPtr)
	readerCell string
	exactCap   bool // grown slices get no spare capacity (only where sharing cannot matter)
	onWrite    func(st *State, in ssa.Instruction, addr, v Value)
	onAppend   func(st *State, s VSlice, n Lin)
	maps       *pointMaps // maps are known at one key only
	onMapWrite func(st *State, m VMap, pos string)
	onMapRead  func(st *State, m VMap, pos string)
	onAcquire  func(st *State, l VPtr, write bool)
	onRelease  func(st *State, l VPtr, write bool)
	// loops
	pinObj        ObjID // objects up to this one keep their identity in loop invariants
	pinSeq        int
	pinSym        Sym
	maxPeel       int
	maxPeelStates int
	maxDisj       int
	perShape      int // branch histories kept apart for one shape
	maxLoopRuns   int
	maxWiden      int
	checkTerm     bool
	templates     []func(m Lin) []Lin
}

func newEngine(p *Program) *Engine {
	e := &Engine{p: p, maxFork: 4000, models: map[string]modelFn{}, globIDs: map[*ssa.Global]ObjID{}, initHeap: map[ObjID]*Obj{},
		info: map[*ssa.Function]*fnInfo{}, fnSeen: map[*ssa.Function]bool{}, maxState: 200000, inited: map[string]bool{}, initCons: emptyCons,
		maxPeel: 64, maxPeelStates: 8, maxDisj: 200, perShape: 6, maxLoopRuns: 1500, maxWiden: 40}
	stdModels(e)
	return e
}

func (e *Engine) newState() *State {
	st := &State{c: e.initCons, heap: map[ObjID]*Obj{}, ghost: map[string]Value{}, eng: e}
	for k, v := range e.initHeap {
		st.heap[k] = v
	}
	return st
}

// ---- types and values ----

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func isInt(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0
}

func (e *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VInt{K(0)}
		case u.Info()&types.IsBoolean != 0:
			return VBool(false)
		case u.Info()&types.IsString != 0:
			return VStr{}
		case u.Kind() == types.UnsafePointer:
			return VPtr{}
		case u.Info()&types.IsFloat != 0:
			return VOpq{K(0), "float"}
		}
	case *types.Pointer:
		return VPtr{}
	case *types.Slice:
		return VSlice{}
	case *types.Map:
		return VMap{}
	case *types.Signature:
		return VFunc{}
	case *types.Interface:
		return VIface{}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		if u.Len() == 0 {
			return VArray{}
		}
		z := e.zero(u.Elem())
		return VArray{Rope{{n: K(u.Len()), kind: pConst, val: z}}}
	case *types.Tuple:
		t := make(VTuple, u.Len())
		for i := range t {
			t[i] = e.zero(u.At(i).Type())
		}
		return t
	}
	return VJunk{}
}

// fresh makes an unknown value of type t.
func (st *State) fresh(t types.Type, name string) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			l := symLin(newSym(name))
			lo, hi := intRange(u)
			st.assume(l.Sub(kn(lo)))
			st.assume(kn(hi).Sub(l))
			return VInt{l}
		case u.Info()&types.IsBoolean != 0:
			return VBool(st.choose(2) == 0)
		case u.Info()&types.IsString != 0:
			return VStr{st.freshRope(name, types.Typ[types.Byte])}
		default:
			return VOpq{symLin(newSym(name)), name}
		}
	case *types.Interface:
		l := symLin(newSym(name))
		return VIface{Opq: &l, Tag: name}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = st.fresh(u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return VStruct{f}
	case *types.Slice:
		n := symLin(newSym("len(" + name + ")"))
		c := symLin(newSym("cap(" + name + ")"))
		st.assume(n)
		st.assume(c.Sub(n))
		st.assume(K(1 << maxLenBits).Sub(c))
		s := newSeq(name, u.Elem())
		j := newSeq(name+"~spare", u.Elem())
		r := append(seqRope(s, K(0), n), seqRope(j, K(0), c.Sub(n))...)
		id := st.newObj(types.NewArray(u.Elem(), -1), VArray{r}, name)
		return VSlice{Arr: id, Off: K(0), Len: n, Cap: c}
	case *types.Tuple:
		r := make(VTuple, u.Len())
		for i := range r {
			r[i] = st.fresh(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i))
		}
		return r
	}
	return VOpq{symLin(newSym(name)), name}
}

func (st *State) freshRope(name string, elem types.Type) Rope {
	n := symLin(newSym("len(" + name + ")"))
	st.assume(n)
	st.assume(K(1 << maxLenBits).Sub(n))
	return seqRope(newSeq(name, elem), K(0), n)
}

func (e *Engine) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	b := basicOf(t)
	if b == nil {
		return VJunk{}
	}
	switch {
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return VInt{K(i)}
		}
		if u, ok := constant.Uint64Val(v); ok {
			return VInt{KU(u)}
		}
	case b.Info()&types.IsBoolean != 0:
		return VBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return VStr{strRope(constant.StringVal(c.Value))}
	case b.Info()&types.IsFloat != 0:
		s, _ := defSym("float:"+c.Value.ExactString(), "float "+c.Value.String(), &symDef{op: "float", tag: c.Value.ExactString()})
		return VOpq{symLin(s), "float"}
	}
	return VJunk{}
}

func (st *State) val(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return st.eng.constant(v)
	case *ssa.Function:
		return VFunc{Fn: v}
	case *ssa.Global:
		return VPtr{Obj: st.eng.global(st, v)}
	case *ssa.Builtin:
		return VFunc{Builtin: v.Name()}
	}
	x, ok := st.top().env[v]
	if !ok {
		giveUp("register %s of %s has no value", v.Name(), st.top().fn)
	}
	return x
}

func (e *Engine) global(st *State, g *ssa.Global) ObjID {
	id, ok := e.globIDs[g]
	if !ok {
		e.objCount++
		id = e.objCount
		e.globIDs[g] = id
	}
	if _, ok := st.heap[id]; !ok {
		t := g.Type().(*types.Pointer).Elem()
		var v Value
		std := g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
		if std {
			key := "glob:" + g.String()
			s, _ := defSym(key, g.String(), &symDef{op: "glob", tag: g.String()})
			l := symLin(s)
			if _, ok := t.Underlying().(*types.Interface); ok {
				v = VIface{Opq: &l, Tag: g.String()}
			} else {
				v = VOpq{l, g.String()}
			}
		} else {
			v = e.zero(t)
		}
		st.heap[id] = &Obj{typ: t, v: v, name: g.String(), glob: true}
	}
	return id
}

// ---- memory ----

func (st *State) resolve(p Value) VPtr {
	switch p := p.(type) {
	case VPtr:
		if p.Obj == 0 {
			st.raise("nil dereference")
		}
		if p.End != 0 {
			return st.materialize(p)
		}
		return p
	case VOpq:
		if st.eng.derefOpq != nil {
			if q, ok := st.eng.derefOpq(st, p); ok {
				return st.resolve(q)
			}
		}
		giveUp("dereference of unknown pointer %s", vstr(p))
	}
	giveUp("dereference of %s", vstr(p))
	return VPtr{}
}

func (st *State) load(p Value) Value {
	q := st.resolve(p)
	o := st.heap[q.Obj]
	if o == nil {
		giveUp("dangling object o%d", q.Obj)
	}
	return st.getPath(o.v, q.Path)
}

func (st *State) getPath(v Value, path []pathEl) Value {
	for _, el := range path {
		if el.isIdx {
			a, ok := v.(VArray)
			if !ok {
				giveUp("indexing %s", vstr(v))
			}
			v = st.read(a.R, el.idx)
		} else {
			s, ok := v.(VStruct)
			if !ok {
				giveUp("field of %s", vstr(v))
			}
			v = s.F[el.field]
		}
	}
	return v
}

func (st *State) setPath(v Value, path []pathEl, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	el := path[0]
	if el.isIdx {
		a, ok := v.(VArray)
		if !ok {
			giveUp("indexing %s", vstr(v))
		}
		if len(path) > 1 {
			nv = st.setPath(st.read(a.R, el.idx), path[1:], nv)
		}
		return VArray{st.write(a.R, el.idx, nv)}
	}
	s, ok := v.(VStruct)
	if !ok {
		giveUp("field of %s", vstr(v))
	}
	f := append([]Value(nil), s.F...)
	f[el.field] = st.setPath(f[el.field], path[1:], nv)
	return VStruct{f}
}

func (st *State) store(p Value, v Value) {
	q := st.resolve(p)
	o := st.heap[q.Obj]
	if o == nil {
		giveUp("dangling object o%d", q.Obj)
	}
	n := *o
	n.v = st.setPath(o.v, q.Path, v)
	st.heap[q.Obj] = &n
	if st.eng.onStore != nil {
		st.eng.onStore(st, q, v)
	}
}

// arr returns the rope of the array a slice lives in.
func (st *State) arr(s VSlice) Rope {
	o := st.heap[s.Arr]
	if o == nil {
		giveUp("dangling array o%d", s.Arr)
	}
	a, ok := st.getPath(o.v, s.Path).(VArray)
	if !ok {
		giveUp("slice of non-array %s", vstr(o.v))
	}
	return a.R
}

func (st *State) setArr(s VSlice, r Rope) {
	st.store(VPtr{Obj: s.Arr, Path: s.Path}, VArray{st.normRope(r)})
}

// content is the visible content of a slice.
func (st *State) content(s VSlice) Rope {
	if s.Arr == 0 {
		return nil
	}
	return st.sub(st.arr(s), s.Off, s.Len)
}

// newSlice allocates an array with the given content.
func (st *State) newSlice(elem types.Type, r Rope, name string) VSlice {
	n := ropeLen(r)
	id := st.newObj(types.NewArray(elem, -1), VArray{st.normRope(r)}, name)
	return VSlice{Arr: id, Off: K(0), Len: n, Cap: n}
}

// spliceArr overwrites arr[at:at+len(r)] with r.
func (st *State) spliceArr(s VSlice, at Lin, r Rope) {
	full := st.arr(s)
	a, t := st.split(full, at)
	_, b := st.split(t, ropeLen(r))
	st.setArr(s, append(append(append(Rope{}, a...), r...), b...))
}

func (st *State) doCopy(dst VSlice, src Rope) Lin {
	n := ropeLen(src)
	dl := dst.Len
	if dst.Arr == 0 {
		dl = K(0)
	}
	if !st.cond(dl.Sub(n)) { // dst shorter
		src, _ = st.split(src, dl)
		n = dl
	}
	if dst.Arr != 0 && !st.c.entailsEq(n) {
		st.spliceArr(dst, dst.Off, src)
	}
	return n
}

func (st *State) doAppend(s VSlice, elem types.Type, src Rope) VSlice {
	n := ropeLen(src)
	if s.Arr == 0 {
		if st.condEq(n, K(0)) {
			return s
		}
		r := st.newSlice(elem, src, "append")
		c := symLin(newSym("cap"))
		return st.spare(r, c, elem)
	}
	nl := s.Len.Add(n)
	if st.cond(s.Cap.Sub(nl)) { // room: written in place
		if !st.c.entailsEq(n) {
			st.spliceArr(s, s.Off.Add(s.Len), src)
		}
		s.Len = nl
		return s
	}
	old := st.content(s)
	r := st.newSlice(elem, append(append(Rope{}, old...), src...), "append")
	return st.spare(r, symLin(newSym("cap")), elem)
}

// spare gives a freshly grown slice an unknown amount of spare zeroed capacity.
func (st *State) spare(s VSlice, c Lin, elem types.Type) VSlice {
	if st.eng.exactCap {
		return s
	}
	st.assume(c.Sub(s.Len))
	st.assume(K(1 << maxLenBits).Sub(c))
	o := *st.heap[s.Arr]
	r := o.v.(VArray).R
	o.v = VArray{append(append(Rope{}, r...), Piece{n: c.Sub(s.Len), kind: pConst, val: st.eng.zero(elem)})}
	st.heap[s.Arr] = &o
	s.Cap = c
	return s
}

// typed replaces junk by a fresh value of type t.
func (st *State) typed(v Value, t types.Type, name string) Value {
	if _, ok := v.(VJunk); ok {
		return st.fresh(t, name)
	}
	return v
}

// ---- arithmetic ----

func (st *State) wrap(l Lin, b *types.Basic) Lin {
	lo, hi := intRange(b)
	L, H := kn(lo), kn(hi)
	if st.c.entails(l.Sub(L)) && st.c.entails(H.Sub(l)) {
		return l
	}
	if st.eng.inInit {
		return st.wrapSym(l, b)
	}
	span := must(H.Sub(L).add2(K(1), 1))
	if !st.cond(H.Sub(l)) {
		l = l.Sub(span)
		if !st.c.entails(H.Sub(l)) {
			return st.wrapSym(l, b)
		}
		return l
	}
	if !st.cond(l.Sub(L)) {
		l = l.Add(span)
		if !st.c.entails(l.Sub(L)) {
			return st.wrapSym(l, b)
		}
	}
	return l
}

// wrapSym is l reduced to the range of b: unknown, but determined by l.
func (st *State) wrapSym(l Lin, b *types.Basic) Lin {
	n := st.c.norm(l)
	s, _ := defSym("wrap:"+b.Name()+":"+n.key(), "wrapped", &symDef{op: "wrap", tag: b.Name(), args: []Lin{n}})
	lo, hi := intRange(b)
	r := symLin(s)
	st.assume(r.Sub(kn(lo)))
	st.assume(kn(hi).Sub(r))
	return r
}

func (st *State) freshInt(b *types.Basic, name string) Lin {
	return st.fresh(b, name).(VInt).L
}

// syncMonos carries equalities of factors that were learnt since over to the products.
func (st *State) syncMonos() {
	seen := map[string]Lin{}
	for _, o := range monos {
		d := symDefOf(o)
		x, y := d.args[0], d.args[1]
		nx, ny := st.c.norm(x), st.c.norm(y)
		if nx.isK() && nx.c.isInt64() {
			if !nx.eq(x) {
				st.assumeEq(symLin(o).Sub(ny.Scale(nx.c.int64())))
			}
			continue
		}
		if ny.isK() && ny.c.isInt64() {
			if !ny.eq(y) {
				st.assumeEq(symLin(o).Sub(nx.Scale(ny.c.int64())))
			}
			continue
		}
		kx, ky := nx.key(), ny.key()
		if kx > ky {
			kx, ky = ky, kx
		}
		k := kx + "*" + ky
		if p, ok := seen[k]; ok {
			st.assumeEq(symLin(o).Sub(p))
		} else {
			seen[k] = symLin(o)
		}
	}
}

func (st *State) mulLin(a, b Lin) Lin {
	if len(monos) > 0 && len(monos) < 64 {
		st.syncMonos()
	}
	a, b = st.c.norm(a), st.c.norm(b)
	if a.isK() && a.c.isInt64() {
		return b.Scale(a.c.int64())
	}
	if b.isK() && b.c.isInt64() {
		return a.Scale(b.c.int64())
	}
	if a.isK() || b.isK() {
		giveUp("multiplication by a constant beyond 63 bits")
	}
	r := K(0)
	if !a.c.isInt64() || !b.c.isInt64() {
		giveUp("large constants in a product")
	}
	r = r.Add(b.Scale(a.c.int64())).Add(a.Scale(b.c.int64()))
	r.c = i128{}
	cc, ok := a.c.mul(b.c.int64())
	if !ok {
		giveUp("large constants in a product")
	}
	r = r.Add(kn(cc))
	for _, x := range a.t {
		for _, y := range b.t {
			k, ok := mulOK(x.k, y.k)
			if !ok {
				giveUp("large coefficients in a product")
			}
			r = r.Add(st.mono(x.s, y.s).Scale(k))
		}
	}
	return r
}

var monos []Sym

func (st *State) mono(x, y Sym) Lin {
	if x > y {
		x, y = y, x
	}
	key := fmt.Sprintf("mul:%d:%d", x, y)
	s, isNew := defSym(key, symName(x)+"*"+symName(y), &symDef{op: "mul", args: []Lin{symLin(x), symLin(y)}})
	if isNew {
		monos = append(monos, s)
	}
	st.monoFacts(s)
	return symLin(s)
}

// monoFacts instantiates sign and monotonicity facts of products.
func (st *State) monoFacts(s Sym) {
	d := symDefOf(s)
	x, y := d.args[0], d.args[1]
	m := symLin(s)
	px, py := st.c.entails(x), st.c.entails(y)
	if px && py {
		st.assume(m)
		if st.c.entails(x.AddK(-1)) {
			st.assume(m.Sub(y))
		}
		if st.c.entails(y.AddK(-1)) {
			st.assume(m.Sub(x))
		}
		// (x-lx)*(y-ly) >= 0 for constant lower bounds
		lx, ly := st.lowerK(x), st.lowerK(y)
		if lx > 1 || ly > 1 {
			if p, ok := mulOK(lx, ly); ok {
				st.assume(m.Sub(y.Scale(lx)).Sub(x.Scale(ly)).AddK(p))
			}
		}
	}
	if px && py {
		if u, ok := st.upperK(x); ok {
			st.assume(y.Scale(u).Sub(m))
		}
		if u, ok := st.upperK(y); ok {
			st.assume(x.Scale(u).Sub(m))
		}
	}
	for _, o := range monos {
		if o == s {
			continue
		}
		od := symDefOf(o)
		// squares of non-negative numbers are ordered like their roots
		if x.eq(y) && od.args[0].eq(od.args[1]) && px {
			if v := od.args[0]; st.c.entails(v) {
				if st.c.entails(v.Sub(x)) {
					st.assume(symLin(o).Sub(m))
				} else if st.c.entails(x.Sub(v)) {
					st.assume(m.Sub(symLin(o)))
				}
			}
		}
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				z, oz := d.args[i], od.args[j]
				if !z.eq(oz) || !st.c.entails(z) {
					continue
				}
				u, v := d.args[1-i], od.args[1-j] // s = z*u, o = z*v
				mo := symLin(o)
				if st.c.entailsEq(v.Sub(u)) {
					st.assume(mo.Sub(m))
					st.assume(m.Sub(mo))
				} else if st.c.entails(v.Sub(u)) {
					st.assume(mo.Sub(m))
					if st.c.entails(v.Sub(u).AddK(-1)) {
						st.assume(mo.Sub(m).Sub(z))
					}
				} else if st.c.entails(u.Sub(v)) {
					st.assume(m.Sub(mo))
					if st.c.entails(u.Sub(v).AddK(-1)) {
						st.assume(m.Sub(mo).Sub(z))
					}
				}
			}
		}
	}
}

// lowerK is a constant lower bound of a non-negative symbol, read off the store.
func (st *State) lowerK(x Lin) int64 {
	x = st.c.norm(x)
	if x.isK() {
		if x.c.isInt64() && x.c.int64() > 0 {
			return x.c.int64()
		}
		return 0
	}
	b := int64(0)
	for _, q := range st.c.ineq {
		d := x.Sub(q)
		if d.isK() && d.c.isInt64() && d.c.int64() > b && d.c.int64() < 1<<32 {
			b = d.c.int64()
		}
	}
	return b
}

// upperK is a small constant upper bound of a non-negative symbol.
func (st *State) upperK(x Lin) (int64, bool) {
	x = st.c.norm(x)
	if x.isK() {
		return x.c.int64(), x.c.isInt64() && x.c.sign() >= 0
	}
	b, ok := int64(1<<32), false
	for _, q := range st.c.ineq {
		d := x.Add(q)
		if d.isK() && d.c.isInt64() && d.c.int64() < b && d.c.sign() >= 0 {
			b, ok = d.c.int64(), true
		}
	}
	return b, ok
}

// divmod is Go's truncated division; the divisor is known to be non-zero.
func (st *State) divmod(a, b Lin) (q, r Lin) {
	a, b = st.c.norm(a), st.c.norm(b)
	if st.eng.onDiv != nil {
		if q, r, ok := st.eng.onDiv(st, a, b); ok {
			return q, r
		}
	}
	if b.isK() && b.c.sign() < 0 {
		q, r = st.divmod(a, b.Neg())
		return q.Neg(), r
	}
	if a.isK() && b.isK() {
		x := a.c.big()
		x.Quo(x, b.c.big())
		qn, _ := nbig(x)
		q = kn(qn)
		if b.c.isInt64() {
			return q, a.Sub(q.Scale(b.c.int64()))
		}
	}
	if !st.cond(a) {
		q, r = st.divmod(a.Neg(), b)
		return q.Neg(), r.Neg()
	}
	if !b.isK() {
		if !st.cond(b) {
			q, r = st.divmod(a, b.Neg())
			return q.Neg(), r
		}
		if s, ok := a.onlySym(); ok {
			// a product divided by one of its factors
			if d := symDefOf(s); d != nil && d.op == "mul" && st.c.entails(b.AddK(-1)) {
				if st.c.entailsEq(d.args[0].Sub(b)) {
					return d.args[1], K(0)
				}
				if st.c.entailsEq(d.args[1].Sub(b)) {
					return d.args[0], K(0)
				}
			}
		}
		if !st.cond(a.Sub(b)) {
			return K(0), a
		}
		if !st.cond(a.Sub(b).Sub(b)) {
			return K(1), a.Sub(b)
		}
		key := "divs:" + a.key() + ":" + b.key()
		s, _ := defSym(key, "("+a.String()+")/("+b.String()+")", &symDef{op: "div", args: []Lin{a, b}})
		q = symLin(s)
		st.assume(q.AddK(-2))
		st.assume(a.Sub(q))
		m := st.mulLin(q, b)
		r = a.Sub(m)
		st.assume(r)
		st.assume(b.Sub(r).AddK(-1))
		return q, r
	}
	// constant positive divisor
	if !b.c.isInt64() {
		if !st.cond(a.Sub(b)) {
			return K(0), a
		}
		giveUp("division by a constant beyond 63 bits")
	}
	k := b.c.int64()
	if k == 1 {
		return a, K(0)
	}
	if st.c.entails(b.Sub(a).AddK(-1)) {
		return K(0), a
	}
	// exact multiples divide termwise
	if k > 1 {
		base, div := a, k
		if s, ok := a.onlySym(); ok {
			if d := symDefOf(s); d != nil && d.op == "div" && d.args[1].isK() {
				if kk, ok := mulOK(d.args[1].c.int64(), k); ok {
					base, div = d.args[0], kk
				}
			}
		}
		q = st.divSym(base, div)
		r = a.Sub(q.Scale(k))
		st.assume(r)
		st.assume(K(k - 1).Sub(r))
		return q, r
	}
	return
}

func (st *State) divSym(a Lin, k int64) Lin {
	// split off the part divisible by k
	out, rest := K(0), K(0)
	for _, t := range a.t {
		if t.k%k == 0 {
			out = out.Add(symLin(t.s).Scale(t.k / k))
		} else {
			rest = rest.Add(symLin(t.s).Scale(t.k))
		}
	}
	cq := a.c.floorDiv(k)
	m, _ := cq.mul(k)
	cr, _ := a.c.add(m.neg())
	out = out.Add(kn(cq))
	rest = rest.Add(kn(cr))
	if rest.isK() {
		return out
	}
	if !st.c.entails(rest) {
		out, rest = K(0), a
	}
	if y, ok := rest.onlySym(); ok { // (x/a)/b = x/(a*b)
		if d := symDefOf(y); d != nil && d.op == "div" && d.args[1].isK() && d.args[1].c.isInt64() {
			if kk, ok := mulOK(d.args[1].c.int64(), k); ok {
				q := st.divSym(d.args[0], kk)
				st.assume(rest.Sub(q.Scale(k)))
				st.assume(K(k - 1).Sub(rest.Sub(q.Scale(k))))
				return out.Add(q)
			}
		}
	}
	s, _ := defSym(fmt.Sprintf("div:%s:%d", rest.key(), k), fmt.Sprintf("(%s)/%d", rest, k), &symDef{op: "div", args: []Lin{rest, K(k)}})
	q := symLin(s)
	st.assume(rest.Sub(q.Scale(k)))
	st.assume(K(k - 1).Sub(rest.Sub(q.Scale(k))))
	return out.Add(q)
}

// ---- bit vectors ----

type bit struct {
	s Sym
	k int
	c int8
}

func constBits(v uint64, w int) []bit {
	b := make([]bit, w)
	for i := range b {
		b[i].c = int8(v >> uint(i) & 1)
	}
	return b
}

func (st *State) bitsOf(l Lin, w int) []bit {
	l = st.c.norm(l)
	if l.isK() {
		if l.c.hi == 0 || l.c.hi == -1 {
			return constBits(l.c.lo, w)
		}
		giveUp("bit operation on a wide constant")
	}
	if !st.c.entails(l) {
		giveUp("bit operation on a possibly negative value %s", l)
	}
	res := constBits(0, w)
	rest := l
	ok := true
	if l.c.sign() != 0 && l.c.hi == 0 {
		copy(res, constBits(l.c.lo, w))
	}
	for _, t := range rest.t {
		if t.k <= 0 || t.k&(t.k-1) != 0 {
			ok = false
			break
		}
		sh := 0
		for int64(1)<<uint(sh) != t.k {
			sh++
		}
		sb := st.symBits(t.s)
		for i, b := range sb {
			if b == (bit{}) {
				continue
			}
			if i+sh >= w {
				continue
			}
			if res[i+sh] != (bit{}) {
				ok = false
				break
			}
			res[i+sh] = b
		}
	}
	if ok {
		return res
	}
	s, _ := defSym("alias:"+l.key(), "["+l.String()+"]", nil)
	st.assumeEq(symLin(s).Sub(l))
	// the alias is now solved for; find its own bits
	return st.rawBits(s, l, w)
}

func (st *State) rawBits(s Sym, l Lin, w int) []bit {
	res := constBits(0, w)
	for i := 0; i < w; i++ {
		if i < 62 && st.c.entails(K(int64(1)<<uint(i)-1).Sub(l)) {
			break
		}
		res[i] = bit{s: s, k: i}
	}
	return res
}

func (st *State) symBits(s Sym) []bit {
	if d := symDefOf(s); d != nil && d.op == "bits" {
		return d.bits
	}
	return st.rawBits(s, symLin(s), 64)
}

func (st *State) fromBits(b []bit) Lin {
	hi := len(b)
	for hi > 0 && b[hi-1] == (bit{}) {
		hi--
	}
	b = b[:hi]
	if hi == 0 {
		return K(0)
	}
	lo := 0
	for b[lo] == (bit{}) {
		lo++
	}
	if lo > 0 {
		if lo > 62 {
			giveUp("bit field beyond 62 bits")
		}
		return st.fromBits(b[lo:]).Scale(int64(1) << uint(lo))
	}
	allK := true
	var v uint64
	for i, x := range b {
		if x.s != 0 {
			allK = false
			break
		}
		v |= uint64(x.c) << uint(i)
	}
	if allK {
		return KU(v)
	}
	// a whole symbol?
	if s := b[0].s; s != 0 && b[0].k == 0 {
		full := true
		for i, x := range b {
			if x.s != s || x.k != i {
				full = false
				break
			}
		}
		if full && (hi >= 64 || st.c.entails(K(int64(1)<<uint(min(hi, 62))-1).Sub(symLin(s))) && hi <= 62) {
			return symLin(s)
		}
	}
	var kb strings.Builder
	kb.WriteString("bits:")
	for _, x := range b {
		fmt.Fprintf(&kb, "%d.%d.%d,", x.s, x.k, x.c)
	}
	nm := fmt.Sprintf("bits(%s.%d+%d)", symName(b[0].s), b[0].k, len(b))
	s, _ := defSym(kb.String(), nm, &symDef{op: "bits", bits: append([]bit(nil), b...)})
	y := symLin(s)
	st.assume(y)
	if hi <= 62 {
		st.assume(K(int64(1)<<uint(hi) - 1).Sub(y))
	} else {
		st.assume(kn(nu64(^uint64(0) >> uint(64-hi))).Sub(y))
	}
	// link to the source symbol
	src := b[0].s
	contig := src != 0
	for i, x := range b {
		if x.s != src || x.k != b[0].k+i {
			contig = false
			break
		}
	}
	if contig {
		a := b[0].k
		sl := symLin(src)
		total := st.rawBits(src, st.c.norm(sl), 64)
		top := 0
		for i, x := range total {
			if x.s != 0 {
				top = i + 1
			}
		}
		if a+hi >= top && a <= 62 { // y = src >> a
			st.assume(sl.Sub(y.Scale(int64(1) << uint(a))))
			st.assume(K(int64(1)<<uint(a) - 1).Sub(sl.Sub(y.Scale(int64(1) << uint(a)))))
		} else if a == 0 && hi <= 62 { // y = src mod 2^hi
			h := st.fromBits(total[hi:])
			st.assumeEq(sl.Sub(y).Sub(h.Scale(int64(1) << uint(hi))))
		}
	}
	return y
}

// toUint reinterprets a value as unsigned of width w.
func (st *State) toUnsigned(l Lin, w int) Lin {
	if st.cond(l) {
		return l
	}
	if w == 64 {
		return l.Add(kn(i128{1, 0}))
	}
	return l.Add(K(int64(1) << uint(w)))
}

func (st *State) truncate(l Lin, b *types.Basic) Lin {
	lo, hi := intRange(b)
	if st.c.entails(l.Sub(kn(lo))) && st.c.entails(kn(hi).Sub(l)) {
		return l
	}
	if st.eng.inInit {
		return st.wrapSym(l, b)
	}
	w := intBits(b)
	u := st.toUnsigned(l, 64)
	r := u
	if w < 64 && !st.c.entails(K(int64(1)<<uint(w)-1).Sub(u)) {
		bs := st.bitsOf(u, 64)
		r = st.fromBits(bs[:w])
	}
	if !isUnsigned(b) {
		// sign
		if !st.cond(kn(hi).Sub(r)) {
			if w == 64 {
				r = r.Sub(kn(i128{1, 0}))
			} else {
				r = r.Sub(K(int64(1) << uint(w)))
			}
		}
	}
	return r
}

// enumerate forces l to a constant by splitting over its small range.
func (st *State) enumerate(l Lin, limit int64) int64 {
	l = st.c.norm(l)
	if l.isK() {
		return l.c.int64()
	}
	lo, hi := int64(-1), int64(-1)
	for i := int64(0); i <= limit; i++ {
		if st.c.entails(l.AddK(-i)) {
			lo = i
		}
	}
	for i := limit; i >= 0; i-- {
		if st.c.entails(K(i).Sub(l)) {
			hi = i
		}
	}
	if lo < 0 || hi < 0 {
		giveUp("cannot bound %s to a small range", l)
	}
	for i := lo; i < hi; i++ {
		if st.condEq(l, K(i)) {
			return i
		}
	}
	st.assumeEq(l.AddK(-hi))
	return hi
}

func (st *State) binop(op token.Token, xv, yv Value, xt types.Type, rt types.Type) Value {
	switch op {
	case token.EQL, token.NEQ:
		r := st.equal(xv, yv, xt)
		if op == token.NEQ {
			r = !r
		}
		return VBool(r)
	}
	if bb := basicOf(xt); bb != nil && bb.Info()&types.IsString != 0 {
		a, b := xv.(VStr), yv.(VStr)
		switch op {
		case token.ADD:
			return VStr{st.normRope(append(append(Rope{}, a.R...), b.R...))}
		}
		x, okx := constRope(a.R)
		y, oky := constRope(b.R)
		if okx && oky {
			switch op {
			case token.LSS:
				return VBool(x < y)
			case token.GTR:
				return VBool(x > y)
			case token.LEQ:
				return VBool(x <= y)
			case token.GEQ:
				return VBool(x >= y)
			}
		}
		switch op {
		case token.LSS:
			return VBool(st.strLess(a, b))
		case token.GTR:
			return VBool(st.strLess(b, a))
		case token.LEQ:
			return VBool(!st.strLess(b, a))
		case token.GEQ:
			return VBool(!st.strLess(a, b))
		}
		giveUp("string operation %s", op)
	}
	if !isInt(xt) && st.eng.floatOp != nil {
		return st.eng.floatOp(st, op, xv, yv)
	}
	if !isInt(xt) {
		a, ok1 := valLin(xv)
		b, ok2 := valLin(yv)
		if !ok1 || !ok2 {
			giveUp("operator %s on %s, %s", op, vstr(xv), vstr(yv))
		}
		a, b = st.c.norm(a), st.c.norm(b)
		switch op {
		case token.LSS:
			return VBool(st.fact("flt<:" + a.key() + ":" + b.key()))
		case token.GTR:
			return VBool(st.fact("flt<:" + b.key() + ":" + a.key()))
		case token.LEQ, token.GEQ:
			return VBool(st.fact("flt" + op.String() + ":" + a.key() + ":" + b.key()))
		}
		s, _ := defSym("flt"+op.String()+":"+a.key()+":"+b.key(), "("+a.String()+op.String()+b.String()+")", &symDef{op: "fn", tag: "float" + op.String(), args: []Lin{a, b}})
		return VOpq{symLin(s), "float"}
	}
	x, ok1 := xv.(VInt)
	y, ok2 := yv.(VInt)
	if !ok1 || !ok2 {
		giveUp("operator %s on %s, %s", op, vstr(xv), vstr(yv))
	}
	b := basicOf(xt)
	switch op {
	case token.LSS:
		return VBool(st.cond(y.L.Sub(x.L).AddK(-1)))
	case token.LEQ:
		return VBool(st.cond(y.L.Sub(x.L)))
	case token.GTR:
		return VBool(st.cond(x.L.Sub(y.L).AddK(-1)))
	case token.GEQ:
		return VBool(st.cond(x.L.Sub(y.L)))
	case token.ADD:
		return VInt{st.wrap(x.L.Add(y.L), b)}
	case token.SUB:
		return VInt{st.wrap(x.L.Sub(y.L), b)}
	case token.MUL:
		l := st.mulLin(x.L, y.L)
		if len(l.t) == 0 || !hasMono(l) {
			if st.eng.rawMul {
				if lo, hi := intRange(b); !st.c.entails(kn(hi).Sub(l)) || !st.c.entails(l.Sub(kn(lo))) {
					return VInt{st.wrapSym(l, b)}
				}
			}
			return VInt{st.wrap(l, b)}
		}
		lo, hi := intRange(b)
		if st.cond(kn(hi).Sub(l)) && st.cond(l.Sub(kn(lo))) {
			return VInt{l}
		}
		return VInt{st.freshInt(b, "wrapped product")}
	case token.QUO, token.REM:
		if st.eng.onDiv != nil && y.L.isK() && y.L.c.sign() > 0 {
			if q, r, ok := st.eng.onDiv(st, st.c.norm(x.L), y.L); ok {
				if op == token.QUO {
					return VInt{q}
				}
				return VInt{r}
			}
		}
		if st.condEq(y.L, K(0)) {
			st.raise("integer divide by zero")
		}
		if isUnsigned(b) {
			if k := st.c.norm(y.L); k.isK() && k.c.isInt64() && k.c.int64()&(k.c.int64()-1) == 0 && k.c.int64() > 1 && !st.c.norm(x.L).isK() && st.isBitty(x.L) {
				sh := 0
				for int64(1)<<uint(sh) != k.c.int64() {
					sh++
				}
				bs := st.bitsOf(x.L, intBits(b))
				if op == token.QUO {
					return VInt{st.fromBits(bs[sh:])}
				}
				return VInt{st.fromBits(bs[:sh])}
			}
		}
		q, r := st.divmod(x.L, y.L)
		if op == token.QUO {
			return VInt{st.wrap(q, b)}
		}
		return VInt{r}
	case token.SHL, token.SHR:
		w := intBits(b)
		if !st.cond(y.L) {
			st.raise("negative shift amount")
		}
		yn := st.c.norm(y.L)
		var sh int64
		if yn.isK() {
			sh = yn.c.int64()
			if !yn.c.isInt64() || sh > 64 {
				sh = 64
			}
		} else if !st.cond(K(int64(w - 1)).Sub(y.L)) {
			sh = 64
		} else {
			sh = st.enumerate(y.L, int64(w))
		}
		if op == token.SHL {
			if sh >= int64(w) {
				return VInt{K(0)}
			}
			xn := st.c.norm(x.L)
			if sh <= 62 {
				l, ok := Lin{}.add2(xn, int64(1)<<uint(sh))
				lo, hi := intRange(b)
				if ok && st.c.entails(l.Sub(kn(lo))) && st.c.entails(kn(hi).Sub(l)) {
					return VInt{l}
				}
			}
			u := st.toUnsigned(xn, w)
			bs := st.bitsOf(u, w)
			nb := constBits(0, w)
			copy(nb[sh:], bs)
			r := st.fromBits(nb)
			if !isUnsigned(b) {
				r = st.signed(r, w)
			}
			return VInt{r}
		}
		if st.cond(x.L) {
			if sh >= int64(w) {
				return VInt{K(0)}
			}
			if st.eng.shrDiv && sh <= 62 {
				q, _ := st.divmod(x.L, K(int64(1)<<uint(sh)))
				return VInt{q}
			}
			bs := st.bitsOf(x.L, w)
			return VInt{st.fromBits(bs[sh:])}
		}
		if sh >= int64(w) {
			return VInt{K(-1)}
		}
		if sh > 62 {
			giveUp("wide arithmetic shift")
		}
		// floor division of a negative number
		q, r := st.divmod(x.L, K(int64(1)<<uint(sh)))
		if st.condEq(r, K(0)) {
			return VInt{q}
		}
		return VInt{q.AddK(-1)}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		w := intBits(b)
		a := st.bitsOf(st.toUnsigned(x.L, w), w)
		c := st.bitsOf(st.toUnsigned(y.L, w), w)
		out := make([]bit, w)
		for i := range out {
			out[i] = st.bitop(op, a[i], c[i])
		}
		r := st.fromBits(out)
		if !isUnsigned(b) {
			r = st.signed(r, w)
		}
		return VInt{r}
	}
	giveUp("operator %s", op)
	return nil
}

// isBitty: bit-level reasoning about l is cheap and exact (a symbol or shifted symbols).
func (st *State) isBitty(l Lin) bool {
	l = st.c.norm(l)
	if l.c.sign() != 0 {
		return false
	}
	for _, t := range l.t {
		if t.k <= 0 || t.k&(t.k-1) != 0 {
			return false
		}
	}
	return len(l.t) == 1
}

func (st *State) signed(r Lin, w int) Lin {
	if w == 64 {
		if !st.cond(kn(n64(1<<63 - 1)).Sub(r)) {
			return r.Sub(kn(i128{1, 0}))
		}
		return r
	}
	if !st.cond(K(int64(1)<<uint(w-1) - 1).Sub(r)) {
		return r.Sub(K(int64(1) << uint(w)))
	}
	return r
}

func hasMono(l Lin) bool {
	for _, t := range l.t {
		if d := symDefOf(t.s); d != nil && d.op == "mul" {
			return true
		}
	}
	return false
}

func (st *State) bitop(op token.Token, a, b bit) bit {
	ka, kb := a.s == 0, b.s == 0
	if ka && kb {
		x, y := a.c, b.c
		switch op {
		case token.AND:
			return bit{c: x & y}
		case token.OR:
			return bit{c: x | y}
		case token.XOR:
			return bit{c: x ^ y}
		case token.AND_NOT:
			return bit{c: x &^ y}
		}
	}
	if a == b {
		switch op {
		case token.AND, token.OR:
			return a
		case token.XOR, token.AND_NOT:
			return bit{}
		}
	}
	switch op {
	case token.AND:
		if ka {
			if a.c == 0 {
				return bit{}
			}
			return b
		}
		if kb {
			if b.c == 0 {
				return bit{}
			}
			return a
		}
	case token.OR:
		if ka {
			if a.c == 1 {
				return bit{c: 1}
			}
			return b
		}
		if kb {
			if b.c == 1 {
				return bit{c: 1}
			}
			return a
		}
	case token.XOR:
		if ka && a.c == 0 {
			return b
		}
		if kb && b.c == 0 {
			return a
		}
	case token.AND_NOT:
		if kb {
			if b.c == 1 {
				return bit{}
			}
			return a
		}
		if ka && a.c == 0 {
			return bit{}
		}
	}
	s, _ := defSym(fmt.Sprintf("bit%s:%d.%d.%d:%d.%d.%d", op, a.s, a.k, a.c, b.s, b.k, b.c), "bit", nil)
	st.assume(symLin(s))
	st.assume(K(1).Sub(symLin(s)))
	return bit{s: s, k: 0}
}

// fact decides an uninterpreted proposition.
func (st *State) fact(key string) bool {
	if f, ok := st.facts[key]; ok {
		return f
	}
	if st.facts == nil {
		st.facts = map[string]bool{}
	}
	r := st.choose(2) == 0
	st.facts[key] = r
	return r
}

// strLess: an arbitrary strict order of texts.
func (st *State) strLess(a, b VStr) bool {
	x, y := st.ropeKey(a.R), st.ropeKey(b.R)
	if x == y || st.facts["strless:"+y+":"+x] {
		return false
	}
	return st.fact("strless:" + x + ":" + y)
}

// equal is Go's ==, splitting when undecided.
func (st *State) equal(a, b Value, t types.Type) bool {
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return st.condEq(x.L, y.L)
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			return x == y
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			return st.condStrEq(x.R, y.R)
		}
	case VPtr:
		switch y := b.(type) {
		case VPtr:
			return st.ptrEq(x, y)
		case VOpq:
			return st.opqPtrEq(y, x)
		}
	case VSlice:
		if y, ok := b.(VSlice); ok {
			if x.Arr == 0 || y.Arr == 0 {
				return x.Arr == y.Arr
			}
		}
	case VMap:
		if y, ok := b.(VMap); ok {
			return x.Obj == y.Obj || x.Obj <= 0 && y.Obj <= 0
		}
	case VFunc:
		if y, ok := b.(VFunc); ok {
			nx := x.Fn == nil && x.Builtin == "" && x.Opq == nil
			ny := y.Fn == nil && y.Builtin == "" && y.Opq == nil
			if nx || ny {
				return nx == ny
			}
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			return st.ifaceEq(x, y)
		}
	case VOpq:
		switch y := b.(type) {
		case VOpq:
			if bb := basicOf(t); bb != nil && bb.Info()&types.IsFloat != 0 {
				if st.eng.floatOp != nil {
					return bool(st.eng.floatOp(st, token.EQL, x, y).(VBool))
				}
				return st.fact("flt==:" + st.c.norm(x.L).key() + ":" + st.c.norm(y.L).key())
			}
			return st.condEq(x.L, y.L)
		case VPtr:
			return st.opqPtrEq(x, y)
		}
	case VStruct:
		if y, ok := b.(VStruct); ok {
			s := t.Underlying().(*types.Struct)
			for i := range x.F {
				if !st.equal(x.F[i], y.F[i], s.Field(i).Type()) {
					return false
				}
			}
			return true
		}
	case VArray:
		if y, ok := b.(VArray); ok {
			at := t.Underlying().(*types.Array)
			for i := int64(0); i < at.Len(); i++ {
				if !st.equal(st.read(x.R, K(i)), st.read(y.R, K(i)), at.Elem()) {
					return false
				}
			}
			return true
		}
	}
	giveUp("comparison of %s and %s", vstr(a), vstr(b))
	return false
}

func (st *State) opqPtrEq(x VOpq, y VPtr) bool {
	if y.Obj == 0 {
		return st.condEq(x.L, K(0))
	}
	if st.eng.derefOpq != nil {
		if st.condEq(x.L, K(0)) {
			return false
		}
		if q, ok := st.eng.derefOpq(st, x); ok {
			return st.ptrEq(q, y)
		}
	}
	giveUp("comparison of unknown pointer with o%d", y.Obj)
	return false
}

func (st *State) ptrEq(x, y VPtr) bool {
	if x.Obj != y.Obj {
		return false
	}
	if x.Obj == 0 {
		return true
	}
	if len(x.Path) != len(y.Path) {
		return false
	}
	for i := range x.Path {
		if x.Path[i].isIdx != y.Path[i].isIdx || x.Path[i].field != y.Path[i].field {
			return false
		}
		if x.Path[i].isIdx && !st.condEq(x.Path[i].idx, y.Path[i].idx) {
			return false
		}
	}
	if x.End != y.End {
		s := st.heap[x.Obj].v.(VSeg)
		return st.condEq(s.n, K(1))
	}
	return true
}

func (st *State) ifaceEq(x, y VIface) bool {
	nx, ny := x.Dyn == nil && x.Opq == nil, y.Dyn == nil && y.Opq == nil
	if nx || ny {
		return nx == ny
	}
	if x.Opq != nil && y.Opq != nil {
		xs, ok1 := st.c.norm(*x.Opq).onlySym()
		ys, ok2 := st.c.norm(*y.Opq).onlySym()
		if ok1 && ok2 && xs != ys {
			dx, dy := symDefOf(xs), symDefOf(ys)
			if dx != nil && dy != nil && dx.op == "glob" && dy.op == "glob" {
				return false // distinct package variables initialised by distinct allocations
			}
			if dx != nil && dx.op == "newerr" || dy != nil && dy.op == "newerr" {
				return false // a freshly allocated error equals nothing else
			}
		}
		return st.condEq(*x.Opq, *y.Opq)
	}
	if x.Opq != nil || y.Opq != nil {
		giveUp("comparison of interfaces %s and %s", vstr(x), vstr(y))
	}
	if !types.Identical(x.Dyn, y.Dyn) {
		return false
	}
	return st.equal(x.V, y.V, x.Dyn)
}

func (st *State) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	if fb != nil && tb != nil {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			if x, ok := v.(VInt); ok {
				return VInt{st.truncate(x.L, tb)}
			}
			if x, ok := v.(VOpq); ok { // uintptr carrying an address
				return x
			}
			if x, ok := v.(VPtr); ok {
				return x
			}
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return VStr{st.freshRope("string(rune)", types.Typ[types.Byte])}
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
			return v
		default:
			l, ok := valLin(v)
			if !ok {
				giveUp("conversion of %s", vstr(v))
			}
			s, _ := defSym("conv:"+tb.Name()+":"+st.c.norm(l).key(), tb.Name()+"("+l.String()+")", &symDef{op: "fn", tag: "conv " + tb.Name(), args: []Lin{l}})
			if tb.Info()&types.IsInteger != 0 {
				y := symLin(s)
				lo, hi := intRange(tb)
				st.assume(y.Sub(kn(lo)))
				st.assume(kn(hi).Sub(y))
				return VInt{y}
			}
			return VOpq{symLin(s), "float"}
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			if bb := basicOf(sl.Elem()); bb != nil && bb.Kind() == types.Uint8 {
				return st.newSlice(sl.Elem(), v.(VStr).R, "[]byte(string)")
			}
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if sl, ok := fu.(*types.Slice); ok {
			if bb := basicOf(sl.Elem()); bb != nil && bb.Kind() == types.Uint8 {
				return VStr{st.normRope(st.content(v.(VSlice)))}
			}
		}
	}
	if fb != nil && fb.Kind() == types.UnsafePointer || tb != nil && tb.Kind() == types.UnsafePointer {
		return v
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	if types.Identical(fu, tu) {
		return v
	}
	giveUp("conversion from %s to %s", from, to)
	return nil
}

// sliceOp is x[lo:hi:max] on slices, strings and array pointers.
func (st *State) sliceOp(x Value, xt types.Type, lo, hi, max Value) Value {
	lin := func(v Value, d Lin) Lin {
		if v == nil {
			return d
		}
		i, ok := v.(VInt)
		if !ok {
			giveUp("slice bound %s", vstr(v))
		}
		return i.L
	}
	switch v := x.(type) {
	case VStr:
		n := ropeLen(v.R)
		l, h := lin(lo, K(0)), lin(hi, n)
		if !st.cond(l) || !st.cond(h.Sub(l)) || !st.cond(n.Sub(h)) {
			st.raise("string slice bounds out of range")
		}
		return VStr{st.normRope(st.sub(v.R, l, h.Sub(l)))}
	case VSlice:
		n, c := v.Len, v.Cap
		if v.Arr == 0 {
			n, c = K(0), K(0)
		}
		l, h := lin(lo, K(0)), lin(hi, n)
		m := lin(max, c)
		if !st.cond(l) || !st.cond(h.Sub(l)) || !st.cond(m.Sub(h)) || !st.cond(c.Sub(m)) {
			st.raise("slice bounds out of range")
		}
		if v.Arr == 0 {
			return v
		}
		return VSlice{Arr: v.Arr, Path: v.Path, Off: v.Off.Add(l), Len: h.Sub(l), Cap: m.Sub(l)}
	case VPtr:
		p := st.resolve(v)
		at, ok := xt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			giveUp("slice of %s", xt)
		}
		n := K(at.Len())
		l, h := lin(lo, K(0)), lin(hi, n)
		m := lin(max, n)
		if !st.cond(l) || !st.cond(h.Sub(l)) || !st.cond(m.Sub(h)) || !st.cond(n.Sub(m)) {
			st.raise("slice bounds out of range")
		}
		return VSlice{Arr: p.Obj, Path: p.Path, Off: l, Len: h.Sub(l), Cap: m.Sub(l)}
	}
	giveUp("slice of %s", vstr(x))
	return nil
}

func (st *State) indexAddr(x Value, xt types.Type, iv Value) Value {
	i, ok := iv.(VInt)
	if !ok {
		giveUp("index %s", vstr(iv))
	}
	switch v := x.(type) {
	case VSlice:
		n := v.Len
		if v.Arr == 0 {
			n = K(0)
		}
		if !st.cond(i.L) || !st.cond(n.Sub(i.L).AddK(-1)) {
			st.raise(fmt.Sprintf("index out of range: %s with length %s", i.L, n))
		}
		return VPtr{Obj: v.Arr, Path: append(v.Path[:len(v.Path):len(v.Path)], pathEl{isIdx: true, idx: v.Off.Add(i.L)})}
	case VPtr:
		p := st.resolve(v)
		at := xt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !st.cond(i.L) || !st.cond(K(at.Len()-1).Sub(i.L)) {
			st.raise("array index out of range")
		}
		return VPtr{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], pathEl{isIdx: true, idx: i.L})}
	}
	giveUp("index of %s", vstr(x))
	return nil
}

func valLen(st *State, v Value) Lin {
	switch v := v.(type) {
	case VSlice:
		if v.Arr == 0 {
			return K(0)
		}
		return v.Len
	case VStr:
		return ropeLen(v.R)
	case VMap:
		if st.eng.onMapRead != nil && v.Obj > 0 {
			st.eng.onMapRead(st, v, "len")
		}
		return st.mapLen(v)
	case VArray:
		return ropeLen(v.R)
	}
	giveUp("len of %s", vstr(v))
	return Lin{}
}

// ---- call information ----

func sortedGlobals(m map[*ssa.Global]ObjID) []*ssa.Global {
	var gs []*ssa.Global
	for g := range m {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return m[gs[i]] < m[gs[j]] })
	return gs
}
