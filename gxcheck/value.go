package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value. All values are immutable.
type Value interface{}

type ObjID int32

type VInt struct{ L Lin }
type VBool bool

// VPtr points to an object (or into it along path). Obj==0 is nil.
// End is used for list segments: 1 first node, 2 last node.
type VPtr struct {
	Obj  ObjID
	Path []pathEl
	End  int
}
type pathEl struct {
	field int
	isIdx bool
	idx   Lin
}
type VSlice struct {
	Arr           ObjID
	Off, Len, Cap Lin
	Path          []pathEl // path to the array inside Arr
}
type VStr struct{ R Rope }
type VStruct struct{ F []Value }
type VArray struct{ R Rope }
type VTuple []Value
type VFunc struct {
	Fn      *ssa.Function
	Bind    []Value
	Builtin string
	Opq     *Lin
}

// VIface: Dyn==nil && Opq==nil is the nil interface; Opq!=nil an opaque non-nil
// interface value whose identity is the integer *Opq; otherwise Dyn holds V.
type VIface struct {
	Dyn types.Type
	V   Value
	Opq *Lin
	Tag string // what kind of opaque thing
}
type VMap struct{ Obj ObjID }

// VOpq is an opaque scalar or pointer, identified by an integer.
type VOpq struct {
	L   Lin
	Tag string
}

// VFact is a quantified statement about a sequence, kept in the ghost state.
type VFact struct {
	kind string
	q    *Seq
	p    []Lin
}

// VJunk is an unknown value of unknown type.
type VJunk struct{}

func nilPtr() VPtr { return VPtr{} }

// Seq is an unknown infinite sequence of elements.
type Seq struct {
	id   int
	name string
	elem types.Type // element type; nil for node identities
	// mk, when set, builds the element value for an index
	mk      func(st *State, idx Lin) Value
	keys    *Seq // keys of a map
	trimmed bool
	size    *Sym
	mk2     func(st *State, key Value) (Value, bool) // map lookup
	apps    []Sym
	lo      *Lin // optional element bounds
	hi      *Lin
	general bool  // stands for any sequence (loop invariants)
	fixed   bool  // never generalised
	shifts  bool  // an element plus a constant is a value of its own in loop invariants
	refs    []Sym // symbols its definition depends on
	plain   bool  // its elements are ordinary numbers in loop invariants
	// a sequence that is a function of arg: equal arguments make equal sequences
	family string
	arg    Lin
	alias  Rope // what the whole of it is
}

var seqCount int
var allSeqs map[int]*Seq

func newSeq(name string, elem types.Type) *Seq {
	seqCount++
	s := &Seq{id: seqCount, name: name, elem: elem}
	allSeqs[seqCount] = s
	return s
}

const (
	pSeq = iota
	pConst
	pJunk
	pTable
)

// Piece is a run of n elements.
type Piece struct {
	n     Lin
	kind  int
	seq   *Seq
	start Lin
	dir   int64 // +1 / -1
	val   Value
	tab   []int64
}

// Rope is a concatenation of pieces: the content of an array or string.
type Rope []Piece

func (r Rope) String() string {
	var p []string
	for _, x := range r {
		switch x.kind {
		case pSeq:
			d := ""
			if x.dir < 0 {
				d = "rev "
			}
			p = append(p, fmt.Sprintf("%s%s[%s..]×%s", d, x.seq.name, x.start, x.n))
		case pConst:
			p = append(p, fmt.Sprintf("(%s)×%s", vstr(x.val), x.n))
		case pJunk:
			p = append(p, fmt.Sprintf("?×%s", x.n))
		case pTable:
			if len(x.tab) > 8 {
				p = append(p, fmt.Sprintf("table(%d)", len(x.tab)))
			} else {
				p = append(p, fmt.Sprintf("%v", x.tab))
			}
		}
	}
	return "⟨" + strings.Join(p, " ") + "⟩"
}

func vstr(v Value) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case VInt:
		return v.L.String()
	case VBool:
		return fmt.Sprint(bool(v))
	case VPtr:
		if v.Obj == 0 {
			return "nil"
		}
		s := fmt.Sprintf("&o%d", v.Obj)
		for _, p := range v.Path {
			if p.isIdx {
				s += "[" + p.idx.String() + "]"
			} else {
				s += fmt.Sprintf(".%d", p.field)
			}
		}
		if v.End == 1 {
			s += "^first"
		} else if v.End == 2 {
			s += "^last"
		}
		return s
	case VSlice:
		if v.Arr == 0 {
			return "nil[]"
		}
		return fmt.Sprintf("o%d[%s:+%s:+%s]", v.Arr, v.Off, v.Len, v.Cap)
	case VStr:
		return "str" + v.R.String()
	case VStruct:
		var p []string
		for _, f := range v.F {
			p = append(p, vstr(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case VArray:
		return "arr" + v.R.String()
	case VTuple:
		var p []string
		for _, f := range v {
			p = append(p, vstr(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case VIface:
		if v.Opq != nil {
			return "iface:" + v.Tag + ":" + v.Opq.String()
		}
		if v.Dyn == nil {
			return "nil-iface"
		}
		return "iface(" + v.Dyn.String() + " " + vstr(v.V) + ")"
	case VMap:
		return fmt.Sprintf("map@o%d", v.Obj)
	case VOpq:
		return v.Tag + ":" + v.L.String()
	case VMapC:
		return v.String()
	case VFact:
		return fmt.Sprintf("%s(%s %v)", v.kind, v.q.name, v.p)
	case VSeg:
		return fmt.Sprintf("seg(%s[%s..]×%s dir%d next=%s prev=%s)", v.q.name, v.start, v.n, v.dir, vstr(v.next), vstr(v.prev))
	}
	return fmt.Sprintf("%T", v)
}

// VMapC is the content of a map object: an unknown base overlaid by a log of updates.
type VMapC struct {
	base *Seq // unknown base map identity; nil: empty base
	log  []mapEnt
}
type mapEnt struct {
	key Value
	val Value // nil: absent
}

func (m VMapC) String() string {
	s := "map{"
	if m.base != nil {
		s += m.base.name
	}
	for _, e := range m.log {
		if e.val == nil {
			s += ", -" + vstr(e.key)
		} else {
			s += ", " + vstr(e.key) + ":" + vstr(e.val)
		}
	}
	return s + "}"
}

// VSeg is the content of a list-segment object: n>=1 linked nodes, the i-th being
// node q[start+dir*i] with its original payload.
type VSeg struct {
	q          *Seq
	start, n   Lin
	dir        int64
	next, prev Value
}

// Obj is a heap object. Immutable; writes replace it.
type Obj struct {
	typ  types.Type
	v    Value
	name string
	// identity of a list node materialised from a segment
	nodeQ   *Seq
	nodeIdx Lin
	glob    bool
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []deferRec
	call   ssa.Instruction // call site in the caller
	opaque bool
}
type deferRec struct {
	fn   VFunc
	args []Value
	inst *ssa.Defer
}

type State struct {
	c      *Cons
	heap   map[ObjID]*Obj
	frames []*Frame
	facts  map[string]bool
	strK   map[string]string
	ghost  map[string]Value
	path   []string
	trace  string // branches taken since the last loop head
	orc    *oracle
	eng    *Engine
}

type oracle struct {
	script []int
	limits []int
	pos    int
}

func (st *State) clone() *State {
	r := &State{c: st.c, eng: st.eng, trace: st.trace}
	r.heap = make(map[ObjID]*Obj, len(st.heap)+2)
	for k, v := range st.heap {
		r.heap[k] = v
	}
	r.frames = append([]*Frame(nil), st.frames...)
	if n := len(r.frames); n > 0 {
		r.frames[n-1] = r.frames[n-1].clone()
	}
	if len(st.facts) > 0 {
		r.facts = make(map[string]bool, len(st.facts))
		for k, v := range st.facts {
			r.facts[k] = v
		}
	}
	if len(st.strK) > 0 {
		r.strK = make(map[string]string, len(st.strK))
		for k, v := range st.strK {
			r.strK[k] = v
		}
	}
	r.ghost = make(map[string]Value, len(st.ghost))
	for k, v := range st.ghost {
		r.ghost[k] = v
	}
	r.path = st.path[:len(st.path):len(st.path)]
	return r
}

func (f *Frame) clone() *Frame {
	r := &Frame{fn: f.fn, call: f.call, opaque: f.opaque}
	r.env = make(map[ssa.Value]Value, len(f.env)+4)
	for k, v := range f.env {
		r.env[k] = v
	}
	r.defers = f.defers[:len(f.defers):len(f.defers)]
	return r
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

type infeasible struct{}

// progPanic is a Go panic of the analysed program.
type progPanic struct {
	why string
	val Value
	pos string
}

func (st *State) raise(why string) { panic(progPanic{why: why}) }

func (st *State) setCons(c *Cons) {
	if c == nil {
		panic(infeasible{})
	}
	st.c = c
}

func (st *State) choose(n int) int {
	if n <= 1 {
		return 0
	}
	o := st.orc
	if o == nil {
		giveUp("nondeterministic choice outside a fork")
	}
	if o.pos < len(o.script) {
		o.pos++
		return o.script[o.pos-1]
	}
	o.script = append(o.script, 0)
	o.limits = append(o.limits, n)
	o.pos++
	return 0
}

// cond decides l >= 0, splitting the state when both outcomes are possible.
func (st *State) cond(l Lin) bool {
	if st.c.entails(l) {
		return true
	}
	n := l.Neg().AddK(-1)
	if st.c.entails(n) {
		return false
	}
	if st.choose(2) == 0 {
		st.setCons(st.c.ge(l))
		return true
	}
	st.setCons(st.c.ge(n))
	return false
}

func (st *State) condEq(a, b Lin) bool {
	l := a.Sub(b)
	if st.c.entailsEq(l) {
		return true
	}
	if st.c.entailsNeq(l) {
		return false
	}
	if st.congruent(a, b) {
		st.setCons(st.c.eq(l))
		return true
	}
	if st.choose(2) == 0 {
		st.setCons(st.c.eq(l))
		return true
	}
	st.setCons(st.c.ne(l))
	return false
}

// congruent: both are applications of the same sequence or function to provably
// equal arguments, plus the same constant.
func (st *State) congruent(a, b Lin) bool {
	l := st.c.norm(a.Sub(b))
	if len(l.t) != 2 || l.c.sign() != 0 || l.t[0].k+l.t[1].k != 0 || l.t[0].k != 1 && l.t[0].k != -1 {
		return false
	}
	dx, dy := symDefOf(l.t[0].s), symDefOf(l.t[1].s)
	if dx == nil || dy == nil || dx.op != dy.op || dx.tag != dy.tag || len(dx.args) != len(dy.args) {
		return false
	}
	if dx.op == "bits" || len(dx.args) == 0 {
		return false
	}
	if dx.seq != dy.seq {
		if dx.seq == nil || dy.seq == nil || dx.seq.family == "" || dx.seq.family != dy.seq.family || !st.provesEq(dx.seq.arg, dy.seq.arg) {
			return false
		}
	}
	for i := range dx.args {
		if !st.provesEq(dx.args[i], dy.args[i]) {
			return false
		}
	}
	return true
}

// provesEq: a==b in every concretisation (no splitting).
func (st *State) provesEq(a, b Lin) bool {
	return st.c.entailsEq(a.Sub(b)) || st.congruent(a, b)
}

func (st *State) assume(l Lin)   { st.setCons(st.c.ge(l)) }
func (st *State) assumeEq(l Lin) { st.setCons(st.c.eq(l)) }
func (st *State) assumeNe(l Lin) { st.setCons(st.c.ne(l)) }

// fork runs f on copies of st, once for every combination of undecided choices.
func (e *Engine) fork(st *State, f func(*State) Value) []SV {
	var out []SV
	o := &oracle{}
	outer := st.orc
	for n := 0; ; n++ {
		if n > e.maxFork {
			giveUp("more than %d cases in one step", e.maxFork)
		}
		tick()
		s := st.clone()
		o.pos = 0
		s.orc = o
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case infeasible:
					case progPanic:
						out = append(out, SV{st: s, pan: &r})
					default:
						panic(r)
					}
				}
			}()
			v := f(s)
			out = append(out, SV{st: s, v: v})
		}()
		// next script
		i := len(o.script) - 1
		for i >= 0 && o.script[i]+1 >= o.limits[i] {
			i--
		}
		if i < 0 {
			break
		}
		o.script = o.script[:i+1]
		o.limits = o.limits[:i+1]
		o.script[i]++
	}
	for _, x := range out {
		x.st.orc = outer
	}
	return out
}

// SV is a state with the value an instruction produced in it (or a panic).
type SV struct {
	st  *State
	v   Value
	pan *progPanic
}

func (st *State) note(f string, a ...any) {
	if len(st.path) > 24 {
		return
	}
	st.path = append(st.path, fmt.Sprintf(f, a...))
}

func (st *State) newObj(typ types.Type, v Value, name string) ObjID {
	st.eng.objCount++
	id := st.eng.objCount
	st.heap[id] = &Obj{typ: typ, v: v, name: name}
	return id
}

func (st *State) dump() string {
	var b strings.Builder
	fmt.Fprintf(&b, "facts: %s\n", st.c)
	var ids []int
	for id := range st.heap {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := st.heap[ObjID(id)]
		if o.glob {
			continue
		}
		fmt.Fprintf(&b, "  o%d %s = %s\n", id, o.name, vstr(o.v))
	}
	for k, v := range st.ghost {
		fmt.Fprintf(&b, "  ghost %s = %s\n", k, vstr(v))
	}
	for k, v := range st.facts {
		fmt.Fprintf(&b, "  fact %s = %v\n", k, v)
	}
	return b.String()
}
