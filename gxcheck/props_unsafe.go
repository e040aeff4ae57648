package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C20"] = &propCheck{run: checkUnsafe, minObl: 30}
}

// Word-level evaluation: every value is the list of machine words that represents
// it (string: data, length; slice: data, length, capacity), so a cast between
// pointer types is a change of view and addresses can be compared exactly.

type word struct {
	sym   string // unknown word
	obj   int    // >0: address of word off of object obj
	off   int
	k     int64 // constant, when sym=="" and obj==0
	asInt bool  // a pointer held as an integer
	born  int   // number of calls made when it became one
}

func (w word) String() string {
	switch {
	case w.obj > 0:
		return fmt.Sprintf("&o%d+%d", w.obj, w.off)
	case w.sym != "":
		return w.sym
	}
	return fmt.Sprint(w.k)
}

func sameWord(a, b word) bool {
	return a.sym == b.sym && a.obj == b.obj && a.off == b.off && a.k == b.k
}

type wobj struct {
	words []word
	ptr   []bool // the collector treats the word as a pointer
}

type wordState struct {
	mem   map[int]*wobj
	next  int
	calls int
	order int // how the address compares with the reference: -1, 0, 1
	nlen  int // 0: the length is zero, 1: it is not
	steps int
	globs map[*ssa.Global]int
	refs  map[string]bool // what addresses were compared with
	p     *Program
	pkg   *ssa.Package
}

type wordPanic struct{ why string }

const wordSize = 8

var wordSizes = types.SizesFor("gc", "amd64")

func (s *wordState) nwords(t types.Type) int {
	n := wordSizes.Sizeof(t)
	return int((n + wordSize - 1) / wordSize)
}

// pointers marks which words of t the collector sees as pointers.
func (s *wordState) pointers(t types.Type) []bool {
	r := make([]bool, s.nwords(t))
	var mark func(t types.Type, at int64)
	mark = func(t types.Type, at int64) {
		set := func(k int64) {
			if i := int(at/wordSize + k); i < len(r) {
				r[i] = true
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.UnsafePointer || u.Info()&types.IsString != 0 {
				set(0)
			}
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
			set(0)
		case *types.Interface:
			set(0)
			set(1)
		case *types.Struct:
			var fs []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i))
			}
			for i, o := range wordSizes.Offsetsof(fs) {
				mark(fs[i].Type(), at+o)
			}
		case *types.Array:
			for i := int64(0); i < u.Len() && i < 64; i++ {
				mark(u.Elem(), at+i*wordSizes.Sizeof(u.Elem()))
			}
		}
	}
	mark(t, 0)
	return r
}

func (s *wordState) alloc(t types.Type) word {
	s.next++
	s.mem[s.next] = &wobj{words: make([]word, s.nwords(t)), ptr: s.pointers(t)}
	return word{obj: s.next}
}

func (s *wordState) at(p word, n int, what string) *wobj {
	o := s.mem[p.obj]
	if o == nil || p.asInt {
		giveUp("%s through %s", what, p)
	}
	if p.off < 0 || p.off+n > len(o.words) {
		giveUp("%s outside the variable at %s", what, p)
	}
	return o
}

// load reads a value of type t; a word is a pointer afterwards if t says so.
func (s *wordState) load(p word, t types.Type) []word {
	n := s.nwords(t)
	o := s.at(p, n, "load")
	view := s.pointers(t)
	r := make([]word, n)
	for i := range r {
		r[i] = o.words[p.off+i]
		w := &r[i]
		if !w.isPlain() {
			if view[i] && !o.ptr[p.off+i] {
				panic(wordPanic{"data is referenced only by an integer in memory and then used as a pointer"})
			}
			if !view[i] && o.ptr[p.off+i] {
				w.asInt, w.born = true, s.calls
			}
		}
	}
	return r
}

// isPlain: a word that is no address at all (lengths, constants).
func (w word) isPlain() bool { return w.obj == 0 && (w.sym == "" || w.sym == "len" || w.sym == "cap") }

func (s *wordState) store(p word, v []word) {
	o := s.at(p, len(v), "store")
	for i, w := range v {
		if w.asInt && o.ptr[p.off+i] {
			if w.born != s.calls {
				panic(wordPanic{"an address held only as an integer across a call becomes a pointer again"})
			}
			w.asInt = false
		}
		o.words[p.off+i] = w
	}
}

type wordFrame struct {
	env map[ssa.Value][]word
}

func (s *wordState) val(f *wordFrame, v ssa.Value) []word {
	switch v := v.(type) {
	case *ssa.Const:
		n := s.nwords(v.Type())
		r := make([]word, n)
		if v.Value != nil {
			switch v.Value.Kind() {
			case constant.Int:
				k, _ := constant.Int64Val(v.Value)
				r[0].k = k
			case constant.Bool:
				if constant.BoolVal(v.Value) {
					r[0].k = 1
				}
			case constant.String:
				r[0].sym = "text of a constant"
				r[1].k = int64(len(constant.StringVal(v.Value)))
			default:
				giveUp("constant %s", v)
			}
		}
		return r
	case *ssa.Global:
		id, ok := s.globs[v]
		if !ok {
			t := v.Type().(*types.Pointer).Elem()
			id = s.alloc(t).obj
			for i := range s.mem[id].words {
				s.mem[id].words[i] = word{sym: v.Name()}
			}
			s.globs[v] = id
		}
		return []word{{obj: id}}
	case *ssa.Function:
		return []word{{sym: v.String()}}
	}
	r, ok := f.env[v]
	if !ok {
		giveUp("%s has no value", v.Name())
	}
	return r
}

func isPtrType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isSliceT(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

func (s *wordState) call(fn *ssa.Function, args [][]word, depth int) []word {
	if depth > 12 || fn.Blocks == nil {
		giveUp("call of %s", fn)
	}
	f := &wordFrame{env: map[ssa.Value][]word{}}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	var prev *ssa.BasicBlock
	b := fn.Blocks[0]
	for {
		s.steps++
		if s.steps > 2000 {
			giveUp("%s does not come to an end", fn)
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			pos := s.p.pos(in)
			switch x := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				for i, p := range b.Preds {
					if p == prev {
						f.env[x] = s.val(f, x.Edges[i])
					}
				}
			case *ssa.Alloc:
				f.env[x] = []word{s.alloc(x.Type().(*types.Pointer).Elem())}
			case *ssa.Store:
				s.store(s.val(f, x.Addr)[0], s.val(f, x.Val))
			case *ssa.UnOp:
				v := s.val(f, x.X)
				switch x.Op {
				case token.MUL:
					f.env[x] = s.load(v[0], x.Type())
				case token.NOT:
					f.env[x] = []word{{k: 1 - v[0].k}}
				default:
					giveUp("%s: operator %s", pos, x.Op)
				}
			case *ssa.FieldAddr:
				p := s.val(f, x.X)[0]
				st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				f.env[x] = []word{{obj: p.obj, off: p.off + s.fieldOff(st, x.Field), sym: p.sym}}
				if p.obj == 0 {
					giveUp("%s: field of %s", pos, p)
				}
			case *ssa.Field:
				st := x.X.Type().Underlying().(*types.Struct)
				o := s.fieldOff(st, x.Field)
				f.env[x] = s.val(f, x.X)[o : o+s.nwords(x.Type())]
			case *ssa.IndexAddr:
				i := s.val(f, x.Index)[0]
				v := s.val(f, x.X)
				if i.sym != "" || i.obj != 0 {
					giveUp("%s: index %s", pos, i)
				}
				if isSliceT(x.X.Type()) {
					if !s.less(i, v[1]) {
						panic(wordPanic{"index out of range"})
					}
					if i.k != 0 {
						giveUp("%s: element address", pos)
					}
					f.env[x] = []word{v[0]}
					break
				}
				el := x.Type().(*types.Pointer).Elem()
				sz := wordSizes.Sizeof(el)
				if v[0].obj == 0 || sz%wordSize != 0 {
					giveUp("%s: element of %s", pos, v[0])
				}
				f.env[x] = []word{{obj: v[0].obj, off: v[0].off + int(i.k*sz/wordSize)}}
			case *ssa.ChangeType:
				f.env[x] = s.val(f, x.X)
			case *ssa.Convert:
				f.env[x] = s.convert(s.val(f, x.X), x.X.Type(), x.Type(), pos)
			case *ssa.Slice:
				f.env[x] = s.slice(f, x, pos)
			case *ssa.BinOp:
				f.env[x] = []word{s.binop(x.Op, s.val(f, x.X), s.val(f, x.Y), pos)}
			case *ssa.Call:
				var a [][]word
				for _, y := range x.Call.Args {
					a = append(a, s.val(f, y))
				}
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					f.env[x] = s.builtin(bi.Name(), a, x, pos)
					break
				}
				g := x.Call.StaticCallee()
				if g == nil || g.Pkg != s.pkg {
					giveUp("%s: call of %s", pos, x.Call.Value)
				}
				s.calls++
				f.env[x] = s.call(g, a, depth+1)
				s.calls++
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c := s.val(f, x.Cond)[0]
				if c.sym != "" || c.obj != 0 {
					giveUp("%s: branch on %s", pos, c)
				}
				next = b.Succs[1-c.k]
			case *ssa.Return:
				if len(x.Results) != 1 {
					giveUp("%s: %d results", pos, len(x.Results))
				}
				return s.val(f, x.Results[0])
			case *ssa.Panic:
				panic(wordPanic{"panics"})
			default:
				giveUp("%s: instruction %T", pos, in)
			}
		}
		if next == nil {
			giveUp("%s: no way on", fn)
		}
		prev, b = b, next
	}
}

func (s *wordState) fieldOff(st *types.Struct, i int) int {
	var fs []*types.Var
	for k := 0; k < st.NumFields(); k++ {
		fs = append(fs, st.Field(k))
	}
	o := wordSizes.Offsetsof(fs)[i]
	if o%wordSize != 0 {
		giveUp("field %s is not on a word boundary", st.Field(i).Name())
	}
	return int(o / wordSize)
}

func (s *wordState) convert(v []word, from, to types.Type, pos string) []word {
	switch {
	case isStringT(from) && isStringT(to), isSliceT(from) && isSliceT(to), isPtrType(from) && isPtrType(to):
		return v
	case isStringT(from) && isSliceT(to):
		return []word{{sym: "a copy"}, v[1], {sym: "capacity of a copy"}}
	case isSliceT(from) && isStringT(to):
		return []word{{sym: "a copy"}, v[1]}
	case isPtrType(from):
		w := v[0]
		if !w.isPlain() {
			w.asInt, w.born = true, s.calls
		}
		return []word{w}
	case isPtrType(to):
		w := v[0]
		if w.asInt && w.born != s.calls {
			panic(wordPanic{"an address held only as an integer across a call becomes a pointer again"})
		}
		w.asInt = false
		return []word{w}
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 && wordSizes.Sizeof(tb) == wordSize && wordSizes.Sizeof(fb) == wordSize {
		return v
	}
	giveUp("%s: conversion from %s to %s", pos, from, to)
	return nil
}

func (s *wordState) isLen(w word) bool { return w.sym == "len" }

// less compares lengths and constants.
func (s *wordState) less(a, b word) bool {
	if a.sym == "" && b.sym == "" && a.obj == 0 && b.obj == 0 {
		return a.k < b.k
	}
	if s.isLen(a) && s.isLen(b) {
		return false
	}
	if a.sym == "" && a.obj == 0 && s.isLen(b) && a.k <= 0 {
		return a.k < 0 || s.nlen == 1
	}
	if b.sym == "" && b.obj == 0 && s.isLen(a) && b.k <= 0 {
		return false
	}
	if s.isLen(a) && b.sym == "" && b.obj == 0 && b.k == 1 {
		return s.nlen == 0
	}
	giveUp("comparison of %s and %s", a, b)
	return false
}

func (s *wordState) binop(op token.Token, x, y []word, pos string) word {
	b := func(v bool) word {
		if v {
			return word{k: 1}
		}
		return word{}
	}
	if len(x) != 1 || len(y) != 1 {
		// a comparison with the nil slice or the empty string
		null := func(v []word) bool { return v[0].sym == "" && v[0].obj == 0 && v[1].sym == "" && v[1].k == 0 }
		if (op == token.EQL || op == token.NEQ) && len(x) == 2 && (null(x) || null(y)) {
			v := x
			if null(x) {
				v = y
			}
			if v[1].sym == "len" {
				return b((s.nlen == 0) == (op == token.EQL))
			}
			if null(v) {
				return b(op == token.EQL)
			}
		}
		if (op == token.EQL || op == token.NEQ) && len(x) == 3 && (null(x) || null(y)) {
			return b((null(x) && null(y)) == (op == token.EQL))
		}
		giveUp("%s: operator %s on %d words", pos, op, len(x))
	}
	a, c := x[0], y[0]
	isNil := func(w word) bool { return w.sym == "" && w.obj == 0 && w.k == 0 }
	if (op == token.EQL || op == token.NEQ) && (a.sym == "data" && isNil(c) || c.sym == "data" && isNil(a)) {
		return b(op == token.NEQ)
	}
	ref := func(w word) bool { return w.sym != "" && w.sym != "data" && !s.isLen(w) && w.sym != "cap" }
	cmp := 0
	switch {
	case (a.sym == "data" || isNil(a)) && ref(c):
		cmp = s.order
		s.refs[c.sym] = true
	case (c.sym == "data" || isNil(c)) && ref(a):
		cmp = -s.order
		s.refs[a.sym] = true
	case sameWord(a, c):
	case op == token.EQL || op == token.NEQ || op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ:
		switch {
		case s.less(a, c):
			cmp = -1
		case s.less(c, a):
			cmp = 1
		}
	}
	switch op {
	case token.EQL:
		return b(cmp == 0)
	case token.NEQ:
		return b(cmp != 0)
	case token.LSS:
		return b(cmp < 0)
	case token.LEQ:
		return b(cmp <= 0)
	case token.GTR:
		return b(cmp > 0)
	case token.GEQ:
		return b(cmp >= 0)
	case token.ADD, token.SUB, token.OR, token.XOR:
		if c.sym == "" && c.obj == 0 && c.k == 0 {
			return a
		}
	}
	if a.sym == "" && c.sym == "" && a.obj == 0 && c.obj == 0 {
		switch op {
		case token.ADD:
			return word{k: a.k + c.k}
		case token.SUB:
			return word{k: a.k - c.k}
		case token.MUL:
			return word{k: a.k * c.k}
		}
	}
	return word{sym: fmt.Sprintf("(%s %s %s)", a, op, c), asInt: a.asInt || c.asInt, born: s.calls}
}

func (s *wordState) builtin(n string, a [][]word, x *ssa.Call, pos string) []word {
	switch n {
	case "len":
		if len(a[0]) >= 2 {
			return []word{a[0][1]}
		}
	case "cap":
		if len(a[0]) == 3 {
			return []word{a[0][2]}
		}
	case "StringData", "SliceData":
		return []word{a[0][0]}
	case "String":
		return []word{a[0][0], a[1][0]}
	case "Slice":
		return []word{a[0][0], a[1][0], a[1][0]}
	case "Add":
		if a[1][0].sym == "" && a[1][0].k == 0 {
			return []word{a[0][0]}
		}
		if p := a[0][0]; p.obj > 0 && a[1][0].sym == "" && a[1][0].k%wordSize == 0 {
			return []word{{obj: p.obj, off: p.off + int(a[1][0].k/wordSize)}}
		}
	}
	giveUp("%s: builtin %s", pos, n)
	return nil
}

func (s *wordState) slice(f *wordFrame, x *ssa.Slice, pos string) []word {
	v := s.val(f, x.X)
	opt := func(y ssa.Value, d word) word {
		if y == nil {
			return d
		}
		return s.val(f, y)[0]
	}
	lo := opt(x.Low, word{})
	if lo.sym != "" || lo.k != 0 || len(v) < 2 {
		giveUp("%s: slice expression", pos)
	}
	hi := opt(x.High, v[1])
	same := func(w word) bool { return sameWord(w, v[1]) || len(v) == 3 && sameWord(w, v[2]) }
	if len(v) == 2 {
		if !sameWord(hi, v[1]) {
			giveUp("%s: slice of a string", pos)
		}
		return []word{v[0], hi}
	}
	max := opt(x.Max, v[2])
	if !same(hi) || !same(max) {
		giveUp("%s: slice bounds %s, %s", pos, hi, max)
	}
	return []word{v[0], hi, max}
}

func checkUnsafe(c *Ctx) {
	sp := c.pkg("unsafe")
	refs := map[string]bool{}
	str := func() []word { return []word{{sym: "data"}, {sym: "len"}} }
	sl := func() []word { return []word{{sym: "data"}, {sym: "len"}, {sym: "cap"}} }
	ptr := func() []word { return []word{{sym: "data"}} }
	run := func(name, what string, arg []word, order, nlen int, judge func(r []word) string) {
		c.oblige(name+": "+what, func() {
			fn := c.fn(sp, name)
			s := &wordState{mem: map[int]*wobj{}, order: order, nlen: nlen, globs: map[*ssa.Global]int{}, refs: refs, p: c.p, pkg: sp}
			defer func() {
				if r := recover(); r != nil {
					if w, ok := r.(wordPanic); ok {
						c.fail("%s: %s: %s", c.p.pos(fn), fn, w.why)
						return
					}
					panic(r)
				}
			}()
			c.calls++
			c.cur.cases++
			if len(fn.Params) != 1 {
				giveUp("%s takes %d arguments", fn, len(fn.Params))
			}
			if m := judge(s.call(fn, [][]word{arg}, 0)); m != "" {
				c.fail("%s: %s: %s", c.p.pos(fn), fn, m)
			}
		})
	}
	want := func(names string, ws ...string) func(r []word) string {
		return func(r []word) string {
			if len(r) != len(ws) {
				return fmt.Sprintf("the result has %d words instead of %d", len(r), len(ws))
			}
			for i, w := range ws {
				if r[i].sym != w || r[i].obj != 0 || r[i].asInt {
					return fmt.Sprintf("the result is %v, expected %v (%s)", r, ws, names)
				}
			}
			return ""
		}
	}
	null := func(n int) func(r []word) string {
		return func(r []word) string {
			for _, w := range r {
				if w.sym != "" || w.obj != 0 || w.k != 0 {
					return fmt.Sprintf("the result for no data is %v", r)
				}
			}
			if len(r) != n {
				return fmt.Sprintf("the result has %d words instead of %d", len(r), n)
			}
			return ""
		}
	}
	for _, x := range []struct {
		n    string
		a, r int
	}{{"StringBytes", 2, 3}, {"BytesString", 3, 2}, {"StringPointer", 2, 1}, {"BytesPointer", 3, 1}, {"String.Pointer", 2, 1}, {"Bytes.Pointer", 3, 1}} {
		run(x.n, "no data", make([]word, x.a), -1, 0, null(x.r))
	}
	for nlen, l := range []string{"empty", "not empty"} {
		run("StringBytes", l, str(), 1, nlen, want("address, length, capacity", "data", "len", "len"))
		run("BytesString", l, sl(), 1, nlen, want("address, length", "data", "len"))
		run("StringPointer", l, str(), 1, nlen, want("address", "data"))
		run("BytesPointer", l, sl(), 1, nlen, want("address", "data"))
		run("String.Pointer", l, str(), 1, nlen, want("address", "data"))
		run("Bytes.Pointer", l, sl(), 1, nlen, want("address", "data"))
		for order := -1; order <= 1; order++ {
			w := fmt.Sprintf("%s, address %s the reference", l, []string{"below", "at", "above"}[order+1])
			judge := func(r []word) string {
				k := int64(0)
				if order >= 0 {
					k = 1
				}
				if len(r) != 1 || r[0].sym != "" || r[0].obj != 0 || r[0].k != k {
					return fmt.Sprintf("the answer is %v", r)
				}
				return ""
			}
			run("String.Writeable", w, str(), order, nlen, judge)
			run("Bytes.Writeable", w, sl(), order, nlen, judge)
			if nlen == 0 {
				run("Writeable", w, ptr(), order, nlen, judge)
			}
		}
	}
	c.oblige("the reference address is that of an allocated object", func() {
		if len(refs) != 1 {
			c.fail("addresses are compared with %d references", len(refs))
			return
		}
		for r := range refs {
			g := sp.Var(r)
			if g == nil {
				c.fail("addresses are compared with %s", r)
				return
			}
			n := 0
			for fn := range c.p.allFunctions() {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						st, ok := in.(*ssa.Store)
						if !ok || st.Addr != ssa.Value(g) {
							continue
						}
						n++
						v := st.Val
						for {
							if x, ok := v.(*ssa.Convert); ok {
								v = x.X
							} else if x, ok := v.(*ssa.ChangeType); ok {
								v = x.X
							} else {
								break
							}
						}
						if _, ok := v.(*ssa.Alloc); !ok || fn.Name() != "init" {
							c.fail("%s: %s is set to something other than the address of a new object", c.p.pos(in), g.Name())
						}
					}
				}
			}
			if n != 1 {
				c.fail("%s: %s is set %d times", c.p.pos(g), g.Name(), n)
			}
		}
	})
}
