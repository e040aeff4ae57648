package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// globFlow is a flow-insensitive, field-based points-to analysis that answers one
// question: which instruction of a function that can run after initialisation reads
// or writes memory that belongs to (is reachable from) a package-level variable?
type globFlow struct {
	p     *Program
	fns   []*ssa.Function
	late  map[*ssa.Function]bool // may run after initialisation
	taint map[ssa.Value]gset
	cells map[string]gset // contents of struct fields and local cells
	ret   map[*ssa.Function]map[int]gset
	call  map[*ssa.Function][]*ssa.CallCommon
	locks map[*ssa.Function]*lockSum
	acc   []gaccess
	dirty bool
	byMet map[string][]*ssa.Function
}

type gset map[*ssa.Global]bool

type gaccess struct {
	g      *ssa.Global
	fn     *ssa.Function
	in     ssa.Instruction
	write  bool
	atomic bool
	held   lockset
	what   string
}

type lockset map[string]bool // "W:key" exclusive, "R:key" shared

type lockSum struct {
	entry lockset
	known bool
	at    map[ssa.Instruction]lockset
	gain  lockset
	lose  map[string]bool
}

func isMod(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	return false
}

func isInitFn(f *ssa.Function) bool {
	return f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) && f.Signature.Recv() == nil
}

func hasPtr(t types.Type) bool { return hasPtr1(t, 0) }
func hasPtr1(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr1(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtr1(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPtr1(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

func newGlobFlow(p *Program) *globFlow {
	g := &globFlow{p: p, late: map[*ssa.Function]bool{}, taint: map[ssa.Value]gset{}, cells: map[string]gset{},
		ret: map[*ssa.Function]map[int]gset{}, call: map[*ssa.Function][]*ssa.CallCommon{}, locks: map[*ssa.Function]*lockSum{}, byMet: map[string][]*ssa.Function{}}
	for f := range p.allFunctions() {
		if f.Blocks != nil && isMod(f) {
			g.fns = append(g.fns, f)
		}
	}
	sort.Slice(g.fns, func(i, j int) bool {
		if g.fns[i].String() != g.fns[j].String() {
			return g.fns[i].String() < g.fns[j].String()
		}
		return g.fns[i].Pos() < g.fns[j].Pos()
	})
	for _, f := range g.fns {
		if f.Signature.Recv() != nil {
			g.byMet[f.Name()] = append(g.byMet[f.Name()], f)
		}
	}
	g.reach()
	for {
		g.dirty = false
		for _, f := range g.fns {
			if g.late[f] {
				g.flow(f)
			}
		}
		if !g.dirty {
			break
		}
	}
	g.lockAnalysis()
	for _, f := range g.fns {
		if g.late[f] {
			g.accesses(f)
		}
	}
	return g
}

func onceArg(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	return f != nil && f.String() == "(*sync.Once).Do"
}

func (g *globFlow) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		it := c.Value.Type().Underlying().(*types.Interface)
		var out []*ssa.Function
		for _, f := range g.byMet[c.Method.Name()] {
			if types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			}
		}
		return out
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	// dynamic call: any function of that signature whose value is taken
	var out []*ssa.Function
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	for _, f := range g.fns {
		if f.Signature.Recv() == nil && types.Identical(f.Signature, c.Signature()) {
			out = append(out, f)
		}
	}
	return out
}

// reach finds the functions that can run after initialisation.
func (g *globFlow) reach() {
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !g.late[f] && !isInitFn(f) {
			g.late[f] = true
			work = append(work, f)
		}
	}
	once := map[ssa.Value]bool{}
	for _, f := range g.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && onceArg(c.Common()) && len(c.Common().Args) == 2 {
					once[c.Common().Args[1]] = true
					if m, ok := c.Common().Args[1].(*ssa.MakeClosure); ok {
						once[m.Fn] = true
					}
				}
			}
		}
	}
	for _, f := range g.fns {
		if f.Parent() == nil && token.IsExported(f.Name()) {
			add(f)
		}
		// the wrapper of an unexported method runs only where a call in its package says so
		if f.Synthetic != "" && !isInitFn(f) && (f.Signature.Recv() == nil || token.IsExported(f.Name())) {
			add(f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for i, o := range in.Operands(nil) {
					if *o == nil {
						continue
					}
					if fn, ok := (*o).(*ssa.Function); ok {
						if callee == *o && i == 0 {
							continue
						}
						if once[fn] {
							continue
						}
						add(fn)
					}
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, t := range g.callees(c.Common()) {
						add(t)
						if t.Blocks != nil {
							g.call[t] = append(g.call[t], c.Common())
						}
					}
				}
			}
		}
	}
}

func (g *globFlow) of(v ssa.Value) gset {
	if x, ok := v.(*ssa.Global); ok {
		if x.Pkg != nil && strings.HasPrefix(x.Pkg.Pkg.Path(), modPath) {
			return gset{x: true}
		}
		return nil
	}
	return g.taint[v]
}

func (g *globFlow) add(v ssa.Value, s gset) {
	if len(s) == 0 || v == nil {
		return
	}
	t := g.taint[v]
	if t == nil {
		t = gset{}
		g.taint[v] = t
	}
	for x := range s {
		if !t[x] {
			t[x] = true
			g.dirty = true
		}
	}
}

func (g *globFlow) addCell(k string, s gset) {
	if len(s) == 0 {
		return
	}
	t := g.cells[k]
	if t == nil {
		t = gset{}
		g.cells[k] = t
	}
	for x := range s {
		if !t[x] {
			t[x] = true
			g.dirty = true
		}
	}
}

// cellKey names the memory an address denotes: a struct field, a local, or an
// element of some type.
func cellKey(a ssa.Value) string {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			return fmt.Sprintf("field %s.%d", x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
		case *ssa.IndexAddr:
			return "elem " + x.Type().String()
		case *ssa.Alloc:
			return fmt.Sprintf("alloc %p", x)
		case *ssa.Global:
			return "global " + x.String()
		default:
			return "deref " + a.Type().String()
		}
	}
}

func (g *globFlow) flow(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				g.add(x, g.of(x.X))
			case *ssa.IndexAddr:
				g.add(x, g.of(x.X))
			case *ssa.Slice:
				g.add(x, g.of(x.X))
			case *ssa.Phi:
				for _, e := range x.Edges {
					g.add(x, g.of(e))
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && hasPtr(x.Type()) {
					g.add(x, g.of(x.X))
					g.add(x, g.cells[cellKey(x.X)])
				}
			case *ssa.Field:
				if hasPtr(x.Type()) {
					g.add(x, g.of(x.X))
				}
			case *ssa.Index:
				if hasPtr(x.Type()) {
					g.add(x, g.of(x.X))
				}
			case *ssa.Lookup:
				if hasPtr(x.Type()) {
					g.add(x, g.of(x.X))
				}
			case *ssa.Extract:
				if hasPtr(x.Type()) {
					g.add(x, g.of(x.Tuple))
				}
			case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Convert, *ssa.TypeAssert, *ssa.Range, *ssa.Next, *ssa.SliceToArrayPointer:
				v := in.(ssa.Value)
				if _, isR := in.(*ssa.Range); isR || hasPtr(v.Type()) {
					for _, o := range in.Operands(nil) {
						if *o != nil {
							g.add(v, g.of(*o))
						}
					}
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, bv := range x.Bindings {
					g.add(fn.FreeVars[i], g.of(bv))
				}
			case *ssa.Store:
				if hasPtr(x.Val.Type()) {
					g.addCell(cellKey(x.Addr), g.of(x.Val))
				}
			case *ssa.Return:
				for _, r := range x.Results {
					if hasPtr(r.Type()) {
						for _, c := range g.call[f] {
							if v := callValueOf(c, f, g); v != nil {
								g.add(v, g.of(r))
							}
						}
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				if bl, ok := cc.Value.(*ssa.Builtin); ok {
					if v, ok := in.(ssa.Value); ok && bl.Name() == "append" {
						g.add(v, g.of(cc.Args[0]))
						if hasPtr(v.Type().Underlying().(*types.Slice).Elem()) {
							g.add(v, g.of(cc.Args[1]))
						}
					}
					continue
				}
				for _, t := range g.callees(cc) {
					if t.Blocks == nil {
						continue
					}
					args := cc.Args
					if cc.IsInvoke() {
						args = append([]ssa.Value{cc.Value}, args...)
					}
					for i, a := range args {
						if i < len(t.Params) && hasPtr(a.Type()) {
							g.add(t.Params[i], g.of(a))
						}
					}
				}
			}
		}
	}
}

// callValueOf is the register that receives the result of call c.
func callValueOf(c *ssa.CallCommon, f *ssa.Function, g *globFlow) ssa.Value {
	return g.regOf(c)
}

var callRegs = map[*ssa.CallCommon]ssa.Value{}

func (g *globFlow) regOf(c *ssa.CallCommon) ssa.Value {
	if len(callRegs) == 0 || callRegs[c] == nil {
		for _, f := range g.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if x, ok := in.(*ssa.Call); ok {
						callRegs[&x.Call] = x
					}
				}
			}
		}
	}
	return callRegs[c]
}

// ---- lock sets ----

func lockName(c *ssa.CallCommon) (op string, recv ssa.Value) {
	if c.IsInvoke() {
		op, recv = c.Method.Name(), c.Value
		if len(c.Args) != 0 {
			return "", nil
		}
	} else {
		f := c.StaticCallee()
		if f == nil || f.Signature.Recv() == nil || len(c.Args) != 1 {
			return "", nil
		}
		op, recv = f.Name(), c.Args[0]
	}
	switch op {
	case "Lock", "Unlock", "RLock", "RUnlock":
		return op, recv
	}
	return "", nil
}

// lockKey names a lock by the type and field (or variable) it lives in.
func lockKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
	case *ssa.Global:
		return x.String()
	case *ssa.UnOp:
		return "*" + lockKey(x.X)
	case *ssa.MakeInterface:
		return lockKey(x.X)
	case *ssa.ChangeInterface:
		return lockKey(x.X)
	}
	return v.Type().String()
}

func (l lockset) clone() lockset {
	r := lockset{}
	for k := range l {
		r[k] = true
	}
	return r
}

func meet(a, b lockset) lockset {
	r := lockset{}
	for k := range a {
		if b[k] {
			r[k] = true
		}
	}
	return r
}

func (g *globFlow) lockAnalysis() {
	for _, f := range g.fns {
		g.locks[f] = &lockSum{at: map[ssa.Instruction]lockset{}, gain: lockset{}, lose: map[string]bool{}}
	}
	// summaries and entry sets, iterated to a fixpoint (entry sets start optimistic)
	for round := 0; round < 12; round++ {
		entries := map[*ssa.Function]lockset{}
		seen := map[*ssa.Function]bool{}
		for _, f := range g.fns {
			if !g.late[f] {
				continue
			}
			s := g.locks[f]
			if round == 0 || f.Parent() == nil && token.IsExported(f.Name()) {
				s.entry = lockset{}
			}
			g.lockFlow(f, s)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, isGo := in.(*ssa.Go); isGo {
						for _, t := range g.callees(c.Common()) {
							entries[t], seen[t] = lockset{}, true
						}
						continue
					}
					for _, t := range g.callees(c.Common()) {
						h := s.at[in]
						if _, isDef := in.(*ssa.Defer); isDef {
							h = lockset{}
						}
						if !seen[t] {
							entries[t], seen[t] = h.clone(), true
						} else {
							entries[t] = meet(entries[t], h)
						}
					}
				}
			}
		}
		for _, f := range g.fns {
			if f.Parent() == nil && token.IsExported(f.Name()) || !seen[f] {
				g.locks[f].entry = lockset{}
			} else {
				g.locks[f].entry = entries[f]
			}
		}
	}
	for _, f := range g.fns {
		if g.late[f] {
			g.lockFlow(f, g.locks[f])
		}
	}
}

func (g *globFlow) lockFlow(f *ssa.Function, s *lockSum) {
	in := map[*ssa.BasicBlock]lockset{f.Blocks[0]: s.entry.clone()}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	var exit lockset
	haveExit := false
	lose := map[string]bool{}
	for n := 0; len(work) > 0 && n < 10000; n++ {
		b := work[0]
		work = work[1:]
		h := in[b].clone()
		for _, ins := range b.Instrs {
			s.at[ins] = h.clone()
			c, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			op, recv := lockName(&c.Call)
			switch op {
			case "Lock":
				h["W:"+lockKey(recv)] = true
				h["R:"+lockKey(recv)] = true
			case "RLock":
				h["R:"+lockKey(recv)] = true
			case "Unlock", "RUnlock":
				k := lockKey(recv)
				delete(h, "W:"+k)
				delete(h, "R:"+k)
				lose[k] = true
			default:
				for _, t := range g.callees(&c.Call) {
					if ts := g.locks[t]; ts != nil {
						for k := range ts.lose {
							delete(h, "W:"+k)
							delete(h, "R:"+k)
							lose[k] = true
						}
						for k := range ts.gain {
							h[k] = true
						}
					}
				}
			}
		}
		if len(b.Succs) == 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if !haveExit {
					exit, haveExit = h.clone(), true
				} else {
					exit = meet(exit, h)
				}
			}
		}
		for _, t := range b.Succs {
			o, ok := in[t]
			var nh lockset
			if !ok {
				nh = h.clone()
			} else {
				nh = meet(o, h)
			}
			if !ok || len(nh) != len(o) {
				in[t] = nh
				work = append(work, t)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if d, ok := ins.(*ssa.Defer); ok {
				if op, recv := lockName(&d.Call); op == "Unlock" || op == "RUnlock" {
					k := lockKey(recv)
					lose[k] = true
					delete(exit, "W:"+k)
					delete(exit, "R:"+k)
				}
			}
		}
	}
	s.gain = lockset{}
	for k := range exit {
		if !s.entry[k] {
			s.gain[k] = true
		}
	}
	s.lose = lose
}

// ---- accesses ----

// stdReads are library calls that do not write through the pointers given to them.
var stdReads = []string{"fmt.", "(fmt.", "hash/crc32.New", "hash/crc64.New", "hash/crc64.Checksum", "hash/crc32.Checksum", "hash/crc64.Update", "hash/crc32.Update",
	"sort.Search", "errors.", "strings.", "bytes.", "(*sync.", "sync.", "(*sync/atomic.", "sync/atomic.", "runtime.", "reflect.TypeOf", "reflect.ValueOf", "strconv.", "slices.Contains",
	"slices.Index", "slices.BinarySearch", "slices.Equal", "slices.Clone", "maps.Clone", "unicode", "math/bits."}

func (g *globFlow) accesses(f *ssa.Function) {
	s := g.locks[f]
	rec := func(in ssa.Instruction, t gset, write, atomic bool, what string) {
		for x := range t {
			g.acc = append(g.acc, gaccess{g: x, fn: f, in: in, write: write, atomic: atomic, held: s.at[in], what: what})
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				rec(in, g.of(x.Addr), true, false, "store")
			case *ssa.UnOp:
				if x.Op == token.MUL {
					rec(in, g.of(x.X), false, false, "load")
				}
			case *ssa.MapUpdate:
				rec(in, g.of(x.Map), true, false, "map update")
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					rec(in, g.of(x.X), false, false, "map lookup")
				}
			case *ssa.Next:
				rec(in, g.of(x.Iter), false, false, "iteration")
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if bl, ok := cc.Value.(*ssa.Builtin); ok {
				switch bl.Name() {
				case "copy":
					rec(in, g.of(cc.Args[0]), true, false, "copy")
				case "append":
					rec(in, g.of(cc.Args[0]), false, false, "append")
				case "delete", "clear":
					rec(in, g.of(cc.Args[0]), true, false, bl.Name())
				}
				continue
			}
			if op, _ := lockName(cc); op != "" {
				continue
			}
			fn := cc.StaticCallee()
			if fn == nil || fn.Blocks != nil {
				continue
			}
			n := fn.String()
			if strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*sync/atomic.") {
				w := !strings.Contains(n, "Load")
				if len(cc.Args) > 0 {
					rec(in, g.of(cc.Args[0]), w, true, n)
				}
				continue
			}
			reads := false
			for _, pre := range stdReads {
				if strings.HasPrefix(n, pre) {
					reads = true
				}
			}
			for _, a := range cc.Args {
				switch a.Type().Underlying().(type) {
				case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
					rec(in, g.of(a), !reads, false, "call of "+n)
				}
			}
		}
	}
}

// allFunctions lists every function, method, wrapper and literal of the loaded packages.
func (p *Program) allFunctions() map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if fn, ok := (*o).(*ssa.Function); ok {
						visit(fn)
					}
				}
			}
		}
	}
	for _, sp := range p.pkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				visit(m)
			case *ssa.Type:
				if types.IsInterface(m.Type()) {
					continue
				}
				if n, ok := m.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
					continue
				}
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						visit(p.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	return seen
}
