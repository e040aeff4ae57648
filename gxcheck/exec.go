package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one way a call can end.
type Outcome struct {
	st  *State
	ret []Value
	pan *progPanic
}

// fnInfo caches per-function control-flow facts.
type fnInfo struct {
	num    map[ssa.Value]int
	rpo    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
	liveAt map[ssa.Instruction]map[ssa.Value]bool // live after a call
}

func (e *Engine) fnInfoOf(fn *ssa.Function) *fnInfo {
	if i := e.info[fn]; i != nil {
		return i
	}
	i := &fnInfo{num: map[ssa.Value]int{}, rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, liveAt: map[ssa.Instruction]map[ssa.Value]bool{}}
	e.info[fn] = i
	n := 0
	for _, p := range fn.Params {
		i.num[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		i.num[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				i.num[v] = n
				n++
			}
		}
	}
	// reverse postorder
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for k := range post {
		i.rpo[post[len(post)-1-k]] = k
	}
	// natural loops
	for _, b := range post {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := i.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					i.loops[s] = body
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			} else if i.rpo[s] <= i.rpo[b] {
				giveUp("irreducible control flow in %s", fn)
			}
		}
	}
	// liveness (phis are evaluated on edges: their operands are live out of preds)
	isReg := func(v ssa.Value) bool { _, ok := i.num[v]; return ok }
	liveOut := func(b *ssa.BasicBlock) map[ssa.Value]bool {
		out := map[ssa.Value]bool{}
		for _, s := range b.Succs {
			for v := range i.liveIn[s] {
				if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
					continue
				}
				out[v] = true
			}
			pi := predIndex(s, b)
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if isReg(ph.Edges[pi]) {
					out[ph.Edges[pi]] = true
				}
			}
		}
		return out
	}
	for ch := true; ch; {
		ch = false
		for _, b := range post {
			live := liveOut(b)
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isReg(*op) {
						live[*op] = true
					}
				}
			}
			// phis of b used in b stay live-in (they are set on entry)
			old := i.liveIn[b]
			if len(old) != len(live) {
				ch = true
			} else {
				for v := range live {
					if !old[v] {
						ch = true
						break
					}
				}
			}
			i.liveIn[b] = live
		}
	}
	for _, b := range post {
		live := liveOut(b)
		for k := len(b.Instrs) - 1; k >= 0; k-- {
			in := b.Instrs[k]
			switch in.(type) {
			case *ssa.Call, *ssa.RunDefers, *ssa.Defer:
				m := map[ssa.Value]bool{}
				for v := range live {
					m[v] = true
				}
				i.liveAt[in] = m
			}
			if v, ok := in.(ssa.Value); ok {
				if _, ph := in.(*ssa.Phi); !ph {
					delete(live, v)
				}
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && isReg(*op) {
					live[*op] = true
				}
			}
		}
	}
	return i
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

type edgeState struct {
	st *State
	to *ssa.BasicBlock
}

// runner evaluates one function activation.
type runner struct {
	e   *Engine
	fn  *ssa.Function
	inf *fnInfo
	out []Outcome
}

// Call runs fn on the arguments and returns every way it can end.
func (e *Engine) Call(st *State, fn *ssa.Function, args []Value, bind []Value, site ssa.Instruction) []Outcome {
	if e.onCall != nil {
		if o, ok := e.onCall(st, fn, args, bind); ok {
			return o
		}
	}
	e.stCalls++
	if fn.Blocks == nil {
		giveUp("call of %s, whose body is not available", fn)
	}
	depth := 0
	for _, f := range st.frames {
		if f.fn == fn {
			depth++
		}
	}
	if depth > 6 || len(st.frames) > 60 {
		giveUp("recursion through %s", fn)
	}
	e.fnSeen[fn] = true
	st = st.clone()
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, call: site}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	st.frames = append(st.frames, fr)
	r := &runner{e: e, fn: fn, inf: e.fnInfoOf(fn)}
	r.region(fn.Blocks[0], nil, []*State{st}, false)
	for i := range r.out {
		s := r.out[i].st
		s.frames = s.frames[:len(s.frames)-1]
		if n := len(s.frames); n > 0 {
			s.frames[n-1] = s.frames[n-1].clone()
		}
	}
	return r.out
}

// region runs the acyclic structure of body (nil: whole function) from entry.
// It returns the states on back edges to entry and on edges leaving body.
func (r *runner) region(entry *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, sts []*State, isLoop bool) (back []*State, exits []edgeState) {
	pend := map[*ssa.BasicBlock][]*State{entry: sts}
	first := true
	for len(pend) > 0 {
		var b *ssa.BasicBlock
		for x := range pend {
			if b == nil || r.inf.rpo[x] < r.inf.rpo[b] {
				b = x
			}
		}
		ss := pend[b]
		delete(pend, b)
		if len(ss) > 1 {
			ss = r.e.dedupe(ss, r.inf, b)
		}
		push := func(es edgeState) {
			if isLoop && es.to == entry {
				back = append(back, es.st)
			} else if body != nil && !body[es.to] {
				exits = append(exits, es)
			} else {
				pend[es.to] = append(pend[es.to], es.st)
			}
		}
		if lb := r.inf.loops[b]; lb != nil && !(isLoop && b == entry && first) {
			for _, es := range r.loop(b, lb, ss) {
				push(es)
			}
		} else {
			for _, s := range ss {
				for _, es := range r.block(s, b) {
					push(es)
				}
			}
		}
		first = false
	}
	return
}

// block runs one basic block (phis were evaluated on the incoming edge).
func (r *runner) block(st *State, b *ssa.BasicBlock) []edgeState {
	e := r.e
	e.stBlocks++
	tick()
	e.stStates++
	if e.stStates > e.maxState {
		giveUp("more than %d abstract states", e.maxState)
	}
	k := 0
	for k < len(b.Instrs) {
		if _, ok := b.Instrs[k].(*ssa.Phi); !ok {
			break
		}
		k++
	}
	return r.from(st, b, k)
}

func (r *runner) from(st *State, b *ssa.BasicBlock, k int) []edgeState {
	e := r.e
	for ; k < len(b.Instrs); k++ {
		in := b.Instrs[k]
		switch in := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.IndexAddr, *ssa.Store:
			if e.litDone[in.(ssa.Instruction)] {
				continue
			}
		}
		switch in := in.(type) {
		case *ssa.If:
			c, ok := st.val(in.Cond).(VBool)
			if !ok {
				giveUp("condition %s", vstr(st.val(in.Cond)))
			}
			to := b.Succs[1]
			if bool(c) {
				to = b.Succs[0]
			}
			if in.Cond.Pos().IsValid() {
				st.note("%s %s is %v", e.p.posOf(in.Cond.Pos()), condText(in.Cond), bool(c))
			}
			return []edgeState{r.edge(st, b, to)}
		case *ssa.Jump:
			return []edgeState{r.edge(st, b, b.Succs[0])}
		case *ssa.Return:
			var ret []Value
			for _, x := range in.Results {
				ret = append(ret, st.val(x))
			}
			r.out = append(r.out, Outcome{st: st, ret: ret})
			return nil
		case *ssa.Panic:
			r.unwind(st, &progPanic{why: "explicit panic", val: st.val(in.X), pos: e.p.pos(in)})
			return nil
		case *ssa.RunDefers:
			var out []edgeState
			for _, s := range r.runDefers(st, nil) {
				out = append(out, r.from(s, b, k+1)...)
			}
			return out
		case *ssa.Defer:
			f, args := r.callee(st, &in.Call)
			fr := st.top()
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferRec{fn: f, args: args, inst: in})
			continue
		case *ssa.Call:
			res := r.call(st, in, &in.Call)
			var out []edgeState
			single := len(res) == 1 && res[0].pan == nil
			for _, x := range res {
				if x.pan != nil {
					r.unwind(x.st, x.pan)
					continue
				}
				x.st.top().env[in] = x.v
				if single {
					st = x.st
					break
				}
				out = append(out, r.from(x.st, b, k+1)...)
			}
			if single {
				continue
			}
			return out
		case *ssa.Go, *ssa.Select, *ssa.Send:
			giveUp("%s: concurrency statement", e.p.pos(in))
		default:
			res := e.step(st, in)
			if len(res) == 1 && res[0].pan == nil {
				st = res[0].st
				if v, ok := in.(ssa.Value); ok {
					st.top().env[v] = res[0].v
				}
				continue
			}
			var out []edgeState
			for _, x := range res {
				if x.pan != nil {
					if x.pan.pos == "" {
						x.pan.pos = e.p.pos(in)
					}
					r.unwind(x.st, x.pan)
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					x.st.top().env[v] = x.v
					if t, ok := x.v.(VBool); ok && len(x.st.trace) < 400 {
						x.st.trace += fmt.Sprintf("%s.%s=%v;", in.Parent().Name(), v.Name(), bool(t))
					}
				}
				out = append(out, r.from(x.st, b, k+1)...)
			}
			return out
		}
	}
	giveUp("block without terminator in %s", r.fn)
	return nil
}

func condText(v ssa.Value) string {
	if b, ok := v.(*ssa.BinOp); ok {
		return b.X.Name() + b.Op.String() + b.Y.Name()
	}
	return v.Name()
}

// edge evaluates the phis of to for the transition b->to.
func (r *runner) edge(st *State, b, to *ssa.BasicBlock) edgeState {
	pi := predIndex(to, b)
	// a block may be a predecessor twice (both If branches to one block): values agree per edge index
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, st.val(ph.Edges[pi]))
	}
	env := st.top().env
	for i, ph := range phis {
		env[ph] = vals[i]
	}
	return edgeState{st, to}
}

// unwind ends the activation with a panic after running its deferred calls.
func (r *runner) unwind(st *State, p *progPanic) {
	for _, s := range r.runDefers(st, p) {
		r.out = append(r.out, Outcome{st: s, pan: p})
	}
}

func (r *runner) runDefers(st *State, p *progPanic) []*State {
	cur := []*State{st}
	for {
		var next []*State
		more := false
		for _, s := range cur {
			fr := s.top()
			if len(fr.defers) == 0 {
				next = append(next, s)
				continue
			}
			more = true
			d := fr.defers[len(fr.defers)-1]
			s = s.clone()
			s.top().defers = fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
			for _, o := range r.e.callValue(s, d.fn, d.args, d.inst, d.inst.Call.Signature()) {
				if o.pan != nil {
					// a panicking deferred call replaces the panic; keep unwinding
					r.unwind(o.st, o.pan)
					continue
				}
				next = append(next, o.st)
			}
		}
		cur = next
		if !more {
			return cur
		}
	}
}

// callee evaluates the function value and arguments of a call.
func (r *runner) callee(st *State, c *ssa.CallCommon) (VFunc, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := st.val(c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, st.val(a))
		}
		return VFunc{Builtin: "invoke:" + c.Method.Name()}, args
	}
	for _, a := range c.Args {
		args = append(args, st.val(a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return VFunc{Builtin: b.Name()}, args
	}
	f, ok := st.val(c.Value).(VFunc)
	if !ok {
		if o, ok := st.val(c.Value).(VOpq); ok {
			l := o.L
			return VFunc{Opq: &l}, args
		}
		giveUp("call of %s", vstr(st.val(c.Value)))
	}
	return f, args
}

func (r *runner) call(st *State, in *ssa.Call, c *ssa.CallCommon) []SV {
	f, args := r.callee(st, c)
	// prune dead registers so that they do not pin heap objects
	live := r.inf.liveAt[in]
	env := st.top().env
	for v := range env {
		if !live[v] {
			delete(env, v)
		}
	}
	if f.Builtin != "" && !strings.HasPrefix(f.Builtin, "invoke:") {
		return r.e.fork(st, func(s *State) Value { return s.builtin(f.Builtin, args, c, in) })
	}
	var out []SV
	for _, o := range r.e.callValue(st, f, args, in, c.Signature()) {
		if o.pan != nil {
			out = append(out, SV{st: o.st, pan: o.pan})
			continue
		}
		out = append(out, SV{st: o.st, v: packRet(o.ret)})
	}
	return out
}

func packRet(ret []Value) Value {
	switch len(ret) {
	case 0:
		return VTuple{}
	case 1:
		return ret[0]
	}
	return VTuple(ret)
}

func unpackRet(v Value) []Value {
	switch v := v.(type) {
	case nil:
		return nil
	case VTuple:
		return []Value(v)
	}
	return []Value{v}
}

// callValue calls a function value, interface method, model or opaque function.
func (e *Engine) callValue(st *State, f VFunc, args []Value, in ssa.Instruction, sig *types.Signature) []Outcome {
	pos := "?"
	if in != nil {
		pos = e.p.pos(in)
	}
	viaModel := func(key string, m modelFn, a []Value) []Outcome {
		var out []Outcome
		for _, x := range e.fork(st, func(s *State) Value {
			return m(&callCtx{e: e, st: s, args: a, key: key, sig: sig, pos: pos, inst: in})
		}) {
			if x.pan != nil {
				if x.pan.pos == "" {
					x.pan.pos = pos
				}
				out = append(out, Outcome{st: x.st, pan: x.pan})
			} else if rs, ok := x.v.(reenter); ok {
				out = append(out, rs.outs...)
			} else {
				out = append(out, Outcome{st: x.st, ret: unpackRet(x.v)})
			}
		}
		return out
	}
	if strings.HasPrefix(f.Builtin, "invoke:") {
		name := f.Builtin[len("invoke:"):]
		recv, ok := args[0].(VIface)
		if !ok {
			giveUp("%s: method call on %s", pos, vstr(args[0]))
		}
		if recv.Opq != nil {
			if e.invoke == nil {
				giveUp("%s: call of method %s of an unknown object", pos, name)
			}
			return viaModel("invoke "+name, func(c *callCtx) Value {
				c.args = args[1:]
				v, ok := e.invoke(c, recv, name)
				if !ok {
					giveUp("%s: call of method %s of unknown object %s", pos, name, vstr(recv))
				}
				return v
			}, args)
		}
		if recv.Dyn == nil {
			return viaModel("nil", func(c *callCtx) Value { c.st.raise("method call on nil interface"); return nil }, args)
		}
		fn, key := e.method(recv.Dyn, name)
		a := append([]Value{recv.V}, args[1:]...)
		if m := e.models[key]; m != nil {
			return viaModel(key, m, a)
		}
		if fn == nil {
			giveUp("%s: method %s of %s", pos, name, recv.Dyn)
		}
		return e.callFn(st, fn, a, nil, in, viaModel)
	}
	if f.Opq != nil {
		if e.callOpq == nil {
			giveUp("%s: call of an unknown function", pos)
		}
		return viaModel("opaque", func(c *callCtx) Value {
			v, ok := e.callOpq(c, f)
			if !ok {
				giveUp("%s: call of an unknown function", pos)
			}
			return v
		}, args)
	}
	if f.Builtin != "" {
		return viaModel(f.Builtin, func(c *callCtx) Value { return c.st.builtin(f.Builtin, args, nil, in) }, args)
	}
	if f.Fn == nil {
		return viaModel("nil", func(c *callCtx) Value { c.st.raise("call of nil function"); return nil }, args)
	}
	return e.callFn(st, f.Fn, args, f.Bind, in, viaModel)
}

// reenter lets a model return ready-made outcomes of calls it made itself.
type reenter struct{ outs []Outcome }

func (e *Engine) callFn(st *State, fn *ssa.Function, args, bind []Value, in ssa.Instruction, viaModel func(string, modelFn, []Value) []Outcome) []Outcome {
	key := fn.String()
	if fn.Origin() != nil {
		key = fn.Origin().String()
	}
	if m := e.models[key]; m != nil {
		return viaModel(key, m, args)
	}
	if fn.Blocks == nil {
		if g := goLibFn(e, sliceKey(key, fn.TypeArgs())); g != nil {
			return e.Call(st, g, args, bind, in)
		}
		giveUp("%s: call of unmodelled function %s", e.posIn(in), key)
	}
	return e.Call(st, fn, args, bind, in)
}

func (e *Engine) posIn(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	return e.p.pos(in)
}

func (e *Engine) method(t types.Type, name string) (*ssa.Function, string) {
	ms := e.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if sel.Obj().Name() != name {
			continue
		}
		fo := sel.Obj().(*types.Func)
		f := e.p.prog.MethodValue(sel)
		key := fo.FullName()
		return f, key
	}
	return nil, ""
}

// step executes an ordinary instruction.
func (e *Engine) step(st *State, in ssa.Instruction) []SV {
	// cheap instructions that never split run in place
	switch x := in.(type) {
	case *ssa.Extract:
		t, ok := st.val(x.Tuple).(VTuple)
		if !ok || x.Index >= len(t) {
			giveUp("%s: extract from %s", e.p.pos(in), vstr(st.val(x.Tuple)))
		}
		return []SV{{st: st, v: t[x.Index]}}
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range x.Bindings {
			b = append(b, st.val(v))
		}
		return []SV{{st: st, v: VFunc{Fn: x.Fn.(*ssa.Function), Bind: b}}}
	case *ssa.ChangeType:
		return []SV{{st: st, v: st.val(x.X)}}
	case *ssa.ChangeInterface:
		return []SV{{st: st, v: st.val(x.X)}}
	case *ssa.MakeInterface:
		return []SV{{st: st, v: VIface{Dyn: x.X.Type(), V: st.val(x.X)}}}
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		z := e.zero(t)
		if tab := e.literal(x); tab != nil {
			z = VArray{tableRope(tab)}
		}
		id := st.newObj(t, z, x.Comment)
		return []SV{{st: st, v: VPtr{Obj: id}}}
	case *ssa.MakeMap:
		var c Value = VMapC{}
		if e.maps != nil {
			c = VTuple{VBool(false), VBool(false), VBool(false)}
		}
		id := st.newObj(x.Type(), c, "map")
		return []SV{{st: st, v: VMap{id}}}
	}
	return e.fork(st, func(s *State) Value { return e.stepIn(s, in) })
}

// literal recognises a large array of integer constants that is filled in one block
// before any other use, and returns its final content; the stores are then skipped.
func (e *Engine) literal(x *ssa.Alloc) []int64 {
	if t, ok := e.lits[x]; ok {
		return t
	}
	if e.lits == nil {
		e.lits, e.litDone = map[*ssa.Alloc][]int64{}, map[ssa.Instruction]bool{}
	}
	e.lits[x] = nil
	at, ok := x.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() < 64 || !isInt(at.Elem()) {
		return nil
	}
	pos := map[ssa.Instruction]int{}
	for i, in := range x.Block().Instrs {
		pos[in] = i
	}
	tab := make([]int64, at.Len())
	seen := map[int64]bool{}
	skip := map[ssa.Instruction]bool{}
	last, first := 0, 1<<60
	for _, r := range *x.Referrers() {
		if r.Block() != x.Block() {
			continue
		}
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			first = min(first, pos[r])
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok || len(*ia.Referrers()) != 1 {
			return nil
		}
		s, ok := (*ia.Referrers())[0].(*ssa.Store)
		if !ok || s.Addr != ia || s.Block() != x.Block() {
			return nil
		}
		v, ok := s.Val.(*ssa.Const)
		if !ok || v.Value == nil || v.Value.Kind() != constant.Int {
			return nil
		}
		n, ok := constant.Int64Val(v.Value)
		i := k.Int64()
		if !ok || seen[i] || i < 0 || i >= at.Len() {
			return nil
		}
		seen[i] = true
		tab[i] = n
		skip[ia], skip[s] = true, true
		last = max(last, pos[s])
	}
	if first < last || len(seen) < 64 {
		return nil
	}
	for k := range skip {
		e.litDone[k] = true
	}
	e.lits[x] = tab
	return tab
}

func (e *Engine) stepIn(st *State, in ssa.Instruction) Value {
	switch x := in.(type) {
	case *ssa.BinOp:
		return st.binop(x.Op, st.val(x.X), st.val(x.Y), x.X.Type(), x.Type())
	case *ssa.UnOp:
		v := st.val(x.X)
		switch x.Op {
		case token.MUL:
			t := x.Type()
			if e.onLoad != nil {
				e.onLoad(st, st.resolve(v))
			}
			r := st.load(v)
			if _, ok := r.(VJunk); ok {
				r = st.fresh(t, "unknown")
			}
			return e.fixType(st, r, t)
		case token.NOT:
			return VBool(!bool(v.(VBool)))
		case token.SUB:
			if i, ok := v.(VInt); ok {
				return VInt{st.wrap(i.L.Neg(), basicOf(x.Type()))}
			}
			if e.floatOp != nil {
				return e.floatOp(st, token.SUB, v, nil)
			}
			if l, ok := valLin(v); ok {
				s, _ := defSym("flt-neg:"+st.c.norm(l).key(), "-"+l.String(), &symDef{op: "fn", tag: "floatneg", args: []Lin{l}})
				return VOpq{symLin(s), "float"}
			}
		case token.XOR:
			if i, ok := v.(VInt); ok {
				b := basicOf(x.Type())
				if isUnsigned(b) {
					_, hi := intRange(b)
					return VInt{kn(hi).Sub(i.L)}
				}
				return VInt{i.L.Neg().AddK(-1)}
			}
		}
		giveUp("%s: operator %s on %s", e.p.pos(in), x.Op, vstr(v))
	case *ssa.Store:
		if e.onWrite != nil {
			e.onWrite(st, in, st.val(x.Addr), st.val(x.Val))
		}
		st.store(st.val(x.Addr), st.val(x.Val))
		return nil
	case *ssa.FieldAddr:
		p := st.resolve(st.val(x.X))
		return VPtr{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], pathEl{field: x.Field})}
	case *ssa.Field:
		s, ok := st.val(x.X).(VStruct)
		if !ok {
			giveUp("%s: field of %s", e.p.pos(in), vstr(st.val(x.X)))
		}
		return s.F[x.Field]
	case *ssa.IndexAddr:
		return st.indexAddr(st.val(x.X), x.X.Type(), st.val(x.Index))
	case *ssa.Index:
		v := st.val(x.X)
		var r Rope
		switch v := v.(type) {
		case VArray:
			r = v.R
		case VStr:
			r = v.R
		default:
			giveUp("%s: index of %s", e.p.pos(in), vstr(v))
		}
		i := st.val(x.Index).(VInt).L
		if !st.cond(i) || !st.cond(ropeLen(r).Sub(i).AddK(-1)) {
			st.raise("index out of range")
		}
		return e.fixType(st, st.typed(st.read(r, i), x.Type(), "elem"), x.Type())
	case *ssa.Lookup:
		v := st.val(x.X)
		switch v := v.(type) {
		case VStr:
			i := st.val(x.Index).(VInt).L
			if !st.cond(i) || !st.cond(ropeLen(v.R).Sub(i).AddK(-1)) {
				st.raise("string index out of range")
			}
			return st.read(v.R, i)
		case VMap:
			if e.onMapRead != nil {
				e.onMapRead(st, v, e.p.pos(in))
			}
			r, ok := st.mapGet(v, st.val(x.Index), x.X.Type().Underlying().(*types.Map))
			if x.CommaOk {
				return VTuple{r, VBool(ok)}
			}
			return r
		}
		giveUp("%s: lookup in %s", e.p.pos(in), vstr(v))
	case *ssa.MapUpdate:
		m, ok := st.val(x.Map).(VMap)
		if !ok {
			giveUp("%s: update of %s", e.p.pos(in), vstr(st.val(x.Map)))
		}
		if e.onMapWrite != nil {
			e.onMapWrite(st, m, e.p.pos(in))
		}
		st.mapSet(m, st.val(x.Key), st.val(x.Value))
		return nil
	case *ssa.Slice:
		opt := func(v ssa.Value) Value {
			if v == nil {
				return nil
			}
			return st.val(v)
		}
		return st.sliceOp(st.val(x.X), x.X.Type(), opt(x.Low), opt(x.High), opt(x.Max))
	case *ssa.MakeSlice:
		n, c := st.val(x.Len).(VInt).L, st.val(x.Cap).(VInt).L
		if !st.cond(n) || !st.cond(c.Sub(n)) {
			st.raise("makeslice: len or cap out of range")
		}
		st.assume(K(1 << maxLenBits).Sub(c)) // larger requests exhaust memory, out of scope
		el := x.Type().Underlying().(*types.Slice).Elem()
		r := Rope{{n: c, kind: pConst, val: e.zero(el)}}
		s := st.newSlice(el, r, "make")
		s.Len, s.Cap = n, c
		return s
	case *ssa.Convert:
		return st.convert(st.val(x.X), x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		return st.typeAssert(x)
	case *ssa.Range:
		return st.rangeStart(x)
	case *ssa.Next:
		return st.rangeNext(x)
	case *ssa.SliceToArrayPointer:
		s, ok := st.val(x.X).(VSlice)
		if !ok {
			giveUp("%s: conversion of %s", e.p.pos(in), vstr(st.val(x.X)))
		}
		giveUp("%s: slice to array pointer conversion of %s", e.p.pos(in), vstr(s))
	}
	giveUp("%s: instruction %T", e.p.pos(in), in)
	return nil
}

// fixType adapts an opaque element to the static type it is used at.
func (e *Engine) fixType(st *State, v Value, t types.Type) Value {
	if o, ok := v.(VOpq); ok {
		if _, isI := t.Underlying().(*types.Interface); isI {
			l := o.L
			return VIface{Opq: &l, Tag: o.Tag}
		}
	}
	return v
}

func (st *State) typeAssert(x *ssa.TypeAssert) Value {
	v, ok := st.val(x.X).(VIface)
	if !ok {
		giveUp("type assertion on %s", vstr(st.val(x.X)))
	}
	want := x.AssertedType
	zero := st.eng.zero(want)
	var holds bool
	var res Value
	switch {
	case v.Dyn == nil && v.Opq == nil:
		holds = false
	case v.Opq != nil:
		it, isI := want.Underlying().(*types.Interface)
		// a value of a static type that has the methods always has them
		holds = isI && types.Implements(x.X.Type(), it) || st.fact("dyn:"+st.c.norm(*v.Opq).key()+":"+want.String())
		if holds {
			if isI {
				res = v
			} else {
				// exclusive concrete types
				for k, b := range st.facts {
					pre := "dyn:" + st.c.norm(*v.Opq).key() + ":"
					if b && strings.HasPrefix(k, pre) && k != pre+want.String() && !strings.HasSuffix(k, "interface") {
						if st.eng.isConcrete(k[len(pre):]) {
							panic(infeasible{})
						}
					}
				}
				st.eng.concrete(want)
				res = st.fresh(want, "dynamic value")
			}
		}
	default:
		if it, isI := want.Underlying().(*types.Interface); isI {
			holds = types.Implements(v.Dyn, it)
			res = v
		} else {
			holds = types.Identical(v.Dyn, want)
			res = v.V
		}
	}
	if x.CommaOk {
		if !holds {
			return VTuple{zero, VBool(false)}
		}
		return VTuple{res, VBool(true)}
	}
	if !holds {
		st.raise("type assertion failed")
	}
	return res
}

var concreteTypes = map[string]bool{}

func (e *Engine) concrete(t types.Type) { concreteTypes[t.String()] = true }
func (e *Engine) isConcrete(s string) bool {
	return concreteTypes[s]
}

func (st *State) builtin(name string, args []Value, c *ssa.CallCommon, in ssa.Instruction) Value {
	switch name {
	case "len":
		if p, ok := args[0].(VPtr); ok && c != nil {
			_ = p
			return VInt{K(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())}
		}
		return VInt{valLen(st, args[0])}
	case "cap":
		if s, ok := args[0].(VSlice); ok {
			if s.Arr == 0 {
				return VInt{K(0)}
			}
			return VInt{s.Cap}
		}
	case "append":
		s, ok := args[0].(VSlice)
		if !ok {
			giveUp("append to %s", vstr(args[0]))
		}
		var elem types.Type
		if c != nil {
			elem = c.Args[0].Type().Underlying().(*types.Slice).Elem()
		}
		var src Rope
		switch y := args[1].(type) {
		case VSlice:
			src = st.content(y)
		case VStr:
			src = y.R
		default:
			giveUp("append of %s", vstr(args[1]))
		}
		if st.eng.onAppend != nil {
			st.eng.onAppend(st, s, ropeLen(src))
		}
		return st.doAppend(s, elem, src)
	case "copy":
		d, ok := args[0].(VSlice)
		if !ok {
			giveUp("copy to %s", vstr(args[0]))
		}
		var src Rope
		switch y := args[1].(type) {
		case VSlice:
			src = st.content(y)
		case VStr:
			src = y.R
		}
		return VInt{st.doCopy(d, src)}
	case "delete":
		if st.eng.onMapWrite != nil {
			st.eng.onMapWrite(st, args[0].(VMap), st.eng.posIn(in))
		}
		st.mapDel(args[0].(VMap), args[1])
		return VTuple{}
	case "min", "max":
		r := args[0]
		if _, ok := r.(VInt); ok {
			for _, a := range args[1:] {
				if st.cond(r.(VInt).L.Sub(a.(VInt).L)) == (name == "min") {
					r = a
				}
			}
			return r
		}
	case "clear":
		switch x := args[0].(type) {
		case VMap:
			if st.eng.onMapWrite != nil {
				st.eng.onMapWrite(st, x, st.eng.posIn(in))
			}
			st.store(VPtr{Obj: x.Obj}, VMapC{})
			return VTuple{}
		case VSlice:
			if x.Arr == 0 {
				return VTuple{}
			}
			el := st.heap[x.Arr].typ.Underlying().(*types.Array).Elem()
			st.spliceArr(x, x.Off, Rope{{n: x.Len, kind: pConst, val: st.eng.zero(el)}})
			return VTuple{}
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(VPtr); ok && p.Obj == 0 {
			st.raise("nil receiver")
		}
		return args[0]
	case "print", "println":
		return VTuple{}
	case "String", "StringData", "SliceData", "Slice", "Add":
		if m := st.eng.models["unsafe."+name]; m != nil {
			return m(&callCtx{e: st.eng, st: st, args: args, inst: in})
		}
	}
	giveUp("%s: builtin %s", st.eng.posIn(in), name)
	return nil
}

// ---- maps ----

func (st *State) mapC(m VMap) VMapC {
	c, ok := st.heap[m.Obj].v.(VMapC)
	if !ok {
		giveUp("contents of map %s", vstr(m))
	}
	return c
}

func (st *State) mapGet(m VMap, key Value, mt *types.Map) (Value, bool) {
	z := st.eng.zero(mt.Elem())
	if m.Obj <= 0 {
		return z, false
	}
	if st.eng.maps != nil {
		if t, ok := st.heap[m.Obj].v.(VTuple); ok {
			return st.eng.maps.get(st, m, t, key, mt)
		}
	}
	c := st.mapC(m)
	for i := len(c.log) - 1; i >= 0; i-- {
		if st.equal(c.log[i].key, key, mt.Key()) {
			if c.log[i].val == nil {
				return z, false
			}
			return c.log[i].val, true
		}
	}
	if c.base == nil {
		return z, false
	}
	v, ok := st.mapBase(c.base, key, mt)
	if !ok {
		return z, false
	}
	return v, true
}

// mapBase looks a key up in the unknown base map.
func (st *State) mapBase(b *Seq, key Value, mt *types.Map) (Value, bool) {
	if b.mk2 != nil {
		return b.mk2(st, key)
	}
	k := st.valKey(key)
	if !st.fact(fmt.Sprintf("in:%d:%s", b.id, k)) {
		return nil, false
	}
	s, _ := defSym(fmt.Sprintf("mapval:%d:%s", b.id, k), b.name+"["+k+"]", &symDef{op: "fn", tag: fmt.Sprintf("map%d:%s", b.id, k)})
	return st.wrapElem(&Seq{elem: mt.Elem(), name: b.name + "[]"}, symLin(s)), true
}

func (st *State) valKey(v Value) string {
	switch v := v.(type) {
	case VStr:
		return st.ropeKey(v.R)
	}
	if l, ok := valLin(v); ok {
		return st.c.norm(l).key()
	}
	return vstr(v)
}

func (st *State) mapSet(m VMap, key, val Value) {
	if m.Obj <= 0 {
		if m.Obj < 0 {
			panic(infeasible{}) // seen when that key is the watched one
		}
		st.raise("assignment to entry in nil map")
	}
	if st.eng.maps != nil {
		if t, ok := st.heap[m.Obj].v.(VTuple); ok {
			st.eng.maps.set(st, m, t, key, val)
			return
		}
	}
	c := st.mapC(m)
	st.store(VPtr{Obj: m.Obj}, VMapC{base: c.base, log: append(c.log[:len(c.log):len(c.log)], mapEnt{key, val})})
}

func (st *State) mapDel(m VMap, key Value) {
	if m.Obj <= 0 {
		return
	}
	if st.eng.maps != nil {
		if t, ok := st.heap[m.Obj].v.(VTuple); ok {
			st.eng.maps.set(st, m, t, key, nil)
			return
		}
	}
	c := st.mapC(m)
	st.store(VPtr{Obj: m.Obj}, VMapC{base: c.base, log: append(c.log[:len(c.log):len(c.log)], mapEnt{key, nil})})
}

func (st *State) mapLen(m VMap) Lin {
	if m.Obj <= 0 {
		return K(0)
	}
	c := st.mapC(m)
	if c.base == nil && len(c.log) == 0 {
		return K(0)
	}
	if c.base != nil && len(c.log) == 0 {
		s, _ := defSym(fmt.Sprintf("maplen:%d", c.base.id), "len("+c.base.name+")", nil)
		st.assume(symLin(s))
		st.assume(K(1 << 40).Sub(symLin(s)))
		return symLin(s)
	}
	giveUp("length of an updated map")
	return Lin{}
}
