package main

import (
	"fmt"
	"go/types"
	"sort"
)

// Locks held by the analysed call are kept in the ghost variable "held": pairs of
// the lock's address and 1 (exclusive) or 2 (shared).

func (st *State) heldLocks() VTuple {
	h, _ := st.ghost["held"].(VTuple)
	return h
}

func samePlace(a, b VPtr) bool {
	if a.Obj != b.Obj || len(a.Path) != len(b.Path) {
		return false
	}
	for i := range a.Path {
		if vstrPath(a.Path[i]) != vstrPath(b.Path[i]) {
			return false
		}
	}
	return true
}

func vstrPath(p pathEl) string { return fmt.Sprintf("%v", p) }

func (st *State) holds(l VPtr) int {
	for _, x := range st.heldLocks() {
		t := x.(VTuple)
		if samePlace(t[0].(VPtr), l) {
			return int(t[1].(VInt).L.c.int64())
		}
	}
	return 0
}

func (st *State) acquire(c *callCtx, mode int64) {
	p := st.resolve(c.args[0])
	l := VPtr{Obj: p.Obj, Path: p.Path}
	if st.holds(l) != 0 {
		st.raise("a lock is taken again by its holder (deadlock)")
	}
	h := st.heldLocks()
	st.ghost["held"] = append(h[:len(h):len(h)], VTuple{l, VInt{K(mode)}})
	if st.eng.onAcquire != nil {
		st.eng.onAcquire(st, l, mode == 1)
	} else if len(h) == 0 {
		st.enterSection()
	}
}

func (st *State) release(c *callCtx, mode int64) {
	p := st.resolve(c.args[0])
	l := VPtr{Obj: p.Obj, Path: p.Path}
	if st.holds(l) != int(mode) {
		st.raise("release of a lock that is not held in that mode")
	}
	var h VTuple
	for _, x := range st.heldLocks() {
		if !samePlace(x.(VTuple)[0].(VPtr), l) {
			h = append(h, x)
		}
	}
	if st.eng.onRelease != nil {
		st.eng.onRelease(st, l, mode == 1)
	} else if len(h) == 0 {
		st.leaveSection()
	}
	if h == nil {
		delete(st.ghost, "held")
	} else {
		st.ghost["held"] = h
	}
}

// enterSection gives every changing integer package variable one unknown value for
// the time a lock is held; leaveSection records how the section changed them.
func (st *State) enterSection() {
	for _, id := range st.junkGlobals() {
		o := *st.heap[id]
		o.v = st.fresh(o.typ, "shared")
		st.heap[id] = &o
		st.ghost[fmt.Sprintf("cs:%d", id)] = o.v
	}
}

func (st *State) leaveSection() {
	var ids []int
	for k := range st.ghost {
		var id int
		if n, _ := fmt.Sscanf(k, "cs:%d", &id); n == 1 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, i := range ids {
		k := fmt.Sprintf("cs:%d", i)
		id := ObjID(i)
		o := *st.heap[id]
		old := st.ghost[k].(VInt).L
		if nw, ok := o.v.(VInt); ok && !st.c.entailsEq(nw.L.Sub(old)) {
			n, _ := st.ghost["rmw"].(VTuple)
			st.ghost["rmw"] = append(n[:len(n):len(n)], VTuple{VPtr{Obj: id}, VInt{st.c.norm(nw.L.Sub(old))}, nw})
		}
		o.v = VJunk{}
		st.heap[id] = &o
		delete(st.ghost, k)
	}
}

func (st *State) junkGlobals() []ObjID {
	var r []ObjID
	for id, o := range st.heap {
		if _, ok := o.v.(VJunk); ok && o.glob {
			if b, ok := o.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				r = append(r, id)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func lockModels(e *Engine) {
	for _, t := range []string{"Mutex", "RWMutex"} {
		for n, mode := range map[string]int64{"Lock": 1, "RLock": 2} {
			e.models["(*sync."+t+")."+n] = func(c *callCtx) Value { c.st.acquire(c, mode); return VTuple{} }
		}
		for n, mode := range map[string]int64{"Unlock": 1, "RUnlock": 2} {
			e.models["(*sync."+t+")."+n] = func(c *callCtx) Value { c.st.release(c, mode); return VTuple{} }
		}
	}
}
