package main

import (
	"fmt"
	"go/types"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C22"] = &propCheck{run: checkIni, minObl: 8}
}

// pointMaps: every map is watched at one arbitrary key, S for maps of sections and K
// for maps of texts. What holds for this pair holds for all. A map's content is the
// tuple (foreign, has, value); a foreign map is the value at an unwatched key, of which
// nothing is known. A failure that involves only unwatched keys is seen by the choice
// of S and K that watches them, so such a path may end silently.
type pointMaps struct {
	S, K Rope
}

func textMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// at decides whether key is the watched one.
func (w *pointMaps) at(st *State, t types.Type, key Value) bool {
	k, ok := key.(VStr)
	if !ok {
		giveUp("map key %s", vstr(key))
	}
	if textMap(t) {
		return st.condStrEq(k.R, w.K)
	}
	return w.isS(st, k.R)
}

func (w *pointMaps) isS(st *State, r Rope) bool {
	if g, ok := st.ghost["sec"].(VStr); ok && st.ropeEq(g.R, r) {
		return bool(st.ghost["secIsS"].(VBool))
	}
	return st.condStrEq(r, w.S)
}

func (w *pointMaps) get(st *State, m VMap, t VTuple, key Value, mt *types.Map) (Value, bool) {
	z := st.eng.zero(mt.Elem())
	if !bool(t[0].(VBool)) && w.at(st, mt, key) {
		if bool(t[1].(VBool)) {
			return t[2], true
		}
		return z, false
	}
	if st.choose(2) == 0 {
		if _, ok := z.(VMap); ok {
			z = VMap{-1}
		}
		return z, false
	}
	if textMap(mt) {
		return VStr{st.freshRope("text at another key", byteT())}, true
	}
	if _, ok := mt.Elem().Underlying().(*types.Map); !ok {
		giveUp("value of type %s at another key", mt.Elem())
	}
	return VMap{st.newObj(mt.Elem(), VTuple{VBool(true), VBool(false), VBool(false)}, "other section")}, true
}

func (w *pointMaps) set(st *State, m VMap, t VTuple, key, val Value) {
	if bool(t[0].(VBool)) {
		return // foreign
	}
	if w.at(st, st.heap[m.Obj].typ, key) {
		if val == nil {
			st.store(VPtr{Obj: m.Obj}, VTuple{VBool(false), VBool(false), VBool(false)})
			return
		}
		if x, ok := val.(VMap); ok && x.Obj > 0 {
			if bool(st.heap[x.Obj].v.(VTuple)[0].(VBool)) {
				giveUp("one map under two keys")
			}
		}
		st.store(VPtr{Obj: m.Obj}, VTuple{VBool(false), VBool(true), val})
		return
	}
	if x, ok := val.(VMap); ok && x.Obj > 0 {
		if y, ok := t[2].(VMap); ok && y.Obj == x.Obj {
			giveUp("one map under two keys")
		}
		// it belongs to another key from now on
		st.store(VPtr{Obj: x.Obj}, VTuple{VBool(true), VBool(false), VBool(false)})
	}
}

// trimSpace is an unknown function of the text without the spaces known to be at
// its ends.
func (st *State) trimSpace(r Rope) Rope {
	r = st.normRope(r)
	for len(r) > 0 {
		if p := r[0]; p.kind == pTable {
			i := 0
			for i < len(p.tab) && p.tab[i] < 128 && unicode.IsSpace(rune(p.tab[i])) {
				i++
			}
			if i == len(p.tab) {
				r = r[1:]
				continue
			}
			r = append(tableRope(p.tab[i:]), r[1:]...)
		} else if st.c.entailsEq(p.n) {
			r = r[1:]
			continue
		}
		break
	}
	for len(r) > 0 {
		if p := r[len(r)-1]; p.kind == pTable {
			i := len(p.tab)
			for i > 0 && p.tab[i-1] < 128 && unicode.IsSpace(rune(p.tab[i-1])) {
				i--
			}
			if i == 0 {
				r = r[:len(r)-1]
				continue
			}
			r = append(r[:len(r)-1:len(r)-1], tableRope(p.tab[:i])...)
		} else if st.c.entailsEq(p.n) {
			r = r[:len(r)-1]
			continue
		}
		break
	}
	if k, ok := constRope(r); ok {
		ascii := true
		for i := 0; i < len(k); i++ {
			ascii = ascii && k[i] < 128
		}
		if ascii {
			return r
		}
	}
	if len(r) == 0 {
		return nil
	}
	if len(r) == 1 && r[0].kind == pSeq && r[0].seq.trimmed && st.c.entailsEq(r[0].start) && st.c.entailsEq(r[0].n.Sub(symLin(*r[0].seq.size))) {
		return r // trimmed before
	}
	key := "trim:" + st.ropeKey(r)
	q, ok := fnSeqs[key]
	if !ok {
		q = newSeq("trim", byteT())
		q.trimmed = true
		s, _ := defSym(key, fmt.Sprintf("len trim#%d", q.id), &symDef{op: "fn", tag: "len " + key})
		q.size = &s
		fnSeqs[key] = q
	}
	n := symLin(*q.size)
	st.assume(n)
	st.assume(ropeLen(r).Sub(n))
	return seqRope(q, K(0), n)
}

// firstIndex is the place of the first byte b in the text, or -1.
func (st *State) firstIndex(r Rope, b byte) Lin {
	r = st.normRope(r)
	if k, ok := constRope(r); ok {
		for i := 0; i < len(k); i++ {
			if k[i] == b {
				return K(int64(i))
			}
		}
		return K(-1)
	}
	key := fmt.Sprintf("index:%d:%s", b, st.ropeKey(r))
	n := ropeLen(r)
	if f, ok := st.facts[key]; ok && !f {
		return K(-1)
	}
	if _, ok := st.facts[key]; !ok {
		if !st.cond(n.AddK(-1)) || !st.fact(key) {
			return K(-1)
		}
	}
	s, _ := defSym(key, fmt.Sprintf("index of %q", b), &symDef{op: "fn", tag: key})
	i := symLin(s)
	st.assume(i)
	st.assume(n.Sub(i).AddK(-1))
	return i
}

func textModels(e *Engine) {
	m := e.models
	m["strings.TrimSpace"] = func(c *callCtx) Value { return VStr{c.st.trimSpace(c.args[0].(VStr).R)} }
	m["bytes.TrimSpace"] = func(c *callCtx) Value {
		s := c.args[0].(VSlice)
		if s.Arr == 0 {
			return s
		}
		return c.st.newSlice(byteT(), c.st.trimSpace(c.st.content(s)), "trimmed") // aliasing is not tracked
	}
	one := func(c *callCtx, v Value) byte {
		switch v := v.(type) {
		case VStr:
			if k, ok := constRope(c.st.normRope(v.R)); ok && len(k) == 1 {
				return k[0]
			}
		case VInt:
			if k := c.st.c.norm(v.L); k.isK() && k.c.int64() > 0 && k.c.int64() < 128 {
				return byte(k.c.int64())
			}
		}
		giveUp("%s: index of %s", c.pos, vstr(v))
		return 0
	}
	for _, n := range []string{"Index", "IndexByte", "IndexRune"} {
		m["strings."+n] = func(c *callCtx) Value {
			return VInt{c.st.firstIndex(c.args[0].(VStr).R, one(c, c.args[1]))}
		}
	}
}

type iniWorld struct {
	pm   *pointMaps
	eofV Value
}

// step is the specification: what one line does to the watched section and key.
func (w *iniWorld) step(st *State, line Rope) {
	g := st.ghost
	t := st.trimSpace(line)
	n := ropeLen(t)
	if st.condEq(n, K(0)) {
		return
	}
	st.condEq(n, K(1)) // the first character may be the last
	at := func(i Lin, b byte) bool {
		v, ok := st.read(t, i).(VInt)
		if !ok {
			giveUp("character of a line")
		}
		return st.condEq(v.L, K(int64(b)))
	}
	if at(K(0), ';') {
		return
	}
	if at(K(0), '[') && at(n.AddK(-1), ']') {
		sec := st.sub(t, K(1), n.AddK(-2))
		is := w.pm.isS(st, sec)
		g["sec"], g["secIsS"] = VStr{sec}, VBool(is)
		if is {
			g["hasS"] = VBool(true)
		}
		return
	}
	if st.condEq(ropeLen(g["sec"].(VStr).R), K(0)) {
		return
	}
	key, val := t, Rope(nil)
	if i := st.firstIndex(t, '='); st.cond(i) {
		key, val = st.sub(t, K(0), i), st.sub(t, i.AddK(1), n.Sub(i).AddK(-1))
	}
	key, val = st.trimSpace(key), st.trimSpace(val)
	if st.condEq(ropeLen(key), K(0)) {
		return
	}
	if bool(g["secIsS"].(VBool)) && st.condStrEq(key, w.pm.K) {
		g["hasK"], g["val"] = VBool(true), VStr{val}
	}
}

func (w *iniWorld) install(e *Engine) {
	textModels(e)
	e.maps = w.pm
	isSrc := func(st *State, v Value) bool {
		i, ok := v.(VIface)
		if !ok {
			return false
		}
		if isTag(i, "src") {
			return true
		}
		if i.Dyn != nil && i.Dyn.String() == "*os.File" {
			_, open := st.ghost["file"]
			return open
		}
		return false
	}
	reader := func(c *callCtx) Value {
		if !isSrc(c.st, c.args[0]) {
			giveUp("%s: reader over %s", c.pos, vstr(c.args[0]))
		}
		if _, ok := c.st.ghost["reader"]; ok {
			giveUp("%s: a second reader", c.pos)
		}
		c.st.ghost["reader"] = VBool(true)
		return VPtr{Obj: c.st.newObj(types.Typ[types.Int], VInt{K(0)}, "reader")}
	}
	e.models["bufio.NewReader"] = reader
	e.models["bufio.NewReaderSize"] = reader
	line := func(c *callCtx) (Rope, Value) {
		st := c.st
		if d, ok := c.args[1].(VInt); !ok || !st.c.entailsEq(d.L.AddK(-'\n')) {
			giveUp("%s: lines end with %s", c.pos, vstr(c.args[1]))
		}
		if _, closed := st.ghost["closed"]; closed {
			st.broken("%s: the closed file is read", c.pos)
		}
		if er, ok := st.ghost["err"].(VIface); ok && !isNil(er) {
			return nil, er
		}
		r := st.freshRope("line", byteT())
		if n := ropeLen(r); st.cond(n.AddK(-1)) {
			if v, ok := st.read(r, n.AddK(-1)).(VInt); ok && st.condEq(v.L, K('\n')) {
				panic(infeasible{})
			}
		}
		var er Value = VIface{}
		switch st.choose(3) {
		case 0:
			r = append(r, strRope("\n")...)
		case 1:
			er = w.eofV
		case 2:
			er = st.newErr("read error")
			for _, n := range []string{"sec", "secIsS", "hasS", "hasK", "val"} {
				st.ghost["old "+n] = st.ghost[n]
			}
		}
		st.ghost["err"] = er
		// forget what is known of unwatched names
		w.step(st, r)
		return r, er
	}
	e.models["(*bufio.Reader).ReadString"] = func(c *callCtx) Value {
		r, er := line(c)
		return VTuple{VStr{r}, er}
	}
	e.models["(*bufio.Reader).ReadBytes"] = func(c *callCtx) Value {
		r, er := line(c)
		return VTuple{c.st.newSlice(byteT(), r, "line"), er}
	}
	e.models["os.Open"] = func(c *callCtx) Value {
		st := c.st
		ft := c.sig.Results().At(0).Type()
		if _, ok := st.ghost["file"]; ok {
			st.broken("%s: a second file is opened", c.pos)
		}
		if p, ok := c.args[0].(VStr); !ok || !st.ropeEq(p.R, st.ghost["path"].(VStr).R) {
			st.broken("%s: another path is opened: %s", c.pos, vstr(c.args[0]))
		}
		if st.choose(2) == 0 {
			er := st.newErr("open error")
			st.ghost["openerr"] = er
			return VTuple{VPtr{}, er}
		}
		id := st.newObj(ft.(*types.Pointer).Elem(), VInt{K(0)}, "file")
		st.ghost["file"] = VPtr{Obj: id}
		return VTuple{VPtr{Obj: id}, VIface{}}
	}
	e.models["(*os.File).Close"] = func(c *callCtx) Value {
		st := c.st
		if p, ok := c.args[0].(VPtr); !ok || p.Obj == 0 {
			return st.newErr("invalid")
		}
		if _, ok := st.ghost["closed"]; ok {
			return st.newErr("already closed")
		}
		st.ghost["closed"] = VBool(true)
		if st.choose(2) == 0 {
			return st.newErr("close error")
		}
		return VIface{}
	}
}

func checkIni(c *Ctx) {
	sp := c.pkg("encoding/ini")
	start := func(emptyS, emptyK bool) (*Engine, *State, *iniWorld) {
		e := c.engine(sp)
		st := e.newState()
		w := &iniWorld{pm: &pointMaps{}}
		name := func(what string, empty bool) Rope {
			if empty {
				return nil
			}
			r := st.freshRope(what, byteT())
			st.assume(ropeLen(r).AddK(-1))
			return r
		}
		w.pm.S, w.pm.K = name("section", emptyS), name("key", emptyK)
		w.eofV = ioVar(sp, st, "EOF")
		st.ghost["sec"], st.ghost["secIsS"] = VStr{}, VBool(emptyS)
		st.ghost["hasS"], st.ghost["hasK"], st.ghost["val"] = VBool(false), VBool(false), VStr{}
		w.install(e)
		return e, st, w
	}
	flag := func(s *State, n string) bool { return bool(s.ghost[n].(VBool)) }
	get := c.fn(sp, "IniFile.GetString")
	// outcome compares what a lookup of the watched pair gives with the specification
	outcome := func(e *Engine, w *iniWorld, s *State, ini Value) string {
		p, ok := ini.(VPtr)
		if !ok || p.Obj == 0 {
			return "no file is returned: " + vstr(ini)
		}
		has, ok := sectionOf(s, p)
		if !ok {
			giveUp("the sections of %s", vstr(s.load(p)))
		}
		def := VStr{s.freshRope("default", byteT())}
		bad := ""
		for _, o := range e.Call(s.clone(), get, []Value{p, VStr{w.pm.S}, VStr{w.pm.K}, def}, nil, nil) {
			if o.pan != nil {
				return "the lookup of the result fails: " + panMsg(o.pan)
			}
			for _, x := range e.fork(o.st, func(q *State) Value {
				got, ok := o.ret[0].(VStr)
				if !ok {
					giveUp("lookup result %s", vstr(o.ret[0]))
				}
				match := func(pre string) string {
					if has != flag(q, pre+"hasS") {
						return fmt.Sprintf("section is listed: %v, expected %v", has, flag(q, pre+"hasS"))
					}
					want := def
					if flag(q, pre+"hasS") && flag(q, pre+"hasK") {
						want = q.ghost[pre+"val"].(VStr)
					}
					if !q.ropeEq(got.R, want.R) {
						return "the value is " + vstr(got) + ", expected " + vstr(want)
					}
					return ""
				}
				msg := match("")
				if _, failed := q.ghost["old hasS"]; failed && msg != "" && match("old ") == "" {
					msg = "" // the unfinished line of a failed read may be left out
				}
				return msg
			}) {
				if x.pan != nil {
					bad = x.pan.why
				} else if m := x.v.(string); m != "" {
					bad = m
				}
			}
		}
		return bad
	}
	for i := 0; i < 4; i++ {
		emptyS, emptyK := i&1 != 0, i&2 != 0
		what := fmt.Sprintf(" (section name empty: %v, key empty: %v)", emptyS, emptyK)
		c.oblige("Load: every stream"+what, func() {
			e, st, w := start(emptyS, emptyK)
			l := symLin(newSym("src"))
			c.run(e, st, c.fn(sp, "Load"), []Value{VIface{Opq: &l, Tag: "src"}}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if er, ok := s.ghost["err"].(VIface); !ok || isNil(er) {
					return "returns before the input ends"
				}
				return outcome(e, w, s, ret[0])
			})
		})
		c.oblige("New: every file"+what, func() {
			e, st, w := start(emptyS, emptyK)
			path := VStr{st.freshRope("path", byteT())}
			st.ghost["path"] = path
			c.run(e, st, c.fn(sp, "New"), []Value{path}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				if _, ok := s.ghost["openerr"]; ok {
					if isNil(ret[1]) {
						return "an open error is not reported"
					}
					return ""
				}
				if _, ok := s.ghost["file"]; !ok {
					return "the file is not opened"
				}
				if _, ok := s.ghost["closed"]; !ok {
					return "the file is left open"
				}
				er, ok := s.ghost["err"].(VIface)
				if !ok || isNil(er) {
					return "returns before the input ends"
				}
				if fail := !s.equal(er, w.eofV, nil); fail != !isNil(ret[1]) {
					return fmt.Sprintf("read error: %v, reported error: %s", fail, vstr(ret[1]))
				} else if fail {
					return ""
				}
				return outcome(e, w, s, ret[0])
			})
		})
	}
	c.oblige("GetString: every content", func() {
		for i := 0; i < 3; i++ {
			e, st, w := start(false, false)
			val, def := VStr{st.freshRope("value", byteT())}, VStr{st.freshRope("default", byteT())}
			t := sp.Type("IniFile").Type()
			var inner Value = VBool(false)
			mt := sectionMap(t)
			if mt == nil {
				giveUp("the sections of %s", t)
			}
			if i > 0 {
				content := VTuple{VBool(false), VBool(i == 2), Value(VBool(false))}
				if i == 2 {
					content[2] = val
				}
				inner = VMap{st.newObj(mt.Underlying().(*types.Map).Elem(), content, "section")}
			}
			m := VMap{st.newObj(mt, VTuple{VBool(false), VBool(i > 0), inner}, "sections")}
			p := VPtr{Obj: st.newObj(t, withSections(e, t, m), "ini")}
			delete(st.ghost, "sec")
			c.run(e, st, get, []Value{p, VStr{w.pm.S}, VStr{w.pm.K}, def}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				want := def
				if i == 2 {
					want = val
				}
				if got, ok := ret[0].(VStr); !ok || !s.ropeEq(got.R, want.R) {
					return "returns " + vstr(ret[0]) + ", expected " + vstr(want)
				}
				return ""
			})
		}
	})
	for _, name := range []string{"Sections", "Keys"} {
		c.oblige(name+": every content", func() {
			e := c.engine(sp)
			st := e.newState()
			textModels(e)
			t := sp.Type("IniFile").Type()
			mt := sectionMap(t)
			if mt == nil {
				giveUp("the sections of %s", t)
			}
			inner := newSeq("keys of the section", nil)
			secs := newSeq("sections", nil)
			inner.fixed, secs.fixed = true, true
			innerM := VMap{st.newObj(mt.Underlying().(*types.Map).Elem(), VMapC{base: inner}, "section")}
			secs.mk2 = func(s *State, key Value) (Value, bool) {
				if s.fact("the section exists") {
					return innerM, true
				}
				return nil, false
			}
			m := VMap{st.newObj(mt, VMapC{base: secs}, "sections")}
			p := VPtr{Obj: st.newObj(t, withSections(e, t, m), "ini")}
			args := []Value{p}
			if name == "Keys" {
				args = append(args, VStr{st.freshRope("section", byteT())})
			}
			e.models["sort.Strings"] = func(c *callCtx) Value { return VTuple{} } // the order is free
			e.models["slices.Sort"] = e.models["sort.Strings"]
			c.run(e, st, c.fn(sp, "IniFile."+name), args, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				want, n := Rope(nil), K(0)
				if name == "Sections" || s.fact("the section exists") {
					wm := m
					if name == "Keys" {
						wm = innerM
					}
					b := s.mapC(wm).base
					n = s.mapLen(wm)
					want = seqRope(b.mapKeys(s.heap[wm.Obj].typ.Underlying().(*types.Map)), K(0), n)
				}
				l, ok := ret[0].(VSlice)
				if !ok {
					return "returns " + vstr(ret[0])
				}
				var got Rope
				if l.Arr != 0 {
					got = s.content(l)
				}
				if !s.ropeEq(got, want) {
					return "lists " + s.normRope(got).String() + ", expected " + s.normRope(want).String()
				}
				return ""
			})
		})
	}
}

// sectionMap finds the map of sections in the file type.
func sectionMap(t types.Type) types.Type {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i).Type()
		if m, ok := f.Underlying().(*types.Map); ok {
			if _, ok := m.Elem().Underlying().(*types.Map); ok {
				return f
			}
		}
	}
	return nil
}

func withSections(e *Engine, t types.Type, m Value) Value {
	u := t.Underlying().(*types.Struct)
	z := e.zero(t).(VStruct)
	f := append([]Value(nil), z.F...)
	for i := range f {
		if types.Identical(u.Field(i).Type(), sectionMap(t)) {
			f[i] = m
		}
	}
	return VStruct{f}
}

// sectionOf: whether the file has the watched section.
func sectionOf(s *State, p VPtr) (bool, bool) {
	v, ok := s.load(p).(VStruct)
	if !ok {
		return false, false
	}
	for _, f := range v.F {
		if m, ok := f.(VMap); ok {
			if m.Obj == 0 {
				return false, true
			}
			if t, ok := s.heap[m.Obj].v.(VTuple); ok && !textMap(s.heap[m.Obj].typ) {
				return bool(t[1].(VBool)), true
			}
		}
	}
	return false, false
}

// ioVar is a variable of package io.
func ioVar(sp *ssa.Package, st *State, n string) Value {
	for _, imp := range sp.Pkg.Imports() {
		if imp.Path() == "io" {
			return st.load(st.val(sp.Prog.Package(imp).Var(n)))
		}
	}
	giveUp("package io is not imported")
	return nil
}
