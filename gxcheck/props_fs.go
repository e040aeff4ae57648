package main

import (
	"fmt"
	"go/types"
	"path"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C33"] = &propCheck{run: checkFS, minObl: 58}
}

// fsWorld: which strings are known to be cleaned paths.
type fsWorld struct {
	nodes map[string]*dirNode // a directory tree, by the keys of the paths
	clean map[int]string      // sequence -> key
	strs  map[string]*Seq
	files map[ObjID]string
}

// isClean: the text is the whole of a cleaned path.
func (w *fsWorld) isClean(st *State, r Rope) bool {
	r = st.normRope(r)
	if s, ok := constText(r); ok {
		return path.Clean(s) == s
	}
	if len(r) != 1 || r[0].kind != pSeq || r[0].dir != 1 || !st.c.entailsEq(r[0].start) {
		return false
	}
	k, ok := w.clean[r[0].seq.id]
	if !ok {
		return false
	}
	n, _ := defSym("fnstrlen:"+k, "", nil)
	return st.c.entailsEq(r[0].n.Sub(symLin(n)))
}

func (w *fsWorld) cleaned(st *State, key, name string) Rope {
	r := st.fnStr(key, name).R
	w.clean[r[0].seq.id] = key
	st.assume(ropeLen(r).AddK(-1)) // a cleaned path is never empty
	return r
}

// isAbs: on this system a path is absolute when it starts with a slash.
func (w *fsWorld) isAbs(st *State, r Rope) bool {
	if st.condEq(ropeLen(r), K(0)) {
		return false
	}
	return st.condEq(st.read(r, K(0)).(VInt).L, K('/'))
}

// Clean keeps a path absolute or not.
func (w *fsWorld) Clean(st *State, r Rope) Rope {
	r = st.normRope(r)
	if s, ok := constText(r); ok {
		return strRope(path.Clean(s))
	}
	if w.isClean(st, r) {
		return r
	}
	if !st.eng.inInit && st.condEq(ropeLen(r), K(0)) {
		return strRope(".")
	}
	out := w.cleaned(st, "clean:"+st.ropeKey(r), "clean path")
	if st.eng.inInit {
		return out
	}
	first := st.read(out, K(0)).(VInt).L
	if w.isAbs(st, r) {
		st.assumeEq(first.AddK(-'/'))
	} else {
		st.assumeNe(first.AddK(-'/'))
	}
	return out
}

func (w *fsWorld) elems(st *State, v Value) (key string, clean bool) {
	s, ok := v.(VSlice)
	if !ok {
		giveUp("path elements %s", vstr(v))
	}
	if s.Arr == 0 {
		return "", false
	}
	for _, p := range st.normRope(st.content(s)) {
		switch {
		case p.kind == pConst && st.c.entailsEq(p.n.AddK(-1)):
			x, ok := p.val.(VStr)
			if !ok {
				giveUp("path element %s", vstr(p.val))
			}
			if !w.isClean(st, x.R) && !st.eng.inInit && st.condEq(ropeLen(x.R), K(0)) {
				continue // empty elements are ignored
			}
			if clean && !st.eng.inInit && !w.isAbs(st, x.R) {
				// after a non-empty element a relative one may as well be cleaned first
				x = VStr{w.Clean(st, x.R)}
			}
			if t, ok := constText(st.normRope(x.R)); ok && t == "." && key != "" {
				continue
			}
			key += "," + st.ropeKey(x.R)
			clean = clean || w.isClean(st, x.R)
		case p.kind == pSeq:
			key += "," + st.ropeKey(Rope{p})
		default:
			giveUp("path elements %s", vstr(v))
		}
	}
	return
}

// Join ignores empty elements and cleans the rest.
func (w *fsWorld) Join(st *State, elems Value) Rope {
	k, clean := w.elems(st, elems)
	if k == "" {
		return nil
	}
	if clean {
		return w.cleaned(st, "join:"+k, "joined path")
	}
	return st.fnStr("join:"+k, "joined path").R
}

func (w *fsWorld) strSlice(st *State, r ...Rope) VSlice {
	var out Rope
	for _, x := range r {
		out = append(out, Piece{kind: pConst, val: VStr{x}, n: K(1)})
	}
	return st.newSlice(types.Typ[types.String], out, "elements")
}

// dest is where a name leads to from the directory of me.
func (w *fsWorld) dest(st *State, me, name Rope) Rope {
	n := w.Clean(st, name)
	if w.isAbs(st, n) {
		return n
	}
	return w.Clean(st, w.Join(st, w.strSlice(st, w.Dir(st, me), n)))
}

func (w *fsWorld) Dir(st *State, p Rope) Rope {
	return w.cleaned(st, "dir:"+st.ropeKey(p), "directory")
}

// lib is a function of the arguments (pure), or an effect that is recorded.
func (w *fsWorld) lib(name string, pure bool) modelFn {
	return func(c *callCtx) Value {
		st := c.st
		key := name
		for _, a := range c.args {
			key += "|" + st.deepKey(a)
		}
		res := c.sig.Results()
		fails := false
		for i := 0; i < res.Len(); i++ {
			if isErrType(res.At(i).Type()) && !st.eng.inInit {
				if pure {
					s, _ := defSym("fnfail:"+key, "fails", &symDef{op: "fn", tag: "fail " + key})
					st.assume(symLin(s))
					st.assume(K(1).Sub(symLin(s)))
					fails = st.condEq(symLin(s), K(1))
				} else {
					fails = st.choose(2) == 1
				}
			}
		}
		var out VTuple
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			k := fmt.Sprintf("%s#%d", key, i)
			switch u := t.Underlying().(type) {
			case *types.Basic:
				switch {
				case u.Info()&types.IsString != 0:
					switch {
					case fails:
						out = append(out, VStr{})
					case !pure:
						out = append(out, VStr{st.freshRope(name+" result", byteT())})
					default:
						out = append(out, st.fnStr(k, name))
					}
				case u.Info()&types.IsBoolean != 0:
					s, _ := defSym("fnbool:"+k, name, &symDef{op: "fn", tag: "bool " + k})
					st.assume(symLin(s))
					st.assume(K(1).Sub(symLin(s)))
					out = append(out, VBool(st.condEq(symLin(s), K(1)) && !fails))
				default:
					out = append(out, st.fresh(t, name))
				}
			case *types.Interface:
				switch {
				case isErrType(t) && !fails, !isErrType(t) && fails:
					out = append(out, VIface{})
				case isErrType(t) && pure:
					s, _ := defSym("fnerr:"+k, name+" error", &symDef{op: "newerr", tag: k})
					l := symLin(s)
					out = append(out, VIface{Opq: &l, Tag: "error"})
				case isErrType(t):
					out = append(out, st.newErr(name))
				default:
					l := symLin(newSym(name))
					out = append(out, VIface{Opq: &l, Tag: name})
				}
			case *types.Pointer:
				if fails {
					out = append(out, VPtr{})
				} else {
					out = append(out, VPtr{Obj: st.newObj(u.Elem(), VJunk{}, name)})
				}
			case *types.Slice:
				if fails || !pure || !isString(u.Elem()) {
					giveUp("%s: result of %s", c.pos, name)
				}
				q := w.strs[k]
				if q == nil {
					q = newSeq(name, u.Elem())
					q.fixed = true
					w.strs[k] = q
				}
				n, _ := defSym("fnstrslen:"+k, "length", &symDef{op: "fn", tag: "len " + k})
				st.assume(symLin(n))
				st.assume(K(1 << 40).Sub(symLin(n)))
				out = append(out, st.newSlice(u.Elem(), seqRope(q, K(0), symLin(n)), name))
			default:
				giveUp("%s: result of %s", c.pos, name)
			}
		}
		if !pure {
			args := VTuple(append([]Value{}, c.args...))
			st.rsaNote(name, args, out)
		}
		if len(out) == 1 {
			return out[0]
		}
		return out
	}
}

func isErrType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// openFile: Open and Create are special cases of OpenFile.
func (w *fsWorld) openFile(flag, perm int64, all bool) modelFn {
	f := w.lib("os.OpenFile", false)
	return func(c *callCtx) Value {
		d := *c
		if !all {
			d.args = []Value{c.args[0], VInt{K(flag)}, VInt{K(perm)}}
		}
		return f(&d)
	}
}

func modelFS(e *Engine, sp *ssa.Package) *fsWorld {
	w := &fsWorld{clean: map[int]string{}, strs: map[string]*Seq{}}
	m := e.models
	for _, p := range sp.Pkg.Imports() {
		switch p.Path() {
		case "os", "path/filepath", "path":
			for _, n := range p.Scope().Names() {
				if f, ok := p.Scope().Lookup(n).(*types.Func); ok {
					if p.Path() == "os" {
						m["os."+f.Name()] = w.lib("os."+f.Name(), false)
					} else { // the same thing on this system
						m[p.Path()+"."+f.Name()] = w.lib("path."+f.Name(), true)
					}
				}
			}
		}
	}
	for _, p := range []string{"path/filepath", "path"} {
		m[p+".Clean"] = func(c *callCtx) Value { return VStr{w.Clean(c.st, c.args[0].(VStr).R)} }
		m[p+".Join"] = func(c *callCtx) Value { return VStr{w.Join(c.st, c.args[0])} }
		m[p+".Dir"] = func(c *callCtx) Value { return VStr{w.Dir(c.st, c.args[0].(VStr).R)} }
		m[p+".IsAbs"] = func(c *callCtx) Value { return VBool(w.isAbs(c.st, c.args[0].(VStr).R)) }
	}
	same := func(c *callCtx) Value { return c.args[0] }
	m["path/filepath.ToSlash"], m["path/filepath.FromSlash"] = same, same
	m["path/filepath.VolumeName"] = func(c *callCtx) Value { return VStr{} }
	m["os.Open"] = w.openFile(0, 0, false)
	m["os.Create"] = w.openFile(0x242, 0666, false) // O_RDWR|O_CREATE|O_TRUNC
	m["os.OpenFile"] = w.openFile(0, 0, true)
	for _, n := range []string{"IsNotExist", "IsExist", "IsPermission", "IsTimeout", "IsPathSeparator"} {
		m["os."+n] = w.lib("os."+n, true)
	}
	m["(io/fs.FileMode).IsDir"] = func(c *callCtx) Value { return VBool(c.st.cond(c.args[0].(VInt).L.AddK(-1 << 31))) }
	for _, n := range []string{"Walk", "WalkDir", "Glob"} {
		delete(m, "path/filepath."+n)
	}
	getenv := func(c *callCtx) Value { return c.st.fnStr("env:"+c.st.deepKey(c.args[0]), "environment") }
	m["os.Getenv"] = getenv
	m["os.TempDir"] = func(c *callCtx) Value { return c.st.fnStr("tempdir", "temp dir") }
	m["strings.Split"] = func(c *callCtx) Value {
		r := append(Rope{{kind: pConst, val: VStr{c.st.freshRope("first part", byteT())}, n: K(1)}}, c.st.freshRope("other parts", types.Typ[types.String])...)
		return c.st.newSlice(types.Typ[types.String], r, "parts")
	}
	return w
}

// modelFiles: a file opened by path has one content and one description.
func modelFiles(e *Engine, w *fsWorld, dir bool) {
	m := e.models
	w.files = map[ObjID]string{}
	for _, n := range []string{"os.OpenFile", "os.Open"} {
		f := m[n]
		m[n] = func(c *callCtx) Value {
			r := f(c).(VTuple)
			if p := r[0].(VPtr); p.Obj != 0 {
				w.files[p.Obj] = c.st.ropeKey(c.args[0].(VStr).R)
			}
			return r
		}
	}
	file := func(c *callCtx, v Value) (ObjID, string) {
		if i, ok := v.(VIface); ok {
			v = i.V
		}
		p, ok := v.(VPtr)
		if !ok || p.Obj == 0 {
			giveUp("%s: file %s", c.pos, vstr(v))
		}
		k, ok := w.files[p.Obj]
		if !ok {
			giveUp("%s: unknown file", c.pos)
		}
		return p.Obj, k
	}
	fail := func(st *State, what string) (VIface, bool) {
		if st.choose(2) == 1 {
			err := st.newErr(what)
			st.rsaNote("fail "+what, err)
			return err, true
		}
		return VIface{}, false
	}
	info := func(k string) VIface {
		s, _ := defSym("fileinfo:"+k, "info", &symDef{op: "fn", tag: "info " + k})
		l := symLin(s)
		return VIface{Opq: &l, Tag: "fileinfo " + k}
	}
	m["(*os.File).Stat"] = func(c *callCtx) Value {
		_, k := file(c, c.args[0])
		if err, bad := fail(c.st, "stat"); bad {
			return VTuple{VIface{}, err}
		}
		return VTuple{info(k), VIface{}}
	}
	for _, n := range []string{"os.Stat", "os.Lstat"} {
		m[n] = func(c *callCtx) Value {
			if err, bad := fail(c.st, "stat"); bad {
				return VTuple{VIface{}, err}
			}
			return VTuple{info(c.st.ropeKey(c.args[0].(VStr).R)), VIface{}}
		}
	}
	m["(*os.File).Close"] = func(c *callCtx) Value {
		id, _ := file(c, c.args[0])
		c.st.rsaNote("close", VPtr{Obj: id})
		if c.st.choose(2) == 1 {
			return c.st.newErr("close")
		}
		return VIface{}
	}
	for _, n := range []string{"Readdir", "ReadDir", "Readdirnames"} {
		m["(*os.File)."+n] = func(c *callCtx) Value {
			if w.nodes != nil {
				_, k := file(c, c.args[0])
				d := w.nodes[k]
				if d == nil || !d.dir {
					giveUp("%s: listing of something else than a directory", c.pos)
				}
				if !c.st.c.entails(c.args[1].(VInt).L.Neg()) {
					giveUp("%s: listing of a part of a directory", c.pos)
				}
				if err, bad := fail(c.st, "list"); bad {
					return VTuple{VSlice{}, err}
				}
				var r Rope
				for _, x := range d.sub {
					var v Value = info(x.key)
					if n == "Readdirnames" {
						v = x.name
					}
					r = append(r, Piece{kind: pConst, val: v, n: K(1)})
				}
				return VTuple{c.st.newSlice(c.sig.Results().At(0).Type().Underlying().(*types.Slice).Elem(), r, "entries"), VIface{}}
			}
			err := c.st.newErr("list")
			c.st.rsaNote("fail list", err)
			return VTuple{VSlice{}, err}
		}
	}
	all := func(c *callCtx, k string) Value {
		if err, bad := fail(c.st, "read"); bad {
			return VTuple{c.st.newSlice(byteT(), c.st.freshRope("part", byteT()), "part"), err}
		}
		return VTuple{c.st.newSlice(byteT(), c.st.fnStr("content:"+k, "content").R, "content"), VIface{}}
	}
	m["os.ReadFile"] = func(c *callCtx) Value { return all(c, c.st.ropeKey(c.args[0].(VStr).R)) }
	m["io.ReadAll"] = func(c *callCtx) Value { _, k := file(c, c.args[0]); return all(c, k) }
	for _, n := range []string{"io.Copy", "io.CopyBuffer"} {
		m[n] = func(c *callCtx) Value {
			st := c.st
			_, k := file(c, c.args[1])
			r := st.fnStr("content:"+k, "content").R
			err, bad := fail(st, "read")
			if bad {
				r = st.freshRope("part", byteT())
			}
			b := st.newSlice(byteT(), r, "read")
			outs := c.e.callValue(st, VFunc{Builtin: "invoke:Write"}, []Value{c.args[0], b}, c.inst, c.sig)
			for i := range outs {
				if outs[i].pan == nil {
					outs[i].ret = []Value{VInt{ropeLen(r)}, err}
				}
			}
			return reenter{outs}
		}
	}
	hashes := e.invoke
	e.invoke = func(c *callCtx, recv VIface, method string) (Value, bool) {
		if len(recv.Tag) > 9 && recv.Tag[:9] == "fileinfo " {
			dir := dir
			if d := w.nodes[recv.Tag[9:]]; d != nil {
				dir = d.dir
				switch method {
				case "Name":
					return d.name, true
				case "Info":
					return VTuple{recv, VIface{}}, true
				}
			} else if w.nodes != nil {
				giveUp("%s: description of an unknown file", c.pos)
			}
			switch method {
			case "IsDir":
				return VBool(dir), true
			case "Size":
				return VInt{fileSize(c.st, recv.Tag[9:])}, true
			case "Mode":
				return VInt{fileMode(c.st, recv.Tag[9:], dir)}, true
			case "Name":
				return c.st.fnStr("path.Base|"+recv.Tag[9:], "name"), true
			}
			return nil, false
		}
		return hashes(c, recv, method)
	}
}

// fileMode: the highest bit marks a directory.
func fileMode(st *State, k string, dir bool) Lin {
	s, _ := defSym("filemode:"+k, "mode", &symDef{op: "fn", tag: "mode " + k})
	l := symLin(s)
	st.assume(l)
	if dir {
		st.assume(l.AddK(-1 << 31))
		st.assume(K(1<<32 - 1).Sub(l))
	} else {
		st.assume(K(1<<31 - 1).Sub(l))
	}
	return l
}

func fileSize(st *State, k string) Lin {
	s, _ := defSym("filesize:"+k, "size", &symDef{op: "fn", tag: "size " + k})
	st.assume(symLin(s))
	st.assume(K(1 << 46).Sub(symLin(s)))
	return symLin(s)
}

func (s *State) sameArg(a, b Value) bool {
	x, ok1 := a.(VStr)
	y, ok2 := b.(VStr)
	if ok1 && ok2 {
		return s.ropeEq(x.R, y.R)
	}
	return s.deepKey(a) == s.deepKey(b)
}

func checkFS(c *Ctx) {
	sp := c.pkg("fs")
	xh := c.pkg("hash")
	var w *fsWorld
	start := func() (*Engine, *State) {
		c.setup = func(e *Engine) {
			w = modelFS(e, sp)
			modelHashes(e)
		}
		defer func() { c.setup = nil }()
		e := c.engine(sp)
		return e, e.newState()
	}
	me := func(st *State) Rope { return w.Clean(st, st.fnStr("path", "path").R) }
	str := func(st *State, n string) VStr { return VStr{st.fnStr("arg:"+n, n).R} }
	arg := func(st *State, t types.Type, i int) Value {
		if isString(t) {
			return str(st, fmt.Sprint("argument ", i))
		}
		return st.fresh(t, fmt.Sprint("argument ", i))
	}
	noNotes := func(s *State) string {
		if n, _ := s.rsaNotes(); len(n) != 0 {
			return "touches the file system: " + n[0]
		}
		return ""
	}
	want := func(s *State, ret []Value, vals ...Value) string {
		if len(ret) != len(vals) {
			return "another number of results"
		}
		for i := range ret {
			if !s.sameArg(ret[i], vals[i]) {
				return fmt.Sprintf("result %d is %s instead of %s", i+1, vstr(ret[i]), vstr(vals[i]))
			}
		}
		return ""
	}
	// cases: the receiver and the arguments, on every path of cleaning the receiver
	do := func(name, fname string, recv bool, post func(e *Engine, s *State, a, ret []Value) string) {
		c.oblige(name, func() {
			fn := c.fn(sp, fname)
			e, st0 := start()
			for _, f := range e.fork(st0, func(st *State) Value {
				var a VTuple
				for i, p := range fn.Params {
					switch {
					case i == 0 && recv:
						a = append(a, VStr{me(st)})
					default:
						if sl, ok := p.Type().Underlying().(*types.Slice); ok {
							a = append(a, st.newSlice(sl.Elem(), st.freshRope("elements", sl.Elem()), "elements"))
						} else {
							a = append(a, arg(st, p.Type(), i))
						}
					}
				}
				return a
			}) {
				args := f.v.(VTuple)
				c.run(e, f.st, fn, args, func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					return post(e, s, args, ret)
				})
			}
		})
	}
	effect := func(s *State, ret []Value, name string, args ...Value) (Value, string) {
		n, ev := s.rsaNotes()
		if len(n) != 1 || n[0] != name {
			return nil, fmt.Sprintf("does not do %s exactly once: %v", name, n)
		}
		got := ev[0][0].(VTuple)
		if len(got) != len(args) {
			return nil, "another number of arguments"
		}
		for i := range got {
			if !s.sameArg(got[i], args[i]) {
				return nil, fmt.Sprintf("argument %d of %s is %s instead of %s", i+1, name, vstr(got[i]), vstr(args[i]))
			}
		}
		return ev[0][1], ""
	}
	const T = "FilePathObject."
	// one operation of the system on the path, and its outcome
	for _, x := range []struct {
		m, lib string
		order  []int
	}{
		{"Chmod", "os.Chmod", nil}, {"Chown", "os.Chown", nil}, {"Chtimes", "os.Chtimes", nil}, {"Lchown", "os.Lchown", nil}, {"Mkdir", "os.Mkdir", nil},
		{"MkdirAll", "os.MkdirAll", nil}, {"Readlink", "os.Readlink", nil}, {"Remove", "os.Remove", nil}, {"RemoveAll", "os.RemoveAll", nil},
		{"Truncate", "os.Truncate", nil}, {"NewFile", "os.NewFile", []int{1, 0}}, {"OpenFile", "os.OpenFile", nil}, {"Lstat", "os.Lstat", nil}, {"Stat", "os.Stat", nil},
		{"Open", "os.OpenFile", []int{0, -1, -1}}, {"Create", "os.OpenFile", []int{0, -2, -3}},
	} {
		x := x
		do(x.m+": one operation on the path", T+x.m, true, func(e *Engine, s *State, a, ret []Value) string {
			args := a
			if x.order != nil {
				args = nil
				for _, i := range x.order {
					switch i {
					case -1:
						args = append(args, VInt{K(0)})
					case -2:
						args = append(args, VInt{K(0x242)})
					case -3:
						args = append(args, VInt{K(0666)})
					default:
						args = append(args, a[i])
					}
				}
			}
			r, msg := effect(s, ret, x.lib, args...)
			if msg != "" {
				return msg
			}
			return want(s, ret, r.(VTuple)...)
		})
	}
	// a new name is taken as it is when absolute, else from the directory of the path
	for _, m := range []string{"Link", "Rename", "Symlink", "Move"} {
		lib := "os." + m
		if m == "Move" {
			lib = "os.Rename"
		}
		do(m+": to the named place", T+m, true, func(e *Engine, s *State, a, ret []Value) string {
			n := VStr{w.dest(s, a[0].(VStr).R, a[1].(VStr).R)}
			r, msg := effect(s, ret, lib, a[0], n)
			if msg != "" {
				return msg
			}
			return want(s, ret, n, r.(VTuple)[0])
		})
	}
	// functions of the text of the path
	call := func(e *Engine, s *State, lib string, args ...Value) []Value {
		f := filepathFunc(sp, lib)
		v := e.models["path/filepath."+lib](&callCtx{e: e, st: s, args: args, key: "path/filepath." + lib, sig: f.Type().(*types.Signature), pos: "the specification"})
		if t, ok := v.(VTuple); ok {
			return t
		}
		return []Value{v}
	}
	for _, x := range []struct {
		m     string
		order []int
	}{
		{"SplitList", nil}, {"Split", nil}, {"Ext", nil}, {"EvalSymlinks", nil}, {"Abs", nil}, {"Base", nil}, {"Dir", nil}, {"VolumeName", nil}, {"Match", []int{1, 0}},
	} {
		x := x
		do(x.m+": of the path", T+x.m, true, func(e *Engine, s *State, a, ret []Value) string {
			if x.order != nil {
				a = []Value{a[x.order[0]], a[x.order[1]]}
			}
			return and(noNotes(s), want(s, ret, call(e, s, x.m, a...)...))
		})
	}
	for _, m := range []string{"String", "S", "StringSys"} {
		do(m+": the path itself", T+m, true, func(e *Engine, s *State, a, ret []Value) string { return and(noNotes(s), want(s, ret, a[0])) })
	}
	do("HasPrefix: with the prefix cleaned", T+"HasPrefix", true, func(e *Engine, s *State, a, ret []Value) string {
		p := w.Clean(s, a[1].(VStr).R)
		return and(noNotes(s), want(s, ret, call(e, s, "HasPrefix", a[0], VStr{p})...))
	})
	clean := func(s *State, v Value) VStr { return VStr{w.Clean(s, v.(VStr).R)} }
	rel := func(e *Engine, s *State, base, p Value) VStr { return clean(s, call(e, s, "Rel", base, p)[0]) }
	for _, n := range []string{"FilePath", "FormatPath"} {
		do(n+": cleaned", n, false, func(e *Engine, s *State, a, ret []Value) string { return and(noNotes(s), want(s, ret, clean(s, a[0]))) })
	}
	c.oblige("Set: cleaned", func() {
		fn := c.fn(sp, T+"Set")
		e, st := start()
		t := fn.Params[0].Type().(*types.Pointer).Elem()
		id := st.newObj(t, VStr{st.freshRope("old", byteT())}, "path")
		in := str(st, "new path")
		c.run(e, st, fn, []Value{VPtr{Obj: id}, in}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			return and(noNotes(s), want(s, []Value{s.load(VPtr{Obj: id})}, clean(s, in)))
		})
	})
	do("Relate: from the root", T+"Relate", true, func(e *Engine, s *State, a, ret []Value) string {
		return and(noNotes(s), want(s, ret, rel(e, s, clean(s, a[1]), a[0])))
	})
	do("RelatePath: from the root", "RelatePath", false, func(e *Engine, s *State, a, ret []Value) string {
		return and(noNotes(s), want(s, ret, rel(e, s, clean(s, a[1]), clean(s, a[0]))))
	})
	goPath := func(e *Engine, s *State) Value {
		o := e.Call(s, c.fn(sp, "GoPath"), nil, nil, nil)
		if len(o) != 1 || o[0].pan != nil {
			giveUp("GoPath does not end in exactly one way")
		}
		return o[0].ret[0]
	}
	do("RelateGoPath: from the Go path", T+"RelateGoPath", true, func(e *Engine, s *State, a, ret []Value) string {
		return and(noNotes(s), want(s, ret, rel(e, s, goPath(e, s), a[0])))
	})
	do("RelateGoPath of a text", "RelateGoPath", false, func(e *Engine, s *State, a, ret []Value) string {
		return and(noNotes(s), want(s, ret, rel(e, s, goPath(e, s), clean(s, a[0]))))
	})
	do("Joins: all elements", "Joins", false, func(e *Engine, s *State, a, ret []Value) string {
		return and(noNotes(s), want(s, ret, VStr{w.Clean(s, w.Join(s, a[0]))}))
	})
	do("Joins: after the path", T+"Joins", true, func(e *Engine, s *State, a, ret []Value) string {
		all := append(Rope{{kind: pConst, val: a[0], n: K(1)}}, s.content(a[1].(VSlice))...)
		v := s.newSlice(types.Typ[types.String], all, "elements")
		return and(noNotes(s), want(s, ret, VStr{w.Clean(s, w.Join(s, v))}))
	})
	do("Join: after the path", T+"Join", true, func(e *Engine, s *State, a, ret []Value) string {
		return and(noNotes(s), want(s, ret, VStr{w.Clean(s, w.Join(s, w.strSlice(s, a[0].(VStr).R, a[1].(VStr).R)))}))
	})
	do("TempDir: cleaned", "TempDir", false, func(e *Engine, s *State, a, ret []Value) string {
		return and(noNotes(s), want(s, ret, clean(s, s.fnStr("tempdir", "temp dir"))))
	})
	do("Split: the two parts", "Split", false, func(e *Engine, s *State, a, ret []Value) string {
		return and(noNotes(s), want(s, ret, call(e, s, "Split", a[0])...))
	})
	do("FileName: the last part", "FileName", false, func(e *Engine, s *State, a, ret []Value) string {
		return and(noNotes(s), want(s, ret, call(e, s, "Split", a[0])[1]))
	})
	c.oblige("FileHash.Less: by size, then by hash", func() {
		fn := c.fn(sp, "FileHash.Less")
		e, st := start()
		t := fn.Params[0].Type()
		if _, _, ok := hashFields(t); !ok {
			giveUp("%s has no Size and Hash", t)
		}
		for _, f := range e.fork(st, func(st *State) Value { return VTuple{freshKey(st, t, "a"), freshKey(st, t, "b")} }) {
			x := f.v.(VTuple)
			c.run(e, f.st, fn, x, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				return wantBool(s, ret[0], s.keyLess(t, x[0], x[1]), "the result")
			})
		}
	})
	// ---- files ----
	opened := fsOpened
	type hashCase struct {
		fn, method string
		algo       string
		dir        bool
	}
	cases := []hashCase{{"Fingerprint", "", "", false}, {"Fingerprint", "", "", true}, {"Hash", "MD5", "md5", true}}
	for _, m := range [][2]string{{"MD5", "md5"}, {"SHA1", "sha1"}, {"SHA256", "sha256"}, {"SHA512", "sha512"}} {
		cases = append(cases, hashCase{"Hash", m[0], m[1], false})
	}
	for _, x := range cases {
		x := x
		name := x.fn + " " + x.method + " of a file"
		if x.dir {
			name = x.fn + " of a directory that cannot be listed"
		}
		c.oblige(name, func() {
			fn := c.fn(sp, T+x.fn)
			node := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
			vi, vt := -1, (*types.Struct)(nil)
			for i := 0; i < node.NumFields(); i++ {
				if n, ok := node.Field(i).Type().(*types.Named); ok && n.Obj().Name() == "FileHash" {
					vi, vt = i, n.Underlying().(*types.Struct)
				}
			}
			if vi < 0 {
				giveUp("a node has no FileHash")
			}
			c.setup = func(e *Engine) {
				w = modelFS(e, sp)
				modelHashes(e)
				modelFiles(e, w, x.dir)
			}
			e := c.engine(sp)
			c.setup = nil
			for _, f := range e.fork(e.newState(), func(st *State) Value { return VStr{me(st)} }) {
				p := f.v.(VStr)
				args := []Value{p}
				salt := VStr{}
				if x.fn == "Hash" {
					mv, _ := constOf(xh, x.method)
					salt = str(f.st, "salt")
					args = append(args, mv, salt)
				}
				c.run(e, f.st, fn, args, func(s *State, ret []Value, pan *progPanic) string {
					if pan != nil {
						return panMsg(pan)
					}
					_, failed, msg := opened(s)
					if msg != "" {
						return msg
					}
					if failed {
						if !isErr(ret[1]) {
							return "a failure is not reported"
						}
						return ""
					}
					if isErr(ret[1]) {
						return "reports an error without a failure"
					}
					q, ok := ret[0].(VPtr)
					if !ok || q.Obj == 0 {
						return "returns no node"
					}
					val := s.load(q).(VStruct).F[vi].(VStruct).F
					k := s.ropeKey(p.R)
					content := s.fnStr("content:"+k, "content").R
					size := fileSize(s, k)
					var h Rope
					if x.fn == "Hash" {
						h = s.hexText(s.digest(algoIndex(x.algo, 0, 0), append(append(Rope{}, salt.R...), content...))).R
					} else {
						d := s.bigEndian(size, 6)
						d = append(d, s.sub(s.digest(algoIndex("md5", 0, 0), content), K(4), K(6))...)
						d = append(d, s.sub(s.digest(algoIndex("sha1", 0, 0), content), K(7), K(6))...)
						d = append(d, s.sub(s.digest(algoIndex(crc64ISO(), 8, 1), content), K(1), K(6))...)
						for i := int64(0); i < 4; i++ {
							if i > 0 {
								h = append(h, strRope("-")...)
							}
							h = append(h, s.hexText(s.sub(d, K(6*i), K(6))).R...)
						}
					}
					if b, ok := val[fieldOf(vt, "IsDir")].(VBool); !ok || bool(b) {
						return "a file is marked as a directory"
					}
					return and(want(s, []Value{val[fieldOf(vt, "Path")], VStr{s.normRope(val[fieldOf(vt, "Hash")].(VStr).R)}}, p, VStr{h}), wantInt(s, val[fieldOf(vt, "Size")], size, "the size"))
				})
			}
		})
	}
	// walking: one arbitrary visit, from an arbitrary state of what the visitor keeps
	visit := func(e *Engine, keep bool) {
		e.models["path/filepath.Walk"] = func(c *callCtx) Value {
			st := c.st
			cb, ok := c.args[1].(VFunc)
			if !ok {
				giveUp("%s: visitor %s", c.pos, vstr(c.args[1]))
			}
			if !keep && st.choose(2) == 1 { // nothing to visit
				st.rsaNote("walk", c.args[0], VIface{})
				return VIface{}
			}
			var held VTuple
			seen := map[ObjID]bool{}
			var forget func(v Value)
			hav := func(q VPtr) {
				h := symLin(newSym("so far"))
				st.assume(h)
				st.assume(K(1 << 50).Sub(h))
				st.store(q, VInt{h})
				held = append(held, VInt{h})
			}
			forget = func(v Value) {
				switch x := v.(type) {
				case VFunc:
					for _, b := range x.Bind {
						forget(b)
					}
				case VPtr:
					o := st.heap[x.Obj]
					if o == nil || seen[x.Obj] || o.glob {
						return
					}
					seen[x.Obj] = true
					if isInt(o.typ) {
						hav(VPtr{Obj: x.Obj})
						return
					}
					if u, ok := o.typ.Underlying().(*types.Struct); ok {
						if n, ok := o.typ.(*types.Named); !ok || n.Obj().Pkg() == sp.Pkg {
							for i := 0; i < u.NumFields(); i++ {
								if isInt(u.Field(i).Type()) {
									hav(VPtr{Obj: x.Obj, Path: []pathEl{{field: i}}})
								}
							}
						}
						return
					}
					forget(o.v)
				}
			}
			if !keep {
				forget(cb)
			}
			var info, err Value = VIface{}, VIface{}
			if st.choose(2) == 1 {
				err = st.newErr("visit")
			} else {
				l := symLin(newSym("info"))
				info = VIface{Opq: &l, Tag: "visited"}
			}
			p := VStr{st.freshRope("visited path", byteT())}
			st.rsaNote("visit", p, info, err, held)
			outs := c.e.callValue(st, cb, []Value{p, info, err}, c.inst, c.sig.Params().At(1).Type().Underlying().(*types.Signature))
			for i := range outs {
				if outs[i].pan == nil {
					outs[i].st.rsaNote("walk", c.args[0], outs[i].ret[0])
				}
			}
			return reenter{outs}
		}
		next := e.invoke
		e.invoke = func(c *callCtx, recv VIface, method string) (Value, bool) {
			switch {
			case recv.Tag == "visited" && method == "IsDir":
				return VBool(c.st.fact("dir:" + recv.Opq.key())), true
			case recv.Tag == "visited" && method == "Size":
				return VInt{fileSize(c.st, recv.Opq.key())}, true
			case recv.Tag == "visited" && method == "Mode":
				return VInt{fileMode(c.st, recv.Opq.key(), c.st.fact("dir:"+recv.Opq.key()))}, true
			case recv.Tag == "visited" && method == "Name":
				return c.st.fnStr("name:"+recv.Opq.key(), "name"), true
			case recv.Tag == "error" && method == "Error":
				return c.st.fnStr("text:"+recv.Opq.key(), "error text"), true
			}
			return next(c, recv, method)
		}
	}
	c.oblige("Walk: hands every visit on", func() {
		fn := c.fn(sp, T+"Walk")
		e, st0 := start()
		visit(e, true)
		e.callOpq = func(c *callCtx, f VFunc) (Value, bool) {
			var r Value = VIface{}
			if c.st.choose(2) == 1 {
				r = c.st.newErr("visitor")
			}
			c.st.rsaNote("visitor", append(append([]Value{}, c.args...), r)...)
			return r, true
		}
		l := symLin(newSym("visitor"))
		for _, f := range e.fork(st0, func(st *State) Value { return VStr{me(st)} }) {
			c.run(e, f.st, fn, []Value{f.v.(VStr), VFunc{Opq: &l}}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				n, ev := s.rsaNotes()
				if len(n) != 3 || n[0] != "visit" || n[1] != "visitor" || n[2] != "walk" {
					return fmt.Sprintf("a visit is not handed on exactly once: %v", n)
				}
				for i := 0; i < 3; i++ {
					if !s.sameArg(ev[0][i], ev[1][i]) {
						return fmt.Sprintf("argument %d of a visit is changed", i+1)
					}
				}
				if !s.sameArg(ev[1][3], ev[2][1]) {
					return "the answer of the visitor is changed"
				}
				return and(want(s, []Value{ev[2][0]}, f.v.(VStr)), want(s, ret, ev[2][1]))
			})
		}
	})
	c.oblige("Statistic: counts every visit once", func() {
		fn := c.fn(sp, T+"Statistic")
		e, st0 := start()
		visit(e, false)
		for _, f := range e.fork(st0, func(st *State) Value { return VStr{me(st)} }) {
			c.run(e, f.st, fn, []Value{f.v.(VStr)}, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				n, ev := s.rsaNotes()
				if len(n) == 0 || n[len(n)-1] != "walk" {
					return fmt.Sprintf("does not walk exactly once: %v", n)
				}
				w := ev[len(n)-1]
				if m := and(want(s, []Value{w[0]}, f.v.(VStr)), want(s, []Value{w[1]}, VIface{})); m != "" {
					return "the walk is not complete: " + m
				}
				if len(n) == 1 {
					return and(wantInt(s, ret[0], K(0), "the directories"), wantInt(s, ret[1], K(0), "the files"), wantInt(s, ret[2], K(0), "the size"))
				}
				if len(n) != 2 {
					return fmt.Sprintf("unexpected steps: %v", n)
				}
				add := []Lin{K(0), K(0), K(0)}
				if info := ev[0][1].(VIface); info.Opq != nil {
					if s.fact("dir:" + info.Opq.key()) {
						add[0] = K(1)
					} else {
						add[1], add[2] = K(1), fileSize(s, info.Opq.key())
					}
				}
				used := map[int]bool{}
				for i, d := range add {
					ok := false
					for j, h := range ev[0][3].(VTuple) {
						if !used[j] && s.c.entailsEq(ret[i].(VInt).L.Sub(d).Sub(h.(VInt).L)) {
							used[j], ok = true, true
							break
						}
					}
					if !ok {
						return fmt.Sprintf("result %d after the visit is %s, not %s more than before", i+1, vstr(ret[i]), d)
					}
				}
				return ""
			})
		}
	})
	c.oblige("CollectSubs of a directory that cannot be opened or listed", func() {
		fn := c.fn(sp, "CollectSubs")
		c.setup = func(e *Engine) {
			w = modelFS(e, sp)
			modelHashes(e)
			modelFiles(e, w, true)
		}
		e := c.engine(sp)
		c.setup = nil
		st := e.newState()
		dir := str(st, "dir")
		c.run(e, st, fn, []Value{dir, st.fresh(fn.Params[1].Type(), "options")}, func(s *State, ret []Value, pan *progPanic) string {
			if pan != nil {
				return panMsg(pan)
			}
			_, failed, msg := opened(s)
			if msg != "" {
				return msg
			}
			if !failed || !isErr(ret[1]) {
				return "a failure is not reported"
			}
			return ""
		})
	})
	c.oblige("Chdir: changes the directory and the working path", func() {
		fn := c.fn(sp, "Chdir")
		e, st := start()
		in := str(st, "dir")
		c.run(e, st, fn, []Value{in}, func(s *State, ret []Value, pan *progPanic) string {
			n, ev := s.rsaNotes()
			if len(n) == 0 || n[0] != "os.Chdir" {
				return "does not change the directory first"
			}
			if !s.sameArg(ev[0][0].(VTuple)[0], clean(s, in)) {
				return "changes to another directory"
			}
			r := ev[0][1].(VTuple)[0]
			if isErr(r) {
				if pan != nil {
					return panMsg(pan)
				}
				if len(n) != 1 {
					return "does more after a failure"
				}
				return want(s, ret, r)
			}
			if len(n) != 2 || n[1] != "os.Getwd" {
				return "does not look up the new working path"
			}
			g := ev[1][1].(VTuple)
			if isErr(g[1]) {
				return "" // no working path: a panic or an error
			}
			if pan != nil {
				return panMsg(pan)
			}
			if m := want(s, ret, VIface{}); m != "" {
				return m
			}
			o := e.Call(s, c.fn(sp, "WorkPath"), nil, nil, nil)
			if len(o) != 1 || o[0].pan != nil {
				return "WorkPath does not return"
			}
			return want(o[0].st, o[0].ret, g[0])
		})
	})
}

func filepathFunc(sp *ssa.Package, name string) types.Object {
	for _, p := range sp.Pkg.Imports() {
		if p.Path() == "path/filepath" {
			if f := p.Scope().Lookup(name); f != nil {
				return f
			}
		}
	}
	giveUp("path/filepath.%s not found", name)
	return nil
}

func fieldOf(u *types.Struct, name string) int {
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	giveUp("no field %s", name)
	return -1
}

// fsOpened: what was opened is closed, nothing else is touched; failed: something failed.
func fsOpened(s *State) (ok, failed bool, msg string) {
	n, ev := s.rsaNotes()
	open := map[ObjID]bool{}
	for i, x := range n {
		switch {
		case x == "os.OpenFile":
			r := ev[i][1].(VTuple)
			if isErr(r[1]) {
				failed = true
			} else {
				open[r[0].(VPtr).Obj] = true
			}
		case x == "close":
			id := ev[i][0].(VPtr).Obj
			if !open[id] {
				return false, false, "a file is closed twice"
			}
			delete(open, id)
		case len(x) > 5 && x[:5] == "fail ":
			failed = true
		default:
			return false, false, "touches the file system: " + x
		}
	}
	if len(open) > 0 {
		return false, false, "an opened file is not closed"
	}
	return true, failed, ""
}
