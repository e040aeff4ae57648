package main

import (
	"fmt"
	"go/types"
)

func init() {
	props["C36"] = &propCheck{run: checkDirHash, minObl: 30}
}

// sliceIn finds the slice in a value that wraps one.
func sliceIn(v Value) (VSlice, bool) {
	switch x := v.(type) {
	case VSlice:
		return x, true
	case VStruct:
		var out VSlice
		n := 0
		for _, f := range x.F {
			if b, ok := sliceIn(f); ok {
				out = b
				n++
			}
		}
		return out, n == 1
	}
	return VSlice{}, false
}

// sortNodes: sorting puts a few nodes in the order of their values (that it does is decided by C26).
func sortNodes(e *Engine, value func(s *State, v Value) Value, vt types.Type) {
	sorted := func(c *callCtx) Value {
		v := c.args[0]
		if i, ok := v.(VIface); ok {
			v = i.V
		}
		if p, ok := v.(VPtr); ok && p.Obj != 0 {
			v = c.st.load(p)
		}
		b, ok := sliceIn(v)
		if !ok {
			giveUp("%s: the object to sort is %s", c.pos, vstr(c.args[0]))
		}
		st := c.st
		n := int64(0)
		for !st.c.entailsEq(b.Len.AddK(-n)) {
			if n++; n > 8 {
				giveUp("%s: sorting of an unknown number of nodes", c.pos)
			}
		}
		if n < 2 {
			return VTuple{}
		}
		r := st.content(b)
		var l []Value
		for i := int64(0); i < n; i++ {
			x := st.read(r, K(i))
			j := len(l)
			l = append(l, x)
			for ; j > 0 && st.keyLess(vt, value(st, x), value(st, l[j-1])); j-- {
				l[j] = l[j-1]
			}
			l[j] = x
		}
		var out Rope
		for _, x := range l {
			out = append(out, Piece{kind: pConst, val: x, n: K(1)})
		}
		st.spliceArr(b, b.Off, out)
		return VTuple{}
	}
	e.models["sort.Sort"], e.models["sort.Stable"] = sorted, sorted
}

// modelReaders: a reader over a text gives exactly the text.
func modelReaders(e *Engine) {
	m := e.models
	read := func(c *callCtx) Value {
		var r Rope
		if s, ok := c.args[0].(VStr); ok {
			r = s.R
		} else {
			r = c.st.bytesOf(c.args[0])
		}
		t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		return VPtr{Obj: c.st.newObj(t, VStruct{[]Value{VStr{r}}}, "text reader")}
	}
	for _, n := range []string{"strings.NewReader", "bytes.NewReader", "bytes.NewBufferString", "bytes.NewBuffer"} {
		m[n] = read
	}
	for _, n := range []string{"io.Copy", "io.CopyBuffer"} {
		file := m[n]
		m[n] = func(c *callCtx) Value {
			v := c.args[1]
			if i, ok := v.(VIface); ok {
				v = i.V
			}
			p, ok := v.(VPtr)
			if !ok || p.Obj == 0 || c.st.heap[p.Obj] == nil || c.st.heap[p.Obj].name != "text reader" {
				return file(c)
			}
			r := c.st.load(p).(VStruct).F[0].(VStr).R
			c.st.store(p, VStruct{[]Value{VStr{}}})
			b := c.st.newSlice(byteT(), r, "read")
			outs := c.e.callValue(c.st, VFunc{Builtin: "invoke:Write"}, []Value{c.args[0], b}, c.inst, c.sig)
			for i := range outs {
				if outs[i].pan == nil {
					outs[i].ret = []Value{VInt{ropeLen(r)}, VIface{}}
				}
			}
			return reenter{outs}
		}
	}
}

func checkDirHash(c *Ctx) {
	sp, xh := c.pkg("fs"), c.pkg("hash")
	const T = "FilePathObject."
	run := func(fname, method, algo, shape string, dots int) {
		fn := c.fn(sp, T+fname)
		node := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		vi, ci := -1, -1
		var vt types.Type
		for i := 0; i < node.NumFields(); i++ {
			n, ok := node.Field(i).Type().(*types.Named)
			if ok && n.Obj().Name() == "FileHash" {
				vi, vt = i, n
			} else if _, p := node.Field(i).Type().Underlying().(*types.Pointer); !p {
				ci = i
			}
		}
		if vi < 0 || ci < 0 {
			giveUp("a node has no FileHash or no children")
		}
		vs := vt.Underlying().(*types.Struct)
		value := func(s *State, v Value) Value {
			p, ok := v.(VPtr)
			if !ok || p.Obj == 0 {
				giveUp("a node is %s", vstr(v))
			}
			return s.load(p).(VStruct).F[vi]
		}
		var w *fsWorld
		c.setup = func(e *Engine) {
			w = modelFS(e, sp)
			modelHashes(e)
			modelFiles(e, w, true)
			modelReaders(e)
			sortNodes(e, value, vt)
		}
		e := c.engine(sp)
		c.setup = nil
		for _, f := range e.fork(e.newState(), func(st *State) Value { return VStr{w.Clean(st, st.fnStr("path", "path").R)} }) {
			p := f.v.(VStr)
			if _, ok := constText(f.st.normRope(p.R)); ok {
				continue // the empty path is the path "."
			}
			args := []Value{p}
			salt := VStr{}
			if fname == "Hash" {
				mv, _ := constOf(xh, method)
				salt = f.st.fnStr("arg:salt", "salt")
				args = append(args, mv, salt)
			}
			root := &dirNode{dir: true, sub: parseDir(shape)}
			forks := e.fork(f.st, func(st *State) Value {
				w.nodes = map[string]*dirNode{}
				w.place(st, root, p, "", dots)
				return VBool(true)
			})
			if len(forks) != 1 {
				giveUp("%d trees of the shape %s", len(forks), shape)
			}
			first := forks[0].st.clone()
			for _, d := range w.nodes {
				if !d.dir {
					fileSize(first, d.key)
				}
			}
			digest := func(s *State, content Rope, size Lin) VStr {
				if fname == "Hash" {
					return s.hexText(s.digest(algoIndex(algo, 0, 0), append(append(Rope{}, salt.R...), content...)))
				}
				var h Rope
				d := s.bigEndian(size, 6)
				d = append(d, s.sub(s.digest(algoIndex("md5", 0, 0), content), K(4), K(6))...)
				d = append(d, s.sub(s.digest(algoIndex("sha1", 0, 0), content), K(7), K(6))...)
				d = append(d, s.sub(s.digest(algoIndex(crc64ISO(), 8, 1), content), K(1), K(6))...)
				for i := int64(0); i < 4; i++ {
					if i > 0 {
						h = append(h, strRope("-")...)
					}
					h = append(h, s.hexText(s.sub(d, K(6*i), K(6))).R...)
				}
				return VStr{h}
			}
			var tree func(s *State, v Value, d *dirNode) (size Lin, hash Rope, msg string)
			tree = func(s *State, v Value, d *dirNode) (size Lin, hash Rope, msg string) {
				q, ok := v.(VPtr)
				if !ok || q.Obj == 0 {
					return size, nil, "an entry has no node"
				}
				n := s.load(q).(VStruct).F
				val := n[vi].(VStruct).F
				if b, ok := val[fieldOf(vs, "IsDir")].(VBool); !ok || bool(b) != d.dir {
					return size, nil, "the mark of a directory is wrong"
				}
				if g := val[fieldOf(vs, "Path")]; !s.sameArg(g, d.path) {
					return size, nil, fmt.Sprintf("the path is %s instead of %s", vstr(g), vstr(d.path))
				}
				kids, ok := sliceIn(n[ci])
				if !ok {
					giveUp("children %s", vstr(n[ci]))
				}
				if !s.c.entailsEq(kids.Len.AddK(-int64(len(d.sub)))) {
					return size, nil, fmt.Sprintf("%s children instead of %d", kids.Len, len(d.sub))
				}
				var content Rope
				if !d.dir {
					size, content = fileSize(s, d.key), s.fnStr("content:"+d.key, "content").R
				} else if len(d.sub) > 0 {
					r := s.content(kids)
					used := map[*dirNode]bool{}
					var last Value
					for i := range d.sub {
						k := s.read(r, K(int64(i)))
						kv := value(s, k)
						var x *dirNode
						for _, y := range d.sub {
							if !used[y] && s.sameArg(kv.(VStruct).F[fieldOf(vs, "Path")], y.path) {
								x = y
							}
						}
						if x == nil {
							return size, nil, "a child is not an entry of the directory, or there twice"
						}
						used[x] = true
						n, h, msg := tree(s, k, x)
						if msg != "" {
							return size, nil, msg
						}
						if last != nil && s.keyLess(vt, kv, last) {
							return size, nil, "the children are not in order"
						}
						last = kv
						size = size.Add(n)
						content = append(content, h...)
					}
				}
				if msg := wantInt(s, val[fieldOf(vs, "Size")], size, "the size"); msg != "" {
					return size, nil, msg
				}
				// the text of a node below is made before the sizes are compared
				ds := s
				if fname != "Hash" && d != root && len(d.sub) < 2 {
					ds = first.clone()
				}
				want := digest(ds, ds.normRope(content), size)
				h := val[fieldOf(vs, "Hash")].(VStr)
				if !s.sameArg(VStr{s.normRope(h.R)}, want) {
					return size, nil, fmt.Sprintf("the hash is %s instead of %s", vstr(h), vstr(want))
				}
				return size, h.R, ""
			}
			c.run(e, forks[0].st, fn, args, func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				_, failed, msg := fsOpened(s)
				if msg != "" {
					return msg
				}
				if failed {
					if !isErr(ret[1]) {
						return "a failure is not reported"
					}
					return ""
				}
				if isErr(ret[1]) {
					return "reports an error without a failure"
				}
				_, _, msg = tree(s, ret[0], root)
				return msg
			})
		}
	}
	shapes := []string{"", "f", "()", "ff", "f()", "()f", "(f)", "(f)f", "((f))", "()()"}
	type hashCase struct{ fn, method, algo string }
	cases := []hashCase{{"Fingerprint", "", ""}}
	for _, m := range [][2]string{{"MD5", "md5"}, {"SHA1", "sha1"}, {"SHA256", "sha256"}, {"SHA512", "sha512"}} {
		cases = append(cases, hashCase{"Hash", m[0], m[1]})
	}
	for _, x := range cases {
		x := x
		for _, shape := range shapes {
			shape := shape
			if x.fn == "Hash" && x.method != "MD5" && len(shape) > 2 {
				continue
			}
			c.oblige(fmt.Sprintf("%s %s of a directory %q", x.fn, x.method, shape), func() {
				for dots := 0; dots < 3; dots++ {
					run(x.fn, x.method, x.algo, shape, dots)
				}
			})
		}
	}
}
