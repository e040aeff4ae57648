package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	props["C35"] = &propCheck{run: checkDirs, minObl: 37}
}

// dirNode is an entry of a directory tree with arbitrary names.
type dirNode struct {
	dir  bool
	name VStr
	path VStr
	key  string
	sub  []*dirNode
}

// parseDir reads a shape: f is a file, (...) a directory.
func parseDir(s string) []*dirNode {
	var rec func() []*dirNode
	i := 0
	rec = func() (out []*dirNode) {
		for i < len(s) && s[i] != ')' {
			if s[i] == 'f' {
				out = append(out, &dirNode{})
				i++
				continue
			}
			i++
			out = append(out, &dirNode{dir: true, sub: rec()})
			i++
		}
		return
	}
	return rec()
}

// place gives the nodes their names and paths. A name has no slash and is neither . nor ..; how many dots it starts with is given.
func (w *fsWorld) place(st *State, d *dirNode, path VStr, n string, dots int) {
	d.path, d.key = path, st.ropeKey(path.R)
	if w.nodes[d.key] != nil {
		giveUp("two files at one path")
	}
	w.nodes[d.key] = d
	for i, x := range d.sub {
		id := fmt.Sprint("entry ", n, ".", i)
		x.name = VStr{w.cleaned(st, id, id)}
		st.assume(ropeLen(x.name.R).AddK(int64(-1 - dots)))
		for j := 0; j <= dots && j < 3; j++ {
			b := st.read(x.name.R, K(int64(j))).(VInt).L
			st.assumeNe(b.AddK(-'/'))
			switch {
			case j < dots:
				st.assumeEq(b.AddK(-'.'))
			case dots < 2:
				st.assumeNe(b.AddK(-'.'))
			}
		}
		w.place(st, x, VStr{w.Clean(st, w.Join(st, w.strSlice(st, path.R, x.name.R)))}, fmt.Sprint(n, ".", i), dots)
	}
}

const (
	optDir, optFile, optFull, optDeep, optLeaf = 1, 2, 4, 8, 16
)

// collected is the specified list.
func (d *dirNode) collected(opt int, last func(VStr) Value) (out []Value) {
	pick := func(full, name Value) {
		if opt&optFull != 0 {
			name = full
		}
		out = append(out, name)
	}
	leaf := true
	for _, x := range d.sub {
		if !x.dir {
			if opt&optFile != 0 {
				pick(x.path, x.name)
			}
			continue
		}
		leaf = false
		if opt&optDir != 0 && opt&optLeaf == 0 {
			pick(x.path, x.name)
		}
		if opt&(optDeep|optLeaf) != 0 {
			out = append(out, x.collected(opt, last)...)
		}
	}
	if leaf && opt&optDir != 0 && opt&optLeaf != 0 {
		pick(d.path, last(d.path))
	}
	return
}

func checkDirs(c *Ctx) {
	sp := c.pkg("fs")
	opts := map[string]int{}
	for n, v := range map[string]int{"FsDir": optDir, "FsFile": optFile, "FsFullPath": optFull, "FsDeep": optDeep, "FsLeaf": optLeaf} {
		opts[n] = v
	}
	// the value of a set of options
	value := func(o int) Lin {
		l := K(0)
		for n, v := range opts {
			if o&v != 0 {
				k, _ := constOf(sp, n)
				l = l.Add(k.(VInt).L)
			}
		}
		return l
	}
	run := func(fname, shape string, dots, opt int, args func(dir VStr, t *types.Signature) []Value) {
		fn := c.fn(sp, fname)
		var w *fsWorld
		c.setup = func(e *Engine) {
			w = modelFS(e, sp)
			modelHashes(e)
			modelFiles(e, w, true)
		}
		e := c.engine(sp)
		c.setup = nil
		st := e.newState()
		dir := st.fnStr("directory", "directory")
		st.assume(ropeLen(dir.R).AddK(-1)) // an empty path cannot be opened
		root := &dirNode{dir: true, sub: parseDir(shape)}
		forks := e.fork(st, func(st *State) Value {
			w.nodes = map[string]*dirNode{}
			w.place(st, root, dir, "", dots)
			return VBool(true)
		})
		if len(forks) != 1 {
			giveUp("%d trees of the shape %s", len(forks), shape)
		}
		for _, f := range forks {
			c.run(e, f.st, fn, args(dir, fn.Signature), func(s *State, ret []Value, pan *progPanic) string {
				if pan != nil {
					return panMsg(pan)
				}
				_, failed, msg := fsOpened(s)
				if msg != "" {
					return msg
				}
				if failed {
					if !isErr(ret[1]) {
						return "a failure is not reported"
					}
					return ""
				}
				if isErr(ret[1]) {
					return "reports an error without a failure"
				}
				want := root.collected(opt, func(p VStr) Value {
					f := filepathFunc(sp, "Split")
					v := e.models["path/filepath.Split"](&callCtx{e: e, st: s, args: []Value{p}, key: "path/filepath.Split", sig: f.Type().(*types.Signature), pos: "the specification"})
					return v.(VTuple)[1]
				})
				got, ok := ret[0].(VSlice)
				if !ok {
					return "the list is " + vstr(ret[0])
				}
				if !s.c.entailsEq(got.Len.AddK(int64(-len(want)))) {
					return fmt.Sprintf("lists %s instead of %d entries", got.Len, len(want))
				}
				r := s.content(got)
				for i, x := range want {
					if g := s.read(r, K(int64(i))); !s.sameArg(g, x) {
						return fmt.Sprintf("entry %d is %s instead of %s", i, vstr(g), vstr(x))
					}
				}
				return ""
			})
		}
	}
	shapes := []string{"", "f", "()", "ff", "f()", "()f", "()()", "(f)", "(())", "(f())f", "()(f)", "(ff)()", "((f))", "fff()f", "f(f(f)f)f", "(((f)))", "(()())()"}
	each := func(f func(shape string, dots int)) {
		for dots := 0; dots < 3; dots++ {
			for _, shape := range shapes {
				if dots > 0 && len(shape) > 6 {
					continue
				}
				f(shape, dots)
			}
		}
	}
	names := func(o int) string {
		var out []string
		for _, n := range []string{"FsDir", "FsFile", "FsFullPath", "FsDeep", "FsLeaf"} {
			if o&opts[n] != 0 {
				out = append(out, n[2:])
			}
		}
		return strings.Join(out, "|")
	}
	for o := 0; o < 32; o++ {
		o := o
		c.oblige("CollectSubs with options "+names(o), func() {
			each(func(shape string, dots int) {
				run("CollectSubs", shape, dots, o, func(dir VStr, t *types.Signature) []Value { return []Value{dir, VInt{value(o)}} })
			})
		})
	}
	for _, x := range []struct {
		fn  string
		opt int
	}{{"GetSubDirs", optDir}, {"GetSubFiles", optFile}, {"GetSubs", optDir | optFile}, {"GetDeepFiles", optFile | optDeep}, {"GetLeafDirs", optDir | optLeaf | optFull}} {
		x := x
		c.oblige(x.fn, func() {
			each(func(shape string, dots int) {
				run(x.fn, shape, dots, x.opt, func(dir VStr, t *types.Signature) []Value { return []Value{dir} })
			})
		})
	}
}
