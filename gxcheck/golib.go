package main

import (
	"go/ast"
	"go/parser"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// goLib holds Go text equivalent to some standard library functions; calls of the
// originals are analysed through it. A function f_X stands for package function
// name X with "__" for the dot: io__MultiWriter.
var goLib = `package gxmodel

import (
	"fmt"
	"io"
	"strings"
)

func fmt__Fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(fmt.Sprintf(format, a...)))
}

func fmt__Fprint(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(fmt.Sprint(a...)))
}

func strings__Join(elems []string, sep string) string {
	if len(elems) == 0 {
		return ""
	}
	s := elems[0]
	for _, x := range elems[1:] {
		s += sep + x
	}
	return s
}

func strings__HasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func strings__HasSuffix(s, p string) bool { return len(s) >= len(p) && s[len(s)-len(p):] == p }

func strings__TrimPrefix(s, p string) string {
	if len(s) >= len(p) && s[:len(p)] == p {
		return s[len(p):]
	}
	return s
}

func strings__TrimSuffix(s, p string) string {
	if len(s) >= len(p) && s[len(s)-len(p):] == p {
		return s[:len(s)-len(p)]
	}
	return s
}

func strings__CutPrefix(s, p string) (string, bool) {
	if len(s) >= len(p) && s[:len(p)] == p {
		return s[len(p):], true
	}
	return s, false
}

func strings__CutSuffix(s, p string) (string, bool) {
	if len(s) >= len(p) && s[len(s)-len(p):] == p {
		return s[:len(s)-len(p)], true
	}
	return s, false
}

func strings__Contains(s, x string) bool { return strings.Index(s, x) >= 0 }

func strings__ContainsRune(s string, x rune) bool { return strings.IndexRune(s, x) >= 0 }

func strings__Cut(s, sep string) (string, string, bool) {
	if i := strings.Index(s, sep); i >= 0 {
		return s[:i], s[i+len(sep):], true
	}
	return s, "", false
}

func strings__SplitN(s, sep string, n int) []string {
	switch n {
	case 0:
		return nil
	case 1:
		return []string{s}
	case 2:
		if i := strings.Index(s, sep); i >= 0 {
			return []string{s[:i], s[i+len(sep):]}
		}
		return []string{s}
	}
	return splitMany(s, sep, n)
}

func splitMany(s, sep string, n int) []string

func io__WriteString(w io.Writer, s string) (int, error) {
	if sw, ok := w.(io.StringWriter); ok {
		return sw.WriteString(s)
	}
	return w.Write([]byte(s))
}

type multiWriter struct{ writers []io.Writer }

func (t *multiWriter) Write(p []byte) (n int, err error) {
	for _, w := range t.writers {
		n, err = w.Write(p)
		if err != nil {
			return
		}
		if n != len(p) {
			err = io.ErrShortWrite
			return
		}
	}
	return len(p), nil
}

func io__MultiWriter(writers ...io.Writer) io.Writer {
	w := make([]io.Writer, len(writers))
	copy(w, writers)
	return &multiWriter{w}
}
` + sliceLibs()

func (p *Program) golib() *ssa.Package {
	if sp := p.lib; sp != nil {
		return sp
	}
	f, err := parser.ParseFile(p.fset, "gxmodel.go", goLib, parser.SkipObjectResolution)
	if err != nil {
		panic(err)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	conf := types.Config{Importer: p}
	tp, err := conf.Check("gxmodel", p.fset, []*ast.File{f}, info)
	if err != nil {
		panic(err)
	}
	sp := p.prog.CreatePackage(tp, []*ast.File{f}, info, true)
	sp.Build()
	p.lib = sp
	return sp
}

func goLibFn(e *Engine, key string) *ssa.Function {
	i := strings.LastIndex(key, ".")
	if i < 0 || strings.HasPrefix(key, "(") {
		return nil
	}
	name := strings.ReplaceAll(key[:i], "/", "_") + "__" + key[i+1:]
	if !strings.Contains(goLib, "\nfunc "+name+"(") {
		return nil
	}
	return e.p.golib().Func(name)
}
