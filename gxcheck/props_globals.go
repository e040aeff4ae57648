package main

import (
	"fmt"
	"go/build"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// packages that do not type-check offline at the pinned commit (missing dependencies
// or broken sources); they cannot be analysed and are not part of the property.
var brokenPkgs = map[string]bool{"math/number/gp": true, "math/seq": true,
	"proto": true, "regable": true, "stl/gp": true, "sync/filelock": true}

func allPackages(root string) (out []string) {
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return nil
		}
		n := fi.Name()
		if p != root && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
			return filepath.SkipDir
		}
		ents, _ := os.ReadDir(p)
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
				if ok, _ := build.Default.MatchFile(p, e.Name()); ok {
					rel, _ := filepath.Rel(root, p)
					out = append(out, rel)
					break
				}
			}
		}
		return nil
	})
	sort.Strings(out)
	return
}

func init() {
	props["C25"] = &propCheck{run: checkGlobals, minObl: 8}
}

func checkGlobals(c *Ctx) {
	var loaded []string
	for _, rel := range allPackages(c.p.root) {
		if brokenPkgs[rel] {
			continue
		}
		c.pkg(rel)
		loaded = append(loaded, rel)
	}
	if len(loaded) < 38 {
		c.fail("only %d packages found", len(loaded))
	}
	g := newGlobFlow(c.p)
	by := map[*ssa.Global][]gaccess{}
	for _, a := range g.acc {
		by[a.g] = append(by[a.g], a)
	}
	n := 0
	for _, rel := range loaded {
		sp := c.p.pkgs[rel]
		var names []string
		for name, m := range sp.Members {
			if _, ok := m.(*ssa.Global); ok && !strings.HasPrefix(name, "init$") {
				names = append(names, name)
			}
		}
		sort.Strings(names)
		for _, name := range names {
			gl := sp.Members[name].(*ssa.Global)
			n++
			c.oblige(rel+": package variable "+name, func() {
				c.cur.cases = len(by[gl])
				c.judgeGlobal(gl, by[gl])
			})
		}
	}
	for _, f := range g.fns {
		if g.late[f] {
			c.fns[f.String()] = true
			c.blocks += len(f.Blocks)
		}
	}
	c.outcomes = len(g.acc)
}

func (c *Ctx) judgeGlobal(gl *ssa.Global, acc []gaccess) {
	anyAtomic, plainW := false, false
	for _, a := range acc {
		if a.write {
			if a.atomic {
				anyAtomic = true
			} else {
				plainW = true
			}
		}
	}
	if !plainW && !anyAtomic {
		return
	}
	rootStore := false
	for _, a := range acc {
		if s, ok := a.in.(*ssa.Store); ok && s.Addr == ssa.Value(gl) {
			rootStore = true
		}
	}
	where := func(a gaccess) string { return fmt.Sprintf("%s: %s: %s", c.p.pos(a.in), a.fn, a.what) }
	var common lockset
	first := true
	for _, a := range acc {
		if a.atomic {
			continue
		}
		if isRootLoad(a, gl) && !rootStore && !isAtomicWord(gl, acc) {
			continue
		}
		if anyAtomic && !plainW {
			// the address computation and loads of pointers to reach it are harmless only
			// when the variable itself is the atomic word
			c.fail("%s reaches package variable %s, which is otherwise accessed atomically", where(a), gl.Name())
			continue
		}
		if a.write {
			ok := false
			for k := range a.held {
				if strings.HasPrefix(k, "W:") {
					ok = true
				}
			}
			if !ok {
				c.fail("%s writes memory of package variable %s after initialisation without a lock", where(a), gl.Name())
				continue
			}
		}
		if isRootLoad(a, gl) && !rootStore {
			continue
		}
		h := lockset{}
		for k := range a.held {
			if a.write && strings.HasPrefix(k, "W:") || !a.write && strings.HasPrefix(k, "R:") {
				h[k[2:]] = true
			}
		}
		if first {
			common, first = h, false
		} else {
			common = meet(common, h)
		}
		if len(common) == 0 {
			c.fail("%s accesses memory of package variable %s, which changes after initialisation, without the lock that protects it", where(a), gl.Name())
			return
		}
	}
	if anyAtomic && plainW {
		c.fail("package variable %s is written both atomically and plainly", gl.Name())
	}
}

// isRootLoad: reading the variable itself (a pointer that never changes), as opposed
// to what it refers to.
func isRootLoad(a gaccess, gl *ssa.Global) bool {
	u, ok := a.in.(*ssa.UnOp)
	return ok && u.X == ssa.Value(gl) && !a.write
}

// isAtomicWord: some atomic operation acts on the variable itself, rather than on what
// it refers to.
func isAtomicWord(gl *ssa.Global, acc []gaccess) bool {
	for _, a := range acc {
		if a.atomic {
			if ci, ok := a.in.(ssa.CallInstruction); ok {
				for _, x := range ci.Common().Args {
					if x == ssa.Value(gl) {
						return true
					}
				}
			}
		}
	}
	return false
}
