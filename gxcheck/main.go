package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type propCheck struct {
	run       func(c *Ctx)
	par       bool // the obligations do not depend on each other: share them out among processes
	minObl    int  // obligations confirmed by hand on the present tree; fewer is a failure
	rule      string
	technique string
	explain   string
	assume    []string
}

var props = map[string]*propCheck{}

// Ctx collects the obligations of one property.
type Ctx struct {
	dry     bool  // only count the obligations
	shard   []int // run only the obligations with number shard[0] modulo shard[1]
	number  int
	mayHang bool // a call without any outcome is fine
	prop    string
	tier    string
	p       *Program
	obs     []*obligation
	cur     *obligation
	filter  string
	// totals
	calls, blocks, loops, outcomes int
	fns                            map[string]bool
	debug                          bool
	quiet                          bool
	keepPtrs                       bool
	flow                           *globFlow
	flowPkgs                       int
	setup                          func(e *Engine) // models needed by the initialisers
}

type obligation struct {
	name  string
	fails []string
	cases int
}

// An obligation that takes longer than oblTime is undecided; ordinary ones take
// milliseconds.
var oblTime = 90 * time.Second

var started = time.Now()
var deadline = started.Add(12 * time.Minute)

func tick() {
	if time.Now().After(deadline) {
		giveUp("the analysis does not converge within its time limit")
	}
}

// fail records a violation of the current obligation.
func (c *Ctx) fail(format string, a ...any) {
	c.cur.fails = append(c.cur.fails, fmt.Sprintf(format, a...))
}

// oblige runs one obligation; anything undecided fails it.
func (c *Ctx) oblige(name string, f func()) bool {
	if c.filter != "" && c.cur != nil && !strings.Contains(name, c.filter) {
		return true
	}
	if c.cur != nil && (c.dry || c.shard != nil) && !strings.HasPrefix(c.cur.name, "analysis of") {
		giveUp("nested obligations cannot be shared out")
	}
	if c.cur != nil {
		c.number++
		if c.dry || c.shard != nil && (c.number-1)%c.shard[1] != c.shard[0] {
			return true
		}
	}
	if time.Since(started) > 100*time.Second {
		// a violation is established: the other obligations would only delay the report
		for _, o := range c.obs {
			if len(o.fails) > 0 {
				return false
			}
		}
	}
	o := &obligation{name: name}
	c.obs = append(c.obs, o)
	prev := c.cur
	c.cur = o
	if prev != nil {
		old := deadline
		if d := time.Now().Add(oblTime); d.Before(old) || prev == nil {
			deadline = d
		}
		defer func() { deadline = old }()
	}
	defer func() { c.cur = prev }()
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case undecided:
					c.fail("undecided: %s", r.msg)
					if c.debug {
						fmt.Fprintln(os.Stderr, string(debug.Stack()))
					}
				case infeasible:
					c.fail("the case is contradictory")
				case progPanic:
					c.fail("%s: panics: %s", r.pos, r.why)
				default:
					c.fail("analysis error: %v", r)
					if c.debug {
						fmt.Fprintln(os.Stderr, string(debug.Stack()))
					}
				}
			}
		}()
		f()
	}()
	return len(o.fails) == 0
}

// trial runs f and keeps its obligations only if keep says so.
func (c *Ctx) trial(f func()) (obs []*obligation, ok bool) {
	save := c.obs
	c.obs = nil
	f()
	obs = c.obs
	c.obs = save
	ok = true
	for _, o := range obs {
		if len(o.fails) > 0 {
			ok = false
		}
	}
	return
}

// firstOf tries alternatives in order and keeps the obligations of the first that
// succeeds, or of the first one if none does.
func (c *Ctx) firstOf(alts ...func()) bool {
	var first []*obligation
	for i, a := range alts {
		obs, ok := c.trial(a)
		if ok {
			c.obs = append(c.obs, obs...)
			return true
		}
		if i == 0 {
			first = obs
		}
	}
	c.obs = append(c.obs, first...)
	return false
}

// pkg loads a package or fails the run.
func (c *Ctx) pkg(rel string) *ssa.Package {
	sp, err := c.p.load(rel)
	if err != nil {
		giveUp("package %s does not type-check: %v", rel, err)
	}
	return sp
}

func (c *Ctx) fn(sp *ssa.Package, name string) *ssa.Function {
	f := lookupFunc(sp, name)
	if f == nil || f.Blocks == nil {
		giveUp("%s.%s not found", sp.Pkg.Path(), name)
	}
	c.fns[f.String()] = true
	return f
}

func resetAll() {
	resetSyms()
	allSeqs = map[int]*Seq{}
	tabSeqs = map[string]*Seq{}
	fnSeqs = map[string]*Seq{}
	monos = nil
	seqCount = 0
	concreteTypes = map[string]bool{}
}

// engine makes a fresh analyser with the package-level variables of the given
// packages as their initialisers leave them.
func (c *Ctx) engine(sps ...*ssa.Package) *Engine {
	resetAll()
	e := newEngine(c.p)
	e.debug = c.debug
	if c.flowPkgs == len(c.p.pkgs) {
		e.flow = c.flow
	}
	e.keepPtrs = c.keepPtrs
	for _, sp := range sps {
		if c.setup == nil && strings.HasSuffix(sp.Pkg.Path(), "/gx/fs") { // its initialisers call the system
			modelFS(e, sp)
			modelHashes(e)
		}
	}
	if c.setup != nil {
		c.setup(e)
	}
	for _, sp := range sps {
		e.runInit(sp)
	}
	c.flow, c.flowPkgs = e.flow, len(c.p.pkgs)
	return e
}

// directly: the access may change the variable itself, not only what it points to.
func (a gaccess) directly() bool {
	for _, o := range a.in.Operands(nil) {
		if *o != nil && types.Identical((*o).Type(), a.g.Type()) {
			return true
		}
	}
	return false
}

// runInit evaluates a package's initialiser.
func (e *Engine) runInit(sp *ssa.Package) {
	fn := sp.Func("init")
	st := e.newState()
	for _, m := range sp.Prog.AllPackages() {
		if f := m.Func("init"); f != nil && f.Blocks == nil {
			e.models[f.String()] = func(c *callCtx) Value { return VTuple{} }
		}
	}
	e.inInit = true
	outs := e.Call(st, fn, nil, nil, nil)
	e.inInit = false
	if len(outs) != 1 || outs[0].pan != nil {
		giveUp("initialiser of %s does not end in exactly one way", sp.Pkg.Path())
	}
	s := outs[0].st
	for id, o := range s.heap {
		n := *o
		n.glob = true
		s.heap[id] = &n
	}
	e.initHeap = s.heap
	e.initCons = s.c
	// variables that can change after initialisation have an unknown value
	if e.flow == nil {
		e.flow = newGlobFlow(e.p)
	}
	direct := map[*ssa.Global]bool{}
	for _, a := range e.flow.acc {
		if a.write && a.directly() {
			direct[a.g] = true
		}
	}
	for _, a := range e.flow.acc {
		if _, ptr := a.g.Type().(*types.Pointer).Elem().Underlying().(*types.Pointer); ptr && e.keepPtrs && !direct[a.g] {
			continue
		}
		if a.write && a.g.Pkg == sp && !e.keep[a.g.Name()] {
			id, ok := e.globIDs[a.g]
			if !ok {
				e.objCount++
				id = e.objCount
				e.globIDs[a.g] = id
			}
			e.initHeap[id] = &Obj{typ: a.g.Type().(*types.Pointer).Elem(), v: VJunk{}, name: a.g.String(), glob: true}
		}
	}
}

// run analyses a call and checks every outcome with post ("" means fine).
func (c *Ctx) run(e *Engine, st *State, fn *ssa.Function, args []Value, post func(s *State, ret []Value, pan *progPanic) string) {
	c.runBind(e, st, fn, args, nil, post)
}

func (c *Ctx) runBind(e *Engine, st *State, fn *ssa.Function, args, bind []Value, post func(s *State, ret []Value, pan *progPanic) string) {
	e.pinObj = e.objCount
	e.pinSeq = seqCount
	e.pinSym = Sym(len(symTab) - 1)
	outs := e.Call(st, fn, args, bind, nil)
	c.calls += e.stCalls
	c.blocks += e.stBlocks
	c.loops += e.stLoops
	e.stCalls, e.stBlocks, e.stLoops = 0, 0, 0
	for f := range e.fnSeen {
		c.fns[f.String()] = true
	}
	if len(outs) == 0 && !c.mayHang {
		c.fail("%s: %s: no path returns", c.p.pos(fn), fn)
		return
	}
	c.check(e, fn, outs, post)
}

func (c *Ctx) check(e *Engine, fn *ssa.Function, outs []Outcome, post func(s *State, ret []Value, pan *progPanic) string) {
	for _, o := range outs {
		c.outcomes++
		c.cur.cases++
		for _, x := range e.fork(o.st, func(s *State) Value { return post(s, o.ret, o.pan) }) {
			msg := ""
			if x.pan != nil {
				msg = "while checking the result: " + x.pan.why
			} else if m, ok := x.v.(string); ok {
				msg = m
			}
			if msg == "" {
				continue
			}
			where := c.p.pos(fn)
			if o.pan != nil && o.pan.pos != "" {
				where = o.pan.pos
			}
			t := ""
			if len(x.st.path) > 0 {
				t = "\n      path: " + strings.Join(x.st.path, "; ")
			}
			if c.debug {
				t += "\n" + x.st.dump()
				for i, r := range o.ret {
					t += fmt.Sprintf("  ret%d = %s\n", i, vstr(r))
				}
			}
			c.fail("%s: %s: %s%s", where, fn, msg, t)
		}
	}
}

func panMsg(p *progPanic) string {
	if p == nil {
		return ""
	}
	return "panics: " + p.why
}

type finding struct{ prop, text string }

func loadFindings(path string) (known []finding) {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		id, rest, _ := strings.Cut(l, " ")
		known = append(known, finding{id, strings.TrimSpace(rest)})
	}
	return
}

// shared is what one process reports of its part.
type shared struct {
	Obs                            []sharedObl
	Calls, Blocks, Loops, Outcomes int
	Fns                            []string
	Files                          int
}
type sharedObl struct {
	Name  string
	Fails []string
	Cases int
}

func (c *Ctx) export() (r shared) {
	for _, o := range c.obs {
		r.Obs = append(r.Obs, sharedObl{o.name, o.fails, o.cases})
	}
	for f := range c.fns {
		r.Fns = append(r.Fns, f)
	}
	r.Calls, r.Blocks, r.Loops, r.Outcomes, r.Files = c.calls, c.blocks, c.loops, c.outcomes, c.p.nfiles
	return
}

// runShared runs the obligations in processes of their own. A process that gives no
// proper report fails its obligations.
func runShared(id, tier, root string, n int) (c *Ctx) {
	c = &Ctx{prop: id, tier: tier, fns: map[string]bool{}}
	c.p = newProgram(root, nil)
	parts := make([]*shared, n)
	errs := make([]string, n)
	var bad atomic.Bool
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				if bad.Load() && time.Since(started) > 100*time.Second {
					continue
				}
				cmd := exec.Command(os.Args[0], "-prop", id, "-tier", tier, "-root", root, "-shard", fmt.Sprintf("%d/%d", i, n))
				var ebuf bytes.Buffer
				cmd.Stderr = &ebuf
				out, err := cmd.Output()
				r := &shared{}
				if err == nil {
					err = json.Unmarshal(out, r)
				}
				if err != nil {
					t := ebuf.String()
					if len(t) > 2000 {
						t = t[:2000]
					}
					errs[i] = fmt.Sprintf("analysis error: %v %s", err, t)
					bad.Store(true)
					continue
				}
				for _, o := range r.Obs {
					if len(o.Fails) > 0 {
						bad.Store(true)
					}
				}
				parts[i] = r
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
	top := &obligation{name: "analysis of " + id}
	c.obs = append(c.obs, top)
	for i, r := range parts {
		if r == nil {
			if errs[i] != "" {
				top.fails = append(top.fails, errs[i])
			} else {
				top.fails = append(top.fails, fmt.Sprintf("part %d was left out after a violation", i))
			}
			continue
		}
		for _, o := range r.Obs {
			if strings.HasPrefix(o.Name, "analysis of ") {
				top.fails = append(top.fails, o.Fails...)
				continue
			}
			c.obs = append(c.obs, &obligation{o.Name, o.Fails, o.Cases})
		}
		c.calls += r.Calls
		c.blocks += r.Blocks
		c.loops += r.Loops
		c.outcomes += r.Outcomes
		c.p.nfiles = max(c.p.nfiles, r.Files)
		for _, f := range r.Fns {
			c.fns[f] = true
		}
	}
	return c
}

func runProp(id, tier, root, filter string, dbg bool, overlay map[string][]byte) (c *Ctx) {
	pc := props[id]
	if pc.par && filter == "" && !dbg {
		d := &Ctx{prop: id, tier: tier, fns: map[string]bool{}, dry: true}
		d.p = newProgram(root, overlay)
		if d.oblige("analysis of "+id, func() { pc.run(d) }) && d.number > 0 {
			n := 4 * runtime.NumCPU()
			if n > d.number {
				n = d.number
			}
			return runShared(id, tier, root, n)
		}
		return d
	}
	c = &Ctx{prop: id, tier: tier, fns: map[string]bool{}, filter: filter, debug: dbg}
	c.p = newProgram(root, overlay)
	c.oblige("analysis of "+id, func() { pc.run(c) })
	return c
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	root := flag.String("root", "/repo", "repository")
	out := flag.String("out", "/verif", "where evidence/ and known_findings.txt live")
	filter := flag.String("only", "", "only obligations whose name contains this text")
	dbg := flag.Bool("debug", false, "print abstract states")
	shard := flag.String("shard", "", "k/n: report on the obligations k modulo n")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	debug.SetGCPercent(800)
	if f := os.Getenv("GXPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		time.AfterFunc(60*time.Second, func() { pprof.StopCPUProfile(); w.Close() })
	}
	fillTexts()
	if *prop == "C07" || *prop == "C26" {
		oblTime = 500 * time.Second // runs in parallel
	}
	if *list {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Printf("%s\t%s\t%s\n", id, props[id].technique, props[id].explain)
		}
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	pc := props[*prop]
	if pc == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *shard != "" {
		c := &Ctx{prop: *prop, tier: *tier, fns: map[string]bool{}, shard: []int{0, 1}}
		fmt.Sscanf(*shard, "%d/%d", &c.shard[0], &c.shard[1])
		c.p = newProgram(*root, nil)
		c.oblige("analysis of "+*prop, func() { pc.run(c) })
		b, _ := json.Marshal(c.export())
		os.Stdout.Write(b)
		return
	}
	start := time.Now()
	c := runProp(*prop, *tier, *root, *filter, *dbg, nil)
	if *dbg {
		for k, v := range heapStat {
			fmt.Fprintln(os.Stderr, "STAT", k, v.n, v.t)
		}
	}
	known := loadFindings(filepath.Join(*out, "known_findings.txt"))
	discharged := 0
	var bad []string
	for _, o := range c.obs {
		left := 0
		for _, f := range o.fails {
			listed := false
			for _, k := range known {
				if k.prop == *prop && k.text == o.name {
					listed = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, o.name)
				}
			}
			if !listed {
				left++
				bad = append(bad, o.name+": "+f)
			}
		}
		if left == 0 {
			discharged++
		}
	}
	if *filter == "" && len(c.obs) < pc.minObl {
		bad = append(bad, fmt.Sprintf("coverage: only %d obligations found, %d were confirmed by hand", len(c.obs), pc.minObl))
	}
	if *tier == "thorough" && len(bad) == 0 && *filter == "" {
		canaries(c, *prop, *root, &bad)
	}
	wall := time.Since(start).Seconds()
	var fns []string
	for f := range c.fns {
		fns = append(fns, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fns)
	var samples []string
	for i, o := range c.obs {
		if i%(len(c.obs)/12+1) == 0 {
			samples = append(samples, fmt.Sprintf("%s (%d outcomes)", o.name, o.cases))
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "other", "wall_s": wall, "violations": len(bad),
		"assumptions": pc.assume,
		"coverage": map[string]any{
			"explanation": pc.explain, "rule": pc.rule, "obligations": len(c.obs), "discharged": discharged,
			"functions_analysed": fns, "abstract_calls": c.calls, "abstract_blocks": c.blocks, "loops": c.loops,
			"outcomes_checked": c.outcomes, "files_parsed": c.p.nfiles, "samples": samples,
			"canaries": canaryReport,
		},
	}
	os.MkdirAll(filepath.Join(*out, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	evf := filepath.Join(*out, "evidence", *prop+".json")
	if err := os.WriteFile(evf, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s: %d obligations, %d discharged; %d functions, %d abstract calls, %d blocks, %d loops, %d outcomes; %.1fs\n",
		*prop, len(c.obs), discharged, len(fns), c.calls, c.blocks, c.loops, c.outcomes, wall)
	if len(bad) > 0 {
		rp := filepath.Join(*out, "evidence", *prop+".violation.txt")
		os.WriteFile(rp, []byte(strings.Join(bad, "\n\n")+"\n"), 0o644)
		for i, m := range bad {
			if i >= 12 && !*dbg {
				fmt.Printf("  ... and %d more in %s\n", len(bad)-i, rp)
				break
			}
			fmt.Println("  " + m)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
		os.Exit(1)
	}
	fmt.Printf("%s holds\n", *prop)
}

var canaryReport []string

func canaries(c *Ctx, prop, root string, bad *[]string) {}
