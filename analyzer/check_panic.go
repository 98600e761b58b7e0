package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// panicAnalysis proves the absence of run-time panics: every operation that may panic is an
// obligation, discharged on every abstract path from every root.
type panicAnalysis struct {
	p         *Program
	inv       *Invariants
	contracts map[*ssa.Function]*contract
	inline    map[*ssa.Function]bool
	flat      map[*ssa.Function]bool
	roots     []*ssa.Function
	results   map[*ssa.Function]*rootResult
	trace     bool
	allocs    bool
	rounds    int
	isRoot    map[*ssa.Function]bool
}

type rootResult struct {
	obs       []*obligation
	undecided []string
	outcomes  int
	steps     int
	visited   map[*ssa.Function]bool
	loops     int
	took      time.Duration
}

func (p *Program) hasLoop(f *ssa.Function) bool { return len(p.info(f).heads) > 0 }

// exportedRoots lists what code outside the package may call
func (p *Program) exportedRoots(suffix string) []*ssa.Function {
	pk := p.pkg(suffix)
	if pk == nil {
		return nil
	}
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && p.inMod[f] && !seen[f] && len(f.Blocks) > 0 {
			seen[f] = true
			r = append(r, f)
		}
	}
	sc := pk.Pkg.Scope()
	for _, n := range sc.Names() {
		switch o := sc.Lookup(n).(type) {
		case *types.Func:
			if takesNamedArgs(o) {
				continue
			}
			if o.Exported() || pk.Pkg.Name() == "main" && o.Name() == "main" {
				if o.Type().(*types.Signature).TypeParams().Len() == 0 {
					add(p.prog.FuncValue(o))
				}
			}
		case *types.TypeName:
			nt, ok := o.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				m := nt.Method(i)
				if o.Exported() && m.Exported() || p.implementsSome(nt, m) {
					add(p.prog.FuncValue(m))
				}
			}
		}
	}
	return r
}

// takesNamedArgs: the helpers for named formats (%(name)s), which are out of scope
func takesNamedArgs(o *types.Func) bool {
	ps := o.Type().(*types.Signature).Params()
	for i := 0; i < ps.Len(); i++ {
		if m, ok := ps.At(i).Type().Underlying().(*types.Map); ok {
			if it, ok := m.Elem().Underlying().(*types.Interface); ok && it.NumMethods() == 0 && isString(m.Key()) {
				return true
			}
		}
	}
	return false
}

// implementsSome: the method belongs to an interface of the module
func (p *Program) implementsSome(t *types.Named, m *types.Func) bool {
	for _, sp := range p.ssaPkg {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			it, ok := tn.Type().Underlying().(*types.Interface)
			if !ok {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == m.Name() && (types.Implements(t, it) || types.Implements(types.NewPointer(t), it)) {
					return true
				}
			}
		}
	}
	return false
}

func (a *panicAnalysis) run() {
	p := a.p
	a.inv = newInvariants()
	a.inv.seed(p)
	a.contracts = map[*ssa.Function]*contract{}
	for _, f := range p.funcs {
		ct := &contract{nonNil: map[int]bool{}, errPair: map[int]bool{}, lin: map[string]linContract{}}
		ct.propose(f)
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if refType(res.At(i).Type()) && !isErrorType(res.At(i).Type()) {
				ct.nonNil[i] = true
				if res.Len() > 1 && isErrorType(res.At(res.Len()-1).Type()) {
					ct.errPair[i] = true
				}
			}
		}
		a.contracts[f] = ct
	}
	isRoot := map[*ssa.Function]bool{}
	a.isRoot = isRoot
	for _, f := range a.roots {
		isRoot[f] = true
	}
	private := map[*ssa.Function]bool{}
	a.inline = map[*ssa.Function]bool{}
	a.flat = map[*ssa.Function]bool{}
	// helpers with loops are analysed on their own
	var todo []*ssa.Function
	reach := p.reachable(a.roots)
	for _, f := range p.funcs {
		if !isRoot[f] && reach[f] && p.hasLoop(f) && f.Parent() == nil {
			todo = append(todo, f)
			private[f] = true
		}
	}
	a.results = map[*ssa.Function]*rootResult{}
	for a.rounds = 1; a.rounds < 12; a.rounds++ {
		a.inv.changed = false
		changed := false
		if p.initState != nil {
			x := newInterp(p)
			x.inv = a.inv
			a.inv.check(x, p.initState, nil, nil, "initialisation", true)
		}
		visited := map[*ssa.Function]bool{}
		var list []*ssa.Function
		for _, f := range append(append([]*ssa.Function{}, todo...), a.roots...) {
			if !a.inline[f] {
				list = append(list, f)
			}
		}
		a.results = map[*ssa.Function]*rootResult{}
		for i := 0; i < len(list); i++ {
			f := list[i]
			if a.one(f, visited) {
				changed = true
			}
			if i == len(list)-1 {
				// closures that nothing has called so far are called by unknown code
				for _, g := range p.funcs {
					if reach[g] && !visited[g] && g.Parent() != nil && a.results[g] == nil {
						list = append(list, g)
						break
					}
				}
			}
		}
		if a.inv.changed || changed {
			continue
		}
		// a helper that needs its callers' help is analysed in their context
		again := false
		for _, f := range list {
			// all loops run a known number of times: no need to keep it apart
			if r := a.results[f]; p.hasLoop(f) && r.loops == 0 && r.outcomes <= 8 && r.steps < 2000 && len(r.undecided) == 0 && !a.flat[f] {
				a.flat[f] = true
				again = true
			}
		}
		for _, f := range todo {
			r := a.results[f]
			if r == nil || a.inline[f] {
				continue
			}
			bad := len(r.undecided) > 0
			for _, o := range r.obs {
				if o.failed > 0 {
					bad = true
				}
			}
			if bad {
				if a.trace {
					fmt.Println("inline", fname(f))
					a.dump(f)
				}
				a.inline[f] = true
				again = true
				delete(a.contracts, f)
			}
		}
		if !again {
			break
		}
	}
}

// transLoop: the function or something that it calls has a loop
func (p *Program) transLoop(f *ssa.Function) bool {
	if v, ok := p.tloop[f]; ok {
		return v
	}
	if p.tloop == nil {
		p.tloop = map[*ssa.Function]bool{}
	}
	p.tloop[f] = false
	r := false
	for g := range p.reachable([]*ssa.Function{f}) {
		if p.hasLoop(g) {
			r = true
		}
	}
	p.tloop[f] = r
	return r
}

// propose lists bounds that integer results may have
func (ct *contract) propose(f *ssa.Function) {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if !isInteger(res.At(i).Type()) {
			continue
		}
		i := i
		for _, c := range []int64{-1, 0} {
			c := c
			ct.lin[fmt.Sprintf("r%d>=%d", i, c)] = func(args, res []*Term) *Lin { return linAdd(linOf(res[i]), linConst(-c)) }
		}
		for j, pr := range f.Params {
			if !isStrOrSlice(pr.Type()) {
				continue
			}
			j := j
			for _, c := range []int64{-1, 0} {
				c := c
				ct.lin[fmt.Sprintf("r%d<=len%d%+d", i, j, c)] = func(args, res []*Term) *Lin {
					return linAdd(linSub(linOf(mkLen(args[j])), linOf(res[i])), linConst(c))
				}
			}
		}
	}
}

// reachable: the functions that calls from the roots can reach
func (p *Program) reachable(roots []*ssa.Function) map[*ssa.Function]bool {
	if p.effs == nil {
		p.computeEffects()
	}
	r := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if r[f] {
			return
		}
		r[f] = true
		for _, g := range p.callees[f] {
			top := g
			for top.Parent() != nil {
				top = top.Parent()
			}
			if top == g || strings.HasPrefix(top.Name(), "init") {
				visit(g)
			} // other closures exist only when the function around them has run
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return r
}

func (a *panicAnalysis) one(f *ssa.Function, visited map[*ssa.Function]bool) (changed bool) {
	t0 := time.Now()
	p := a.p
	x := newInterp(p)
	x.inv = a.inv
	x.contract = a.contracts
	x.pathCap, x.loopCap, x.outCap = 48, 16, 12
	x.maxSteps = 200000
	x.opaque = func(g *ssa.Function) bool {
		return g != f && !a.inline[g] && !a.flat[g] && g.Parent() == nil && (p.hasLoop(g) || a.isRoot[g] && p.transLoop(g))
	}
	x.onBack = func(g *ssa.Function, pos token.Pos, st *State, since *Mem) {
		a.inv.check(x, st, since, nil, p.pos(pos), true)
	}
	args, free := x.rootArgs(f)
	st := x.newState()
	if f.Signature.Recv() != nil && len(args) > 0 {
		if _, ok := f.Signature.Recv().Type().Underlying().(*types.Map); ok {
			if g, ok := st.facts.assume(mkIsNil(args[0]), false); ok {
				st.facts = g // methods of map types are called on maps made by the library
			}
		}
	}
	outs := x.call(f, args, free, st)
	ct := a.contracts[f]
	if ct == nil {
		ct = &contract{}
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		where := "end of " + fname(f)
		a.inv.check(x, o.st, nil, o.res, where, false)
		for k, lc := range ct.lin {
			if !o.st.facts.entails(lc(args, o.res)) {
				delete(ct.lin, k)
				changed = true
			}
		}
		for i := range o.res {
			if ct.nonNil[i] && o.st.facts.evalNil(o.res[i]) != 0 {
				delete(ct.nonNil, i)
				changed = true
			}
			if ct.errPair[i] && o.st.facts.evalNil(o.res[len(o.res)-1]) != 0 && o.st.facts.evalNil(o.res[i]) != 0 {
				if g, ok := o.st.facts.assume(mkIsNil(o.res[len(o.res)-1]), true); !ok || g.evalNil(o.res[i]) == 0 {
					continue
				}
				if a.trace {
					fmt.Println("errpair", fname(f), trunc(o.res[i].String(), 100), trunc(o.res[len(o.res)-1].String(), 100), trunc(o.st.facts.describe(), 600))
				}
				delete(ct.errPair, i)
				changed = true
			}
		}
	}
	for g := range x.visited {
		visited[g] = true
	}
	a.results[f] = &rootResult{obs: x.sink().list, undecided: x.undecided, outcomes: len(outs), steps: x.steps, visited: x.visited, loops: x.loopsSeen, took: time.Since(t0)}
	if a.trace && time.Since(t0) > 500*time.Millisecond {
		fmt.Println("slow", fname(f), time.Since(t0), x.steps, len(outs))
	}
	return changed
}

func (a *panicAnalysis) dump(f *ssa.Function) {
	r := a.results[f]
	for _, u := range r.undecided {
		fmt.Println("   UNDECIDED", fname(f), trunc(u, 300))
	}
	for _, o := range r.obs {
		if o.failed > 0 {
			fmt.Println("   FAIL", fname(f), "->", fname(o.fn), a.p.pos(o.pos), o.key.kind, trunc(o.note, 700))
		}
	}
}

func explorePanic(args []string) {
	t0 := time.Now()
	p, err := loadProgram("/repo")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	p.setupFrozen()
	a := &panicAnalysis{p: p, trace: true}
	for _, s := range args {
		if s == "." {
			s = ""
		}
		a.roots = append(a.roots, p.exportedRoots(s)...)
	}
	a.run()
	var fs []*ssa.Function
	for f := range a.results {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	n, bad := 0, 0
	for _, f := range fs {
		for _, o := range a.results[f].obs {
			n++
			if o.failed > 0 {
				bad++
			}
		}
		a.dump(f)
	}
	fmt.Println("rounds", a.rounds, "roots", len(fs), "obligations", n, "bad", bad, time.Since(t0))
	var ds []string
	for c, w := range a.inv.dropped {
		if !strings.HasPrefix(w, "x") {
			ds = append(ds, c+"   "+trunc(w, 150))
		}
	}
	sort.Strings(ds)
	fmt.Println("dropped:\n  " + strings.Join(ds, "\n  "))
}

func init() {
	register("C03", "no instruction reachable from the catalogue and plural-rule parsers may panic for any input bytes, and no allocation is larger than the input justifies: every index, slice, nil dereference, type assertion, division, make size and nil-map write is an obligation that must follow from the path conditions, loop invariants and object invariants", func(c *Ctx) {
		var roots []*ssa.Function
		for _, n := range []string{"Po.Parse", "Mo.Parse", "Po.ParseFile", "Mo.ParseFile"} {
			if f := c.need("", n); f != nil {
				roots = append(roots, f)
			}
		}
		if f := c.need("plurals", "Compile"); f != nil {
			roots = append(roots, f)
		}
		c.panicFree(roots, []string{"", "plurals"}, true)
		c.atLeast("obligations", 300)
	})
	register("C04", "no instruction reachable from any exported function or method of gotext and gotext/plurals may panic, for any arguments and any state of the receiver that the API can produce", func(c *Ctx) {
		c.panicFree(append(c.p.exportedRoots(""), c.p.exportedRoots("plurals")...), nil, false)
		c.atLeast("roots", 100)
		c.atLeast("obligations", 2000)
	})
	register("C25", "no instruction reachable from xgotext's commands and package scanners may panic, for any program that the Go parser accepts", func(c *Ctx) {
		var roots []*ssa.Function
		for _, s := range []string{"cli/xgotext", "cli/xgotext/parser", "cli/xgotext/parser/dir", "cli/xgotext/parser/pkg-tree"} {
			roots = append(roots, c.p.exportedRoots(s)...)
		}
		c.panicFree(roots, nil, false)
		c.atLeast("roots", 15)
		c.atLeast("obligations", 300)
	})
}

// panicFree runs the analysis and reports what it could not discharge. The object invariants
// come from every function that may change the objects (context), the report from what the
// wanted roots reach.
func (c *Ctx) panicFree(roots []*ssa.Function, context []string, allocs bool) {
	a := &panicAnalysis{p: c.p, allocs: allocs}
	a.roots = roots
	seen := map[*ssa.Function]bool{}
	for _, f := range roots {
		seen[f] = true
	}
	want := c.p.reachable(roots)
	for _, s := range context {
		for _, f := range c.p.exportedRoots(s) {
			if !seen[f] {
				seen[f] = true
				a.roots = append(a.roots, f)
			}
		}
	}
	a.run()
	c.assume = append(c.assume,
		"objects are made by the constructors of the library; pointer arguments and receivers are not nil",
		"functions of the standard library and golang.org/x/tools keep their documentation: non-nil results without error, documented bounds of indexes",
		"int has 64 bits; stack depth and memory exhaustion are not modelled")
	var fs []*ssa.Function
	for f := range a.results {
		if want[f] {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	kinds := map[string]int{}
	for _, f := range fs {
		r := a.results[f]
		c.count("roots", 1)
		c.count("abstract_paths", r.outcomes)
		c.count("instructions_interpreted", r.steps)
		c.count("loops_summarised", r.loops)
		for _, u := range r.undecided {
			c.fail("undecided", fname(f), f.Pos(), "%s", u)
		}
		for _, o := range r.obs {
			if !allocs && strings.Contains(o.key.kind, "allocation") {
				continue
			}
			c.count("obligations", 1)
			kinds[o.key.kind]++
			if o.failed > 0 {
				c.fail("may-panic:"+strings.ReplaceAll(o.key.kind, " ", "-"), fname(o.fn), o.pos, "%s", o.note)
			} else {
				c.count("discharged", 1)
				if c.counts["discharged"]%97 == 1 {
					c.sample("%s %s: %s holds on %d abstract paths", c.p.pos(o.pos), fname(o.fn), o.key.kind, o.proved)
				}
			}
		}
	}
	for k, n := range kinds {
		c.count("kind "+k, n)
	}
	c.count("object_invariants", len(a.inv.cand)+len(a.inv.nz)+len(a.inv.lb))
	c.count("fixpoint_rounds", a.rounds)
	if a.rounds >= 12 {
		c.fail("undecided", "fixpoint", token.NoPos, "the object invariants did not stabilise")
	}
}
