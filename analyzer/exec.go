package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interp is an abstract interpreter of SSA functions. Abstract states are trace-partitioned:
// a set of (heap log, facts) pairs per program point, joined by havoc at loop heads.

type path struct {
	st     *State
	env    []*Term
	defers *deferRec
}

type deferRec struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	pos  token.Pos
	prev *deferRec
}

func (p *path) clone() *path {
	q := &path{st: p.st.clone(), env: make([]*Term, len(p.env)), defers: p.defers}
	copy(q.env, p.env)
	return q
}

type Outcome struct {
	st    *State
	res   []*Term
	panic bool
	pos   token.Pos
}

type regionOut struct {
	exits map[*ssa.BasicBlock][]*path
	back  []*path
	rets  []*Outcome
}

// LoopRec describes the stable abstract iteration of a loop
type LoopRec struct {
	fn      *ssa.Function
	header  *ssa.BasicBlock
	pos     token.Pos
	entry   *State
	start   *State // state at the header of an arbitrary iteration
	phis    []*ssa.Phi
	init    []*Term
	sym     []*Term
	back    []*State
	next    [][]*Term
	exits   []*State
	rets    []*Outcome
	rangeOf *Term // map or nil
	inv     []string
}

type CallbackRec struct {
	fn   *Term
	recv []*Term // of a method, besides args
	args []*Term
	outs []*Outcome
	st   *State
}

type obKey struct {
	instr ssa.Instruction
	kind  string
}

type obligation struct {
	key    obKey
	fn     *ssa.Function
	pos    token.Pos
	proved int
	failed int
	note   string
}

type sinkT struct {
	obs  map[obKey]*obligation
	list []*obligation
	keys map[string]bool
	hook []string
}

func newSink() *sinkT { return &sinkT{obs: map[obKey]*obligation{}, keys: map[string]bool{}} }

func (s *sinkT) merge(o *sinkT) {
	for _, ob := range o.list {
		m := s.obs[ob.key]
		if m == nil {
			c := *ob
			s.obs[ob.key] = &c
			s.list = append(s.list, &c)
			continue
		}
		m.proved += ob.proved
		if m.failed == 0 && ob.failed > 0 {
			m.note = ob.note
		}
		m.failed += ob.failed
	}
	s.hook = append(s.hook, o.hook...)
}

type Interp struct {
	p          *Program
	opaque     func(f *ssa.Function) bool // treated as an uninterpreted call
	pure       func(f *ssa.Function) bool // opaque, and a function of its arguments without effects
	havocAll   bool
	noOblige   bool
	sinks      []*sinkT
	stack      []*ssa.Function
	maxDepth   int
	steps      int
	maxSteps   int
	undecided  []string
	pairErr    map[*Term]*Term // result -> error result of the same call
	inv        *Invariants
	rngs       map[*Term]*Term     // iterator symbol -> map or string
	nexts      map[*Term]*ssa.Next // key -> where it is taken
	loopNest   int
	pathCap    int
	loopCap    int // more states than this are joined before a loop
	outCap     int // more results of a call than this are joined
	initState  *State
	atEnd      func(st *State, since *Mem, res []*Term, where string) // called at exits and back edges of roots
	pureInvoke func(m *types.Func) bool
	precise    bool // more loop invariants are tried
	onExit     func(st *State, name string, args []*Term, pos token.Pos)
	stub       func(f *ssa.Function, args []*Term) ([]*Term, bool) // prescribed results
	appends    func(f *ssa.Function) int                           // the parameter that points to a list which a call only extends, or -1
	snapshot   func(name string) bool                              // external functions whose results depend on their arguments only
	traceErr   bool                                                // calls of effect-free functions that return an error are events too
	onBack     func(f *ssa.Function, pos token.Pos, st *State, since *Mem)
	contract   map[*ssa.Function]*contract
	visited    map[*ssa.Function]bool
	unrolled   int
	loopsSeen  int
}

func newInterp(p *Program) *Interp {
	x := &Interp{p: p, maxDepth: 16, maxSteps: 3000000, pairErr: map[*Term]*Term{}, rngs: map[*Term]*Term{}, nexts: map[*Term]*ssa.Next{}, pathCap: 160, visited: map[*ssa.Function]bool{}}
	x.sinks = []*sinkT{newSink()}
	nonNilTerm = x.nonNil
	valuesNonNil = x.valuesNonNil
	lowerBound = func(t *Term) (int64, bool) {
		if x.inv == nil {
			return 0, false
		}
		return x.inv.lower(t)
	}
	return x
}

func (x *Interp) sink() *sinkT { return x.sinks[len(x.sinks)-1] }

func (x *Interp) giveUp(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	for _, u := range x.undecided {
		if u == s {
			return
		}
	}
	x.undecided = append(x.undecided, s)
}

// ---- values

func (x *Interp) val(p *path, fi *funcInfo, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroValue(v.Type())
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return mkConst(constant.ToInt(v.Value), v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Global:
		return mkGlobal(v)
	case *ssa.Function:
		return mkFunc(v)
	case *ssa.Builtin:
		return mk(OFunc, v.Type(), "builtin "+v.Name(), false)
	}
	i, ok := fi.index[v]
	if !ok {
		panic(fmt.Sprintf("no index for %s in %s", v.Name(), fi.fn))
	}
	t := p.env[i]
	if t == nil {
		panic(fmt.Sprintf("value %s of %s not computed", v.Name(), fi.fn))
	}
	return t
}

func (x *Interp) set(p *path, fi *funcInfo, v ssa.Value, t *Term) { p.env[fi.index[v]] = t }

// ---- functions

func (x *Interp) call(f *ssa.Function, args []*Term, free []*Term, st *State) []*Outcome {
	fi := x.p.info(f)
	if fi.bad != "" {
		x.giveUp("%s: %s", fname(f), fi.bad)
	}
	x.visited[f] = true
	p := &path{st: st.clone(), env: make([]*Term, fi.n)}
	for i, v := range f.Params {
		p.env[fi.index[v]] = args[i]
	}
	for i, v := range f.FreeVars {
		p.env[fi.index[v]] = free[i]
	}
	x.stack = append(x.stack, f)
	out := x.region(fi, nil, f.Blocks[0], []*path{p})
	x.stack = x.stack[:len(x.stack)-1]
	return x.capOutcomes(out.rets)
}

// capOutcomes removes duplicate outcomes
func (x *Interp) capOutcomes(os []*Outcome) []*Outcome {
	return os
}

func (x *Interp) region(fi *funcInfo, loop *loopInfo, entry *ssa.BasicBlock, starts []*path) *regionOut {
	out := &regionOut{exits: map[*ssa.BasicBlock][]*path{}}
	in := map[*ssa.BasicBlock][]*path{entry: starts}
	route := func(p *path, to *ssa.BasicBlock) {
		switch {
		case loop != nil && to == loop.header:
			out.back = append(out.back, p)
		case loop != nil && !loop.blocks[to]:
			out.exits[to] = append(out.exits[to], p)
		default:
			in[to] = append(in[to], p)
		}
	}
	for _, b := range fi.rpo {
		if loop != nil && !loop.blocks[b] {
			continue
		}
		ps := in[b]
		if len(ps) == 0 {
			continue
		}
		ps = x.reduce(fi, b, ps)
		if l := fi.heads[b]; l != nil && l != loop {
			if x.loopCap > 0 && len(ps) > x.loopCap {
				x.dropDead(fi, b, ps)
				ps = x.joinTo(fi, ps, x.loopCap)
			}
			for _, p := range ps {
				o := x.runLoop(fi, l, p)
				out.rets = append(out.rets, o.rets...)
				for to, qs := range o.exits {
					for _, q := range qs {
						route(q, to)
					}
				}
			}
			continue
		}
		if il := fi.loop[b]; il != loop && il != nil && !isWithin(loop, il) && il.header != b {
			// inside an inner loop: handled by runLoop
			continue
		}
		for _, p := range ps {
			x.block(fi, b, p, out, route)
		}
	}
	return out
}

func isWithin(outer, inner *loopInfo) bool {
	// inner == outer or outer nested in inner
	for l := outer; l != nil; l = l.parent {
		if l == inner {
			return true
		}
	}
	return false
}

func (x *Interp) edge(fi *funcInfo, p *path, from, to *ssa.BasicBlock) {
	var pred = -1
	for i, pr := range to.Preds {
		if pr == from {
			pred = i
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, x.val(p, fi, phi.Edges[pred]))
	}
	for i, phi := range phis {
		x.set(p, fi, phi, vals[i])
	}
}

func (x *Interp) block(fi *funcInfo, b *ssa.BasicBlock, p *path, out *regionOut, route func(*path, *ssa.BasicBlock)) {
	cur := []*path{p}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		switch in := in.(type) {
		case *ssa.If:
			for _, q := range cur {
				c := x.val(q, fi, in.Cond)
				for i, succ := range b.Succs {
					f, ok := q.st.facts.assume(c, i == 0)
					if !ok {
						continue
					}
					r := q.clone()
					r.st.facts = f
					x.edge(fi, r, b, succ)
					route(r, succ)
				}
			}
			return
		case *ssa.Jump:
			for _, q := range cur {
				x.edge(fi, q, b, b.Succs[0])
				route(q, b.Succs[0])
			}
			return
		case *ssa.Return:
			for _, q := range cur {
				res := make([]*Term, len(in.Results))
				for i, r := range in.Results {
					res[i] = x.val(q, fi, r)
				}
				out.rets = append(out.rets, &Outcome{st: q.st, res: res, pos: in.Pos()})
			}
			return
		case *ssa.Panic:
			for _, q := range cur {
				x.oblige(q, fi, in, "explicit panic", mkBool(false))
				out.rets = append(out.rets, &Outcome{st: q.st, panic: true, pos: in.Pos()})
			}
			return
		}
		var next []*path
		for _, q := range cur {
			x.steps++
			if x.steps > x.maxSteps {
				if x.steps == x.maxSteps+1 {
					x.giveUp("%s: step budget exhausted", fname(fi.fn))
				}
				return
			}
			next = append(next, x.instr(fi, q, in)...)
		}
		cur = next
		if len(cur) == 0 {
			return
		}
		if len(cur) > x.pathCap {
			cur = x.join(fi, cur, nil)
		}
	}
}

// reduce removes duplicates among the states that reach a block, and joins when there are too many
func (x *Interp) reduce(fi *funcInfo, b *ssa.BasicBlock, ps []*path) []*path {
	if len(ps) <= x.pathCap {
		return ps
	}
	x.dropDead(fi, b, ps)
	return x.join(fi, ps, nil)
}

// dropDead forgets the values that are not used any more
func (x *Interp) dropDead(fi *funcInfo, b *ssa.BasicBlock, ps []*path) {
	live := fi.liveIn(b)
	for _, p := range ps {
		for i := range p.env {
			if !live[i] {
				p.env[i] = nil
			}
		}
	}
}

func (x *Interp) joinTo(fi *funcInfo, ps []*path, n int) []*path {
	old := x.pathCap
	x.pathCap = n
	ps = x.join(fi, ps, nil)
	x.pathCap = old
	return ps
}

// join merges states into few: values that differ become unknown. Pending deferred calls are
// merged like variables; states with different ones stay apart
func (x *Interp) join(fi *funcInfo, ps []*path, _ *Mem) []*path {
	parts := map[string][]*path{}
	var order []string
	any := false
	for _, p := range ps {
		var sb strings.Builder
		for d := p.defers; d != nil; d = d.prev {
			fmt.Fprintf(&sb, "%p/", d.call)
			any = true
		}
		k := sb.String()
		if parts[k] == nil {
			order = append(order, k)
		}
		parts[k] = append(parts[k], p)
	}
	if !any {
		return x.join1(fi, ps)
	}
	var res []*path
	for _, k := range order {
		part := parts[k]
		n := len(part[0].env)
		for i, p := range part {
			p = p.clone()
			for d := p.defers; d != nil; d = d.prev {
				p.env = append(p.env, d.fn)
				p.env = append(p.env, d.args...)
			}
			part[i] = p
		}
		old := x.pathCap
		if len(order) > 1 {
			x.pathCap = max(1, old/len(order))
		}
		part = x.join1(fi, part)
		x.pathCap = old
		for _, p := range part {
			vs := p.env[n:]
			p.env = p.env[:n:n]
			var ds []*deferRec
			for d := p.defers; d != nil; d = d.prev {
				e := &deferRec{call: d.call, pos: d.pos, fn: vs[0], args: vs[1 : 1+len(d.args) : 1+len(d.args)]}
				vs = vs[1+len(d.args):]
				ds = append(ds, e)
			}
			p.defers = nil
			for i := len(ds) - 1; i >= 0; i-- {
				ds[i].prev = p.defers
				p.defers = ds[i]
			}
			res = append(res, p)
		}
	}
	return res
}

func (x *Interp) join1(fi *funcInfo, ps []*path) []*path {
	// group by the heap log, event list and environment
	type grp struct{ ps []*path }
	groups := map[string]*grp{}
	var order []string
	for _, p := range ps {
		mid := 0
		if p.st.mem != nil {
			mid = p.st.mem.id
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d/%p", mid, p.st.ev)
		for _, t := range p.env {
			if t != nil {
				sb.WriteByte(',')
				sb.WriteString(strconv.Itoa(t.id))
			} else {
				sb.WriteString(",-")
			}
		}
		k := sb.String()
		g := groups[k]
		if g == nil {
			g = &grp{}
			groups[k] = g
			order = append(order, k)
		}
		g.ps = append(g.ps, p)
	}
	var res []*path
	for _, k := range order {
		g := groups[k]
		p := g.ps[0]
		if len(g.ps) > 1 {
			p = p.clone()
			fs := make([]*Facts, len(g.ps))
			for i, q := range g.ps {
				fs[i] = q.st.facts
				p.st.held = commonHeld(p.st.held, q.st.held)
			}
			p.st.facts = joinFacts(fs)
		}
		res = append(res, p)
	}
	if len(res) <= x.pathCap {
		return res
	}
	// merge everything: differing values become unknown, differing heap parts are forgotten
	a := res[0].clone()
	common := a.st.mem
	ev := a.st.ev
	for _, q := range res[1:] {
		common = commonMem(common, q.st.mem)
		ev = commonEv(ev, q.st.ev)
	}
	ms := &modSet{}
	fs := []*Facts{}
	for _, q := range res {
		fs = append(fs, q.st.facts)
		if x.inv != nil {
			x.inv.check(x, q.st, common, q.env, "join in "+fname(fi.fn), true)
		}
		ms.collect(q.st, common, 0)
	}
	olds := map[int][]*Term{}
	for i := range a.env {
		for _, q := range res[1:] {
			if a.env[i] != nil && q.env[i] != a.env[i] {
				if q.env[i] == nil {
					a.env[i] = nil
				} else {
					var vs []*Term
					for _, r := range res {
						vs = append(vs, r.env[i])
					}
					olds[i] = vs
					a.env[i] = x.havocVal("join", vs)
				}
				break
			}
		}
	}
	for _, q := range res[1:] {
		a.st.held = commonHeld(a.st.held, q.st.held)
	}
	a.st.facts = joinFacts(fs)
	a.st.mem = common
	a.st.ev = ev
	a.st.event(&Event{kind: "join"})
	ms.apply(a.st)
	// what holds of the old values in every state holds of the new ones
	keep := func(nv *Term, old func(k int) *Term, d int) {
		x.keepFacts(a.st, nv, res, old, d)
	}
	var idx []int
	for i := range olds {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	for _, i := range idx {
		vs := olds[i]
		if a.env[i] == nil {
			continue
		}
		if _, ok := typeUnder(a.env[i]).(*types.Slice); ok {
			n := mkLen(vs[0])
			for _, v := range vs[1:] {
				if mkLen(v) != n {
					n = nil
					break
				}
			}
			if n != nil {
				l := linSub(linOf(mkLen(a.env[i])), linOf(n))
				g := a.st.facts.clone()
				g.addLin(l)
				g.addLin(linScale(l, -1))
				a.st.facts = g
			}
		}
		if a.env[i].op == OTuple {
			for j, nv := range a.env[i].args {
				j := j
				keep(nv, func(k int) *Term {
					if vs[k] == nil || vs[k].op != OTuple {
						return nil
					}
					return vs[k].args[j]
				}, 0)
			}
			continue
		}
		keep(a.env[i], func(k int) *Term { return vs[k] }, 0)
	}
	// results that are not nil when their error is
	pair := func(nv, ne *Term, ov, oe func(k int) *Term) {
		if nv == nil || ne == nil || nv.typ == nil || ne.typ == nil || !isErrorType(ne.typ) || !isNilable(nv.typ) || isErrorType(nv.typ) || nv.op == OConst || ne.op == OConst {
			return
		}
		for k, q := range res {
			v, e := ov(k), oe(k)
			if v == nil || e == nil {
				return
			}
			if q.st.facts.evalNil(v) == 0 || q.st.facts.evalNil(e) == 0 {
				continue
			}
			if g, ok := q.st.facts.assume(mkIsNil(e), true); ok && g.evalNil(v) != 0 {
				return
			}
		}
		x.pairErr[nv] = ne
	}
	for _, i := range idx {
		vs := olds[i]
		if a.env[i] != nil && a.env[i].op == OTuple {
			n := len(a.env[i].args)
			for j := 0; j < n-1; j++ {
				at := func(j int) func(k int) *Term {
					return func(k int) *Term {
						if vs[k] == nil || vs[k].op != OTuple {
							return nil
						}
						return vs[k].args[j]
					}
				}
				pair(a.env[i].args[j], a.env[i].args[n-1], at(j), at(n-1))
			}
			continue
		}
		if a.env[i] == nil || a.env[i].typ == nil || !isErrorType(a.env[i].typ) {
			continue
		}
		for j, nv := range a.env {
			if j != i {
				j := j
				pair(nv, a.env[i], func(k int) *Term { return res[k].env[j] }, func(k int) *Term { return vs[k] })
			}
		}
	}
	// lengths that were equal to or bounds of numbers
	for _, i := range idx {
		ni := a.env[i]
		if ni == nil || ni.typ == nil || !isInteger(ni.typ) || ni.op == OConst {
			continue
		}
		for j, sv := range a.env {
			if sv == nil || sv.typ == nil || !isStrOrSlice(sv.typ) {
				continue
			}
			rel := func(k int) (*Facts, *Lin) {
				return res[k].st.facts, linSub(linOf(mkLen(res[k].env[j])), linOf(res[k].env[i]))
			}
			eq, le := true, true
			for k := range res {
				if res[k].env[i] == nil || res[k].env[j] == nil {
					eq, le = false, false
					break
				}
				f, l := rel(k)
				if eq && f.eval(mkEq0(l)) != 1 {
					eq = false
				}
				if le && !eq && f.eval(mkGe0(l)) != 1 {
					le = false
				}
				if !eq && !le {
					break
				}
			}
			l := linSub(linOf(mkLen(sv)), linOf(ni))
			var c *Term
			if eq {
				c = mkEq0(l)
			} else if le {
				c = mkGe0(l)
			}
			if c != nil {
				if f, ok := a.st.facts.assume(c, true); ok {
					a.st.facts = f
				}
			}
		}
	}
	var as []*Term
	for ad := range ms.addrs {
		as = append(as, ad)
	}
	sortTerms(as)
	for _, ad := range as {
		t := elemOf(ad.typ)
		if t == nil || strings.HasPrefix(ms.addrs[ad].class, "M:") {
			continue
		}
		if _, ok := t.Underlying().(*types.Struct); ok {
			continue
		}
		ad := ad
		keep(a.st.load(ad, t), func(k int) *Term { return res[k].st.load(ad, t) }, 0)
	}
	return []*path{a}
}

// keepFacts carries the simple facts common to the values of all states over to their join
func (x *Interp) keepFacts(st *State, nv *Term, ps []*path, old func(k int) *Term, d int) {
	if nv == nil || nv.typ == nil || nv.op == OConst {
		return
	}
	all := func(c func(t *Term) *Term) bool {
		for k, q := range ps {
			t := old(k)
			if t == nil || q.st.facts.eval(c(t)) != 1 {
				return false
			}
		}
		return true
	}
	add := func(c *Term) {
		if f, ok := st.facts.assume(c, true); ok {
			st.facts = f
		}
	}
	if nv.op == OIface {
		x.keepFacts(st, nv.args[0], ps, func(k int) *Term {
			if t := old(k); t != nil && t.op == OIface {
				return t.args[0]
			}
			return nil
		}, d)
		return
	}
	if isNilable(nv.typ) {
		nn := func(t *Term) *Term { return mkNot(mkIsNil(t)) }
		if all(nn) {
			add(nn(nv))
			if pt, ok := typeUnder(nv).(*types.Pointer); ok && d < 1 && x.moduleType(pt.Elem()) {
				if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						ft := s.Field(i).Type()
						if !refType(ft) {
							continue
						}
						i := i
						ld := func(st *State, b *Term) *Term {
							return st.load(mkFieldAddr(b, i, types.NewPointer(ft)), ft)
						}
						x.keepFacts(st, ld(st, nv), ps, func(k int) *Term {
							t := old(k)
							if t == nil {
								return nil
							}
							return ld(ps[k].st, t)
						}, d+1)
					}
				}
			}
		} else if all(mkIsNil) {
			add(mkIsNil(nv))
		}
	}
	if isInteger(nv.typ) {
		for _, c := range []int64{1, 0, -1} {
			c := c
			ge := func(t *Term) *Term { return mkGe0(linAdd(linOf(t), linConst(-c))) }
			if all(ge) {
				add(ge(nv))
				break
			}
		}
	}
	if isBool(nv.typ) {
		if all(func(t *Term) *Term { return t }) {
			add(nv)
		} else if all(mkNot) {
			add(mkNot(nv))
		}
	}
}

func (x *Interp) havocVal(name string, vs []*Term) *Term {
	like := vs[0]
	if like.op == OTuple {
		ts := make([]*Term, len(like.args))
		for i, t := range like.args {
			var sub []*Term
			same := true
			for _, v := range vs {
				if v == nil || v.op != OTuple {
					same = false
					continue
				}
				sub = append(sub, v.args[i])
				if v.args[i] != t {
					same = false
				}
			}
			if same {
				ts[i] = t
				continue
			}
			ts[i] = x.havocVal(name, sub)
		}
		return mkTuple(ts...)
	}
	typ := like.typ
	if m := x.rngs[like]; m != nil {
		for _, v := range vs {
			if x.rngs[v] != m {
				x.giveUp("joins iterations over different maps")
			}
		}
		t := mkSym(name, typ)
		x.rngs[t] = m
		return t
	}
	boxes, all := 0, true
	for _, v := range vs {
		if v != nil && v.op == OIface {
			boxes++
			if !types.Identical(v.typ, typ) || like.op != OIface {
				all = false
			}
		} else {
			all = false
		}
	}
	if boxes > 0 && !all {
		// values of different dynamic types
		typ = types.NewInterfaceType(nil, nil)
		for _, v := range vs {
			if v != nil && v.op != OIface && v.typ != nil {
				if _, ok := v.typ.Underlying().(*types.Interface); ok {
					typ = v.typ
				}
			}
		}
		return mkSym(name, typ)
	}
	if all {
		var sub []*Term
		for _, v := range vs {
			sub = append(sub, v.args[0])
		}
		return mkIface(x.havocVal(name, sub), typ)
	}
	return expandStruct(mkSym(name, typ), typ)
}

func commonMem(a, b *Mem) *Mem {
	for a != b {
		if a == nil || b == nil {
			return nil
		}
		if a.depth >= b.depth {
			a = a.prev
		} else {
			b = b.prev
		}
	}
	return a
}

func commonEv(a, b *Event) *Event {
	for a != b {
		if a == nil || b == nil {
			return nil
		}
		if a.n >= b.n {
			a = a.prev
		} else {
			b = b.prev
		}
	}
	return a
}

func joinFacts(fs []*Facts) *Facts {
	r := newFacts()
	f := fs[0]
	for t, v := range f.lits {
		ok := true
		for _, g := range fs[1:] {
			if w, has := g.lits[t]; !has || w != v {
				ok = false
				break
			}
		}
		if ok {
			r.lits[t] = v
		}
	}
	for t, c := range f.cst {
		ok := true
		for _, g := range fs[1:] {
			if g.cst[t] != c {
				ok = false
				break
			}
		}
		if ok {
			r.cst[t] = c
		}
	}
	for _, l := range f.lin {
		ok := true
		for _, g := range fs[1:] {
			if !g.keys[l.key()] && !g.entails(l) {
				ok = false
				break
			}
		}
		if ok {
			r.lin = append(r.lin, l)
			r.keys[l.key()] = true
		}
	}
	for _, l := range f.neq {
		ok := true
		for _, g := range fs[1:] {
			if !g.isNeq(l) {
				ok = false
				break
			}
		}
		if ok {
			r.neq = append(r.neq, l)
		}
	}
	return r
}

// ---- obligations

func (x *Interp) oblige(p *path, fi *funcInfo, in ssa.Instruction, kind string, cond *Term) bool {
	v := p.st.facts.eval(cond)
	s := x.sink()
	k := obKey{in, kind}
	o := s.obs[k]
	if o == nil {
		pos := in.Pos()
		if !pos.IsValid() {
			for _, op := range in.Operands(nil) {
				if *op != nil && (*op).Pos().IsValid() {
					pos = (*op).Pos()
				}
			}
		}
		o = &obligation{key: k, fn: fi.fn, pos: pos}
		s.obs[k] = o
		s.list = append(s.list, o)
	}
	if v == 1 {
		o.proved++
		return true
	}
	o.failed++
	if o.note == "" {
		o.note = fmt.Sprintf("needs %s; call path %s; known: %s", cond, x.stackStr(), trunc(p.st.facts.describe(), 1500))
	}
	if v == -1 {
		f, ok := p.st.facts.assume(cond, true)
		if ok {
			p.st.facts = f
			return true
		}
	}
	return false
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (x *Interp) stackStr() string {
	var ss []string
	for _, f := range x.stack {
		ss = append(ss, fname(f))
	}
	return strings.Join(ss, " > ")
}

func (x *Interp) requireNonNil(p *path, fi *funcInfo, in ssa.Instruction, t *Term, what string) bool {
	return x.oblige(p, fi, in, "nil "+what, mkNot(mkIsNil(t)))
}

func (x *Interp) requireRange(p *path, fi *funcInfo, in ssa.Instruction, idx, n *Term, what string) bool {
	if !x.oblige(p, fi, in, what+" below range", mkGe0(linOf(idx))) {
		return false
	}
	return x.oblige(p, fi, in, what+" above range", mkGe0(linAdd(linSub(linOf(n), linOf(idx)), linConst(-1))))
}

// ---- instructions

func (x *Interp) instr(fi *funcInfo, p *path, in ssa.Instruction) []*path {
	one := []*path{p}
	st := p.st
	V := func(v ssa.Value) *Term { return x.val(p, fi, v) }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := mkAlloc(allocName(in), in.Type())
		st.push(&Mem{kind: mAlloc, addr: t, pos: in.Pos()})
		x.set(p, fi, in, t)
	case *ssa.BinOp:
		return x.binop(fi, p, in)
	case *ssa.UnOp:
		return x.unop(fi, p, in)
	case *ssa.ChangeType:
		x.set(p, fi, in, x.changeType(V(in.X), in.Type()))
	case *ssa.Convert:
		x.set(p, fi, in, x.convert(p, V(in.X), in.Type()))
	case *ssa.MultiConvert:
		x.set(p, fi, in, x.convert(p, V(in.X), in.Type()))
	case *ssa.ChangeInterface:
		x.set(p, fi, in, V(in.X))
	case *ssa.SliceToArrayPointer:
		x.giveUp("%s: slice to array conversion", fname(fi.fn))
		x.set(p, fi, in, mkSym("arr", in.Type()))
	case *ssa.MakeInterface:
		v := V(in.X)
		if x.inv != nil {
			x.inv.boxed(x, p.st, v, in.X.Type(), fi.fn, in.Pos())
		}
		x.set(p, fi, in, mkIface(v, in.X.Type()))
	case *ssa.MakeClosure:
		bs := make([]*Term, len(in.Bindings))
		for i, b := range in.Bindings {
			bs[i] = V(b)
		}
		x.set(p, fi, in, mkClosure(in.Fn.(*ssa.Function), bs))
	case *ssa.MakeMap:
		t := mkAlloc("map", in.Type())
		if in.Reserve != nil {
			x.allocSize(p, fi, in, V(in.Reserve))
		}
		st.push(&Mem{kind: mAlloc, addr: t, pos: in.Pos()})
		x.set(p, fi, in, t)
	case *ssa.MakeChan:
		x.set(p, fi, in, mkAlloc("chan", in.Type()))
		st.event(&Event{kind: "makechan", pos: in.Pos()})
	case *ssa.MakeSlice:
		n := V(in.Len)
		c := V(in.Cap)
		if !x.oblige(p, fi, in, "negative make length", mkGe0(linOf(n))) {
			return nil
		}
		if c != n && !x.oblige(p, fi, in, "make length beyond capacity", mkGe0(linSub(linOf(c), linOf(n)))) {
			return nil
		}
		x.allocSize(p, fi, in, c)
		arr := mkAlloc("array", in.Type())
		madeLen[arr] = n
		st.push(&Mem{kind: mAlloc, addr: arr, pos: in.Pos()})
		x.set(p, fi, in, mk(OSlice, in.Type(), "", false, arr, mkInt(0), n))
	case *ssa.Slice:
		return x.slice(fi, p, in)
	case *ssa.FieldAddr:
		b := V(in.X)
		if !x.requireNonNil(p, fi, in, b, "dereference") {
			return nil
		}
		x.set(p, fi, in, mkFieldAddr(b, in.Field, in.Type()))
	case *ssa.Field:
		x.set(p, fi, in, mkField(V(in.X), in.Field, in.Type()))
	case *ssa.IndexAddr:
		b, i := V(in.X), V(in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if !x.requireNonNil(p, fi, in, b, "dereference") {
				return nil
			}
		}
		if !x.requireRange(p, fi, in, i, mkLen(b), "index") {
			return nil
		}
		x.set(p, fi, in, mkIndexAddr(b, i, in.Type()))
	case *ssa.Index:
		b, i := V(in.X), V(in.Index)
		if !x.requireRange(p, fi, in, i, mkLen(b), "index") {
			return nil
		}
		if b.op == OStruct {
			if n, ok := i.intConst(); ok {
				x.set(p, fi, in, b.args[n])
				break
			}
		}
		x.set(p, fi, in, mkIndex(b, i, in.Type()))
	case *ssa.Lookup:
		return x.lookup(fi, p, in)
	case *ssa.Range:
		it := mkSym("iter", nil)
		x.rngs[it] = V(in.X)
		x.set(p, fi, in, it)
	case *ssa.Next:
		return x.next(fi, p, in)
	case *ssa.TypeAssert:
		return x.typeAssert(fi, p, in)
	case *ssa.Extract:
		t := V(in.Tuple)
		if t.op == OTuple {
			x.set(p, fi, in, t.args[in.Index])
		} else {
			x.giveUp("%s: extract of %s", fname(fi.fn), t)
			x.set(p, fi, in, mkSym("extract", in.Type()))
		}
	case *ssa.Store:
		a := V(in.Addr)
		if !x.requireNonNil(p, fi, in, a, "store") {
			return nil
		}
		st.store(a, V(in.Val), in.Val.Type(), in.Pos(), fname(fi.fn))
	case *ssa.MapUpdate:
		m := V(in.Map)
		if !x.requireNonNil(p, fi, in, m, "map write") {
			return nil
		}
		st.push(&Mem{kind: mMapUpd, addr: m, key: V(in.Key), val: V(in.Value), class: mapClass(in.Map.Type()), pos: in.Pos(), fn: fname(fi.fn)})
	case *ssa.RunDefers:
		return x.runDefers(fi, p)
	case *ssa.Defer:
		d := &deferRec{call: &in.Call, pos: in.Pos(), prev: p.defers}
		for _, a := range in.Call.Args {
			d.args = append(d.args, V(a))
		}
		d.fn = V2(x, p, fi, in.Call.Value)
		p.defers = d
	case *ssa.Go:
		st.event(&Event{kind: "go", pos: in.Pos(), name: in.Call.String()})
	case *ssa.Send:
		st.event(&Event{kind: "send", pos: in.Pos()})
	case *ssa.Select:
		st.event(&Event{kind: "select", pos: in.Pos()})
		x.set(p, fi, in, x.freshOf("select", in.Type()))
	case *ssa.Call:
		return x.callInstr(fi, p, in)
	default:
		x.giveUp("%s: instruction %T", fname(fi.fn), in)
		if v, ok := in.(ssa.Value); ok {
			x.set(p, fi, v, x.freshOf("unknown", v.Type()))
		}
	}
	return one
}

func V2(x *Interp, p *path, fi *funcInfo, v ssa.Value) *Term { return x.val(p, fi, v) }

func allocName(in *ssa.Alloc) string {
	n := in.Comment
	if n == "" {
		n = "obj"
	}
	return n
}

func (x *Interp) freshOf(name string, t types.Type) *Term {
	if tt, ok := t.(*types.Tuple); ok {
		ts := make([]*Term, tt.Len())
		for i := range ts {
			ts[i] = x.freshOf(name, tt.At(i).Type())
		}
		return mkTuple(ts...)
	}
	return expandStruct(mkSym(name, t), t)
}

func expandStruct(v *Term, t types.Type) *Term {
	if t == nil {
		return v
	}
	if st, ok := t.Underlying().(*types.Struct); ok && v.op != OStruct {
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fs[i] = expandStruct(mkField(v, i, st.Field(i).Type()), st.Field(i).Type())
		}
		return mkStruct(t, fs)
	}
	return v
}

// allocSize: the size of an allocation must not exceed a length that exists already
func (x *Interp) allocSize(p *path, fi *funcInfo, in ssa.Instruction, n *Term) {
	cond := mkBool(true)
	if _, ok := n.intConst(); !ok {
		ok := false
		for _, l := range lenAtoms(p, n) {
			for _, k := range []int64{1, 2, 4} {
				if p.st.facts.entails(linSub(linAdd(linScale(linOf(l), k), linConst(64)), linOf(n))) {
					ok = true
				}
			}
			if ok {
				break
			}
		}
		cond = mkBool(ok)
	}
	save := p.st.facts
	x.oblige(p, fi, in, "allocation size not bounded by existing data", cond)
	p.st.facts = save
}

func lenAtoms(p *path, n *Term) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	add := func(t *Term) {
		t.walk(func(u *Term) {
			if u.op == OLen && !seen[u] {
				seen[u] = true
				r = append(r, u)
			}
		})
	}
	add(n)
	for _, l := range p.st.facts.relevant(linOf(n)) {
		for _, v := range l.vs {
			add(v.t)
		}
	}
	return r
}

func (x *Interp) changeType(t *Term, typ types.Type) *Term {
	return t
}

// fits reports whether the integer value of t lies in the range of typ
func (x *Interp) fits(p *path, l *Lin, typ types.Type) bool {
	b := typeRange(typ)
	if u, ok := typ.Underlying().(*types.Basic); ok {
		switch u.Kind() {
		case types.Int, types.Int64, types.UntypedInt:
			return true
		}
	}
	if b.hasLo && !p.st.facts.entails(linSub(l, linConst(b.lo))) {
		return false
	}
	if b.hasHi {
		return p.st.facts.entails(linSub(linConst(b.hi), l))
	}
	return p.st.facts.entails(linSub(linConst(1<<62), l))
}

func (x *Interp) convert(p *path, t *Term, typ types.Type) *Term {
	from := t.typ
	if isInteger(typ) && (isInteger(from) || t.op == OLin) {
		if n, ok := t.intConst(); ok {
			if x.fits(p, linConst(n), typ) {
				return mkInt(n)
			}
		}
		// int64 and int hold everything but large uint64 values
		if u, ok := typ.Underlying().(*types.Basic); ok && (u.Kind() == types.Int || u.Kind() == types.Int64) {
			if fb, ok := from.Underlying().(*types.Basic); ok {
				switch fb.Kind() {
				case types.Uint64, types.Uint, types.Uintptr:
					if !p.st.facts.entails(linSub(linConst(1<<62), linOf(t))) {
						return mk(OConv, typ, "", true, t)
					}
				}
			}
			return t
		}
		if fr := typeRange(from); fr.hasLo {
			tr := typeRange(typ)
			if (!tr.hasLo || tr.lo <= fr.lo) && (!tr.hasHi || (fr.hasHi && fr.hi <= tr.hi)) {
				return t
			}
		}
		if x.fits(p, linOf(t), typ) {
			return t
		}
		return mk(OConv, typ, "", true, t)
	}
	if from != nil && types.Identical(from.Underlying(), typ.Underlying()) {
		return t
	}
	if t.op == OConst && t.cval == nil && t.aux == "nil" && isString(typ) {
		return mkStr("")
	}
	// string(b) of a constant etc.
	if t.op == OConv && t.args[0].typ != nil && isBytesOrString(t.typ) && isBytesOrString(t.args[0].typ) && isBytesOrString(typ) {
		inner := t.args[0]
		if types.Identical(inner.typ.Underlying(), typ.Underlying()) {
			return inner
		}
		return x.convert(p, inner, typ)
	}
	if s, ok := t.strConst(); ok && isString(typ) {
		return mkStr(s)
	}
	if isString(typ) && isInteger(from) {
		if n, ok := t.intConst(); ok {
			return mkStr(string(rune(n)))
		}
	}
	// string([]byte) depends on the contents of the slice
	if isString(typ) && isBytesOrString(from) && !isString(from) {
		if n, ok := mkLen(t).intConst(); ok && n == 0 {
			return mkStr("")
		}
	}
	return mk(OConv, typ, "", true, t)
}

func (x *Interp) binop(fi *funcInfo, p *path, in *ssa.BinOp) []*path {
	a, b := x.val(p, fi, in.X), x.val(p, fi, in.Y)
	typ := in.X.Type()
	one := []*path{p}
	set := func(t *Term) []*path { x.set(p, fi, in, t); return one }
	switch in.Op {
	case token.EQL, token.NEQ:
		var c *Term
		if st, ok := typ.Underlying().(*types.Struct); ok && a.op == OStruct && b.op == OStruct {
			_ = st
			c = mk(OBin, types.Typ[types.Bool], "==", false, a, b)
		} else {
			c = mkEq(p.st.facts.subst(a), p.st.facts.subst(b))
			if v := p.st.facts.eval(mkEq(a, b)); v >= 0 {
				c = mkBool(v == 1)
			}
		}
		if in.Op == token.NEQ {
			c = mkNot(c)
		}
		return set(c)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := in.Op
		if op == token.GTR {
			a, b, op = b, a, token.LSS
		} else if op == token.GEQ {
			a, b, op = b, a, token.LEQ
		}
		if isInteger(typ) {
			d := linSub(linOf(b), linOf(a))
			if op == token.LSS {
				d = linAdd(d, linConst(-1))
			}
			return set(mkGe0(d))
		}
		// a <= b  is  !(b < a) for strings
		if isString(typ) && op == token.LEQ {
			return set(mkNot(mk(OBin, types.Typ[types.Bool], "<", false, b, a)))
		}
		return set(mk(OBin, types.Typ[types.Bool], op.String(), false, a, b))
	}
	if isString(typ) && in.Op == token.ADD {
		return set(mkConcat(a, b))
	}
	if isInteger(typ) {
		var l *Lin
		switch in.Op {
		case token.ADD:
			l = linAdd(linOf(a), linOf(b))
		case token.SUB:
			l = linSub(linOf(a), linOf(b))
		case token.MUL:
			if n, ok := a.intConst(); ok {
				l = linScale(linOf(b), n)
			} else if n, ok := b.intConst(); ok {
				l = linScale(linOf(a), n)
			}
		case token.SHL:
			if n, ok := b.intConst(); ok && n >= 0 && n < 40 {
				l = linScale(linOf(a), 1<<uint(n))
			}
		case token.QUO, token.REM:
			nz := mkNot(mkEq0(linOf(b)))
			if x.knownNonZero(b) {
				if f, ok := p.st.facts.assume(nz, true); ok {
					p.st.facts = f
				}
			}
			if !x.oblige(p, fi, in, "division by zero", nz) {
				return nil
			}
			if na, ok := a.intConst(); ok {
				if nb, ok := b.intConst(); ok && nb != 0 {
					if in.Op == token.QUO {
						return set(mkInt(na / nb))
					}
					return set(mkInt(na % nb))
				}
			}
			t := mk(OBin, in.Type(), in.Op.String(), true, a, b)
			// 0 <= a/b <= a and 0 <= a%b < b for non-negative a and positive b
			f := p.st.facts
			if f.entails(linOf(a)) && f.entails(linAdd(linOf(b), linConst(-1))) {
				g := f.clone()
				g.addLin(linOf(t))
				g.addLin(linSub(linOf(a), linOf(t)))
				if in.Op == token.REM {
					g.addLin(linAdd(linSub(linOf(b), linOf(t)), linConst(-1)))
				} else if n, ok := b.intConst(); ok {
					// n*t <= a <= n*t + n-1
					g.addLin(linSub(linOf(a), linScale(linOf(t), n)))
					g.addLin(linAdd(linSub(linScale(linOf(t), n), linOf(a)), linConst(n-1)))
				}
				p.st.facts = g
			}
			return set(t)
		}
		if l != nil && !l.over && x.fits(p, l, in.Type()) {
			return set(mkLin(l))
		}
		t := mk(OBin, in.Type(), in.Op.String(), true, a, b)
		if in.Op == token.AND {
			for _, o := range []*Term{a, b} {
				if n, ok := o.intConst(); ok && n >= 0 {
					g := p.st.facts.clone()
					g.addLin(linOf(t))
					g.addLin(linSub(linConst(n), linOf(t)))
					p.st.facts = g
				}
			}
		}
		return set(t)
	}
	return set(mk(OBin, in.Type(), in.Op.String(), true, a, b))
}

func (x *Interp) unop(fi *funcInfo, p *path, in *ssa.UnOp) []*path {
	a := x.val(p, fi, in.X)
	switch in.Op {
	case token.NOT:
		x.set(p, fi, in, mkNot(a))
	case token.SUB:
		if isInteger(in.Type()) {
			l := linScale(linOf(a), -1)
			if x.fits(p, l, in.Type()) {
				x.set(p, fi, in, mkLin(l))
				break
			}
		}
		x.set(p, fi, in, mk(OBin, in.Type(), "neg", true, a))
	case token.MUL: // load
		if !x.requireNonNil(p, fi, in, a, "dereference") {
			return nil
		}
		x.set(p, fi, in, p.st.load(a, in.Type()))
	case token.ARROW:
		p.st.event(&Event{kind: "recv", pos: in.Pos()})
		x.set(p, fi, in, x.freshOf("recv", in.Type()))
	default:
		x.set(p, fi, in, mk(OBin, in.Type(), "un"+in.Op.String(), true, a))
	}
	return []*path{p}
}

func (x *Interp) slice(fi *funcInfo, p *path, in *ssa.Slice) []*path {
	a := x.val(p, fi, in.X)
	n := mkLen(a)
	ptr := false
	if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		ptr = true
		if !x.requireNonNil(p, fi, in, a, "dereference") {
			return nil
		}
	}
	lo, hi := mkInt(0), n
	if in.Low != nil {
		lo = x.val(p, fi, in.Low)
	}
	if in.High != nil {
		hi = x.val(p, fi, in.High)
	}
	if in.Max != nil {
		max := x.val(p, fi, in.Max)
		if !x.oblige(p, fi, in, "slice capacity out of range", mkGe0(linSub(linOf(n), linOf(max)))) || !x.oblige(p, fi, in, "slice end beyond capacity", mkGe0(linSub(linOf(max), linOf(hi)))) {
			return nil
		}
	}
	if in.Low != nil && !x.oblige(p, fi, in, "slice start negative", mkGe0(linOf(lo))) {
		return nil
	}
	if in.High != nil {
		limit := n
		if !isString(in.X.Type()) && !ptr {
			if a.op != OSlice || a.args[0].op != OAlloc {
				// up to the capacity; only the length is tracked, which is stricter
				limit = n
			}
		}
		if !x.oblige(p, fi, in, "slice end out of range", mkGe0(linSub(linOf(limit), linOf(hi)))) {
			return nil
		}
	}
	if !x.oblige(p, fi, in, "slice start beyond end", mkGe0(linSub(linOf(hi), linOf(lo)))) {
		return nil
	}
	if in.Max != nil && p.st.facts.eval(mkEq0(linSub(linOf(x.val(p, fi, in.Max)), linOf(lo)))) == 1 {
		// no room for anything: what is appended goes elsewhere
		x.set(p, fi, in, mkNil(in.Type()))
		return []*path{p}
	}
	if isString(in.Type()) && in.Low == nil && in.High != nil && p.st.facts.eval(mkEq0(linSub(linOf(n), linOf(hi)))) == 1 {
		x.set(p, fi, in, a)
		return []*path{p}
	}
	x.set(p, fi, in, mkSlice(a, lo, hi, in.Type()))
	return []*path{p}
}

func (x *Interp) split(p *path, c *Term) (yes, no *path) {
	if f, ok := p.st.facts.assume(c, true); ok {
		yes = p.clone()
		yes.st.facts = f
	}
	if f, ok := p.st.facts.assume(c, false); ok {
		no = p.clone()
		no.st.facts = f
	}
	return
}

func (x *Interp) lookup(fi *funcInfo, p *path, in *ssa.Lookup) []*path {
	m, k := x.val(p, fi, in.X), x.val(p, fi, in.Index)
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok { // string indexing
		if !x.requireRange(p, fi, in, k, mkLen(m), "index") {
			return nil
		}
		x.set(p, fi, in, mkIndex(m, k, in.Type()))
		return []*path{p}
	}
	has, val, cond := p.st.mapLookup(m, k, mt)
	if cond != nil {
		y, n := x.split(p, cond)
		var r []*path
		for _, q := range []*path{y, n} {
			if q != nil {
				r = append(r, x.lookup(fi, q, in)...)
			}
		}
		return r
	}
	if in.CommaOk {
		x.set(p, fi, in, mkTuple(val, has))
	} else {
		x.set(p, fi, in, val)
	}
	return []*path{p}
}

func (x *Interp) next(fi *funcInfo, p *path, in *ssa.Next) []*path {
	it := x.val(p, fi, in.Iter)
	m := x.rngs[it]
	var r []*path
	// done
	q := p.clone()
	tt := in.Type().(*types.Tuple)
	x.set(q, fi, in, mkTuple(mkBool(false), zeroOrUnit(tt.At(1).Type()), zeroOrUnit(tt.At(2).Type())))
	if in.IsString {
		idx := mkSym("idx", types.Typ[types.Int])
		ch := mkCall("range rune", 0, types.Typ[types.Rune], m, idx)
		if f, ok := q.st.facts.assume(mkCall("range end", 0, types.Typ[types.Bool], m, idx), true); ok {
			q.st.facts = f
		}
		f, ok := p.st.facts.assume(mkGe0(linOf(idx)), true)
		if ok {
			f, ok = f.assume(mkGe0(linAdd(linSub(linOf(mkLen(m)), linOf(idx)), linConst(-1))), true)
		}
		if ok {
			f, ok = f.assume(mkGe0(linOf(ch)), true)
		}
		for _, phi := range rangeMarks(fi, in) {
			n := p.env[fi.index[phi]]
			if n == nil {
				continue
			}
			g := q.st.facts.clone()
			g.addLin(linSub(linOf(mkLen(m)), linOf(n)))
			q.st.facts = g
			if ok {
				f = f.clone()
				f.addLin(linSub(linOf(idx), linOf(n)))
			}
		}
		if ok {
			y := p.clone()
			y.st.facts = f
			x.set(y, fi, in, mkTuple(mkBool(true), idx, ch))
			r = append(r, y)
		}
		return append(r, q)
	}
	mt, ok := m.typ.Underlying().(*types.Map)
	if !ok { // nil
		return append(r, q)
	}
	k := mkSym("key", mt.Key())
	x.rngs[k] = m
	x.nexts[k] = in
	if f, ok := q.st.facts.assume(mkCall("range end", 0, types.Typ[types.Bool], m, k), true); ok {
		q.st.facts = f
	}
	has, val, cond := p.st.mapLookup(m, k, mt)
	if cond != nil {
		// some keys were written inside this loop: the value is unknown
		ver := strconv.Itoa(tick())
		has = mk(OMapHas, types.Typ[types.Bool], ver, false, m, k)
		val = p.st.expand(mk(OMapGet, mt.Elem(), ver, false, m, k), mt.Elem())
	}
	if f, ok := p.st.facts.assume(has, true); ok {
		y := p.clone()
		y.st.facts = f
		for _, phi := range rangeCounters(fi, in) {
			n := p.env[fi.index[phi]]
			if n == nil {
				continue
			}
			g := y.st.facts.clone()
			g.addLin(linAdd(linSub(linOf(p.st.mapLen(m)), linOf(n)), linConst(-1)))
			y.st.facts = g
		}
		x.set(y, fi, in, mkTuple(mkBool(true), k, val))
		r = append(r, y)
	}
	return append(r, q)
}

// rangeMarks lists the variables of a range over a string that start at 0 and are only ever set to
// the position of an iteration or the one behind it: they never pass the position of a later
// iteration, nor the end of the string
func rangeMarks(fi *funcInfo, in *ssa.Next) (r []*ssa.Phi) {
	l := fi.heads[in.Block()]
	if l == nil {
		return nil
	}
	isIndex := func(v ssa.Value) bool {
		e, ok := v.(*ssa.Extract)
		return ok && e.Tuple == in && e.Index == 1
	}
	for _, i := range in.Block().Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := phi.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
			continue
		}
		seen := map[ssa.Value]bool{phi: true}
		var marks func(v ssa.Value) bool
		marks = func(v ssa.Value) bool {
			if seen[v] || isIndex(v) {
				return true
			}
			switch v := v.(type) {
			case *ssa.Phi:
				if !l.blocks[v.Block()] {
					return false
				}
				seen[v] = true
				for _, e := range v.Edges {
					if !marks(e) {
						return false
					}
				}
				return true
			case *ssa.BinOp:
				c, ok := v.Y.(*ssa.Const)
				return ok && v.Op == token.ADD && isIndex(v.X) && c.Value != nil && c.Int64() == 1
			}
			return false
		}
		all := true
		for j, e := range phi.Edges {
			if l.blocks[in.Block().Preds[j]] {
				all = all && marks(e)
			} else {
				c, ok := e.(*ssa.Const)
				all = all && ok && c.Value != nil && c.Int64() == 0
			}
		}
		if all {
			r = append(r, phi)
		}
	}
	return
}

// rangeCounters lists the variables of a range over a map that count its iterations from 0,
// when the loop cannot change a map of that type
func rangeCounters(fi *funcInfo, in *ssa.Next) (r []*ssa.Phi) {
	rg, ok := in.Iter.(*ssa.Range)
	l := fi.heads[in.Block()]
	if !ok || l == nil {
		return nil
	}
	for b := range l.blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.MapUpdate:
				if types.Identical(i.Map.Type().Underlying(), rg.X.Type().Underlying()) {
					return nil
				}
			case ssa.CallInstruction:
				if bi, ok := i.Common().Value.(*ssa.Builtin); !ok || bi.Name() != "append" && bi.Name() != "len" && bi.Name() != "cap" {
					return nil
				}
			}
		}
	}
	for _, i := range in.Block().Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInteger(phi.Type()) {
			continue
		}
		counts := true
		for j, e := range phi.Edges {
			if l.blocks[in.Block().Preds[j]] {
				add, ok := e.(*ssa.BinOp)
				one := ok && add.Op == token.ADD && add.X == phi
				if one {
					c, ok := add.Y.(*ssa.Const)
					one = ok && c.Value != nil && c.Int64() == 1
				}
				counts = counts && (one || e == phi)
			} else {
				c, ok := e.(*ssa.Const)
				counts = counts && ok && c.Value != nil && c.Int64() == 0
			}
		}
		if counts {
			r = append(r, phi)
		}
	}
	return
}

func zeroOrUnit(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return mkInt(0)
	}
	return zeroValue(t)
}

func (x *Interp) typeAssert(fi *funcInfo, p *path, in *ssa.TypeAssert) []*path {
	v := x.val(p, fi, in.X)
	var res *Term
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	if v.op == OIface {
		var ok bool
		if toIface {
			ok = types.Implements(v.typ, in.AssertedType.Underlying().(*types.Interface))
			res = v
		} else {
			ok = types.Identical(v.typ, in.AssertedType)
			res = v.args[0]
		}
		if in.CommaOk {
			if ok {
				x.set(p, fi, in, mkTuple(res, mkBool(true)))
			} else {
				x.set(p, fi, in, mkTuple(zeroValue(in.AssertedType), mkBool(false)))
			}
			return []*path{p}
		}
		if !x.oblige(p, fi, in, "type assertion", mkBool(ok)) {
			return nil
		}
		x.set(p, fi, in, res)
		return []*path{p}
	}
	cond := mk(OIsTyp, in.AssertedType, "", true, v)
	res = mk(OUnIface, in.AssertedType, "", true, v)
	if toIface {
		res = v
	}
	res = expandStruct(res, in.AssertedType)
	if !in.CommaOk {
		if !x.oblige(p, fi, in, "type assertion", cond) {
			return nil
		}
		x.set(p, fi, in, res)
		return []*path{p}
	}
	y, n := x.split(p, cond)
	var r []*path
	if y != nil {
		if f, ok := y.st.facts.assume(mkIsNil(v), false); ok {
			y.st.facts = f
			x.set(y, fi, in, mkTuple(res, mkBool(true)))
			r = append(r, y)
		}
	}
	if n != nil {
		x.set(n, fi, in, mkTuple(zeroValue(in.AssertedType), mkBool(false)))
		r = append(r, n)
	}
	return r
}

func (x *Interp) runDefers(fi *funcInfo, p *path) []*path {
	cur := []*path{p}
	var done []*path
	for len(cur) > 0 {
		var next []*path
		for _, q := range cur {
			d := q.defers
			if d == nil {
				done = append(done, q)
				continue
			}
			q.defers = d.prev
			next = append(next, x.dispatch(fi, q, d.call, d.fn, d.args, d.pos, nil)...)
		}
		cur = next
	}
	return done
}

// ---- loops

type modSet struct {
	addrs  map[*Term]*Mem // invariant cells or maps
	class  map[string]*Mem
	fresh  map[string]int // classes written only in objects born in the loop
	all    bool
	allKp  map[*Term]bool
	allHd  map[*Term]bool
	copies bool
}

func (ms *modSet) init() {
	if ms.addrs == nil {
		ms.addrs = map[*Term]*Mem{}
		ms.class = map[string]*Mem{}
		ms.fresh = map[string]int{}
	}
}

// collect adds the writes made since stop; born > 0: terms with a larger birth time vary
func (ms *modSet) collect(st *State, stop *Mem, born int) bool {
	ms.init()
	grew := false
	for m := st.mem; m != stop && m != nil; m = m.prev {
		switch m.kind {
		case mStore, mMapUpd, mMapDel, mHavocAddr:
			a := m.addr
			if born > 0 && a.seq > born {
				root := rootPtr(a)
				if root.op == OAlloc && root.seq > born {
					// a new object of this iteration
					if _, ok := ms.fresh[m.class]; !ok {
						ms.fresh[m.class] = born
						grew = true
					}
					continue
				}
				if ms.class[m.class] == nil {
					ms.class[m.class] = m
					grew = true
				}
				continue
			}
			if ms.addrs[a] == nil {
				ms.addrs[a] = m
				grew = true
			}
		case mHavocClass:
			if m.fresh > 0 {
				if f, ok := ms.fresh[m.class]; !ok || f > m.fresh {
					ms.fresh[m.class] = m.fresh
					grew = true
				}
				continue
			}
			if ms.class[m.class] == nil {
				ms.class[m.class] = m
				grew = true
			}
		case mCopy:
			root := m.addr
			if root.op == OSlice {
				root = root.args[0]
			}
			if root.op == OAlloc && born > 0 && root.seq > born {
				if _, ok := ms.fresh[m.class]; !ok {
					ms.fresh[m.class] = born
					grew = true
				}
				continue
			}
			if ms.class[m.class] == nil {
				ms.class[m.class] = m
				grew = true
			}
		case mHavocAll:
			if !ms.all {
				ms.all = true
				ms.allKp = m.keep
				ms.allHd = m.held
				grew = true
			} else {
				if hd := commonHeld(ms.allHd, m.held); len(hd) < len(ms.allHd) {
					ms.allHd = hd
					grew = true
				}
				for k := range ms.allKp {
					if !m.keep[k] {
						nk := map[*Term]bool{}
						for k2 := range ms.allKp {
							if m.keep[k2] {
								nk[k2] = true
							}
						}
						ms.allKp = nk
						grew = true
						break
					}
				}
			}
		}
	}
	return grew
}

func (ms *modSet) apply(st *State) {
	ms.init()
	if ms.all {
		st.push(&Mem{kind: mHavocAll, keep: ms.allKp, held: ms.allHd})
	}
	var cs []string
	for c := range ms.class {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		st.push(&Mem{kind: mHavocClass, class: c, pos: ms.class[c].pos, fn: ms.class[c].fn})
	}
	cs = nil
	for c := range ms.fresh {
		if ms.class[c] == nil {
			cs = append(cs, c)
		}
	}
	sort.Strings(cs)
	for _, c := range cs {
		st.push(&Mem{kind: mHavocClass, class: c, fresh: ms.fresh[c]})
	}
	var as []*Term
	for a, m := range ms.addrs {
		if ms.class[m.class] == nil {
			as = append(as, a)
		}
	}
	sortTerms(as)
	for _, a := range as {
		m := ms.addrs[a]
		st.push(&Mem{kind: mHavocAddr, addr: a, class: m.class, pos: m.pos, fn: m.fn})
	}
}

type candidate struct {
	name string
	cond func(p *path) *Term // evaluated at the loop header
}

func (x *Interp) runLoop(fi *funcInfo, l *loopInfo, p *path) *regionOut {
	if o := x.unroll(fi, l, p); o != nil {
		return o
	}
	if x.inv != nil && x.peelable(fi, l, p) {
		return x.peel(fi, l, p)
	}
	return x.runLoop1(fi, l, p)
}

// peelable: a pointer variable of the loop starts nil
func (x *Interp) peelable(fi *funcInfo, l *loopInfo, p *path) bool {
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			return false
		}
		if _, ok := phi.Type().Underlying().(*types.Pointer); ok {
			if v := x.val(p, fi, phi); v != nil && v.isNil() {
				return true
			}
		}
	}
	return false
}

// peel executes the first iteration on its own
func (x *Interp) peel(fi *funcInfo, l *loopInfo, p *path) *regionOut {
	o := x.region(fi, l, l.header, []*path{p.clone()})
	res := &regionOut{exits: o.exits, rets: o.rets}
	for _, q := range o.back {
		o := x.runLoop1(fi, l, q)
		res.rets = append(res.rets, o.rets...)
		for to, qs := range o.exits {
			res.exits[to] = append(res.exits[to], qs...)
		}
	}
	return res
}

func (x *Interp) runLoop1(fi *funcInfo, l *loopInfo, p *path) *regionOut {
	x.loopsSeen++
	var phis []*ssa.Phi
	var inits []*Term
	for _, in := range l.header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis = append(phis, phi)
			inits = append(inits, x.val(p, fi, phi))
		}
	}
	ms := &modSet{}
	ms.init()
	dropped := map[string]bool{}
	born := tick()
	for round := 0; ; round++ {
		if round > 14 {
			x.giveUp("%s: loop at %s does not stabilise", fname(fi.fn), x.p.pos(loopPos(l)))
			return &regionOut{exits: map[*ssa.BasicBlock][]*path{}}
		}
		h := p.clone()
		syms := make([]*Term, len(phis))
		ms.apply(h.st)
		for i, phi := range phis {
			syms[i] = mkSym(phiName(phi), phi.Type())
			x.set(h, fi, phi, expandStruct(syms[i], phi.Type()))
		}
		cands := x.candidates(fi, l, p, h, phis, inits, ms)
		// base case
		var live []candidate
		for _, c := range cands {
			if dropped[c.name] {
				continue
			}
			if p.st.facts.eval(c.cond(p)) != 1 {
				dropped[c.name] = true
				continue
			}
			live = append(live, c)
		}
		feasible := true
		for _, c := range live {
			f, ok := h.st.facts.assume(c.cond(h), true)
			if !ok {
				feasible = false
				break
			}
			h.st.facts = f
		}
		if !feasible {
			x.giveUp("%s: loop at %s: contradictory invariant", fname(fi.fn), x.p.pos(loopPos(l)))
			return &regionOut{exits: map[*ssa.BasicBlock][]*path{}}
		}
		mark := h.st.mem
		h.st.ev = nil
		h.st.event(&Event{kind: "iteration"})
		start := h.st.clone()
		x.sinks = append(x.sinks, newSink())
		savedUnd := len(x.undecided)
		o := x.region(fi, l, l.header, []*path{h})
		sk := x.sink()
		x.sinks = x.sinks[:len(x.sinks)-1]
		// does the assumption cover what the iteration does?
		stable := true
		for _, q := range o.back {
			if ms.collect(q.st, mark, born) {
				stable = false
			}
			for _, c := range live {
				if !dropped[c.name] && q.st.facts.eval(c.cond(q)) != 1 {
					dropped[c.name] = true
					stable = false
				}
			}
		}
		if !stable {
			x.undecided = x.undecided[:savedUnd]
			continue
		}
		x.sink().merge(sk)
		rec := &LoopRec{fn: fi.fn, header: l.header, pos: loopPos(l), entry: p.st, start: start, phis: phis, init: inits, sym: syms}
		for _, c := range live {
			rec.inv = append(rec.inv, c.name)
		}
		for _, q := range o.back {
			rec.back = append(rec.back, q.st)
			var nx []*Term
			for _, phi := range phis {
				nx = append(nx, x.val(q, fi, phi))
			}
			rec.next = append(rec.next, nx)
			if x.onBack != nil {
				x.onBack(fi.fn, rec.pos, q.st, mark)
			}
		}
		// what leaves the loop sees the events before it, the loop, and its own iteration
		res := &regionOut{exits: map[*ssa.BasicBlock][]*path{}}
		relink := func(st *State) {
			own := st.events(start.ev)
			st.ev = p.st.ev
			st.event(&Event{kind: "loop", loop: rec, pos: rec.pos, mem: p.st.mem})
			for _, e := range own {
				c := *e
				st.event(&c)
			}
		}
		for to, qs := range o.exits {
			for _, q := range qs {
				rec.exits = append(rec.exits, q.st.clone())
				relink(q.st)
				res.exits[to] = append(res.exits[to], q)
			}
		}
		for _, r := range o.rets {
			c := *r
			c.st = r.st.clone()
			rec.rets = append(rec.rets, &c)
			relink(r.st)
			res.rets = append(res.rets, r)
		}
		return res
	}
}

func phiName(phi *ssa.Phi) string {
	if phi.Comment != "" {
		return phi.Comment
	}
	return phi.Name()
}

func loopPos(l *loopInfo) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

// unroll executes a loop whose exit condition is decided on every iteration
func (x *Interp) unroll(fi *funcInfo, l *loopInfo, p *path) *regionOut {
	last := l.header.Instrs[len(l.header.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return nil
	}
	inA, inB := l.blocks[l.header.Succs[0]], l.blocks[l.header.Succs[1]]
	if inA == inB {
		return nil
	}
	decided := func(q *path) bool {
		r := q.clone()
		x.sinks = append(x.sinks, newSink())
		defer func() { x.sinks = x.sinks[:len(x.sinks)-1] }()
		ps := []*path{r}
		for _, in := range l.header.Instrs[:len(l.header.Instrs)-1] {
			switch in := in.(type) {
			case *ssa.Phi:
				continue
			case *ssa.Next:
				return false
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
					return false
				}
			}
			ps = x.instr(fi, ps[0], in)
			if len(ps) != 1 {
				return false
			}
		}
		return ps[0].st.facts.eval(x.val(ps[0], fi, iff.Cond)) >= 0
	}
	if !decided(p) {
		return nil
	}
	res := &regionOut{exits: map[*ssa.BasicBlock][]*path{}}
	cur := []*path{p.clone()}
	x.sinks = append(x.sinks, newSink())
	okay := false
	for it := 0; it < 70; it++ {
		o := x.region(fi, l, l.header, cur)
		res.rets = append(res.rets, o.rets...)
		for to, qs := range o.exits {
			res.exits[to] = append(res.exits[to], qs...)
		}
		cur = o.back
		if len(cur) == 0 {
			okay = true
			break
		}
		if len(cur) > 96 {
			break
		}
		all := true
		for _, q := range cur {
			if !decided(q) {
				all = false
				break
			}
		}
		if !all {
			break
		}
	}
	sk := x.sink()
	x.sinks = x.sinks[:len(x.sinks)-1]
	if !okay {
		return nil
	}
	x.unrolled++
	x.sink().merge(sk)
	return res
}

// candidates proposes loop invariants
func (x *Interp) candidates(fi *funcInfo, l *loopInfo, p, h *path, phis []*ssa.Phi, inits []*Term, ms *modSet) []candidate {
	var r []candidate
	val := func(q *path, v ssa.Value) *Term { return x.val(q, fi, v) }
	var ints []*ssa.Phi
	for i, phi := range phis {
		phi, v0 := phi, inits[i]
		switch u := phi.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				ints = append(ints, phi)
				r = append(r,
					candidate{phi.Name() + ">=init", func(q *path) *Term { return mkGe0(linSub(linOf(val(q, phi)), linOf(v0))) }},
					candidate{phi.Name() + "<=init", func(q *path) *Term { return mkGe0(linSub(linOf(v0), linOf(val(q, phi)))) }})
			}
			if u.Info()&types.IsBoolean != 0 {
				r = append(r, candidate{phi.Name() + "=init", func(q *path) *Term { return mkEq(val(q, phi), v0) }})
			}
		case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Slice:
			r = append(r, candidate{phi.Name() + "!=nil", func(q *path) *Term { return mkNot(mkIsNil(val(q, phi))) }})
			if _, ok := u.(*types.Slice); ok {
				r = append(r, candidate{"len " + phi.Name() + ">=init", func(q *path) *Term {
					return mkGe0(linSub(linOf(mkLen(val(q, phi))), linOf(mkLen(v0))))
				}})
			}
			if pt, ok := u.(*types.Pointer); ok {
				if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
					r = append(r, x.fieldCands(phi.Name(), func(q *path) *Term { return val(q, phi) }, pt.Elem())...)
				}
			}
		}
	}
	// lengths of sequences available at the header
	var lens []*Term
	seen := map[*Term]bool{}
	for v, i := range fi.index {
		t := p.env[i]
		if t == nil || t.typ == nil || h.env[i] != t {
			continue
		}
		_ = v
		if isStrOrSlice(t.typ) {
			n := mkLen(t)
			if n.op != OConst && !seen[n] {
				seen[n] = true
				lens = append(lens, n)
			}
		}
		if isInteger(t.typ) && t.op != OConst && !seen[t] {
			seen[t] = true
			lens = append(lens, t)
		}
	}
	sortTerms(lens)
	if len(lens) > 14 {
		lens = lens[:14]
	}
	for _, phi := range ints {
		phi := phi
		for i, n := range lens {
			n := n
			r = append(r, candidate{fmt.Sprintf("%s<=len%d#%d", phi.Name(), i, n.id), func(q *path) *Term { return mkGe0(linSub(linOf(n), linOf(val(q, phi)))) }})
			if x.precise {
				for _, off := range []int64{1, 2} {
					off := off
					r = append(r, candidate{fmt.Sprintf("%s<=len%d#%d-%d", phi.Name(), i, n.id, off), func(q *path) *Term {
						return mkGe0(linAdd(linSub(linOf(n), linOf(val(q, phi))), linConst(-off)))
					}})
				}
			}
		}
		for _, ph2 := range ints {
			ph2 := ph2
			if ph2 != phi {
				r = append(r, candidate{phi.Name() + "<=" + ph2.Name(), func(q *path) *Term { return mkGe0(linSub(linOf(val(q, ph2)), linOf(val(q, phi)))) }})
			}
		}
		for _, sp := range phis {
			sp := sp
			if isStrOrSlice(sp.Type()) {
				r = append(r, candidate{phi.Name() + "<=len " + sp.Name(), func(q *path) *Term {
					return mkGe0(linSub(linOf(mkLen(val(q, sp))), linOf(val(q, phi))))
				}})
			}
		}
	}
	// havocked cells
	for a, m := range ms.addrs {
		if m.kind == mMapUpd || m.kind == mMapDel || strings.HasPrefix(m.class, "M:") {
			continue
		}
		a := a
		t := elemOf(a.typ)
		if t == nil {
			continue
		}
		ld := func(q *path) *Term { return q.st.load(a, t) }
		name := "cell" + strconv.Itoa(a.id)
		switch u := t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Interface, *types.Signature:
			r = append(r, candidate{name + "!=nil", func(q *path) *Term { return mkNot(mkIsNil(ld(q))) }})
			if pt, ok := u.(*types.Pointer); ok {
				if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
					r = append(r, x.fieldCands(name, ld, pt.Elem())...)
				}
			}
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				v0 := p.st.load(a, t)
				r = append(r,
					candidate{name + ">=init", func(q *path) *Term { return mkGe0(linSub(linOf(ld(q)), linOf(v0))) }},
					candidate{name + ">=-1", func(q *path) *Term { return mkGe0(linAdd(linOf(ld(q)), linConst(1))) }},
					candidate{name + ">=0", func(q *path) *Term { return mkGe0(linOf(ld(q))) }})
			}
		}
	}
	return r
}

// fieldCands: the reference fields of a struct that a variable points to stay non-nil
func (x *Interp) fieldCands(name string, ptr func(q *path) *Term, st types.Type) []candidate {
	var r []candidate
	s := st.Underlying().(*types.Struct)
	if !x.moduleType(st) {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		switch ft.Underlying().(type) {
		case *types.Pointer, *types.Map:
			i := i
			r = append(r, candidate{name + "." + s.Field(i).Name() + "!=nil", func(q *path) *Term {
				b := ptr(q)
				if b.isNil() {
					return mkBool(false)
				}
				return mkNot(mkIsNil(q.st.load(mkFieldAddr(b, i, types.NewPointer(ft)), ft)))
			}})
		}
	}
	return r
}

func (x *Interp) moduleType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func (x *Interp) knownNonZero(t *Term) bool { return x.inv != nil && x.inv.nonZero(t) }
