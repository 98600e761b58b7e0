package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lockset analysis: every exported operation is walked flow-sensitively, with its callees
// inlined. Values are sets of access paths (parameters, globals and allocation sites, followed
// by field, element and pointer selectors). The state at a program point is a set of alternatives,
// each with the locks that are held, the pending defers, and the allocations that have been
// published. Every access to memory that other goroutines can reach is recorded with the locks held.

// node is a memory cell or object, named by the path that leads to it
type node struct {
	parent *node
	sel    string
	owner  string // struct type that a field selector belongs to
	id     int
	alloc  bool
	depth  int
	typ    types.Type // of globals and parameters
	ctx    string     // of allocations: the calls that lead to them
}

type lockTab struct {
	nodes map[string]*node
	list  []*node
}

func (lt *lockTab) root(name string, alloc bool, typ types.Type) *node {
	k := "R" + name
	if n, ok := lt.nodes[k]; ok {
		return n
	}
	n := &node{sel: name, id: len(lt.list), alloc: alloc, typ: typ}
	lt.list = append(lt.list, n)
	lt.nodes[k] = n
	return n
}

func (lt *lockTab) child(p *node, sel, owner string) *node {
	if p.depth > 40 {
		return p
	}
	k := fmt.Sprint(p.id, "/", owner, "/", sel)
	if n, ok := lt.nodes[k]; ok {
		return n
	}
	n := &node{parent: p, sel: sel, owner: owner, id: len(lt.list), depth: p.depth + 1}
	lt.list = append(lt.list, n)
	lt.nodes[k] = n
	return n
}

func (n *node) top() *node {
	for n.parent != nil {
		n = n.parent
	}
	return n
}

func (n *node) String() string {
	if n.parent == nil {
		return n.sel
	}
	switch n.sel {
	case "*":
		return n.parent.String()
	case "[]":
		return n.parent.String() + "[]"
	}
	return n.parent.String() + "." + n.sel
}

// isPrefix: a is an ancestor of n, or n itself
func isPrefix(a, n *node) bool {
	for ; n != nil; n = n.parent {
		if n == a {
			return true
		}
	}
	return false
}

// suffixOf gives the selectors from a down to n
func suffixOf(a, n *node) string {
	s := ""
	for ; n != nil && n != a; n = n.parent {
		s = n.owner + ":" + n.sel + "/" + s
	}
	return s
}

// cellKey names the piece of state that a cell belongs to: "Type.field" and what hangs off it
func cellKey(n *node) (key string, obj *node) {
	s := ""
	for m := n; m != nil; m = m.parent {
		if m.owner != "" {
			return m.owner + "." + m.sel + s, m.parent
		}
		if m.parent == nil {
			if strings.HasPrefix(m.sel, "global ") {
				return m.sel + s, m
			}
			return "", m
		}
		s = m.sel + s
	}
	return "", nil
}

// pv is what a value may be: a pointer to (or a map, slice or interface denoting) node, or a function
type pv struct {
	n    *node
	fn   *ssa.Function
	bind []pset
	key  string
	dyn  types.Type // concrete type when boxed in an interface
}

type pset []pv

func (s pset) key() string {
	var ks []string
	for _, v := range s {
		ks = append(ks, v.str())
	}
	return strings.Join(ks, ",")
}

func (v pv) str() string {
	k := v.key
	if v.n != nil {
		k += fmt.Sprint("n", v.n.id)
	}
	if v.dyn != nil {
		k += "t" + typeStr(v.dyn)
	}
	return k
}

func union(a, b pset) pset {
	if len(a) == 0 {
		return b
	}
	m := map[string]bool{}
	for _, v := range a {
		m[v.str()] = true
	}
	r := a
	for _, v := range b {
		if !m[v.str()] {
			m[v.str()] = true
			r = append(r[:len(r):len(r)], v)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].str() < r[j].str() })
	return r
}

// held is one lock
type held struct {
	n   *node // the mutex cell
	w   bool
	pos token.Pos
}

type dfr struct {
	call *ssa.CallCommon
	fn   pset
	args []pset
	pos  token.Pos
}

// lst is one alternative at a program point
type lst struct {
	locks  []held
	defers []dfr
	esc    []*node // published allocations
}

func (s lst) key() string {
	var b strings.Builder
	for _, h := range s.locks {
		fmt.Fprint(&b, h.n.id, h.w, ";")
	}
	b.WriteByte('|')
	for _, d := range s.defers {
		fmt.Fprint(&b, d.pos, ";")
	}
	return b.String()
}

// full includes the published allocations, which are joined where paths meet
func (s lst) full() string {
	var b strings.Builder
	b.WriteString(s.key())
	b.WriteByte('|')
	for _, n := range s.esc {
		fmt.Fprint(&b, n.id, ";")
	}
	return b.String()
}

// join adds the published allocations of t
func (s lst) join(t lst) lst {
	for _, n := range t.esc {
		s = s.publish(n)
	}
	return s
}

func (s lst) with(h held) lst {
	s.locks = append(s.locks[:len(s.locks):len(s.locks)], h)
	return s
}

func (s lst) publish(n *node) lst {
	for _, m := range s.esc {
		if m == n {
			return s
		}
	}
	s.esc = append(s.esc[:len(s.esc):len(s.esc)], n)
	sort.Slice(s.esc, func(i, j int) bool { return s.esc[i].id < s.esc[j].id })
	return s
}

func (s lst) private(n *node) lst {
	var r []*node
	for _, m := range s.esc {
		if m.top() != n {
			r = append(r, m)
		}
	}
	s.esc = r
	return s
}

type access struct {
	key   string
	obj   *node // the object that holds the cell
	n     *node
	raw   *node // before following the publication of a fresh object
	write bool
	locks []held
	pos   token.Pos
	fn    *ssa.Function
	op    *ssa.Function
	user  bool // the caller of the operation, holding what it returned
}

type lockOrder struct {
	from, to string
	fn       *ssa.Function
	pos      token.Pos
	op       *ssa.Function
}

type lockProblem struct {
	rule, msg string
	fn        *ssa.Function
	pos       token.Pos
}

type lockAnalysis struct {
	p        *Program
	t        *lockTab
	op       *ssa.Function
	accesses []access
	seenAcc  map[string]bool
	orders   []lockOrder
	problems []lockProblem
	stores   map[*node]pset // what fresh cells hold
	pub      map[*node]pset // where an allocation was published
	changed  bool
	memo     map[string]*lockSummary
	stack    []*ssa.Function
	undec    []string
	nfuncs   map[*ssa.Function]bool
	acquires int
	bodies   int
	parent   map[string]string // call contexts
	cur      string
}

type lockSummary struct {
	exits []lst
	res   []pset
}

func newLockAnalysis(p *Program) *lockAnalysis {
	return &lockAnalysis{p: p, t: &lockTab{nodes: map[string]*node{}}, seenAcc: map[string]bool{}, nfuncs: map[*ssa.Function]bool{}}
}

func (a *lockAnalysis) giveUp(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	for _, u := range a.undec {
		if u == s {
			return
		}
	}
	a.undec = append(a.undec, s)
}

func (a *lockAnalysis) problem(rule string, fn *ssa.Function, pos token.Pos, format string, args ...interface{}) {
	for _, p := range a.problems {
		if p.rule == rule && p.pos == pos && p.fn == fn {
			return
		}
	}
	a.problems = append(a.problems, lockProblem{rule, fmt.Sprintf(format, args...), fn, pos})
}

// operation analyses one exported function
func (a *lockAnalysis) operation(f *ssa.Function) {
	a.op = f
	a.stores, a.pub = map[*node]pset{}, map[*node]pset{}
	a.parent = map[string]string{}
	var args []pset
	for i, v := range f.Params {
		name := fmt.Sprintf("arg%d(%s)", i, v.Name())
		if i == 0 && f.Signature.Recv() != nil {
			name = "receiver"
		}
		args = append(args, a.unknown(a.t.root(name, false, v.Type()), v.Type()))
	}
	var sum *lockSummary
	nacc, nord := len(a.accesses), len(a.orders)
	for round := 0; round < 8; round++ {
		a.accesses, a.orders = a.accesses[:nacc], a.orders[:nord]
		a.seenAcc = map[string]bool{}
		a.changed = false
		a.memo = map[string]*lockSummary{}
		sum = a.callFn(f, args, nil, lst{}, "")
		if !a.changed {
			break
		}
	}
	for _, e := range sum.exits {
		for _, h := range e.locks {
			a.problem("held-at-return", f, h.pos, "%s is still held when %s returns", lockName(h.n), fname(f))
		}
	}
	// what is handed out is read by the caller without any lock
	for i, r := range sum.res {
		t := f.Signature.Results().At(i).Type()
		for _, e := range sum.exits {
			a.reads(e, r, t, f, f.Pos(), true, 0)
			break
		}
	}
}

// unknown is the value of a root or of a cell whose content is not known
func (a *lockAnalysis) unknown(n *node, t types.Type) pset {
	return pset{{n: n}}
}

func lockName(n *node) string {
	k, _ := cellKey(n)
	return k
}

// access records that a cell is read or written
func (a *lockAnalysis) access(s lst, n *node, write bool, fn *ssa.Function, pos token.Pos, user bool) {
	top := n.top()
	ns := []*node{n}
	if top.alloc {
		// private until it is published
		ns = nil
		for _, e := range s.esc {
			if e.top() == top && isPrefix(e, n) {
				for _, at := range a.pub[e] {
					ns = append(ns, a.graft(e, at.n, n))
				}
				break
			}
		}
	}
	raw := n
	for _, n := range ns {
		key, obj := cellKey(n)
		if key == "" || obj == nil {
			continue
		}
		if n.top().alloc {
			continue
		}
		k := fmt.Sprint(key, n.id, write, user, pos)
		for _, h := range s.locks {
			k += fmt.Sprint(";", h.n.id, h.w)
		}
		if a.seenAcc[k] {
			continue
		}
		a.seenAcc[k] = true
		a.accesses = append(a.accesses, access{key, obj, n, raw, write, s.locks, pos, fn, a.op, user})
	}
}

// graft moves the selectors from e to n below another node
func (a *lockAnalysis) graft(e, at, n *node) *node {
	if n == e {
		return at
	}
	return a.t.child(a.graft(e, at, n.parent), n.sel, n.owner)
}

// load gives the content of a cell
func (a *lockAnalysis) load(n *node, t types.Type) pset {
	if a.plain(t) {
		return nil
	}
	if n.top().alloc {
		r := a.stores[n]
		if len(r) > 0 {
			return r
		}
	}
	return pset{{n: a.t.child(n, "*", "")}}
}

// plain types carry no references that matter
func (a *lockAnalysis) plain(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !a.plain(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return a.plain(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if !a.plain(u.At(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// put stores a value into a cell
func (a *lockAnalysis) put(s lst, n *node, v pset) lst {
	if n.top().alloc {
		old := len(a.stores[n])
		a.stores[n] = union(a.stores[n], v)
		if len(a.stores[n]) != old {
			a.changed = true
		}
		// a published container publishes what is put into it
		esc := false
		for _, e := range s.esc {
			if isPrefix(e, n) {
				esc = true
			}
		}
		if !esc {
			return s
		}
	}
	return a.publish(s, a.t.child(n, "*", ""), v, 0)
}

func (a *lockAnalysis) publish(s lst, at *node, v pset, d int) lst {
	if d > 6 {
		return s
	}
	for _, x := range v {
		if x.n == nil || !x.n.top().alloc {
			continue
		}
		old := len(a.pub[x.n])
		a.pub[x.n] = union(a.pub[x.n], pset{{n: at}})
		if len(a.pub[x.n]) != old {
			a.changed = true
		}
		already := false
		for _, e := range s.esc {
			if e == x.n {
				already = true
			}
		}
		s = s.publish(x.n)
		if already {
			continue
		}
		for _, c := range a.t.list {
			if c != x.n && isPrefix(x.n, c) && len(a.stores[c]) > 0 {
				s = a.publish(s, a.t.child(a.graft(x.n, at, c), "*", ""), a.stores[c], d+1)
			}
		}
	}
	return s
}

// reads records that everything reachable from a value is read, by an external function or the user
func (a *lockAnalysis) reads(s lst, v pset, t types.Type, fn *ssa.Function, pos token.Pos, user bool, d int) {
	a.touch(s, v, t, false, fn, pos, user, d)
}

func (a *lockAnalysis) touch(s lst, v pset, t types.Type, write bool, fn *ssa.Function, pos token.Pos, user bool, d int) {
	if d > 6 || len(v) == 0 {
		return
	}
	for _, x := range v {
		if x.n == nil {
			continue
		}
		vt := t
		if x.dyn != nil {
			vt = x.dyn
		}
		switch u := vt.Underlying().(type) {
		case *types.Pointer:
			if n, ok := u.Elem().(*types.Named); ok && d > 0 && !isModule(n) {
				continue
			}
			if user && hasLock(u.Elem()) {
				continue // an object that has its own discipline
			}
			a.touchCell(s, x.n, u.Elem(), write, fn, pos, user, d)
		case *types.Map:
			a.access(s, x.n, write, fn, pos, user)
			c := a.t.child(x.n, "[]", "")
			a.touch(s, a.load(c, u.Elem()), u.Elem(), write, fn, pos, user, d+1)
		case *types.Slice:
			a.touchCell(s, a.t.child(x.n, "[]", ""), u.Elem(), write, fn, pos, user, d)
		}
	}
}

func (a *lockAnalysis) touchCell(s lst, n *node, t types.Type, write bool, fn *ssa.Function, pos token.Pos, user bool, d int) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		if nt, ok := t.(*types.Named); ok && !isModule(nt) {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			if user && !st.Field(i).Exported() {
				continue
			}
			a.touchCell(s, a.t.child(n, st.Field(i).Name(), ownerName(t)), st.Field(i).Type(), write, fn, pos, user, d)
		}
		return
	}
	a.access(s, n, write, fn, pos, user)
	a.touch(s, a.load(n, t), t, write, fn, pos, user, d+1)
}

func ownerName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return "struct"
}

// hasLock: the struct embeds or holds a mutex, directly or in an object that it owns
func hasLock(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if lockType(ft) != "" {
			return true
		}
		if p, ok := ft.(*types.Pointer); ok && isModule(p.Elem()) && p.Elem() != t && ownerName(p.Elem()) == "Domain" {
			return true
		}
	}
	return false
}

func lockType(t types.Type) string {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return ""
	}
	return n.Obj().Name()
}

// ---- functions

func (a *lockAnalysis) callFn(f *ssa.Function, args, free []pset, s lst, site string) *lockSummary {
	k := site + "@" + f.String() + fmt.Sprint(f.Pos())
	for _, v := range args {
		k += "(" + v.key() + ")"
	}
	for _, v := range free {
		k += "{" + v.key() + "}"
	}
	ctx := site + "@" + f.String() + fmt.Sprint(f.Pos())
	s = a.forgetInside(s, ctx)
	base := s.defers
	s.defers = nil
	k += "#" + s.full()
	if r, ok := a.memo[k]; ok {
		return r.restore(base)
	}
	for _, g := range a.stack {
		if g == f {
			if !a.quietRecursion(f) {
				a.giveUp("%s is recursive", fname(f))
			}
			return (&lockSummary{exits: []lst{s}, res: make([]pset, f.Signature.Results().Len())}).restore(base)
		}
	}
	if len(a.stack) > 40 {
		a.giveUp("calls nest too deeply in %s", fname(f))
		return (&lockSummary{exits: []lst{s}, res: make([]pset, f.Signature.Results().Len())}).restore(base)
	}
	a.nfuncs[f] = true
	a.bodies++
	a.stack = append(a.stack, f)
	outer := a.cur
	a.cur = ctx
	r := a.body(f, args, free, s, ctx)
	a.cur = outer
	a.stack = a.stack[:len(a.stack)-1]
	a.memo[k] = r
	return r.restore(base)
}

// forgetInside: objects that an earlier run of the same call made can only be reached through
// the places where they were published
func (a *lockAnalysis) forgetInside(s lst, ctx string) lst {
	if a.op != nil && len(a.stack) > 0 {
		a.parent[ctx] = a.cur
	}
	var r []*node
	for _, e := range s.esc {
		in := false
		for c, n := e.top().ctx, 0; c != "" && n < 64; c, n = a.parent[c], n+1 {
			if c == ctx {
				in = true
			}
		}
		if !in {
			r = append(r, e)
		}
	}
	s.esc = r
	return s
}

// quietRecursion: plural expressions recurse over immutable trees
func (a *lockAnalysis) quietRecursion(f *ssa.Function) bool {
	pk := pkgOf(f)
	return pk != nil && pk.Pkg.Name() != "gotext"
}

func (r *lockSummary) restore(base []dfr) *lockSummary {
	if base == nil {
		return r
	}
	n := &lockSummary{res: r.res}
	for _, e := range r.exits {
		e.defers = base
		n.exits = append(n.exits, e)
	}
	return n
}

type lframe struct {
	f    *ssa.Function
	env  map[ssa.Value]pset
	ctx  string
	res  []pset
	exit map[string]lst
}

func (a *lockAnalysis) body(f *ssa.Function, args, free []pset, s lst, ctx string) *lockSummary {
	fr := &lframe{f: f, env: map[ssa.Value]pset{}, ctx: ctx, res: make([]pset, f.Signature.Results().Len()), exit: map[string]lst{}}
	for i, v := range f.Params {
		fr.env[v] = args[i]
	}
	for i, v := range f.FreeVars {
		if i < len(free) {
			fr.env[v] = free[i]
		}
	}
	// the environment is flow-insensitive within the function: iterate until it is stable
	for round := 0; round < 6; round++ {
		before := envSize(fr.env)
		in := map[*ssa.BasicBlock]map[string]lst{}
		work := []*ssa.BasicBlock{f.Blocks[0]}
		in[f.Blocks[0]] = map[string]lst{s.key(): s}
		done := map[string]bool{}
		fr.exit = map[string]lst{}
		for len(work) > 0 {
			b := work[0]
			work = work[1:]
			for _, sk := range keysOf(in[b]) {
				st := in[b][sk]
				dk := fmt.Sprint(b.Index, "#", st.full())
				if done[dk] {
					continue
				}
				done[dk] = true
				outs := a.block(fr, b, st)
				for _, o := range outs {
					ok := o.key()
					for _, succ := range b.Succs {
						m := in[succ]
						if m == nil {
							m = map[string]lst{}
							in[succ] = m
						}
						old, has := m[ok]
						if !has && len(m) > 48 {
							a.giveUp("too many lock states in %s", fname(f))
							continue
						}
						nw := o
						if has {
							nw = old.join(o)
						}
						if !has || len(nw.esc) != len(old.esc) {
							m[ok] = nw
							work = append(work, succ)
						}
					}
				}
			}
		}
		if envSize(fr.env) == before {
			break
		}
	}
	r := &lockSummary{res: fr.res}
	for _, k := range keysOf(fr.exit) {
		r.exits = append(r.exits, fr.exit[k])
	}
	return r
}

func envSize(m map[ssa.Value]pset) int {
	n := 0
	for _, v := range m {
		n += len(v)
	}
	return n
}

func keysOf(m map[string]lst) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (a *lockAnalysis) val(fr *lframe, v ssa.Value) pset {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return pset{{n: a.t.root("global "+v.Name(), v.Pkg == nil || !strings.HasPrefix(v.Pkg.Pkg.Path(), modPath), v.Type())}}
	case *ssa.Function:
		return pset{{fn: v, key: v.String()}}
	}
	return fr.env[v]
}

func (a *lockAnalysis) setVal(fr *lframe, v ssa.Value, s pset) {
	if a.plain(v.Type()) {
		return
	}
	fr.env[v] = union(fr.env[v], s)
}

// block runs the instructions of a block for one alternative
func (a *lockAnalysis) block(fr *lframe, b *ssa.BasicBlock, s lst) []lst {
	cur := []lst{s}
	each := func(f func(s lst) []lst) {
		var r []lst
		seen := map[string]int{}
		for _, s := range cur {
			for _, t := range f(s) {
				k := t.key()
				if i, ok := seen[k]; ok {
					r[i] = r[i].join(t)
					continue
				}
				seen[k] = len(r)
				r = append(r, t)
			}
		}
		cur = r
	}
	for _, in := range b.Instrs {
		pos := in.Pos()
		switch in := in.(type) {
		case *ssa.Phi:
			for _, e := range in.Edges {
				a.setVal(fr, in, a.val(fr, e))
			}
		case *ssa.Alloc:
			n := a.t.root(fmt.Sprintf("new %s@%s@%d", typeStr(elemOf(in.Type())), a.hash(fr.ctx), in.Pos())+in.Name(), true, in.Type())
			n.ctx = fr.ctx
			a.setVal(fr, in, pset{{n: n}})
			each(func(s lst) []lst { return []lst{s.private(n)} })
		case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
			v := in.(ssa.Value)
			n := a.t.root(fmt.Sprintf("make %s@%s@%d", typeStr(v.Type()), a.hash(fr.ctx), in.Pos())+v.Name(), true, v.Type())
			n.ctx = fr.ctx
			a.setVal(fr, v, pset{{n: n}})
			each(func(s lst) []lst { return []lst{s.private(n)} })
		case *ssa.MakeClosure:
			fn := in.Fn.(*ssa.Function)
			x := pv{fn: fn, key: fn.String() + fmt.Sprint(fn.Pos())}
			for _, bnd := range in.Bindings {
				v := a.val(fr, bnd)
				x.bind = append(x.bind, v)
				x.key += "{" + v.key() + "}"
			}
			a.setVal(fr, in, pset{x})
		case *ssa.FieldAddr:
			st := elemOf(in.X.Type())
			var r pset
			for _, x := range a.val(fr, in.X) {
				if x.n != nil {
					r = append(r, pv{n: a.t.child(x.n, structOf(st).Field(in.Field).Name(), ownerName(st))})
				}
			}
			a.setVal(fr, in, r)
		case *ssa.IndexAddr:
			var r pset
			for _, x := range a.val(fr, in.X) {
				if x.n != nil {
					r = append(r, pv{n: a.t.child(x.n, "[]", "")})
				}
			}
			a.setVal(fr, in, r)
		case *ssa.Field:
			// of a struct value: the references it carries
			a.setVal(fr, in, a.fieldVals(a.val(fr, in.X), in.X.Type(), in.Field))
		case *ssa.Index:
			if at, ok := in.X.Type().Underlying().(*types.Array); ok && !a.plain(at.Elem()) {
				for _, x := range a.val(fr, in.X) {
					if x.n != nil {
						fr.env[in] = union(fr.env[in], a.cellValue(a.t.child(x.n, "[]", ""), at.Elem()))
					}
				}
				break
			}
			a.setVal(fr, in, a.val(fr, in.X))
		case *ssa.UnOp:
			switch in.Op {
			case token.MUL:
				each(func(s lst) []lst {
					for _, x := range a.val(fr, in.X) {
						if x.n == nil {
							continue
						}
						a.loadCell(s, x.n, in.Type(), fr.f, pos)
						a.setVal(fr, in, a.cellValue(x.n, in.Type()))
					}
					return []lst{s}
				})
			case token.ARROW:
				et := in.X.Type().Underlying().(*types.Chan).Elem()
				for _, x := range a.val(fr, in.X) {
					if x.n == nil || a.plain(et) {
						continue
					}
					fr.env[in] = union(fr.env[in], a.cellValue(a.t.child(x.n, "[]", ""), et))
				}
			}
		case *ssa.Send:
			et := in.Chan.Type().Underlying().(*types.Chan).Elem()
			if a.plain(et) {
				break
			}
			each(func(s lst) []lst {
				for _, x := range a.val(fr, in.Chan) {
					if x.n != nil {
						s = a.putDeep(s, a.t.child(x.n, "[]", ""), et, a.val(fr, in.X))
					}
				}
				return []lst{s}
			})
		case *ssa.Store:
			each(func(s lst) []lst {
				for _, x := range a.val(fr, in.Addr) {
					if x.n != nil {
						s = a.storeFields(s, x.n, in.Val.Type(), a.val(fr, in.Val), overwritten(in), fr.f, pos)
					}
				}
				return []lst{s}
			})
		case *ssa.MapUpdate:
			each(func(s lst) []lst {
				for _, x := range a.val(fr, in.Map) {
					if x.n != nil {
						a.access(s, x.n, true, fr.f, pos, false)
						s = a.putDeep(s, a.t.child(x.n, "[]", ""), in.Value.Type(), a.val(fr, in.Value))
					}
				}
				return []lst{s}
			})
		case *ssa.Lookup:
			if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
				break
			}
			each(func(s lst) []lst {
				for _, x := range a.val(fr, in.X) {
					if x.n != nil {
						a.access(s, x.n, false, fr.f, pos, false)
						et := in.X.Type().Underlying().(*types.Map).Elem()
						a.setVal(fr, in, a.cellValue(a.t.child(x.n, "[]", ""), et))
					}
				}
				return []lst{s}
			})
		case *ssa.Range:
			a.setVal(fr, in, a.val(fr, in.X))
			fr.env[in] = union(fr.env[in], a.val(fr, in.X))
		case *ssa.Next:
			if in.IsString {
				break
			}
			rng := in.Iter.(*ssa.Range)
			each(func(s lst) []lst {
				for _, x := range fr.env[rng] {
					if x.n != nil {
						a.access(s, x.n, false, fr.f, pos, false)
						fr.env[in] = union(fr.env[in], a.cellValue(a.t.child(x.n, "[]", ""), rng.X.Type().Underlying().(*types.Map).Elem()))
					}
				}
				return []lst{s}
			})
		case *ssa.Extract:
			if nx, ok := in.Tuple.(*ssa.Next); ok {
				if in.Index == 2 {
					a.setVal(fr, in, fr.env[nx])
				}
				break
			}
			switch t := in.Tuple.(type) {
			case *ssa.Lookup, *ssa.TypeAssert, *ssa.UnOp:
				if in.Index == 0 {
					a.setVal(fr, in, fr.env[t.(ssa.Value)])
				}
			default:
				for _, x := range fr.env[in.Tuple] {
					if x.key == fmt.Sprint("#", in.Index) {
						a.setVal(fr, in, x.bind[0])
					}
				}
			}
		case *ssa.TypeAssert:
			var r pset
			for _, x := range a.val(fr, in.X) {
				if x.dyn != nil && !types.IsInterface(in.AssertedType) {
					if !types.Identical(x.dyn, in.AssertedType) {
						continue
					}
					x.dyn = nil
				}
				r = append(r, x)
			}
			fr.env[in] = union(fr.env[in], r)
		case *ssa.MakeInterface:
			var r pset
			for _, x := range a.val(fr, in.X) {
				x.dyn = in.X.Type()
				r = append(r, x)
			}
			a.setVal(fr, in, r)
		case *ssa.ChangeInterface:
			a.setVal(fr, in, a.val(fr, in.X))
		case *ssa.ChangeType:
			a.setVal(fr, in, a.val(fr, in.X))
		case *ssa.Convert:
			a.setVal(fr, in, nil)
		case *ssa.Slice:
			if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
				a.setVal(fr, in, a.val(fr, in.X))
			} else {
				a.setVal(fr, in, a.val(fr, in.X))
			}
		case *ssa.Defer:
			each(func(s lst) []lst {
				if len(s.defers) > 12 {
					a.giveUp("defers pile up in %s", fname(fr.f))
					return nil
				}
				d := dfr{call: &in.Call, pos: pos, fn: a.val(fr, in.Call.Value)}
				for _, v := range in.Call.Args {
					d.args = append(d.args, a.val(fr, v))
				}
				s.defers = append(s.defers[:len(s.defers):len(s.defers)], d)
				return []lst{s}
			})
		case *ssa.RunDefers:
			each(func(s lst) []lst {
				ss := []lst{s}
				ds := s.defers
				for i := len(ds) - 1; i >= 0; i-- {
					var r []lst
					for _, t := range ss {
						t.defers = nil
						os, _ := a.call(fr, ds[i].call, ds[i].fn, ds[i].args, t, ds[i].pos)
						r = append(r, os...)
					}
					ss = r
				}
				for i := range ss {
					ss[i].defers = nil
				}
				return ss
			})
		case *ssa.Call:
			args := make([]pset, len(in.Call.Args))
			for i, v := range in.Call.Args {
				args[i] = a.val(fr, v)
			}
			each(func(s lst) []lst {
				os, res := a.call(fr, &in.Call, a.val(fr, in.Call.Value), args, s, pos)
				switch {
				case len(res) == 1:
					a.setVal(fr, in, res[0])
				case len(res) > 1:
					for i, r := range res {
						fr.env[in] = mergeTuple(fr.env[in], i, r)
					}
				}
				return os
			})
		case *ssa.Go:
			args := make([]pset, len(in.Call.Args))
			for i, v := range in.Call.Args {
				args[i] = a.val(fr, v)
			}
			each(func(s lst) []lst {
				// a goroutine starts without locks; what it can reach is shared
				for _, v := range append(args, a.val(fr, in.Call.Value)) {
					for _, x := range v {
						for _, bnd := range x.bind {
							s = a.publish(s, a.t.root("goroutine", false, nil), bnd, 0)
						}
					}
					s = a.publish(s, a.t.root("goroutine", false, nil), v, 0)
				}
				t := lst{esc: s.esc}
				a.call(fr, &in.Call, a.val(fr, in.Call.Value), args, t, pos)
				return []lst{s}
			})
		case *ssa.Return:
			for i, v := range in.Results {
				fr.res[i] = union(fr.res[i], a.val(fr, v))
			}
			for _, s := range cur {
				s.defers = nil
				if o, ok := fr.exit[s.key()]; ok {
					s = s.join(o)
				}
				fr.exit[s.key()] = s
			}
		case *ssa.Panic:
			return nil
		}
		if len(cur) == 0 {
			return nil
		}
	}
	return cur
}

func (a *lockAnalysis) hash(ctx string) string {
	k := "ctx " + ctx
	if n, ok := a.t.nodes[k]; ok {
		return fmt.Sprint(n.id)
	}
	n := &node{id: len(a.t.list), sel: "ctx"}
	a.t.list = append(a.t.list, n)
	a.t.nodes[k] = n
	return fmt.Sprint(n.id)
}

func mergeTuple(t pset, i int, r pset) pset {
	k := fmt.Sprint("#", i)
	n := make(pset, 0, len(t)+1)
	found := false
	for _, x := range t {
		if x.key == k {
			x = pv{key: k, bind: []pset{union(x.bind[0], r)}}
			found = true
		}
		n = append(n, x)
	}
	if !found {
		n = append(n, pv{key: k, bind: []pset{r}})
	}
	return n
}

// loadCell records the reads of a load of type t
func (a *lockAnalysis) loadCell(s lst, n *node, t types.Type, fn *ssa.Function, pos token.Pos) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if lockType(st.Field(i).Type()) == "" {
				a.loadCell(s, a.t.child(n, st.Field(i).Name(), ownerName(t)), st.Field(i).Type(), fn, pos)
			}
		}
		return
	}
	a.access(s, n, false, fn, pos, false)
}

// cellValue is the value loaded from a cell; struct values keep the cell that they were copied from
func (a *lockAnalysis) cellValue(n *node, t types.Type) pset {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		if !a.plain(t) {
			return pset{{n: n, key: "copy"}}
		}
		return nil
	}
	return a.load(n, t)
}

func (a *lockAnalysis) fieldVals(v pset, t types.Type, i int) pset {
	st := structOf(t)
	var r pset
	for _, x := range v {
		if x.n != nil {
			r = union(r, a.cellValue(a.t.child(x.n, st.Field(i).Name(), ownerName(t)), st.Field(i).Type()))
		}
	}
	return r
}

// overwritten: the fields of a struct copied to a new variable that get another value before the variable is used
func overwritten(in *ssa.Store) map[int]bool {
	v, ok := in.Addr.(*ssa.Alloc)
	if _, isStruct := in.Val.Type().Underlying().(*types.Struct); !ok || !isStruct {
		return nil
	}
	r, used := map[int]bool{}, map[int]bool{}
	after := false
	for _, x := range in.Block().Instrs {
		if x == ssa.Instruction(in) {
			after = true
			continue
		}
		if !after {
			continue
		}
		if fa, ok := x.(*ssa.FieldAddr); ok && fa.X == ssa.Value(v) {
			continue
		}
		if s, ok := x.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(v) && s.Val != ssa.Value(v) {
				if !used[fa.Field] {
					r[fa.Field] = true
				}
				continue
			}
		}
		for _, o := range x.Operands(nil) {
			if *o == ssa.Value(v) {
				return r
			}
			if fa, ok := (*o).(*ssa.FieldAddr); ok && fa.X == ssa.Value(v) {
				used[fa.Field] = true
			}
		}
	}
	return r
}

func (a *lockAnalysis) storeFields(s lst, n *node, t types.Type, v pset, skip map[int]bool, fn *ssa.Function, pos token.Pos) lst {
	if len(skip) == 0 {
		return a.storeCell(s, n, t, v, fn, pos)
	}
	st := structOf(t)
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if skip[i] || lockType(ft) != "" {
			continue
		}
		var fv pset
		if !a.plain(ft) {
			fv = a.fieldVals(v, t, i)
		}
		s = a.storeCell(s, a.t.child(n, st.Field(i).Name(), ownerName(t)), ft, fv, fn, pos)
	}
	return s
}

func (a *lockAnalysis) storeCell(s lst, n *node, t types.Type, v pset, fn *ssa.Function, pos token.Pos) lst {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if lockType(ft) != "" {
				continue
			}
			var fv pset
			if !a.plain(ft) {
				fv = a.fieldVals(v, t, i)
			}
			s = a.storeCell(s, a.t.child(n, st.Field(i).Name(), ownerName(t)), ft, fv, fn, pos)
		}
		return s
	}
	a.access(s, n, true, fn, pos, false)
	return a.putDeep(s, n, t, v)
}

// putDeep puts a value into an element of a container; a struct field by field
func (a *lockAnalysis) putDeep(s lst, n *node, t types.Type, v pset) lst {
	if at, ok := t.Underlying().(*types.Array); ok {
		for _, x := range v {
			if x.n != nil && !a.plain(at.Elem()) {
				s = a.putDeep(s, a.t.child(n, "[]", ""), at.Elem(), a.cellValue(a.t.child(x.n, "[]", ""), at.Elem()))
			}
		}
		return s
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return a.put(s, n, v)
	}
	for i := 0; i < st.NumFields(); i++ {
		if ft := st.Field(i).Type(); lockType(ft) == "" && !a.plain(ft) {
			s = a.putDeep(s, a.t.child(n, st.Field(i).Name(), ownerName(t)), ft, a.fieldVals(v, t, i))
		}
	}
	return s
}

// ---- calls

func (a *lockAnalysis) call(fr *lframe, c *ssa.CallCommon, fn pset, args []pset, s lst, pos token.Pos) ([]lst, []pset) {
	sig := c.Signature()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return a.builtin(fr, b.Name(), c, args, s, pos)
	}
	site := fmt.Sprint(pos, "<", a.hash(fr.ctx))
	var outs []lst
	seen := map[string]int{}
	res := make([]pset, sig.Results().Len())
	add := func(r *lockSummary) {
		for _, e := range r.exits {
			k := e.key()
			if i, ok := seen[k]; ok {
				outs[i] = outs[i].join(e)
				continue
			}
			seen[k] = len(outs)
			outs = append(outs, e)
		}
		for i := range res {
			if i < len(r.res) {
				res[i] = union(res[i], r.res[i])
			}
		}
	}
	if c.IsInvoke() {
		if c.Method.Pkg() != nil && c.Method.Pkg().Path() == "sync" {
			for _, x := range fn {
				if x.n != nil {
					s2, ok := a.lockOp(s, x.n, c.Method.Name(), fr.f, pos)
					if ok {
						return []lst{s2}, res
					}
				}
			}
			a.giveUp("%s: a lock is reached through an interface", fname(fr.f))
			return []lst{s}, res
		}
		known := len(fn) > 0
		for _, x := range fn {
			if x.dyn == nil {
				known = false
			}
		}
		called := false
		for _, x := range fn {
			var ts []types.Type
			if x.dyn != nil {
				ts = []types.Type{x.dyn}
			} else if isModule(c.Value.Type()) {
				ts = a.p.implementers(c.Value.Type())
			}
			for _, t := range ts {
				sel := a.p.prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name())
				if sel == nil {
					continue
				}
				m := a.p.prog.MethodValue(sel)
				if m == nil || len(m.Blocks) == 0 {
					continue
				}
				if pk := pkgOf(m); pk != nil && pk.Pkg.Name() == "plurals" {
					continue // rules are immutable; decided separately
				}
				y := x
				y.dyn = nil
				called = true
				add(a.callFn(m, append([]pset{{y}}, args...), nil, s, site))
			}
		}
		if !called || !known && len(outs) == 0 {
			return a.externalCall(fr, c.Method.FullName(), sig, append([]pset{fn}, args...), invokeTypes(c), s, pos)
		}
		return outs, res
	}
	if f := c.StaticCallee(); f != nil {
		var free []pset
		if _, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, x := range fn {
				if x.fn == f {
					free = x.bind
				}
			}
		}
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" || f.Signature.Recv() != nil && strings.HasPrefix(f.String(), "(*sync.") {
			return a.syncCall(fr, f, args, s, pos)
		}
		if len(f.Blocks) > 0 && (a.p.inMod[f] || pkgOf(f) == nil || a.modPkg(f)) {
			if pk := pkgOf(f); pk != nil && pk.Pkg.Name() == "plurals" {
				return []lst{s}, res
			}
			if f.Signature.Recv() != nil && len(args[0]) > 1 && len(args[0]) <= 8 {
				// one object at a time, so that locking and unlocking stay together
				for _, x := range args[0] {
					add(a.callFn(f, append([]pset{{x}}, args[1:]...), free, s, site))
				}
				return outs, res
			}
			add(a.callFn(f, args, free, s, site))
			return outs, res
		}
		var ts []types.Type
		for _, v := range c.Args {
			ts = append(ts, v.Type())
		}
		return a.externalCall(fr, extName(f), sig, args, ts, s, pos)
	}
	// a function value
	any := false
	for _, x := range fn {
		if x.fn != nil && len(x.fn.Blocks) > 0 {
			any = true
			add(a.callFn(x.fn, args, x.bind, s, site))
		}
	}
	if !any {
		return []lst{s}, res // given by the user
	}
	return outs, res
}

func (a *lockAnalysis) modPkg(f *ssa.Function) bool {
	pk := pkgOf(f)
	if pk == nil {
		return false
	}
	_, ok := a.p.ssaPkg[pk.Pkg.Path()]
	return ok
}

func invokeTypes(c *ssa.CallCommon) []types.Type {
	ts := []types.Type{c.Value.Type()}
	for _, v := range c.Args {
		ts = append(ts, v.Type())
	}
	return ts
}

// overwrites: appending to the slice replaces elements that it was cut off from
func overwrites(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		_, arr := v.X.Type().Underlying().(*types.Pointer)
		return v.High != nil && v.Max == nil && !arr
	case *ssa.ChangeType:
		return overwrites(v.X, seen)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return overwrites(v.Call.Args[0], seen)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if overwrites(e, seen) {
				return true
			}
		}
	}
	return false
}

func (a *lockAnalysis) builtin(fr *lframe, name string, c *ssa.CallCommon, args []pset, s lst, pos token.Pos) ([]lst, []pset) {
	isMap := func(i int) bool {
		_, ok := c.Args[i].Type().Underlying().(*types.Map)
		return ok
	}
	switch name {
	case "len":
		if isMap(0) {
			for _, x := range args[0] {
				if x.n != nil {
					a.access(s, x.n, false, fr.f, pos, false)
				}
			}
		}
	case "delete", "clear":
		for _, x := range args[0] {
			if x.n != nil {
				n := x.n
				if !isMap(0) {
					n = a.t.child(x.n, "[]", "")
				}
				a.access(s, n, true, fr.f, pos, false)
			}
		}
	case "copy":
		for _, x := range args[0] {
			if x.n != nil {
				a.access(s, a.t.child(x.n, "[]", ""), true, fr.f, pos, false)
			}
		}
		for _, x := range args[1] {
			if x.n != nil {
				a.access(s, a.t.child(x.n, "[]", ""), false, fr.f, pos, false)
				if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && !a.plain(sl.Elem()) {
					for _, y := range args[0] {
						if y.n != nil {
							s = a.putDeep(s, a.t.child(y.n, "[]", ""), sl.Elem(), a.cellValue(a.t.child(x.n, "[]", ""), sl.Elem()))
						}
					}
				}
			}
		}
	case "append":
		// the result may share the first slice; the elements of both are read
		r := args[0]
		sl, ok := c.Args[0].Type().Underlying().(*types.Slice)
		n := a.t.root(fmt.Sprintf("append@%s@%d", a.hash(fr.ctx), pos), true, c.Args[0].Type())
		for i, v := range args {
			for _, x := range v {
				if x.n == nil {
					continue
				}
				e := a.t.child(x.n, "[]", "")
				a.access(s, e, i == 0 && overwrites(c.Args[0], nil), fr.f, pos, false)
				if ok && !a.plain(sl.Elem()) {
					s = a.putDeep(s, a.t.child(n, "[]", ""), sl.Elem(), a.cellValue(e, sl.Elem()))
				}
			}
		}
		return []lst{s}, []pset{union(pset{{n: n}}, r)}
	}
	return []lst{s}, make([]pset, 1)
}

func (a *lockAnalysis) syncCall(fr *lframe, f *ssa.Function, args []pset, s lst, pos token.Pos) ([]lst, []pset) {
	recv := strings.TrimSuffix(strings.TrimPrefix(f.String(), "(*sync."), ")."+f.Name())
	res := make([]pset, f.Signature.Results().Len())
	switch recv {
	case "Mutex", "RWMutex":
		if f.Name() == "RLocker" {
			r := pset{}
			for _, x := range args[0] {
				if x.n != nil {
					r = append(r, pv{n: a.t.child(x.n, "rlocker", "")})
				}
			}
			return []lst{s}, []pset{r}
		}
		if len(args[0]) != 1 || args[0][0].n == nil {
			a.giveUp("%s: which mutex is meant is not known", fname(fr.f))
			return []lst{s}, res
		}
		if f.Name() == "TryLock" || f.Name() == "TryRLock" {
			a.giveUp("%s uses %s", fname(fr.f), f.Name())
			return []lst{s}, res
		}
		s2, _ := a.lockOp(s, args[0][0].n, f.Name(), fr.f, pos)
		return []lst{s2}, res
	case "Once":
		if f.Name() == "Do" {
			var outs []lst
			for _, x := range args[1] {
				if x.fn != nil && len(x.fn.Blocks) > 0 {
					r := a.callFn(x.fn, nil, x.bind, s, fmt.Sprint(pos))
					outs = append(outs, r.exits...)
				}
			}
			return append(outs, s), res
		}
	}
	return []lst{s}, res
}

func (a *lockAnalysis) lockOp(s lst, n *node, op string, fn *ssa.Function, pos token.Pos) (lst, bool) {
	if n.sel == "rlocker" {
		n = n.parent
		op = "R" + op
	}
	if n.top().alloc {
		private := true
		for _, e := range s.esc {
			if isPrefix(e, n) {
				private = false
			}
		}
		if private {
			// nobody else can hold it, but it must still be paired
		}
	}
	switch op {
	case "Lock", "RLock":
		a.acquires++
		for _, h := range s.locks {
			if h.n == n {
				a.problem("re-entry", fn, pos, "%s acquires %s (%s), which is already held since %s: the operation may block forever", fname(fn), lockName(n), op, a.p.pos(h.pos))
				return s, true
			}
			if !n.top().alloc && !h.n.top().alloc {
				a.orders = append(a.orders, lockOrder{lockName(h.n), lockName(n), fn, pos, a.op})
			}
		}
		return s.with(held{n, op == "Lock", pos}), true
	case "Unlock", "RUnlock":
		for i, h := range s.locks {
			if h.n == n {
				if h.w != (op == "Unlock") {
					a.problem("wrong-unlock", fn, pos, "%s releases %s with %s although it was acquired in the other mode", fname(fn), lockName(n), op)
				}
				r := append([]held{}, s.locks[:i]...)
				s.locks = append(r, s.locks[i+1:]...)
				return s, true
			}
		}
		a.problem("not-held", fn, pos, "%s releases %s, which is not held", fname(fn), lockName(n))
		return s, true
	}
	return s, false
}

// externalCall: a library function may read everything it is given, and write through pointers
func (a *lockAnalysis) externalCall(fr *lframe, name string, sig *types.Signature, args []pset, ts []types.Type, s lst, pos token.Pos) ([]lst, []pset) {
	res := make([]pset, sig.Results().Len())
	writes := strings.Contains(name, ".Decode") || strings.Contains(name, "Unmarshal") || strings.HasPrefix(name, "encoding/binary.Read") || strings.HasPrefix(name, "fmt.Sscan") || strings.HasPrefix(name, "fmt.Fscan")
	shallow := changesFirst(name)
	shares := shallow || name == "slices.Clip" || name == "slices.Grow" || name == "maps.All" || name == "maps.Values" || name == "maps.Keys"
	outs := []lst{s}
	for i, v := range args {
		if i >= len(ts) {
			break
		}
		a.touch(s, v, ts[i], false, fr.f, pos, false, 0)
		if writes {
			a.touch(s, v, ts[i], true, fr.f, pos, false, 0)
		}
		if shallow && i == 0 {
			for _, x := range v {
				if x.n == nil {
					continue
				}
				vt := ts[i]
				if x.dyn != nil {
					vt = x.dyn
					// sort.Sort calls the methods
					for _, m := range []string{"Less", "Swap"} {
						if sel := a.p.prog.MethodSets.MethodSet(vt).Lookup(nil, m); sel != nil {
							if f := a.p.prog.MethodValue(sel); f != nil && a.modPkg(f) && len(f.Blocks) > 0 {
								y := x
								y.dyn = nil
								outs = append(outs, a.callFn(f, []pset{{y}, nil, nil}, nil, s, fmt.Sprint(pos)).exits...)
							}
						}
					}
				}
				switch u := vt.Underlying().(type) {
				case *types.Map:
					a.access(s, x.n, true, fr.f, pos, false)
				case *types.Slice:
					a.writeCell(s, a.t.child(x.n, "[]", ""), u.Elem(), fr.f, pos)
				}
			}
		}
		for _, x := range v {
			if x.fn != nil && len(x.fn.Blocks) > 0 {
				// library functions call back with elements of their arguments
				cargs := make([]pset, len(x.fn.Params))
				for k, q := range x.fn.Params {
					for j, w := range args {
						if j >= len(ts) || a.plain(q.Type()) {
							continue
						}
						if et := seqElem(ts[j]); et != nil && types.Identical(et, q.Type()) {
							for _, y := range w {
								if y.n != nil {
									cargs[k] = union(cargs[k], a.cellValue(a.t.child(y.n, "[]", ""), et))
								}
							}
						}
					}
				}
				r := a.callFn(x.fn, cargs, x.bind, s, fmt.Sprint(pos))
				outs = append(outs, r.exits...)
			}
		}
		if shares || i == 0 && (name == "maps.Clone" || name == "slices.Clone") {
			for j := range res {
				if name == "maps.Clone" || name == "slices.Clone" {
					n := a.t.root(fmt.Sprintf("clone@%s@%d", a.hash(fr.ctx), pos), true, nil)
					for _, x := range v {
						if x.n != nil {
							et := elemType(ts[i])
							if et != nil && !a.plain(et) {
								s = a.putDeep(s, a.t.child(n, "[]", ""), et, a.cellValue(a.t.child(x.n, "[]", ""), et))
							}
						}
					}
					res[j] = pset{{n: n}}
				} else {
					res[j] = union(res[j], v)
				}
			}
		}
	}
	// what the functions of maps and slices return holds elements of their arguments
	if strings.HasPrefix(name, "slices.") || strings.HasPrefix(name, "maps.") {
		for j := range res {
			rt := sig.Results().At(j).Type()
			if res[j] != nil || a.plain(rt) {
				continue
			}
			n := a.t.root(fmt.Sprintf("result of %s@%s@%d", name, a.hash(fr.ctx), pos), true, rt)
			container := seqElem(rt) != nil
			var direct pset
			for i, v := range args {
				if i >= len(ts) {
					break
				}
				for _, x := range v {
					// a list of lists, as Concat and Join take it
					et, en := seqElem(ts[i]), x.n
					if et == nil || en == nil || a.plain(et) {
						continue
					}
					vs := a.cellValue(a.t.child(en, "[]", ""), et)
					if container && !types.Identical(et, seqElem(rt)) && seqElem(et) != nil {
						var in pset
						for _, y := range vs {
							if y.n != nil {
								in = union(in, a.cellValue(a.t.child(y.n, "[]", ""), seqElem(et)))
							}
						}
						et, vs = seqElem(et), in
					}
					if container {
						s = a.putDeep(s, a.t.child(n, "[]", ""), et, vs)
					} else {
						direct = union(direct, vs)
					}
				}
			}
			if container {
				res[j] = pset{{n: n}}
			} else {
				res[j] = direct
			}
		}
	}
	for j := range res {
		if res[j] == nil && !a.plain(sig.Results().At(j).Type()) {
			res[j] = pset{{n: a.t.root(fmt.Sprintf("result of %s@%s@%d", name, a.hash(fr.ctx), pos), true, sig.Results().At(j).Type())}}
		}
	}
	if len(outs) > 1 {
		seen := map[string]bool{}
		var r []lst
		for _, o := range outs {
			if !seen[o.key()] {
				seen[o.key()] = true
				r = append(r, o)
			}
		}
		outs = r
	} else {
		outs = []lst{s}
	}
	return outs, res
}

// changesFirst: library functions that change the elements of their first argument, and nothing behind them
func changesFirst(name string) bool {
	switch name {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable",
		"slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse", "slices.Compact", "slices.CompactFunc",
		"slices.Delete", "slices.DeleteFunc", "slices.Insert", "slices.Replace", "maps.DeleteFunc", "maps.Copy", "maps.Insert", "reflect.Swapper":
		return true
	}
	return false
}

// writeCell: the cell itself is written
func (a *lockAnalysis) writeCell(s lst, n *node, t types.Type, fn *ssa.Function, pos token.Pos) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			a.writeCell(s, a.t.child(n, st.Field(i).Name(), ownerName(t)), st.Field(i).Type(), fn, pos)
		}
		return
	}
	a.access(s, n, true, fn, pos, false)
}

// seqElem: what a list, a map or an iterator holds
func seqElem(t types.Type) types.Type {
	if sg, ok := t.Underlying().(*types.Signature); ok {
		if sg.Params().Len() != 1 || sg.Results().Len() != 0 {
			return nil
		}
		y, ok := sg.Params().At(0).Type().Underlying().(*types.Signature)
		if !ok || y.Params().Len() == 0 {
			return nil
		}
		return y.Params().At(y.Params().Len() - 1).Type()
	}
	return elemType(t)
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Map:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return nil
}

// ---- conclusions

// protects gives the ways in which an access is guarded: lock key -> relation, mode
type guard struct {
	lock, rel string
	w         bool
}

func (x access) guards() []guard {
	var r []guard
	for _, h := range x.locks {
		key, owner := cellKey(h.n)
		g := guard{lock: key, w: h.w}
		if single(owner) {
			g.rel = "global"
			r = append(r, g)
		}
		switch {
		case isPrefix(owner, x.n) || isPrefix(owner, x.raw):
			g.rel = "owner"
		case isPrefix(x.obj, owner):
			g.rel = "part " + suffixOf(x.obj, owner)
		default:
			continue
		}
		r = append(r, g)
	}
	return r
}

// race reports whether two accesses of the same piece of state may collide
func race(x, y access) bool {
	if !x.write && !y.write {
		return false
	}
	for _, g := range x.guards() {
		for _, h := range y.guards() {
			if g.lock == h.lock && g.rel == h.rel && (g.w || h.w) {
				return false
			}
		}
	}
	return true
}

// single: a global, or the one object that a global points to
func single(n *node) bool {
	for ; n.parent != nil; n = n.parent {
		if n.sel == "[]" {
			return false
		}
	}
	return strings.HasPrefix(n.sel, "global ")
}
