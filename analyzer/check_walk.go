package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which source files xgotext reads, and which of their nodes

type walker struct {
	c    *Ctx
	f    *ssa.Function
	r    *run
	w    *textOf
	done map[string]bool
	// the maps from import paths to packages that the import specs are looked up in
	caches map[*Term]bool
}

func (c *Ctx) newWalker(f *ssa.Function, setup func(x *Interp)) *walker {
	r := c.runFn(f, setup)
	return &walker{c: c, f: f, r: r, w: &textOf{c: c, x: r.x}, done: map[string]bool{}, caches: map[*Term]bool{}}
}

func (w *walker) fail(kind string, pos token.Pos, format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	if k := kind + s; !w.done[k] {
		w.done[k] = true
		w.c.fail(kind, fname(w.f), pos, "%s", s)
	}
}

func isPackage(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Name() == "Package" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "golang.org/x/tools/go/packages"
}

func isPackages(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isPackage(s.Elem())
}

// packageField: t is a field of a loaded package
func packageField(t *Term, name string) (*Term, bool) {
	p, ok := loadOf(t, name)
	if !ok || !isPackage(p.typ) {
		return nil, false
	}
	return p, true
}

// stateTerms lists the terms of what happened since an event
func stateTerms(st *State, since *Event, mem *Mem) []*Term {
	var ts []*Term
	add := func(us ...*Term) {
		for _, u := range us {
			if u != nil {
				ts = append(ts, u)
			}
		}
	}
	for _, e := range st.events(since) {
		add(e.args...)
		add(e.text...)
		if e.loop != nil {
			add(e.loop.init...)
		}
	}
	for _, m := range st.writes(mem) {
		add(m.addr, m.key, m.val)
	}
	return ts
}

// loopTerms lists the terms of a loop's iterations
func loopTerms(rec *LoopRec) []*Term {
	var ts []*Term
	for i, b := range rec.back {
		ts = append(ts, stateTerms(b, rec.start.ev, rec.start.mem)...)
		ts = append(ts, rec.next[i]...)
	}
	return ts
}

// files lists the packages all of whose files are inspected in what happened since an event
func (w *walker) files(st *State, since *Event) (pkgs []*Term) {
	for _, e := range st.events(since) {
		if e.kind != "loop" {
			continue
		}
		rec := e.loop
		seqs, idx := fullScans(rec, st, loopTerms(rec))
		for k, seq := range seqs {
			elem := seq.typ.Underlying()
			sl, ok := elem.(*types.Slice)
			if !ok {
				continue
			}
			if p, ok := packageField(seq, "Syntax"); ok && w.everyFile(rec, p, seq, idx[k], sl.Elem()) {
				pkgs = append(pkgs, p)
			}
			if isPackages(seq.typ) {
				all := true
				for _, b := range rec.back {
					p := b.load(mkIndexAddr(seq, idx[k], types.NewPointer(sl.Elem())), sl.Elem())
					in := false
					for _, q := range w.files(b, rec.start.ev) {
						in = in || equal(b.facts, p, q)
					}
					if !in {
						all = false
						w.fail("skips", e.pos, "not all files of a package are inspected when %s", trunc(b.facts.describe(), 200))
					}
				}
				if all {
					pkgs = append(pkgs, seq)
				}
			}
		}
	}
	return pkgs
}

// everyFile: every iteration inspects the file
func (w *walker) everyFile(rec *LoopRec, pkg, seq, i *Term, elem types.Type) bool {
	for _, b := range rec.back {
		node := b.load(mkIndexAddr(seq, i, types.NewPointer(elem)), elem)
		n := 0
		for _, e := range b.events(rec.start.ev) {
			if e.kind != "callback" || e.name != "go/ast.Inspect" {
				continue
			}
			if a := e.args[0]; a.op == OIface && equal(b.facts, a.args[0], node) {
				n++
				w.inspects(b, e, pkg, node)
			} else {
				w.fail("skips", e.pos, "inspects %s in place of the file", trunc(e.args[0].String(), 100))
			}
		}
		if n != 1 {
			w.fail("skips", rec.pos, "a file is inspected %d times when %s", n, trunc(b.facts.describe(), 200))
			return false
		}
		w.c.count("file_iterations", 1)
	}
	return true
}

// childless are the nodes below which there are no calls
var childless = map[string]bool{"Ident": true, "BasicLit": true, "Comment": true, "CommentGroup": true, "ImportSpec": true, "EmptyStmt": true, "BranchStmt": true, "BadExpr": true, "BadStmt": true, "BadDecl": true}

// inspects checks what is done with an arbitrary node
func (w *walker) inspects(b *State, e *Event, pkg, file *Term) {
	node := e.cb.args[0]
	astPkg := types.Unalias(elemOf(file.typ)).(*types.Named).Obj().Pkg()
	ptr := func(name string) types.Type { return types.NewPointer(astPkg.Scope().Lookup(name).Type()) }
	owner := false
	for _, o := range e.cb.outs {
		if o.panic {
			continue
		}
		at := &State{facts: o.st.facts, mem: o.st.mem}
		var calls []*Event
		for _, ev := range o.st.events(nil) {
			if ev.kind == "modcall" && strings.HasSuffix(ev.name, ").InspectCallExpr") {
				calls = append(calls, ev)
			}
		}
		w.c.count("cases", cases(w.r.x, o.st.facts, at, func(d *dec) {
			is := func(name string) bool { return d.ask(mk(OIsTyp, ptr(name), "", true, node)) }
			when := func() string { return trunc(d.f.describe(), 250) }
			if d.f.evalNil(node) == 1 {
				return
			}
			// the children
			leaf := false
			for n := range childless {
				if d.f.eval(mk(OIsTyp, ptr(n), "", true, node)) == 1 {
					leaf = true
				}
			}
			if d.f.eval(o.res[0]) != 1 && !leaf {
				w.fail("skips-nodes", o.pos, "what is below a node is not inspected when %s", when())
			}
			switch {
			case is("CallExpr"):
				call := mk(OUnIface, ptr("CallExpr"), "", true, node)
				if len(calls) != 1 {
					w.fail("skips-nodes", o.pos, "a call is handed to the extraction %d times when %s", len(calls), when())
					return
				}
				ev := calls[0]
				if !equal(d.f, ev.args[1], call) {
					w.fail("skips-nodes", ev.pos, "%s is handed to the extraction in place of the call", trunc(ev.args[1].String(), 100))
				}
				owner = true
				w.goFile(&State{facts: d.f, mem: ev.mem}, b, e, ev.args[0], pkg, file)
			case len(calls) > 0:
				w.fail("skips-nodes", calls[0].pos, "something that is not a call is handed to the extraction")
			case is("ImportSpec"):
				w.imports(d, o, e, mk(OUnIface, ptr("ImportSpec"), "", true, node))
			}
		}))
	}
	if !owner {
		w.fail("skips-nodes", e.pos, "no call is handed to the extraction")
	}
}

// goFile checks the file description that the extraction gets
func (w *walker) goFile(st, b *State, e *Event, g, pkg, file *Term) {
	ld := func(name string) *Term { a := fieldAddr(g, name); return st.load(a, elemOf(a.typ)) }
	var data *Term
	for _, a := range w.r.args {
		if p, ok := a.typ.Underlying().(*types.Pointer); ok {
			if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.Obj().Name() == "DomainMap" {
				data = a
			}
		}
	}
	if data == nil || !equal(st.facts, ld("Data"), data) {
		w.fail("file-description", e.pos, "the messages are added to %s", ld("Data"))
	}
	fset := ld("FileSet")
	if !fset.contains(pkg) && !pkg.contains(fset) {
		// the file set that the package was loaded with
		given := false
		for _, ev := range append(w.r.allEvents(), b.events(nil)...) {
			if ev.kind == "call" && strings.HasSuffix(ev.name, "packages.Load") {
				at := &State{facts: b.facts, mem: ev.mem}
				if cfg := ev.args[0]; equal(b.facts, at.load(fieldAddr(cfg, "Fset"), fset.typ), fset) {
					given = given || pkg.contains(ev.res[0])
				}
			}
		}
		if !given {
			w.fail("file-description", e.pos, "positions are looked up in %s, which is not the package's file set", trunc(fset.String(), 100))
		}
	}
	if p := ld("FilePath"); !p.contains(fset) || !mentions([]*Term{p}, file.args[0]) {
		w.fail("file-description", e.pos, "the name of the file is %s", trunc(p.String(), 100))
	}
	// the packages that the file imports are loaded with their names
	gs := structOf(elemOf(g.typ))
	for i := 0; i < gs.NumFields(); i++ {
		if isNamed(gs.Field(i).Type(), "packages.Config") {
			if cfg := st.load(mkFieldAddr(g, i, types.NewPointer(gs.Field(i).Type())), gs.Field(i).Type()); !cfg.isNil() {
				w.loads(st, e, cfg, "NeedName")
			}
		}
	}
	// the file's own package stays known
	m := ld("ImportedPackages")
	own := false
	for _, wr := range b.writes(nil) {
		if wr.kind == mMapUpd && wr.addr == m && equal(b.facts, wr.val, pkg) {
			if k, ok := wr.key.strConst(); ok && (token.IsIdentifier(k) || k == "" || k == "." || k == "_") {
				w.fail("own-package", wr.pos, "the file's own package is known by the name %q, which an import can have too", k)
			} else if !ok {
				w.fail("own-package", wr.pos, "the file's own package is known by the name %s, which an import can have too", trunc(wr.key.String(), 80))
			}
			own = true
		}
	}
	if !own {
		w.fail("own-package", e.pos, "the types of the file's own package are not known to the extraction")
	}
}

// loads: the packages are loaded with everything that is read from them; a
// configuration that does not ask for it leaves the fields empty, silently
func (w *walker) loads(st *State, e *Event, cfg *Term, needs ...string) {
	if cfg.isNil() {
		w.fail("load-mode", e.pos, "packages are loaded without a configuration")
		return
	}
	st0, ok := elemOf(cfg.typ).Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st0.NumFields(); i++ {
		if f := st0.Field(i); f.Name() == "Mode" {
			mode := st.load(fieldAddr(cfg, "Mode"), f.Type())
			v, known := mode.intConst()
			if !known {
				w.fail("load-mode", e.pos, "what is loaded of the packages is decided by %s", trunc(mode.String(), 80))
				return
			}
			for _, n := range needs {
				k, ok := f.Pkg().Scope().Lookup(n).(*types.Const)
				if !ok {
					continue
				}
				if bit, exact := constant.Int64Val(k.Val()); exact && v&bit != bit {
					w.fail("load-mode", e.pos, "the packages are loaded without packages.%s, which the extraction reads", n)
				}
			}
		}
	}
}

// isNamed: a pointer to pkg.Name
func isNamed(t types.Type, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name()+"."+n.Obj().Name() == name
}

func (r *run) allEvents() []*Event {
	var evs []*Event
	for _, o := range r.outs {
		evs = append(evs, o.st.events(nil)...)
	}
	return evs
}

// imports: the imported package gets known by the name that the file uses for it
func (w *walker) imports(d *dec, o *Outcome, e *Event, spec *Term) {
	path := d.field(d.field(spec, "Path"), "Value")
	when := trunc(d.f.describe(), 250)
	depends := func(ev *Event) bool {
		if mentions(ev.args, path) {
			return true
		}
		at := &State{facts: d.f, mem: ev.mem}
		for _, a := range ev.args {
			if es, ok := w.r.x.elems(at, a); ok && mentions(es, path) {
				return true
			}
		}
		return false
	}
	var found []*Term
	missing := false
	for _, ev := range o.st.events(nil) {
		if !depends(ev) {
			continue
		}
		for _, r := range ev.res {
			found = append(found, r)
			if isErrorType(r.typ) && d.f.evalNil(r) == 0 {
				missing = true
			}
			if isPackages(r.typ) && d.f.eval(mkEq0(linOf(mkLen(r)))) == 1 {
				missing = true
			}
		}
	}
	for l, v := range d.f.lits {
		if l.op == OMapHas && l.args[1].contains(path) {
			w.caches[l.args[0]] = true
			if !v {
				missing = true
			}
		}
	}
	var upd []*Mem
	for _, m := range o.st.writes(e.cb.st.mem) {
		if (m.kind == mMapUpd || m.kind == mMapDel) && isPackage(m.addr.typ.Underlying().(*types.Map).Elem()) {
			upd = append(upd, m)
		}
	}
	switch {
	case len(upd) == 0 && missing:
	case len(upd) == 0:
		w.fail("imports", o.pos, "an imported package does not get known when %s", when)
	case len(upd) > 1 || upd[0].kind != mMapUpd:
		w.fail("imports", upd[0].pos, "the known packages are changed more than once for an import when %s", when)
	default:
		m := upd[0]
		from := m.val.contains(path)
		for _, r := range found {
			from = from || m.val.contains(r)
		}
		if !from {
			w.fail("imports", m.pos, "the package that gets known for an import is %s", trunc(m.val.String(), 100))
			return
		}
		w.c.count("imports", 1)
		named := d.field(spec, "Name")
		var want *Term
		if d.ask(mkIsNil(named)) {
			want = d.field(m.val, "Name")
		} else {
			want = d.field(named, "Name")
		}
		if !equal(d.f, m.key, want) {
			w.fail("imports", m.pos, "an imported package gets known as %s, but the file calls it %s", trunc(m.key.String(), 80), trunc(want.String(), 80))
		}
	}
}

// notLoaded: a fact of a state tells that no package was loaded
func notLoaded(st *State) bool {
	for _, ev := range st.events(nil) {
		if ev.kind != "call" && ev.kind != "modcall" {
			continue
		}
		pk := false
		for _, r := range ev.res {
			pk = pk || isPackages(r.typ) || isPackage(r.typ)
		}
		for _, r := range ev.res {
			if pk && isErrorType(r.typ) && st.facts.evalNil(r) == 0 {
				return true
			}
			if isPackages(r.typ) && st.facts.eval(mkEq0(linOf(mkLen(r)))) == 1 {
				return true
			}
		}
	}
	return false
}

func walkOpaque(x *Interp) {
	x.opaque = func(h *ssa.Function) bool { return h.Name() == "InspectCallExpr" }
}

// parsers are the functions that AddParser gets
func (c *Ctx) registered(add *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != add {
					continue
				}
				if f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
					continue
				}
				v := ci.Common().Args[0]
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}
				if h, ok := v.(*ssa.Function); ok {
					r = append(r, h)
				}
			}
		}
	}
	return r
}

func (c *Ctx) dirParser(f *ssa.Function) {
	w := c.newWalker(f, walkOpaque)
	n := 0
	for _, o := range w.r.outs {
		if o.st.facts.evalNil(o.res[0]) == 0 {
			continue
		}
		got := w.files(o.st, nil)
		if len(got) == 0 && !notLoaded(o.st) {
			w.fail("skips", o.pos, "no source file is inspected when %s", trunc(o.st.facts.describe(), 250))
		}
		for _, p := range got {
			n++
			// the package that was loaded from the directory
			ok := false
			for _, ev := range o.st.events(nil) {
				if ev.kind != "call" || !strings.HasSuffix(ev.name, "packages.Load") || !p.contains(ev.res[0]) {
					continue
				}
				at := &State{facts: o.st.facts, mem: ev.mem}
				ok = true
				w.loads(at, ev, ev.args[0], "NeedSyntax", "NeedTypesInfo")
				dir := at.load(fieldAddr(ev.args[0], "Dir"), types.Typ[types.String])
				es, known := w.r.x.elems(at, ev.args[1])
				if !equal(o.st.facts, dir, w.r.args[0]) || !(known && len(es) == 0 || ev.args[1].isNil()) {
					w.fail("skips", ev.pos, "the package of %s is loaded in place of the directory's", trunc(dir.String(), 80))
				}
			}
			if !ok {
				w.fail("skips", o.pos, "the files of %s are inspected in place of the directory's", trunc(p.String(), 80))
			}
		}
	}
	if n == 0 {
		w.fail("skips", f.Pos(), "no source file is inspected")
	}
}

// collector finds the recursive function that lists the packages of a tree
func (c *Ctx) collector(pkg string) *ssa.Function {
	var reaches func(f, to *ssa.Function, seen map[*ssa.Function]bool) bool
	reaches = func(f, to *ssa.Function, seen map[*ssa.Function]bool) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					h := ci.Common().StaticCallee()
					if h == to {
						return true
					}
					if h != nil && h.Pkg == f.Pkg && !seen[h] {
						seen[h] = true
						if reaches(h, to, seen) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for _, f := range c.p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/"+pkg {
			continue
		}
		ok := false
		for _, p := range f.Params {
			ok = ok || isPackage(p.Type())
		}
		if ok && (listResult(f) || listParam(f) >= 0) && reaches(f, f, map[*ssa.Function]bool{}) {
			return f
		}
	}
	return nil
}

func listResult(f *ssa.Function) bool {
	res := f.Signature.Results()
	return res.Len() == 1 && isPackages(res.At(0).Type())
}

// listParam: the parameter by which a function without results extends a list of packages, or -1
func listParam(f *ssa.Function) int {
	if f.Signature.Results().Len() == 0 {
		for i, p := range f.Params {
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok && isPackages(pt.Elem()) {
				return i
			}
		}
	}
	return -1
}

type piece struct {
	t      *Term
	spread bool
}

// pieces splits what is appended to a list
func pieces(st *State, t *Term) (base *Term, ps []piece) {
	t = st.facts.subst(t)
	switch t.op {
	case OAppend:
		base, ps = pieces(st, t.args[0])
		for _, a := range t.args[1:] {
			ps = append(ps, piece{a, false})
		}
		return
	case OAppendS:
		base, ps = pieces(st, t.args[0])
		return base, append(ps, piece{t.args[1], true})
	}
	return t, nil
}

func knownTrue(f *Facts, m, k *Term) bool {
	for l, v := range f.lits {
		if v && (l.op == OMapGet || l.op == OMapHas) && equal(f, l.args[0], m) && equal(f, l.args[1], k) {
			return true
		}
	}
	return false
}

func knownFalse(f *Facts, m, k *Term) bool {
	for l, v := range f.lits {
		if !v && l.op == OMapHas && equal(f, l.args[0], m) && equal(f, l.args[1], k) {
			return true
		}
	}
	return false
}

// collects: the recursive function lists every package of the tree that imports gotext
func (c *Ctx) collects(f *ssa.Function, caches map[*Term]bool) {
	acc := listParam(f)
	appends := func(h *ssa.Function) int {
		if h == f {
			return acc
		}
		return -1
	}
	w := c.newWalker(f, func(x *Interp) {
		x.opaque = func(h *ssa.Function) bool { return h == f }
		x.appends = appends
	})
	var pkg, visited *Term
	for _, a := range w.r.args {
		if isPackage(a.typ) && pkg == nil {
			pkg = a
		}
		if _, ok := a.typ.Underlying().(*types.Map); ok && visited == nil {
			visited = a
		}
	}
	r := w.r
	id := func(st *State, p *Term) *Term { return st.load(fieldAddr(p, "ID"), types.Typ[types.String]) }
	gotextID := mkStr(modPath)
	for _, o := range r.outs {
		fs := o.st.facts
		when := func(f *Facts) string { return trunc(f.describe(), 250) }
		imports := r.st0.load(fieldAddr(pkg, "Imports"), types.NewMap(types.Typ[types.String], pkg.typ))
		if visited != nil && knownTrue(fs, visited, id(r.st0, pkg)) {
			continue // not the first time
		}
		// the packages are found under the paths by which they are imported
		for m := range caches {
			kept := false
			for _, e := range o.st.writes(nil) {
				if e.kind == mMapUpd && e.addr == m && equal(fs, e.key, id(r.st0, pkg)) && equal(fs, e.val, pkg) {
					kept = true
				}
			}
			if !kept {
				w.fail("imports", o.pos, "a package is not put into %s when %s", trunc(m.String(), 80), when(fs))
			}
		}
		followed := map[*LoopRec]bool{}
		self, below := knownFalse(fs, imports, gotextID), false
		var listed *Term
		if acc >= 0 {
			listed = o.st.load(r.args[acc], r.args[acc].typ.Underlying().(*types.Pointer).Elem())
		} else {
			listed = o.res[0]
		}
		base, ps := pieces(o.st, listed)
		for {
			for _, p := range ps {
				self = self || !p.spread && equal(fs, p.t, pkg)
			}
			rec, init, next, ok := w.w.accum(o.st, base)
			if !ok {
				break
			}
			for _, ek := range w.w.everyValue(rec, o.st, loopTerms(rec)) {
				if !equal(fs, ek.m, imports) {
					continue
				}
				selfHere, belowHere := true, true
				followed[rec] = true
				for k, b := range rec.back {
					key := ek.key(b)
					if key == nil {
						continue
					}
					imp := ek.value(&State{facts: b.facts, mem: rec.start.mem}, b)
					bb, bps := pieces(b, next[k])
					if bb != base {
						w.fail("collects", rec.pos, "the list of packages is replaced by %s", trunc(bb.String(), 100))
						continue
					}
					hasSelf, hasBelow := false, false
					for _, p := range bps {
						switch {
						case !p.spread && equal(b.facts, p.t, pkg):
							hasSelf = true
						case p.spread:
							for _, e := range b.events(rec.start.ev) {
								if e.kind == "modcall" && e.name == fname(f) && len(e.res) == 1 && e.res[0] == p.t {
									for i, a := range r.args {
										want := a
										if a == pkg {
											want = imp
										}
										if !isBool(a.typ) && !equal(b.facts, e.args[i], want) {
											w.fail("collects", e.pos, "the tree is followed with %s", trunc(e.args[i].String(), 100))
										}
									}
									hasBelow = true
								}
							}
						}
					}
					w.c.count("import_iterations", 1)
					before := &State{facts: b.facts, mem: rec.start.mem}
					isG := b.facts.eval(mkEq(id(before, imp), gotextID))
					if kv, ok := key.strConst(); isG < 0 && ok && kv == modPath {
						isG = 1
					}
					if isG < 0 {
						isG = b.facts.eval(mkEq(key, gotextID))
					}
					if !hasSelf && isG != 0 {
						selfHere = false
					}
					if hasSelf && isG != 1 {
						w.fail("collects", rec.pos, "a package is listed for an import other than gotext when %s", when(b.facts))
					}
					if !hasBelow && !(visited != nil && knownTrue(b.facts, visited, id(before, imp))) {
						belowHere = false
						w.fail("collects", rec.pos, "the packages that an import depends on are left out when %s", when(b.facts))
					}
					// a package is marked as visited only when it is
					for _, e := range b.writes(rec.start.mem) {
						if e.kind == mMapUpd && visited != nil && equal(b.facts, e.addr, visited) && !(hasBelow && equal(b.facts, e.key, id(before, imp))) {
							w.fail("collects", e.pos, "%s is marked as visited", trunc(e.key.String(), 100))
						}
					}
				}
				self, below = self || selfHere, below || belowHere
			}
			base, ps = pieces(&State{facts: fs, mem: rec.entry.mem, ev: rec.entry.ev}, init)
		}
		if !self {
			w.fail("collects", o.pos, "a package that imports gotext is left out when %s", when(fs))
		}
		if !below && fs.eval(mkEq0(linOf(r.st0.mapLen(imports)))) != 1 && fs.evalNil(imports) != 1 {
			w.fail("collects", o.pos, "what the imports depend on is left out when %s", when(fs))
		}
		for _, e := range o.st.writes(nil) {
			if e.kind == mMapUpd && visited != nil && equal(fs, e.addr, visited) && !equal(fs, e.key, id(r.st0, pkg)) {
				w.fail("collects", e.pos, "%s is marked as visited", trunc(e.key.String(), 100))
			}
		}
		for _, rec := range loopsOf(o.st) {
			if !followed[rec] && visited != nil {
				w.marks(rec, visited)
			}
		}
	}
}

// marks: no package is marked as visited in a loop that does not follow it
func (w *walker) marks(rec *LoopRec, visited *Term) {
	for _, b := range rec.back {
		for _, e := range b.writes(rec.start.mem) {
			if e.kind == mMapUpd && equal(b.facts, e.addr, visited) {
				w.fail("collects", e.pos, "%s is marked as visited", trunc(e.key.String(), 100))
			}
		}
		for _, e := range b.events(rec.start.ev) {
			if e.kind == "loop" {
				w.marks(e.loop, visited)
			}
		}
	}
}

// treeParser: all files of the packages of the tree that import gotext are inspected
func (c *Ctx) treeParser(f *ssa.Function) {
	rec := c.collector(parserPkg + "/pkg-tree")
	if rec == nil {
		c.fail("anchors", fname(f), f.Pos(), "no function follows the imports of a package")
		return
	}
	w := c.newWalker(f, func(x *Interp) {
		x.opaque = func(h *ssa.Function) bool { return h.Name() == "InspectCallExpr" || h == rec }
		x.appends = func(h *ssa.Function) int {
			if h == rec {
				return listParam(h)
			}
			return -1
		}
	})
	n := 0
	for _, o := range w.r.outs {
		if o.st.facts.evalNil(o.res[0]) == 0 {
			continue
		}
		got := w.files(o.st, nil)
		when := trunc(o.st.facts.describe(), 250)
		hit := false
		for _, e := range o.st.events(nil) {
			if e.kind != "modcall" || e.name != fname(rec) {
				continue
			}
			at := &State{facts: o.st.facts, mem: e.mem}
			for i, a := range e.args {
				if _, ok := a.typ.Underlying().(*types.Map); ok && at.facts.eval(mkEq0(linOf(at.mapLen(a)))) != 1 {
					w.fail("collects", e.pos, "packages may be marked as visited before the tree is followed: %s", trunc(a.String(), 80))
				}
				if isPackage(rec.Params[i].Type()) {
					ok := false
					for _, ev := range o.st.events(nil) {
						if ev.kind == "call" && strings.HasSuffix(ev.name, "packages.Load") && a.contains(ev.res[0]) {
							before := &State{facts: o.st.facts, mem: ev.mem}
							w.loads(before, ev, ev.args[0], "NeedName", "NeedSyntax", "NeedTypesInfo", "NeedImports", "NeedDeps")
							dir := before.load(fieldAddr(ev.args[0], "Dir"), types.Typ[types.String])
							ok = equal(o.st.facts, dir, w.r.args[0])
						}
					}
					if !ok {
						w.fail("skips", e.pos, "the tree of %s is followed in place of the given package's", trunc(a.String(), 80))
					}
				}
			}
			for _, p := range got {
				if equal(o.st.facts, p, e.res[0]) {
					hit = true
				}
			}
		}
		if hit {
			n++
		} else if !notLoaded(o.st) {
			w.fail("skips", o.pos, "the packages of the tree are not all inspected when %s", when)
		}
	}
	if n == 0 {
		w.fail("skips", f.Pos(), "no package of a tree is inspected")
	}
	c.collects(rec, w.caches)
}

// excluded: a term is the cleaned name of an excluded directory
func (w *walker) excluded(st, before *State, t, exclude *Term) bool {
	if t.op == OCall && strings.HasSuffix(t.aux, "filepath.Clean") && len(t.args) == 1 {
		t = t.args[0]
		seq, _, ok := elemOfSeq(t)
		return ok && equal(st.facts, seq, exclude)
	}
	seq, _, ok := elemOfSeq(t)
	if !ok {
		return false
	}
	_, ok = w.cleaned(before, seq, exclude)
	return ok
}

// cleaned: the list has the cleaned names of all excluded directories that are not empty
func (w *walker) cleaned(st *State, seq, exclude *Term) (rec *LoopRec, ok bool) {
	segs, ok := w.w.list(st, seq, nil, 0)
	if !ok || len(segs) != 1 || segs[0].rec == nil {
		return nil, false
	}
	rec = segs[0].rec
	seqs, idx := fullScans(rec, st, loopTerms(rec))
	for k, s := range seqs {
		if !equal(st.facts, s, exclude) {
			continue
		}
		for n, b := range segs[0].back {
			d := b.load(mkIndexAddr(s, idx[k], types.NewPointer(types.Typ[types.String])), types.Typ[types.String])
			alt := segs[0].alts[n]
			if len(alt) == 0 && emptyText(b.facts, d) {
				continue
			}
			if len(alt) != 1 || alt[0].rec != nil || !w.excluded(b, b, alt[0].t, exclude) {
				return nil, false
			}
		}
		return rec, true
	}
	return nil, false
}

// dirWalk: every directory that is not excluded is parsed
func (c *Ctx) dirWalk(f, parse *ssa.Function) {
	w := c.newWalker(f, func(x *Interp) { x.opaque = func(h *ssa.Function) bool { return h == parse } })
	var root, exclude, data *Term
	for _, a := range w.r.args {
		switch {
		case isString(a.typ) && root == nil:
			root = a
		case a.typ.String() == "[]string":
			exclude = a
		case strings.HasSuffix(a.typ.String(), "DomainMap"):
			data = a
		}
	}
	if root == nil || exclude == nil || data == nil {
		c.fail("anchors", fname(f), f.Pos(), "the parameters of %s are not recognised", fname(f))
		return
	}
	for _, o := range w.r.outs {
		var walk *Event
		for _, e := range o.st.events(nil) {
			if e.kind == "callback" && strings.HasPrefix(e.name, "path/filepath.Walk") {
				walk = e
			}
		}
		if walk == nil || !equal(o.st.facts, o.res[0], walk.res[0]) {
			if o.st.facts.evalNil(o.res[0]) != 0 {
				w.fail("skips", o.pos, "the directory is not walked when %s", trunc(o.st.facts.describe(), 200))
			}
			continue
		}
		dir := walk.args[0]
		if !dir.contains(root) {
			w.fail("skips", walk.pos, "%s is walked in place of the given directory", trunc(dir.String(), 80))
		}
		if len(walk.cb.outs) == 0 {
			w.fail("skips", walk.pos, "what is done with a directory cannot be followed")
		}
		path, info, werr := walk.cb.args[0], walk.cb.args[1], walk.cb.args[2]
		// the conditions under which a directory is excluded by its own name, or by that of a parent
		match := func(st *State, t *Term) (own, below bool) {
			rel := func(u *Term) bool {
				return u.op == OCall && strings.HasSuffix(u.aux, "filepath.Rel") && len(u.args) == 2 && equal(st.facts, u.args[0], dir) && u.args[1] == path
			}
			switch {
			case t.op == OEq && len(t.args) == 2:
				a, b := t.args[0], t.args[1]
				if !rel(a) {
					a, b = b, a
				}
				own = rel(a) && w.excluded(st, o.st, b, exclude)
			case t.op == OCall && t.aux == "strings.HasPrefix":
				if a, b := t.args[0], t.args[1]; rel(a) && b.op == OConcat && len(b.args) > 0 {
					if s, ok := b.args[len(b.args)-1].strConst(); ok && s == "/" && len(b.args) == 2 {
						below = w.excluded(st, o.st, b.args[0], exclude)
					}
				}
			}
			return
		}
		pruned := true // the walk does not enter excluded directories
		type kept struct {
			o *Outcome
			e *Event
		}
		var parsed []kept
		for _, q := range walk.cb.outs {
			if q.panic {
				continue
			}
			fs := q.st.facts
			when := trunc(fs.describe(), 300)
			if fs.evalNil(werr) == 0 {
				continue
			}
			w.c.count("walk_outcomes", 1)
			isDir := -1
			for l, v := range fs.lits {
				if strings.HasSuffix(l.aux, "IsDir") && l.contains(info) {
					isDir = 0
					if v {
						isDir = 1
					}
				}
			}
			var call *Event
			for _, e := range q.st.events(nil) {
				if e.kind == "modcall" && e.name == fname(parse) {
					call = e
				}
				if strings.HasSuffix(e.name, ".IsDir") && mentions(e.args, info) && len(e.res) == 1 {
					isDir = fs.eval(e.res[0])
				}
			}
			switch {
			case call != nil:
				if !equal(fs, call.args[0], path) || !equal(fs, call.args[1], dir) || !equal(fs, call.args[2], data) {
					w.fail("skips", call.pos, "%s, %s is parsed", trunc(call.args[0].String(), 80), trunc(call.args[1].String(), 80))
				}
				if !equal(fs, q.res[0], call.res[0]) && !(fs.evalNil(q.res[0]) == 1 && fs.evalNil(call.res[0]) == 1) {
					w.fail("skips", q.pos, "after a directory was parsed, the walk goes on with %s", trunc(q.res[0].String(), 80))
				}
				parsed = append(parsed, kept{q, call})
			case isDir == 0:
				if fs.evalNil(q.res[0]) != 1 {
					w.fail("skips", q.pos, "a file ends the walk of its directory")
				}
			default:
				why := false
				for l, v := range fs.lits {
					if v {
						a, b := match(q.st, l)
						why = why || a || b
					}
				}
				for t, k := range fs.cst {
					a, _ := match(q.st, mkEq(t, k))
					why = why || a
				}
				if !why {
					w.fail("skips", q.pos, "a directory that is not excluded is left out when %s", when)
				}
				if fs.evalNil(q.res[0]) == 1 {
					pruned = false
				} else if !strings.HasSuffix(q.res[0].String(), "SkipDir") {
					w.fail("skips", q.pos, "an excluded directory ends the walk with %s", trunc(q.res[0].String(), 80))
				}
			}
		}
		if len(parsed) == 0 {
			w.fail("skips", walk.pos, "no directory is parsed")
		}
		for _, q := range parsed {
			ok := false
			for _, e := range q.o.st.events(nil) {
				if e.kind != "loop" {
					continue
				}
				seqs, idx := fullScans(e.loop, q.o.st, loopTerms(e.loop))
				for k, s := range seqs {
					if !equal(q.o.st.facts, s, exclude) {
						if _, c := w.cleaned(o.st, s, exclude); !c {
							continue
						}
					}
					ok = true
					for _, b := range e.loop.back {
						d := b.load(mkIndexAddr(s, idx[k], types.NewPointer(types.Typ[types.String])), types.Typ[types.String])
						if emptyText(b.facts, d) {
							continue
						}
						own, below := false, false
						for l, v := range b.facts.lits {
							if !v && l.contains(d) {
								a, bl := match(b, l)
								own, below = own || a, below || bl
							}
						}
						if !own || !below && !pruned {
							w.fail("not-excluded", e.pos, "a directory that is excluded is parsed when %s", trunc(b.facts.describe(), 300))
						}
					}
				}
			}
			if !ok {
				w.fail("not-excluded", q.e.pos, "a directory is parsed without a look at all excluded ones")
			}
		}
	}
}

// parsers: every registered parser gets every directory
func (c *Ctx) dirParsers(f, add *ssa.Function) {
	w := c.newWalker(f, nil)
	var list *Term
	data := w.r.args[len(w.r.args)-1]
	for _, o := range w.r.outs {
		fs := o.st.facts
		if fs.evalNil(o.res[0]) == 0 {
			continue
		}
		ok := false
		for _, e := range o.st.events(nil) {
			if e.kind != "loop" {
				continue
			}
			seqs, idx := fullScans(e.loop, o.st, loopTerms(e.loop))
			for k, s := range seqs {
				sl, isSl := s.typ.Underlying().(*types.Slice)
				if !isSl || s.op != OLoad || s.args[0].op != OGlobal {
					continue
				}
				list, ok = s.args[0], true
				for _, b := range e.loop.back {
					p := b.load(mkIndexAddr(s, idx[k], types.NewPointer(sl.Elem())), sl.Elem())
					n := 0
					for _, ev := range b.events(e.loop.start.ev) {
						if ev.kind == "dyn" && equal(b.facts, ev.args[0], p) {
							n++
							if !ev.args[1].contains(w.r.args[0]) || !ev.args[2].contains(w.r.args[1]) || !equal(b.facts, ev.args[3], data) {
								w.fail("skips", ev.pos, "a parser gets %s and %s", trunc(ev.args[1].String(), 80), trunc(ev.args[2].String(), 80))
							}
						}
					}
					c.count("parser_calls", n)
					if n != 1 {
						w.fail("skips", e.pos, "a parser is called %d times when %s", n, trunc(b.facts.describe(), 200))
					}
				}
			}
		}
		if !ok {
			w.fail("skips", o.pos, "the known parsers are not all called when %s", trunc(fs.describe(), 200))
		}
	}
	if list == nil {
		return
	}
	a := c.newWalker(add, nil)
	for _, o := range a.r.outs {
		fs := o.st.facts
		old := a.r.st0.load(list, elemOf(list.typ))
		now := o.st.load(list, elemOf(list.typ))
		base, ps := pieces(o.st, now)
		if base != old {
			if es, ok := a.r.x.elems(o.st, base); ok && (fs.evalNil(old) == 1 || fs.eval(mkEq0(linOf(mkLen(old)))) == 1) {
				for i := len(es) - 1; i >= 0; i-- {
					ps = append([]piece{{es[i], false}}, ps...)
				}
				base = old
			}
		}
		if base != old || len(ps) != 1 || ps[0].spread || !equal(fs, ps[0].t, a.r.args[0]) {
			a.fail("skips", o.pos, "the known parsers become %s", trunc(now.String(), 100))
		}
	}
}

// command: the flags tell what is read and where the messages are written
func (c *Ctx) command() {
	f := c.need("cli/xgotext", "main")
	dir, tree, save := c.need(parserPkg+"/dir", "ParseDirRec"), c.need(parserPkg+"/pkg-tree", "ParsePkgTree"), c.need(parserPkg, "DomainMap.Save")
	if f == nil || dir == nil || tree == nil || save == nil {
		return
	}
	w := c.newWalker(f, func(x *Interp) { x.opaque = func(h *ssa.Function) bool { return h == dir || h == tree || h == save } })
	both := map[string]bool{}
	for _, o := range w.r.outs {
		fs := o.st.facts
		flags := map[*Term]string{}
		evs := o.st.events(nil)
		if c.p.initState != nil {
			evs = append(append([]*Event{}, c.p.initState.events(nil)...), evs...)
		}
		for _, e := range evs {
			if e.kind == "call" && strings.HasPrefix(e.name, "flag.") && len(e.args) > 0 {
				if n, ok := e.args[0].strConst(); ok && len(e.res) == 1 {
					flags[e.res[0]] = n
					std, _ := e.args[1].strConst()
					if want, ok := map[string]string{"in": "", "pkg-tree": "", "default": "default"}[n]; ok && std != want {
						w.fail("command", e.pos, "without the flag %q, its value is %s", n, e.args[1])
					}
				} else if len(e.args) > 1 && strings.HasSuffix(e.name, "Var") {
					if n, ok := e.args[1].strConst(); ok {
						flags[e.args[0]] = n
					}
				}
			}
		}
		var args *Event // the command line is read
		for _, e := range o.st.events(nil) {
			if args == nil && (e.name == "flag.Parse" || e.name == "(*flag.FlagSet).Parse") {
				args = e
			}
		}
		if args == nil {
			w.fail("command", o.pos, "the command's flags are not parsed when %s", trunc(fs.describe(), 200))
			continue
		}
		before := &State{facts: fs, mem: args.mem}
		flag := func(t *Term) string {
			if t = fs.subst(t); t.op == OLoad {
				if before.load(t.args[0], t.typ) == t {
					return flags[t.args[0]] + ", read before the flags are parsed"
				}
				return flags[t.args[0]]
			}
			return ""
		}
		early := ""
		for l := range fs.lits {
			l.walk(func(u *Term) {
				if u.op == OLoad && flags[u.args[0]] != "" && before.load(u.args[0], u.typ) == u {
					early = flags[u.args[0]]
				}
			})
		}
		if early != "" {
			w.fail("command", args.pos, "the flag %q is examined before the flags are parsed", early)
		}
		var parse, saved *Event
		for _, e := range o.st.events(nil) {
			if e.kind != "modcall" {
				continue
			}
			switch e.name {
			case fname(dir), fname(tree):
				parse = e
			case fname(save):
				saved = e
			}
		}
		when := trunc(fs.describe(), 200)
		if parse == nil || saved == nil || saved.n < parse.n {
			w.fail("command", o.pos, "the command ends without writing what it found when %s", when)
			continue
		}
		both[parse.name] = true
		c.count("command_outcomes", 1)
		var data *Term
		if parse.name == fname(dir) {
			data = parse.args[2]
			if n := flag(parse.args[0]); n != "in" {
				w.fail("command", parse.pos, "the directory is that of the flag %q", n)
			}
			if x := parse.args[1]; x.op != OCall || x.aux != "strings.Split" || flag(x.args[0]) != "exclude" {
				w.fail("command", parse.pos, "the excluded directories are %s", trunc(x.String(), 80))
			} else if s, ok := x.args[1].strConst(); !ok || s != "," {
				w.fail("command", parse.pos, "the excluded directories are separated by %s", x.args[1])
			}
		} else {
			data = parse.args[1]
			if n := flag(parse.args[0]); n != "pkg-tree" {
				w.fail("command", parse.pos, "the package is that of the flag %q", n)
			}
		}
		if !equal(fs, saved.args[0], data) {
			w.fail("command", saved.pos, "what is written is not what was found")
		}
		if n := flag(saved.args[1]); n != "out" {
			w.fail("command", saved.pos, "the files are written into the directory of the flag %q", n)
		}
		at := &State{facts: fs, mem: parse.mem}
		if n := flag(at.load(fieldAddr(data, "Default"), types.Typ[types.String])); n != "default" {
			w.fail("command", parse.pos, "the default domain is that of the flag %q", n)
		}
	}
	if len(both) < 2 {
		w.fail("command", f.Pos(), "the command does not offer both ways of finding source files")
	}
}

func init() {
	register("C35", "every outcome of the walkers is matched with a full scan of the files, packages, parsers or excluded names whose iterations all do what the property asks; every outcome of the inspection of a node hands calls on and registers imports", func(c *Ctx) {
		add, parse, walk := c.need(parserPkg+"/dir", "AddParser"), c.need(parserPkg+"/dir", "ParseDir"), c.need(parserPkg+"/dir", "ParseDirRec")
		tree := c.need(parserPkg+"/pkg-tree", "ParsePkgTree")
		if add == nil || tree == nil || parse == nil || walk == nil {
			return
		}
		ps := c.registered(add)
		if len(ps) == 0 {
			c.fail("anchors", fname(add), add.Pos(), "no parser is registered")
		}
		for _, f := range ps {
			c.dirParser(f)
		}
		c.treeParser(tree)
		c.dirWalk(walk, parse)
		c.dirParsers(parse, add)
		c.command()
	})
}
