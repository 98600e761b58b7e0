package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which calls xgotext extracts, and with which argument roles

// getters lists the library's translating functions: exported, given a string, and reaching a
// lookup of a Domain
func (c *Ctx) translators() map[string][]*ssa.Function {
	r := map[string][]*ssa.Function{}
	memo := map[*ssa.Function]bool{}
	var reaches func(f *ssa.Function, depth int) bool
	reaches = func(f *ssa.Function, depth int) bool {
		if v, ok := memo[f]; ok || depth > 20 {
			return v
		}
		memo[f] = false
		if rv := f.Signature.Recv(); rv != nil && isRootNamed(rv.Type(), "Domain") {
			if l, ok := lookupShape(f.Name()); ok && l.kind != "is" {
				memo[f] = true
				return true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				hit := false
				if cc.IsInvoke() {
					l, ok := lookupShape(cc.Method.Name())
					hit = ok && l.kind != "is" && cc.Method.Pkg() != nil && cc.Method.Pkg().Path() == modPath
				} else if h := cc.StaticCallee(); h != nil && h.Pkg != nil && h.Pkg.Pkg.Path() == modPath {
					hit = reaches(h, depth+1)
				}
				if hit {
					memo[f] = true
					return true
				}
			}
		}
		return memo[f]
	}
	for _, f := range c.p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath || f.Object() == nil || !f.Object().Exported() || f.Synthetic != "" {
			continue
		}
		res := f.Signature.Results()
		if res.Len() != 1 || !isString(res.At(0).Type()) && res.At(0).Type().String() != "[]byte" {
			continue
		}
		if reaches(f, 0) {
			r[f.Name()] = append(r[f.Name()], f)
		}
	}
	return r
}

func isRootNamed(t types.Type, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath
}

// roles are the positions that the library uses
func (c *Ctx) roles(name string, fs []*ssa.Function) (pos map[string]int64, ok bool) {
	l, ok := lookupShape(name)
	if !ok || l.kind == "is" {
		for _, f := range fs {
			c.fail("unknown-getter", fname(f), f.Pos(), "xgotext cannot know the arguments of the lookup %s", name)
		}
		return nil, false
	}
	pos = map[string]int64{"ID": -1, "Plural": -1, "Context": -1, "Domain": -1}
	for i, r := range l.roles {
		switch r {
		case "id":
			pos["ID"] = int64(i)
		case "plural":
			pos["Plural"] = int64(i)
		case "ctx":
			pos["Context"] = int64(i)
		case "dom":
			pos["Domain"] = int64(i)
		}
	}
	for _, f := range fs {
		if _, _, ok := roleArgs(f, l, nil); !ok {
			c.fail("unknown-getter", fname(f), f.Pos(), "the parameters of %s are not those of the other lookups of this name", name)
		}
	}
	return pos, true
}

func (c *Ctx) extractedCalls() {
	f, parse, check := c.need(parserPkg, "GoFile.InspectCallExpr"), c.need(parserPkg, "GoFile.ParseGetter"), c.need(parserPkg, "GoFile.CheckType")
	if f == nil || parse == nil || check == nil {
		return
	}
	lookups := c.translators()
	var names []string
	want := map[string]map[string]int64{}
	for n, fs := range lookups {
		if p, ok := c.roles(n, fs); ok {
			names = append(names, n)
			want[n] = p
			c.count("lookup_functions", len(fs))
		}
	}
	sort.Strings(names)
	if len(names) < 12 {
		c.fail("anchors", "gotext", f.Pos(), "only %d names of lookups are found: %v", len(names), names)
	}
	r := c.runFn(f, func(x *Interp) {
		x.opaque = func(h *ssa.Function) bool { return h == parse }
		x.pure = func(h *ssa.Function) bool { return h == check }
	})
	g, n := r.args[0], r.args[1]
	astType := func(name string) types.Type {
		pk := types.Unalias(elemOf(n.typ)).(*types.Named).Obj().Pkg()
		return types.NewPointer(pk.Scope().Lookup(name).Type())
	}
	found := map[string]bool{}
	done := map[string]bool{}
	for _, o := range r.outs {
		var call, checked *Event
		for _, e := range o.st.events(nil) {
			if e.kind == "modcall" && e.name == fname(parse) {
				call = e
			}
			if e.kind == "modcall" && e.name == fname(check) {
				checked = e
			}
		}
		bad := func(kind, format string, args ...interface{}) {
			s := fmt.Sprintf(format, args...)
			if !done[kind+s] {
				done[kind+s] = true
				c.fail(kind, fname(f), o.pos, "%s", s)
			}
		}
		c.count("cases", cases(r.x, o.st.facts, r.st0, func(d *dec) {
			fun := d.field(n, "Fun")
			if !d.ask(mk(OIsTyp, astType("SelectorExpr"), "", true, fun)) {
				if call != nil {
					bad("foreign", "a call that does not select a function of gotext is extracted")
				}
				return
			}
			sel := mk(OUnIface, astType("SelectorExpr"), "", true, fun)
			recv := d.field(sel, "X")
			name := d.field(d.field(sel, "Sel"), "Name")
			when := trunc(d.f.describe(), 300)
			lookup := ""
			for _, nm := range names {
				if d.ask(mkEq(name, mkStr(nm))) {
					lookup = nm
					break
				}
			}
			if lookup == "" && call == nil {
				return
			}
			gotext := false
			if checked != nil {
				t := checked.args[1]
				if !knownTypeOf(t, recv) {
					bad("foreign", "the type %s is checked instead of the receiver's", trunc(t.String(), 100))
				}
				gotext = d.ask(checked.res[0])
			} else {
				if why := c.typeUnknown(r, o, d.f, g, recv); why != "" && call == nil {
					bad("not-extracted", "%s when %s", why, when)
				}
				// by the name of the package
				if d.ask(mk(OIsTyp, astType("Ident"), "", true, recv)) {
					id := mk(OUnIface, astType("Ident"), "", true, recv)
					local := !d.ask(mkIsNil(d.field(id, "Obj")))
					if pkgs := d.field(g, "ImportedPackages"); (!local || call != nil) && !d.ask(mkIsNil(pkgs)) {
						if pkg, ok := d.lookup(pkgs, d.field(id, "Name")); ok && !d.ask(mkIsNil(pkg)) {
							gotext = d.ask(mkEq(d.field(pkg, "PkgPath"), mkStr(modPath)))
						}
					}
				}
			}
			if call != nil && !gotext {
				bad("foreign", "a call of something that is not of the package gotext is extracted when %s", when)
			}
			if !gotext {
				return
			}
			if nm := lookup; nm != "" {
				if call == nil {
					bad("not-extracted", "a call of %s is not extracted when %s", nm, when)
					return
				}
				found[nm] = true
				c.count("extracted_calls", 1)
				def := call.args[1]
				st := structOf(def.typ)
				for i := 0; st != nil && i < st.NumFields(); i++ {
					w, ok := want[nm][st.Field(i).Name()]
					if !ok {
						continue
					}
					if v := mkField(def, i, st.Field(i).Type()); d.f.eval(mkEq(v, mkInt(w))) != 1 {
						bad("wrong-argument", "the %s of %s is argument %d, but xgotext takes %s", strings.ToLower(st.Field(i).Name()), nm, w, v)
					}
				}
				return
			}
		}))
	}
	for _, n := range names {
		if !found[n] {
			c.fail("not-extracted", fname(f), f.Pos(), "calls of %s are never extracted", n)
		}
	}
}

// knownTypeOf: the term is the type that some package's type information records for an expression
func knownTypeOf(t, e *Term) bool {
	return t.contains(e) && strings.Contains(t.String(), "TypesInfo")
}

// typeUnknown: on this path no loaded package knows the expression's type ("" if so)
func (c *Ctx) typeUnknown(r *run, o *Outcome, f *Facts, g, e *Term) string {
	a := fieldAddr(g, "ImportedPackages")
	pkgs := r.st0.load(a, elemOf(a.typ))
	if f.evalNil(pkgs) == 1 {
		return ""
	}
	none := func(f *Facts, st *State, pkg *Term) bool {
		ok := true
		cases(r.x, f, st, func(d *dec) {
			info := d.field(pkg, "TypesInfo")
			if d.ask(mkIsNil(info)) {
				return
			}
			ts := d.field(info, "Types")
			if d.ask(mkIsNil(ts)) {
				return
			}
			if tv, has := d.lookup(ts, e); has {
				st := structOf(tv.typ)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == "Type" && d.f.evalNil(mkField(tv, i, st.Field(i).Type())) == 1 {
						return
					}
				}
				ok = false
			}
		})
		return ok
	}
	for _, l := range mapLoops(o.st, nil) {
		if !equal(f, l.m, pkgs) {
			continue
		}
		for _, b := range l.rec.back {
			if iterates(b, l.m, l.key) && !none(b.facts, b, l.entry(b)) {
				return "a package that knows the receiver's type is passed over"
			}
		}
		return ""
	}
	// the loop was left in an iteration whose package records no type
	nilType := false
	for t, v := range f.lits {
		if v && t.op == OIsNil && knownTypeOf(t.args[0], e) {
			nilType = true
		}
	}
	if nilType {
		return ""
	}
	return "the packages' type information is not all considered"
}

// knownTypes: what counts as a type of gotext
func (c *Ctx) knownTypes() {
	check := c.need(parserPkg, "GoFile.CheckType")
	if check == nil {
		return
	}
	r := c.runFn(check, func(x *Interp) { x.pure = func(h *ssa.Function) bool { return h == check } })
	g, t := r.args[0], r.args[1]
	tpkg := types.Unalias(t.typ).(*types.Named).Obj().Pkg()
	ptr := func(name string) types.Type { return types.NewPointer(tpkg.Scope().Lookup(name).Type()) }
	method := func(recv *Term, rt, name string) *Term {
		m, _, _ := types.LookupFieldOrMethod(ptr(rt), true, tpkg, name)
		return mkCall("(*go/types."+rt+")."+name, 0, m.Type().(*types.Signature).Results().At(0).Type(), recv)
	}
	reported := 0
	for _, o := range r.outs {
		// calls of itself
		self := map[*Term]*Term{}
		unaliased := map[*Term]bool{}
		note := func(u *Term) {
			u.walk(func(v *Term) {
				if v.op == OCall && v.aux == "go/types.Unalias" {
					unaliased[v.args[0]] = true
				}
			})
		}
		for _, e := range o.st.events(nil) {
			if e.kind == "modcall" && e.name == fname(check) {
				self[e.args[1]] = e.res[0]
				note(e.args[1])
			}
		}
		for l := range o.st.facts.lits {
			note(l)
		}
		note(o.res[0])
		if reported > 2 {
			break
		}
		c.count("type_cases", cases(r.x, o.st.facts, r.st0, func(d *dec) {
			if reported > 2 {
				return // chains of aliases have no end
			}
			is := func(u *Term, name string) (*Term, bool) {
				return mk(OUnIface, ptr(name), "", true, u), d.ask(mk(OIsTyp, ptr(name), "", true, u))
			}
			skip := false
			var spec func(u *Term, depth int) *Term
			plain := map[*Term]bool{}
			spec = func(u *Term, depth int) *Term {
				if v := self[u]; v != nil {
					return v
				}
				if unaliased[u] {
					v := mkCall("go/types.Unalias", 0, t.typ, u)
					plain[v] = true
					return spec(v, depth)
				}
				if d.ask(mkIsNil(u)) {
					return mkBool(false)
				}
				if v, ok := is(u, "Named"); ok {
					obj := method(v, "Named", "Obj")
					base := mkFieldAddr(obj, 0, types.NewPointer(structOf(elemOf(obj.typ)).Field(0).Type()))
					pkg := mkCall("(*go/types.object).Pkg", 0, types.NewPointer(tpkg.Scope().Lookup("Package").Type()), base)
					if d.ask(mkIsNil(pkg)) {
						return mkBool(false)
					}
					return mkEq(method(pkg, "Package", "Path"), mkStr(modPath))
				}
				if v, ok := is(u, "Pointer"); ok {
					if depth > 0 {
						skip = true // no methods
						return mkBool(false)
					}
					return spec(method(v, "Pointer", "Elem"), depth+1)
				}
				if v, ok := is(u, "Alias"); ok {
					if plain[u] {
						skip = true // cannot be
						return mkBool(false)
					}
					return spec(method(v, "Alias", "Rhs"), depth)
				}
				if _, ok := is(u, "Interface"); ok {
					skip = true
				}
				return mkBool(false)
			}
			want := spec(t, 0)
			if skip {
				return
			}
			w := d.ask(want)
			if got := d.ask(o.res[0]); got != w {
				kind, s := "not-extracted", "a type of gotext is not recognised"
				if got {
					kind, s = "foreign", "a type that is not gotext's counts as one"
				}
				reported++
				c.fail(kind, fname(check), o.pos, "%s when %s", s, trunc(d.f.describe(), 300))
			}
		}))
	}
	_ = g
}

func init() {
	register("C24", "every exported function of the library that reaches a lookup of a Domain (call graph) is matched with the outcomes of InspectCallExpr: the constant table entry handed to ParseGetter must have the argument positions of the function's parameters; outcomes without extraction must be justified by the receiver's type or package, and CheckType agrees with its specification", func(c *Ctx) {
		c.extractedCalls()
		c.knownTypes()
	})
}
