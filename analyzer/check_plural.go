package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// formsUsed lists the form indices with which an outcome reads or writes translated forms
func formsUsed(o *Outcome) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	isForms := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && isInteger(m.Key()) && isString(m.Elem())
	}
	add := func(k *Term) {
		if !seen[k] {
			seen[k] = true
			r = append(r, k)
		}
	}
	scan := func(t *Term) {
		t.walk(func(s *Term) {
			if (s.op == OMapHas || s.op == OMapGet) && s.args[0].typ != nil && isForms(s.args[0].typ) {
				add(s.args[1])
			}
		})
	}
	for t := range o.st.facts.lits {
		scan(t)
	}
	for _, t := range o.res {
		scan(t)
	}
	for _, m := range o.st.writes(nil) {
		if m.kind == mMapUpd && isForms(m.addr.typ) {
			add(m.key)
		}
	}
	sortTerms(r)
	return r
}

// formRule: every form index that a function uses is the one that the catalogue selects
func (c *Ctx) formRule(f *ssa.Function, args []*Term, m map[string]*Term) {
	c.count("users", 1)
	r := c.runWith(f, args, nil, nil)
	for _, o := range r.outs {
		n := cases(r.x, o.st.facts, r.st0, func(d *dec) {
			k := catalog{d, domainOf(d, args[0])}
			form := k.form(m["n"], o)
			for _, u := range formsUsed(o) {
				c.count("form_uses", 1)
				if !equal(d.f, u, form) {
					c.fail("form", fname(f), o.pos, "uses form %s where the catalogue selects %s, when %s", u, form, trunc(d.f.describe(), 300))
				}
			}
			if len(o.res) == 1 && m["plural"] != nil {
				got, _, _ := strip(d.f, o.res[0])
				switch {
				case equal(d.f, got, m["id"]) && !d.ask(mkEq(form, mkInt(0))):
					c.fail("fallback-form", fname(f), o.pos, "falls back to the singular for form %s, when %s", form, trunc(d.f.describe(), 300))
				case equal(d.f, got, m["plural"]) && d.ask(mkEq(form, mkInt(0))):
					c.fail("fallback-form", fname(f), o.pos, "falls back to the plural for form 0, when %s", trunc(d.f.describe(), 300))
				}
			}
		})
		c.count("cases", n)
	}
}

// setterShape gives the roles of Set*
func setterShape(name string) ([]string, bool) {
	switch name {
	case "Set":
		return []string{"id", "str"}, true
	case "SetN":
		return []string{"id", "plural", "n", "str"}, true
	case "SetC":
		return []string{"id", "ctx", "str"}, true
	case "SetNC":
		return []string{"id", "plural", "ctx", "n", "str"}, true
	}
	return nil, false
}

func setterArgs(f *ssa.Function) ([]*Term, map[string]*Term, bool) {
	roles, ok := setterShape(f.Name())
	if !ok || len(f.Params) != len(roles)+1 {
		return nil, nil, false
	}
	m := map[string]*Term{}
	recv := mkParam("recv:"+f.Params[0].Type().String(), f.Params[0].Type())
	args := []*Term{recv}
	m["recv"] = recv
	for i, r := range roles {
		t := mkParam("role:"+r, f.Params[i+1].Type())
		m[r] = t
		args = append(args, t)
	}
	return args, m, true
}

// ruleStored: a rule of the header that compiles becomes the catalogue's rule
func (c *Ctx) ruleStored() {
	comp := c.need("plurals", "Compile")
	dt := c.p.typ("", "Domain")
	if comp == nil || dt == nil {
		return
	}
	// whoever calls Compile on behalf of a Domain
	for _, f := range c.p.funcs {
		if f.Signature.Recv() == nil || !types.Identical(f.Signature.Recv().Type(), types.NewPointer(dt)) {
			continue
		}
		direct := callsDirectly(f, comp)
		if !direct {
			continue
		}
		c.count("compilers", 1)
		r := c.runFn(f, func(x *Interp) { x.pure = func(g *ssa.Function) bool { return g == comp } })
		seen := map[*LoopRec]bool{}
		check := func(st *State, before *State, at *LoopRec, since *Event) {
			do := r.args[0]
			ld := func(s *State, n string) *Term { a := fieldAddr(do, n); return s.load(a, elemOf(a.typ)) }
			var last *Event
			for _, e := range st.events(since) {
				if e.kind == "modcall" && e.name == fname(comp) {
					last = e
				}
			}
			pos := f.Pos()
			if at != nil {
				pos = at.pos
			}
			if last == nil {
				for t, v := range st.facts.lits {
					if v && t.op == OEq && constArg(t, "plural") {
						c.fail("rule", fname(f), pos, "a plural rule in the header is not compiled, when %s", trunc(st.facts.describe(), 200))
					}
				}
				return
			}
			c.count("compilations", 1)
			switch st.facts.evalNil(last.res[1]) {
			case 1:
				if !equal(st.facts, ld(st, "pluralforms"), last.res[0]) {
					c.fail("rule", fname(f), last.pos, "a rule that compiled is not stored: the catalogue's rule becomes %s", ld(st, "pluralforms"))
				}
			case 0:
				if v := ld(st, "pluralforms"); v == last.res[0] {
					c.fail("rule", fname(f), last.pos, "the result of a failed compilation is stored")
				}
			default:
				c.fail("rule", fname(f), last.pos, "whether the rule compiled is not examined")
			}
			if !equal(st.facts, ld(st, "plural"), last.args[0]) {
				c.fail("rule", fname(f), last.pos, "the rule that is compiled (%s) is not the one that is kept (%s)", last.args[0], ld(st, "plural"))
			}
		}
		for _, o := range r.outs {
			inLoop := false
			for _, rec := range loopsOf(o.st) {
				for _, b := range rec.back {
					for _, e := range b.events(rec.start.ev) {
						if e.kind == "modcall" && e.name == fname(comp) {
							inLoop = true
						}
					}
				}
			}
			if !inLoop {
				check(o.st, r.st0, nil, nil)
			}
			for _, e := range o.st.events(nil) {
				if e.kind == "loop" && inLoop {
					c.wholeHeader(f, comp, o, e)
				}
			}
			for _, rec := range loopsOf(o.st) {
				if seen[rec] {
					continue
				}
				seen[rec] = true
				for _, b := range rec.back {
					check(b, rec.start, rec, rec.start.ev)
				}
			}
		}
	}
}

// wholeHeader: the search for the rule goes on until it is found, or the header ends
func (c *Ctx) wholeHeader(f, comp *ssa.Function, o *Outcome, loop *Event) {
	compiles := false
	var ts []*Term
	for _, b := range loop.loop.back {
		for _, e := range b.events(loop.loop.start.ev) {
			compiles = compiles || e.kind == "modcall" && e.name == fname(comp)
		}
		for t := range b.facts.lits {
			ts = append(ts, t)
		}
	}
	if !compiles {
		return
	}
	for _, e := range o.st.events(loop) {
		if e.kind == "modcall" && e.name == fname(comp) {
			return
		}
	}
	for _, sc := range scans(loop.loop) {
		i := mkLin(linAdd(linOf(sc.sym()), linConst(-sc.init)))
		for _, t := range ts {
			t.walk(func(u *Term) {
				if (u.op == OIndexAddr || u.op == OIndex) && u.args[0].op == OCall && strings.HasPrefix(u.args[0].aux, "strings.Split") {
					if d, ok := sc.offset(u.args[1]); ok && d > -sc.init {
						c.fail("rule", fname(f), loop.loop.pos, "the search for the plural rule passes over the beginning of the header")
					}
				}
			})
		}
		for _, seq := range indexes(ts, i) {
			if strings.Contains(seq.String(), "strings.Split") && o.st.facts.eval(mkGe0(linSub(linOf(i), linOf(mkLen(seq))))) != 1 {
				c.fail("rule", fname(f), loop.loop.pos, "the search for the plural rule can stop before the end of the header, when %s", trunc(o.st.facts.describe(), 200))
				return
			}
			cut := seq.op == OSlice
			seq.walk(func(u *Term) {
				if u.op == OCall && strings.HasPrefix(u.aux, "strings.SplitN") {
					if n, ok := u.args[2].intConst(); ok && n >= 0 {
						cut = true
					}
				}
			})
			if cut {
				c.fail("rule", fname(f), loop.loop.pos, "the plural rule is searched for in a part of the header only: %s", trunc(seq.String(), 200))
				return
			}
			c.count("header_searches", 1)
		}
	}
}

func constArg(t *Term, s string) bool {
	for _, a := range t.args {
		if v, ok := a.strConst(); ok && v == s {
			return true
		}
	}
	return false
}

func callsDirectly(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == g {
				return true
			}
		}
	}
	return false
}

func init() {
	register("C12", "Every form index with which Get*, Append*, IsTranslated* and Set* with a number read or write translated forms equals, on every abstract path, the value of: compiled rule if there is one, else custom resolver if set, else 0 exactly for n==1. SetPluralResolver stores its argument; in the header parser and after decoding, a rule that compiles is stored in the domain and a failed result is not.", func(c *Ctx) {
		for _, tn := range catalogTypes {
			for _, f := range c.lookups(tn) {
				l, _ := lookupShape(f.Name())
				if !l.plural || l.dom {
					continue
				}
				args, m, ok := roleArgs(f, l, nil)
				if !ok {
					c.badShape(f)
					continue
				}
				c.formRule(f, args, m)
			}
			for _, n := range []string{"SetN", "SetNC"} {
				if f := c.p.fn("", tn+"."+n); f != nil {
					args, m, ok := setterArgs(f)
					if !ok {
						c.badShape(f)
						continue
					}
					c.formRule(f, args, m)
				}
			}
		}
		for _, tn := range catalogTypes {
			if f := c.p.fn("", tn+".SetPluralResolver"); f != nil {
				r := c.runFn(f, nil)
				for _, o := range r.outs {
					d := &dec{x: r.x, f: o.st.facts, st: o.st}
					if v := d.field(domainOf(d, r.args[0]), "customPluralResolver"); !equal(o.st.facts, v, r.args[1]) {
						c.fail("resolver", fname(f), o.pos, "stores %s, not its argument", v)
					}
				}
				c.count("resolver_setters", 1)
			}
		}
		c.ruleStored()
		c.atLeast("users", 22)
		c.atLeast("form_uses", 20)
		c.atLeast("resolver_setters", 2)
		c.atLeast("compilations", 4)
	})
}
