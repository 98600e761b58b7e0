package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ifaceArgs lists the arguments of the Translator method for the roles of a lookup
func ifaceArgs(name string, recv *Term, m map[string]*Term) []*Term {
	l, _ := lookupShape(name)
	as := []*Term{recv}
	for _, r := range l.roles {
		as = append(as, m[r])
	}
	return as
}

func isTranslatorMethod(m *types.Func) bool {
	return m.Pkg() != nil && strings.HasPrefix(m.Pkg().Path(), modPath) && m.Pkg().Name() == "gotext"
}

// localeDomain is the domain that a Locale lookup uses
func localeDomain(d *dec, l lookupFn, m map[string]*Term, recv *Term) *Term {
	if l.dom {
		return m["dom"]
	}
	return d.field(recv, "defaultDomain")
}

// localeForward compares a Locale lookup or query with the specification
func (c *Ctx) localeForward(f *ssa.Function, l lookupFn) {
	args, m, ok := roleArgs(f, l, nil)
	if !ok {
		c.badShape(f)
		return
	}
	c.count("forwards", 1)
	r := c.runWith(f, args, nil, func(x *Interp) { x.pureInvoke = isTranslatorMethod })
	for _, o := range r.outs {
		n := cases(r.x, o.st.facts, r.st0, func(d *dec) {
			dom := localeDomain(d, l, m, args[0])
			tr, ok := d.lookup(d.field(args[0], "Domains"), dom)
			if ok && d.ask(mkIsNil(tr)) {
				ok = false
			}
			when := func() string { return trunc(d.f.describe(), 300) }
			switch {
			case l.kind == "is" && !ok:
				if !equal(d.f, o.res[0], mkBool(false)) {
					c.fail("missing-domain", fname(f), o.pos, "reports %s for a domain that is not loaded, when %s", o.res[0], when())
				}
			case l.kind == "is":
				// either the domain's own answer or one with the same meaning
				do := mkCall("invoke GetDomain", 0, f.Prog.ImportedPackage(modPath).Type("Domain").Object().Type(), tr)
				do = domainTerm(f, do)
				k := catalog{d, do}
				if want := k.translated(m, o); !equal(d.f, o.res[0], mkBool(want)) {
					c.fail("translated", fname(f), o.pos, "reports %s where the domain says %v, when %s", o.res[0], want, when())
				}
			case !ok:
				want := m["id"]
				if l.plural && !d.ask(mkEq(m["n"], mkInt(1))) {
					want = m["plural"]
				}
				got, _, _ := strip(d.f, o.res[0])
				if !equal(d.f, got, want) {
					c.fail("fallback", fname(f), o.pos, "returns %s where the source text is %s, when %s", got, want, when())
				}
			default:
				want := mkCall("invoke "+l.base, 0, types.Typ[types.String], ifaceArgs(l.base, tr, m)...)
				if !equal(d.f, o.res[0], want) {
					c.fail("forward", fname(f), o.pos, "returns %s, not %s, when %s", o.res[0], want, when())
				}
			}
		})
		c.count("cases", n)
	}
	c.sample("%s: %d outcomes", fname(f), len(r.outs))
}

func domainTerm(f *ssa.Function, do *Term) *Term {
	t := f.Prog.ImportedPackage(modPath).Type("Domain").Object().Type()
	return mkCall("invoke GetDomain", 0, types.NewPointer(t), do.args...)
}

// sameAs compares two functions that must agree on the same objects
func (c *Ctx) sameAs(f *ssa.Function, l lookupFn, g *ssa.Function, recvOf func(d *dec, recv *Term) *Term) {
	args, m, ok := roleArgs(f, l, nil)
	if !ok {
		c.badShape(f)
		return
	}
	c.count("forwards", 1)
	rf := c.runWith(f, args, nil, nil)
	d0 := &dec{x: rf.x, f: newFacts()}
	d0.st = &State{facts: d0.f, mem: rf.st0.mem}
	gr := recvOf(d0, args[0])
	gl, _ := lookupShape(g.Name())
	gargs, gm, ok := roleArgs(g, gl, gr)
	if !ok {
		c.badShape(g)
		return
	}
	for k, v := range gm {
		if k != "recv" && m[k] != v {
			c.fail("shape", fname(f), f.Pos(), "%s and %s have different types of %s", fname(f), fname(g), k)
			return
		}
	}
	rg := c.runWith(g, gargs, nil, nil)
	used := make([]bool, len(rf.outs))
	for _, og := range rg.outs {
		for i, of := range rf.outs {
			fs, ok := merge(og.st.facts, of.st.facts)
			if !ok {
				continue
			}
			used[i] = true
			c.count("outcome_pairs", 1)
			if !equal(fs, of.res[0], og.res[0]) {
				c.fail("forward", fname(f), of.pos, "returns %s where %s returns %s, when %s", of.res[0], fname(g), og.res[0], trunc(fs.describe(), 300))
			}
		}
	}
	for i, u := range used {
		if !u {
			c.fail("forward", fname(f), rf.outs[i].pos, "a path of %s has no counterpart in %s", fname(f), fname(g))
		}
	}
}

// packageDefault: a package-level function without a domain calls the one with, in GetDomain()
func (c *Ctx) packageDefault(f *ssa.Function, l lookupFn) {
	base := "Get"
	if l.kind == "is" {
		base = "IsTranslated"
	}
	suffix := strings.TrimPrefix(f.Name(), base)
	target := base
	if l.plural {
		target += "N"
	}
	target += "D"
	if l.ctx {
		target += "C"
	}
	target = dName(base, suffix)
	g := c.need("", target)
	if g == nil {
		return
	}
	args, m, ok := roleArgs(f, l, nil)
	gl, _ := lookupShape(g.Name())
	if !ok {
		c.badShape(f)
		return
	}
	if l.kind == "is" {
		if last := args[len(args)-1]; last.typ != nil {
			m["langs"] = last
		}
		gl.roles = append(gl.roles, "langs")
	}
	c.count("forwards", 1)
	dn := c.need("", "GetDomain")
	r := c.runWith(f, args, nil, func(x *Interp) {
		x.pure = func(h *ssa.Function) bool { return h == g || h == dn }
	})
	dom := mkCall(fname(dn), 0, types.Typ[types.String])
	for _, o := range r.outs {
		var as []*Term
		for _, role := range gl.roles {
			if role == "dom" {
				as = append(as, dom)
			} else {
				as = append(as, m[role])
			}
		}
		want := mkCall(fname(g), 0, o.res[0].typ, as...)
		if !equal(o.st.facts, o.res[0], want) {
			c.fail("forward", fname(f), o.pos, "returns %s, not %s, when %s", o.res[0], want, trunc(o.st.facts.describe(), 300))
		}
	}
}

// dName is the name of the variant that names a domain
func dName(base, suffix string) string {
	switch suffix {
	case "":
		return base + "D"
	case "N":
		return base + "ND"
	case "C":
		return base + "DC"
	}
	return base + "NDC"
}

// formatting decides C06 for one function
func (c *Ctx) formatting(f *ssa.Function, l lookupFn, tn string) {
	args, m, ok := roleArgs(f, l, nil)
	if !ok {
		c.badShape(f)
		return
	}
	c.count("lookups", 1)
	lower := map[*ssa.Function]bool{}
	r := c.runWith(f, args, nil, func(x *Interp) {
		x.pureInvoke = isTranslatorMethod
		if tn == "" {
			c.packageModel(x, lower)
			for _, g := range c.lookups("") {
				if gl, _ := lookupShape(g.Name()); gl.dom && g != f && gl.kind == l.kind && !l.dom {
					g := g
					lower[g] = true
				}
			}
		}
	})
	for _, o := range r.outs {
		n := cases(r.x, o.st.facts, r.st0, func(d *dec) {
			got := canon(d.f, o.res[0])
			if l.kind == "append" {
				if got.op != OAppendS {
					c.fail("format", fname(f), o.pos, "returns %s, which is not the given slice with a text appended", got)
					return
				}
				got = canon(d.f, got.args[1])
			}
			for got.op == OConv {
				got = canon(d.f, got.args[0])
			}
			// handed to a lower lookup together with the arguments
			if got.op == OCall && (strings.HasPrefix(got.aux, "invoke Get") || lowerName(lower, got.aux)) {
				if last := got.args[len(got.args)-1]; !equal(d.f, last, m["vars"]) {
					c.fail("arguments", fname(f), o.pos, "calls %s with %s, not with all its arguments", got.aux, last)
				}
				return
			}
			if d.ask(mkGe0(linAdd(linOf(mkLen(m["vars"])), linConst(-1)))) {
				if got.op != OCall || got.aux != "fmt.Sprintf" || len(got.args) != 2 || !equal(d.f, got.args[1], m["vars"]) || formats(got.args[0]) {
					c.fail("format", fname(f), o.pos, "returns %s for a call with arguments, not fmt.Sprintf(text, args...), when %s", got, trunc(d.f.describe(), 300))
				}
				return
			}
			if formats(got) {
				c.fail("verbatim", fname(f), o.pos, "returns %s for a call without arguments, not the text itself, when %s", got, trunc(d.f.describe(), 300))
			}
		})
		c.count("cases", n)
	}
}

func lowerName(lower map[*ssa.Function]bool, aux string) bool {
	for f := range lower {
		if fname(f) == aux {
			return true
		}
	}
	return false
}

// formats: the term contains a call of a formatting or otherwise transforming function
func formats(t *Term) bool {
	bad := false
	t.walk(func(s *Term) {
		if s.op == OCall && (strings.HasPrefix(s.aux, "fmt.") || strings.HasPrefix(s.aux, "strings.")) {
			bad = true
		}
	})
	return bad
}

// packageModel: what the package-level functions build on is treated as given
func (c *Ctx) packageModel(x *Interp, lower map[*ssa.Function]bool) {
	op := map[*ssa.Function]bool{}
	for _, n := range []string{"loadLocales", "Locale.AddDomain", "GetDomain"} {
		if f := c.p.fn("", n); f != nil {
			op[f] = true
		}
	}
	for _, f := range c.lookups("Locale") {
		lower[f] = true
	}
	pure := map[*ssa.Function]bool{}
	for _, n := range []string{"Locale.GetActualLanguage", "SimplifiedLocale", "Locale.hasDomain"} {
		if f := c.p.fn("", n); f != nil {
			pure[f] = true
		}
	}
	x.opaque = func(f *ssa.Function) bool { return op[f] }
	x.pure = func(f *ssa.Function) bool { return lower[f] || pure[f] }
}

func init() {
	register("C08", "Po, Mo against Domain: equal results on every pair of compatible paths. Locale: on every path, the result is that of the same operation of the translator registered under the named or default domain with the same arguments, or the source text (plural text exactly when n != 1) when there is none. Package level: each function without a domain returns the result of the one with a domain, for GetDomain() and the same arguments.", func(c *Ctx) {
		for _, tn := range []string{"Po", "Mo"} {
			for _, f := range c.lookups(tn) {
				l, _ := lookupShape(f.Name())
				if g := c.need("", "Domain."+f.Name()); g != nil {
					c.sameAs(f, l, g, domainOf)
				}
			}
		}
		for _, f := range c.lookups("Locale") {
			l, _ := lookupShape(f.Name())
			c.localeForward(f, l)
		}
		for _, f := range c.lookups("") {
			l, _ := lookupShape(f.Name())
			if !l.dom && l.kind != "append" {
				c.packageDefault(f, l)
			}
		}
		c.atLeast("forwards", 48)
	})
}
