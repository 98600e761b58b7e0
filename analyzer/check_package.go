package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loader finds the function that (re)builds the package's locales: called by Configure and
// by every setter, and assigning the list of locales
func (c *Ctx) loader() *ssa.Function {
	count := map[*ssa.Function]int{}
	for _, n := range []string{"Configure", "SetLanguage", "SetLibrary", "SetDomain"} {
		f := c.need("", n)
		if f == nil {
			return nil
		}
		for g := range staticCallees(c.p, f) {
			count[g]++
		}
	}
	var best *ssa.Function
	for g, n := range count {
		if n != 4 || g.Signature.Params().Len() != 1 {
			continue
		}
		for _, e := range c.p.effects(g).list {
			if strings.HasSuffix(e, ".locales") && (best == nil || fname(g) < fname(best)) {
				best = g
			}
		}
	}
	return best
}

// staticCallees lists the module functions that f calls, directly or through others
func staticCallees(p *Program, f *ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var h *ssa.Function
				switch in := in.(type) {
				case *ssa.Call:
					h = in.Call.StaticCallee()
				case *ssa.Defer:
					h = in.Call.StaticCallee()
				case *ssa.MakeClosure:
					h, _ = in.Fn.(*ssa.Function)
				}
				if h != nil && p.inMod[h] && !r[h] {
					r[h] = true
					visit(h)
				}
			}
		}
	}
	visit(f)
	return r
}

// packageRun analyses a package-level lookup over an abstract model of the locales
func (c *Ctx) packageRun(f *ssa.Function, args []*Term, extraPure ...*ssa.Function) *run {
	load := c.loader()
	if load == nil {
		c.fail("anchors", "loader", f.Pos(), "no function that rebuilds the package's locales was found")
		return nil
	}
	add := c.p.fn("", "Locale.AddDomain")
	pure := map[*ssa.Function]bool{}
	for _, g := range c.lookups("Locale") {
		pure[g] = true
	}
	for _, g := range extraPure {
		pure[g] = true
	}
	return c.runWith(f, args, nil, func(x *Interp) {
		x.opaque = func(g *ssa.Function) bool { return g == load || g == add }
		x.pure = func(g *ssa.Function) bool { return pure[g] }
	})
}

// noLocales: the facts say that the package has no locale
func noLocales(f *Facts) bool {
	for t, v := range f.lits {
		if !v || t.op != OEq0 && t.op != OGe0 {
			if !(t.op == OGe0 && !v) {
				continue
			}
		}
		l := linOf(t.args[0])
		for _, e := range l.vs {
			if e.t.op == OLen && isLocaleSlice(e.t.args[0].typ) && f.eval(mkEq0(linOf(e.t))) == 1 {
				return true
			}
		}
	}
	return false
}

// chosen decides that the locale used for a result is the first translated one, or the last
func (c *Ctx) chosen(f *ssa.Function, o *Outcome, isName string, isArgs func(recv *Term) []*Term, recv *Term) {
	fs := o.st.facts
	seq, idx, ok := elemOfSeq(recv)
	if !ok || !isLocaleSlice(seq.typ) {
		c.fail("order", fname(f), o.pos, "the result comes from %s, which is not one of the configured locales", recv)
		return
	}
	n := mkLen(seq)
	last := mkLin(linAdd(linOf(n), linConst(-1)))
	tr := func(fs *Facts, at *Term) int {
		return fs.eval(mkCall(isName, 0, types.Typ[types.Bool], isArgs(at)...))
	}
	if tr(fs, recv) != 1 && fs.eval(mkEq0(linSub(linOf(idx), linOf(last)))) != 1 {
		c.fail("first-translated", fname(f), o.pos, "uses the locale at index %s although it is neither known to have a translation nor the last one, when %s", idx, trunc(fs.describe(), 300))
	}
	// every locale before it was seen to have no translation
	if fs.eval(mkEq0(linOf(idx))) == 1 {
		return
	}
	for _, rec := range loopsOf(o.st) {
		for _, s := range scans(rec) {
			for off := int64(-1); off <= 1; off++ {
				if s.init+off != 0 {
					continue
				}
				// indices 0 .. sym+off-1 were visited by completed iterations
				visited := linAdd(linOf(s.sym()), linConst(off))
				if fs.eval(mkGe0(linSub(visited, linOf(idx)))) != 1 {
					continue
				}
				at := rebuild(recv, idx, mkLin(visited))
				if recv.op == OLoad {
					at = mk(OLoad, recv.typ, recv.aux, false, mkIndexAddr(seq, mkLin(visited), recv.args[0].typ))
				}
				good := true
				for _, b := range rec.back {
					if tr(b.facts, at) != 0 {
						good = false
						c.fail("skips", fname(f), rec.pos, "goes on to the next locale although the current one may have a translation, when %s", trunc(b.facts.describe(), 300))
					}
				}
				if good {
					c.count("back_edges", len(rec.back))
				}
				return
			}
		}
	}
	c.fail("order", fname(f), o.pos, "the locale at index %s is used without the ones before it having been asked in order", idx)
}

// loadedIn: the state has loaded the domain into a locale, or found it loaded there. A variable of
// a finished loop was loaded if each value that an iteration gave it was
func loadedIn(st *State, before *Event, loc, dom *Term, seen map[*Term]bool) bool {
	var evs []*Event
	for e := before; e != nil; e = e.prev {
		evs = append(evs, e)
	}
	for _, e := range evs {
		if e.kind == "modcall" && strings.HasSuffix(e.name, ".AddDomain") && equal(st.facts, e.args[1], dom) && equal(st.facts, e.args[0], loc) {
			return true
		}
	}
	for t, v := range st.facts.lits {
		if v && t.op == OMapHas && equal(st.facts, t.args[1], dom) && t.args[0].op == OLoad && t.args[0].args[0].op == OFieldAddr && equal(st.facts, t.args[0].args[0].args[0], loc) {
			return true
		}
	}
	if seen[loc] {
		return true
	}
	seen[loc] = true
	for _, e := range evs {
		if e.kind != "loop" {
			continue
		}
		for i, s := range e.loop.sym {
			if s != loc {
				continue
			}
			if in := e.loop.init[i]; !in.isNil() && !loadedIn(st, e.prev, in, dom, seen) {
				return false
			}
			for k, b := range e.loop.back {
				if !loadedIn(b, b.ev, e.loop.next[k][i], dom, seen) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// lacked: the locale was seen not to have the domain
func lacked(f *Facts, loc, dom *Term) bool {
	for t, v := range f.lits {
		if !v && t.op == OMapHas && equal(f, t.args[1], dom) && t.args[0].op == OLoad && t.args[0].args[0].op == OFieldAddr && equal(f, t.args[0].args[0].args[0], loc) {
			return true
		}
	}
	return false
}

// loadsFirst: every lookup on a locale comes after the domain was loaded there
func (c *Ctx) loadsFirst(f *ssa.Function, st *State, dom *Term, names map[string]bool) {
	for _, e := range st.events(nil) {
		if e.kind == "modcall" && strings.HasSuffix(e.name, ".AddDomain") {
			c.count("loads", 1)
			if !lacked(st.facts, e.args[0], e.args[1]) {
				c.fail("load-on-demand", fname(f), e.pos, "a lookup loads a domain anew that the locale may have, and loses what was stored in it, when %s", trunc(st.facts.describe(), 300))
			}
		}
		if e.kind != "modcall" || !names[e.name] {
			continue
		}
		c.count("locale_calls", 1)
		if !loadedIn(st, e.prev, e.args[0], dom, map[*Term]bool{}) {
			c.fail("load-on-demand", fname(f), e.pos, "%s is called on a locale that may not have loaded the domain, when %s", e.name, trunc(st.facts.describe(), 300))
		}
	}
}

func (c *Ctx) packageLookup(f *ssa.Function, l lookupFn, order, load bool) {
	args, m, ok := roleArgs(f, l, nil)
	if !ok {
		c.badShape(f)
		return
	}
	c.count("lookups", 1)
	lf := c.need("", "Locale."+f.Name())
	isf := c.need("", "Locale."+dName("IsTranslated", strings.ReplaceAll(strings.TrimPrefix(f.Name(), "Get"), "D", "")))
	if lf == nil || isf == nil {
		return
	}
	r := c.packageRun(f, args)
	if r == nil {
		return
	}
	il, _ := lookupShape(isf.Name())
	isArgs := func(recv *Term) []*Term {
		as := []*Term{recv}
		for _, role := range il.roles {
			as = append(as, m[role])
		}
		return as
	}
	if load {
		names := map[string]bool{fname(lf): true, fname(isf): true}
		seen := map[*LoopRec]bool{}
		for _, o := range r.outs {
			c.loadsFirst(f, o.st, m["dom"], names)
			for _, rec := range loopsOf(o.st) {
				if !seen[rec] {
					seen[rec] = true
					for _, b := range rec.back {
						c.loadsFirst(f, b, m["dom"], names)
					}
				}
			}
			// the default locales exist before they are consulted
			evs := o.st.events(nil)
			first := -1
			loaded := -1
			ld := fname(c.loader())
			for i, e := range evs {
				if e.kind == "modcall" && e.name == ld && loaded < 0 {
					loaded = i
				}
				if (e.kind == "loop" || e.kind == "modcall" && names[e.name]) && first < 0 {
					first = i
				}
			}
			if loaded < 0 || first >= 0 && first < loaded {
				c.fail("load-locales", fname(f), o.pos, "consults the locales without having loaded them")
			}
		}
	}
	if !order {
		return
	}
	for _, o := range r.outs {
		got := canon(o.st.facts, settle(o.st.facts, loopsOf(o.st), o.res[0]))
		if got.op == OCall && got.aux == fname(lf) {
			recv := got.args[0]
			want := []*Term{recv}
			for _, role := range l.roles {
				want = append(want, m[role])
			}
			for i := range want {
				if !equal(o.st.facts, got.args[i], want[i]) {
					c.fail("arguments", fname(f), o.pos, "calls %s with %s in place of %s", fname(lf), got.args[i], want[i])
				}
			}
			c.chosen(f, o, fname(isf), isArgs, recv)
			continue
		}
		if noLocales(o.st.facts) {
			cases(r.x, o.st.facts, r.st0, func(d *dec) {
				want := m["id"]
				if l.plural && !d.ask(mkEq(m["n"], mkInt(1))) {
					want = m["plural"]
				}
				t, _, _ := strip(d.f, got)
				if !equal(d.f, t, want) {
					c.fail("no-locale", fname(f), o.pos, "returns %s without any locale, not the source text %s", got, want)
				}
			})
			continue
		}
		c.fail("result", fname(f), o.pos, "returns %s, which is not the result of a configured locale, when %s", got, trunc(o.st.facts.describe(), 300))
	}
	c.sample("%s: %d outcomes", fname(f), len(r.outs))
}

func init() {
	register("C10", "GetD, GetND, GetDC, GetNDC: the result is that of the locale at some index of the configured list; at the point of use that locale has a translation or is the last one; an inductive argument over the loop shows that the index starts at 0, grows by one, and that every completed iteration had a locale without a translation. Without locales the source text is returned.", func(c *Ctx) {
		for _, f := range c.lookups("") {
			l, _ := lookupShape(f.Name())
			if l.kind == "get" && l.dom {
				c.packageLookup(f, l, true, false)
			}
		}
		c.atLeast("lookups", 4)
		c.atLeast("back_edges", 4)
	})
}
