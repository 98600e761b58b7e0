package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// configPtr is the object that holds the package configuration
func (c *Ctx) configPtr(st *State) *Term {
	pk := c.p.pkg("")
	for _, m := range pk.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		p, ok := elemOf(g.Type()).(*types.Pointer)
		if !ok {
			continue
		}
		s, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if isLocaleSlice(s.Field(i).Type()) {
				return st.load(mkGlobal(g), elemOf(g.Type()))
			}
		}
	}
	c.fail("anchors", "config", 0, "no package configuration with a list of locales found")
	return nil
}

// seqInfo: a sequence whose i-th element is elem (with idx standing for i), of length n
type seqInfo struct {
	idx  *Term
	elem *Term
	n    *Term
	rec  *LoopRec
	back *State
}

// builtSeq recognises a slice that a loop builds from another sequence, element by element:
// by appending one element per iteration or by filling a slice made with the right length
func builtSeq(st *State, t *Term) (info seqInfo, ok bool) {
	recs := loopsOf(st)
	for _, rec := range recs {
		for j, s := range rec.sym {
			if t != s || len(rec.back) == 0 {
				continue
			}
			if n, ok := emptyLen(rec.init[j]); !ok || n != 0 {
				return info, false
			}
			// exactly one element per iteration
			var elem *Term
			for _, nx := range rec.next {
				a := nx[j]
				if a.op != OAppend || len(a.args) != 2 || a.args[0] != s {
					return info, false
				}
				if elem != nil && elem != a.args[1] {
					return info, false
				}
				elem = a.args[1]
			}
			for _, sc := range scans(rec) {
				// the index that an iteration works on: 0 in the first one
				i := mkLin(linAdd(linOf(sc.sym()), linConst(-sc.init)))
				// iterations completed at the exit
				return seqInfo{idx: i, elem: elem, n: i, rec: rec, back: rec.back[0]}, true
			}
		}
	}
	// filled by index
	if t.op == OAlloc || t.op == OSlice {
		for _, rec := range recs {
			if len(rec.back) == 0 {
				continue
			}
			for _, sc := range scans(rec) {
				i := mkLin(linAdd(linOf(sc.sym()), linConst(-sc.init)))
				var elem *Term
				good := true
				for _, b := range rec.back {
					el := types.Type(nil)
					if s, ok := typeUnder(t).(*types.Slice); ok {
						el = s.Elem()
					}
					if el == nil {
						return info, false
					}
					v := b.load(mkIndexAddr(t, i, types.NewPointer(el)), el)
					stored := false
					for _, m := range b.writes(rec.start.mem) {
						if m.kind == mStore && b.facts.same(m.addr, mkIndexAddr(t, i, types.NewPointer(el))) {
							stored = true
						}
					}
					if !stored || elem != nil && elem != v {
						good = false
					}
					elem = v
				}
				if good && elem != nil {
					return seqInfo{idx: i, elem: elem, n: mkLen(t), rec: rec, back: rec.back[0]}, true
				}
			}
		}
	}
	return info, false
}

// emptyLen: the constant length of a slice
func emptyLen(t *Term) (int64, bool) {
	if t.isNil() {
		return 0, true
	}
	return mkLen(t).intConst()
}

// finished: the loop has visited indices 0..len(src)-1 when control leaves it
func (s seqInfo) finished(fs *Facts, src *Term) bool {
	sc := scans(s.rec)
	if len(sc) == 0 {
		return false
	}
	done := linOf(s.idx)
	return fs.eval(mkGe0(linSub(done, linOf(mkLen(src))))) == 1 && fs.eval(mkGe0(linSub(linOf(mkLen(src)), done))) >= 0 || fs.eval(mkEq0(linSub(done, linOf(mkLen(src))))) == 1
}

// languagesOf: t must be the simplified elements of strings.Split(lang, ":"), in order
func (c *Ctx) languagesOf(f *ssa.Function, o *Outcome, t, lang *Term) {
	info, ok := builtSeq(o.st, t)
	if !ok {
		c.fail("languages", fname(f), o.pos, "the list of languages (%s) is not built from the given codes one by one", t)
		return
	}
	e := info.elem
	fs := info.back.facts
	if e.op == OCall && strings.HasSuffix(e.aux, "SimplifiedLocale") && len(e.args) == 1 {
		e = e.args[0]
	} else {
		c.fail("languages", fname(f), o.pos, "languages are stored as %s, not normalised", e)
		return
	}
	seq, idx, ok := elemOfSeq(e)
	if !ok || fs.eval(mkEq0(linSub(linOf(idx), linOf(info.idx)))) != 1 {
		c.fail("languages", fname(f), o.pos, "the i-th language is %s", e)
		return
	}
	if seq.op != OCall || seq.aux != "strings.Split" || !equal(o.st.facts, seq.args[0], lang) || !equal(o.st.facts, seq.args[1], mkStr(":")) {
		c.fail("languages", fname(f), o.pos, "languages come from %s, not from the parts of the given code list", seq)
		return
	}
	if !info.finished(o.st.facts, seq) {
		c.fail("languages", fname(f), o.pos, "not every language of the list is stored, when %s", trunc(o.st.facts.describe(), 200))
	}
	c.count("language_lists", 1)
}

// settings: Configure and the setters store what they are given, then rebuild
func (c *Ctx) settings() {
	load := c.loader()
	if load == nil {
		c.fail("anchors", "loader", 0, "no function that rebuilds the package's locales was found")
		return
	}
	simp := c.need("", "SimplifiedLocale")
	type setter struct {
		name  string
		field map[string]int
	}
	for _, s := range []setter{
		{"Configure", map[string]int{"library": 0, "languages": 1, "domain": 2}},
		{"SetLanguage", map[string]int{"languages": 0}},
		{"SetLibrary", map[string]int{"library": 0}},
		{"SetDomain", map[string]int{"domain": 0}},
	} {
		f := c.need("", s.name)
		if f == nil {
			continue
		}
		c.count("setters", 1)
		r := c.runFn(f, func(x *Interp) {
			x.opaque = func(g *ssa.Function) bool { return g == load }
			x.pure = func(g *ssa.Function) bool { return g == simp }
		})
		for _, o := range r.outs {
			cfg := c.configPtr(o.st)
			if cfg == nil {
				return
			}
			// the state in which the rebuild starts
			var at *State
			for _, e := range o.st.events(nil) {
				if e.kind == "modcall" && e.name == fname(load) {
					at = &State{facts: o.st.facts, mem: e.mem, ev: o.st.ev}
					if o.st.facts.eval(e.args[0]) != 1 {
						c.fail("rebuild", fname(f), e.pos, "%s does not rebuild the locales", s.name)
					}
				}
			}
			if at == nil {
				c.fail("rebuild", fname(f), o.pos, "%s returns without having reloaded the locales", s.name)
				continue
			}
			for fld, i := range s.field {
				v := at.load(fieldAddr(cfg, fld), elemOf(fieldAddr(cfg, fld).typ))
				end := o.st.load(fieldAddr(cfg, fld), elemOf(fieldAddr(cfg, fld).typ))
				if v != end {
					c.fail("setting", fname(f), o.pos, "%s changes %s after the locales were rebuilt", s.name, fld)
				}
				if fld == "languages" {
					c.languagesOf(f, o, v, r.args[i])
					continue
				}
				if !equal(o.st.facts, v, r.args[i]) {
					c.fail("setting", fname(f), o.pos, "%s stores %s as %s, not its argument", s.name, v, fld)
				}
			}
			// the other settings stay
			for _, fld := range []string{"library", "languages", "domain"} {
				if _, ok := s.field[fld]; ok {
					continue
				}
				a := fieldAddr(cfg, fld)
				if o.st.load(a, elemOf(a.typ)) != r.st0.load(a, elemOf(a.typ)) {
					c.fail("setting", fname(f), o.pos, "%s also changes %s", s.name, fld)
				}
			}
		}
	}
	c.rebuild(load)
	c.getters(load)
}

// rebuild: the loader builds one locale per language and loads the default domain in each
func (c *Ctx) rebuild(load *ssa.Function) {
	add := c.need("", "Locale.AddDomain")
	newl := c.need("", "NewLocale")
	setd := c.need("", "Locale.SetDomain")
	if add == nil || newl == nil || setd == nil {
		return
	}
	x0 := newInterp(c.p)
	args, _ := x0.rootArgs(load)
	for _, rebuilt := range []bool{true, false} {
		st := x0.newState()
		st.facts, _ = st.facts.assume(args[0], rebuilt)
		r := c.runWith(load, args, st, func(x *Interp) {
			x.opaque = func(g *ssa.Function) bool { return g == add || g == newl }
			// a locale that is built or loaded reads files, and does not touch the settings
		})
		for _, o := range r.outs {
			fs := o.st.facts
			cfg := c.configPtr(o.st)
			if cfg == nil {
				return
			}
			ld := func(st *State, fld string) *Term { a := fieldAddr(cfg, fld); return st.load(a, elemOf(a.typ)) }
			for _, fld := range []string{"library", "languages", "domain"} {
				if ld(o.st, fld) != ld(r.st0, fld) {
					c.fail("rebuild", fname(load), o.pos, "rebuilding the locales changes %s", fld)
				}
			}
			locs := ld(o.st, "locales")
			old := ld(r.st0, "locales")
			empty := fs.eval(mkEq0(linOf(mkLen(old))))
			switch {
			case rebuilt || empty == 1:
				info, ok := builtSeq(o.st, locs)
				if !ok {
					// no languages at all
					if n, isc := emptyLen(locs); isc && n == 0 && fs.eval(mkEq0(linOf(mkLen(ld(r.st0, "languages"))))) == 1 {
						continue
					}
					c.fail("locales", fname(load), o.pos, "the list of locales (%s) is not built from the languages one by one", locs)
					continue
				}
				// the element: the result of NewLocale(library, languages[i])
				ev := findCall(info.rec, fname(newl), info.elem)
				if ev == nil {
					c.fail("locales", fname(load), o.pos, "the i-th locale is %s, not a new one", info.elem)
					continue
				}
				if !equal(fs, ev.args[0], ld(r.st0, "library")) {
					c.fail("locales", fname(load), ev.pos, "a locale is built for the path %s, not for the configured library", ev.args[0])
				}
				seq, idx, ok := elemOfSeq(ev.args[1])
				if !ok || !equal(fs, seq, ld(r.st0, "languages")) || info.back.facts.eval(mkEq0(linSub(linOf(idx), linOf(info.idx)))) != 1 {
					c.fail("locales", fname(load), ev.pos, "the i-th locale is built for %s, not for the i-th language", ev.args[1])
				} else if !info.finished(fs, seq) {
					c.fail("locales", fname(load), o.pos, "not every language gets a locale, when %s", trunc(fs.describe(), 200))
				}
				c.count("locale_lists", 1)
			default:
				if locs != old {
					c.fail("locales", fname(load), o.pos, "replaces the locales (%s) although it was not asked to, when %s", locs, trunc(fs.describe(), 200))
				}
			}
			// the loop over the locales
			dom := ld(r.st0, "domain")
			found := false
			for _, rec := range loopsOf(o.st) {
				calls := map[*State]bool{}
				for _, b := range rec.back {
					for _, e := range b.events(rec.start.ev) {
						if e.kind == "modcall" && e.name == fname(add) {
							calls[b] = true
						}
					}
				}
				touched := false
				for _, b := range rec.back {
					for _, m := range b.writes(rec.start.mem) {
						if m.kind == mStore && strings.HasSuffix(m.class, ".defaultDomain") {
							touched = true
						}
					}
				}
				if len(calls) == 0 && !touched {
					continue
				}
				found = true
				c.count("load_loops", 1)
				var sc *scan
				for _, s := range scans(rec) {
					s := s
					sc = &s
				}
				if sc == nil {
					c.fail("load", fname(load), rec.pos, "the locales are not visited one after another")
					continue
				}
				i := mkLin(linAdd(linOf(sc.sym()), linConst(-sc.init)))
				for _, b := range rec.back {
					at := b.load(mkIndexAddr(locs, i, types.NewPointer(locs.typ.Underlying().(*types.Slice).Elem())), locs.typ.Underlying().(*types.Slice).Elem())
					loaded := false
					for _, e := range b.events(rec.start.ev) {
						if e.kind == "modcall" && e.name == fname(add) {
							if equal(b.facts, e.args[0], at) && equal(b.facts, e.args[1], dom) {
								loaded = true
								if !rebuilt && locs == old && !lacked(b.facts, at, dom) {
									c.fail("load", fname(load), e.pos, "loads the default domain anew in a locale that may have it, although it was not asked to, when %s", trunc(b.facts.describe(), 200))
								}
							} else {
								c.fail("load", fname(load), e.pos, "loads %s in %s, not the configured domain in the current locale", e.args[1], e.args[0])
							}
						}
					}
					if !loaded && !rebuilt {
						// it has the domain already
						for t, v := range b.facts.lits {
							if v && t.op == OMapHas && equal(b.facts, t.args[1], dom) && t.args[0].op == OLoad && t.args[0].args[0].op == OFieldAddr && equal(b.facts, t.args[0].args[0].args[0], at) {
								loaded = true
							}
						}
					}
					if !loaded {
						c.fail("load", fname(load), rec.pos, "a locale is left without the configured domain having been loaded, when %s", trunc(b.facts.describe(), 200))
					}
					dd := b.load(fieldAddr(at, "defaultDomain"), types.Typ[types.String])
					if !equal(b.facts, dd, dom) {
						c.fail("default-domain", fname(load), rec.pos, "a locale's default domain becomes %s, not the configured one", dd)
					}
				}
				if fs.eval(mkGe0(linSub(linOf(i), linOf(mkLen(locs))))) != 1 {
					c.fail("load", fname(load), o.pos, "the loop may end before the last locale, when %s", trunc(fs.describe(), 200))
				}
			}
			if !found && fs.eval(mkEq0(linOf(mkLen(locs)))) != 1 {
				c.fail("load", fname(load), o.pos, "the domain is not loaded in the locales")
			}
		}
	}
}

// findCall finds the call of an iteration that gave a value
func findCall(rec *LoopRec, name string, res *Term) *Event {
	for _, b := range rec.back {
		for _, e := range b.events(rec.start.ev) {
			if e.kind == "modcall" && e.name == name {
				for _, r := range e.res {
					if r == res {
						return e
					}
				}
			}
		}
	}
	return nil
}

// getters report what is configured
func (c *Ctx) getters(load *ssa.Function) {
	check := func(name string, want func(d *dec, cfg *Term) *Term) {
		f := c.need("", name)
		if f == nil {
			return
		}
		c.count("getters", 1)
		r := c.runFn(f, func(x *Interp) {
			x.opaque = func(g *ssa.Function) bool { return g == load }
		})
		for _, o := range r.outs {
			cfg := c.configPtr(r.st0)
			cases(r.x, o.st.facts, r.st0, func(d *dec) {
				w := want(d, cfg)
				if !equal(d.f, o.res[0], w) {
					c.fail("getter", fname(f), o.pos, "returns %s, not %s, when %s", o.res[0], w, trunc(d.f.describe(), 200))
				}
			})
		}
	}
	fld := func(name string) func(d *dec, cfg *Term) *Term {
		return func(d *dec, cfg *Term) *Term { return d.field(cfg, name) }
	}
	check("GetLibrary", fld("library"))
	check("GetLanguages", fld("languages"))
	check("GetLocales", fld("locales"))
	check("GetLanguage", func(d *dec, cfg *Term) *Term {
		ls := d.field(cfg, "languages")
		if d.ask(mkEq0(linOf(mkLen(ls)))) {
			g := c.p.pkg("").Var("FallbackLocale")
			return d.load(mkGlobal(g))
		}
		return d.load(mkIndexAddr(ls, mkInt(0), types.NewPointer(types.Typ[types.String])))
	})
	check("GetDomain", func(d *dec, cfg *Term) *Term {
		ls := d.field(cfg, "locales")
		if !d.ask(mkEq0(linOf(mkLen(ls)))) {
			el := ls.typ.Underlying().(*types.Slice).Elem()
			loc := d.load(mkIndexAddr(ls, mkInt(0), types.NewPointer(el)))
			dom := d.field(loc, "defaultDomain")
			if !d.ask(mkEq(dom, mkStr(""))) {
				return dom
			}
		}
		return d.field(cfg, "domain")
	})
	// SetLocales installs the list as it is
	if f := c.need("", "SetLocales"); f != nil {
		r := c.runFn(f, nil)
		for _, o := range r.outs {
			cfg := c.configPtr(o.st)
			ld := func(fld string) *Term { a := fieldAddr(cfg, fld); return o.st.load(a, elemOf(a.typ)) }
			if !equal(o.st.facts, ld("locales"), r.args[0]) {
				c.fail("set-locales", fname(f), o.pos, "installs %s", ld("locales"))
			}
			c.firstLocale(f, r, o, ld)
			for _, m := range o.st.writes(nil) {
				if m.kind == mStore && (strings.HasPrefix(m.class, "E:*gotext.Locale") || strings.HasPrefix(m.class, "F:gotext.Locale.")) || m.kind == mMapUpd {
					c.fail("set-locales", fname(f), m.pos, "changes the given locales")
				}
			}
		}
		c.count("setters", 1)
	}
}

// firstLocale: SetLocales takes the settings from the given locales
func (c *Ctx) firstLocale(f *ssa.Function, r *run, o *Outcome, ld func(fld string) *Term) {
	fs, ls := o.st.facts, r.args[0]
	cfg := c.configPtr(r.st0)
	el := ls.typ.Underlying().(*types.Slice).Elem()
	at := func(i *Term, fld string) *Term {
		loc := r.st0.load(mkIndexAddr(ls, i, types.NewPointer(el)), el)
		a := fieldAddr(loc, fld)
		return r.st0.load(a, elemOf(a.typ))
	}
	// inLoop: the field is set by the iterations of a loop over all the locales
	inLoop := func(fld string, entry func(st *State, v *Term) bool, step func(b *State, i, before, after *Term) bool) bool {
		a := fieldAddr(cfg, fld)
		now := ld(fld)
		for _, rec := range loopsOf(o.st) {
			if rec.start.load(a, elemOf(a.typ)) != now || rec.entry.load(a, elemOf(a.typ)) == now {
				continue
			}
			for _, sc := range scans(rec) {
				i := mkLin(linAdd(linOf(sc.sym()), linConst(-sc.init)))
				ok := fs.eval(mkGe0(linSub(linOf(i), linOf(mkLen(ls))))) == 1 && entry(rec.entry, rec.entry.load(a, elemOf(a.typ)))
				for _, b := range rec.back {
					ok = ok && step(b, i, now, b.load(a, elemOf(a.typ)))
				}
				if ok {
					return true
				}
			}
		}
		return false
	}
	for fld, of := range map[string]string{"library": "path", "domain": "defaultDomain"} {
		a := fieldAddr(cfg, fld)
		was := r.st0.load(a, elemOf(a.typ))
		if inLoop(fld, func(st *State, v *Term) bool { return equal(st.facts, v, was) }, func(b *State, i, before, after *Term) bool {
			switch b.facts.eval(mkEq0(linOf(i))) {
			case 1:
				return equal(b.facts, after, at(i, of)) || equal(b.facts, after, at(mkInt(0), of))
			case 0:
				return after == before
			}
			return false
		}) {
			continue
		}
		switch fs.eval(mkEq0(linOf(mkLen(ls)))) {
		case 1:
			if !equal(fs, ld(fld), was) {
				c.fail("set-locales", fname(f), o.pos, "without locales, %s becomes %s", fld, ld(fld))
			}
		case 0:
			if !equal(fs, ld(fld), at(mkInt(0), of)) {
				c.fail("set-locales", fname(f), o.pos, "%s becomes %s, not that of the first locale", fld, ld(fld))
			}
		default:
			c.fail("set-locales", fname(f), o.pos, "%s becomes %s whether there are locales or not", fld, ld(fld))
		}
	}
	if inLoop("languages", func(st *State, v *Term) bool { return st.facts.eval(mkEq0(linOf(mkLen(v)))) == 1 }, func(b *State, i, before, after *Term) bool {
		return after.op == OAppend && len(after.args) == 2 && after.args[0] == before && equal(b.facts, after.args[1], at(i, "lang"))
	}) {
		return
	}
	langs := ld("languages")
	if fs.eval(mkEq0(linOf(mkLen(ls)))) == 1 {
		if fs.eval(mkEq0(linOf(mkLen(langs)))) != 1 {
			c.fail("set-locales", fname(f), o.pos, "without locales, the languages become %s", langs)
		}
		return
	}
	info, ok := builtSeq(o.st, langs)
	if !ok {
		c.fail("set-locales", fname(f), o.pos, "the languages become %s, not those of the locales", langs)
		return
	}
	if !equal(info.back.facts, info.elem, at(info.idx, "lang")) || !info.finished(fs, ls) {
		c.fail("set-locales", fname(f), o.pos, "the languages become %s, not those of all the locales in their order", info.elem)
	}
}

// initialSettings: what holds before anything is configured
func (c *Ctx) initialSettings() {
	st := c.p.initState
	if st == nil {
		return
	}
	cfg := c.configPtr(st)
	if cfg == nil {
		return
	}
	ld := func(fld string) *Term { a := fieldAddr(cfg, fld); return st.load(a, elemOf(a.typ)) }
	pos := c.p.pkg("").Func("init").Pos()
	for fld, want := range map[string]string{"domain": "default", "library": "/usr/local/share/locale"} {
		if s, ok := ld(fld).strConst(); !ok || s != want {
			c.fail("initial", "init", pos, "before it is configured, %s is %s", fld, ld(fld))
		}
	}
	langs := ld("languages")
	fb := st.load(mkGlobal(c.p.pkg("").Var("FallbackLocale")), types.Typ[types.String])
	if n, ok := mkLen(langs).intConst(); !ok || n != 1 || !equal(st.facts, st.load(mkIndexAddr(langs, mkInt(0), types.NewPointer(types.Typ[types.String])), types.Typ[types.String]), fb) {
		c.fail("initial", "init", pos, "before it is configured, the languages are %s", langs)
	}
	if s, ok := fb.strConst(); !ok || s != "en_US" {
		c.fail("initial", "init", pos, "the fallback language is %s", fb)
	}
	c.count("initial_settings", 1)
}

func init() {
	register("C11", "Configure and the setters store their arguments (languages: the normalised parts of the list in order, by induction over the loop), then call the rebuild with true; the rebuild makes one NewLocale(library, languages[i]) per language in order, and loads and sets the default domain in every locale; getters return the fields; every package-level lookup loads the locales first and loads the domain in each locale before consulting it.", func(c *Ctx) {
		c.settings()
		c.initialSettings()
		for _, f := range c.lookups("") {
			l, _ := lookupShape(f.Name())
			if l.kind == "get" && l.dom {
				c.packageLookup(f, l, false, true)
			}
		}
		c.atLeast("setters", 5)
		c.atLeast("getters", 5)
		c.atLeast("language_lists", 2)
		c.atLeast("locale_lists", 2)
		c.atLeast("load_loops", 2)
		c.atLeast("locale_calls", 8)
	})
}
