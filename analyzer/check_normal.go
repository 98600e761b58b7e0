package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Language codes: what SimplifiedLocale cuts off, and where it is applied.

// cutAt: t is the text of lang before the first of a set of characters, blanks at the ends
// aside; trimmed says that those were dropped after the last cut
func cutAt(x *Interp, st *State, t, lang *Term, trimmed *bool) (map[byte]bool, bool) {
	f := st.facts
	t = f.subst(t)
	set := map[byte]bool{}
	switch {
	case t == lang:
	case t.op == OCall && (t.aux == "strings.TrimSpace"):
		s, ok := cutAt(x, st, t.args[0], lang, trimmed)
		if !ok {
			return nil, false
		}
		set = s
		*trimmed = true
	case t.op == OSlice && len(t.args) >= 3:
		lo, isc := t.args[1].intConst()
		if !isc || lo != 0 {
			return nil, false
		}
		chars, of, ok := indexCall(x, t.args[2])
		if !ok {
			chars, of, ok = found(st, t)
		}
		if !ok || unsliced(f.subst(of)) != unsliced(f.subst(t.args[0])) {
			return nil, false
		}
		s, ok := cutAt(x, st, of, lang, trimmed)
		if !ok {
			return nil, false
		}
		*trimmed = false
		set = s
		for c := range chars {
			set[c] = true
		}
	default:
		seq, idx, ok := elemOfSeq(t)
		if !ok {
			return nil, false
		}
		if i, isc := idx.intConst(); !isc || i != 0 || seq.op != OCall {
			return nil, false
		}
		switch seq.aux {
		case "strings.Split", "strings.SplitN", "strings.SplitAfter":
		default:
			return nil, false
		}
		sep, ok := seq.args[1].strConst()
		if !ok || len(sep) != 1 || seq.aux == "strings.SplitAfter" {
			return nil, false
		}
		if seq.aux == "strings.SplitN" {
			if n, isc := seq.args[2].intConst(); !isc || n < 2 {
				return nil, false
			}
		}
		s, ok := cutAt(x, st, seq.args[0], lang, trimmed)
		if !ok {
			return nil, false
		}
		*trimmed = false
		set = s
		set[sep[0]] = true
	}
	// characters that the facts exclude
	for _, a := range absences(x, st) {
		if prefixOf(x, t, a.of) {
			for c := range a.chars {
				set[c] = true
			}
		}
	}
	return set, true
}

// prefixOf: t was made from u by cutting at the end and trimming
func prefixOf(x *Interp, t, u *Term) bool {
	for {
		if t == u {
			return true
		}
		switch {
		case t.op == OSlice && len(t.args) >= 3:
			_, of, ok := indexCall(x, t.args[2])
			if !ok {
				of = t.args[0]
			}
			t = of
		case t.op == OCall && t.aux == "strings.TrimSpace":
			t = t.args[0]
		default:
			seq, _, ok := elemOfSeq(t)
			if !ok || seq.op != OCall {
				return false
			}
			t = seq.args[0]
		}
	}
}

// unsliced undoes cutting at the end
func unsliced(t *Term) *Term {
	for t.op == OSlice && len(t.args) >= 2 {
		if lo, ok := t.args[1].intConst(); !ok || lo != 0 {
			break
		}
		t = t.args[0]
	}
	return t
}

type absence struct {
	of    *Term
	chars map[byte]bool
}

// indexCall: t is the position of the first of some characters in a text
func indexCall(x *Interp, t *Term) (map[byte]bool, *Term, bool) {
	if t.op != OCall || len(t.args) != 2 {
		return nil, nil, false
	}
	set := map[byte]bool{}
	switch t.aux {
	case "strings.Index":
		s, ok := t.args[1].strConst()
		if !ok || len(s) != 1 {
			return nil, nil, false
		}
		set[s[0]] = true
	case "strings.IndexAny":
		s, ok := t.args[1].strConst()
		if !ok {
			return nil, nil, false
		}
		for i := 0; i < len(s); i++ {
			if s[i] >= 0x80 {
				return nil, nil, false
			}
			set[s[i]] = true
		}
	case "strings.IndexByte", "strings.IndexRune":
		n, ok := t.args[1].intConst()
		if !ok || n < 0 || n >= 0x80 {
			return nil, nil, false
		}
		set[byte(n)] = true
	case "strings.IndexFunc":
		fn, ok := t.args[1].obj.(*ssa.Function)
		if !ok {
			return nil, nil, false
		}
		ch := mkSym("rune", types.Typ[types.Rune])
		for _, o := range x.call(fn, []*Term{ch}, t.args[1].args, x.newState()) {
			if o.panic {
				continue
			}
			cases(x, o.st.facts, o.st, func(d *dec) {
				if !d.ask(o.res[0]) {
					return
				}
				if n, isc := d.f.subst(ch).intConst(); isc && n >= 0 && n < 0x80 {
					set[byte(n)] = true
				} else {
					ok = false
				}
			})
		}
		if !ok {
			return nil, nil, false
		}
	default:
		return nil, nil, false
	}
	return set, t.args[0], true
}

// charAt splits "text[i]" and the character of a range over a text
func charAt(t *Term) (text, idx *Term, ok bool) {
	if t.op == OConv {
		t = t.args[0]
	}
	if t.op == OIndex && isString(t.args[0].typ) {
		return t.args[0], t.args[1], true
	}
	if t.op == OCall && t.aux == "range rune" {
		return t.args[0], t.args[1], true
	}
	return nil, nil, false
}

// passedOver: the characters that every completed iteration of a loop has seen to be absent at
// the position idx of a text
func passedOver(rec *LoopRec, text *Term, is func(idx *Term) bool) map[byte]bool {
	var set map[byte]bool
	for _, b := range rec.back {
		mine := map[byte]bool{}
		visit := func(root *Term) {
			root.walk(func(t *Term) {
				u, i, ok := charAt(t)
				if !ok || u != text || !is(i) {
					return
				}
				for c := int64(0); c < 0x80; c++ {
					if !mine[byte(c)] && b.facts.eval(mkEq0(linAdd(linOf(t), linConst(-c)))) == 0 {
						mine[byte(c)] = true
					}
				}
			})
		}
		for t := range b.facts.lits {
			visit(t)
		}
		for _, l := range b.facts.lin {
			visit(mkLin(l))
		}
		for _, l := range b.facts.neq {
			visit(mkLin(l))
		}
		if set == nil {
			set = mine
		}
		for c := range set {
			if !mine[c] {
				delete(set, c)
			}
		}
	}
	return set
}

// visits calls visit for each loop that looks at the characters of a text one by one: is
// recognises the position that an iteration looks at
func visits(st *State, visit func(rec *LoopRec, text, at *Term, is func(idx *Term) bool)) {
	for _, rec := range loopsOf(st) {
		seen := map[*Term]bool{}
		for _, b := range rec.back {
			for t := range b.facts.lits {
				t.walk(func(t *Term) {
					text, idx, ok := charAt(t)
					if !ok || seen[idx] {
						return
					}
					seen[idx] = true
					if t.op == OCall {
						visit(rec, text, idx, func(i *Term) bool { return i == idx })
						return
					}
					for _, s := range scans(rec) {
						at := mkLin(linAdd(linOf(s.sym()), linConst(-s.init)))
						if idx == at {
							visit(rec, text, at, func(i *Term) bool { return i == at })
						}
					}
				})
			}
		}
	}
}

// found: a slice that ends at the first of some characters, found by a loop
func found(st *State, t *Term) (map[byte]bool, *Term, bool) {
	var set map[byte]bool
	var of *Term
	visits(st, func(rec *LoopRec, text, at *Term, is func(idx *Term) bool) {
		if unsliced(text) != unsliced(t.args[0]) || st.facts.subst(t.args[2]) != at {
			return
		}
		over := passedOver(rec, text, is)
		// the character at this position is one of them
		for c := range over {
			for _, ch := range []*Term{mkIndex(text, at, types.Typ[types.Uint8]), mkCall("range rune", 0, types.Typ[types.Rune], text, at)} {
				if st.facts.eval(mkEq0(linAdd(linOf(ch), linConst(-int64(c))))) == 1 {
					set, of = over, text
				}
			}
		}
	})
	return set, of, set != nil
}

// scanned lists the texts that a loop has looked through to the end
func scanned(st *State) []absence {
	var r []absence
	visits(st, func(rec *LoopRec, text, at *Term, is func(idx *Term) bool) {
		end := st.facts.eval(mkCall("range end", 0, types.Typ[types.Bool], text, at)) == 1
		if !end && st.facts.eval(mkGe0(linSub(linOf(at), linOf(mkLen(text))))) != 1 {
			return
		}
		r = append(r, absence{text, passedOver(rec, text, is)})
	})
	return r
}

// absences lists the texts that are known not to contain some characters
func absences(x *Interp, st *State) []absence {
	f := st.facts
	r := scanned(st)
	seen := map[*Term]bool{}
	visit := func(root *Term) {
		root.walk(func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if chars, of, ok := indexCall(x, t); ok {
				if f.eval(mkGe0(linOf(t))) == 0 {
					r = append(r, absence{of, chars})
				}
				return
			}
			if t.op != OCall || len(t.args) != 2 {
				return
			}
			switch t.aux {
			case "strings.Contains", "strings.ContainsAny", "strings.ContainsRune":
				if f.eval(t) != 0 {
					return
				}
				name := map[string]string{"strings.Contains": "strings.Index", "strings.ContainsAny": "strings.IndexAny", "strings.ContainsRune": "strings.IndexRune"}[t.aux]
				if chars, of, ok := indexCall(x, mkCall(name, 0, types.Typ[types.Int], t.args...)); ok {
					r = append(r, absence{of, chars})
				}
			}
		})
	}
	for t := range f.lits {
		visit(t)
	}
	for t := range f.cst {
		visit(t)
	}
	for _, l := range f.lin {
		for _, v := range l.vs {
			visit(v.t)
		}
	}
	return r
}

func charSet(m map[byte]bool) string {
	s := ""
	for c := 0; c < 128; c++ {
		if m[byte(c)] {
			s += string(rune(c))
		}
	}
	return s
}

// simplified: SimplifiedLocale drops everything from the first ':', '@' or '.' on, and blanks
func (c *Ctx) simplified(simp *ssa.Function) {
	r := c.runFn(simp, nil)
	for _, o := range r.outs {
		trimmed := false
		set, ok := cutAt(r.x, o.st, o.res[0], r.args[0], &trimmed)
		c.count("results", 1)
		switch {
		case !ok:
			// an empty code is what remains of one that starts with a separator
			c.fail("simplify", fname(simp), o.pos, "returns %s, which is not the start of the given code, when %s", o.res[0], trunc(o.st.facts.describe(), 200))
		case charSet(set) != ".:@":
			c.fail("simplify", fname(simp), o.pos, "returns the code up to the first of %q, not of \".:@\", when %s", charSet(set), trunc(o.st.facts.describe(), 200))
		case !trimmed:
			c.fail("simplify", fname(simp), o.pos, "blanks may remain around the code, when %s", trunc(o.st.facts.describe(), 200))
		}
	}
}

// constructors: a new locale has the simplified code that it was given
func (c *Ctx) constructors(simp *ssa.Function) {
	for _, k := range []struct {
		name string
		lang int
	}{{"NewLocale", 1}, {"NewLocaleFS", 0}, {"NewLocaleFSWithPath", 0}} {
		f := c.need("", k.name)
		if f == nil {
			continue
		}
		r := c.runFn(f, func(x *Interp) { x.pure = func(g *ssa.Function) bool { return g == simp } })
		for _, o := range r.outs {
			c.count("constructors", 1)
			c.checkCode(f, o, o.st.load(fieldAddr(o.res[0], "lang"), types.Typ[types.String]), r.args[k.lang], "the locale's language")
		}
	}
}

func (c *Ctx) checkCode(f *ssa.Function, o *Outcome, got, want *Term, what string) {
	if got.op != OCall || !strings.HasSuffix(got.aux, "SimplifiedLocale") {
		c.fail("normalised", fname(f), o.pos, "%s is %s, not normalised", what, got)
		return
	}
	if !equal(o.st.facts, got.args[0], want) {
		c.fail("normalised", fname(f), o.pos, "%s is made from %s, not from %s", what, got.args[0], want)
	}
}

func init() {
	register("C33", "SimplifiedLocale returns, on every path, the start of its argument up to the first ':', '@' or '.', trimmed last; every locale constructor stores its result for the given code; Configure and SetLanguage apply it to every part of the ':'-separated list in order; the package-level IsTranslated functions compare locales with the normalised code.", func(c *Ctx) {
		simp := c.need("", "SimplifiedLocale")
		if simp == nil {
			return
		}
		c.simplified(simp)
		c.constructors(simp)
		load := c.loader()
		if load == nil {
			c.fail("anchors", "loader", 0, "no function that rebuilds the package's locales was found")
			return
		}
		for _, s := range []struct {
			name string
			arg  int
		}{{"Configure", 1}, {"SetLanguage", 0}} {
			f := c.need("", s.name)
			if f == nil {
				continue
			}
			r := c.runFn(f, func(x *Interp) {
				x.opaque = func(g *ssa.Function) bool { return g == load }
				x.pure = func(g *ssa.Function) bool { return g == simp }
			})
			for _, o := range r.outs {
				cfg := c.configPtr(o.st)
				if cfg == nil {
					return
				}
				a := fieldAddr(cfg, "languages")
				c.languagesOf(f, o, o.st.load(a, elemOf(a.typ)), r.args[s.arg])
			}
		}
		c.isTranslatedFor(true)
		c.atLeast("results", 2)
		c.atLeast("constructors", 3)
		c.atLeast("language_lists", 2)
		c.atLeast("language_tests", 4)
	})
}

// isTranslatedFor: the package-level IsTranslated functions ask the locale of each requested
// language. With codes set, only the codes that are compared are examined.
func (c *Ctx) isTranslatedFor(codes bool) {
	simp, act, getl := c.need("", "SimplifiedLocale"), c.need("", "Locale.GetActualLanguage"), c.need("", "GetLanguages")
	if simp == nil || act == nil || getl == nil {
		return
	}
	for _, f := range c.lookups("") {
		l, _ := lookupShape(f.Name())
		if l.kind != "is" || !l.dom {
			continue
		}
		args, m, ok := roleArgs(f, l, nil)
		if !ok || m["langs"] == nil {
			c.badShape(f)
			continue
		}
		lf := c.need("", "Locale."+f.Name())
		if lf == nil {
			continue
		}
		r := c.packageRun(f, args, simp, act, getl)
		if r == nil {
			return
		}
		c.count("lookups", 1)
		q := &asked{c: c, f: f, m: m, simp: fname(simp), act: fname(act), getl: fname(getl)}
		for _, o := range r.outs {
			fs := o.st.facts
			got := canon(fs, settle(fs, loopsOf(o.st), o.res[0]))
			if got.op == OCall && got.aux == fname(lf) {
				recv := got.args[0]
				lang := q.match(o, recv)
				if lang == nil {
					if !codes {
						c.fail("language", fname(f), o.pos, "answers with %s, which is not known to be the locale of a requested language, when %s", recv, trunc(fs.describe(), 300))
					}
					continue
				}
				q.code(o.st, o.pos, lang)
				if codes {
					continue
				}
				want := []*Term{recv}
				for _, role := range l.roles {
					want = append(want, m[role])
				}
				for i := range want {
					if !equal(fs, got.args[i], want[i]) {
						c.fail("arguments", fname(f), o.pos, "calls %s with %s in place of %s", fname(lf), got.args[i], want[i])
					}
				}
				q.earlier(o, recv, lang)
				continue
			}
			if v, isb := boolOf(fs, o.res[0]); codes || isb && !v {
				if !codes {
					q.exhausted(o)
				}
				continue
			}
			c.fail("result", fname(f), o.pos, "returns %s, which is neither false nor the answer of a locale, when %s", got, trunc(fs.describe(), 300))
		}
		if !codes {
			names := map[string]bool{fname(lf): true}
			for _, o := range r.outs {
				c.loadsFirst(f, o.st, m["dom"], names)
				c.localesFirst(f, o, names)
			}
		}
	}
}

// localesFirst: the configured locales are made before they are gone through
func (c *Ctx) localesFirst(f *ssa.Function, o *Outcome, names map[string]bool) {
	ld := fname(c.loader())
	for _, e := range o.st.events(nil) {
		reads := e.kind == "modcall" && names[e.name]
		if e.kind == "loop" {
			for _, b := range e.loop.back {
				reads = reads || readsLocales(b)
			}
		}
		if e.kind == "modcall" && e.name == ld {
			return
		}
		if reads {
			c.fail("load-locales", fname(f), e.pos, "consults the locales without having loaded them")
			return
		}
	}
}

func readsLocales(st *State) bool {
	for t := range st.facts.lits {
		found := false
		t.walk(func(u *Term) {
			if u.op == OFieldAddr && isLocaleSlice(elemOf(u.typ)) {
				found = true
			}
		})
		if found {
			return true
		}
	}
	return false
}

func boolOf(f *Facts, t *Term) (bool, bool) {
	v := f.eval(t)
	return v == 1, v >= 0
}

// asked examines how a function walks through the requested languages and the locales
type asked struct {
	c               *Ctx
	f               *ssa.Function
	m               map[string]*Term
	simp, act, getl string
}

// match finds the code that recv's actual language is known to equal
func (q *asked) match(o *Outcome, recv *Term) *Term {
	for _, p := range q.comparisons(o.st.facts) {
		if p.v == 1 && equal(o.st.facts, p.loc, recv) && equal(o.st.facts, p.dom, q.m["dom"]) {
			return p.code
		}
	}
	return nil
}

type comparison struct {
	code, loc, dom *Term
	v              int
}

// comparisons lists what the facts say about the actual languages of locales
func (q *asked) comparisons(f *Facts) []comparison {
	var r []comparison
	add := func(a, b *Term, v int) {
		for i := 0; i < 2; i++ {
			if b.op == OCall && b.aux == q.act && len(b.args) == 2 {
				r = append(r, comparison{code: a, loc: b.args[0], dom: b.args[1], v: v})
			}
			a, b = b, a
		}
	}
	for t := range f.lits {
		if t.op == OEq {
			add(t.args[0], t.args[1], f.eval(t))
		}
	}
	for t, k := range f.cst {
		add(t, k, 1)
	}
	sortComparisons(r)
	return r
}

func sortComparisons(r []comparison) {
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && (r[j].loc.id < r[j-1].loc.id || r[j].loc.id == r[j-1].loc.id && r[j].code.id < r[j-1].code.id); j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
}

// code: the code is a normalised element of the list of languages
func (q *asked) code(st *State, pos token.Pos, lang *Term) (idx *Term) {
	c := q.c
	c.count("language_tests", 1)
	e := lang
	if e.op == OCall && e.aux == q.simp {
		e = e.args[0]
	}
	seq, idx, ok := elemOfSeq(e)
	if !ok {
		c.fail("normalised", fname(q.f), pos, "a locale is compared with %s, which is not one of the requested languages", lang)
		return nil
	}
	seq = canon(st.facts, seq)
	none := st.facts.eval(mkEq0(linOf(mkLen(q.m["langs"]))))
	own := seq.op == OCall && seq.aux == q.getl
	switch {
	case e == lang && !own:
		c.fail("normalised", fname(q.f), pos, "a locale is compared with %s, not with the normalised code", lang)
	case own && none != 1, !own && (none != 0 || !equal(st.facts, seq, q.m["langs"])):
		c.fail("normalised", fname(q.f), pos, "takes the languages from %s, when %s", seq, trunc(st.facts.describe(), 200))
	}
	return idx
}

// covered: completed iterations of a loop visited all indices below idx, and each of them
// satisfies pred
func covered(st *State, since *Event, idx *Lin, pred func(b *State, rec *LoopRec, at *Term) bool) bool {
	fs := st.facts
	if fs.eval(mkGe0(linScale(idx, -1))) == 1 {
		return true
	}
	for _, e := range st.events(since) {
		if e.kind != "loop" {
			continue
		}
		rec := e.loop
		for _, s := range scans(rec) {
			for off := int64(-1); off <= 1; off++ {
				if s.init+off != 0 {
					continue
				}
				visited := linAdd(linOf(s.sym()), linConst(off))
				if fs.eval(mkGe0(linSub(visited, idx))) != 1 {
					continue
				}
				good := true
				for _, b := range rec.back {
					good = good && pred(b, rec, mkLin(visited))
				}
				if good {
					return true
				}
			}
		}
	}
	return false
}

// mismatched: the locales below idx are known not to have the language
func (q *asked) mismatched(st *State, since *Event, idx *Lin, locales, lang *Term) bool {
	el := locales.typ.Underlying().(*types.Slice).Elem()
	return covered(st, since, idx, func(b *State, rec *LoopRec, at *Term) bool {
		loc := b.load(mkIndexAddr(locales, at, types.NewPointer(el)), el)
		for _, p := range q.comparisons(b.facts) {
			if p.v == 0 && equal(b.facts, p.loc, loc) && equal(b.facts, p.code, lang) && equal(b.facts, p.dom, q.m["dom"]) {
				q.c.count("mismatches", 1)
				return true
			}
		}
		return false
	})
}

// noneHas: no locale has one of the languages below idx
func (q *asked) noneHas(st *State, idx *Lin, locales *Term) bool {
	return covered(st, nil, idx, func(b *State, rec *LoopRec, at *Term) bool {
		for _, p := range q.innerCodes(b, rec) {
			i := q.code(b, rec.pos, p)
			if i == nil || b.facts.eval(mkEq0(linSub(linOf(i), linOf(at)))) != 1 {
				continue
			}
			if q.mismatched(b, rec.start.ev, linOf(mkLen(locales)), locales, p) {
				return true
			}
		}
		// without locales there is nothing to compare
		return b.facts.eval(mkEq0(linOf(mkLen(locales)))) == 1
	})
}

// innerCodes lists the codes compared within an iteration
func (q *asked) innerCodes(b *State, rec *LoopRec) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	for _, e := range b.events(rec.start.ev) {
		if e.kind != "loop" {
			continue
		}
		for _, bb := range e.loop.back {
			for _, p := range q.comparisons(bb.facts) {
				if !seen[p.code] {
					seen[p.code] = true
					r = append(r, p.code)
				}
			}
		}
	}
	return r
}

// earlier: neither an earlier locale has the language nor any locale an earlier language
func (q *asked) earlier(o *Outcome, recv, lang *Term) {
	seq, idx, ok := elemOfSeq(recv)
	if !ok || !isLocaleSlice(seq.typ) {
		q.c.fail("order", fname(q.f), o.pos, "the answer comes from %s, which is not one of the configured locales", recv)
		return
	}
	if !q.mismatched(o.st, nil, linOf(idx), seq, lang) {
		q.c.fail("order", fname(q.f), o.pos, "a locale is asked although an earlier one may have the requested language, when %s", trunc(o.st.facts.describe(), 300))
	}
	li := q.code(o.st, o.pos, lang)
	if li != nil && !q.noneHas(o.st, linOf(li), seq) {
		q.c.fail("order", fname(q.f), o.pos, "a language is used although a locale may have an earlier one of the requested languages, when %s", trunc(o.st.facts.describe(), 300))
	}
}

// exhausted: false is returned only when no locale has any of the languages
func (q *asked) exhausted(o *Outcome) {
	cfg := q.c.configPtr(o.st)
	if cfg == nil {
		return
	}
	a := fieldAddr(cfg, "locales")
	locales := o.st.load(a, elemOf(a.typ))
	fs := o.st.facts
	if fs.eval(mkEq0(linOf(mkLen(locales)))) == 1 {
		return
	}
	n := linOf(mkLen(q.m["langs"]))
	if fs.eval(mkEq0(n)) == 1 {
		n = linOf(mkLen(mkCall(q.getl, 0, types.NewSlice(types.Typ[types.String]))))
	}
	if !q.noneHas(o.st, n, locales) {
		q.c.fail("gives-up", fname(q.f), o.pos, "answers false although a locale may have one of the requested languages, when %s", trunc(fs.describe(), 300))
	}
}

func init() {
	register("C34", "IsTranslatedD, ND, DC, NDC of the package: on every path that returns a locale's answer, that locale's actual language equals the normalised requested code, the arguments are passed on, the domain was loaded in it, and (by induction over both loops, which start at 0 and grow by one) no earlier locale has that language and no locale an earlier one; false is returned only when both loops have been completed without a match.", func(c *Ctx) {
		c.isTranslatedFor(false)
		c.atLeast("lookups", 4)
		c.atLeast("mismatches", 4)
		c.atLeast("locale_calls", 4)
	})
}
