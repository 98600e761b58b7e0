package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Headers: the lines of the header entry and the map that keeps them

// cutAtFirst recognises what precedes and what follows the first sep in a text, however it is
// cut: by index, Cut, or splitting in two
func cutAtFirst(f *Facts, t *Term) (text *Term, sep string, after, ok bool) {
	t = f.subst(t)
	if t.op == OSlice {
		x := t.args[0]
		isIndex := func(ix *Term) bool {
			ix = f.subst(ix)
			return ix.op == OCall && len(ix.args) == 2 && (ix.aux == "strings.Index" || ix.aux == "strings.IndexByte" || ix.aux == "strings.IndexRune") && equal(f, ix.args[0], x)
		}
		if n, isc := t.args[1].intConst(); isc && n == 0 && isIndex(t.args[2]) {
			return x, sepOf(f.subst(t.args[2]).args[1]), false, true
		}
		if l := linOf(f.subst(t.args[1])); len(l.vs) == 1 && l.vs[0].k == 1 && isIndex(l.vs[0].t) && equal(f, t.args[2], mkLen(x)) {
			s := sepOf(f.subst(l.vs[0].t).args[1])
			if l.c == int64(len(s)) {
				return x, s, true, true
			}
		}
		return
	}
	if seq, idx, isElem := elemOfSeq(t); isElem {
		if x, s, max, isSplit := splitCall(f.subst(seq)); isSplit {
			if n, isc := idx.intConst(); isc && (n == 0 || n == 1 && max == 2) {
				return x, s, n == 1, true
			}
		}
	}
	return
}

// hasSep decides whether a text contains sep: 1, 0 or -1
func hasSep(f *Facts, text *Term, sep string) int {
	r := -1
	for _, name := range []string{"strings.Index", "strings.IndexByte", "strings.IndexRune"} {
		s := mkStr(sep)
		if name != "strings.Index" {
			s = mkInt(int64(sep[0]))
		}
		at := mkCall(name, 0, types.Typ[types.Int], text, s)
		if v := f.eval(mkGe0(linOf(at))); v >= 0 {
			return v
		}
		if _, ok := f.assume(mkGe0(linOf(at)), true); !ok {
			return 0
		}
	}
	f.atoms(func(t *Term) {
		switch {
		case t.op == OCall && t.aux == "strings.Contains" && equal(f, t.args[0], text) && sepOf(t.args[1]) == sep:
			if v := f.eval(t); v >= 0 {
				r = v
			}
		case t.op == OLen:
			if x, s, max, ok := splitCall(t.args[0]); ok && s == sep && (max < 0 || max == 2) && equal(f, x, text) {
				if v := f.eval(mkGe0(linAdd(linOf(t), linConst(-2)))); v >= 0 {
					r = v
				}
			}
		case t.op == OCall && strings.HasPrefix(t.aux, "strings.Index") && len(t.args) == 2 && equal(f, t.args[0], text) && sepOf(t.args[1]) == sep:
			if v := f.eval(mkGe0(linOf(t))); v >= 0 {
				r = v
			}
		}
	})
	return r
}

// sameFold decides whether the facts say that a key is a name, whatever its letter case
func sameFold(f *Facts, key *Term, name string, isName func(t *Term) bool) int {
	r := -1
	low := func(t *Term) (*Term, bool) {
		if t.op == OCall && (t.aux == "strings.ToLower" || t.aux == "strings.ToUpper") && len(t.args) == 1 {
			return t.args[0], true
		}
		return t, false
	}
	named := func(t *Term) bool {
		if s, ok := t.strConst(); ok {
			return strings.EqualFold(s, name)
		}
		return isName(t)
	}
	f.atoms(func(t *Term) {
		if r >= 0 || len(t.args) != 2 {
			return
		}
		switch {
		case t.op == OEq:
			for i := range t.args {
				a, fa := low(t.args[i])
				b, fb := low(t.args[1-i])
				s, isc := b.strConst()
				if fa && equal(f, a, key) && named(b) && (fb || isc && (s == strings.ToLower(s) || s == strings.ToUpper(s))) {
					if isc && !fb && t.args[i].aux == "strings.ToLower" != (s == strings.ToLower(s)) {
						continue
					}
					r = f.eval(t)
				}
			}
		case t.op == OCall && t.aux == "strings.EqualFold":
			for i := range t.args {
				if equal(f, t.args[i], key) && named(t.args[1-i]) {
					r = f.eval(t)
				}
			}
		}
	})
	// substituted equalities
	for t, k := range f.cst {
		if r >= 0 {
			break
		}
		a, fa := low(t)
		b, fb := low(k)
		if _, isc := b.strConst(); fa && (fb || isc) && equal(f, a, key) {
			if named(b) {
				r = 1
			} else if isc {
				r = 0
			}
		}
	}
	return r
}

func (c *Ctx) headerLines() {
	f := c.need("", "Domain.parseHeaders")
	compile := c.need("plurals", "Compile")
	if f == nil || compile == nil {
		return
	}
	r := c.runFn(f, func(x *Interp) { x.pure = func(h *ssa.Function) bool { return h == compile } })
	do := r.args[0]
	str := types.Typ[types.String]
	for _, o := range r.outs {
		when := trunc(o.st.facts.describe(), 300)
		hA := fieldAddr(do, "Headers")
		headers := o.st.load(hA, elemOf(hA.typ))
		if !equal(o.st.facts, headers, r.st0.load(hA, elemOf(hA.typ))) {
			c.fail("kept", fname(f), o.pos, "replaces the headers by %s", headers)
			continue
		}
		n := cases(r.x, o.st.facts, r.st0, func(d *dec) {
			// the text of the header entry
			tr, has := d.lookup(d.field(do, "translations"), mkStr(""))
			want := mkStr("")
			if has {
				if v, ok := d.lookup(d.field(tr, "Trs"), mkInt(0)); ok && !d.ask(mkEq(v, mkStr(""))) {
					want = v
				} else {
					want = nil // the entry's own id: no header lines
				}
			}
			// the loop over its lines
			var rec *LoopRec
			var sc scan
			var seq *Term
			for _, l := range loopsOf(o.st) {
				for _, s := range scans(l) {
					for _, b := range l.back {
						for _, w := range b.writes(l.start.mem) {
							if w.kind == mMapUpd && equal(b.facts, w.addr, headers) {
								if x, _, _, ok := cutAtFirst(b.facts, w.key); ok {
									if sq, ix, ok := elemOfSeq(x); ok {
										if _, isOff := s.offset(ix); isOff {
											rec, sc, seq = l, s, sq
										}
									}
								}
							}
						}
					}
				}
			}
			if rec == nil {
				if want == nil || want.op == OConst || d.ask(mkEq(want, mkStr(""))) {
					return
				}
				c.fail("lines", fname(f), o.pos, "the lines of the header entry are not all kept, when %s", when)
				return
			}
			text, sep, max, isSplit := splitCall(d.f.subst(seq))
			if !isSplit || sep != "\n" || max >= 0 || want != nil && !equal(d.f, text, want) && !(text.op == OConst && d.ask(mkEq(want, mkStr("")))) {
				c.fail("lines", fname(f), rec.pos, "keeps the lines of %s, not those of the header entry, when %s", trunc(seq.String(), 100), when)
				return
			}
			c.count("header_texts", 1)
			if !d.f.entails(linSub(linAdd(linOf(sc.sym()), linConst(-sc.init)), linOf(mkLen(seq)))) {
				c.fail("lines", fname(f), rec.pos, "may stop before the last header line, when %s", when)
			}
			keys := c.headerLine(f, rec, sc, seq, headers)
			for _, fld := range []string{"Language", "Plural-Forms"} {
				j := keys[fld]
				fa := fieldAddr(do, strings.ReplaceAll(fld, "-", ""))
				got := o.st.load(fa, str)
				if j < 0 {
					c.fail("recognised", fname(f), rec.pos, "the spelling of %s in the catalogue is not recognised whatever its letter case", fld)
					continue
				}
				d2 := &dec{x: r.x, f: d.f, st: o.st.clone()}
				d2.set(d.f)
				d2.script, d2.pos = d.script, d.pos
				val := mkStr("")
				vs, ok := d2.lookup(headers, rec.sym[j])
				if ok && !d2.ask(mkEq0(linOf(mkLen(vs)))) {
					val = o.st.load(mkIndexAddr(vs, mkInt(0), types.NewPointer(str)), str)
				}
				d.script, d.pos, d.next = d2.script, d2.pos, append(d.next, d2.next...)
				d.set(d2.f)
				if !equal(d2.f, got, val) {
					c.fail("recognised", fname(f), o.pos, "%s becomes %s, not the first value of its header %s, when %s", fld, got, val, when)
				} else {
					c.count("fields_set", 1)
				}
			}
		})
		c.count("cases", n)
	}
}

// headerLine examines the iterations over the header's lines and finds the variables that hold
// the spelling of Language and Plural-Forms
func (c *Ctx) headerLine(f *ssa.Function, rec *LoopRec, sc scan, seq, headers *Term) map[string]int {
	vars := map[string]int{"Language": -1, "Plural-Forms": -1}
	for name := range vars {
		for j, t := range rec.init {
			if s, ok := t.strConst(); ok && strings.EqualFold(s, name) {
				vars[name] = j
			}
		}
	}
	for i, b := range rec.back {
		when := trunc(b.facts.describe(), 240)
		var ups []*Mem
		for _, w := range b.writes(rec.start.mem) {
			if w.addr == nil || !equal(b.facts, w.addr, headers) {
				continue
			}
			if w.kind == mMapUpd {
				ups = append(ups, w)
			} else {
				c.fail("kept", fname(f), w.pos, "removes or overwrites headers while reading them")
			}
		}
		line := b.load(mkIndexAddr(seq, mkLin(linAdd(linOf(sc.sym()), linConst(-sc.init))), types.NewPointer(types.Typ[types.String])), types.Typ[types.String])
		if len(ups) > 0 {
			if x, _, _, ok := cutAtFirst(b.facts, ups[0].key); ok {
				line = x
			}
		}
		colon := hasSep(b.facts, line, ":")
		c.count("header_lines", 1)
		if len(ups) == 0 {
			if colon != 0 {
				c.fail("kept", fname(f), rec.pos, "a header line that may have a colon is not kept, when %s", when)
			}
			for name, j := range vars {
				if j >= 0 && !equal(b.facts, rec.next[i][j], rec.sym[j]) {
					c.fail("recognised", fname(f), rec.pos, "the spelling of %s is changed by a line without a header", name)
				}
			}
			continue
		}
		w := ups[0]
		x, sep, after, ok := cutAtFirst(b.facts, w.key)
		sq, ix, isElem := elemOfSeq(x)
		if len(ups) > 1 || !ok || sep != ":" || after || !isElem || !equal(b.facts, sq, seq) {
			c.fail("kept", fname(f), w.pos, "a header is kept under %s, not under what precedes the first colon of its line, when %s", w.key, when)
			continue
		}
		if k, isOff := sc.offset(ix); !isOff || k+sc.init != 0 {
			c.fail("kept", fname(f), w.pos, "the header lines are not read in order")
		}
		if colon != 1 {
			c.fail("kept", fname(f), w.pos, "a line that may have no colon is kept as a header, when %s", when)
		}
		d := &dec{x: newInterp(c.p), f: b.facts, st: rec.start.clone()}
		d.set(b.facts)
		old := mkNil(w.val.typ)
		if has, v, _ := rec.start.mapLookup(headers, w.key, headers.typ.Underlying().(*types.Map)); b.facts.eval(has) != 0 {
			old = v
		}
		v := b.facts.subst(w.val)
		elems, known := []*Term(nil), false
		base := old
		switch {
		case v.op == OAppend:
			base, elems, known = v.args[0], v.args[1:], true
		case v.op == OAppendS:
			if es, ok := newInterp(c.p).elems(b, v.args[1]); ok {
				base, elems, known = v.args[0], es, true
			}
		}
		if !known || len(elems) != 1 || !equal(b.facts, base, old) && !(base.isNil() && old.isNil()) && !isLookupOf(b.facts, base, headers, w.key) {
			c.fail("kept", fname(f), w.pos, "a header's value is not added to those that its key has already: it becomes %s, when %s", trunc(v.String(), 200), when)
			continue
		}
		val := b.facts.subst(elems[0])
		if val.op != OCall || val.aux != "strings.TrimSpace" {
			c.fail("kept", fname(f), w.pos, "the value %s is not trimmed", trunc(val.String(), 120))
			continue
		}
		if y, sep, after, ok := cutAtFirst(b.facts, val.args[0]); !ok || sep != ":" || !after || !equal(b.facts, y, x) {
			c.fail("kept", fname(f), w.pos, "the value is %s, not what follows the first colon of its line", trunc(val.String(), 160))
		}
		is := map[string]int{}
		for name, j := range vars {
			j := j
			is[name] = sameFold(b.facts, w.key, name, func(t *Term) bool { return j >= 0 && t == rec.sym[j] })
		}
		for name, j := range vars {
			if j < 0 {
				continue
			}
			v := is[name]
			for other, u := range is {
				if other != name && u == 1 {
					v = 0
				}
			}
			nx := rec.next[i][j]
			switch {
			case v == 1 && !equal(b.facts, nx, w.key):
				c.fail("recognised", fname(f), w.pos, "a header that spells %s in another way is not recognised, when %s", name, when)
			case v == 0 && !equal(b.facts, nx, rec.sym[j]):
				c.fail("recognised", fname(f), w.pos, "the header %s is taken for %s, when %s", w.key, name, when)
			case v < 0:
				c.fail("recognised", fname(f), w.pos, "whether a header is %s, whatever its letter case, is not examined, when %s", name, when)
			}
		}
	}
	return vars
}

func isLookupOf(f *Facts, t, m, k *Term) bool {
	return t.op == OMapGet && equal(f, t.args[0], m) && equal(f, t.args[1], k)
}

// headerMap compares the methods of HeaderMap with those of a MIME header map
func (c *Ctx) headerMap() {
	for _, name := range []string{"Add", "Set", "Del", "Get", "Values"} {
		f := c.need("", "HeaderMap."+name)
		if f == nil {
			continue
		}
		c.count("header_methods", 1)
		r := c.runFn(f, nil)
		m, key := r.args[0], r.args[1]
		mt := m.typ.Underlying().(*types.Map)
		for _, o := range r.outs {
			n := cases(r.x, o.st.facts, r.st0, func(d *dec) {
				old, had := mkNil(mt.Elem()), false
				if d.ask(mkIsNil(m)) {
					if name == "Add" || name == "Set" {
						return // cannot return: writing to a nil map
					}
				} else {
					old, had = d.lookup(m, key)
				}
				bad := func(format string, args ...interface{}) {
					c.fail(strings.ToLower(name), fname(f), o.pos, format+", when "+strings.ReplaceAll(trunc(d.f.describe(), 200), "%", "%%"), args...)
				}
				var ws []*Mem
				for _, w := range o.st.writes(r.st0.mem) {
					if w.kind == mMapUpd || w.kind == mMapDel || w.kind == mHavocAddr || w.kind == mHavocClass {
						if w.addr == nil || equal(d.f, w.addr, m) {
							ws = append(ws, w)
						} else if w.addr.op != OAlloc {
							bad("changes %s", w.addr)
						}
					}
				}
				switch name {
				case "Get", "Values":
					if len(ws) > 0 {
						bad("changes the map")
						return
					}
					if name == "Values" {
						if d.f.eval(mkIsNil(m)) == 1 && isLookupOf(d.f, o.res[0], m, key) {
							return // of a nil map
						}
						if !equal(d.f, o.res[0], old) && !(d.f.evalNil(o.res[0]) == 1 && (!had || d.f.evalNil(old) == 1)) {
							bad("returns %s, not the values of the key", o.res[0])
						}
						return
					}
					want := mkStr("")
					if had && !d.ask(mkEq0(linOf(mkLen(old)))) {
						want = d.st.load(mkIndexAddr(old, mkInt(0), types.NewPointer(types.Typ[types.String])), types.Typ[types.String])
					}
					if !equal(d.f, o.res[0], want) {
						bad("returns %s, not %s", o.res[0], want)
					}
				case "Del":
					if len(ws) == 0 && !had {
						return
					}
					if len(ws) != 1 || ws[0].kind != mMapDel || !equal(d.f, ws[0].key, key) {
						bad("does not remove exactly the key")
					}
				default:
					if len(ws) != 1 || ws[0].kind != mMapUpd || !equal(d.f, ws[0].key, key) {
						bad("does not store under exactly the key")
						return
					}
					v := ws[0].val
					es, ok := r.x.elems(o.st, v)
					var base *Term
					if v.op == OAppend {
						base, es, ok = v.args[0], v.args[1:], true
					} else if v.op == OAppendS {
						base = v.args[0]
						es, ok = r.x.elems(o.st, v.args[1])
					}
					if !ok || len(es) != 1 || !equal(d.f, es[0], r.args[2]) {
						bad("stores %s, which does not end with the value", v)
						return
					}
					empty := base == nil || base.isNil() || d.f.eval(mkEq0(linOf(mkLen(base)))) == 1
					switch {
					case name == "Set" && !empty:
						bad("keeps the previous values %s", base)
					case name == "Add" && had && !(empty && d.f.eval(mkEq0(linOf(mkLen(old)))) == 1) && (base == nil || !equal(d.f, base, old)):
						bad("loses the previous values")
					case name == "Add" && !had && !empty:
						bad("stores values %s that the key did not have", base)
					}
				}
			})
			c.count("cases", n)
		}
	}
}

// published: what the header says is found on the Po or Mo as on its Domain
func (c *Ctx) published() {
	headers := c.need("", "Domain.parseHeaders")
	for _, tn := range []string{"Po", "Mo"} {
		f := c.need("", tn+".Parse")
		if f == nil || headers == nil {
			continue
		}
		r := c.runFn(f, func(x *Interp) {
			x.opaque = func(h *ssa.Function) bool { return h == headers }
		})
		seen := 0
		for _, o := range r.outs {
			called := false
			for _, e := range o.st.events(nil) {
				if e.name == fname(headers) {
					called = true
				}
			}
			if !called {
				continue
			}
			seen++
			d := &dec{x: r.x, f: o.st.facts, st: r.st0.clone()}
			d.set(o.st.facts)
			do := domainOf(d, r.args[0])
			for _, fld := range []string{"Headers", "Language", "PluralForms"} {
				a, b := fieldAddr(r.args[0], fld), fieldAddr(do, fld)
				got, want := o.st.load(a, elemOf(a.typ)), o.st.load(b, elemOf(b.typ))
				if !equal(o.st.facts, got, want) {
					c.fail("published", fname(f), o.pos, "%s of the %s is %s after parsing, not that of its domain (%s)", fld, tn, got, want)
				}
				c.count("published", 1)
			}
		}
		if seen == 0 {
			c.fail("published", fname(f), f.Pos(), "never interprets the header entry")
		}
	}
}

func init() {
	register("C30", "Every iteration over the lines of the header entry: a line with a colon is appended, trimmed, to the values of exactly the key before it, any other line changes nothing; the variables that select Language and Plural-Forms take the key's spelling exactly when it equals the name in any letter case; the fields take the first value of that key, and Po and Mo publish their domain's. The methods of HeaderMap are compared with a MIME header map's on every path.", func(c *Ctx) {
		c.headerLines()
		c.headerMap()
		c.published()
		c.atLeast("header_methods", 5)
		c.atLeast("header_texts", 1)
		c.atLeast("header_lines", 4)
		c.atLeast("fields_set", 2)
		c.atLeast("published", 6)
	})
}
