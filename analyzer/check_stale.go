package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- loops over maps

// mapLoop is a completed range over a map: every iteration sees an arbitrary key
type mapLoop struct {
	rec *LoopRec
	m   *Term
	key *Term
}

// mapLoops lists the ranges over maps that have come to their end in a state
func mapLoops(st *State, since *Event) []mapLoop {
	var r []mapLoop
	for _, e := range st.events(since) {
		if e.kind != "loop" {
			continue
		}
		for t, v := range st.facts.lits {
			if !v || t.op != OCall || t.aux != "range end" || isString(t.args[0].typ) {
				continue
			}
			for _, b := range e.loop.back {
				if iterates(b, t.args[0], t.args[1]) {
					r = append(r, mapLoop{e.loop, t.args[0], t.args[1]})
					break
				}
			}
		}
	}
	return r
}

// iterates: the facts of an iteration say that key is in m
func iterates(b *State, m, key *Term) bool {
	for t, v := range b.facts.lits {
		if v && t.op == OMapHas && t.args[1] == key && t.args[0] == m {
			return true
		}
	}
	return false
}

// entry is the value that the iteration sees
func (l mapLoop) entry(b *State) *Term {
	st := &State{facts: b.facts, mem: l.rec.start.mem}
	_, val, cond := st.mapLookup(l.m, l.key, l.m.typ.Underlying().(*types.Map))
	if cond != nil {
		return mkSym("entry", l.m.typ.Underlying().(*types.Map).Elem())
	}
	return val
}

// loopOver finds the completed range over a map
func loopOver(st *State, since *Event, m *Term) (mapLoop, bool) {
	for _, l := range mapLoops(st, since) {
		if equal(st.facts, l.m, m) {
			return l, true
		}
	}
	return mapLoop{}, false
}

// noEntries: a map was empty, or nil, from the beginning
func noEntries(st *State, m *Term) bool {
	if st.facts.evalNil(m) == 1 {
		return true
	}
	if _, ok := typeUnder(m).(*types.Map); !ok {
		return false
	}
	if upd, del, unknown := mapWrites(st, nil, m); len(upd)+len(del) > 0 || unknown {
		return false
	}
	return st.facts.eval(mkEq0(linOf(st.mapLen(m)))) == 1
}

// mapWrites lists the writes to a map
func mapWrites(st *State, since *Mem, m *Term) (upd, del []*Mem, unknown bool) {
	for _, w := range st.writes(since) {
		if w.addr == nil || !equal(st.facts, w.addr, m) {
			continue
		}
		switch w.kind {
		case mMapUpd:
			upd = append(upd, w)
		case mMapDel:
			del = append(del, w)
		case mHavocAddr:
			unknown = true
		}
	}
	return
}

// ---- C19

// keepsTouched: after a state, dst holds exactly the touched entries of src
func (c *Ctx) keepsTouched(f *ssa.Function, st *State, since *Event, src, dst *Term, what string) {
	if dst == src && noEntries(st, src) {
		return
	}
	l, ok := loopOver(st, since, src)
	if !ok {
		c.fail("visits", fname(f), f.Pos(), "%s (%s) are not all visited, when %s", what, src, trunc(st.facts.describe(), 200))
		return
	}
	c.count("entry_loops", 1)
	for _, b := range l.rec.back {
		if !iterates(b, l.m, l.key) {
			continue
		}
		tr := l.entry(b)
		stale := b.facts.eval(b.load(fieldAddr(tr, "dirty"), types.Typ[types.Bool]))
		if stale >= 0 {
			stale = 1 - stale
		}
		upd, del, _ := mapWrites(b, l.rec.start.mem, dst)
		when := trunc(b.facts.describe(), 200)
		ok := true
		for _, w := range append(append([]*Mem{}, upd...), del...) {
			if !equal(b.facts, w.key, l.key) {
				c.fail("other-entry", fname(f), w.pos, "changes the entry %s while visiting %s", w.key, l.key)
				ok = false
			}
		}
		if !ok {
			continue
		}
		c.count("entries", 1)
		gone := len(del) > 0
		if dst != src {
			gone = len(upd) == 0
			for _, w := range upd {
				if !equal(b.facts, w.val, tr) {
					c.fail("other-entry", fname(f), w.pos, "keeps %s in place of the entry", w.val)
				}
			}
		} else if len(upd) > 0 {
			c.fail("other-entry", fname(f), upd[0].pos, "stores an entry while dropping others")
		}
		switch {
		case gone && stale != 1:
			c.fail("drops-touched", fname(f), l.rec.pos, "drops an entry of %s that may have been set since it was loaded, when %s", what, when)
		case !gone && stale != 0:
			c.fail("keeps-stale", fname(f), l.rec.pos, "keeps an entry of %s that may not have been set since it was loaded, when %s", what, when)
		}
	}
}

func (c *Ctx) dropStale() {
	for _, name := range []string{"Domain.DropStaleTranslations", "Po.DropStaleTranslations"} {
		f := c.need("", name)
		if f == nil {
			continue
		}
		c.count("droppers", 1)
		r := c.runFn(f, nil)
		for _, o := range r.outs {
			d := &dec{x: r.x, f: o.st.facts, st: r.st0.clone()}
			d.set(o.st.facts)
			do := domainOf(d, r.args[0])
			ld := func(st *State, fld string) *Term { a := fieldAddr(do, fld); return st.load(a, elemOf(a.typ)) }
			// the plain entries
			c.keepsTouched(f, o.st, nil, ld(r.st0, "translations"), ld(o.st, "translations"), "plain entries")
			// the contexts
			src, dst := ld(r.st0, "contextTranslations"), ld(o.st, "contextTranslations")
			if noEntries(o.st, src) {
				continue
			}
			l, ok := loopOver(o.st, nil, src)
			if !ok {
				c.fail("visits", fname(f), o.pos, "the contexts are not all visited, when %s", trunc(o.st.facts.describe(), 200))
				continue
			}
			c.count("context_loops", 1)
			for _, b := range l.rec.back {
				if !iterates(b, l.m, l.key) {
					continue
				}
				ctx := l.entry(b)
				upd, del, _ := mapWrites(b, l.rec.start.mem, dst)
				left := ctx
				for _, w := range append(append([]*Mem{}, upd...), del...) {
					if !equal(b.facts, w.key, l.key) {
						c.fail("other-context", fname(f), w.pos, "changes the context %s while visiting %s", w.key, l.key)
					}
					if w.kind == mMapUpd {
						left = w.val
					}
				}
				gone := len(del) > 0
				if dst != src {
					gone = len(upd) == 0
					if gone {
						// the entries went to a map of this iteration, or there were none
						for _, w := range b.writes(l.rec.start.mem) {
							if w.kind == mAlloc && w.addr != nil && isTranslationMapOf(w.addr) {
								left = w.addr
							}
						}
					}
				}
				c.keepsTouched(f, b, l.rec.start.ev, ctx, left, "a context")
				empty := b.facts.eval(mkEq0(linOf(b.mapLen(left))))
				switch {
				case gone && empty != 1:
					c.fail("drops-context", fname(f), l.rec.pos, "drops a context that may not be empty, when %s", trunc(b.facts.describe(), 200))
				case !gone && empty != 0:
					c.fail("keeps-context", fname(f), l.rec.pos, "keeps a context that may be empty, when %s", trunc(b.facts.describe(), 200))
				}
			}
		}
	}
}

func isTranslationMapOf(t *Term) bool { return t.typ != nil && isTranslationMap(t.typ) }

// parsingTouchesNothing: nothing that is reachable from loading marks an entry as touched
func (c *Ctx) parsingTouchesNothing() {
	var roots []*ssa.Function
	for _, n := range []string{"Po.Parse", "Mo.Parse", "Po.ParseFile", "Mo.ParseFile", "Po.UnmarshalBinary", "Mo.UnmarshalBinary", "Domain.UnmarshalBinary", "TranslatorEncoding.GetTranslator"} {
		if f := c.need("", n); f != nil {
			roots = append(roots, f)
		}
	}
	for f := range c.p.reachable(roots) {
		c.count("loading_functions", 1)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				s := structOf(elemOf(fa.X.Type()))
				if s == nil || s.Field(fa.Field).Name() != "dirty" || !isTranslationPtr(fa.X.Type()) {
					continue
				}
				if k, isc := st.Val.(*ssa.Const); isc && k.Value != nil && k.Value.String() == "false" {
					continue
				}
				c.fail("marks", fname(f), st.Pos(), "marks an entry as set, and can be reached while a catalogue is loaded")
			}
		}
	}
}

func init() {
	register("C19", "DropStaleTranslations: by induction over its (complete) loops, every entry of the plain catalogue and of every context is removed exactly on the paths where its mark is unset, nothing else is changed, and a context is removed exactly when it is left empty. Every setter and SetRefs leaves the mark of the entry it stores set, on every path; no function reachable from loading sets a mark.", func(c *Ctx) {
		c.dropStale()
		c.parsingTouchesNothing()
		c.setters(true)
		c.atLeast("droppers", 2)
		c.atLeast("entries", 4)
		c.atLeast("context_loops", 2)
		c.atLeast("loading_functions", 5)
		c.atLeast("stores", 10)
	})
	register("C20", "Set, SetN, SetC, SetNC and SetRefs on Domain and Po: on every path the entry found afterwards under exactly the given id (and context) is the one that was there or a new one with the given id and plural id, its form selected by the rule holds the text (its references the list), and no other field, form, entry or context is written.", func(c *Ctx) {
		c.setters(false)
		c.getRefs()
		c.atLeast("stores", 10)
		c.atLeast("ref_getters", 2)
	})
}

// ---- C20

// setters examines what Set* and SetRefs leave behind. With marks, only that the entry is
// marked as touched.
func (c *Ctx) setters(marks bool) {
	for _, tn := range []string{"Domain", "Po", "Mo"} {
		for _, n := range []string{"Set", "SetN", "SetC", "SetNC", "SetRefs"} {
			f := c.p.fn("", tn+"."+n)
			if f == nil {
				if tn != "Mo" {
					c.need("", tn+"."+n)
				}
				continue
			}
			var args []*Term
			m := map[string]*Term{}
			if n == "SetRefs" {
				if len(f.Params) != 3 {
					c.badShape(f)
					continue
				}
				recv := mkParam("recv:"+f.Params[0].Type().String(), f.Params[0].Type())
				m["recv"], m["id"], m["refs"] = recv, mkParam("role:id", f.Params[1].Type()), mkParam("role:refs", f.Params[2].Type())
				args = []*Term{recv, m["id"], m["refs"]}
			} else {
				var ok bool
				if args, m, ok = setterArgs(f); !ok {
					c.badShape(f)
					continue
				}
			}
			r := c.runWith(f, args, nil, nil)
			for _, o := range r.outs {
				k := cases(r.x, o.st.facts, r.st0, func(d *dec) { c.stored(f, o, d, m, marks) })
				c.count("cases", k)
			}
		}
	}
}

func (c *Ctx) stored(f *ssa.Function, o *Outcome, d *dec, m map[string]*Term, marks bool) {
	do := domainOf(d, m["recv"])
	k := catalog{d, do}
	when := func() string { return trunc(d.f.describe(), 300) }
	bad := func(rule, format string, args ...interface{}) {
		if !marks {
			c.fail(rule, fname(f), o.pos, format+", when "+strings.ReplaceAll(when(), "%", "%%"), args...)
		}
	}
	var form *Term
	if m["n"] != nil {
		form = k.form(m["n"], o)
	} else {
		form = mkInt(0)
	}
	old, had := k.entry(m)
	var oldCtx *Term
	hadCtx := false
	if m["ctx"] != nil {
		oldCtx, hadCtx = d.lookup(d.field(do, "contextTranslations"), m["ctx"])
	}
	// afterwards
	e := d2(o, d)
	var tr *Term
	ok := false
	var home *Term
	if m["ctx"] != nil {
		inner, okc := e.lookup(e.field(do, "contextTranslations"), m["ctx"])
		if okc {
			home = inner
			tr, ok = e.lookup(inner, m["id"])
		}
	} else {
		home = e.field(do, "translations")
		tr, ok = e.lookup(home, m["id"])
	}
	if !ok {
		bad("not-stored", "no entry is found under the id afterwards")
		return
	}
	c.count("stores", 1)
	if v := e.f.eval(e.field(tr, "dirty")); v != 1 {
		if marks {
			c.fail("mark", fname(f), o.pos, "leaves the entry unmarked, when %s", when())
		}
	}
	if marks {
		return
	}
	if had {
		if !equal(d.f, tr, old) {
			bad("replaced", "an existing entry is replaced")
		}
		if m["plural"] != nil {
			v := e.field(tr, "PluralID")
			if d.ask(mkEq(d.field(old, "PluralID"), mkStr(""))) && !equal(d.f, v, m["plural"]) {
				bad("entry-plural", "an entry that had no plural id gets %s", v)
			}
		}
	} else {
		if tr.op != OAlloc {
			bad("not-new", "the new entry is %s", tr)
			return
		}
		if v := e.field(tr, "ID"); !equal(d.f, v, m["id"]) {
			bad("entry-id", "the new entry's id is %s", v)
		}
		if m["plural"] != nil {
			if v := e.field(tr, "PluralID"); !equal(d.f, v, m["plural"]) {
				bad("entry-plural", "the new entry's plural id is %s", v)
			}
		}
	}
	trs := e.field(tr, "Trs")
	if m["refs"] != nil {
		if v := e.field(tr, "Refs"); !equal(d.f, v, m["refs"]) {
			bad("refs", "the references become %s", v)
		}
	} else {
		v, ok := e.lookup(trs, form)
		if !ok || !equal(d.f, v, m["str"]) {
			bad("form", "form %s becomes %s", form, v)
		}
	}
	// nothing else
	fs := d.f
	for _, w := range o.st.writes(nil) {
		switch w.kind {
		case mAlloc:
		case mStore:
			base := w.addr
			for base.op == OFieldAddr || base.op == OIndexAddr {
				base = base.args[0]
			}
			if base.op == OAlloc && base != tr {
				continue
			}
			if w.addr.op == OFieldAddr && equal(fs, w.addr.args[0], tr) {
				switch fieldName(w.addr) {
				case "dirty":
					continue
				case "ID":
					if equal(fs, w.val, m["id"]) {
						continue
					}
				case "Refs":
					if m["refs"] != nil || !had {
						continue
					}
				case "PluralID":
					if !had || m["plural"] != nil && equal(fs, w.val, m["plural"]) && d.ask(mkEq(d.field(old, "PluralID"), mkStr(""))) {
						continue
					}
				case "Trs":
					if !had || fs.evalNil(d.field(old, "Trs")) == 1 {
						continue
					}
				}
			}
			bad("also-writes", "also writes %s", w.addr)
		case mMapUpd:
			switch {
			case equal(fs, w.addr, trs):
				if m["refs"] == nil && equal(fs, w.key, form) {
					continue
				}
			case home != nil && equal(fs, w.addr, home):
				if equal(fs, w.key, m["id"]) && equal(fs, w.val, tr) {
					continue
				}
			case m["ctx"] != nil && equal(fs, w.addr, e.field(do, "contextTranslations")):
				if equal(fs, w.key, m["ctx"]) && (!hadCtx || equal(fs, w.val, oldCtx)) {
					continue
				}
			case w.addr.op == OAlloc:
				continue
			}
			bad("also-writes", "also stores %s in %s under %s", w.val, w.addr, w.key)
		default:
			bad("also-writes", "other parts of the catalogue are changed (%s)", w.class)
		}
	}
	// the tables stay the ones that they were
	for _, fld := range []string{"translations", "contextTranslations", "headerComments", "Headers"} {
		if a := d.field(do, fld); a != e.field(do, fld) && fs.evalNil(a) != 1 {
			bad("also-writes", "replaces %s", fld)
		}
	}
}

// getRefs: GetRefs returns the references of the entry
func (c *Ctx) getRefs() {
	for _, n := range []string{"Domain.GetRefs", "Po.GetRefs"} {
		f := c.need("", n)
		if f == nil || len(f.Params) != 2 {
			continue
		}
		c.count("ref_getters", 1)
		r := c.runFn(f, nil)
		for _, o := range r.outs {
			cases(r.x, o.st.facts, r.st0, func(d *dec) {
				tr, ok := d.lookup(d.field(domainOf(d, r.args[0]), "translations"), r.args[1])
				if !ok {
					if o.res[0].op != OCall && d.f.eval(mkEq0(linOf(mkLen(o.res[0])))) != 1 {
						c.fail("get-refs", fname(f), o.pos, "returns %s for an entry that is not there", o.res[0])
					}
					return
				}
				if want := d.field(tr, "Refs"); !equal(d.f, o.res[0], want) && !copyOf(d.f, o.st, o.res[0], want) {
					c.fail("get-refs", fname(f), o.pos, "returns %s, not the entry's references, when %s", o.res[0], trunc(d.f.describe(), 200))
				}
			})
		}
	}
}

// copyOf: v is a slice with the elements of src
func copyOf(f *Facts, st *State, v, src *Term) bool {
	if v == src {
		return false
	}
	switch {
	case v.isNil():
		return f.eval(mkEq0(linOf(mkLen(src)))) == 1
	case v.op == OCall && v.aux == "slices.Clone":
		return equal(f, v.args[0], src)
	case v.op == OAppendS:
		base := v.args[0]
		for base.op == OSlice {
			base = base.args[0]
		}
		if n, ok := emptyLen(v.args[0]); ok && n == 0 && (base.isNil() || base.op == OAlloc) {
			return equal(f, v.args[1], src)
		}
	case v.op == OSlice || v.op == OAlloc:
		if f.eval(mkEq0(linSub(linOf(mkLen(v)), linOf(mkLen(src))))) != 1 {
			return false
		}
		if f.eval(mkEq0(linOf(mkLen(src)))) == 1 {
			return true
		}
		for _, w := range st.writes(nil) {
			if w.kind == mCopy && equal(f, w.addr, v) && equal(f, w.val, src) {
				return true
			}
		}
	}
	return false
}

// ---- C18

func (c *Ctx) copies() {
	for _, n := range []string{"Domain.GetTranslations", "Domain.GetCtxTranslations"} {
		f := c.need("", n)
		if f == nil {
			continue
		}
		c.count("getters", 1)
		r := c.runFn(f, nil)
		for _, o := range r.outs {
			all := o.res[0]
			if all.op != OAlloc {
				c.fail("shared", fname(f), o.pos, "returns %s, which is not a new map", all)
				continue
			}
			do := r.args[0]
			if n == "Domain.GetTranslations" {
				a := fieldAddr(do, "translations")
				c.copied(f, o.st, nil, r.st0.load(a, elemOf(a.typ)), func(b *State) *Term { return all })
				continue
			}
			a := fieldAddr(do, "contextTranslations")
			src := r.st0.load(a, elemOf(a.typ))
			if noEntries(o.st, src) {
				continue
			}
			l, ok := loopOver(o.st, nil, src)
			if !ok {
				c.fail("incomplete", fname(f), o.pos, "the contexts are not all visited, when %s", trunc(o.st.facts.describe(), 200))
				continue
			}
			for _, b := range l.rec.back {
				if !iterates(b, l.m, l.key) {
					continue
				}
				c.count("contexts", 1)
				c.copied(f, b, l.rec.start.ev, l.entry(b), func(in *State) *Term {
					// stored when the context is done
					if w, _, _ := mapWrites(b, l.rec.start.mem, all); len(w) > 0 {
						last := w[0]
						for _, x := range w {
							if x.depth > last.depth {
								last = x
							}
						}
						if equal(b.facts, last.key, l.key) {
							return last.val
						}
						return nil
					}
					d := &dec{x: r.x, f: in.facts, st: in.clone()}
					v, ok := d.lookup(all, l.key)
					if !ok {
						return nil
					}
					return v
				})
			}
		}
		// what is stored in the result is new
		forEachWrite(r.outs, func(st *State, m *Mem) {
			if m.kind != mMapUpd || !isContextMap(m.addr.typ) {
				return
			}
			if m.val.op != OAlloc {
				c.fail("shared", fname(f), m.pos, "the result shares %s with the catalogue", m.val)
			}
		})
	}
	c.localeCopies()
}

// copied: every entry of src was copied to the map that dst gives for an iteration
func (c *Ctx) copied(f *ssa.Function, st *State, since *Event, src *Term, dst func(b *State) *Term) {
	if noEntries(st, src) {
		return
	}
	l, ok := loopOver(st, since, src)
	if !ok {
		c.fail("incomplete", fname(f), f.Pos(), "the entries of %s are not all visited, when %s", src, trunc(st.facts.describe(), 200))
		return
	}
	for _, b := range l.rec.back {
		if !iterates(b, l.m, l.key) {
			continue
		}
		c.count("copies", 1)
		to := dst(b)
		if to == nil {
			c.fail("incomplete", fname(f), l.rec.pos, "an entry is not stored in the result of its context, when %s", trunc(b.facts.describe(), 200))
			continue
		}
		upd, del, _ := mapWrites(b, l.rec.start.mem, to)
		if len(upd) != 1 || len(del) > 0 || !equal(b.facts, upd[0].key, l.key) {
			c.fail("incomplete", fname(f), l.rec.pos, "an entry is not stored under its own key, when %s", trunc(b.facts.describe(), 200))
			continue
		}
		c.deepCopy(f, b, l.rec.start, l.entry(b), upd[0].val, upd[0].pos)
	}
}

// deepCopy: n is a new entry that equals t and shares nothing with it
func (c *Ctx) deepCopy(f *ssa.Function, b, start *State, t, n *Term, pos token.Pos) {
	born := map[*Term]bool{}
	for _, w := range b.writes(start.mem) {
		if w.kind == mAlloc {
			born[w.addr] = true
		}
	}
	if n.op != OAlloc || !born[n] {
		c.fail("shared", fname(f), pos, "the copy is %s, which was not made for this entry", n)
		return
	}
	when := trunc(b.facts.describe(), 200)
	ld := func(x *Term, fld string) *Term { a := fieldAddr(x, fld); return b.load(a, elemOf(a.typ)) }
	old := func(fld string) *Term { a := fieldAddr(t, fld); return start.load(a, elemOf(a.typ)) }
	st := structOf(elemOf(n.typ))
	for i := 0; i < st.NumFields(); i++ {
		fld := st.Field(i).Name()
		v, want := ld(n, fld), old(fld)
		c.count("fields", 1)
		switch u := st.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			if !copyOf(b.facts, b, v, want) {
				c.fail("copy", fname(f), pos, "%s of the copy is %s, not a copy of the entry's, when %s", fld, v, when)
			}
		case *types.Map:
			if v.op == OCall && v.aux == "maps.Clone" && equal(b.facts, v.args[0], want) {
				continue
			}
			if v.op != OAlloc || !born[v] {
				if v.isNil() && noEntries(b, want) {
					continue
				}
				c.fail("shared", fname(f), pos, "%s of the copy is %s, which was not made for this entry", fld, v)
				continue
			}
			_ = u
			if noEntries(b, want) {
				continue
			}
			l, ok := loopOver(b, start.ev, want)
			if !ok {
				c.fail("copy", fname(f), pos, "%s is not copied completely, when %s", fld, when)
				continue
			}
			for _, in := range l.rec.back {
				if !iterates(in, l.m, l.key) {
					continue
				}
				upd, del, _ := mapWrites(in, l.rec.start.mem, v)
				if len(upd) != 1 || len(del) > 0 || !equal(in.facts, upd[0].key, l.key) || !equal(in.facts, upd[0].val, l.entry(in)) {
					c.fail("copy", fname(f), l.rec.pos, "an element of %s is not copied under its own key, when %s", fld, trunc(in.facts.describe(), 200))
				}
			}
		default:
			if !equal(b.facts, v, want) {
				c.fail("copy", fname(f), pos, "%s of the copy is %s, the entry's is %s, when %s", fld, v, want, when)
			}
		}
	}
}

// filledKeys: a new slice whose places are filled with the keys of a map
func filledKeys(st *State, s *Term) (*Term, bool) {
	arr := s
	if s.op == OSlice && len(s.args) > 2 {
		if lo, ok := s.args[1].intConst(); !ok || lo != 0 {
			return nil, false
		}
		arr = s.args[0]
	}
	if arr.op != OAlloc || madeLen[arr] == nil {
		return nil, false
	}
	for _, l := range mapLoops(st, nil) {
		if !equal(l.rec.entry.facts, mkLen(s), l.rec.entry.mapLen(l.m)) {
			continue
		}
		all := len(l.rec.back) > 0
		for i, b := range l.rec.back {
			fills := false
			for _, w := range b.writes(l.rec.start.mem) {
				a := w.addr
				if w.kind != mStore || rootPtr(a) != arr {
					continue
				}
				fills = false
				for j, c := range l.rec.sym {
					if n, ok := l.rec.init[j].intConst(); ok && n == 0 && a.op == OIndexAddr && a.args[1] == c && l.rec.next[i][j] == mkLin(linAdd(linOf(c), linConst(1))) && w.val == l.key {
						fills = true
					}
				}
				if !fills {
					return nil, false
				}
			}
			all = all && fills
		}
		if all {
			return l.m, true
		}
	}
	return nil, false
}

// keyList: a slice that holds the keys of a map, sorted or not
func keyList(st *State, s *Term) (m *Term, ok bool) {
	if s.op == OCall && (s.aux == "slices.Sorted" || s.aux == "slices.Collect") && s.args[0].op == OCall && s.args[0].aux == "maps.Keys" {
		return s.args[0].args[0], true
	}
	if m, ok := filledKeys(st, s); ok {
		return m, true
	}
	for _, l := range mapLoops(st, nil) {
		for j, sym := range l.rec.sym {
			if sym != s {
				continue
			}
			if n, ok := emptyLen(l.rec.init[j]); !ok || n != 0 {
				return nil, false
			}
			for _, nx := range l.rec.next {
				a := nx[j]
				if a.op != OAppend || len(a.args) != 2 || a.args[0] != s || a.args[1] != l.key {
					return nil, false
				}
			}
			return l.m, true
		}
	}
	return nil, false
}

// localeCopies: the locale's copy collects those of all its domains
func (c *Ctx) localeCopies() {
	f, g := c.need("", "Locale.GetTranslations"), c.need("", "Domain.GetTranslations")
	if f == nil || g == nil {
		return
	}
	c.count("getters", 1)
	r := c.runFn(f, func(x *Interp) {
		x.pure = func(h *ssa.Function) bool { return h == g }
		x.pureInvoke = func(m *types.Func) bool { return m.Name() == "GetDomain" }
	})
	a := fieldAddr(r.args[0], "Domains")
	domains := r.st0.load(a, elemOf(a.typ))
	for _, o := range r.outs {
		all := o.res[0]
		fs := o.st.facts
		if all.op != OAlloc {
			c.fail("shared", fname(f), o.pos, "returns %s, which is not a new map", all)
			continue
		}
		if noEntries(o.st, domains) {
			continue
		}
		// an iteration per domain
		done := false
		visit := func(rec *LoopRec, name func(b *State) *Term) {
			done = true
			for _, b := range rec.back {
				dom := name(b)
				if dom == nil {
					continue
				}
				d := &dec{x: r.x, f: b.facts, st: &State{facts: b.facts, mem: rec.start.mem}}
				var tr *Term
				ok := false
				func() {
					defer func() { recover() }()
					tr, ok = d.lookup(domains, dom)
				}()
				when := trunc(b.facts.describe(), 200)
				if !ok || b.facts.evalNil(tr) == 1 {
					c.count("skipped", 1)
					continue
				}
				src := mkCall(fname(g), 0, g.Signature.Results().At(0).Type(), mkCall("invoke GetDomain", 0, g.Signature.Recv().Type(), tr))
				if gd := mkCall("invoke GetDomain", 0, g.Signature.Recv().Type(), tr); b.facts.evalNil(gd) == 1 {
					continue
				}
				l, ok := loopOver(b, rec.start.ev, src)
				if !ok {
					if copied := copyEvent(b, rec.start.ev, all, src); !copied {
						c.fail("incomplete", fname(f), rec.pos, "the entries of a domain are not all collected, when %s", when)
					} else {
						c.count("domains", 1)
					}
					continue
				}
				c.count("domains", 1)
				for _, in := range l.rec.back {
					if !iterates(in, l.m, l.key) {
						continue
					}
					upd, _, _ := mapWrites(in, l.rec.start.mem, all)
					if len(upd) == 0 {
						// kept from another domain
						if has, _, cond := in.mapLookup(all, l.key, all.typ.Underlying().(*types.Map)); cond == nil && in.facts.eval(has) == 1 {
							continue
						}
					}
					if len(upd) != 1 || !equal(in.facts, upd[0].key, l.key) || !equal(in.facts, upd[0].val, l.entry(in)) {
						c.fail("incomplete", fname(f), l.rec.pos, "an entry of a domain is not stored under its own key, when %s", trunc(in.facts.describe(), 200))
					}
				}
			}
		}
		eachEntry(o.st, domains, visit)
		if !done {
			c.fail("incomplete", fname(f), o.pos, "the domains are not all visited, when %s", trunc(fs.describe(), 200))
		}
	}
}

// eachEntry finds the loops that visit every entry of a map, by ranging over it or over a list of its keys
func eachEntry(st *State, m *Term, visit func(rec *LoopRec, key func(b *State) *Term)) {
	fs := st.facts
	if l, ok := loopOver(st, nil, m); ok && !buildsList(l) {
		visit(l.rec, func(b *State) *Term {
			if !iterates(b, l.m, l.key) {
				return nil
			}
			return l.key
		})
	}
	for _, rec := range loopsOf(st) {
		for _, sc := range scans(rec) {
			i := mkLin(linAdd(linOf(sc.sym()), linConst(-sc.init)))
			for _, seq := range indexedBy(rec, i) {
				src, ok := keyList(st, seq)
				if !ok || !equal(fs, src, m) || fs.eval(mkGe0(linSub(linOf(i), linOf(mkLen(seq))))) != 1 {
					continue
				}
				visit(rec, func(b *State) *Term {
					return b.load(mkIndexAddr(seq, i, types.NewPointer(types.Typ[types.String])), types.Typ[types.String])
				})
			}
		}
	}
}

// buildsList: the loop only collects keys
func buildsList(l mapLoop) bool {
	for _, nx := range l.rec.next {
		for _, t := range nx {
			if t.op == OAppend {
				return true
			}
		}
	}
	return false
}

// indexedBy lists the string slices that a loop indexes with i
func indexedBy(rec *LoopRec, i *Term) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	for _, b := range rec.back {
		for t := range b.facts.lits {
			t.walk(func(u *Term) {
				if seq, idx, ok := elemOfSeq(u); ok && idx == i && !seen[seq] {
					seen[seq] = true
					r = append(r, seq)
				}
			})
		}
	}
	sortTerms(r)
	return r
}

// copyEvent: maps.Copy(all, src)
func copyEvent(st *State, since *Event, dst, src *Term) bool {
	for _, e := range st.events(since) {
		if e.kind == "call" && e.name == "maps.Copy" && equal(st.facts, e.args[0], dst) && equal(st.facts, e.args[1], src) {
			return true
		}
	}
	return false
}

func init() {
	register("C18", "Domain.GetTranslations and GetCtxTranslations: by induction over their complete loops, each stored entry is stored in a new result map under its own key (and context) as a newly allocated entry whose scalar fields are equal and whose maps and slices are newly allocated copies (every key, in a complete loop); Locale.GetTranslations collects the copies of every domain.", func(c *Ctx) {
		c.copies()
		c.atLeast("getters", 3)
		c.atLeast("copies", 2)
		c.atLeast("fields", 10)
		c.atLeast("contexts", 1)
		c.atLeast("domains", 1)
	})
}
