package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Reading PO text: what each line does to the entry being read, given the keyword line before it.

// poAfter is what the parser knows after a keyword line: the values of the variables that it
// carries from line to line
type poAfter struct {
	kw   string // "", msgctxt, msgid, msgid_plural, msgstr, skipped
	form *Term  // msgstr: the form index, as the next line sees it
	next []*Term
	scal map[*Term]*Term
}

type poReader struct {
	c          *Ctx
	f          *ssa.Function
	x          *Interp
	rec        *LoopRec
	sc         scan
	do, line   *Term
	scalars    []*Term
	alts       []*poAfter
	stored     int
	transA, cA *Term
}

var poKeywords = []string{"msgctxt", "msgid_plural", "msgid", "msgstr"}

func checkPoLines(c *Ctx) {
	f := c.need("", "Po.Parse")
	headers := c.need("", "Domain.parseHeaders")
	if f == nil || headers == nil {
		return
	}
	r := c.runFn(f, func(x *Interp) {
		x.opaque = func(h *ssa.Function) bool { return h == headers }
	})
	done := map[*LoopRec]bool{}
	for _, o := range r.outs {
		var p *poReader
		for _, rec := range loopsOf(o.st) {
			if q := c.poLoop(r, f, rec); q != nil {
				if p != nil {
					c.fail("lines", fname(f), rec.pos, "the lines are read in more than one loop")
				}
				p = q
			}
		}
		if p == nil {
			c.fail("lines", fname(f), o.pos, "does not read the lines of the text one by one, when %s", trunc(o.st.facts.describe(), 300))
			continue
		}
		if !done[p.rec] {
			done[p.rec] = true
			p.start(o)
			p.after()
			p.lines()
			c.count("line_paths", len(p.rec.back))
			c.count("line_states", len(p.alts))
		} else {
			p.after()
		}
		p.last(o)
	}
	c.atLeast("line_paths", 8)
	c.atLeast("line_cases", 40)
	c.atLeast("last_entries", 2)
}

// poLoop recognises the loop over the lines of the text
func (c *Ctx) poLoop(r *run, f *ssa.Function, rec *LoopRec) *poReader {
	if len(rec.back) == 0 {
		return nil
	}
	for _, sc := range scans(rec) {
		p := &poReader{c: c, f: f, x: r.x, rec: rec, sc: sc}
		for _, b := range rec.back {
			b.facts.atoms(func(t *Term) { p.findLine(r, b.facts, t) })
		}
		if p.line == nil {
			continue
		}
		d := &dec{x: r.x, f: rec.start.facts, st: rec.start.clone()}
		p.do = d.field(r.args[0], "domain")
		return p
	}
	return nil
}

func (p *poReader) findLine(r *run, f *Facts, t *Term) {
	if p.line != nil {
		return
	}
	if t.op == OCall && t.aux == "strings.TrimSpace" && len(t.args) == 1 {
		seq, idx, ok := elemOfSeq(t.args[0])
		if !ok {
			return
		}
		k, isOff := p.sc.offset(idx)
		text, sep, max, isSplit := splitCall(f.subst(seq))
		if isOff && k+p.sc.init == 0 && isSplit && sep == "\n" && max < 0 {
			for text.op == OConv {
				text = text.args[0]
			}
			if text == r.args[1] {
				p.line = t
			}
		}
	}
	for _, a := range t.args {
		p.findLine(r, f, a)
	}
	if t.op == OLin {
		for _, v := range t.lin.vs {
			p.findLine(r, f, v.t)
		}
	}
}

func (p *poReader) fail(kind string, b *State, pos interface{}, format string, args ...interface{}) {
	p.c.fail(kind, fname(p.f), p.rec.pos, "%s", fmt.Sprintf(format, args...))
}

func (p *poReader) addr(name string) *Term { return fieldAddr(p.do, name) }

func ld(s *State, addr *Term) *Term { return s.load(addr, elemOf(addr.typ)) }

// entry buffer contents
func (p *poReader) fieldOf(s *State, e *Term, name string) *Term { return ld(s, fieldAddr(e, name)) }

func emptyText(f *Facts, t *Term) bool {
	return t.isNil() || f.eval(mkEq0(linOf(mkLen(t)))) == 1
}

// fresh: nothing has been read into the entry yet
func (p *poReader) fresh(s *State, e *Term) string {
	for _, name := range []string{"ID", "PluralID", "Refs"} {
		if v := p.fieldOf(s, e, name); !emptyText(s.facts, v) {
			return fmt.Sprintf("%s is %s", name, trunc(v.String(), 120))
		}
	}
	if m := p.fieldOf(s, e, "Trs"); m.op != OAlloc || s.facts.eval(mkEq0(linOf(s.mapLen(m)))) != 1 {
		return "its forms are not empty"
	}
	return ""
}

func (p *poReader) start(o *Outcome) {
	s := p.rec.entry
	e := ld(s, p.addr("trBuffer"))
	if e.op != OAlloc {
		p.c.fail("fresh", fname(p.f), p.rec.pos, "the first entry of the text is read into %s, not into a new one", e)
	} else if why := p.fresh(s, e); why != "" {
		p.c.fail("fresh", fname(p.f), p.rec.pos, "the first entry of the text does not start empty: %s", why)
	}
	for _, n := range []string{"ctxBuffer", "refBuffer"} {
		if v := ld(s, p.addr(n)); !emptyText(s.facts, v) {
			p.c.fail("leak", fname(p.f), p.rec.pos, "%s may still hold %s from before when the text is read", n, trunc(v.String(), 120))
		}
	}
	if len(p.rec.rets) > 0 {
		p.c.fail("lines", fname(p.f), p.rec.rets[0].pos, "may return before the last line")
	}
	seq, _, _ := elemOfSeq(p.line.args[0])
	for _, ex := range p.rec.exits {
		if !ex.facts.entails(linSub(linAdd(linOf(p.sc.sym()), linConst(-p.sc.init)), linOf(mkLen(seq)))) {
			p.c.fail("lines", fname(p.f), p.rec.pos, "may stop before the last line, when %s", trunc(ex.facts.describe(), 300))
		}
	}
}

// class asks which kind of line this is
func (p *poReader) class(d *dec) string {
	has := func(s string) bool {
		return d.ask(mkCall("strings.HasPrefix", 0, types.Typ[types.Bool], p.line, mkStr(s)))
	}
	for _, k := range poKeywords {
		if has(k) {
			p.sane(d)
			return k
		}
	}
	if has("\"") {
		cl := "half"
		if d.ask(mkCall("strings.HasSuffix", 0, types.Typ[types.Bool], p.line, mkStr("\""))) {
			cl = "string"
		}
		p.sane(d)
		return cl
	}
	cl := "other"
	if has("#") {
		cl = "comment"
		if has("#:") {
			cl = "refs"
		}
	}
	p.sane(d)
	return cl
}

// sane leaves cases that contradict each other about the line's characters
func (p *poReader) sane(d *dec) {
	chars := map[int]byte{}
	min := int64(0)
	type neg struct {
		at int
		s  string
	}
	var negs []neg
	last, lastKnown := -1, false
	d.f.atoms(func(t *Term) {
		v := d.f.eval(t)
		if v < 0 {
			return
		}
		if t.op == OCall && t.aux == "strings.HasPrefix" && t.args[0] == p.line {
			if s, ok := t.args[1].strConst(); ok {
				if v == 1 {
					for i := range s {
						if ch, ok := chars[i]; ok && ch != s[i] {
							panic(deadCase{})
						}
						chars[i] = s[i]
					}
					if int64(len(s)) > min {
						min = int64(len(s))
					}
				} else {
					negs = append(negs, neg{0, s})
				}
			}
		}
		if t.op == OCall && t.aux == "strings.HasSuffix" && t.args[0] == p.line {
			if s, ok := t.args[1].strConst(); ok && s == "\"" {
				last, lastKnown = v, true
			}
		}
		if t.op == OEq0 {
			l := linOf(t.args[0])
			if len(l.vs) == 1 && l.vs[0].k == 1 && l.vs[0].t.op == OIndex && l.vs[0].t.args[0] == p.line {
				ix, isc := l.vs[0].t.args[1].intConst()
				ch := byte(-l.c)
				switch {
				case isc && v == 1:
					if c, ok := chars[int(ix)]; ok && c != ch {
						panic(deadCase{})
					}
					chars[int(ix)] = ch
				case isc:
					negs = append(negs, neg{int(ix), string(rune(ch))})
				case linSub(linOf(l.vs[0].t.args[1]), linOf(mkLen(p.line))).c == -1 && ch == '"':
					if lastKnown && last != v {
						panic(deadCase{})
					}
					last, lastKnown = v, true
				}
			}
		}
	})
	for _, n := range negs {
		all := true
		for i := range n.s {
			if ch, ok := chars[n.at+i]; !ok || ch != n.s[i] {
				all = false
			}
		}
		if all {
			panic(deadCase{})
		}
	}
	if d.f.eval(mkGe0(linAdd(linOf(mkLen(p.line)), linConst(-min)))) == 0 {
		panic(deadCase{})
	}
}

// rest is what follows the first n bytes of a text, blanks apart; nil when t is something else
func restOf(f *Facts, t *Term, n int) (*Term, bool) {
	t = f.subst(t)
	if t.op == OCall && t.aux == "strings.TrimSpace" {
		x, _ := restOf(f, t.args[0], n)
		return x, x != nil
	}
	if t.op == OCall && t.aux == "strings.TrimPrefix" {
		if s, ok := t.args[1].strConst(); ok && len(s) == n {
			return f.subst(t.args[0]), false
		}
	}
	if t.op == OSlice && equal(f, t.args[2], mkLen(t.args[0])) {
		if k, ok := f.subst(t.args[1]).intConst(); ok && int(k) == n {
			return f.subst(t.args[0]), false
		}
	}
	return nil, false
}

// quoted: t is what the quoted text x stands for
func quotedOf(f *Facts, t *Term) *Term {
	t = f.subst(t)
	if t.op == OCall && t.aux == "strconv.Unquote" && len(t.args) == 1 {
		return f.subst(t.args[0])
	}
	return nil
}

// unquoted decides whether v is what the quoted text after n bytes of the line stands for
func (p *poReader) unquoted(f *Facts, v *Term, n int) bool {
	if q := quotedOf(f, v); q != nil {
		if n == 0 {
			for q.op == OCall && q.aux == "strings.TrimSpace" && q != p.line {
				q = f.subst(q.args[0])
			}
			return q == p.line
		}
		x, trimmed := restOf(f, q, n)
		return x == p.line && trimmed
	}
	// not a quoted text: nothing can be read from it
	if s, ok := f.subst(v).strConst(); ok && s == "" {
		return p.malformed(f, n)
	}
	return false
}

// malformed: the facts say that unquoting what follows n bytes of the line failed
func (p *poReader) malformed(f *Facts, n int) bool {
	bad := false
	f.atoms(func(t *Term) {
		if t.op == OIsNil && t.args[0].op == OCall && t.args[0].aux == "strconv.Unquote$1" && f.eval(t) == 0 {
			bad = true
		}
	})
	return bad
}

// after collects what the parser carries over to the line after each keyword line
func (p *poReader) after() {
	seen := map[*Term]bool{}
	for _, b := range p.rec.back {
		for _, w := range b.writes(p.rec.start.mem) {
			if w.kind == mStore && w.addr != nil && w.addr.op == OFieldAddr && w.addr.args[0] == p.do && !seen[w.addr] {
				if bt, ok := elemOf(w.addr.typ).Underlying().(*types.Basic); ok && bt.Info()&(types.IsInteger|types.IsBoolean) != 0 {
					seen[w.addr] = true
					p.scalars = append(p.scalars, w.addr)
				}
			}
		}
	}
	keys := map[string]bool{}
	add := func(a *poAfter) {
		k := a.kw
		for _, t := range a.next {
			if t != nil {
				k += "," + t.String()
			}
		}
		for _, s := range p.scalars {
			k += ";" + a.scal[s].String()
		}
		if !keys[k] {
			keys[k] = true
			p.alts = append(p.alts, a)
		}
	}
	p.alts = nil
	init := &poAfter{next: make([]*Term, len(p.rec.phis)), scal: map[*Term]*Term{}}
	for j, t := range p.rec.init {
		if j != p.sc.j {
			init.next[j] = t
		}
	}
	for _, s := range p.scalars {
		init.scal[s] = ld(p.rec.entry, s)
	}
	add(init)
	for i, b := range p.rec.back {
		cases(p.x, b.facts, p.rec.start, func(d *dec) {
			cl := p.class(d)
			a := &poAfter{kw: cl, next: make([]*Term, len(p.rec.phis)), scal: map[*Term]*Term{}}
			switch cl {
			case "msgstr":
				k, _, why := p.formStored(d, b)
				if why != "" {
					a.kw = "skipped"
				} else {
					a.form = k
				}
			case "msgctxt", "msgid", "msgid_plural":
			default:
				return
			}
			var form *Term
			carry := func(t *Term) *Term {
				t = d.f.subst(t)
				if t.op == OConst {
					return t
				}
				if a.form != nil && equal(d.f, t, a.form) {
					if form == nil {
						form = mkSym("form", t.typ)
					}
					return form
				}
				return t
			}
			for j, t := range p.rec.next[i] {
				if j != p.sc.j {
					a.next[j] = carry(t)
				}
			}
			for _, s := range p.scalars {
				a.scal[s] = carry(ld(b, s))
			}
			if form != nil {
				a.form = form
			}
			add(a)
		})
	}
}

// formStored finds the form that a msgstr line stores
func (p *poReader) formStored(d *dec, b *State) (k, v *Term, why string) {
	e := ld(b, p.addr("trBuffer"))
	m := p.fieldOf(b, e, "Trs")
	n := 0
	for _, w := range b.writes(p.rec.start.mem) {
		if w.kind == mMapUpd && w.addr != nil && equal(d.f, w.addr, m) {
			n++
			k, v = d.f.subst(w.key), w.val
		}
	}
	if n == 0 {
		return nil, nil, "stores no form"
	}
	if n > 1 {
		return nil, nil, "stores more than one form"
	}
	return k, v, ""
}

// holds: the parser's variables are as that line left them
func (p *poReader) holds(d *dec, a *poAfter) bool {
	put := func(sym, val *Term) bool {
		if sym.typ != nil && val.typ != nil && !types.Identical(sym.typ.Underlying(), val.typ.Underlying()) {
			return true
		}
		g, ok := d.f.assume(mkEq(sym, val), true)
		if ok {
			d.set(g)
		}
		return ok
	}
	if a.form != nil && a.form.op == OSym {
		g, ok := d.f.assume(mkGe0(linOf(a.form)), true)
		if !ok {
			return false
		}
		d.set(g)
	}
	for j, t := range a.next {
		if t != nil && j < len(p.rec.sym) && !put(p.rec.sym[j], t) {
			return false
		}
	}
	for _, s := range p.scalars {
		if !put(ld(p.rec.start, s), a.scal[s]) {
			return false
		}
	}
	return true
}

// writesOf lists what a path of an iteration changes, by what it is
type poWrites struct {
	stores  []*Mem // into the catalogue
	plurals []*Mem
	forms   []*Mem
}

func (p *poReader) collect(d *dec, b *State, since *Mem, e0, e1 *Term) *poWrites {
	r := &poWrites{}
	trs1 := p.fieldOf(b, e1, "Trs")
	plural := ld(p.rec.start, p.addr("pluralTranslations"))
	own := map[*Term]bool{}
	for _, n := range []string{"trBuffer", "ctxBuffer", "refBuffer", "headerComments"} {
		own[p.addr(n)] = true
	}
	for _, s := range p.scalars {
		own[s] = true
	}
	for _, n := range []string{"ID", "PluralID", "Refs", "Trs"} {
		own[fieldAddr(e1, n)] = true
	}
	for _, w := range b.writes(since) {
		switch w.kind {
		case mMapUpd:
			switch {
			case equal(d.f, w.addr, trs1):
				r.forms = append(r.forms, w)
			case equal(d.f, w.addr, plural):
				r.plurals = append(r.plurals, w)
			default:
				r.stores = append(r.stores, w)
			}
		case mStore:
			if own[w.addr] || freshBase(w.addr) {
				continue
			}
			if g := d.f.subst(w.addr); own[g] {
				continue
			}
			p.fail("exact", b, nil, "a line changes %s, which is not the entry being read, when %s", w.addr, p.when(d))
		case mMapDel, mHavocAddr, mHavocClass:
			if w.addr != nil && w.addr.op == OAlloc {
				continue
			}
			p.fail("exact", b, nil, "a line removes or overwrites entries (%s), when %s", w.addr, p.when(d))
		}
	}
	return r
}

func freshBase(t *Term) bool {
	for t != nil {
		switch t.op {
		case OAlloc:
			return true
		case OFieldAddr, OIndexAddr:
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

func (p *poReader) when(d *dec) string { return trunc(d.f.describe(), 260) }

// flushed compares what was stored with the entry read before, under its id in its own context
func (p *poReader) flushed(d *dec, b *State, ws []*Mem, e0, ctx0 *Term, what string, optional bool) bool {
	if len(ws) == 0 && optional {
		return true
	}
	id := p.fieldOf(p.rec.start, e0, "ID")
	trans := d.field(p.do, "translations")
	ctxs := d.field(p.do, "contextTranslations")
	noCtx := d.ask(mkEq(ctx0, mkStr("")))
	bad := func(format string, args ...interface{}) bool {
		p.fail("stored", b, nil, "%s: %s, when %s", what, fmt.Sprintf(format, args...), p.when(d))
		return false
	}
	if noCtx {
		if len(ws) != 1 {
			return bad("the entry read before, which has no context, is stored %d times", len(ws))
		}
		w := ws[0]
		if !equal(d.f, w.addr, trans) {
			return bad("the entry read before, which has no context, is stored in %s", w.addr)
		}
		if !equal(d.f, w.key, id) || !equal(d.f, w.val, e0) {
			return bad("what is stored is %s under %s, not the entry read before under its id", w.val, w.key)
		}
		return true
	}
	inner, had := d.lookup(ctxs, ctx0)
	had = had && !d.ask(mkIsNil(inner))
	if !had {
		if len(ws) == 0 {
			return bad("the entry read before is not stored in its context")
		}
		w := ws[0]
		if !equal(d.f, w.addr, ctxs) || !equal(d.f, w.key, ctx0) || w.val.op != OAlloc {
			return bad("a context that is not there yet is not created: %s[%s] becomes %s", w.addr, w.key, w.val)
		}
		inner, ws = w.val, ws[1:]
	}
	if len(ws) != 1 {
		return bad("the entry read before, which has a context, is stored %d times", len(ws))
	}
	w := ws[0]
	if !equal(d.f, w.addr, inner) {
		return bad("the entry read before, which has a context, is stored in %s and not in the entries of its context", w.addr)
	}
	if !equal(d.f, w.key, id) || !equal(d.f, w.val, e0) {
		return bad("what is stored is %s under %s, not the entry read before under its id", w.val, w.key)
	}
	return true
}

// lines compares every path of an iteration, after every keyword line, with the PO format
func (p *poReader) lines() {
	for i, b := range p.rec.back {
		for _, a := range p.alts {
			n := cases(p.x, b.facts, p.rec.start, func(d *dec) {
				if p.holds(d, a) {
					p.aLine(i, b, a, d)
				}
			})
			p.c.count("cases", n)
		}
	}
}

func (p *poReader) aLine(i int, b *State, a *poAfter, d *dec) {
	cl := p.class(d)
	p.c.count("line_cases", 1)
	s0 := p.rec.start
	e0, e1 := ld(s0, p.addr("trBuffer")), ld(b, p.addr("trBuffer"))
	ctx0, ctx1 := ld(s0, p.addr("ctxBuffer")), ld(b, p.addr("ctxBuffer"))
	ref0, ref1 := ld(s0, p.addr("refBuffer")), ld(b, p.addr("refBuffer"))
	ws := p.collect(d, b, s0.mem, e0, e1)
	prev := a.kw
	if prev == "" {
		prev = "the start"
	}
	what := fmt.Sprintf("%s line after %s", cl, prev)
	bad := func(kind, format string, args ...interface{}) {
		p.fail(kind, b, nil, "%s: %s, when %s", what, fmt.Sprintf(format, args...), p.when(d))
	}
	same := func(x, y *Term) bool { return equal(d.f, x, y) }

	// a new entry begins at msgctxt, and at a msgid without one
	begins := cl == "msgctxt" && a.kw != "msgctxt" || cl == "msgid" && a.kw != "msgctxt"
	changed := !same(e0, e1)
	if begins && (changed || a.kw != "" || len(ws.stores) > 0) {
		if !p.flushed(d, b, ws.stores, e0, ctx0, what, a.kw == "") {
			return
		}
		if !changed || e1.op != OAlloc {
			bad("fresh", "the new entry is read into the one before")
			return
		}
	} else if len(ws.stores) > 0 {
		bad("stored", "an entry is stored (%s under %s) although none ends here", ws.stores[0].val, ws.stores[0].key)
		return
	} else if changed {
		bad("stored", "the entry being read is replaced by %s without being stored", e1)
		return
	}
	// previous contents of the entry
	old := func(name string) *Term {
		if changed {
			return nil
		}
		return p.fieldOf(s0, e0, name)
	}
	keeps := func(name string) {
		got, was := p.fieldOf(b, e1, name), old(name)
		if was == nil && !emptyText(d.f, got) {
			bad("exact", "%s of the new entry is %s", name, trunc(got.String(), 160))
		} else if was != nil && !same(got, was) {
			bad("exact", "%s of the entry becomes %s", name, trunc(got.String(), 160))
		}
	}
	reads := func(name string, n int) {
		got := p.fieldOf(b, e1, name)
		if p.unquoted(d.f, got, n) || p.malformed(d.f, n) && old(name) != nil && same(got, old(name)) {
			return
		}
		bad("exact", "%s of the entry becomes %s, not the quoted text of the line", name, trunc(got.String(), 200))
	}
	appends := func(got, was *Term) bool {
		if p.malformed(d.f, 0) && same(got, was) {
			return true
		}
		g := d.f.subst(got)
		if emptyText(d.f, was) {
			return p.unquoted(d.f, g, 0) || g.op == OConcat && len(g.args) == 2 && p.unquoted(d.f, g.args[1], 0) && emptyText(d.f, g.args[0])
		}
		if g.op != OConcat || len(g.args) < 2 {
			return false
		}
		pre := g.args[0]
		for _, t := range g.args[1 : len(g.args)-1] {
			pre = mkConcat(pre, t)
		}
		return same(pre, was) && p.unquoted(d.f, g.args[len(g.args)-1], 0)
	}
	field := ""
	if cl == "string" || cl == "half" {
		field = map[string]string{"msgctxt": "ctx", "msgid": "ID", "msgid_plural": "PluralID", "msgstr": "form"}[a.kw]
	}
	// half a string: not a continuation; nothing can be read from it
	half := cl == "half"

	// id, plural id
	for name, kw := range map[string]string{"ID": "msgid", "PluralID": "msgid_plural"} {
		switch {
		case cl == kw:
			reads(name, len(kw))
		case field == name:
			if got := p.fieldOf(b, e1, name); !appends(got, old(name)) && !(half && same(got, old(name))) {
				bad("exact", "%s of the entry becomes %s, not its text followed by that of the line", name, trunc(got.String(), 200))
			}
		default:
			keeps(name)
		}
	}
	// context
	switch {
	case cl == "msgctxt":
		if !p.unquoted(d.f, ctx1, len(cl)) {
			bad("exact", "the context becomes %s, not the quoted text of the line", trunc(ctx1.String(), 200))
		}
	case field == "ctx":
		if !appends(ctx1, ctx0) && !(half && same(ctx1, ctx0)) {
			bad("exact", "the context becomes %s, not its text followed by that of the line", trunc(ctx1.String(), 200))
		}
	case begins && (a.kw != "" || changed):
		if !emptyText(d.f, ctx1) {
			bad("leak", "the context %s of the entry before stays", trunc(ctx1.String(), 120))
		}
	default:
		if !same(ctx0, ctx1) {
			bad("leak", "the context becomes %s", trunc(ctx1.String(), 200))
		}
	}
	// forms
	if m := p.fieldOf(b, e1, "Trs"); changed && m.op != OAlloc || !changed && !same(m, old("Trs")) {
		bad("exact", "the forms of the entry become %s", m)
	}
	switch {
	case cl == "msgstr":
		p.formLine(d, b, ws, bad)
	case field == "form":
		was, has := d.lookup(old("Trs"), a.form)
		ok := len(ws.forms) == 1 && same(ws.forms[0].key, a.form) && appends(ws.forms[0].val, was)
		if !ok && !has && len(ws.forms) == 1 && same(ws.forms[0].key, a.form) {
			// what a map gives for a key that it does not have is empty
			g := d.f.subst(ws.forms[0].val)
			if p.malformed(d.f, 0) && (isLookupOf(d.f, g, old("Trs"), a.form) || emptyText(d.f, g)) {
				ok = true
			} else if g.op == OConcat && len(g.args) == 2 && isLookupOf(d.f, g.args[0], old("Trs"), a.form) {
				ok = p.unquoted(d.f, g.args[1], 0)
			}
		}
		if !ok && half && len(ws.forms) == 0 {
			ok = true
		}
		if !ok && p.malformed(d.f, 0) && len(ws.forms) == 0 {
			ok = true
		}
		if !ok {
			bad("exact", "the text is not added to form %s, which the msgstr line before began (%s)", a.form, formsOf(ws.forms))
		}
	default:
		if len(ws.forms) > 0 {
			bad("exact", "form %s of the entry becomes %s", ws.forms[0].key, trunc(ws.forms[0].val.String(), 160))
		}
	}
	// references
	refs := p.fieldOf(b, e1, "Refs")
	switch cl {
	case "msgid":
		want := ref0
		switch {
		case emptyText(d.f, want), noFields(d.f, ref0):
			if changed && !emptyText(d.f, refs) || !changed && !same(refs, old("Refs")) && !isFields(d.f, refs, ref0) {
				bad("leak", "the references become %s", trunc(refs.String(), 160))
			}
		case !isFields(d.f, refs, ref0):
			if d.ask(mkEq(ref0, mkStr(""))) {
				keeps("Refs")
			} else {
				bad("refs", "the references become %s, not those read before the entry", trunc(refs.String(), 160))
			}
		}
		if !emptyText(d.f, ref1) {
			bad("leak", "the references %s stay for the next entry", trunc(ref1.String(), 120))
		}
	case "refs":
		keeps("Refs")
		if a.kw != "" && !p.addsRefs(d, ref0, ref1) || a.kw == "" && !same(ref0, ref1) && !p.addsRefs(d, ref0, ref1) {
			bad("refs", "the references read become %s, not those read so far and those of the line", trunc(ref1.String(), 200))
		}
	default:
		keeps("Refs")
		if !same(ref0, ref1) {
			bad("refs", "the references read become %s", trunc(ref1.String(), 200))
		}
	}
	// comments that precede the first entry
	hc0, hc1 := ld(s0, p.addr("headerComments")), ld(b, p.addr("headerComments"))
	if a.kw == "" && (cl == "comment" || cl == "refs") {
		if hc1.op != OAppend || len(hc1.args) != 2 || !same(hc1.args[0], hc0) || !same(hc1.args[1], p.line) {
			bad("comments", "the comments before the header become %s, not those read so far and the line", trunc(hc1.String(), 200))
		}
	} else if !same(hc0, hc1) {
		bad("comments", "the comments before the header become %s", trunc(hc1.String(), 200))
	}
	for _, w := range ws.plurals {
		if !same(w.val, e1) {
			bad("exact", "another entry is indexed by its plural id: %s", w.val)
		}
	}
	// what the parser knows about the keyword line before
	switch cl {
	case "msgctxt", "msgid", "msgid_plural", "msgstr":
	default:
		for j, t := range p.rec.next[i] {
			if j != p.sc.j && !same(t, p.rec.sym[j]) {
				bad("exact", "the line makes the parser forget which keyword came before (%s becomes %s)", p.rec.sym[j], t)
			}
		}
		for _, s := range p.scalars {
			if !same(ld(s0, s), ld(b, s)) {
				bad("exact", "the line makes the parser forget which keyword came before (%s)", s)
			}
		}
	}
}

func formsOf(ws []*Mem) string {
	if len(ws) == 0 {
		return "no form changes"
	}
	var s []string
	for _, w := range ws {
		s = append(s, fmt.Sprintf("form %s becomes %s", w.key, trunc(w.val.String(), 120)))
	}
	return strings.Join(s, ", ")
}

// noFields: the text is known to be blank
func noFields(f *Facts, text *Term) bool {
	r := false
	f.atoms(func(t *Term) {
		walkTerm(t, func(u *Term) {
			if u.op == OLen && isFields(f, u.args[0], text) && f.eval(mkEq0(linOf(u))) == 1 {
				r = true
			}
		})
	})
	return r
}

func isFields(f *Facts, t, of *Term) bool {
	t = f.subst(t)
	return t.op == OCall && t.aux == "strings.Fields" && equal(f, t.args[0], of)
}

// addsRefs: the references so far, a blank, and what follows "#:", blanks around apart
func (p *poReader) addsRefs(d *dec, was, got *Term) bool {
	f := d.f
	trim := func(t *Term) *Term {
		for t = f.subst(t); t.op == OCall && t.aux == "strings.TrimSpace" && t != p.line; {
			t = f.subst(t.args[0])
		}
		return t
	}
	isLine := func(t *Term) bool {
		x, _ := restOf(f, trim(t), 2)
		return x == p.line
	}
	short := f.eval(mkGe0(linAdd(linOf(mkLen(p.line)), linConst(-3)))) == 0
	if equal(f, was, got) {
		return short
	}
	g := trim(got)
	empty := emptyText(f, was)
	if empty && isLine(g) {
		return true
	}
	if g.op != OConcat {
		return false
	}
	parts := g.args
	if !empty {
		if !equal(f, parts[0], was) || len(parts) < 3 {
			return false
		}
		parts = parts[1:]
	}
	for len(parts) > 1 {
		s, ok := parts[0].strConst()
		if !(ok && s != "" && strings.TrimSpace(s) == "") && !(empty && emptyText(f, parts[0])) {
			return false
		}
		parts = parts[1:]
	}
	return isLine(parts[0])
}

// formLine: msgstr "text" is form 0, msgstr[i] "text" form i; an index that is not a number is
// skipped
func (p *poReader) formLine(d *dec, b *State, ws *poWrites, bad func(kind, format string, args ...interface{})) {
	f := d.f
	isRest := func(t *Term) bool {
		x, trimmed := restOf(f, t, len("msgstr"))
		return x == p.line && trimmed
	}
	var rest *Term
	find := func(t *Term) {
		if t.op == OCall && t.aux == "strings.TrimSpace" && isRest(t) {
			rest = t
		}
	}
	f.atoms(func(t *Term) { walkTerm(t, find) })
	for _, w := range ws.forms {
		walkTerm(w.val, find)
	}
	if rest == nil {
		bad("exact", "what follows msgstr is not examined")
		return
	}
	indexed := d.ask(mkCall("strings.HasPrefix", 0, types.Typ[types.Bool], rest, mkStr("[")))
	if len(ws.forms) > 1 {
		bad("exact", "changes more than one form: %s", formsOf(ws.forms))
		return
	}
	if !indexed {
		if len(ws.forms) != 1 {
			if !p.malformed(f, 0) {
				bad("exact", "the text is not stored")
			}
			return
		}
		w := ws.forms[0]
		if n, ok := f.subst(w.key).intConst(); !ok || n != 0 {
			bad("exact", "the text is stored as form %s, not 0", w.key)
		}
		if q := quotedOf(f, w.val); q == nil && !p.malformed(f, 0) || q != nil && !isRest(q) {
			bad("exact", "form 0 becomes %s, not the quoted text of the line", trunc(w.val.String(), 200))
		}
		return
	}
	// rest is [index]text
	closes := func(t *Term) bool { // t is the place of the first ] in rest
		l := linOf(f.subst(t))
		if len(l.vs) != 1 || l.vs[0].k != 1 {
			return false
		}
		c := l.vs[0].t
		if c.op != OCall || c.aux != "strings.Index" && c.aux != "strings.IndexByte" && c.aux != "strings.IndexRune" || sepOf(c.args[1]) != "]" {
			return false
		}
		off := int64(0)
		if x, _ := restOf(f, c.args[0], 1); x == rest && c.args[0].op == OSlice {
			off = 1
		} else if !equal(f, c.args[0], rest) {
			return false
		}
		return l.c == off
	}
	within := func(t *Term) (from int64, ok bool) { // t is rest, or rest without its [
		if equal(f, t, rest) {
			return 0, true
		}
		if x, _ := restOf(f, t, 1); x != nil && equal(f, x, rest) {
			return 1, true
		}
		return 0, false
	}
	shifted := func(t *Term, by int64) *Term { return mkLin(linAdd(linOf(f.subst(t)), linConst(by))) }
	isIndex := func(t *Term) bool { // rest[1:]'s text before ]
		for t = f.subst(t); t.op == OCall && t.aux == "strings.TrimSpace"; {
			t = f.subst(t.args[0])
		}
		if t.op != OSlice {
			return false
		}
		from, ok := within(t.args[0])
		if !ok {
			return false
		}
		lo, isc := f.subst(t.args[1]).intConst()
		return isc && lo+from == 1 && closes(shifted(t.args[2], from))
	}
	isText := func(t *Term) bool { // what follows ]
		t = f.subst(t)
		for t.op == OCall && t.aux == "strings.TrimSpace" {
			t = f.subst(t.args[0])
		}
		if t.op != OSlice {
			return false
		}
		from, ok := within(t.args[0])
		return ok && equal(f, t.args[2], mkLen(t.args[0])) && closes(shifted(t.args[1], from-1))
	}
	number := func(t *Term) *Term {
		for t = f.subst(t); t.op == OConv; {
			t = f.subst(t.args[0])
		}
		if t.op == OCall && (t.aux == "strconv.Atoi" || t.aux == "strconv.ParseInt" || t.aux == "strconv.ParseUint") && isIndex(t.args[0]) {
			return t
		}
		return nil
	}
	// the number is only one if converting it succeeded
	valid := func() int {
		v := -1
		f.atoms(func(t *Term) {
			if t.op == OIsNil && t.args[0].op == OCall && strings.HasSuffix(t.args[0].aux, "$1") && strings.HasPrefix(t.args[0].aux, "strconv.") && isIndex(t.args[0].args[0]) {
				v = f.eval(t)
			}
		})
		return v
	}()
	if len(ws.forms) == 1 {
		w := ws.forms[0]
		if number(w.key) == nil {
			bad("exact", "the text is stored as form %s, not that between [ and ]", w.key)
			return
		}
		if valid != 1 || f.eval(mkGe0(linOf(w.key))) != 1 {
			bad("exact", "the text is stored as form %s although the index may not be a number of a form", w.key)
		}
		if q := quotedOf(f, w.val); q == nil && !p.malformed(f, 0) || q != nil && !isText(q) {
			bad("exact", "form %s becomes %s, not the quoted text of the line", w.key, trunc(w.val.String(), 200))
		}
		return
	}
	// not stored: only without an index that is a number
	if valid == 0 || p.malformed(f, 0) {
		return
	}
	skip := false
	f.atoms(func(t *Term) {
		switch {
		case t.op == OCall && t.aux == "strings.Contains" && f.eval(t) == 0 && sepOf(t.args[1]) == "]":
			_, skip1 := within(t.args[0])
			skip = skip || skip1
		case t.op == OCall && strings.HasPrefix(t.aux, "strings.Index") && sepOf(t.args[1]) == "]" && f.eval(mkGe0(linOf(t))) == 0:
			_, skip1 := within(t.args[0])
			skip = skip || skip1
		case number(t) != nil && f.eval(mkGe0(linOf(t))) == 0:
			skip = true
		}
	})
	if !skip {
		bad("exact", "the text of an indexed form is not stored")
	}
}

func walkTerm(t *Term, visit func(t *Term)) {
	visit(t)
	for _, a := range t.args {
		walkTerm(a, visit)
	}
	if t.op == OLin {
		for _, v := range t.lin.vs {
			walkTerm(v.t, visit)
		}
	}
}

// last: the entry being read when the text ends is stored like any other
func (p *poReader) last(o *Outcome) {
	for _, ex := range p.rec.exits {
		for _, a := range p.alts {
			n := cases(p.x, o.st.facts, ex, func(d *dec) {
				if !p.holds(d, a) {
					return
				}
				p.c.count("last_entries", 1)
				e0, ctx0 := ld(ex, p.addr("trBuffer")), ld(ex, p.addr("ctxBuffer"))
				var ws []*Mem
				for _, w := range o.st.writes(ex.mem) {
					if w.kind == mMapUpd {
						ws = append(ws, w)
					}
				}
				ending := "end of the text after " + a.kw
				if a.kw == "" {
					ending = "end of an empty text"
				}
				p.flushed(d, o.st, ws, e0, ctx0, ending, a.kw == "" || a.kw == "msgctxt")
			})
			p.c.count("cases", n)
		}
	}
}

func init() {
	register("C28", "Every path of an iteration over the lines of a PO text, combined with what the parser knows after each kind of keyword line: the writes of the path are compared field by field with the PO format (the keyword's field of the current entry, form index, context, references; where an entry ends and is stored, under which id and in which context; what the next entry starts with). The last entry, the first and the end of the loop likewise.", checkPoLines)
}
