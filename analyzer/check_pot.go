package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The .pot files that xgotext writes

const parserPkg = "cli/xgotext/parser"

func isMessage(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Name() == "Translation" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), parserPkg)
}

// messageField recognises the field of a message
func messageField(t *Term, name string) (*Term, bool) {
	x, ok := loadOf(t, name)
	if !ok || !isMessage(x.typ) {
		return nil, false
	}
	return x, true
}

type potWriter struct {
	c    *Ctx
	f    *ssa.Function
	w    *textOf
	done map[string]bool
	only map[string]bool // the kinds of problems that are reported
	raw  bool            // a context was written without quotes
}

func (e *potWriter) fail(kind string, pos token.Pos, format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	if k := kind + s; !e.done[k] && e.only[kind] {
		e.done[k] = true
		e.c.fail(kind, fname(e.f), pos, "%s", s)
	}
}

// saved reads everything that Domain.Save writes into its file
func (c *Ctx) saved(kinds ...string) {
	f := c.need(parserPkg, "Domain.Save")
	if f == nil {
		return
	}
	only := map[string]bool{}
	for _, k := range kinds {
		only[k] = true
	}
	r := c.runFn(f, nil)
	raw := false
	for _, o := range r.outs {
		fs := o.st.facts
		if fs.evalNil(o.res[0]) == 0 {
			continue
		}
		e := &potWriter{c: c, f: f, w: &textOf{c: c, x: r.x}, done: map[string]bool{}, only: only}
		var ops []*tx
		var file *Term
		ok := true
		named := func(ev *Event) {
			if !equal(fs, ev.args[0], r.args[1]) {
				e.fail("incomplete", ev.pos, "the file that is written is %s", trunc(ev.args[0].String(), 100))
			}
		}
		for _, ev := range o.st.events(nil) {
			switch {
			case ev.kind == "call" && ev.name == "os.WriteFile":
				file = ev.res[0]
				named(ev)
				at := &State{facts: fs, mem: ev.mem, ev: ev.prev}
				ops = append(ops, e.w.expand(at, ev.args[1], ev.pos)...)
			case ev.kind == "call" && (ev.name == "os.Create" || ev.name == "os.OpenFile"):
				file = ev.res[0]
				named(ev)
				ops, ok = e.w.writesTo(o.st, nil, file)
			}
		}
		if file == nil {
			e.fail("incomplete", o.pos, "no file is written when %s", trunc(fs.describe(), 200))
			continue
		}
		if !ok {
			e.fail("incomplete", o.pos, "what is written to the file cannot be followed")
			continue
		}
		l := &poLexer{c: c, fn: fname(f), errs: map[string]bool{}, silent: !only["quoted"],
			escs: func(t *Term) (*Term, bool) { return nil, false },
			quoted: func(t *Term) bool {
				if _, ok := messageField(t, "Context"); ok {
					e.raw = true
					return true
				}
				return false
			}}
		for _, p := range l.run(&poText{state: poStart, first: map[int]bool{}}, ops) {
			c.count("outcomes", 1)
			if !poEnds(p.state) {
				e.fail("quoted", o.pos, "the text ends inside a statement")
			}
			e.file(r, o, p)
		}
		raw = raw || e.raw
	}
	if raw && only["quoted"] {
		c.quotedContexts()
	}
}

// file: the header entry, then the messages without context and those of every context
func (e *potWriter) file(r *run, o *Outcome, p *poText) {
	ss := p.out
	i := 0
	for i < len(ss) && ss[i].loop == nil && ss[i].comment {
		i++
	}
	ss = ss[i:]
	if len(ss) < 2 || ss[0].loop != nil || ss[1].loop != nil {
		e.fail("incomplete", o.pos, "the file does not begin with the header entry")
		return
	}
	k0, _ := keywordOf(ss[0])
	k1, _ := keywordOf(ss[1])
	if k0 != "msgid" || k1 != "msgstr" || len(ss[0].text) > 0 {
		e.fail("incomplete", o.pos, "the file does not begin with the header entry, but with %s %s", k0, k1)
		return
	}
	fs := o.st.facts
	field := func(name string) *Term {
		a := fieldAddr(r.args[0], name)
		return r.st0.load(a, elemOf(a.typ))
	}
	plain, byCtx := field("Translations"), field("ContextTranslations")
	covered := map[*Term]int{}
	for _, s := range ss[2:] {
		if s.loop == nil {
			k, _ := keywordOf(s)
			e.fail("incomplete", s.pos, "%s %s is written outside the messages", k, trunc(showPieces(s.text), 100))
			continue
		}
		found := false
		for _, ek := range e.w.everyKey(s.loop.rec, s.loop.out, leafTerms(s.loop)) {
			switch {
			case equal(fs, ek.m, plain):
				found = true
				covered[plain]++
				e.messages(s.loop, ek)
			case equal(fs, ek.m, byCtx):
				found = true
				covered[byCtx]++
				e.contexts(s.loop, ek)
			}
			if found {
				break
			}
		}
		if !found {
			e.fail("incomplete", s.pos, "this loop does not visit all messages or contexts of the domain")
			// the form of what it writes is still checked
			e.shapes(s.loop)
		}
	}
	for _, m := range []*Term{plain, byCtx} {
		if covered[m] != 1 && fs.evalNil(m) != 1 && fs.eval(mkEq0(linOf(o.st.mapLen(m)))) != 1 {
			e.fail("incomplete", o.pos, "the messages of %s are written %d times when %s", m, covered[m], trunc(fs.describe(), 200))
		}
	}
}

// leafTerms lists the unknown texts that a loop writes
func leafTerms(o *tx) []*Term {
	var r []*Term
	var pieces func(ps []poPiece)
	pieces = func(ps []poPiece) {
		for _, p := range ps {
			if p.leaf != nil {
				r = append(append(r, p.leaf.t), p.leaf.forms...)
			}
			if p.loop != nil {
				r = append(r, leafTerms(p.loop)...)
			}
		}
	}
	for k := range o.rec.back {
		for _, q := range o.seen[k] {
			pieces(q.ext)
			for _, s := range q.out {
				pieces(s.kw)
				pieces(s.text)
				if s.loop != nil {
					r = append(r, leafTerms(s.loop)...)
				}
			}
		}
	}
	return r
}

func (e *potWriter) contexts(o *tx, ek everyKey) {
	for k, b := range o.rec.back {
		key := ek.key(b)
		if key == nil {
			continue
		}
		m := valueAt(b, ek.m, key)
		for _, r := range o.seen[k] {
			none := b.facts.evalNil(m) == 1 || b.facts.eval(mkEq0(linOf(b.mapLen(m)))) == 1
			if len(r.out) == 0 {
				if !none {
					e.fail("incomplete", o.pos, "a context is left out when %s", trunc(b.facts.describe(), 200))
				}
				continue
			}
			if len(r.out) != 1 || r.out[0].loop == nil {
				e.fail("incomplete", o.pos, "a context is written as single statements")
				continue
			}
			in := r.out[0].loop
			found := false
			for _, ek2 := range e.w.everyKey(in.rec, in.out, leafTerms(in)) {
				if equal(b.facts, ek2.m, m) {
					found = true
					e.messages(in, ek2)
					break
				}
			}
			if !found {
				e.fail("incomplete", in.pos, "the messages of a context are not all visited")
				e.shapes(in)
			}
		}
	}
}

func (e *potWriter) messages(o *tx, ek everyKey) {
	for k, b := range o.rec.back {
		key := ek.key(b)
		if key == nil {
			continue
		}
		want := valueAt(b, ek.m, key)
		for _, r := range o.seen[k] {
			e.c.count("message_shapes", 1)
			x := e.message(b, r, o.pos)
			if x != nil && !equal(b.facts, x, want) {
				e.fail("incomplete", o.pos, "%s is written instead of the message", trunc(x.String(), 100))
			}
			if x == nil && len(r.out) == 0 {
				e.fail("incomplete", o.pos, "a message is left out when %s", trunc(b.facts.describe(), 200))
			}
		}
	}
}

// shapes checks the form of the messages of a loop that is not understood
func (e *potWriter) shapes(o *tx) {
	for k, b := range o.rec.back {
		for _, r := range o.seen[k] {
			if len(r.out) == 1 && r.out[0].loop != nil {
				e.shapes(r.out[0].loop)
				continue
			}
			e.message(b, r, o.pos)
		}
	}
}

// message checks the statements of a message and tells which one it is
func (e *potWriter) message(b *State, r *poText, pos token.Pos) *Term {
	fs := b.facts
	when := trunc(fs.describe(), 200)
	ss := r.out
	bad := func(pos token.Pos, format string, args ...interface{}) *Term {
		e.fail("message", pos, format+" when %s", append(args, when)...)
		return nil
	}
	if len(r.ext) > 0 {
		return bad(pos, "the text before a message is continued with %s", showPieces(r.ext))
	}
	take := func(kw string) *poStmt {
		if len(ss) == 0 || ss[0].loop != nil || ss[0].comment {
			return nil
		}
		if name, _ := keywordOf(ss[0]); name != kw {
			return nil
		}
		s := ss[0]
		ss = ss[1:]
		return s
	}
	leaf := func(s *poStmt) *Term {
		if len(s.text) == 1 && s.text[0].leaf != nil {
			return fs.subst(s.text[0].leaf.t)
		}
		if len(s.text) == 0 {
			return mkStr("")
		}
		return mkSym("text", types.Typ[types.String])
	}
	var locs []*poStmt
	for len(ss) > 0 && (ss[0].comment || ss[0].loop != nil && onlyComments(ss[0].loop)) {
		locs = append(locs, ss[0])
		ss = ss[1:]
	}
	if len(ss) == 0 && len(locs) == 0 {
		return nil
	}
	ctx := mkStr("")
	if s := take("msgctxt"); s != nil {
		ctx = leaf(s)
		pos = s.pos
	}
	s := take("msgid")
	if s == nil {
		return bad(pos, "a message has no msgid")
	}
	pos = s.pos
	x, ok := messageField(leaf(s), "MsgID")
	if !ok {
		return bad(pos, "%s is written as a message's msgid", trunc(leaf(s).String(), 100))
	}
	field := func(name string) *Term { return ld(b, fieldAddr(x, name)) }
	if c := field("Context"); !equal(fs, ctx, c) && !(emptyText(fs, c) && emptyText(fs, ctx)) {
		return bad(pos, "the message's context is written as %s", trunc(ctx.String(), 100))
	}
	pid := field("MsgIDPlural")
	if s := take("msgid_plural"); s != nil {
		if !equal(fs, leaf(s), pid) {
			return bad(s.pos, "msgid_plural is %s", trunc(leaf(s).String(), 100))
		}
		if fs.eval(mkGe0(linAdd(linOf(mkLen(pid)), linConst(-1)))) != 1 {
			return bad(s.pos, "msgid_plural is written although the plural may be empty")
		}
		for i := 0; i < 2; i++ {
			if s := take(fmt.Sprintf("msgstr[%d]", i)); s == nil || len(s.text) > 0 {
				return bad(pos, "a message with a plural has no empty msgstr[%d]", i)
			}
		}
	} else {
		if !emptyText(fs, pid) {
			return bad(pos, "the plural of a message is left out")
		}
		if s := take("msgstr"); s == nil || len(s.text) > 0 {
			return bad(pos, "a message without plural has no empty msgstr")
		}
	}
	if len(ss) > 0 {
		return bad(pos, "a message has more statements than it should")
	}
	// source locations
	sl := field("SourceLocations")
	if emptyText(fs, sl) {
		return x
	}
	if len(locs) == 1 && locs[0].loop != nil {
		o := locs[0].loop
		ok := len(o.seen) > 0
		var el []*Term
		for k := range o.rec.back {
			if len(o.seen[k]) == 0 {
				ok = false
			}
			for _, q := range o.seen[k] {
				if len(q.out) != 1 || len(q.out[0].text) != 2 || q.out[0].text[0].lit != "#: " || q.out[0].text[1].leaf == nil {
					ok = false
					continue
				}
				el = append(el, q.out[0].text[1].leaf.t)
			}
		}
		seqs, idx := fullScans(o.rec, o.out, el)
		found := false
		for n, seq := range seqs {
			all := equal(fs, seq, sl)
			for _, t := range el {
				if sq, ix, isEl := elemOfSeq(t); !isEl || sq != seq || ix != idx[n] {
					all = false
				}
			}
			found = found || all
		}
		if ok && found {
			return x
		}
	} else if len(locs) == 1 {
		ps := locs[0].text
		if len(ps) == 2 && ps[0].lit == "#: " && ps[1].leaf != nil {
			if j := fs.subst(ps[1].leaf.t); j.op == OCall && j.aux == "strings.Join" && equal(fs, j.args[0], sl) {
				return x
			}
		}
	}
	e.fail("locations", pos, "the source locations of a message are not all written when %s", when)
	return x
}

// quotedContexts: a context that is written as it is has been stored as a string with its quotes
func (c *Ctx) quotedContexts() {
	for _, f := range c.p.funcs {
		if !storesContext(f) {
			continue
		}
		r := c.runFn(f, func(x *Interp) {
			x.opaque = func(h *ssa.Function) bool { return h != f && strings.Contains(fname(h), "AddTranslation") }
		})
		for _, o := range r.outs {
			for _, m := range o.st.writes(nil) {
				if m.kind != mStore || m.addr == nil || m.addr.op != OFieldAddr || !isMessage(m.addr.args[0].typ) {
					continue
				}
				if a := fieldAddr(m.addr.args[0], "Context"); a != m.addr {
					continue
				}
				c.count("context_stores", 1)
				v := o.st.facts.subst(m.val)
				if emptyText(o.st.facts, v) {
					continue
				}
				if _, ok := messageField(v, "Context"); ok {
					continue
				}
				w := &textOf{c: c, x: r.x}
				l := &poLexer{c: c, fn: fname(f), errs: map[string]bool{}, escs: func(t *Term) (*Term, bool) { return nil, false }}
				for _, p := range l.run(&poText{state: poBare, first: map[int]bool{}, out: []*poStmt{{}}}, w.expand(o.st, v, m.pos)) {
					if p.state != poAfterQ || len(p.out) != 1 || len(p.out[0].kw) > 0 {
						c.fail("quoted", fname(f), m.pos, "the context %s is written as it is, but it is not a string with its quotes", trunc(v.String(), 160))
					}
				}
			}
		}
	}
}

func storesContext(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isMessage(fa.X.Type()) {
				if st := structOf(elemOf(fa.X.Type())); st != nil && st.Field(fa.Field).Name() == "Context" {
					return true
				}
			}
		}
	}
	return false
}

// ---- AddTranslation

func (c *Ctx) addMessage() {
	f := c.need(parserPkg, "Domain.AddTranslation")
	if f == nil {
		return
	}
	r := c.runFn(f, nil)
	dom, msg := r.args[0], r.args[1]
	for _, o := range r.outs {
		c.count("cases", cases(r.x, o.st.facts, r.st0, func(d *dec) {
			bad := func(kind, format string, args ...interface{}) {
				c.fail(kind, fname(f), o.pos, "%s when %s", fmt.Sprintf(format, args...), trunc(d.f.describe(), 300))
			}
			plain, byCtx := d.field(dom, "Translations"), d.field(dom, "ContextTranslations")
			// both tables are made together
			if d.f.evalNil(plain) == 1 && d.f.evalNil(byCtx) == 0 || d.f.evalNil(plain) == 0 && d.f.evalNil(byCtx) == 1 {
				return
			}
			if d.ask(mkIsNil(plain)) != d.ask(mkIsNil(byCtx)) {
				return
			}
			id, ctx := d.field(msg, "MsgID"), d.field(msg, "Context")
			noCtx := d.ask(mkEq(ctx, mkStr("")))
			table := func(d *dec) (*Term, bool) {
				if noCtx {
					return d.field(dom, "Translations"), true
				}
				return d.lookup(d.field(dom, "ContextTranslations"), ctx)
			}
			m, hasTable := table(d)
			var old *Term
			had := false
			if hasTable && d.f.evalNil(m) != 1 {
				old, had = d.lookup(m, id)
			}
			e := d2(o, d)
			m2, ok := table(e)
			if !ok || e.f.evalNil(m2) == 1 {
				bad("lost", "the message's context has no table afterwards")
				return
			}
			now, ok := e.lookup(m2, id)
			if !ok {
				bad("lost", "no message is found under the id afterwards")
				return
			}
			fields := func(e *dec, x *Term) [4]*Term {
				return [4]*Term{e.field(x, "MsgID"), e.field(x, "MsgIDPlural"), e.field(x, "Context"), e.field(x, "SourceLocations")}
			}
			if !had {
				if !equal(d.f, now, msg) {
					a, b := fields(e, now), fields(d, msg)
					for i := range a {
						if !equal(d.f, a[i], b[i]) {
							bad("lost", "the message is stored with %s instead of %s", trunc(a[i].String(), 100), trunc(b[i].String(), 100))
						}
					}
				} else {
					a, b := fields(e, msg), fields(d, msg)
					for i := range a {
						if !equal(d.f, a[i], b[i]) {
							bad("lost", "the message gets %s instead of %s", trunc(a[i].String(), 100), trunc(b[i].String(), 100))
						}
					}
				}
				c.count("stored_messages", 1)
			} else {
				c.count("merged_messages", 1)
				a, was, add := fields(e, now), fields(d, old), fields(d, msg)
				if !equal(d.f, a[0], was[0]) && !equal(d.f, a[0], id) || !equal(d.f, a[2], was[2]) && !equal(d.f, a[2], ctx) {
					bad("merged", "the id or context of the stored message changes to %s, %s", trunc(a[0].String(), 100), trunc(a[2].String(), 100))
				}
				want := was[1]
				if d.ask(mkEq(was[1], mkStr(""))) {
					want = add[1]
				}
				if !equal(d.f, a[1], want) && !(emptyText(d.f, a[1]) && emptyText(d.f, want)) {
					bad("merged", "the merged message's plural is %s instead of %s", trunc(a[1].String(), 100), trunc(want.String(), 100))
				}
				if !bothLists(d.f, a[3], was[3], add[3]) {
					bad("merged", "the merged message's locations are %s, not those of both", trunc(a[3].String(), 160))
				}
			}
			// nothing else
			for _, w := range o.st.writes(nil) {
				switch w.kind {
				case mAlloc:
				case mStore:
					base := w.addr
					for base.op == OFieldAddr || base.op == OIndexAddr {
						base = base.args[0]
					}
					if base.op == OAlloc || equal(d.f, base, now) || equal(d.f, base, msg) {
						continue
					}
					if base == dom && d.f.evalNil(plain) == 1 {
						continue
					}
					bad("also-writes", "also writes %s", w.addr)
				case mMapUpd:
					switch {
					case w.addr.op == OAlloc && w.addr != m2 && w.addr != e.field(dom, "ContextTranslations"):
						continue
					case equal(d.f, w.addr, m2) && equal(d.f, w.key, id) && equal(d.f, w.val, now):
						continue
					case !noCtx && equal(d.f, w.addr, e.field(dom, "ContextTranslations")) && equal(d.f, w.key, ctx) && equal(d.f, w.val, m2) && (!hasTable || equal(d.f, m2, m)):
						continue
					}
					bad("also-writes", "also stores %s in %s under %s", w.val, w.addr, w.key)
				default:
					bad("also-writes", "other messages are changed (%s)", w.class)
				}
			}
		}))
	}
}

// bothLists: t has the elements of a and b
func bothLists(f *Facts, t, a, b *Term) bool {
	t = f.subst(t)
	none := func(x *Term) bool { return f.evalNil(x) == 1 || f.eval(mkEq0(linOf(mkLen(x)))) == 1 }
	if t.op == OAppendS {
		return equal(f, t.args[0], a) && equal(f, t.args[1], b) || equal(f, t.args[0], b) && equal(f, t.args[1], a)
	}
	if t.op == OCall && t.aux == "slices.Concat" && len(t.args) == 2 {
		return equal(f, t.args[0], a) && equal(f, t.args[1], b) || equal(f, t.args[0], b) && equal(f, t.args[1], a)
	}
	return none(a) && equal(f, t, b) || none(b) && equal(f, t, a)
}

// addToDomain: the message goes to the domain of that name
func (c *Ctx) addToDomain() {
	f, add := c.need(parserPkg, "DomainMap.AddTranslation"), c.need(parserPkg, "Domain.AddTranslation")
	if f == nil || add == nil {
		return
	}
	r := c.runFn(f, func(x *Interp) { x.opaque = func(h *ssa.Function) bool { return h == add } })
	dm, name, msg := r.args[0], r.args[1], r.args[2]
	for _, o := range r.outs {
		c.count("cases", cases(r.x, o.st.facts, r.st0, func(d *dec) {
			bad := func(kind, format string, args ...interface{}) {
				c.fail(kind, fname(f), o.pos, "%s when %s", fmt.Sprintf(format, args...), trunc(d.f.describe(), 300))
			}
			want := name
			if d.ask(mkEq(name, mkStr(""))) {
				want = d.field(dm, "Default")
				if d.ask(mkEq(want, mkStr(""))) {
					want = mkStr("default")
				}
			}
			var call *Event
			for _, e := range o.st.events(nil) {
				if e.kind == "modcall" && e.name == fname(add) {
					if call != nil {
						bad("lost", "the message is added more than once")
					}
					call = e
				}
			}
			if call == nil {
				bad("lost", "the message is not added to any domain")
				return
			}
			if !equal(d.f, call.args[1], msg) {
				bad("lost", "%s is added instead of the message", call.args[1])
			}
			ds := d.field(dm, "Domains")
			var old *Term
			had := false
			if !d.ask(mkIsNil(ds)) {
				old, had = d.lookup(ds, want)
			}
			// the state at the call: Domain.AddTranslation does not change the table of domains
			at := *d
			at.st = &State{facts: d.f, mem: call.mem}
			ds2 := at.field(dm, "Domains")
			got, ok := at.lookup(ds2, want)
			if !ok || !equal(d.f, got, call.args[0]) {
				bad("mixed-up", "the message is added to %s, which is not the domain of its name", call.args[0])
				return
			}
			c.count("domain_choices", 1)
			if had && d.ask(mkIsNil(old)) {
				return // a domain in the table is never nil
			}
			if had && !equal(d.f, old, got) {
				bad("lost", "the domain's messages are replaced")
			}
			if !had && got.op != OAlloc {
				bad("mixed-up", "the new domain is %s", got)
			}
			for _, w := range o.st.writes(nil) {
				if w.kind == mMapUpd && equal(d.f, w.addr, ds2) && !equal(d.f, w.key, want) {
					bad("also-writes", "the domain %s is changed", w.key)
				}
				if w.kind == mMapDel {
					bad("also-writes", "a domain is removed")
				}
			}
			if ds2 != ds && d.f.evalNil(ds) != 1 && !equal(d.f, ds2, ds) {
				bad("also-writes", "the table of domains is replaced")
			}
		}))
	}
}

// saveDomains: every domain is saved under its own name
func (c *Ctx) saveDomains() {
	f, save := c.need(parserPkg, "DomainMap.Save"), c.need(parserPkg, "Domain.Save")
	if f == nil || save == nil {
		return
	}
	r := c.runFn(f, func(x *Interp) { x.opaque = func(h *ssa.Function) bool { return h == save } })
	dir := r.args[1]
	w := &textOf{c: c, x: r.x}
	a := fieldAddr(r.args[0], "Domains")
	ds := r.st0.load(a, elemOf(a.typ))
	saves := func(rec *LoopRec) bool {
		for _, b := range rec.back {
			for _, ev := range b.events(rec.start.ev) {
				if ev.kind == "modcall" && ev.name == fname(save) {
					return true
				}
			}
		}
		return false
	}
	for _, o := range r.outs {
		fs := o.st.facts
		if fs.evalNil(o.res[0]) == 0 {
			continue
		}
		done := fs.evalNil(ds) == 1
		for _, e := range o.st.events(nil) {
			if e.kind != "loop" {
				continue
			}
			var ts []*Term
			for _, b := range e.loop.back {
				for _, ev := range b.events(e.loop.start.ev) {
					ts = append(ts, ev.args...)
				}
			}
			for _, ek := range w.everyKey(e.loop, o.st, ts) {
				if !equal(fs, ek.m, ds) || !saves(e.loop) {
					continue
				}
				done = true
				for _, b := range e.loop.back {
					key := ek.key(b)
					if key == nil {
						continue
					}
					n := 0
					for _, ev := range b.events(e.loop.start.ev) {
						if ev.kind != "modcall" || ev.name != fname(save) {
							continue
						}
						n++
						at := &State{facts: b.facts, mem: ev.mem}
						if v := valueAt(at, ek.m, key); !equal(b.facts, ev.args[0], v) {
							c.fail("unsaved", fname(f), ev.pos, "%s is saved instead of the domain", trunc(ev.args[0].String(), 100))
						}
						p := b.facts.subst(ev.args[1])
						if !isFileIn(b.facts, p, dir, key) {
							c.fail("unsaved", fname(f), ev.pos, "a domain is saved to %s", trunc(p.String(), 160))
						}
						c.count("saves", 1)
					}
					if n == 0 {
						c.fail("unsaved", fname(f), e.pos, "a domain is not saved when %s", trunc(b.facts.describe(), 200))
					}
				}
			}
		}
		if !done {
			c.fail("unsaved", fname(f), o.pos, "the domains are not all saved when %s", trunc(fs.describe(), 200))
		}
	}
}

// isFileIn: the path is dir/name.pot
func isFileIn(f *Facts, p, dir, name *Term) bool {
	file := mkConcat(name, mkStr(".pot"))
	if p.op == OCall && (p.aux == "path/filepath.Join" || p.aux == "path.Join") && len(p.args) == 2 {
		return equal(f, p.args[0], dir) && equal(f, p.args[1], file)
	}
	return equal(f, p, mkConcat(mkConcat(dir, mkStr("/")), file))
}

func init() {
	register("C27", "xgotext's Domain.Save, with everything it calls: the language of the files it can write (constants, unknown texts, per-character loops as homomorphisms, loops over messages) is read by a PO lexer: every unknown text stands inside quotes with quotes, backslashes and newlines replaced by escapes that read back as the character; contexts that are written without further quoting are strings with quotes at every place that stores them; each message consists of msgctxt if it has a context, msgid, and msgstr or msgid_plural with two forms, according to its plural.", func(c *Ctx) {
		c.saved("quoted", "message")
	})
	register("C26", "Domain.AddTranslation, compared case by case with its specification: a message that is the first with its id in its context is stored there, otherwise the stored one keeps its plural or takes the new one's and gets all locations, and nothing else changes; DomainMap.AddTranslation passes it to the domain of that name, the default one when there is none; ParseGetter, for every entry of the table, adds a message made of the unquoted literals at the entry's positions whenever they are string literals; InspectCallExpr gives it the call's literals in order; DomainMap.Save saves every domain under its own name, and Domain.Save writes every message of both maps, with plural, context and all locations.", func(c *Ctx) {
		c.saved("incomplete", "locations", "message")
		c.addMessage()
		c.addToDomain()
		c.saveDomains()
		c.extracted()
	})
}

// ---- ParseGetter

// extracted: every call whose arguments are literals adds the message that they spell
func (c *Ctx) extracted() {
	f, add := c.need(parserPkg, "GoFile.ParseGetter"), c.need(parserPkg, "DomainMap.AddTranslation")
	if f == nil || add == nil {
		return
	}
	r := c.runFn(f, func(x *Interp) { x.opaque = func(h *ssa.Function) bool { return h == add } })
	if len(r.args) != 4 {
		c.fail("anchors", fname(f), f.Pos(), "ParseGetter has %d parameters", len(r.args)-1)
		return
	}
	g, def, args, pos := r.args[0], r.args[1], r.args[2], r.args[3]
	index := func(name string) *Term {
		st := structOf(def.typ)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return mkField(def, i, types.Typ[types.Int])
			}
		}
		return mkSym("index", types.Typ[types.Int])
	}
	lit := args.typ.Underlying().(*types.Slice).Elem()
	for _, o := range r.outs {
		w := &textOf{c: c, x: r.x}
		c.count("cases", cases(r.x, o.st.facts, r.st0, func(d *dec) {
			bad := func(kind, format string, as ...interface{}) {
				c.fail(kind, fname(f), o.pos, "%s when %s", fmt.Sprintf(format, as...), trunc(d.f.describe(), 300))
			}
			var call *Event
			for _, e := range o.st.events(nil) {
				if e.kind == "modcall" && e.name == fname(add) {
					if call != nil {
						bad("lost", "the message is added more than once")
					}
					call = e
				}
			}
			// the table's positions: -1, or the position of an argument; the id may be the first one,
			// a plural or context never is
			want := map[string]*Term{}
			for _, name := range []string{"ID", "Domain", "Plural", "Context"} {
				i := index(name)
				if !d.ask(mkGe0(linOf(i))) {
					if name == "ID" || !d.ask(mkEq(i, mkInt(-1))) {
						return
					}
					continue
				}
				if (name == "Plural" || name == "Context") && d.ask(mkEq(i, mkInt(0))) {
					return
				}
				if !d.ask(mkGe0(linAdd(linSub(linOf(mkLen(args)), linOf(i)), linConst(-1)))) {
					if call != nil {
						bad("mixed-up", "a call that has too few arguments is extracted")
					}
					return
				}
				a := d.load(mkIndexAddr(args, i, types.NewPointer(lit)))
				if d.ask(mkIsNil(a)) || !d.ask(mkEq(d.field(a, "Kind"), mkInt(int64(token.STRING)))) {
					if call != nil {
						bad("mixed-up", "a call whose %s is not a string literal is extracted", name)
					}
					return
				}
				v := d.field(a, "Value")
				text := mkCall("strconv.Unquote", 0, types.Typ[types.String], v)
				if err := mkCall("strconv.Unquote", 1, types.Universe.Lookup("error").Type(), v); d.f.evalNil(err) == 0 && call == nil {
					return // cannot happen for a literal
				}
				want[name] = text
			}
			if call == nil {
				bad("lost", "a call with string literals is not extracted")
				return
			}
			c.count("extractions", 1)
			if dm := d.field(g, "Data"); !equal(d.f, call.args[0], dm) {
				bad("lost", "the message is added to %s", call.args[0])
			}
			if want["Domain"] == nil {
				want["Domain"] = mkStr("")
			}
			if !equal(d.f, call.args[1], want["Domain"]) {
				bad("mixed-up", "the message's domain is %s", trunc(call.args[1].String(), 120))
			}
			at := &State{facts: d.f, mem: call.mem, ev: call}
			msg := call.args[2]
			for field, role := range map[string]string{"MsgID": "ID", "MsgIDPlural": "Plural"} {
				wt := want[role]
				if wt == nil {
					wt = mkStr("")
				}
				if v := ld(at, fieldAddr(msg, field)); !equal(d.f, v, wt) {
					bad("mixed-up", "the message's %s is %s", field, trunc(v.String(), 120))
				}
			}
			ctx := ld(at, fieldAddr(msg, "Context"))
			if wt := want["Context"]; wt == nil {
				if !emptyText(d.f, ctx) {
					bad("mixed-up", "the message's context is %s", trunc(ctx.String(), 120))
				}
			} else if !equal(d.f, ctx, wt) {
				l := &poLexer{c: c, fn: fname(f), errs: map[string]bool{}, silent: true, escs: func(t *Term) (*Term, bool) { return nil, false }}
				for _, p := range l.run(&poText{state: poBare, first: map[int]bool{}, out: []*poStmt{{}}}, w.expand(at, ctx, o.pos)) {
					ps := p.out[0].text
					if p.state != poAfterQ || len(p.out) != 1 || len(p.out[0].kw) > 0 || len(ps) != 1 || ps[0].leaf == nil || !equal(d.f, ps[0].leaf.t, wt) {
						bad("mixed-up", "the message's context is %s", trunc(ctx.String(), 120))
					}
				}
			}
			locs := ld(at, fieldAddr(msg, "SourceLocations"))
			if es, ok := r.x.elems(at, locs); !ok || len(es) != 1 || !equal(d.f, es[0], pos) {
				bad("lost", "the message's locations are %s", trunc(locs.String(), 120))
			}
		}))
	}
	c.literals()
}

// literals: InspectCallExpr hands over the literals of a call in their order, and its place
func (c *Ctx) literals() {
	f, parse := c.need(parserPkg, "GoFile.InspectCallExpr"), c.need(parserPkg, "GoFile.ParseGetter")
	if f == nil || parse == nil {
		return
	}
	r := c.runFn(f, func(x *Interp) { x.opaque = func(h *ssa.Function) bool { return h == parse } })
	g, n := r.args[0], r.args[1]
	for _, o := range r.outs {
		fs := o.st.facts
		for _, e := range o.st.events(nil) {
			if e.kind != "modcall" || e.name != fname(parse) {
				continue
			}
			at := &State{facts: fs, mem: e.mem, ev: e.prev}
			w := &textOf{c: c, x: r.x}
			if !w.literalsOf(at, e.args[2], n) {
				c.fail("mixed-up", fname(f), e.pos, "the literals that are handed over are not those of the call's arguments: %s", trunc(e.args[2].String(), 120))
			}
			file := ld(at, fieldAddr(g, "FilePath"))
			files := ld(at, fieldAddr(g, "FileSet"))
			ops := w.expand(at, e.args[3], e.pos)
			ok := len(ops) == 3 && ops[0].kind == txLeaf && ops[0].t.contains(file) && ops[1].kind == txLit && ops[1].lit == ":" && ops[2].kind == txLeaf
			if ok {
				base := ld(at, fieldAddr(g, "BasePath"))
				ops[0].t.walk(func(u *Term) {
					if u.op != OCall {
						return
					}
					switch u.aux {
					case "path/filepath.Rel":
						ok = ok && equal(fs, u.args[0], base) && equal(fs, u.args[1], file)
					case "path/filepath.Base", "path/filepath.Dir", "path/filepath.Ext", "path.Base", "path.Dir", "path.Ext":
						ok = false // a part of the path
					}
				})
			}
			if ok {
				t := numberOf(ops[2].t)
				ok = t.contains(files) && t.contains(n) && strings.Contains(t.String(), "go/token.FileSet).Position(") && !strings.Contains(t.String(), "Rparen") && isLine(t)
			}
			if !ok {
				c.fail("mixed-up", fname(f), e.pos, "the place of the call is %s", trunc(e.args[3].String(), 160))
			}
			c.count("calls_handed_over", 1)
		}
	}
}

// isLine: the number is the Line of a position
func isLine(t *Term) bool {
	ok := false
	t.walk(func(u *Term) {
		if u.op == OField && len(u.args) == 1 {
			if st := structOf(u.args[0].typ); st != nil {
				var i int
				if _, err := fmt.Sscanf(u.aux, "%d", &i); err == nil && i < st.NumFields() && st.Field(i).Name() == "Line" {
					ok = true
				}
			}
		}
	})
	return ok
}

// literalsOf: the slice has, for each argument of the call, the literal that it is, or nil
func (w *textOf) literalsOf(st *State, t, call *Term) bool {
	fs := st.facts
	args := ld(st, fieldAddr(call, "Args"))
	lit := t.typ.Underlying().(*types.Slice).Elem()
	// the literal that an argument is
	isLit := func(b *State, v, a *Term) bool {
		v = b.facts.subst(v)
		if v.op == OUnIface {
			return v.args[0] == a && types.Identical(v.typ, lit)
		}
		return v.isNil() && b.facts.eval(mk(OIsTyp, lit, "", true, a)) == 0
	}
	for _, rec := range loopsOf(st) {
		var ts []*Term
		for _, b := range rec.back {
			for _, m := range b.writes(rec.start.mem) {
				if m.kind == mStore {
					ts = append(ts, m.addr, m.val)
				}
			}
		}
		seqs, idx := fullScans(rec, st, ts)
		for n, seq := range seqs {
			if !equal(fs, seq, args) {
				continue
			}
			ok := len(rec.back) > 0
			for _, b := range rec.back {
				a := (&State{facts: b.facts, mem: rec.start.mem}).load(mkIndexAddr(seq, idx[n], types.NewPointer(args.typ.Underlying().(*types.Slice).Elem())), args.typ.Underlying().(*types.Slice).Elem())
				stored := false
				for _, m := range b.writes(rec.start.mem) {
					if m.kind == mStore && m.addr.op == OIndexAddr && (m.addr.args[0] == t || t.op == OSlice && m.addr.args[0] == t.args[0]) {
						stored = true
						if m.addr != mkIndexAddr(t, idx[n], m.addr.typ) || !isLit(b, m.val, a) {
							ok = false
						}
					}
				}
				if !stored && b.facts.eval(mk(OIsTyp, lit, "", true, a)) != 0 {
					ok = false
				}
			}
			// nothing else is written to the slice, and it has the right length
			if ok && equal(fs, mkLen(t), mkLen(args)) {
				return true
			}
			// or every literal is appended to it
			if r2, init, next, isAcc := w.accum(st, t); isAcc && r2 == rec {
				k, empty := emptyLen(init)
				ok := empty && k == 0
				for i, nx := range next {
					b := rec.back[i]
					a := (&State{facts: b.facts, mem: rec.start.mem}).load(mkIndexAddr(seq, idx[n], types.NewPointer(args.typ.Underlying().(*types.Slice).Elem())), args.typ.Underlying().(*types.Slice).Elem())
					if nx.op != OAppend || len(nx.args) != 2 || nx.args[0] != t || !isLit(b, nx.args[1], a) {
						ok = false
					}
				}
				if ok {
					return true
				}
			}
		}
	}
	return false
}
