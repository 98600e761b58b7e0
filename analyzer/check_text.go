package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exporting a catalogue as PO text

func (ps poPiece) show() string {
	switch {
	case ps.leaf != nil:
		return "<" + trunc(ps.leaf.t.String(), 100) + ">"
	case ps.loop != nil:
		return "<loop>"
	}
	return fmt.Sprintf("%q", ps.lit)
}

func showPieces(ps []poPiece) string {
	var r []string
	for _, p := range ps {
		r = append(r, p.show())
	}
	return strings.Join(r, " ")
}

// poEnds: a complete text ends here
func poEnds(s byte) bool { return s == poStart || s == poAfterQ || s == poComment }

// ---- loops that visit everything

// listKeys: a list holds every key of a map, once
func (w *textOf) listKeys(st *State, t *Term) (*Term, bool) {
	t = st.facts.subst(t)
	if m, ok := keyList(st, t); ok {
		return m, true
	}
	if t.op == OCall && t.aux == "slices.AppendSeq" && len(t.args) == 2 && t.args[1].op == OCall && t.args[1].aux == "maps.Keys" {
		if n, ok := emptyLen(t.args[0]); ok && n == 0 {
			return t.args[1].args[0], true
		}
	}
	segs, ok := w.list(st, t, nil, 0)
	if !ok || len(segs) != 1 || segs[0].rec == nil {
		return nil, false
	}
	s := segs[0]
	for _, l := range mapLoops(st, nil) {
		if l.rec != s.rec {
			continue
		}
		for i, alt := range s.alts {
			if len(alt) != 1 || alt[0].rec != nil || !equal(s.back[i].facts, alt[0].t, l.key) || !iterates(s.back[i], l.m, l.key) {
				return nil, false
			}
		}
		return l.m, true
	}
	return nil, false
}

// indexes lists the sequences that a loop's iterations read at i
func indexes(ts []*Term, i *Term) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	for _, t := range ts {
		t.walk(func(u *Term) {
			if (u.op == OIndexAddr || u.op == OIndex) && u.args[1] == i && !seen[u.args[0]] {
				seen[u.args[0]] = true
				r = append(r, u.args[0])
			}
		})
	}
	sortTerms(r)
	return r
}

// fullScans lists the sequences that a loop reads from the first to the last element
func fullScans(rec *LoopRec, out *State, ts []*Term) (seqs, idx []*Term) {
	for _, b := range rec.back {
		for t := range b.facts.lits {
			ts = append(ts, t)
		}
	}
	for _, sc := range scans(rec) {
		i := mkLin(linAdd(linOf(sc.sym()), linConst(-sc.init)))
		for _, seq := range indexes(ts, i) {
			if out.facts.eval(mkGe0(linSub(linOf(i), linOf(mkLen(seq))))) == 1 {
				seqs, idx = append(seqs, seq), append(idx, i)
			}
		}
	}
	return
}

// everyKey: the loop visits every key of a map
type everyKey struct {
	m   *Term
	key func(b *State) *Term // nil: the iteration cannot happen
	val func(b *State) *Term // when the loop is over the values
}

// value is what an iteration finds under its key
func (ek everyKey) value(st *State, b *State) *Term {
	if ek.val != nil {
		return ek.val(b)
	}
	return valueAt(st, ek.m, ek.key(b))
}

// everyValue: the loop visits every key of a map, or every value
func (w *textOf) everyValue(rec *LoopRec, out *State, ts []*Term) []everyKey {
	r := w.everyKey(rec, out, ts)
	seqs, idx := fullScans(rec, out, ts)
	for n, seq := range seqs {
		n, seq := n, seq
		if m, ok := w.listValues(rec.entry, seq); ok {
			mt := m.typ.Underlying().(*types.Map)
			k := mkSym("key", mt.Key())
			r = append(r, everyKey{m, func(b *State) *Term { return k }, func(b *State) *Term {
				return (&State{facts: b.facts, mem: rec.start.mem}).load(mkIndexAddr(seq, idx[n], types.NewPointer(mt.Elem())), mt.Elem())
			}})
		}
	}
	return r
}

// listValues: a list holds every value of a map
func (w *textOf) listValues(st *State, t *Term) (*Term, bool) {
	t = st.facts.subst(t)
	if t.op == OCall && (t.aux == "slices.Collect" || t.aux == "slices.SortedFunc" || t.aux == "slices.SortedStableFunc") && t.args[0].op == OCall && t.args[0].aux == "maps.Values" {
		return t.args[0].args[0], true
	}
	segs, ok := w.list(st, t, nil, 0)
	if !ok || len(segs) != 1 || segs[0].rec == nil {
		return nil, false
	}
	s := segs[0]
	for _, l := range mapLoops(st, nil) {
		if l.rec != s.rec {
			continue
		}
		for i, alt := range s.alts {
			if len(alt) != 1 || alt[0].rec != nil || !iterates(s.back[i], l.m, l.key) || !equal(s.back[i].facts, alt[0].t, valueAt(s.back[i], l.m, l.key)) {
				return nil, false
			}
		}
		return l.m, true
	}
	return nil, false
}

func (w *textOf) everyKey(rec *LoopRec, out *State, ts []*Term) []everyKey {
	var r []everyKey
	for _, l := range mapLoops(out, nil) {
		if l.rec == rec {
			l := l
			r = append(r, everyKey{m: l.m, key: func(b *State) *Term {
				if !iterates(b, l.m, l.key) {
					return nil
				}
				return l.key
			}})
		}
	}
	seqs, idx := fullScans(rec, out, ts)
	for n, seq := range seqs {
		n, seq := n, seq
		if m, ok := w.listKeys(rec.entry, seq); ok {
			r = append(r, everyKey{m: m, key: func(b *State) *Term {
				kt := m.typ.Underlying().(*types.Map).Key()
				k := (&State{facts: b.facts, mem: rec.start.mem}).load(mkIndexAddr(seq, idx[n], types.NewPointer(kt)), kt)
				if has, _, cond := b.mapLookup(m, k, m.typ.Underlying().(*types.Map)); cond == nil && b.facts.eval(has) == 0 {
					return nil
				}
				return k
			}})
		}
	}
	return r
}

// valueAt reads m[k] where k is known to be a key of m
func valueAt(b *State, m, k *Term) *Term {
	mt := m.typ.Underlying().(*types.Map)
	_, v, cond := b.mapLookup(m, k, mt)
	if cond != nil {
		return mkSym("value", mt.Elem())
	}
	return v
}

// ---- EscapeSpecialCharacters

// textFacts adds what counting and splitting say about each other
func textFacts(f *Facts) *Facts {
	var cs []*Term
	f.atoms(func(t *Term) {
		if t.op != OLen {
			return
		}
		x, sep, max, ok := splitCall(t.args[0])
		if !ok || max >= 0 || sep == "" {
			return
		}
		cs = append(cs, mkEq0(linAdd(linSub(linOf(t), linOf(mkCall("strings.Count", 0, types.Typ[types.Int], x, mkStr(sep)))), linConst(-1))))
	})
	f.atoms(func(t *Term) {
		switch {
		case t.op == OCall && t.aux == "strings.Count":
			cs = append(cs, mkGe0(linOf(t)))
		case t.op == OCall && t.aux == "strings.Contains":
			n := mkCall("strings.Count", 0, types.Typ[types.Int], t.args[0], t.args[1])
			if v := f.eval(t); v >= 0 {
				c := mkGe0(linAdd(linOf(n), linConst(-1)))
				if v == 0 {
					c = mkEq0(linOf(n))
				}
				cs = append(cs, c)
			}
		case t.op == OCall && (t.aux == "strings.Index" || t.aux == "strings.IndexByte") && len(t.args) == 2:
			if s := sepOf(t.args[1]); s != "" {
				n := mkCall("strings.Count", 0, types.Typ[types.Int], t.args[0], mkStr(s))
				if v := f.eval(mkGe0(linOf(t))); v >= 0 {
					c := mkGe0(linAdd(linOf(n), linConst(-1)))
					if v == 0 {
						c = mkEq0(linOf(n))
					}
					cs = append(cs, c)
				}
			}
		}
	})
	for _, c := range cs {
		g, ok := f.assume(c, true)
		if !ok {
			return nil
		}
		f = g
	}
	return f
}

// escapes: whatever the argument, the function's result is its text as it can stand inside quotes
func (c *Ctx) escapes(f *ssa.Function) {
	r := c.runFn(f, nil)
	s := r.args[0]
	for _, o := range r.outs {
		fs := textFacts(o.st.facts)
		if fs == nil {
			continue
		}
		w := &textOf{c: c, x: r.x}
		ops := w.expand(o.st, o.res[0], o.pos)
		l := &poLexer{c: c, fn: fname(f), errs: map[string]bool{}, escs: func(*Term) (*Term, bool) { return nil, false }}
		for _, p := range l.run(&poText{state: poString, first: map[int]bool{}}, ops) {
			c.count("outcomes", 1)
			if p.state != poString || len(p.out) > 0 {
				c.fail("quoted", fname(f), o.pos, "the result does not stay inside the quotes it is put in (it ends in state %c) when %s", p.state, trunc(fs.describe(), 240))
				continue
			}
			if why := wholeText(fs, p.ext, s); why != "" {
				c.fail("changed", fname(f), o.pos, "the result is not the text: %s, when %s", why, trunc(fs.describe(), 240))
			}
		}
	}
}

// wholeText: the pieces are the text t, from its beginning to its end
func wholeText(f *Facts, ps []poPiece, t *Term) string {
	if emptyText(f, t) && len(ps) == 0 {
		return ""
	}
	if len(ps) == 1 && ps[0].leaf != nil && equal(f, ps[0].leaf.t, t) && len(ps[0].leaf.images) == 0 {
		return ""
	}
	// lines, with their ends
	var lines *tx
	rest := ""
	for _, p := range ps {
		switch {
		case p.loop != nil && lines == nil && rest == "":
			lines = p.loop
		case p.leaf == nil && p.loop == nil && lines != nil:
			rest += p.lit
		default:
			return "it is made of " + trunc(showPieces(ps), 200)
		}
	}
	if lines == nil {
		return "it is made of " + trunc(showPieces(ps), 200)
	}
	var elems []*Term
	for _, rs := range lines.seen {
		for _, q := range rs {
			for _, p := range q.ext {
				if p.leaf != nil {
					elems = append(append(elems, p.leaf.t), p.leaf.forms...)
				}
			}
		}
	}
	for _, sc := range scans(lines.rec) {
		i := mkLin(linAdd(linOf(sc.sym()), linConst(-sc.init)))
		for _, seq := range indexes(elems, i) {
			return allLines(f, lines, seq, i, t, rest)
		}
	}
	return "the lines are not all visited"
}

// unescaped strips replacements of single characters
func unescaped(f *Facts, t *Term) *Term {
	t = f.subst(t)
	for t.op == OCall {
		switch t.aux {
		case "strings.ReplaceAll", "strings.Replace":
			t = f.subst(t.args[0])
			continue
		case "(*strings.Replacer).Replace":
			t = f.subst(t.args[1])
			continue
		}
		break
	}
	return t
}

func allLines(f *Facts, lines *tx, seq, i, t *Term, rest string) string {
	full := f.subst(seq)
	if full.op == OSlice {
		if lo, ok := full.args[1].intConst(); !ok || lo != 0 {
			return "lines are left out"
		}
		full = f.subst(full.args[0])
	}
	x, sep, max, ok := splitCall(full)
	if !ok || max >= 0 || sep != "\n" || !equal(f, unescaped(f, x), t) {
		return "the lines are not those of the text"
	}
	n := linOf(mkLen(full))
	out := textFacts(lines.out.facts)
	if out == nil {
		return ""
	}
	cut := false
	switch {
	case out.eval(mkGe0(linSub(linOf(i), n))) == 1:
	case out.eval(mkGe0(linAdd(linSub(linOf(i), n), linConst(1)))) == 1:
		cut = true
		n = linAdd(n, linConst(-1))
		blank := false
		f.atoms(func(u *Term) {
			if sq, ix, ok := elemOfSeq(u); ok && f.subst(sq) == full && equal(f, mkLin(linAdd(linOf(ix), linConst(1))), mkLen(full)) && emptyText(f, u) {
				blank = true
			}
		})
		if !blank {
			return "the last line is left out although it may not be empty"
		}
	default:
		return "the lines are not all visited"
	}
	for k, rs := range lines.seen {
		b := lines.rec.back[k]
		for _, r := range rs {
			if len(r.out) > 0 || len(r.ext) == 0 || r.ext[0].leaf == nil {
				return "a line is written as " + trunc(showPieces(r.ext), 160)
			}
			line := false
			for _, t := range append([]*Term{r.ext[0].leaf.t}, r.ext[0].leaf.forms...) {
				sq, ix, ok := elemOfSeq(unescaped(b.facts, t))
				line = line || ok && (equal(b.facts, sq, seq) || equal(b.facts, sq, full)) && equal(b.facts, ix, i)
			}
			if !line {
				return "a line is written as " + trunc(showPieces(r.ext), 160)
			}
			end := ""
			for _, p := range r.ext[1:] {
				if p.leaf != nil || p.loop != nil {
					return "a line is written as " + trunc(showPieces(r.ext), 160)
				}
				end += p.lit
			}
			isLast := b.facts.eval(mkEq0(linSub(linAdd(linOf(i), linConst(1)), n)))
			switch {
			case end == "" && isLast != 1:
				return "a line's end is left out"
			case end == "" && (rest == "\n") != cut:
				return "the end of the last line is left out"
			case end == "\n" && (!cut || rest != "") && isLast != 0:
				return "an end is added to the last line"
			case end != "" && end != "\n":
				return "a line ends in " + strconv.Quote(end)
			}
		}
	}
	return ""
}

// ---- MarshalText

type exporter struct {
	c    *Ctx
	f    *ssa.Function
	r    *run
	do   *Term
	w    *textOf
	o    *Outcome
	done map[string]bool
}

func (e *exporter) fail(kind string, pos token.Pos, format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	if k := kind + s; !e.done[k] {
		e.done[k] = true
		e.c.fail(kind, fname(e.f), pos, "%s", s)
	}
}

func (e *exporter) field(name string) *Term {
	a := fieldAddr(e.do, name)
	return e.r.st0.load(a, elemOf(a.typ))
}

func keywordOf(s *poStmt) (name string, idx *Term) {
	for _, p := range s.kw {
		if p.leaf != nil {
			idx = p.leaf.t
			name += "%"
			continue
		}
		name += p.lit
	}
	return strings.TrimSpace(name), idx
}

func (c *Ctx) textExport(f *ssa.Function, esc map[string]bool) {
	r := c.runFn(f, func(x *Interp) { x.pure = func(h *ssa.Function) bool { return esc[fname(h)] } })
	for _, o := range r.outs {
		e := &exporter{c: c, f: f, r: r, do: r.args[0], w: &textOf{c: c, x: r.x}, o: o, done: map[string]bool{}}
		if o.st.facts.evalNil(o.res[1]) != 1 {
			e.fail("error", o.pos, "the export can fail: %s when %s", trunc(o.res[1].String(), 100), trunc(o.st.facts.describe(), 200))
			continue
		}
		ops := e.w.expand(o.st, o.res[0], o.pos)
		l := &poLexer{c: c, fn: fname(f), errs: map[string]bool{}, escs: func(t *Term) (*Term, bool) {
			if t.op == OCall && esc[t.aux] && len(t.args) == 1 {
				return t.args[0], true
			}
			return nil, false
		}}
		for _, p := range l.run(&poText{state: poStart, first: map[int]bool{}}, ops) {
			c.count("outcomes", 1)
			if !poEnds(p.state) || len(p.ext) > 0 {
				e.fail("quoted", o.pos, "the text ends inside a statement")
				continue
			}
			e.exported(p)
		}
	}
}

func (e *exporter) exported(p *poText) {
	fs := e.o.st.facts
	i := 0
	for i < len(p.out) && (p.out[i].comment || p.out[i].loop != nil && onlyComments(p.out[i].loop)) {
		i++
	}
	e.comments(p.out[:i])
	ss := p.out[i:]
	if len(ss) < 2 || ss[0].loop != nil || ss[1].loop != nil {
		e.fail("incomplete", e.o.pos, "the text does not begin with the header entry")
		return
	}
	k0, _ := keywordOf(ss[0])
	k1, _ := keywordOf(ss[1])
	if k0 != "msgid" || k1 != "msgstr" || len(ss[0].text) > 0 {
		e.fail("incomplete", e.o.pos, "the text does not begin with the header entry, but with %s %s", k0, k1)
		return
	}
	e.header(ss[1])
	e.c.count("statements", len(ss))
	covered := map[string]bool{}
	for _, s := range ss[2:] {
		if s.loop == nil {
			k, _ := keywordOf(s)
			e.fail("incomplete", s.pos, "%q %s is written outside the entries", k, trunc(showPieces(s.text), 100))
			continue
		}
		e.entries(s.loop, covered)
	}
	for _, name := range []string{"translations", "contextTranslations"} {
		m := e.field(name)
		if !covered[name] && fs.evalNil(m) != 1 && fs.eval(mkEq0(linOf(e.o.st.mapLen(m)))) != 1 {
			e.fail("incomplete", e.o.pos, "the entries of %s are not all exported when %s", name, trunc(fs.describe(), 200))
		}
	}
}

// comments: the comments that were read before the header precede it
func (e *exporter) comments(ss []*poStmt) {
	fs := e.o.st.facts
	hc := e.field("headerComments")
	found := false
	for _, s := range ss {
		switch {
		case s.loop != nil:
			found = found || e.commentLoop(s.loop, hc)
		case len(s.text) == 1 && s.text[0].leaf != nil && equal(fs, s.text[0].leaf.t, hc):
			found = true
		}
	}
	if !found && fs.evalNil(hc) != 1 && fs.eval(mkEq0(linOf(mkLen(hc)))) != 1 {
		e.fail("comments", e.o.pos, "the comments before the header are not all exported when %s", trunc(fs.describe(), 200))
	}
}

// commentLoop: the loop writes every header comment
func (e *exporter) commentLoop(o *tx, hc *Term) bool {
	var leaves []*Term
	for _, rs := range o.seen {
		for _, r := range rs {
			if len(r.ext) > 0 || len(r.out) != 1 || len(r.out[0].text) != 1 || r.out[0].text[0].leaf == nil {
				return false
			}
			leaves = append(leaves, r.out[0].text[0].leaf.t)
		}
	}
	seqs, idx := fullScans(o.rec, o.out, leaves)
	for n, seq := range seqs {
		ok := equal(e.o.st.facts, seq, hc)
		for _, l := range leaves {
			sq, ix, is := elemOfSeq(l)
			ok = ok && is && equal(e.o.st.facts, sq, seq) && ix == idx[n]
		}
		if ok {
			return true
		}
	}
	return false
}

func onlyComments(o *tx) bool {
	for _, rs := range o.seen {
		for _, r := range rs {
			for _, s := range r.out {
				if !s.comment {
					return false
				}
			}
		}
	}
	return true
}

// header: the msgstr of the header entry has a line for every value of every header
func (e *exporter) header(s *poStmt) {
	fs := e.o.st.facts
	hs := e.field("Headers")
	if len(s.text) == 0 {
		if fs.evalNil(hs) != 1 && fs.eval(mkEq0(linOf(e.o.st.mapLen(hs)))) != 1 {
			e.fail("header", s.pos, "the headers are not exported when %s", trunc(fs.describe(), 200))
		}
		return
	}
	if len(s.text) != 1 || s.text[0].loop == nil {
		e.fail("header", s.pos, "the header entry's text is %s", trunc(showPieces(s.text), 200))
		return
	}
	o := s.text[0].loop
	var why string
	for _, ek := range e.w.everyKey(o.rec, o.out, nil) {
		if !equal(fs, ek.m, hs) {
			continue
		}
		why = e.headerLines(o, ek)
		if why == "" {
			e.c.count("header_loops", 1)
			return
		}
	}
	if why == "" {
		why = "the headers are not all visited"
	}
	e.fail("header", o.pos, "%s", why)
}

func (e *exporter) headerLines(o *tx, ek everyKey) string {
	for k := range o.rec.back {
		b := o.rec.back[k]
		key := ek.key(b)
		if key == nil {
			continue
		}
		vs := valueAt(b, ek.m, key)
		rs := o.seen[k]
		if len(rs) == 0 {
			continue
		}
		for _, r := range rs {
			if len(r.ext) == 0 {
				if !emptyText(b.facts, vs) {
					return fmt.Sprintf("a header is left out when %s", trunc(b.facts.describe(), 200))
				}
				continue
			}
			if len(r.ext) != 1 || r.ext[0].loop == nil {
				return "a header is written as " + trunc(showPieces(r.ext), 160)
			}
			in := r.ext[0].loop
			ok := false
			var leaves []*Term
			for _, qs := range in.seen {
				for _, q := range qs {
					for _, p := range q.ext {
						if p.leaf != nil {
							leaves = append(leaves, p.leaf.t)
						}
					}
				}
			}
			seqs, idx := fullScans(in.rec, in.out, leaves)
			for n, seq := range seqs {
				if !equal(b.facts, seq, vs) {
					continue
				}
				ok = true
				for j := range in.rec.back {
					ib := in.rec.back[j]
					if len(in.seen[j]) == 0 {
						continue
					}
					for _, q := range in.seen[j] {
						q.ext = e.flat(ib, q.ext)
						if len(q.ext) != 4 || q.ext[0].leaf == nil || q.ext[1].lit != ": " || q.ext[2].leaf == nil || q.ext[3].lit != "\n" {
							return "a header line is " + trunc(showPieces(q.ext), 160)
						}
						if !equal(ib.facts, q.ext[0].leaf.t, key) {
							return "a header line begins with " + trunc(q.ext[0].leaf.t.String(), 100) + ", which is not the header's name"
						}
						v := ib.load(mkIndexAddr(seq, idx[n], types.NewPointer(types.Typ[types.String])), types.Typ[types.String])
						if !equal(ib.facts, q.ext[2].leaf.t, v) {
							return "a header line has " + trunc(q.ext[2].leaf.t.String(), 100) + ", which is not the header's value"
						}
					}
				}
			}
			if !ok {
				return "the values of a header are not all written"
			}
		}
	}
	return ""
}

// flat takes escaped pieces apart
func (e *exporter) flat(b *State, ps []poPiece) []poPiece {
	var r []poPiece
	for _, p := range ps {
		if p.leaf == nil {
			r = addPiece(r, p)
			continue
		}
		for _, o := range e.w.expand(b, p.leaf.t, p.leaf.pos) {
			switch o.kind {
			case txLit:
				r = addPiece(r, poPiece{lit: o.lit})
			case txLeaf:
				r = addPiece(r, poPiece{leaf: o})
			default:
				return ps
			}
		}
	}
	return r
}

// entries: the statements of a loop are those of every entry
func (e *exporter) entries(o *tx, covered map[string]bool) {
	// the sequence that the loop walks
	var ids []*Term
	for _, rs := range o.seen {
		for _, r := range rs {
			for _, s := range r.out {
				if k, _ := keywordOf(s); k == "msgid" && s.loop == nil && len(s.text) == 1 && s.text[0].leaf != nil {
					ids = append(ids, s.text[0].leaf.t)
				}
			}
		}
	}
	seqs, idx := fullScans(o.rec, o.out, ids)
	if len(ids) == 0 || len(seqs) == 0 {
		e.fail("incomplete", o.pos, "the loop that writes entries does not visit a list of entries from its first to its last element")
		return
	}
	seq, i := seqs[0], idx[0]
	for n := range seqs {
		if mentions(ids, seqs[n]) {
			seq, i = seqs[n], idx[n]
		}
	}
	segs, ok := e.w.list(o.rec.entry, seq, nil, 0)
	if !ok {
		e.fail("incomplete", o.pos, "the list of entries (%s) cannot be explained", trunc(seq.String(), 120))
		return
	}
	var ctxs, trs []*Term // for an element, its context and entry, as the iterations read them
	for k := range o.rec.back {
		if len(o.seen[k]) == 0 {
			continue
		}
		for _, r := range o.seen[k] {
			ctx, x := e.entry(o, k, r, seq)
			if x == nil {
				return
			}
			if ctx != nil {
				ctxs = append(ctxs, ctx)
			}
			trs = append(trs, x)
			e.c.count("entry_shapes", 1)
		}
	}
	if len(ctxs) == 0 {
		e.fail("incomplete", o.pos, "no context is written")
		return
	}
	el := &element{seq: seq, i: i}
	e.collected(o.rec.entry, segs, el, ctxs, trs, covered)
}

func mentions(ts []*Term, s *Term) bool {
	for _, t := range ts {
		if t.contains(s) {
			return true
		}
	}
	return false
}

// loadOf is the object whose field a term is
func loadOf(t *Term, name string) (*Term, bool) {
	if t.op == OLoad && t.args[0].op == OFieldAddr {
		a := t.args[0]
		if st := structOf(elemOf(a.args[0].typ)); st != nil {
			if i, err := strconv.Atoi(a.aux); err == nil && i < st.NumFields() && st.Field(i).Name() == name {
				return a.args[0], true
			}
		}
	}
	return nil, false
}

// entry checks the statements of one entry and tells which context and entry they belong to
func (e *exporter) entry(o *tx, k int, r *poText, seq *Term) (ctx, x *Term) {
	b := o.rec.back[k]
	fs := b.facts
	when := trunc(fs.describe(), 200)
	ss := r.out
	bad := func(pos token.Pos, format string, args ...interface{}) (*Term, *Term) {
		e.fail("entry", pos, format+" when %s", append(args, when)...)
		return nil, nil
	}
	pos := o.pos
	if len(r.ext) > 0 {
		return bad(pos, "the text before an entry is continued with %s", showPieces(r.ext))
	}
	take := func(kw string) (*poStmt, *Term) {
		if len(ss) == 0 || ss[0].loop != nil || ss[0].comment {
			return nil, nil
		}
		name, ix := keywordOf(ss[0])
		if name != kw {
			return nil, nil
		}
		s := ss[0]
		ss = ss[1:]
		return s, ix
	}
	leaf := func(s *poStmt) *Term {
		if len(s.text) == 1 && s.text[0].leaf != nil {
			return fs.subst(s.text[0].leaf.t)
		}
		if len(s.text) == 0 {
			return mkStr("")
		}
		return mkSym("text", types.Typ[types.String])
	}
	var refs []*poStmt
	for len(ss) > 0 && (ss[0].comment || ss[0].loop != nil && onlyComments(ss[0].loop)) {
		refs = append(refs, ss[0])
		ss = ss[1:]
	}
	if s, _ := take("msgctxt"); s != nil {
		ctx = leaf(s)
		pos = s.pos
	}
	s, _ := take("msgid")
	if s == nil {
		return bad(pos, "an entry has no msgid")
	}
	pos = s.pos
	x, ok := loadOf(leaf(s), "ID")
	if !ok {
		return bad(pos, "%s is written as an entry's msgid", trunc(leaf(s).String(), 100))
	}
	// references
	rf := ld(b, fieldAddr(x, "Refs"))
	switch {
	case len(refs) == 0:
		if !emptyText(fs, rf) {
			return bad(pos, "the references of an entry are left out")
		}
	case len(refs) == 1 && refs[0].comment:
		ps := refs[0].text
		if len(ps) == 2 && ps[0].lit == "#: " && ps[1].leaf != nil {
			j := fs.subst(ps[1].leaf.t)
			if j.op == OCall && j.aux == "strings.Join" && equal(fs, j.args[0], rf) {
				if sep, ok := j.args[1].strConst(); ok && sep == " " {
					break
				}
			}
		}
		return bad(refs[0].pos, "the references are written as %s", trunc(showPieces(ps), 160))
	case len(refs) == 1 && e.refLines(refs[0].loop, b, rf):
	default:
		return bad(pos, "the references are written in a way that is not recognised")
	}
	// the forms
	pid := ld(b, fieldAddr(x, "PluralID"))
	trs := ld(b, fieldAddr(x, "Trs"))
	if s, _ := take("msgid_plural"); s != nil {
		if !equal(fs, leaf(s), pid) {
			return bad(s.pos, "msgid_plural is %s", trunc(leaf(s).String(), 100))
		}
		if len(ss) != 1 || ss[0].loop == nil {
			if !(len(ss) == 0 && fs.eval(mkEq0(linOf(b.mapLen(trs)))) == 1) {
				return bad(s.pos, "msgid_plural is not followed by the plural forms")
			}
			return ctx, x
		}
		if why := e.forms(ss[0].loop, b, trs); why != "" {
			return bad(ss[0].pos, "%s", why)
		}
		return ctx, x
	}
	if !emptyText(fs, pid) {
		return bad(pos, "the plural id of an entry is left out")
	}
	s, _ = take("msgstr")
	if s == nil || len(ss) > 0 {
		return bad(pos, "an entry without plural id is not completed by its msgstr")
	}
	want := valueOrZero(b, trs, mkInt(0))
	if !equal(fs, leaf(s), want) && !(emptyText(fs, want) && len(s.text) == 0) {
		return bad(s.pos, "msgstr is %s", trunc(leaf(s).String(), 100))
	}
	return ctx, x
}

// valueOrZero reads m[k]
func valueOrZero(b *State, m, k *Term) *Term {
	mt := m.typ.Underlying().(*types.Map)
	has, v, cond := b.mapLookup(m, k, mt)
	if cond != nil {
		return mkSym("value", mt.Elem())
	}
	if b.facts.eval(has) == 0 {
		return zeroValue(mt.Elem())
	}
	return v
}

// refLines: one comment line for every reference
func (e *exporter) refLines(o *tx, b *State, rf *Term) bool {
	var leaves []*Term
	for _, rs := range o.seen {
		for _, r := range rs {
			if len(r.ext) > 0 || len(r.out) != 1 {
				return false
			}
			ps := r.out[0].text
			if len(ps) != 2 || ps[0].lit != "#: " || ps[1].leaf == nil {
				return false
			}
			leaves = append(leaves, ps[1].leaf.t)
		}
	}
	seqs, idx := fullScans(o.rec, o.out, leaves)
	for n, seq := range seqs {
		if !equal(b.facts, seq, rf) {
			continue
		}
		for _, l := range leaves {
			if sq, ix, ok := elemOfSeq(l); !ok || !equal(b.facts, sq, seq) || ix != idx[n] {
				return false
			}
		}
		return true
	}
	return false
}

// forms: the loop writes every form under its index
func (e *exporter) forms(o *tx, b *State, trs *Term) string {
	why := "the forms are not all visited"
	var ts []*Term
	for _, rs := range o.seen {
		for _, r := range rs {
			for _, s := range r.out {
				if _, ix := keywordOf(s); ix != nil {
					ts = append(ts, ix)
				}
			}
		}
	}
	for _, ek := range e.w.everyKey(o.rec, o.out, ts) {
		if !equal(b.facts, ek.m, trs) {
			why = "the loop visits the keys of " + trunc(ek.m.String(), 80)
			continue
		}
		why = ""
		for k := range o.rec.back {
			ib := o.rec.back[k]
			key := ek.key(ib)
			if key == nil || len(o.seen[k]) == 0 {
				continue
			}
			for _, r := range o.seen[k] {
				if len(r.ext) > 0 || len(r.out) != 1 || r.out[0].comment || r.out[0].loop != nil {
					why = fmt.Sprintf("a form is not written by one statement when %s", trunc(ib.facts.describe(), 160))
					continue
				}
				s := r.out[0]
				name, ix := keywordOf(s)
				if name != "msgstr[%]" || ix == nil || !equal(ib.facts, numberOf(ix), key) {
					why = "a form is written as " + trunc(name, 40) + showPieces(s.kw)
					continue
				}
				want := valueAt(ib, trs, key)
				if len(s.text) != 1 || s.text[0].leaf == nil || !equal(ib.facts, s.text[0].leaf.t, want) {
					why = "the text of a form is " + trunc(showPieces(s.text), 120)
				}
			}
		}
		return why
	}
	return why
}

func numberOf(t *Term) *Term {
	if isNumber(t) {
		n := t.args[0]
		for n.op == OConv && isInteger(n.args[0].typ) {
			n = n.args[0]
		}
		return n
	}
	return t
}

// ---- where the list of entries comes from

type element struct {
	seq, i *Term
}

// in replaces the element of the sequence by what was added to it
func (el *element) in(t, v *Term, st *State) *Term {
	if t.op == OLoad {
		a := t.args[0]
		if a.op == OIndexAddr && a.args[0] == el.seq && a.args[1] == el.i {
			return v
		}
		if a.op == OFieldAddr {
			base := a.args[0]
			n, err := strconv.Atoi(a.aux)
			if err == nil && base.op == OIndexAddr && base.args[0] == el.seq && base.args[1] == el.i {
				return mkField(v, n, t.typ)
			}
			if p := el.in(base, v, st); p != nil && err == nil && p != base {
				return ld(st, mkFieldAddr(p, n, a.typ))
			}
		}
	}
	if t.op == OField {
		n, err := strconv.Atoi(t.aux)
		if p := el.in(t.args[0], v, st); p != nil && err == nil && p != t.args[0] {
			return mkField(p, n, t.typ)
		}
	}
	return t
}

// collected: the list has every entry of the catalogue, with its context
func (e *exporter) collected(st *State, segs []listSeg, el *element, ctxs, trs []*Term, covered map[string]bool) {
	plain, byCtx := e.field("translations"), e.field("contextTranslations")
	same := func(b *State, v, wantCtx, wantTr *Term) string {
		for _, x := range ctxs {
			if got := el.in(x, v, b); !equal(b.facts, got, wantCtx) {
				return "its context is " + trunc(got.String(), 100)
			}
		}
		for _, x := range trs {
			if got := el.in(x, v, b); !equal(b.facts, got, wantTr) {
				return "its entry is " + trunc(got.String(), 100)
			}
		}
		return ""
	}
	// one loop over the entries of a map
	inner := func(out *State, s listSeg, m, ctx *Term) (bool, string) {
		for _, ek := range e.w.everyKey(s.rec, out, nil) {
			if !equal(out.facts, ek.m, m) {
				continue
			}
			for k, b := range s.back {
				key := ek.key(b)
				if key == nil {
					continue
				}
				switch alt := s.alts[k]; {
				case len(alt) == 0:
					if m != plain || !emptyText(b.facts, key) {
						return true, fmt.Sprintf("an entry is left out when %s", trunc(b.facts.describe(), 200))
					}
				case len(alt) == 1 && alt[0].rec == nil:
					if why := same(b, alt[0].t, ctx, valueAt(b, ek.m, key)); why != "" {
						return true, "an entry is exported wrongly: " + why
					}
					if m == plain && b.facts.eval(mkEq(key, mkStr(""))) != 0 {
						return true, "the header entry is exported a second time, as one of the entries"
					}
					e.c.count("collected_entries", 1)
				default:
					return true, "an entry is exported more than once"
				}
			}
			return true, ""
		}
		return false, ""
	}
	for _, s := range segs {
		if s.rec == nil {
			e.fail("incomplete", e.o.pos, "%s is exported besides the entries", trunc(s.t.String(), 100))
			continue
		}
		if hit, why := inner(st, s, plain, mkStr("")); hit {
			if why != "" {
				e.fail("incomplete", s.rec.pos, "%s", why)
			} else if covered["translations"] {
				e.fail("incomplete", s.rec.pos, "entries are exported twice")
			}
			covered["translations"] = true
			continue
		}
		found := false
		for _, ek := range e.w.everyKey(s.rec, st, nil) {
			if !equal(st.facts, ek.m, byCtx) {
				continue
			}
			found = true
			for k, b := range s.back {
				key := ek.key(b)
				if key == nil {
					continue
				}
				m := valueAt(b, ek.m, key)
				alt := s.alts[k]
				if len(alt) == 0 {
					if b.facts.evalNil(m) != 1 && b.facts.eval(mkEq0(linOf(b.mapLen(m)))) != 1 {
						e.fail("incomplete", s.rec.pos, "a context is left out when %s", trunc(b.facts.describe(), 200))
					}
					continue
				}
				if len(alt) != 1 || alt[0].rec == nil {
					e.fail("incomplete", s.rec.pos, "a context's entries are not collected by one loop")
					continue
				}
				hit, why := inner(b, alt[0], m, key)
				if !hit {
					why = "the entries of a context are not all visited"
				}
				if why != "" {
					e.fail("incomplete", alt[0].rec.pos, "%s", why)
				}
			}
		}
		if found {
			covered["contextTranslations"] = true
		} else {
			e.fail("incomplete", s.rec.pos, "this loop over the catalogue is not recognised")
		}
	}
}

func init() {
	register("C16", "Domain.MarshalText: the language of the texts it can write (constants, unknown texts, loops with the sequences of iterations that their index allows) is read by a PO lexer; every unknown text inside quotes is the result of EscapeSpecialCharacters, which is itself proved to keep any text inside its quotes and unchanged when read back; the header has a line for every value of every header; the list of entries is shown to hold every entry of both maps with its context, and each alternative of the writing loop is complete: references, context, id, plural id and forms by index.", func(c *Ctx) {
		esc, f := c.need("", "EscapeSpecialCharacters"), c.need("", "Domain.MarshalText")
		if esc == nil || f == nil {
			return
		}
		c.escapes(esc)
		c.textExport(f, map[string]bool{fname(esc): true})
	})
}
