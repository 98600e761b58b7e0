package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wire is the object that a gob encoder is given or a gob decoder fills
type wire struct {
	ev  *Event
	ptr *Term // its address, or nil
	val *Term // the value itself, when there is no address
	buf *Term // what the encoder writes to, the decoder reads from
	err *Term
}

func gobEvents(st *State, since *Event, method string) []wire {
	var r []wire
	for _, e := range st.events(since) {
		if e.kind != "call" || e.name != "(*encoding/gob."+method {
			continue
		}
		w := wire{ev: e, err: e.res[0]}
		if a := e.args[1]; a.op == OIface {
			if _, ok := a.args[0].typ.Underlying().(*types.Pointer); ok {
				w.ptr = a.args[0]
			} else {
				w.val = a.args[0]
			}
		}
		if x := e.args[0]; x.op == OSym || x.op == OCall {
			for _, b := range st.events(nil) {
				if b.kind == "call" && len(b.res) == 1 && b.res[0] == x && (b.name == "encoding/gob.NewEncoder" || b.name == "encoding/gob.NewDecoder") {
					w.buf = b.args[0]
					if w.buf.op == OIface {
						w.buf = w.buf.args[0]
					}
				}
			}
		}
		r = append(r, w)
	}
	return r
}

func (w wire) typ() *types.Struct {
	if w.ptr != nil {
		return structOf(elemOf(w.ptr.typ))
	}
	if w.val != nil {
		return structOf(w.val.typ)
	}
	return nil
}

// read gives a field of the object, in the heap mem
func (w wire) read(f *Facts, mem *Mem, i int) *Term {
	t := w.typ().Field(i).Type()
	if w.ptr != nil {
		st := &State{facts: f, mem: mem}
		return st.load(mkFieldAddr(w.ptr, i, types.NewPointer(t)), t)
	}
	return mkField(w.val, i, t)
}

func wireField(st *types.Struct, name string) int {
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

var domainFields = []string{"Headers", "Language", "PluralForms", "nplurals", "plural", "translations", "contextTranslations"}
var localeFields = []string{"path", "lang", "defaultDomain"}

// agreement: the wire field that carries each field of the object
type agreement map[string]string

// encoded reports the wire fields that carry obj's fields in a state that encodes it
func (c *Ctx) encoded(f *ssa.Function, d *dec, o *Outcome, obj *Term, fields []string) (agreement, *wire) {
	ws := gobEvents(o.st, nil, "Encoder).Encode")
	when := trunc(d.f.describe(), 200)
	if len(ws) == 0 && d.f.evalNil(o.res[1]) == 0 {
		return nil, nil // gives up with an error
	}
	if len(ws) != 1 || ws[0].typ() == nil || ws[0].buf == nil {
		c.fail("encodes", fname(f), o.pos, "%d objects are encoded, when %s", len(ws), when)
		return nil, nil
	}
	w := ws[0]
	c.count("encodings", 1)
	agr := agreement{}
	for i := 0; i < w.typ().NumFields(); i++ {
		if !w.typ().Field(i).Exported() {
			continue
		}
		v := w.read(d.f, w.ev.mem, i)
		for _, n := range fields {
			if agr[n] == "" && equal(d.f, v, d.field(obj, n)) && types.Identical(v.typ.Underlying(), d.field(obj, n).typ.Underlying()) {
				agr[n] = w.typ().Field(i).Name()
				break
			}
		}
	}
	for _, n := range fields {
		if agr[n] == "" {
			c.fail("field-lost", fname(f), o.pos, "%s is not encoded, when %s", n, when)
		}
	}
	// the result
	switch d.f.evalNil(w.err) {
	case 0:
		if d.f.evalNil(o.res[1]) != 0 {
			c.fail("error", fname(f), o.pos, "an encoding error is not returned")
		}
		return agr, &w
	default:
		if !equal(d.f, o.res[1], w.err) && !(d.f.evalNil(w.err) == 1 && d.f.evalNil(o.res[1]) == 1) {
			c.fail("error", fname(f), o.pos, "returns %s, not the encoding error", o.res[1])
		}
	}
	ok := false
	for _, e := range o.st.events(w.ev) {
		if e.kind == "bufread" && len(e.res) == 1 && e.res[0] == o.res[0] && e.args[0] == w.buf {
			ok = true
		}
	}
	if !ok {
		c.fail("encodes", fname(f), o.pos, "returns %s, not the encoded object, when %s", o.res[0], when)
	}
	return agr, &w
}

// decodedFrom: the decoder reads exactly data
func decodedFrom(st *State, w wire, data *Term) bool {
	for _, e := range st.events(nil) {
		if e.kind == "call" && len(e.res) == 1 && e.res[0] == w.buf {
			switch e.name {
			case "bytes.NewBuffer", "bytes.NewReader":
				return equal(st.facts, e.args[0], data)
			case "bytes.NewBufferString", "strings.NewReader":
				return equal(st.facts, canon(st.facts, e.args[0]), canon(st.facts, data))
			}
		}
	}
	return false
}

// restored: afterwards obj has the fields of the wire object
func (c *Ctx) restored(f *ssa.Function, b *State, obj *Term, w *types.Struct, read func(i int) *Term, agr agreement, fields []string, what string) {
	when := trunc(b.facts.describe(), 200)
	ld := func(n string) *Term { a := fieldAddr(obj, n); return b.load(a, elemOf(a.typ)) }
	var plural *Term
	for _, n := range fields {
		if agr[n] == "" {
			continue
		}
		i := wireField(w, agr[n])
		if i < 0 {
			c.fail("agree", fname(f), f.Pos(), "%s is encoded as %s, which what is decoded does not have", n, agr[n])
			continue
		}
		v, want := ld(n), read(i)
		if n == "plural" {
			plural = want
		}
		c.count("fields_restored", 1)
		if equal(b.facts, v, want) {
			continue
		}
		if _, isMap := v.typ.Underlying().(*types.Map); isMap && b.facts.evalNil(want) == 1 && v.op == OAlloc && b.facts.eval(mkEq0(linOf(b.mapLen(v)))) == 1 {
			continue
		}
		c.fail("field-lost", fname(f), f.Pos(), "%s of %s becomes %s, not the decoded %s, when %s", n, what, v, agr[n], when)
	}
	if plural == nil {
		return
	}
	rule := ld("pluralforms")
	for _, e := range b.events(nil) {
		if e.kind != "modcall" || e.name != "plurals.Compile" || !equal(b.facts, e.args[0], plural) {
			continue
		}
		c.count("rules_rebuilt", 1)
		switch b.facts.evalNil(e.res[1]) {
		case 1:
			if !equal(b.facts, rule, e.res[0]) {
				c.fail("rule", fname(f), f.Pos(), "the compiled plural rule of %s is not stored, when %s", what, when)
			}
		case 0:
			if b.facts.evalNil(rule) != 1 {
				c.fail("rule", fname(f), f.Pos(), "%s keeps the plural rule %s though the decoded one does not compile", what, rule)
			}
		default:
			if !equal(b.facts, rule, e.res[0]) {
				c.fail("rule", fname(f), f.Pos(), "the plural rule of %s is %s, when %s", what, rule, when)
			}
		}
		return
	}
	if b.facts.eval(mkEq(plural, mkStr(""))) == 1 && b.facts.evalNil(rule) == 1 {
		return
	}
	c.fail("rule", fname(f), f.Pos(), "the plural rule of %s is not compiled again, when %s", what, when)
}

// untouched: a failed decoding writes to nothing but what the function made
func (c *Ctx) untouched(f *ssa.Function, st *State) {
	bad := func(m *Mem, what *Term) {
		c.fail("partial", fname(f), m.pos, "%s is changed although decoding fails", what)
	}
	check := func(m *Mem) {
		if m.addr == nil {
			if m.kind == mHavocClass && m.fn != "" {
				c.fail("partial", fname(f), m.pos, "%s may change %s although decoding fails", m.fn, m.class)
			}
			return
		}
		base := m.addr
		for base.op == OFieldAddr || base.op == OIndexAddr || base.op == OSlice {
			base = base.args[0]
		}
		switch m.kind {
		case mStore, mMapUpd, mMapDel, mCopy:
			if base.op != OAlloc {
				bad(m, m.addr)
			}
		}
	}
	for _, m := range st.writes(nil) {
		check(m)
	}
	var loops func(st *State)
	loops = func(st *State) {
		for _, rec := range loopsOf(st) {
			for _, b := range rec.back {
				for _, m := range b.writes(rec.start.mem) {
					check(m)
				}
				loops(b)
			}
		}
	}
	loops(st)
}

func (c *Ctx) encoding() {
	compile := c.need("plurals", "Compile")
	pure := func(x *Interp) {
		x.pure = func(h *ssa.Function) bool { return h == compile }
		x.pureInvoke = func(m *types.Func) bool { return m.Name() == "MarshalBinary" } // C01: it writes nothing
	}
	var agr agreement
	var agrType *types.Struct
	for _, tn := range catalogTypes {
		f := c.need("", tn+".MarshalBinary")
		if f == nil {
			continue
		}
		c.count("encoders", 1)
		r := c.runFn(f, pure)
		for _, o := range r.outs {
			cases(r.x, o.st.facts, r.st0, func(d *dec) {
				do := domainOf(d, r.args[0])
				a, w := c.encoded(f, d, o, do, domainFields)
				if w == nil {
					return
				}
				if agr == nil {
					agr, agrType = a, w.typ()
				} else if !sameAgreement(agr, a) {
					c.fail("agree", fname(f), o.pos, "encodes other fields than another catalogue")
				}
			})
		}
	}
	if agr == nil {
		return
	}
	_ = agrType
	for _, tn := range catalogTypes {
		f := c.need("", tn+".UnmarshalBinary")
		if f == nil {
			continue
		}
		c.count("decoders", 1)
		r := c.runFn(f, pure)
		for _, o := range r.outs {
			cases(r.x, o.st.facts, r.st0, func(d *dec) {
				do := domainOf(d, r.args[0])
				w, ok := c.decodes(f, r, o)
				if !ok {
					return
				}
				st := &State{facts: d.f, mem: o.st.mem, ev: o.st.ev}
				after := afterDecode(o.st, w)
				c.restored(f, st, do, w.typ(), func(i int) *Term { return w.read(d.f, after, i) }, agr, domainFields, "the catalogue")
			})
		}
	}
	// the object that stands for a decoded catalogue
	if f := c.need("", "TranslatorEncoding.GetTranslator"); f != nil {
		c.count("decoders", 1)
		r := c.runFn(f, pure)
		for _, o := range r.outs {
			do := domainIn(o.st, o.res[0])
			if do == nil {
				c.fail("undecided", fname(f), o.pos, "returns %s", o.res[0])
				continue
			}
			te := r.args[0]
			w := wire{ptr: te}
			if te.typ != nil {
				if _, ok := te.typ.Underlying().(*types.Pointer); !ok {
					w = wire{val: te}
				}
			}
			c.restored(f, o.st, do, w.typ(), func(i int) *Term { return w.read(o.st.facts, r.st0.mem, i) }, agr, domainFields, "the catalogue")
		}
	}
	c.localeEncoding(agr, pure)
}

func sameAgreement(a, b agreement) bool {
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return len(a) == len(b)
}

// afterDecode is the heap right after the decoder has filled its object
func afterDecode(st *State, w wire) *Mem {
	// the havoc records of the call follow the event
	var last *Mem
	for m := st.mem; m != nil && m != w.ev.mem; m = m.prev {
		if m.kind == mHavocAddr && under(m.addr, w.ptr) && (last == nil || m.depth > last.depth) {
			last = m
		}
	}
	if last == nil {
		return st.mem
	}
	return last
}

func under(a, base *Term) bool {
	for a != nil && a != base && (a.op == OFieldAddr || a.op == OIndexAddr) {
		a = a.args[0]
	}
	return a == base
}

// decodes checks an outcome of a decoder; ok when the object was filled
func (c *Ctx) decodes(f *ssa.Function, r *run, o *Outcome) (w wire, ok bool) {
	ws := gobEvents(o.st, nil, "Decoder).Decode")
	when := trunc(o.st.facts.describe(), 200)
	if len(ws) == 0 || ws[0].ptr == nil {
		if o.st.facts.evalNil(o.res[0]) == 0 {
			c.untouched(f, o.st)
			return
		}
		c.fail("decodes", fname(f), o.pos, "nothing is decoded, when %s", when)
		return
	}
	w = ws[0]
	c.count("decodings", 1)
	if !decodedFrom(o.st, w, r.args[len(r.args)-1]) {
		c.fail("decodes", fname(f), o.pos, "what is decoded is not the data, when %s", when)
		return
	}
	switch o.st.facts.evalNil(w.err) {
	case 1:
		if o.st.facts.evalNil(o.res[0]) == 0 {
			c.untouched(f, o.st)
			return w, false
		}
		if o.st.facts.evalNil(o.res[0]) != 1 {
			c.fail("error", fname(f), o.pos, "returns %s after decoding succeeded", o.res[0])
		}
		return w, true
	case 0:
		if o.st.facts.evalNil(o.res[0]) != 0 {
			c.fail("error", fname(f), o.pos, "a decoding error is not returned, when %s", when)
		}
		c.untouched(f, o.st)
		return w, false
	}
	c.fail("error", fname(f), o.pos, "the decoding error is not looked at, when %s", when)
	return w, false
}

// domainIn finds the catalogue of a translator made by the function
func domainIn(st *State, t *Term) *Term {
	if t.op == OIface {
		t = t.args[0]
	}
	if _, ok := t.typ.Underlying().(*types.Pointer); !ok || structOf(elemOf(t.typ)) == nil {
		return nil
	}
	d := &dec{f: st.facts, st: st.clone()}
	return domainOf(d, t)
}

func (c *Ctx) localeEncoding(agr agreement, pure func(x *Interp)) {
	f, g := c.need("", "Locale.MarshalBinary"), c.need("", "Locale.UnmarshalBinary")
	if f == nil || g == nil {
		return
	}
	var la agreement
	carrier := ""
	r := c.runFn(f, pure)
	dfield := func(p *Term) *Term { a := fieldAddr(p, "Domains"); return r.st0.load(a, elemOf(a.typ)) }
	domains := dfield(r.args[0])
	c.count("encoders", 1)
	for _, o := range r.outs {
		cases(r.x, o.st.facts, r.st0, func(d *dec) {
			a, w := c.encoded(f, d, o, r.args[0], localeFields)
			if w == nil {
				return
			}
			if la == nil {
				la = a
			}
			// the domains
			found := false
			for i := 0; i < w.typ().NumFields(); i++ {
				mt, ok := w.typ().Field(i).Type().Underlying().(*types.Map)
				if !ok || !isBytes(mt.Elem()) {
					continue
				}
				dst := w.read(d.f, w.ev.mem, i)
				eachEntry(&State{facts: d.f, mem: o.st.mem, ev: o.st.ev}, domains, func(rec *LoopRec, key func(b *State) *Term) {
					if c.encodesEntries(f, rec, key, domains, dst) {
						found = true
					}
				})
				if found {
					carrier = w.typ().Field(i).Name()
				}
			}
			if !found && d.f.evalNil(domains) != 1 {
				c.fail("field-lost", fname(f), o.pos, "the domains are not all encoded, when %s", trunc(d.f.describe(), 200))
			}
		})
	}
	if la == nil || carrier == "" {
		return
	}
	c.count("decoders", 1)
	rg := c.runFn(g, pure)
	for _, o := range rg.outs {
		w, ok := c.decodes(g, rg, o)
		if !ok {
			continue
		}
		l := rg.args[0]
		after := afterDecode(o.st, w)
		c.restored(g, o.st, l, w.typ(), func(i int) *Term { return w.read(o.st.facts, after, i) }, la, localeFields, "the locale")
		i := wireField(w.typ(), carrier)
		if i < 0 {
			c.fail("agree", fname(g), o.pos, "the domains are encoded as %s, which what is decoded does not have", carrier)
			continue
		}
		src := w.read(o.st.facts, after, i)
		a := fieldAddr(l, "Domains")
		dst := o.st.load(a, elemOf(a.typ))
		found := false
		eachEntry(o.st, src, func(rec *LoopRec, key func(b *State) *Term) {
			if c.decodesEntries(g, rec, key, src, dst, agr) {
				found = true
			}
		})
		if !found && o.st.facts.evalNil(src) != 1 {
			c.fail("field-lost", fname(g), o.pos, "the domains are not all decoded, when %s", trunc(o.st.facts.describe(), 200))
		}
	}
}

// encodesEntries: every translator is stored in dst under its key, encoded
func (c *Ctx) encodesEntries(f *ssa.Function, rec *LoopRec, key func(b *State) *Term, domains, dst *Term) bool {
	stores := false
	for _, b := range rec.back {
		k := key(b)
		if k == nil {
			continue
		}
		st := &State{facts: b.facts, mem: rec.start.mem}
		has, tr, cond := st.mapLookup(domains, k, domains.typ.Underlying().(*types.Map))
		when := trunc(b.facts.describe(), 200)
		if cond == nil && (b.facts.eval(has) == 0 || b.facts.evalNil(tr) == 1) {
			continue // no translator
		}
		upd, _, _ := mapWrites(b, rec.start.mem, dst)
		ok := false
		if len(upd) == 1 && equal(b.facts, upd[0].key, k) {
			for _, e := range b.events(rec.start.ev) {
				if e.kind == "invoke" && strings.HasSuffix(e.name, ".MarshalBinary") && equal(b.facts, e.args[0], tr) && equal(b.facts, upd[0].val, e.res[0]) {
					ok = true
					if b.facts.evalNil(e.res[1]) != 1 {
						c.fail("error", fname(f), rec.pos, "goes on after an encoding error of a domain, when %s", when)
					}
				}
			}
		}
		if !ok {
			c.fail("field-lost", fname(f), rec.pos, "a domain is not encoded under its own name, when %s", when)
			continue
		}
		stores = true
		c.count("domains_encoded", 1)
	}
	return stores
}

// decodesEntries: every encoded translator is stored in dst under its key, decoded
func (c *Ctx) decodesEntries(g *ssa.Function, rec *LoopRec, key func(b *State) *Term, src, dst *Term, agr agreement) bool {
	stores := false
	for _, b := range rec.back {
		k := key(b)
		if k == nil {
			continue
		}
		st := &State{facts: b.facts, mem: rec.start.mem}
		_, data, _ := st.mapLookup(src, k, src.typ.Underlying().(*types.Map))
		when := trunc(b.facts.describe(), 200)
		upd, _, _ := mapWrites(b, rec.start.mem, dst)
		if len(upd) != 1 || !equal(b.facts, upd[0].key, k) {
			c.fail("field-lost", fname(g), rec.pos, "a decoded domain is not stored under its own name, when %s", when)
			continue
		}
		ws := gobEvents(b, rec.start.ev, "Decoder).Decode")
		if len(ws) != 1 || ws[0].ptr == nil || !decodedFrom(b, ws[0], data) {
			c.fail("decodes", fname(g), rec.pos, "what is decoded is not the domain's data, when %s", when)
			continue
		}
		w := ws[0]
		if b.facts.evalNil(w.err) != 1 {
			c.fail("error", fname(g), rec.pos, "goes on after a decoding error of a domain, when %s", when)
			continue
		}
		do := domainIn(b, upd[0].val)
		if do == nil {
			c.fail("undecided", fname(g), rec.pos, "%s is stored for a domain", upd[0].val)
			continue
		}
		after := afterDecode(b, w)
		c.restored(g, b, do, w.typ(), func(i int) *Term { return w.read(b.facts, after, i) }, agr, domainFields, "a domain")
		stores = true
		c.count("domains_decoded", 1)
	}
	return stores
}

func init() {
	register("C15", "Every path of MarshalBinary gives the encoder an object whose fields are the persistent fields of the catalogue (of the locale and all its domains) and returns the encoder's bytes and error; every path of the decoders that succeeds stores the same fields of the decoded object back, with the plural rule compiled from the decoded text; a path that fails returns the error and writes to nothing that existed before.", func(c *Ctx) {
		c.encoding()
		c.atLeast("encoders", 4)
		c.atLeast("decoders", 5)
		c.atLeast("encodings", 4)
		c.atLeast("decodings", 4)
		c.atLeast("fields_restored", 20)
		c.atLeast("domains_encoded", 1)
		c.atLeast("domains_decoded", 1)
		c.atLeast("rules_rebuilt", 3)
	})
}
