package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The lookup functions of the library, by what their parameters mean.

// lookupFn describes the parameters of a lookup: positions are counted without the receiver
type lookupFn struct {
	base   string // Get, GetN, GetC, GetNC
	dom    bool
	kind   string // get, append, is
	roles  []string
	plural bool
	ctx    bool
}

// lookupShape gives the roles of the parameters of a lookup from its name
func lookupShape(name string) (l lookupFn, ok bool) {
	l.kind = ""
	rest := name
	switch {
	case strings.HasPrefix(name, "Get"):
		l.kind, rest = "get", name[3:]
	case strings.HasPrefix(name, "Append"):
		l.kind, rest = "append", name[6:]
	case strings.HasPrefix(name, "IsTranslated"):
		l.kind, rest = "is", name[12:]
	}
	switch rest {
	case "", "N", "C", "NC", "D", "ND", "DC", "NDC":
	default:
		return l, false
	}
	if l.kind == "" {
		return l, false
	}
	l.plural = strings.Contains(rest, "N")
	l.ctx = strings.Contains(rest, "C")
	l.dom = strings.Contains(rest, "D")
	l.base = "Get" + strings.ReplaceAll(rest, "D", "")
	if l.kind == "append" {
		l.roles = append(l.roles, "buf")
	}
	if l.dom {
		l.roles = append(l.roles, "dom")
	}
	l.roles = append(l.roles, "id")
	if l.plural {
		if l.kind != "is" {
			l.roles = append(l.roles, "plural")
		}
		l.roles = append(l.roles, "n")
	}
	if l.ctx {
		l.roles = append(l.roles, "ctx")
	}
	if l.kind != "is" {
		l.roles = append(l.roles, "vars")
	}
	return l, true
}

// roleArgs makes one term per role, shared by every function
func roleArgs(f *ssa.Function, l lookupFn, recv *Term) ([]*Term, map[string]*Term, bool) {
	m := map[string]*Term{}
	var args []*Term
	ps := f.Params
	if f.Signature.Recv() != nil {
		if recv == nil {
			recv = mkParam("recv:"+ps[0].Type().String(), ps[0].Type())
		}
		args = append(args, recv)
		m["recv"] = recv
		ps = ps[1:]
	}
	roles := l.roles
	if l.kind == "is" && len(ps) == len(roles)+1 {
		roles = append(append([]string{}, roles...), "langs")
	}
	if len(ps) != len(roles) {
		return nil, nil, false
	}
	for i, r := range roles {
		t := mkParam("role:"+r, ps[i].Type())
		if r == "id" || r == "plural" || r == "ctx" || r == "dom" {
			if !isString(ps[i].Type()) {
				return nil, nil, false
			}
		}
		args = append(args, t)
		m[r] = t
	}
	return args, m, true
}

// methodsOf lists the lookups that a type (or the package: nil) exports
func (c *Ctx) lookups(recv string) []*ssa.Function {
	var r []*ssa.Function
	for _, suffix := range []string{"", "N", "C", "NC", "D", "ND", "DC", "NDC"} {
		for _, k := range []string{"Get", "Append", "IsTranslated"} {
			name := k + suffix
			if recv != "" {
				name = recv + "." + name
			}
			if f := c.p.fn("", name); f != nil {
				r = append(r, f)
			}
		}
	}
	return r
}

// ---- the catalogue

// catalog describes where a Domain keeps what lookups need
type catalog struct {
	d  *dec
	do *Term // *Domain
}

// entry finds the stored entry
func (k catalog) entry(m map[string]*Term) (*Term, bool) {
	if c, ok := m["ctx"]; ok {
		inner, ok := k.d.lookup(k.d.field(k.do, "contextTranslations"), c)
		if !ok {
			return nil, false
		}
		return k.d.lookup(inner, m["id"])
	}
	return k.d.lookup(k.d.field(k.do, "translations"), m["id"])
}

// form is the plural form that the catalogue selects for n
func (k catalog) form(n *Term, o *Outcome) *Term {
	d := k.d
	pf := d.field(k.do, "pluralforms")
	if !d.ask(mkIsNil(pf)) {
		if o != nil {
			for _, e := range o.st.events(nil) {
				if e.kind == "invoke" && strings.HasSuffix(e.name, ".Eval") && len(e.args) == 2 && equal(d.f, e.args[0], pf) && isCount(d.f, e.args[1], n) {
					return e.res[0]
				}
			}
		}
		return mkCall("invoke Eval", 0, types.Typ[types.Int], pf, mk(OConv, types.Typ[types.Uint32], "", true, n))
	}
	re := d.field(k.do, "customPluralResolver")
	if !d.ask(mkIsNil(re)) {
		return mkCall("dyn", 0, types.Typ[types.Int], re, n)
	}
	if d.ask(mkEq(n, mkInt(1))) {
		return mkInt(0)
	}
	return mkInt(1)
}

// isCount: t is n, converted to the type of the expression's argument
func isCount(f *Facts, t, n *Term) bool {
	t = f.subst(t)
	for t.op == OConv && isInteger(t.typ) && isInteger(t.args[0].typ) {
		t = f.subst(t.args[0])
	}
	return t == n || f.eval(mkEq(t, n)) == 1
}

// stored is the non-empty text stored under a form
func (k catalog) stored(e, form *Term) (*Term, bool) {
	trs := k.d.field(e, "Trs")
	v, ok := k.d.lookup(trs, form)
	if !ok || k.d.ask(mkEq(v, mkStr(""))) {
		return nil, false
	}
	return v, true
}

// text is the text that a lookup must give
func (k catalog) text(m map[string]*Term, o *Outcome) *Term {
	e, ok := k.entry(m)
	n, plural := m["n"]
	var form *Term
	if plural {
		form = k.form(n, o)
	} else {
		form = mkInt(0)
	}
	if ok {
		if v, ok := k.stored(e, form); ok {
			return v
		}
	}
	if !plural || k.d.ask(mkEq(form, mkInt(0))) {
		return m["id"]
	}
	return m["plural"]
}

// translated: whether IsTranslated must report true
func (k catalog) translated(m map[string]*Term, o *Outcome) bool {
	e, ok := k.entry(m)
	if !ok {
		return false
	}
	form := mkInt(0)
	if n, plural := m["n"]; plural {
		form = k.form(n, o)
	}
	_, ok = k.stored(e, form)
	return ok
}

// domainOf is the *Domain behind a receiver
func domainOf(d *dec, recv *Term) *Term {
	if n, ok := elemOf(recv.typ).(*types.Named); ok && n.Obj().Name() == "Domain" {
		return recv
	}
	st := structOf(elemOf(recv.typ))
	for i := 0; i < st.NumFields(); i++ {
		if p, ok := st.Field(i).Type().(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() == "Domain" {
				return d.load(mkFieldAddr(recv, i, types.NewPointer(st.Field(i).Type())))
			}
		}
	}
	panic("no *Domain in " + recv.typ.String())
}

// strip separates a looked up text from its formatting and from the slice it was appended to
func strip(f *Facts, t *Term) (text, vars, buf *Term) {
	t = canon(f, t)
	if t.op == OAppendS {
		buf, t = t.args[0], canon(f, t.args[1])
	}
	for t.op == OConv && (isString(t.typ) || isBytes(t.typ)) && (isString(t.args[0].typ) || isBytes(t.args[0].typ)) {
		t = canon(f, t.args[0])
	}
	if t.op == OCall && t.aux == "fmt.Sprintf" && len(t.args) == 2 {
		return canon(f, t.args[0]), t.args[1], buf
	}
	return t, nil, buf
}

var catalogTypes = []string{"Domain", "Po", "Mo"}

// idOf: the ID field of an entry found under a key is that key
func (k catalog) isID(t *Term, m map[string]*Term) bool {
	if t.op != OLoad || t.args[0].op != OFieldAddr || fieldName(t.args[0]) != "ID" {
		return false
	}
	e, ok := k.entry(m)
	return ok && equal(k.d.f, t.args[0].args[0], e)
}

func init() {
	register("C05", "Get, GetN, GetC and GetNC of Domain, Po and Mo: on every abstract path the text (without its formatting) equals the non-empty text stored in the entry of exactly that id and context, in the form that the catalogue's rule selects, and otherwise the source text: the singular for form 0, else the plural. Every write into a catalogue stores an entry under its own ID.", func(c *Ctx) {
		for _, tn := range catalogTypes {
			for _, f := range c.lookups(tn) {
				l, _ := lookupShape(f.Name())
				if l.kind != "get" || l.dom {
					continue
				}
				c.lookupText(f, l)
			}
		}
		c.atLeast("lookups", 12)
		c.entryIDs()
		c.translationItself("Get", "GetN")
	})
	register("C06", "Every Get* and Append* function and method of every layer: on every abstract path the text is returned as it is when there are no variadic arguments, and through fmt.Sprintf(text, args...) - or by a lower lookup that receives the same args - when there are.", func(c *Ctx) {
		for _, tn := range append([]string{"Locale", ""}, catalogTypes...) {
			for _, f := range c.lookups(tn) {
				l, _ := lookupShape(f.Name())
				if l.kind == "is" {
					continue
				}
				c.formatting(f, l, tn)
			}
		}
		c.atLeast("lookups", 40)
	})
	register("C07", "For each Append* method and the Get* method of the same name, on every pair of compatible abstract paths the result equals the given slice extended by the text that Get* returns.", func(c *Ctx) {
		for _, tn := range catalogTypes {
			for _, f := range c.lookups(tn) {
				l, _ := lookupShape(f.Name())
				if l.kind != "append" {
					continue
				}
				c.appendAgrees(f, l, tn)
			}
		}
		c.atLeast("pairs", 12)
	})
	register("C09", "IsTranslated* of Domain, Po, Mo and Locale: on every abstract path the result is true exactly when the specification's stored(entry, form) is non-empty, for the form that the lookup of the same name reads; on Locale, false for missing domains.", func(c *Ctx) {
		for _, tn := range catalogTypes {
			for _, f := range c.lookups(tn) {
				l, _ := lookupShape(f.Name())
				if l.kind == "is" {
					c.isTranslated(f, l)
				}
			}
		}
		for _, f := range c.lookups("Locale") {
			l, _ := lookupShape(f.Name())
			if l.kind == "is" {
				c.localeForward(f, l)
			}
		}
		c.translationItself("IsTranslated", "IsTranslatedN")
		c.atLeast("queries", 12)
		c.atLeast("forwards", 8)
	})
}

// translationItself: the methods of a Translation, for the form they are given
func (c *Ctx) translationItself(names ...string) {
	for _, name := range names {
		f := c.need("", "Translation."+name)
		if f == nil {
			continue
		}
		r := c.runFn(f, nil)
		form := mkInt(0)
		if strings.HasSuffix(name, "N") {
			form = r.args[1]
		}
		for _, o := range r.outs {
			c.count("cases", cases(r.x, o.st.facts, r.st0, func(d *dec) {
				e := r.args[0]
				want, has := catalog{d: d}.stored(e, form)
				switch {
				case strings.HasPrefix(name, "Is"):
					want = mkBool(has)
				case has:
				case d.ask(mkEq(form, mkInt(0))):
					want = d.field(e, "ID")
				default:
					want = d.field(e, "PluralID")
				}
				if !equal(d.f, o.res[0], want) {
					c.fail("translation", fname(f), o.pos, "gives %s instead of %s, when %s", o.res[0], want, trunc(d.f.describe(), 300))
				}
			}))
		}
		c.count("translation_methods", 1)
	}
}

func (c *Ctx) badShape(f *ssa.Function) {
	c.fail("shape", fname(f), f.Pos(), "the parameters of %s do not have the expected roles", fname(f))
}

// lookupText compares the text of a lookup with the specification
func (c *Ctx) lookupText(f *ssa.Function, l lookupFn) {
	args, m, ok := roleArgs(f, l, nil)
	if !ok {
		c.badShape(f)
		return
	}
	c.count("lookups", 1)
	r := c.runWith(f, args, nil, nil)
	for _, o := range r.outs {
		n := cases(r.x, o.st.facts, r.st0, func(d *dec) {
			k := catalog{d, domainOf(d, args[0])}
			want := k.text(m, o)
			got, _, _ := strip(d.f, o.res[0])
			if equal(d.f, got, want) {
				return
			}
			if equal(d.f, want, m["id"]) && k.isID(got, m) {
				c.count("uses_entry_id", 1)
				return
			}
			c.fail("text", fname(f), o.pos, "returns %s where the catalogue prescribes %s, when %s", got, want, trunc(d.f.describe(), 300))
		})
		c.count("cases", n)
	}
	c.sample("%s: %d outcomes", fname(f), len(r.outs))
}

func (c *Ctx) isTranslated(f *ssa.Function, l lookupFn) {
	args, m, ok := roleArgs(f, l, nil)
	if !ok {
		c.badShape(f)
		return
	}
	c.count("queries", 1)
	r := c.runWith(f, args, nil, nil)
	for _, o := range r.outs {
		n := cases(r.x, o.st.facts, r.st0, func(d *dec) {
			k := catalog{d, domainOf(d, args[0])}
			want := k.translated(m, o)
			if !equal(d.f, o.res[0], mkBool(want)) {
				c.fail("translated", fname(f), o.pos, "reports %s where the catalogue says %v, when %s", o.res[0], want, trunc(d.f.describe(), 300))
			}
		})
		c.count("cases", n)
	}
	c.sample("%s: %d outcomes", fname(f), len(r.outs))
}

// appendAgrees compares Append* with Get*
func (c *Ctx) appendAgrees(f *ssa.Function, l lookupFn, tn string) {
	g := c.need("", tn+"."+l.base)
	if g == nil {
		return
	}
	args, m, ok := roleArgs(f, l, nil)
	gl, _ := lookupShape(g.Name())
	gargs, _, ok2 := roleArgs(g, gl, nil)
	if !ok || !ok2 {
		c.badShape(f)
		return
	}
	c.count("pairs", 1)
	ra := c.runWith(f, args, nil, nil)
	rg := c.runWith(g, gargs, nil, nil)
	used := make([]bool, len(ra.outs))
	for _, og := range rg.outs {
		for i, oa := range ra.outs {
			fs, ok := merge(og.st.facts, oa.st.facts)
			if !ok {
				continue
			}
			used[i] = true
			c.count("outcome_pairs", 1)
			want := mk(OAppendS, oa.res[0].typ, "", false, m["buf"], og.res[0])
			got := canon(fs, oa.res[0])
			wc := canon(fs, want)
			if equal(fs, got, wc) {
				continue
			}
			// appending an empty text
			if wc.op == OAppendS && fs.eval(mkEq(wc.args[1], mkStr(""))) == 1 && equal(fs, got, m["buf"]) {
				continue
			}
			c.fail("append", fname(f), oa.pos, "returns %s where %s gives %s, when %s", got, fname(g), wc, trunc(fs.describe(), 300))
		}
	}
	for i, u := range used {
		if !u {
			c.fail("append", fname(f), ra.outs[i].pos, "a path of %s has no counterpart in %s", fname(f), fname(g))
		}
	}
	c.sample("%s against %s: %d x %d outcomes", fname(f), fname(g), len(ra.outs), len(rg.outs))
}
