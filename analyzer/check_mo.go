package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// MO files: every value that the parser uses is traced to the bytes of the file that it was
// decoded from (offset and byte order), however it got there: binary.Read on a reader whose
// position is tracked through reads, seeks and loops, or a byte order applied to the bytes.

type moRead struct {
	order string
	pos   *Lin
	data  *Term
	typ   types.Type
}

type moFile struct {
	c     *Ctx
	f     *ssa.Function
	buf   *Term
	reads map[*Event]*moRead
	after map[*LoopRec]map[*Term]*Lin
	outer map[*Event]*State // the state before the loop that an iteration belongs to
	depth int
}

// events lists what happened on the path, the paths before the enclosing loops included
func (m *moFile) events(st *State) []*Event {
	es := st.events(nil)
	if len(es) > 0 {
		if o := m.outer[es[0]]; o != nil {
			return append(m.events(o), es...)
		}
	}
	return es
}

func unIface(t *Term) *Term {
	if t.op == OIface {
		return t.args[0]
	}
	return t
}

// byteOrder names the byte order that a value of encoding/binary denotes
func byteOrder(t *Term) string {
	if t.typ == nil {
		return ""
	}
	switch s := t.typ.String(); {
	case strings.HasSuffix(s, "binary.littleEndian"):
		return "LE"
	case strings.HasSuffix(s, "binary.bigEndian"):
		return "BE"
	}
	if t.op == OIface {
		return byteOrder(t.args[0])
	}
	return ""
}

// wireSize is the number of bytes that binary.Read consumes for a value, 0 if not constant
func wireSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8, types.Int8, types.Bool:
			return 1
		case types.Uint16, types.Int16:
			return 2
		case types.Uint32, types.Int32, types.Float32:
			return 4
		case types.Uint64, types.Int64, types.Float64:
			return 8
		}
	case *types.Array:
		return u.Len() * wireSize(u.Elem())
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			k := wireSize(u.Field(i).Type())
			if k == 0 {
				return 0
			}
			n += k
		}
		return n
	}
	return 0
}

// wireOffset is the distance of the cell addr from the start of the object at base
func wireOffset(addr, base *Term) (int64, bool) {
	if addr == base {
		return 0, true
	}
	switch addr.op {
	case OFieldAddr:
		n, ok := wireOffset(addr.args[0], base)
		st := structOf(elemOf(addr.args[0].typ))
		k, err := strconv.Atoi(addr.aux)
		if !ok || st == nil || err != nil {
			return 0, false
		}
		for i := 0; i < k; i++ {
			n += wireSize(st.Field(i).Type())
		}
		return n, true
	case OIndexAddr:
		n, ok := wireOffset(addr.args[0], base)
		i, isc := addr.args[1].intConst()
		if !ok || !isc {
			return 0, false
		}
		return n + i*wireSize(elemOf(addr.typ)), true
	}
	return 0, false
}

func (m *moFile) content(order string, pos *Lin, typ types.Type) *Term {
	return mkCall("file."+strconv.FormatInt(8*wireSize(typ), 10), 0, typ, mkStr(order), mkLin(pos))
}

func (m *moFile) at(order string, pos *Lin, bits int) *Term {
	typ := types.Typ[types.Uint32]
	if bits == 16 {
		typ = types.Typ[types.Uint16]
	}
	return m.content(order, pos, typ)
}

// walk follows the positions of the readers along a path
func (m *moFile) walk(st *State, since *Event, cur map[*Term]*Lin) {
	for _, e := range st.events(since) {
		switch {
		case e.kind == "loop":
			m.loop(e.loop, cur)
			for k, v := range m.after[e.loop] {
				cur[k] = v
			}
		case e.name == "bytes.NewReader" && len(e.res) == 1:
			if e.args[0] == m.buf {
				cur[e.res[0]] = linConst(0)
			} else if s := e.args[0]; s.op == OSlice && s.args[0] == m.buf {
				cur[e.res[0]] = linOf(m.value(st, s.args[1]))
			}
		case e.name == "encoding/binary.Read":
			r := unIface(e.args[0])
			p := cur[r]
			data := unIface(e.args[2])
			var n *Lin
			var typ types.Type
			switch u := data.typ.Underlying().(type) {
			case *types.Pointer:
				typ = u.Elem()
				if w := wireSize(typ); w > 0 {
					n = linConst(w)
				}
			case *types.Slice:
				typ = u
				if w := wireSize(u.Elem()); w > 0 {
					n = linScale(linOf(m.value(st, mkLen(data))), w)
				}
			}
			o := byteOrder(e.args[1])
			if p == nil || n == nil || o == "" {
				delete(cur, r)
				continue
			}
			m.reads[e] = &moRead{o, p, data, typ}
			cur[r] = linAdd(p, n)
		case strings.HasSuffix(e.name, ").Seek") && len(e.args) == 3:
			r := unIface(e.args[0])
			w, ok := e.args[2].intConst()
			off := linOf(m.value(st, e.args[1]))
			switch {
			case ok && w == 0:
				cur[r] = off
			case ok && w == 1 && cur[r] != nil:
				cur[r] = linAdd(cur[r], off)
			default:
				delete(cur, r)
			}
		default:
			if e.kind == "modcall" {
				continue
			}
			for _, a := range e.args {
				delete(cur, unIface(a))
			}
		}
	}
}

func (m *moFile) loop(rec *LoopRec, cur map[*Term]*Lin) {
	if _, done := m.after[rec]; done {
		return
	}
	m.after[rec] = map[*Term]*Lin{}
	m.outer[rec.start.ev] = rec.entry
	end := func(head map[*Term]*Lin, b *State) map[*Term]*Lin {
		c := map[*Term]*Lin{}
		for k, v := range head {
			c[k] = v
		}
		m.walk(b, rec.start.ev, c)
		return c
	}
	var iter *Lin
	for _, s := range scans(rec) {
		iter = linAdd(linOf(s.sym()), linConst(-s.init))
		break
	}
	head := map[*Term]*Lin{}
	for k, v := range cur {
		d, ok := int64(0), true
		for i, b := range rec.back {
			e := end(cur, b)[k]
			if e == nil {
				ok = false
				break
			}
			diff := linSub(e, v)
			if len(diff.vs) != 0 || i > 0 && diff.c != d {
				ok = false
				break
			}
			d = diff.c
		}
		switch {
		case ok && d == 0:
			head[k] = v
		case ok && iter != nil:
			head[k] = linAdd(v, linScale(iter, d))
		}
	}
	for e := range m.reads { // positions inside the loop are those of an arbitrary iteration
		for _, b := range rec.back {
			for _, x := range b.events(rec.start.ev) {
				if x == e {
					delete(m.reads, e)
				}
			}
		}
	}
	var forget func(st *State, since *Event)
	forget = func(st *State, since *Event) {
		for _, x := range st.events(since) {
			if x.kind == "loop" {
				delete(m.after, x.loop)
				for _, b := range x.loop.back {
					forget(b, x.loop.start.ev)
				}
			}
		}
	}
	for _, b := range rec.back {
		forget(b, rec.start.ev)
	}
	for _, b := range rec.back {
		end(head, b)
	}
	for k := range cur {
		m.after[rec][k] = head[k]
	}
}

func findMem(st *State, ver string) *Mem {
	for w := st.mem; w != nil; w = w.prev {
		if strconv.Itoa(w.id) == ver {
			return w
		}
	}
	return nil
}

// value rewrites an integer in terms of the bytes of the file
func (m *moFile) value(st *State, t *Term) *Term {
	if m.depth > 12 {
		return t
	}
	m.depth++
	defer func() { m.depth-- }()
	if t.op == OLin {
		l := linConst(t.lin.c)
		for _, v := range t.lin.vs {
			l = linAdd(l, linScale(linOf(m.value(st, v.t)), v.k))
		}
		return mkLin(l)
	}
	switch t.op {
	case OConv:
		if isInteger(t.typ) && isInteger(t.args[0].typ) && (wireSize(t.typ) == 0 || wireSize(t.typ) > wireSize(t.args[0].typ)) {
			return m.value(st, t.args[0])
		}
	case OCall:
		if w := orderWidth(t.aux); w > 0 {
			s := t.args[len(t.args)-1]
			if o := byteOrder(t.args[0]); o != "" {
				if s == m.buf {
					return m.content(o, linConst(0), t.typ)
				}
				if s.op == OSlice && s.args[0] == m.buf {
					return m.content(o, linOf(m.value(st, s.args[1])), t.typ)
				}
			}
		}
	case OField:
		// a field of a structure that was read as a whole
		if l := t.args[0]; l.op == OLoad {
			if k, err := strconv.Atoi(t.aux); err == nil {
				return m.value(st, mk(OLoad, t.typ, l.aux, false, mkFieldAddr(l.args[0], k, types.NewPointer(t.typ))))
			}
		}
	case OLoad:
		addr := t.args[0]
		if w := findMem(st, t.aux); w != nil && w.kind == mHavocAddr && w.addr == addr {
			if v := m.readInto(st, w); v != nil {
				return v
			}
		}
		if v := m.element(st, addr, t.typ); v != nil {
			return v
		}
	}
	return t
}

// readInto: what the read that filled this cell put there
func (m *moFile) readInto(st *State, w *Mem) *Term {
	var best *Event
	for _, e := range m.events(st) {
		if e.name == "encoding/binary.Read" && (e.mem == nil || e.mem.id < w.id) {
			best = e
		}
	}
	if best == nil || m.reads[best] == nil {
		return nil
	}
	r := m.reads[best]
	off, ok := wireOffset(w.addr, r.data)
	if !ok {
		return nil
	}
	return m.content(r.order, linAdd(r.pos, linConst(off)), elemOf(w.addr.typ))
}

// element: the content of an element of a table that a loop or one read filled
func (m *moFile) element(st *State, addr *Term, typ types.Type) *Term {
	ia := addr
	if ia.op == OFieldAddr {
		ia = ia.args[0]
	}
	if ia.op != OIndexAddr {
		return nil
	}
	base, idx := ia.args[0], ia.args[1]
	var found *Term
	n := 0
	for _, e := range m.events(st) {
		if e.kind == "loop" {
			for _, s := range scans(e.loop) {
				if v := m.filled(st.facts, e.loop, s, addr, ia, base, idx); v != nil {
					found = v
					n++
					break
				}
			}
		}
		if r := m.reads[e]; r != nil && r.data == base {
			if w := wireSize(elemOf(ia.typ)); w > 0 {
				off, ok := wireOffset(addr, ia)
				if ok {
					found = m.content(r.order, linAdd(r.pos, linAdd(linScale(linOf(idx), w), linConst(off))), typ)
					n++
				}
			}
		}
	}
	if n == 1 {
		return found
	}
	return nil
}

func (m *moFile) filled(f *Facts, rec *LoopRec, s scan, addr, ia, base, idx *Term) *Term {
	var all *Term
	for _, b := range rec.back {
		var v *Term
		k := int64(0)
		for _, w := range b.writes(rec.start.mem) {
			a := w.addr
			if a == nil || w.kind != mStore && w.kind != mHavocAddr {
				continue
			}
			wa := a
			if wa.op == OFieldAddr {
				if addr.op != OFieldAddr || wa.aux != addr.aux {
					continue
				}
				wa = wa.args[0]
			} else if addr.op == OFieldAddr {
				continue
			}
			if wa.op != OIndexAddr || wa.args[0] != base {
				continue
			}
			off, ok := s.offset(wa.args[1])
			if !ok {
				return nil
			}
			k = off
			if w.kind == mStore {
				v = m.value(b, w.val)
			} else {
				v = m.readInto(b, w)
			}
		}
		if v == nil || all != nil && all != v {
			return nil
		}
		// elements init+k .. sym+k-1 are filled
		if !f.entails(linAdd(linOf(idx), linConst(-s.init-k))) || !f.entails(linSub(linAdd(linOf(s.sym()), linConst(k-1)), linOf(idx))) {
			return nil
		}
		v = rebuild(v, s.sym(), mkLin(linAdd(linOf(idx), linConst(-k))))
		if all != nil && all != v {
			return nil
		}
		all = v
	}
	return all
}

// terms that facts speak about
func (f *Facts) atoms(visit func(t *Term)) {
	for t := range f.lits {
		t.walk(visit)
	}
	for t, c := range f.cst {
		t.walk(visit)
		c.walk(visit)
	}
	for _, ls := range [][]*Lin{f.lin, f.neq} {
		for _, l := range ls {
			for _, v := range l.vs {
				v.t.walk(visit)
			}
		}
	}
}

// known states the facts of a path over the bytes of the file
func (m *moFile) known(st *State) *Facts {
	var ts []*Term
	seen := map[*Term]bool{}
	st.facts.atoms(func(t *Term) {
		if !seen[t] && t.typ != nil && isInteger(t.typ) && (t.op == OLoad || t.op == OCall || t.op == OField || t.op == OConv) {
			seen[t] = true
			ts = append(ts, t)
		}
	})
	sortTerms(ts)
	to := map[*Term]*Term{}
	for _, t := range ts {
		if v := m.value(st, t); v != t {
			to[t] = v
		}
	}
	lin := func(l *Lin) (*Lin, bool) {
		r, ch := linConst(l.c), false
		for _, v := range l.vs {
			n := v.t
			if w, ok := to[n]; ok {
				n, ch = w, true
			}
			r = linAdd(r, linScale(linOf(n), v.k))
		}
		return r, ch
	}
	f := st.facts
	also := func(c *Term, v bool) {
		if g, ok := f.assume(c, v); ok {
			f = g
		}
	}
	for _, t := range ts {
		if c, ok := st.facts.cst[t]; ok && to[t] != nil {
			also(mkEq0(linSub(linOf(to[t]), linOf(c))), true)
		}
	}
	for _, l := range st.facts.lin {
		if r, ch := lin(l); ch {
			also(mkGe0(r), true)
		}
	}
	for _, l := range st.facts.neq {
		if r, ch := lin(l); ch {
			also(mkEq0(r), false)
		}
	}
	return f
}

const (
	moLittle = 0x950412de
	moBig    = 0xde120495
)

// layout is what the header of the file says, once the byte order is known
type layout struct {
	order        string
	major, minor *Term
	n, ids, strs *Lin
	size         *Lin
	m            *moFile
}

func (m *moFile) layout(f *Facts) *layout {
	magic := linOf(m.at("LE", linConst(0), 32))
	l := &layout{m: m, size: linOf(mkLen(m.buf))}
	switch {
	case f.eval(mkEq0(linAdd(magic, linConst(-moLittle)))) == 1:
		l.order = "LE"
	case f.eval(mkEq0(linAdd(magic, linConst(-moBig)))) == 1:
		l.order = "BE"
	default:
		return nil
	}
	l.major, l.minor = m.at(l.order, linConst(4), 16), m.at(l.order, linConst(6), 16)
	l.n = linOf(m.at(l.order, linConst(8), 32))
	l.ids, l.strs = linOf(m.at(l.order, linConst(12), 32)), linOf(m.at(l.order, linConst(16), 32))
	return l
}

// span is the i-th string of a table
func (l *layout) span(table *Lin, i *Lin) (lo, hi *Lin) {
	at := linAdd(table, linScale(i, 8))
	n := linOf(l.m.at(l.order, at, 32))
	lo = linOf(l.m.at(l.order, linAdd(at, linConst(4)), 32))
	return lo, linAdd(lo, n)
}

func oneOf(f *Facts, t *Term, vs ...int64) int {
	no := 0
	for _, v := range vs {
		switch f.eval(mkEq0(linAdd(linOf(t), linConst(-v)))) {
		case 1:
			return 1
		case 0:
			no++
		}
	}
	if no == len(vs) {
		return 0
	}
	if len(vs) == 2 && vs[1] == vs[0]+1 {
		below, above := linAdd(linScale(linOf(t), -1), linConst(vs[0]-1)), linAdd(linOf(t), linConst(-vs[1]-1))
		lo, hi := f.eval(mkGe0(below)), f.eval(mkGe0(above))
		if lo == 0 && hi == 0 {
			return 1
		}
		if lo == 1 || hi == 1 {
			return 0
		}
	}
	return -1
}

// failedRead: a read or a seek of this path is known to have failed (1), known to have worked (0)
func (m *moFile) failedRead(st *State) int {
	r := 0
	for _, e := range m.events(st) {
		if e.name != "encoding/binary.Read" && !strings.HasSuffix(e.name, ").Seek") {
			continue
		}
		switch st.facts.evalNil(e.res[len(e.res)-1]) {
		case 0:
			return 1
		case -1:
			r = -1
		}
	}
	return r
}

// rejected: the path is one of those on which a file has to be refused
func (m *moFile) rejected(st *State, f *Facts) bool {
	if m.failedRead(st) == 1 {
		return true
	}
	l := m.layout(f)
	if l == nil {
		return oneOf(f, m.at("LE", linConst(0), 32), moLittle, moBig) == 0
	}
	if oneOf(f, l.major, 0, 1) == 0 || oneOf(f, l.minor, 0, 1) == 0 {
		return true
	}
	over := func(end *Lin) bool { return f.eval(mkGe0(linAdd(linSub(end, l.size), linConst(-1)))) == 1 }
	if over(linAdd(l.ids, linScale(l.n, 8))) || over(linAdd(l.strs, linScale(l.n, 8))) || over(linConst(28)) || over(linConst(20)) {
		return true
	}
	if f.eval(mkEq0(l.n)) == 1 {
		return true // nothing to store
	}
	// a string that ends behind the end of the file
	syms := map[*Term]bool{}
	f.atoms(func(t *Term) {
		if t.op == OSym && t.typ != nil && isInteger(t.typ) {
			syms[t] = true
		}
	})
	for s := range syms {
		for _, d := range []int64{0, 1} {
			i := linAdd(linOf(s), linConst(d))
			for _, tab := range []*Lin{l.ids, l.strs} {
				lo, hi := l.span(tab, i)
				if over(hi) || over(lo) {
					return true
				}
			}
		}
	}
	return false
}

func isEntryMap(t *Term) bool { return t != nil && t.typ != nil && isTranslationMap(t.typ) }

// part normalises a string that was cut out of a message: "D" is the whole text
type moParts struct {
	m    *moFile
	st   *State
	f    *Facts
	text map[string]*Term
	l    *layout
	i    *Lin
}

func sepOf(t *Term) string {
	s, ok := sepConst(t)
	if !ok {
		if n, isc := t.intConst(); isc && n < 128 {
			return string(rune(n))
		}
		return "?"
	}
	return s
}

func (p *moParts) norm(t *Term) string {
	s := p.norm1(t)
	if _, ok := p.text[s]; !ok {
		p.text[s] = t
	}
	return s
}

func (p *moParts) norm1(t *Term) string { return p.norm2(p.f.subst(t)) }

func (p *moParts) norm2(t *Term) string {
	if t.op == OConst {
		if s, ok := t.strConst(); ok {
			return strconv.Quote(s)
		}
		return `""` // nil
	}
	switch t.op {
	case OConv:
		if isString(t.typ) || isBytes(t.typ) {
			return p.norm1(t.args[0])
		}
	case OSlice:
		root, lo, hi, ok := p.span(t)
		if !ok {
			return t.String()
		}
		same := func(a, b *Lin) bool { return p.f.eval(mkEq0(linSub(a, b))) == 1 }
		for _, name := range []string{"D", "S"} {
			tab := p.l.ids
			if name == "S" {
				tab = p.l.strs
			}
			a, b := p.l.span(tab, p.i)
			if root == p.m.buf && same(a, lo) && same(b, hi) {
				return name
			}
		}
		for _, end := range []*Lin{hi, lo} {
			for _, v := range end.vs {
				ix := v.t
				if ix.op != OCall || !strings.Contains(ix.aux, ".Index") || len(sepOf(ix.args[1])) != 1 {
					continue
				}
				from, a, b, ok := p.span(ix.args[0])
				if !ok || from != root && !p.f.same(from, root) {
					continue
				}
				sep := strconv.Quote(sepOf(ix.args[1]))
				cut := linAdd(a, linOf(ix))
				if same(lo, a) && same(hi, cut) {
					return "before(" + p.norm1(ix.args[0]) + "," + sep + ")"
				}
				if same(lo, linAdd(cut, linConst(1))) && same(hi, b) {
					return "after(" + p.norm1(ix.args[0]) + "," + sep + ")"
				}
			}
		}
	case OCall:
		if strings.HasSuffix(t.aux, ".Join") && len(t.args) == 2 {
			l := t.args[0]
			if l.op == OSlice {
				if n, ok := l.args[1].intConst(); ok && n == 1 && equal(p.f, l.args[2], mkLen(l.args[0])) {
					if x, sep, _, ok := splitCall(l.args[0]); ok && sep == sepOf(t.args[1]) {
						return "after(" + p.norm1(x) + "," + strconv.Quote(sep) + ")"
					}
				}
			}
		}
	}
	if seq, idx, ok := elemOfSeq(t); ok {
		if x, sep, max, ok := splitCall(seq); ok {
			in := p.norm1(x)
			n, isc := idx.intConst()
			switch {
			case isc && n == 0:
				if p.lacks(in, sep) == 1 {
					return in
				}
				return "before(" + in + "," + strconv.Quote(sep) + ")"
			case isc && n == 1 && (max == 2 || sep == "\x04"):
				return "after(" + in + "," + strconv.Quote(sep) + ")"
			}
			return "field(" + in + "," + strconv.Quote(sep) + "," + mkLin(linOf(idx)).String() + ")"
		}
	}
	return t.String()
}

// span locates a slice of the file, or of another text
func (p *moParts) span(t *Term) (root *Term, lo, hi *Lin, ok bool) {
	t = p.f.subst(t)
	switch {
	case t == p.m.buf:
		return t, linConst(0), linOf(mkLen(t)), true
	case t.op == OConv && (isString(t.typ) || isBytes(t.typ)):
		return p.span(t.args[0])
	case t.op == OSlice:
		r, a, _, ok := p.span(t.args[0])
		if !ok {
			return nil, nil, nil, false
		}
		v := func(x *Term) *Lin {
			if l := p.f.subst(x); l.op == OLen {
				if _, lo, hi, ok := p.span(l.args[0]); ok {
					return linSub(hi, lo)
				}
			}
			return linOf(p.m.value(p.st, x))
		}
		return r, linAdd(a, v(t.args[1])), linAdd(a, v(t.args[2])), true
	case t.op != OConst && (isString(t.typ) || isBytes(t.typ)):
		return t, linConst(0), linOf(mkLen(t)), true
	}
	return nil, nil, nil, false
}

// splitCall recognises Split and SplitN
func splitCall(t *Term) (x *Term, sep string, max int64, ok bool) {
	if t.op != OCall || len(t.args) < 2 {
		return
	}
	switch t.aux {
	case "strings.Split", "bytes.Split":
		return t.args[0], sepOf(t.args[1]), -1, true
	case "strings.SplitN", "bytes.SplitN":
		n, isc := t.args[2].intConst()
		return t.args[0], sepOf(t.args[1]), n, isc
	}
	return
}

// lacks: the text contains no separator (1), at least one (0), not known (-1)
func (p *moParts) lacks(text, sep string) int {
	r := -1
	p.f.atoms(func(t *Term) {
		if r >= 0 {
			return
		}
		switch {
		case t.op == OLen && t.args[0].op == OCall:
			if x, s, max, ok := splitCall(t.args[0]); ok && s == sep && max != 1 && max != 0 && p.norm1x(x) == text {
				if p.f.eval(mkEq0(linAdd(linOf(t), linConst(-1)))) == 1 {
					r = 1
				} else if p.f.entails(linAdd(linOf(t), linConst(-2))) {
					r = 0
				}
			}
		case t.op == OCall && strings.Contains(t.aux, ".Index") && len(t.args) == 2 && sepOf(t.args[1]) == sep && p.norm1x(t.args[0]) == text:
			switch p.f.eval(mkGe0(linOf(t))) {
			case 1:
				r = 0
			case 0:
				r = 1
			}
		case t.op == OCall && strings.HasSuffix(t.aux, ".Contains") && sepOf(t.args[1]) == sep && p.norm1x(t.args[0]) == text:
			if v := p.f.eval(t); v >= 0 {
				r = 1 - v
			}
		}
	})
	return r
}

// norm1x avoids asking the same question again inside lacks
func (p *moParts) norm1x(t *Term) string {
	for t.op == OConv && (isString(t.typ) || isBytes(t.typ)) {
		t = t.args[0]
	}
	if seq, idx, ok := elemOfSeq(t); ok {
		if x, sep, _, ok := splitCall(seq); ok {
			if n, isc := idx.intConst(); isc && n == 0 && sep == "\x00" {
				return "before(" + p.norm1x(x) + "," + strconv.Quote(sep) + ")"
			}
		}
	}
	return p.norm1(t)
}

// empty: the text is known to be empty (1) or not (0)
func (p *moParts) empty(text string) int {
	if text == `""` {
		return 1
	}
	r := -1
	see := func(t *Term, v int) {
		if r < 0 && v >= 0 && (p.norm(t) == text || p.norm2(t) == text) {
			r = v
		}
	}
	p.f.atoms(func(t *Term) {
		switch {
		case t.op == OLen && (isString(t.args[0].typ) || isBytes(t.args[0].typ)):
			see(t.args[0], p.f.eval(mkEq0(linOf(t))))
		case t.op == OCall && strings.Contains(t.aux, ".Index") && len(t.args) == 2 && r < 0 && len(sepOf(t.args[1])) == 1:
			in, sep := p.norm1(t.args[0]), strconv.Quote(sepOf(t.args[1]))
			_, a, b, ok := p.span(t.args[0])
			switch {
			case text == "before("+in+","+sep+")":
				r = p.f.eval(mkEq0(linOf(t)))
			case ok && text == "after("+in+","+sep+")":
				r = p.f.eval(mkEq0(linAdd(linSub(linSub(b, a), linOf(t)), linConst(-1))))
			}
		case t.op == OEq && len(t.args) == 2:
			for i := range t.args {
				if s, ok := t.args[i].strConst(); ok && s == "" {
					see(t.args[1-i], p.f.eval(t))
				}
			}
		}
	})
	if r < 0 {
		if t := p.text[text]; t != nil {
			r = p.f.eval(mkEq0(linOf(mkLen(t))))
		}
	}
	return r
}

// stores examines what one iteration over the tables stores
func (m *moFile) stores(rec *LoopRec, b *State, do *Term) {
	c, f := m.c, m.f
	F := m.known(b)
	when := trunc(b.facts.describe(), 240)
	l := m.layout(F)
	if l == nil {
		c.fail("magic", fname(f), rec.pos, "stores an entry of a file whose magic number is not known to be that of an MO file read in its byte order, when %s", when)
		return
	}
	if oneOf(F, l.major, 0, 1) != 1 || oneOf(F, l.minor, 0, 1) != 1 {
		c.fail("version", fname(f), rec.pos, "stores an entry of a file of an unknown version, when %s", when)
	}
	if m.failedRead(b) != 0 {
		c.fail("failed-read", fname(f), rec.pos, "stores an entry although a read may have failed")
	}
	var ups []*Mem
	for _, w := range b.writes(rec.start.mem) {
		if w.kind == mMapUpd && isEntryMap(w.addr) {
			ups = append(ups, w)
		}
		if w.kind == mMapDel {
			c.fail("stored", fname(f), w.pos, "removes an entry while reading a file")
		}
	}
	if len(ups) != 1 {
		c.fail("stored", fname(f), rec.pos, "an iteration over the tables stores %d entries, when %s", len(ups), when)
		return
	}
	w := ups[0]
	c.count("entries", 1)
	var iter *Lin
	for _, s := range scans(rec) {
		iter = linAdd(linOf(s.sym()), linConst(-s.init))
		break
	}
	if iter == nil {
		c.fail("index", fname(f), rec.pos, "the loop that stores the entries does not count them one by one")
		return
	}
	p := &moParts{m: m, st: b, f: F, text: map[string]*Term{}, l: l, i: iter}
	str := func(addr *Term) string { return p.norm(b.load(addr, types.Typ[types.String])) }
	tr := w.val
	if tr.op != OAlloc || rec.start.mem != nil && tr.seq <= rec.start.mem.seq {
		c.fail("entry", fname(f), w.pos, "stores %s, which is not a new entry", tr)
		return
	}
	// what the message's id says
	rest, ctx := "D", `""`
	switch p.lacks("D", "\x04") {
	case 0:
		rest, ctx = `after(D,"\x04")`, `before(D,"\x04")`
	case -1:
		// decided by the length of the parts only
		rest = "?"
	}
	id := `before(` + rest + `,"\x00")`
	plural := `after(` + rest + `,"\x00")`
	if p.lacks(rest, "\x00") == 1 {
		id, plural = rest, `""`
	}
	if got := str(fieldAddr(tr, "ID")); got != id {
		c.fail("id", fname(f), w.pos, "the entry's id is %s, not %s (D is the i-th original, cut at EOT and NUL), when %s", got, id, when)
	}
	if got := p.norm(w.key); got != id {
		c.fail("key", fname(f), w.pos, "the entry is stored under %s, not under its id %s, when %s", got, id, when)
	}
	if got := str(fieldAddr(tr, "PluralID")); got != plural && !(got == `""` && p.empty(plural) == 1) {
		c.fail("plural", fname(f), w.pos, "the entry's plural id is %s, not %s, when %s", got, plural, when)
	}
	// where it is stored
	plain := fieldAddr(do, "translations")
	byctx := fieldAddr(do, "contextTranslations")
	contexts := rec.start.load(byctx, elemOf(byctx.typ))
	switch {
	case equal(F, w.addr, b.load(plain, elemOf(plain.typ))):
		if p.empty(ctx) != 1 {
			c.fail("home", fname(f), w.pos, "stores a message whose context (%s) may not be empty among the plain entries, when %s", ctx, when)
		}
	default:
		var key *Term
		if a := w.addr; a.op == OMapGet && equal(F, a.args[0], contexts) {
			key = a.args[1]
		}
		for _, u := range b.writes(rec.start.mem) {
			if u.kind == mMapUpd && equal(F, u.addr, contexts) {
				if u.val != w.addr {
					c.fail("home", fname(f), u.pos, "replaces a context while storing an entry elsewhere")
					continue
				}
				key = u.key
				d := &dec{x: newInterp(c.p), f: F, st: rec.start.clone()}
				has, _, _ := rec.start.mapLookup(contexts, u.key, contexts.typ.Underlying().(*types.Map))
				_ = d
				if F.eval(has) != 0 {
					c.fail("home", fname(f), u.pos, "replaces the entries of a context that may already have some, when %s", when)
				}
			}
		}
		if key == nil {
			c.fail("home", fname(f), w.pos, "stores the entry in %s, which is neither the plain entries nor those of its context, when %s", w.addr, when)
			break
		}
		if got := p.norm(key); got != ctx {
			c.fail("home", fname(f), w.pos, "stores the entry in the context %s, not %s, when %s", got, ctx, when)
		} else if p.empty(ctx) != 0 {
			c.fail("home", fname(f), w.pos, "stores the entry in a context that may be empty, when %s", when)
		}
	}
	// the forms
	trsA := fieldAddr(tr, "Trs")
	trs := b.load(trsA, elemOf(trsA.typ))
	ok := false
	for _, e := range b.events(rec.start.ev) {
		if e.kind != "loop" {
			continue
		}
		for _, s := range scans(e.loop) {
			good := len(e.loop.back) > 0
			var seq *Term
			k := int64(0)
			for _, q := range e.loop.back {
				n := 0
				for _, u := range q.writes(e.loop.start.mem) {
					if u.kind != mMapUpd || !equal(F, u.addr, trs) {
						continue
					}
					n++
					off, isOff := s.offset(u.key)
					v := u.val
					for v.op == OConv && isString(v.typ) {
						v = v.args[0]
					}
					sq, ix, isElem := elemOfSeq(v)
					if !isOff || !isElem || !equal(F, ix, u.key) {
						good = false
						continue
					}
					x, sep, max, isSplit := splitCall(sq)
					if !isSplit || sep != "\x00" || max >= 0 || p.norm(x) != "S" {
						good = false
						continue
					}
					seq, k = sq, off
				}
				if n != 1 {
					good = false
				}
			}
			if !good || seq == nil || s.init+k != 0 {
				continue
			}
			// all of them
			if b.facts.entails(linSub(linAdd(linOf(s.sym()), linConst(k)), linOf(mkLen(seq)))) {
				ok = true
			}
		}
	}
	if !ok {
		c.fail("forms", fname(f), w.pos, "the entry's forms are not all the NUL-separated parts of the i-th translation, in order, when %s", when)
	} else {
		c.count("forms", 1)
	}
}

func (c *Ctx) moTables() {
	f := c.need("", "Mo.Parse")
	headers := c.need("", "Domain.parseHeaders")
	if f == nil || headers == nil {
		return
	}
	r := c.runFn(f, func(x *Interp) { x.pure = func(h *ssa.Function) bool { return h == headers } })
	seen := map[*LoopRec]bool{}
	for _, o := range r.outs {
		m := &moFile{c: c, f: f, buf: r.args[1], reads: map[*Event]*moRead{}, after: map[*LoopRec]map[*Term]*Lin{}, outer: map[*Event]*State{}}
		m.walk(o.st, nil, map[*Term]*Lin{})
		F := m.known(o.st)
		d := &dec{x: r.x, f: o.st.facts, st: r.st0.clone()}
		d.set(o.st.facts)
		do := domainOf(d, r.args[0])
		var store *LoopRec
		after := false
		for _, e := range o.st.events(nil) {
			if e.kind == "modcall" && e.name == fname(headers) && store != nil {
				after = true
			}
			if e.kind != "loop" {
				continue
			}
			for _, b := range e.loop.back {
				for _, w := range b.writes(e.loop.start.mem) {
					if w.kind == mMapUpd && isEntryMap(w.addr) {
						store = e.loop
					}
				}
			}
		}
		when := trunc(o.st.facts.describe(), 300)
		if store == nil {
			for _, w := range o.st.writes(nil) {
				if w.kind == mMapUpd && isEntryMap(w.addr) {
					c.fail("index", fname(f), w.pos, "stores an entry outside a loop over the tables")
				}
			}
			c.count("refusals", 1)
			if !m.rejected(o.st, F) {
				c.fail("complete", fname(f), o.pos, "returns without having stored the messages, when %s", when)
			}
			continue
		}
		c.count("loads", 1)
		l := m.layout(F)
		if l == nil {
			c.fail("magic", fname(f), o.pos, "reads the tables of a file that is not known to be an MO file, or with another byte order, when %s", when)
			continue
		}
		done := false
		for _, s := range scans(store) {
			if F.eval(mkGe0(linSub(linAdd(linOf(s.sym()), linConst(-s.init)), l.n))) == 1 {
				done = true
			}
		}
		switch {
		case !done && !m.rejected(o.st, F):
			c.fail("complete", fname(f), store.pos, "may stop before the last message of the tables, when %s", when)
		case done && !after:
			c.fail("headers", fname(f), o.pos, "returns without interpreting the header entry, when %s", when)
		}
		if seen[store] {
			continue
		}
		seen[store] = true
		for _, b := range store.back {
			m.stores(store, b, do)
		}
	}
}

func init() {
	register("C29", "Mo.Parse: every number used is traced to its byte offset and byte order in the file (the reader's position is followed through reads, seeks and loops), and compared with GNU's layout on every abstract path: magic, versions, counts, table offsets, the i-th length and offset of both tables. On every path through the storing loop exactly one new entry is stored, with id, plural id, context and forms cut from the i-th original and translation at EOT and NUL; every path that stores nothing has an announced reason to refuse the file.", func(c *Ctx) {
		c.moTables()
		c.atLeast("loads", 1)
		c.atLeast("refusals", 5)
		c.atLeast("entries", 4)
		c.atLeast("forms", 4)
	})
}
