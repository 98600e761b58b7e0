package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The language of the texts that a function produces: constants, pieces of unknown text, and
// loops that repeat them, read by the lexer of PO files.

type txKind int

const (
	txLit txKind = iota
	txLeaf
	txLoop
	txSep   // separator of a Join, written before every element but the first
	txBegin // a Join begins
)

type tx struct {
	kind txKind
	lit  string
	// txLeaf: the characters of t, replaced one by one
	t      *Term
	images map[byte]string
	forms  []*Term // texts with the same newlines as this one
	noNL   bool
	pos    token.Pos
	f      *Facts
	// txLoop
	rec  *LoopRec
	alts [][]*tx
	out  *State // after the loop
	id   int
	// results of the lexer per alternative
	seen map[int][]*poText
}

// list elements: an element, or a loop that adds elements
type listSeg struct {
	t    *Term
	st   *State // heap and facts when it was added
	rec  *LoopRec
	alts [][]listSeg
	back []*State
}

// textOf explains texts in a state
type textOf struct {
	c       *Ctx
	x       *Interp
	ids     int
	pure    map[string]bool // functions whose results are left alone
	through map[*Term]*Term // buffered writers
}

// accum explains a list that a loop extends: the loop, its value before it, and after each iteration
func (w *textOf) accum(st *State, t *Term) (rec *LoopRec, init *Term, next []*Term, ok bool) {
	for _, r := range loopsOf(st) {
		for j, s := range r.sym {
			if s == t {
				for _, nx := range r.next {
					next = append(next, nx[j])
				}
				return r, r.init[j], next, true
			}
		}
		if t.op == OLoad {
			if ld(r.start, t.args[0]) == t && ld(r.entry, t.args[0]) != t {
				for _, b := range r.back {
					next = append(next, ld(b, t.args[0]))
				}
				return r, ld(r.entry, t.args[0]), next, true
			}
		}
	}
	return
}

// list resolves a slice to its elements
func (w *textOf) list(st *State, t *Term, stop map[*Term]bool, depth int) ([]listSeg, bool) {
	if depth > 12 {
		return nil, false
	}
	t = st.facts.subst(t)
	if stop[t] {
		return nil, true
	}
	if n, ok := emptyLen(t); ok && n == 0 {
		return nil, true
	}
	switch t.op {
	case OAppend:
		r, ok := w.list(st, t.args[0], stop, depth+1)
		for _, a := range t.args[1:] {
			r = append(r, listSeg{t: a, st: st})
		}
		return r, ok
	case OAppendS:
		r, ok := w.list(st, t.args[0], stop, depth+1)
		if !ok {
			return nil, false
		}
		more, ok := w.list(st, t.args[1], nil, depth+1)
		return append(r, more...), ok
	}
	if rec, init, next, ok := w.accum(st, t); ok {
		r, ok := w.list(rec.entry, init, stop, depth+1)
		if !ok {
			return nil, false
		}
		seg := listSeg{rec: rec, back: rec.back, st: st}
		for i, nx := range next {
			inner := map[*Term]bool{t: true}
			alt, ok := w.list(rec.back[i], nx, inner, depth+1)
			if !ok {
				return nil, false
			}
			seg.alts = append(seg.alts, alt)
		}
		return append(r, seg), true
	}
	if es, ok := w.x.elems(st, t); ok {
		var r []listSeg
		for _, e := range es {
			r = append(r, listSeg{t: e, st: st})
		}
		return r, true
	}
	return nil, false
}

// expand explains a text
func (w *textOf) expand(st *State, t *Term, pos token.Pos) []*tx {
	t = st.facts.subst(t)
	leaf := func() []*tx {
		return []*tx{{kind: txLeaf, t: t, forms: []*Term{t}, pos: pos, f: st.facts}}
	}
	if s, ok := t.strConst(); ok {
		if s == "" {
			return nil
		}
		return []*tx{{kind: txLit, lit: s, pos: pos, f: st.facts}}
	}
	switch t.op {
	case OConcat:
		var r []*tx
		for _, a := range t.args {
			r = append(r, w.expand(st, a, pos)...)
		}
		return r
	case OConv:
		if t.aux != "char" && (isString(t.args[0].typ) || isBytes(t.args[0].typ)) && (isString(t.typ) || isBytes(t.typ)) {
			return w.expand(st, t.args[0], pos)
		}
		return leaf()
	case OCall:
		switch t.aux {
		case "strings.Join":
			segs, ok := w.list(st, t.args[0], nil, 0)
			if !ok {
				return leaf()
			}
			w.ids++
			id := w.ids
			sep := w.expand(st, t.args[1], pos)
			return append([]*tx{{kind: txBegin, id: id}}, w.joined(id, segs, sep, pos)...)
		case "strings.TrimSuffix":
			if s, ok := t.args[1].strConst(); ok {
				ops := w.expand(st, t.args[0], pos)
				if n := len(ops); n > 0 && ops[n-1].kind == txLit && strings.HasSuffix(ops[n-1].lit, s) {
					last := *ops[n-1]
					last.lit = strings.TrimSuffix(last.lit, s)
					return append(append([]*tx{}, ops[:n-1]...), &last)
				}
			}
		case "strings.TrimPrefix":
			if s, ok := t.args[1].strConst(); ok {
				ops := w.expand(st, t.args[0], pos)
				if len(ops) > 0 && ops[0].kind == txLit && strings.HasPrefix(ops[0].lit, s) {
					first := *ops[0]
					first.lit = strings.TrimPrefix(first.lit, s)
					return append([]*tx{&first}, ops[1:]...)
				}
			}
		case "strings.ReplaceAll", "strings.Replace":
			if t.aux == "strings.Replace" {
				if n, ok := t.args[3].intConst(); !ok || n >= 0 {
					break
				}
			}
			from, ok1 := t.args[1].strConst()
			to, ok2 := t.args[2].strConst()
			if ok1 && ok2 && len(from) == 1 {
				if ops, ok := mapChars(w.expand(st, t.args[0], pos), map[byte]string{from[0]: to}, t); ok {
					return ops
				}
			}
		case "(*strings.Replacer).Replace":
			if m, ok := w.replacer(st, t.args[0]); ok {
				if ops, ok := mapChars(w.expand(st, t.args[1], pos), m, t); ok {
					return ops
				}
			}
		}
		if evs, ok := w.written(st, t); ok {
			return evs
		}
	}
	if seq, _, ok := elemOfSeq(t); ok {
		for seq.op == OSlice {
			seq = st.facts.subst(seq.args[0])
		}
		if text, sep, max, ok := splitCall(st.facts.subst(seq)); ok && max < 0 && sep == "\n" {
			ops := w.expand(st, text, pos)
			if len(ops) == 1 && ops[0].kind == txLeaf && ops[0].image('\n') == "\n" && onlyNL(ops[0].images) {
				l := *ops[0]
				l.noNL = true
				l.forms = []*Term{t}
				return []*tx{&l}
			}
		}
	}
	return leaf()
}

// onlyNL: no other character becomes a newline
func onlyNL(m map[byte]string) bool {
	for c, s := range m {
		if c != '\n' && strings.Contains(s, "\n") {
			return false
		}
	}
	return true
}

// replacer explains strings.NewReplacer of single characters
func (w *textOf) replacer(st *State, t *Term) (map[byte]string, bool) {
	t = st.facts.subst(t)
	if t.op == OLoad && t.args[0].op == OGlobal {
		if g, ok := t.args[0].obj.(*ssa.Global); ok {
			return globalReplacer(w.c.p, g)
		}
	}
	if t.op != OCall || t.aux != "strings.NewReplacer" {
		return nil, false
	}
	args := t.args
	if len(args) == 1 && !isString(args[0].typ) {
		es, ok := w.x.elems(st, args[0])
		if !ok {
			return nil, false
		}
		args = es
	}
	m := map[byte]string{}
	for i := 0; i+1 < len(args); i += 2 {
		a, ok1 := args[i].strConst()
		b, ok2 := args[i+1].strConst()
		if !ok1 || !ok2 || len(a) != 1 {
			return nil, false
		}
		if _, dup := m[a[0]]; !dup {
			m[a[0]] = b
		}
	}
	return m, true
}

// globalReplacer explains a package variable that is only assigned strings.NewReplacer of constants
func globalReplacer(p *Program, g *ssa.Global) (map[byte]string, bool) {
	var val ssa.Value
	n := 0
	look := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					n++
					val = s.Val
					continue
				}
				if u, ok := in.(*ssa.UnOp); ok && u.X == g {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == g {
						n += 2
					}
				}
			}
		}
	}
	for _, f := range p.funcs {
		look(f)
	}
	if f := g.Pkg.Func("init"); f != nil && n == 0 {
		look(f)
	}
	call, ok := val.(*ssa.Call)
	if !ok || n != 1 || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "strings.NewReplacer" {
		return nil, false
	}
	sl, ok := call.Call.Args[0].(*ssa.Slice)
	if !ok {
		return nil, false
	}
	vals := map[int64]string{}
	refs := sl.X.Referrers()
	if refs == nil {
		return nil, false
	}
	for _, r := range *refs {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, q := range *ia.Referrers() {
			if s, ok := q.(*ssa.Store); ok {
				k, ok := s.Val.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					return nil, false
				}
				vals[i.Int64()] = constant.StringVal(k.Value)
			}
		}
	}
	m := map[byte]string{}
	for i := 0; i+1 < len(vals); i += 2 {
		a := vals[int64(i)]
		if len(a) != 1 {
			return nil, false
		}
		if _, dup := m[a[0]]; !dup {
			m[a[0]] = vals[int64(i+1)]
		}
	}
	return m, len(vals) > 0 && len(vals)%2 == 0
}

func (w *textOf) joined(id int, segs []listSeg, sep []*tx, pos token.Pos) []*tx {
	var r []*tx
	for _, s := range segs {
		if s.rec == nil {
			if len(sep) > 0 {
				r = append(r, &tx{kind: txSep, id: id, alts: [][]*tx{sep}})
			}
			r = append(r, w.expand(s.st, s.t, pos)...)
			continue
		}
		l := &tx{kind: txLoop, rec: s.rec, out: s.st, pos: s.rec.pos}
		for _, alt := range s.alts {
			l.alts = append(l.alts, w.joined(id, alt, sep, pos))
		}
		r = append(r, l)
	}
	return r
}

// written explains what a buffer holds when it is read
func (w *textOf) written(st *State, t *Term) ([]*tx, bool) {
	var read *Event
	for e := st.ev; e != nil; e = e.prev {
		if e.kind == "bufread" && len(e.res) == 1 && e.res[0] == t {
			read = e
			break
		}
	}
	if read == nil {
		return nil, false
	}
	at := &State{facts: st.facts, mem: read.mem, ev: read.prev}
	ops, ok := w.writesTo(at, nil, read.args[0])
	return ops, ok
}

// fileWrite recognises a write to a file or buffered writer
func fileWrite(e *Event) (dst, text *Term) {
	switch e.name {
	case "(*os.File).WriteString", "(*os.File).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).Write":
		return e.args[0], e.args[1]
	case "io.WriteString":
		if e.args[0].op == OIface {
			return e.args[0].args[0], e.args[1]
		}
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		if e.args[0].op == OIface && len(e.text) == 1 {
			return e.args[0].args[0], e.text[0]
		}
	}
	return nil, nil
}

// writesTo lists what a state's events wrote to a buffer
func (w *textOf) writesTo(st *State, since *Event, buf *Term) ([]*tx, bool) {
	var r []*tx
	ok := true
	for _, e := range st.events(since) {
		switch e.kind {
		case "write":
			if e.args[0] == buf {
				at := &State{facts: st.facts, mem: e.mem, ev: e.prev}
				r = append(r, w.expand(at, e.args[1], e.pos)...)
			}
		case "call":
			dst, text := fileWrite(e)
			if dst != nil && (dst == buf || w.through[dst] == buf) {
				at := &State{facts: st.facts, mem: e.mem, ev: e.prev}
				r = append(r, w.expand(at, text, e.pos)...)
				continue
			}
			if e.name == "bufio.NewWriter" || e.name == "bufio.NewWriterSize" {
				if d := e.args[0]; d.op == OIface && d.args[0] == buf {
					if w.through == nil {
						w.through = map[*Term]*Term{}
					}
					w.through[e.res[0]] = buf
				}
			}
		case "loop":
			l := &tx{kind: txLoop, rec: e.loop, out: st, pos: e.loop.pos}
			any := false
			for _, b := range e.loop.back {
				alt, ok1 := w.writesTo(b, e.loop.start.ev, buf)
				ok = ok && ok1
				any = any || len(alt) > 0
				l.alts = append(l.alts, alt)
			}
			if any {
				if c := w.charLoop(l); c != nil {
					r = append(r, c...)
				} else {
					r = append(r, l)
				}
			}
		default:
			for _, a := range e.args {
				if a == buf && e.kind != "bufread" {
					ok = false
				}
			}
		}
	}
	return r, ok
}

// charLoop explains a loop that writes something for every character of a text
func (w *textOf) charLoop(l *tx) []*tx {
	rec := l.rec
	var text, char *Term
	scanIdx := func(i *Term) bool {
		for _, sc := range scans(rec) {
			if k, ok := sc.offset(i); ok && k+sc.init == 0 {
				return true
			}
		}
		return false
	}
	look := func(t *Term) {
		switch {
		case t.op == OCall && t.aux == "range rune" && text == nil:
			text, char = t.args[0], t
		case t.op == OIndex && t.args[0].typ != nil && isString(t.args[0].typ) && text == nil && scanIdx(t.args[1]):
			text, char = t.args[0], t
		}
	}
	for i, b := range rec.back {
		b.facts.atoms(func(t *Term) { t.walk(look) })
		for _, o := range l.alts[i] {
			if o.kind == txLeaf {
				o.t.walk(look)
			}
		}
	}
	if text == nil {
		return nil
	}
	// to the end of the text
	whole := false
	for t, v := range l.out.facts.lits {
		if v && t.op == OCall && t.aux == "range end" && t.args[0] == text {
			whole = true
		}
	}
	for _, sc := range scans(rec) {
		if l.out.facts.entails(linSub(linAdd(linOf(sc.sym()), linConst(-sc.init)), linOf(mkLen(text)))) {
			whole = true
		}
	}
	if !whole {
		return nil
	}
	isChar := func(t *Term) bool {
		for t.op == OConv {
			t = t.args[0]
		}
		return t == char
	}
	images := map[byte]string{}
	for ch := byte(0); ch < 128; ch++ {
		var img string
		n := 0
		for i, b := range rec.back {
			f, ok := b.facts.assume(mkEq0(linAdd(linOf(char), linConst(-int64(ch)))), true)
			if !ok {
				continue
			}
			s := ""
			for _, o := range l.alts[i] {
				switch {
				case o.kind == txLit:
					s += o.lit
				case o.kind == txLeaf && isChar(f.subst(o.t)):
					s += string(rune(ch))
				case o.kind == txLeaf:
					if k, isc := f.subst(o.t).strConst(); isc {
						s += k
					} else if o.t.op == OConv && o.t.aux == "char" {
						if k, isc := f.subst(o.t.args[0]).intConst(); isc {
							s += string(rune(k))
							continue
						}
						return nil
					} else {
						return nil
					}
				default:
					return nil
				}
			}
			if n > 0 && s != img {
				return nil
			}
			img = s
			n++
		}
		if n == 0 {
			return nil
		}
		if img != string(rune(ch)) {
			images[ch] = img
		}
	}
	// other characters must be kept: checked with one that the code cannot name
	for i, b := range rec.back {
		f, ok := b.facts.assume(mkGe0(linAdd(linOf(char), linConst(-128))), true)
		if !ok {
			continue
		}
		if len(l.alts[i]) != 1 || l.alts[i][0].kind != txLeaf || !isChar(f.subst(l.alts[i][0].t)) {
			return nil
		}
	}
	ops, ok := mapChars(w.expand(l.out, text, l.pos), images, text)
	if !ok {
		return nil
	}
	return ops
}

func (l *tx) image(c byte) string {
	if s, ok := l.images[c]; ok {
		return s
	}
	return string([]byte{c})
}

// mapChars replaces characters in a text; form is the resulting text
func mapChars(ops []*tx, m map[byte]string, form *Term) ([]*tx, bool) {
	var r []*tx
	for _, o := range ops {
		n := *o
		switch o.kind {
		case txLit:
			var sb strings.Builder
			for i := 0; i < len(o.lit); i++ {
				if s, ok := m[o.lit[i]]; ok {
					sb.WriteString(s)
				} else {
					sb.WriteByte(o.lit[i])
				}
			}
			n.lit = sb.String()
		case txLeaf:
			n.images = map[byte]string{}
			sub := func(s string) string {
				var sb strings.Builder
				for i := 0; i < len(s); i++ {
					if u, ok := m[s[i]]; ok {
						sb.WriteString(u)
					} else {
						sb.WriteByte(s[i])
					}
				}
				return sb.String()
			}
			for c, s := range o.images {
				n.images[c] = sub(s)
			}
			for c, s := range m {
				if _, ok := o.images[c]; !ok {
					n.images[c] = s
				}
			}
			if n.image('\n') == "\n" && onlyNL(n.images) && len(ops) == 1 {
				n.forms = append(append([]*Term{}, o.forms...), form)
			} else {
				n.forms = o.forms
			}
		default:
			return nil, false
		}
		r = append(r, &n)
	}
	return r, true
}

// withoutNL: the facts say that a text has no newline
func withoutNL(f *Facts, forms []*Term) bool {
	isForm := func(t *Term) bool {
		for _, x := range forms {
			if equal(f, t, x) {
				return true
			}
		}
		return false
	}
	r := false
	f.atoms(func(t *Term) {
		if r || t.op != OCall || len(t.args) != 2 || sepOf(t.args[1]) != "\n" || !isForm(t.args[0]) {
			return
		}
		switch t.aux {
		case "strings.Count":
			r = f.eval(mkEq0(linOf(t))) == 1 || f.eval(mkGe0(linAdd(linOf(t), linConst(-1)))) == 0
		case "strings.Contains":
			r = f.eval(t) == 0
		case "strings.Index", "strings.IndexByte", "strings.IndexRune":
			r = f.eval(mkGe0(linOf(t))) == 0
		}
	})
	return r
}

// ---- the lexer

// states: start of a line; in a comment; in the keyword part of a line; in a string; after a
// backslash in a string; after a string
const (
	poStart   = 'L'
	poComment = 'C'
	poBare    = 'B'
	poString  = 'Q'
	poEscape  = 'E'
	poAfterQ  = 'A'
)

// poPiece is a part of a text that was read: constant, unknown text or a loop
type poPiece struct {
	lit  string
	leaf *tx
	loop *tx
}

// poStmt is a comment, or a keyword with its string
type poStmt struct {
	comment bool
	kw      []poPiece
	text    []poPiece
	loop    *tx // statements of a loop
	pos     token.Pos
}

// poText is the reader's state after a text
type poText struct {
	state byte
	first map[int]bool // joins that have no element yet
	open  bool         // the first part continues what precedes the text
	ext   []poPiece    // continuing the string before the text
	out   []*poStmt
	// the string that is being read
	esc bool
}

func (p *poText) clone() *poText {
	n := *p
	n.first = map[int]bool{}
	for k, v := range p.first {
		n.first[k] = v
	}
	n.ext = append([]poPiece{}, p.ext...)
	n.out = nil
	for _, s := range p.out {
		c := *s
		c.kw = append([]poPiece{}, s.kw...)
		c.text = append([]poPiece{}, s.text...)
		n.out = append(n.out, &c)
	}
	return &n
}

func (p *poText) key() string {
	var ks []string
	for k, v := range p.first {
		if v {
			ks = append(ks, fmt.Sprint(k))
		}
	}
	sort.Strings(ks)
	return string(p.state) + strings.Join(ks, ",")
}

func addPiece(ps []poPiece, q poPiece) []poPiece {
	if q.leaf == nil && q.loop == nil {
		if n := len(ps); n > 0 && ps[n-1].leaf == nil && ps[n-1].loop == nil {
			r := append([]poPiece{}, ps[:n-1]...)
			return append(r, poPiece{lit: ps[n-1].lit + q.lit})
		}
	}
	return append(ps, q)
}

// content adds to the string being read
func (p *poText) content(q poPiece) {
	if len(p.out) == 0 {
		p.ext = addPiece(p.ext, q)
		return
	}
	s := p.out[len(p.out)-1]
	s.text = addPiece(s.text, q)
}

func (p *poText) keyword(q poPiece) {
	if len(p.out) == 0 {
		p.out = append(p.out, &poStmt{})
	}
	s := p.out[len(p.out)-1]
	s.kw = addPiece(s.kw, q)
}

type poLexer struct {
	c      *Ctx
	fn     string
	escs   func(t *Term) (*Term, bool) // results of functions that make any text fit into a string
	errs   map[string]bool
	quoted func(t *Term) bool // values that are strings with their quotes
	steps  int
	silent bool
}

func (l *poLexer) err(pos token.Pos, format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	if k := fmt.Sprint(pos) + s; !l.errs[k] {
		l.errs[k] = true
		if l.silent {
			return
		}
		l.c.fail("quoted", l.fn, pos, "%s", s)
	}
}

// char reads one constant character
func (l *poLexer) char(p *poText, c byte, pos token.Pos) {
	switch p.state {
	case poStart:
		switch c {
		case '\n', ' ', '\t':
		case '#':
			p.out = append(p.out, &poStmt{comment: true, pos: pos})
			p.content(poPiece{lit: "#"})
			p.state = poComment
		case '"':
			p.state = poString
		default:
			p.out = append(p.out, &poStmt{pos: pos})
			p.keyword(poPiece{lit: string([]byte{c})})
			p.state = poBare
		}
	case poComment:
		if c == '\n' {
			p.state = poStart
			return
		}
		p.content(poPiece{lit: string([]byte{c})})
	case poBare:
		switch c {
		case '\n':
			l.err(pos, "a line ends before its string begins")
			p.state = poStart
		case '"':
			p.state = poString
		default:
			p.keyword(poPiece{lit: string([]byte{c})})
		}
	case poString:
		switch c {
		case '"':
			p.state = poAfterQ
		case '\\':
			p.state = poEscape
		case '\n':
			l.err(pos, "a string goes over the end of its line")
			p.state = poStart
		default:
			p.content(poPiece{lit: string([]byte{c})})
		}
	case poEscape:
		ch := c
		switch c {
		case 'n':
			ch = '\n'
		case 't':
			ch = '\t'
		case '"', '\\':
		default:
			l.err(pos, "a backslash before %q", string([]byte{c}))
		}
		p.content(poPiece{lit: string([]byte{ch})})
		p.state = poString
	case poAfterQ:
		switch c {
		case '\n':
			p.state = poStart
		case ' ', '\t':
		default:
			l.err(pos, "%q follows the end of a string on its line", string([]byte{c}))
		}
	}
}

// leaf reads unknown text
func (l *poLexer) leaf(p *poText, o *tx) {
	what := trunc(o.t.String(), 160)
	switch p.state {
	case poString:
		if inner, ok := l.escs(o.t); ok && len(o.images) == 0 {
			q := *o
			q.t = inner
			p.content(poPiece{leaf: &q})
			l.c.count("escaped_pieces", 1)
			return
		}
		if isNumber(o.t) {
			p.content(poPiece{leaf: o})
			return
		}
		bad := ""
		for _, c := range []byte{'"', '\\', '\n'} {
			if c == '\n' && (o.noNL || withoutNL(o.f, o.forms)) {
				continue
			}
			if !l.reads(o.image(c), c) {
				bad += fmt.Sprintf(" %q is written as %q;", string([]byte{c}), o.image(c))
			}
		}
		for c, s := range o.images {
			if c == '"' || c == '\\' || c == '\n' {
				continue
			}
			if !l.reads(s, c) {
				bad += fmt.Sprintf(" %q is written as %q;", string([]byte{c}), s)
			}
		}
		if bad != "" {
			l.err(o.pos, "%s is written inside quotes without being escaped:%s when %s", what, bad, trunc(o.f.describe(), 200))
		}
		l.c.count("escaped_pieces", 1)
		q := *o
		q.images = nil
		p.content(poPiece{leaf: &q})
	case poComment:
		p.content(poPiece{leaf: o})
	case poStart:
		// the comments that precede the header
		if seq, ok := commentLines(o.t); ok {
			p.out = append(p.out, &poStmt{comment: true, pos: o.pos})
			q := &tx{kind: txLeaf, t: o.t, f: o.f, pos: o.pos}
			if o.t.op == OCall {
				q.t = seq
			}
			p.content(poPiece{leaf: q})
			p.state = poComment
			return
		}
		l.err(o.pos, "%s is written at the beginning of a line, outside quotes", what)
	case poBare:
		if l.quoted != nil && l.quoted(o.t) {
			p.content(poPiece{leaf: o})
			p.state = poAfterQ
			return
		}
		t := o.t
		if inner, ok := l.escs(t); ok {
			t = inner
		}
		if !isNumber(t) {
			l.err(o.pos, "%s is written outside quotes", what)
		}
		q := *o
		q.t = t
		p.keyword(poPiece{leaf: &q})
	case poEscape:
		l.err(o.pos, "%s is written after a backslash", what)
		p.state = poString
	case poAfterQ:
		l.err(o.pos, "%s is written after the end of a string", what)
	}
}

// reads: inside quotes, the text s is read as the character c
func (l *poLexer) reads(s string, c byte) bool {
	q := &poText{state: poString, first: map[int]bool{}, out: []*poStmt{{}}}
	m := &poLexer{c: l.c, fn: l.fn, escs: l.escs, errs: map[string]bool{}, silent: true}
	for i := 0; i < len(s); i++ {
		m.char(q, s[i], token.NoPos)
	}
	return len(m.errs) == 0 && q.state == poString && len(q.out) == 1 && len(q.out[0].text) == 1 && q.out[0].text[0].lit == string([]byte{c})
}

func isNumber(t *Term) bool {
	return t.op == OCall && (t.aux == "strconv.Itoa" || t.aux == "strconv.FormatInt")
}

// commentLines recognises the header comments, which were comment lines when they were read
func commentLines(t *Term) (*Term, bool) {
	s := t
	if t.op == OCall && t.aux == "strings.Join" {
		if sep, ok := t.args[1].strConst(); !ok || sep != "\n" {
			return nil, false
		}
		s = t.args[0]
	} else if seq, _, ok := elemOfSeq(t); ok {
		s = seq
	}
	if s.op == OLoad && s.args[0].op == OFieldAddr && strings.HasSuffix(s.args[0].String(), ".headerComments") {
		return s, true
	}
	return nil, false
}

// run reads a text
func (l *poLexer) run(p *poText, ops []*tx) []*poText {
	ps := []*poText{p}
	for _, o := range ops {
		var next []*poText
		for _, q := range ps {
			next = append(next, l.step(q, o)...)
		}
		ps = next
		l.steps++
		if len(ps) > 256 || l.steps > 200000 {
			l.err(o.pos, "the text cannot be followed")
			return nil
		}
	}
	return ps
}

func (l *poLexer) step(p *poText, o *tx) []*poText {
	switch o.kind {
	case txLit:
		for i := 0; i < len(o.lit); i++ {
			l.char(p, o.lit[i], o.pos)
		}
	case txLeaf:
		l.leaf(p, o)
	case txBegin:
		p.first[o.id] = true
	case txSep:
		if p.first[o.id] {
			p.first[o.id] = false
			return []*poText{p}
		}
		return l.run(p, o.alts[0])
	case txLoop:
		return l.loop(p, o)
	}
	return []*poText{p}
}

// loop reads what a loop writes: any sequence of iterations that its index allows
func (l *poLexer) loop(p *poText, o *tx) []*poText {
	type node struct {
		prev int // the alternative before, -1: none
		p    *poText
	}
	o.seen = map[int][]*poText{}
	exits := map[string]*poText{}
	var order []string
	leave := func(q *poText) {
		if _, ok := exits[q.key()]; !ok {
			exits[q.key()] = q
			order = append(order, q.key())
		}
	}
	fl := newFollower(o)
	begin := &poText{state: p.state, first: p.clone().first, open: true}
	work := []node{{-1, begin}}
	done := map[string]bool{}
	if fl.ends(-1) {
		leave(begin)
	}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		for k := range o.alts {
			if !fl.follows(n.prev, k) {
				continue
			}
			key := fmt.Sprintf("%d/%s", k, n.p.key())
			if done[key] {
				continue
			}
			done[key] = true
			q := &poText{state: n.p.state, first: n.p.clone().first, open: true}
			for _, r := range l.run(q, o.alts[k]) {
				o.seen[k] = append(o.seen[k], r.clone())
				if fl.ends(k) {
					leave(r)
				}
				work = append(work, node{k, r})
			}
		}
	}
	var res []*poText
	for _, key := range order {
		e := exits[key]
		q := p.clone()
		q.state = e.state
		for id, v := range e.first {
			q.first[id] = v
		}
		stmts := false
		for _, rs := range o.seen {
			for _, r := range rs {
				if len(r.out) > 0 {
					stmts = true
				}
			}
		}
		if stmts {
			q.out = append(q.out, &poStmt{loop: o, pos: o.pos})
		} else {
			q.content(poPiece{loop: o})
		}
		res = append(res, q)
	}
	return res
}

// follower decides which iteration can come after which, from what they know about the index
type follower struct {
	o  *tx
	sc []scan
}

func newFollower(o *tx) *follower { return &follower{o, scans(o.rec)} }

// shifted states the facts about the index of an iteration d steps later
// (all: those that do not mention it, too)
func (fl *follower) shifted(f *Facts, sc scan, all bool, by func(i *Term) *Term) []*Term {
	var r []*Term
	entry := map[*Term]bool{}
	fl.o.rec.entry.facts.atoms(func(t *Term) { entry[t] = true })
	okVar := func(t *Term) bool {
		if t == sc.sym() || entry[t] {
			return true
		}
		for _, s := range fl.o.rec.sym {
			if t.contains(s) {
				return false
			}
		}
		loads := false
		t.walk(func(u *Term) {
			// what the memory held from the beginning stays
			if u.op == OLoad && u.aux != "0" || u.op == OMapGet {
				loads = true
			}
		})
		return !loads
	}
	conv := func(l *Lin) *Lin {
		n := &Lin{c: l.c}
		has := false
		for _, v := range l.vs {
			if !okVar(v.t) {
				return nil
			}
			if v.t == sc.sym() {
				has = true
				n = linComb(n, 1, linOf(by(v.t)), v.k)
			} else {
				n = linComb(n, 1, linOf(v.t), v.k)
			}
		}
		if !has && !all {
			return nil
		}
		return n
	}
	for _, l := range f.lin {
		if n := conv(l); n != nil {
			r = append(r, mkGe0(n))
		}
	}
	for _, l := range f.neq {
		if n := conv(l); n != nil {
			r = append(r, mkNot(mkEq0(n)))
		}
	}
	return r
}

func (fl *follower) possible(f *Facts, cs []*Term) bool {
	if f = textFacts(f); f == nil {
		return false
	}
	for _, c := range cs {
		g, ok := f.assume(c, true)
		if !ok {
			return false
		}
		f = g
	}
	return true
}

func (fl *follower) follows(prev, k int) bool {
	for _, sc := range fl.sc {
		b := fl.o.rec.back[k]
		if prev < 0 {
			if !fl.possible(fl.o.rec.entry.facts, fl.shifted(b.facts, sc, false, func(*Term) *Term { return mkInt(sc.init) })) {
				return false
			}
			continue
		}
		if !fl.possible(fl.o.rec.back[prev].facts, fl.shifted(b.facts, sc, false, func(i *Term) *Term { return mkLin(linAdd(linOf(i), linConst(1))) })) {
			return false
		}
	}
	return true
}

func (fl *follower) ends(k int) bool {
	for _, sc := range fl.sc {
		if k < 0 {
			if !fl.possible(fl.o.rec.entry.facts, fl.shifted(fl.o.out.facts, sc, true, func(*Term) *Term { return mkInt(sc.init) })) {
				return false
			}
			continue
		}
		if !fl.possible(fl.o.rec.back[k].facts, fl.shifted(fl.o.out.facts, sc, true, func(i *Term) *Term { return mkLin(linAdd(linOf(i), linConst(1))) })) {
			return false
		}
	}
	return true
}

var _ = types.Typ
