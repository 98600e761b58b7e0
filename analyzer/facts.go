package main

import (
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// Facts is a conjunction: boolean atoms with their truth value, constants that terms are
// known to equal, linear inequalities (each >= 0) and disequalities (each != 0).
type Facts struct {
	lits map[*Term]bool
	cst  map[*Term]*Term
	lin  []*Lin
	neq  []*Lin
	keys map[string]bool // of lin
}

func newFacts() *Facts {
	return &Facts{lits: map[*Term]bool{}, cst: map[*Term]*Term{}, keys: map[string]bool{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{lits: make(map[*Term]bool, len(f.lits)+2), cst: make(map[*Term]*Term, len(f.cst)+1), keys: make(map[string]bool, len(f.keys)+2)}
	for k, v := range f.lits {
		g.lits[k] = v
	}
	for k, v := range f.cst {
		g.cst[k] = v
	}
	for k := range f.keys {
		g.keys[k] = true
	}
	g.lin = append(make([]*Lin, 0, len(f.lin)+2), f.lin...)
	g.neq = append(make([]*Lin, 0, len(f.neq)+1), f.neq...)
	return g
}

// ---- axioms about integer atoms

type bound struct {
	lo, hi       int64
	hasLo, hasHi bool
}

func typeRange(t types.Type) (b bound) {
	if t == nil {
		return
	}
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		return
	}
	switch u.Kind() {
	case types.Uint8:
		return bound{0, 255, true, true}
	case types.Uint16:
		return bound{0, 65535, true, true}
	case types.Uint32:
		return bound{0, 1<<32 - 1, true, true}
	case types.Uint64, types.Uint, types.Uintptr:
		return bound{0, 0, true, false}
	case types.Int8:
		return bound{-128, 127, true, true}
	case types.Int16:
		return bound{-32768, 32767, true, true}
	case types.Int32:
		return bound{-1 << 31, 1<<31 - 1, true, true}
	}
	return
}

// axioms returns linear facts that hold of an integer atom wherever it occurs
// lowerBound tells what the invariants of the analysed program say of a number
var lowerBound func(t *Term) (int64, bool)

func axioms(t *Term) []*Lin {
	var r []*Lin
	v := linOf(t)
	ge := func(l *Lin) { r = append(r, l) }
	switch t.op {
	case OLen:
		ge(v)
		if s := t.args[0]; s.op == OLoad && s.args[0].op == OGlobal && s.args[0].String() == "&os.Args" {
			ge(linSub(v, linConst(1))) // the program's name
		}
		ge(linSub(linConst(1<<46), v)) // no object is that long
	case OCap:
		ge(linSub(v, linOf(mkLen(t.args[0]))))
		ge(v)
	default:
		b := typeRange(t.typ)
		if b.hasLo {
			ge(linSub(v, linConst(b.lo)))
		}
		if b.hasHi {
			ge(linSub(linConst(b.hi), v))
		}
	}
	if lowerBound != nil {
		if b, ok := lowerBound(t); ok {
			ge(linSub(v, linConst(b)))
		}
	}
	if t.op == OCall {
		switch t.aux {
		case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte", "strings.IndexAny", "bytes.Index", "bytes.IndexByte", "bytes.LastIndex", "strings.IndexFunc", "bytes.IndexRune":
			ge(linAdd(v, linConst(1)))
			n := linConst(1)
			if t.aux == "strings.Index" || t.aux == "strings.LastIndex" || t.aux == "bytes.Index" || t.aux == "bytes.LastIndex" {
				n = linOf(mkLen(t.args[1]))
				// i <= max(-1, len(s)-len(sub)): stated for i >= 0 in Facts.derive; here i <= len(s)
				ge(linSub(linOf(mkLen(t.args[0])), v))
			} else {
				ge(linSub(linSub(linOf(mkLen(t.args[0])), v), n)) // i <= len(s)-1
			}
		case "strings.Count":
			ge(v)
		}
	}
	if t.op == OLen && t.args[0].op == OLoad && t.args[0].args[0].op == OIndexAddr {
		// each match lists the whole match and its groups
		if c := t.args[0].args[0].args[0]; c.op == OCall && strings.HasPrefix(c.aux, "(*regexp.Regexp).FindAll") && strings.HasSuffix(c.aux, "Submatch") {
			n := int64(1)
			if re := c.args[0]; re.op == OCall && re.aux == "regexp.MustCompile" {
				if s, ok := re.args[0].strConst(); ok {
					if r, err := regexp.Compile(s); err == nil {
						n = int64(r.NumSubexp() + 1)
					}
				}
			}
			ge(linSub(v, linConst(n)))
		}
	}
	if t.op == OLen && t.args[0].op == OCall {
		c := t.args[0]
		switch c.aux {
		case "strings.Split", "bytes.Split":
			if s, ok := sepConst(c.args[1]); ok && s != "" {
				ge(linSub(v, linConst(1)))
			}
		case "strings.SplitN", "bytes.SplitN":
			if s, ok := sepConst(c.args[1]); ok && s != "" {
				if n, ok := c.args[2].intConst(); ok && n > 0 {
					ge(linSub(v, linConst(1)))
					ge(linSub(linConst(n), v))
				}
			}
		case "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "bytes.TrimSpace":
			ge(linSub(linOf(mkLen(c.args[0])), v))
		case "regexp.FindStringSubmatch", "regexp.FindAllStringSubmatchElem":
		}
	}
	return r
}

func sepConst(t *Term) (string, bool) {
	if s, ok := t.strConst(); ok {
		return s, true
	}
	if t.op == OConv {
		return sepConst(t.args[0])
	}
	return "", false
}

// ---- Fourier-Motzkin entailment

const maxFM = 600

// infeasible reports whether the inequalities (each >= 0) have no common rational solution
func infeasible(ls []*Lin) bool {
	cur := make([]*Lin, 0, len(ls))
	seen := map[string]bool{}
	add := func(l *Lin) bool { // returns true on contradiction
		if l.over {
			return false
		}
		l = l.normGe()
		if len(l.vs) == 0 {
			return l.c < 0
		}
		k := l.key()
		if !seen[k] {
			seen[k] = true
			cur = append(cur, l)
		}
		return false
	}
	for _, l := range ls {
		if add(l) {
			return true
		}
	}
	for {
		// choose the variable with the fewest products
		pos, neg := map[*Term]int{}, map[*Term]int{}
		var order []*Term
		for _, l := range cur {
			for _, v := range l.vs {
				if pos[v.t]+neg[v.t] == 0 {
					order = append(order, v.t)
				}
				if v.k > 0 {
					pos[v.t]++
				} else {
					neg[v.t]++
				}
			}
		}
		if len(order) == 0 {
			return false
		}
		var best *Term
		bc := 1 << 30
		for _, t := range order {
			c := pos[t]*neg[t] - pos[t] - neg[t]
			if c < bc {
				bc, best = c, t
			}
		}
		var ps, ns []*Lin
		old := cur
		cur = make([]*Lin, 0, len(old))
		seen = map[string]bool{}
		for _, l := range old {
			k := int64(0)
			for _, v := range l.vs {
				if v.t == best {
					k = v.k
				}
			}
			switch {
			case k > 0:
				ps = append(ps, l)
			case k < 0:
				ns = append(ns, l)
			default:
				add(l)
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				kp, kn := coef(p, best), -coef(n, best)
				if add(linComb(p, kn, n, kp)) {
					return true
				}
			}
		}
		if len(cur) > maxFM {
			return false
		}
	}
}

func coef(l *Lin, t *Term) int64 {
	for _, v := range l.vs {
		if v.t == t {
			return v.k
		}
	}
	return 0
}

// relevant collects the facts (and axioms) connected with the atoms of l
func (f *Facts) relevant(l *Lin) []*Lin {
	vars := map[*Term]bool{}
	var queue []*Term
	addVars := func(x *Lin) {
		for _, v := range x.vs {
			if !vars[v.t] {
				vars[v.t] = true
				queue = append(queue, v.t)
			}
		}
	}
	var out []*Lin
	used := make([]bool, len(f.lin))
	addVars(l)
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		for _, a := range f.axiomsOf(t) {
			out = append(out, a)
			addVars(a)
		}
		for i, x := range f.lin {
			if !used[i] && coef(x, t) != 0 {
				used[i] = true
				out = append(out, x)
				addVars(x)
			}
		}
	}
	return out
}

// axiomsOf adds to the context-free axioms those that depend on known facts
func (f *Facts) axiomsOf(t *Term) []*Lin {
	r := axioms(t)
	if t.op == OLen {
		x := t.args[0]
		if c, ok := f.cst[x]; ok {
			if s, ok := c.strConst(); ok {
				r = append(r, linSub(linOf(t), linConst(int64(len(s)))), linSub(linConst(int64(len(s))), linOf(t)))
			}
		}
	}
	return r
}

func (f *Facts) entails(l *Lin) bool {
	if l.over {
		return false
	}
	l = l.normGe()
	if len(l.vs) == 0 {
		return l.c >= 0
	}
	if f.keys[l.key()] {
		return true
	}
	ls := f.relevant(l)
	ls = append(ls, linAdd(linScale(l, -1), linConst(-1)))
	return infeasible(ls)
}

// ---- evaluation of conditions

// subst replaces a term by the constant it is known to equal
func (f *Facts) subst(t *Term) *Term {
	if c, ok := f.cst[t]; ok {
		return c
	}
	return t
}

// eval decides a boolean term: 1 true, 0 false, -1 unknown
func (f *Facts) eval(c *Term) int {
	if b, ok := c.boolConst(); ok {
		return b2i(b)
	}
	if v, ok := f.lits[c]; ok {
		return b2i(v)
	}
	if k, ok := f.cst[c]; ok {
		if b, ok := k.boolConst(); ok {
			return b2i(b)
		}
	}
	switch c.op {
	case ONeg:
		v := f.eval(c.args[0])
		if v >= 0 {
			return 1 - v
		}
	case OGe0:
		l := linOf(c.args[0])
		if f.entails(l) {
			return 1
		}
		if f.entails(linAdd(linScale(l, -1), linConst(-1))) {
			return 0
		}
	case OEq0:
		l := linOf(c.args[0])
		ge, le := f.entails(l), f.entails(linScale(l, -1))
		if ge && le {
			return 1
		}
		if f.isNeq(l) || f.entails(linAdd(l, linConst(-1))) || f.entails(linAdd(linScale(l, -1), linConst(-1))) {
			return 0
		}
	case OIsNil:
		return f.evalNil(c.args[0])
	case OEq:
		a, b := f.subst(c.args[0]), f.subst(c.args[1])
		if a != c.args[0] || b != c.args[1] {
			return f.eval(mkEq(a, b))
		}
		if bs, ok := b.strConst(); ok {
			la := linOf(mkLen(a))
			d := linSub(la, linConst(int64(len(bs))))
			if f.eval(mkEq0(d)) == 0 {
				return 0
			}
			if f.charMismatch(a, bs) {
				return 0
			}
			for lit, v := range f.lits {
				if lit.op == OCall && lit.aux == "strings.HasPrefix" && lit.args[0] == a {
					if p, ok := lit.args[1].strConst(); ok && strings.HasPrefix(bs, p) != v {
						return 0
					}
				}
			}
		}
		if distinct(a, b) {
			return 0
		}
	case OMapHas:
		m := c.args[0]
		if f.evalNil(m) == 1 {
			return 0
		}
		if mt, ok := m.typ.Underlying().(*types.Map); ok && valuesNonNil != nil {
			val := mk(OMapGet, mt.Elem(), c.aux, false, m, c.args[1])
			if v, ok := f.lits[mkIsNil(val)]; ok && v && valuesNonNil(val) {
				return 0
			}
		}
	case OCall:
		if c.aux == "strings.HasPrefix" || c.aux == "strings.HasSuffix" || c.aux == "strings.Contains" {
			a, b := f.subst(c.args[0]), f.subst(c.args[1])
			as, ok1 := a.strConst()
			bs, ok2 := b.strConst()
			if ok1 && ok2 {
				switch c.aux {
				case "strings.HasPrefix":
					return b2i(strings.HasPrefix(as, bs))
				case "strings.HasSuffix":
					return b2i(strings.HasSuffix(as, bs))
				}
				return b2i(strings.Contains(as, bs))
			}
			if ok2 && bs == "" {
				return 1
			}
			if ok2 && f.entails(linSub(linConst(int64(len(bs)-1)), linOf(mkLen(a)))) {
				return 0
			}
			if ok2 && c.aux == "strings.HasPrefix" {
				if f.charMismatch(a, bs) {
					return 0
				}
				known := ""
				for lit, v := range f.lits {
					if lit.op == OCall && lit.aux == "strings.HasPrefix" && lit.args[0] == a {
						p, ok := lit.args[1].strConst()
						if !ok {
							continue
						}
						if v {
							if len(p) > len(known) {
								known = p
							}
							if strings.HasPrefix(p, bs) {
								return 1
							}
							if !strings.HasPrefix(bs, p) {
								return 0
							}
						} else if strings.HasPrefix(bs, p) {
							return 0
						}
					}
				}
				// all characters known?
				if f.entails(linSub(linOf(mkLen(a)), linConst(int64(len(bs))))) {
					all := true
					for i := range bs {
						ch := mkIndex(a, mkInt(int64(i)), types.Typ[types.Uint8])
						d := linSub(linOf(ch), linConst(int64(bs[i])))
						if !(f.entails(d) && f.entails(linScale(d, -1))) {
							all = false
							break
						}
					}
					if all {
						return 1
					}
				}
			}
			if ok2 && c.aux == "strings.HasSuffix" && len(bs) == 1 {
				// the last character is known to differ?
			}
		}
	case OIsTyp:
		x := c.args[0]
		if x.op == OIface {
			return b2i(types.Identical(x.typ, c.typ))
		}
		if f.evalNil(x) == 1 {
			return 0
		}
		for lit, v := range f.lits {
			if v && lit.op == OIsTyp && lit.args[0] == x && lit != c {
				return 0
			}
		}
	}
	return -1
}

// prefixMismatch: a is known to begin differently from s
func (f *Facts) prefixMismatch(a *Term, s string) bool {
	for lit, v := range f.lits {
		if !v || lit.op != OCall || lit.aux != "strings.HasPrefix" || lit.args[0] != a {
			continue
		}
		if q, ok := lit.args[1].strConst(); ok {
			n := len(q)
			if len(s) < n {
				n = len(s)
			}
			if q[:n] != s[:n] {
				return true
			}
		}
	}
	return f.charMismatch(a, s)
}

func (f *Facts) charMismatch(a *Term, s string) bool {
	for i := 0; i < len(s) && i < 3; i++ {
		ch := mk(OIndex, types.Typ[types.Uint8], "", false, a, mkInt(int64(i)))
		if _, used := f.charUsed(ch); !used {
			continue
		}
		d := linSub(linOf(ch), linConst(int64(s[i])))
		if f.isNeq(d) || f.entails(linAdd(d, linConst(-1))) || f.entails(linAdd(linScale(d, -1), linConst(-1))) {
			return true
		}
	}
	return false
}

func (f *Facts) charUsed(ch *Term) (int, bool) {
	for _, l := range f.lin {
		if coef(l, ch) != 0 {
			return 0, true
		}
	}
	for _, l := range f.neq {
		if coef(l, ch) != 0 {
			return 0, true
		}
	}
	return 0, false
}

func (f *Facts) isNeq(l *Lin) bool {
	k1, k2 := l.key(), linScale(l, -1).key()
	for _, n := range f.neq {
		k := n.key()
		if k == k1 || k == k2 {
			return true
		}
	}
	return false
}

func (f *Facts) evalNil(x *Term) int {
	x = f.subst(x)
	c := mkIsNil(x)
	if b, ok := c.boolConst(); ok {
		return b2i(b)
	}
	if v, ok := f.lits[c]; ok {
		return b2i(v)
	}
	switch x.op {
	case OUnIface:
		if v, ok := f.lits[mkIsNil(x.args[0])]; ok && v {
			return 1
		}
	}
	if nonNilTerm != nil && nonNilTerm(f, x) {
		return 0
	}
	if x.op == OLoad && x.args[0].op == OGlobal {
		switch x.args[0].aux {
		case "flag.CommandLine", "os.Stdin", "os.Stdout", "os.Stderr":
			return 0
		}
	}
	if st, ok := x.typ, true; ok && st != nil {
		if _, isSl := st.Underlying().(*types.Slice); isSl {
			// a non-empty slice is not nil
			if f.entails(linSub(linOf(mkLen(x)), linConst(1))) {
				return 0
			}
		}
	}
	return -1
}

// valuesNonNil tells whether the map that a value comes from holds no nil values
var valuesNonNil func(get *Term) bool

// nonNilTerm tells whether the invariants of the analysed program make a term non-nil
var nonNilTerm func(f *Facts, x *Term) bool

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// assume adds a condition; ok is false when it contradicts what is known
func (f *Facts) assume(c *Term, v bool) (*Facts, bool) {
	for c.op == ONeg {
		c, v = c.args[0], !v
	}
	switch f.eval(c) {
	case b2i(v):
		return f, true
	case 1 - b2i(v):
		return f, false
	}
	g := f.clone()
	ok := g.add(c, v)
	return g, ok
}

func (g *Facts) addLin(l *Lin) bool {
	l = l.normGe()
	if l.over {
		return true
	}
	if len(l.vs) == 0 {
		return l.c >= 0
	}
	k := l.key()
	if g.keys[k] {
		return true
	}
	g.keys[k] = true
	g.lin = append(g.lin, l)
	// disequalities that have become strict
	for i := 0; i < len(g.neq); i++ {
		n := g.neq[i]
		shared := false
		for _, v := range n.vs {
			if coef(l, v.t) != 0 {
				shared = true
			}
		}
		if !shared {
			continue
		}
		if g.entails(n) {
			m := linAdd(n, linConst(-1)).normGe()
			if !g.keys[m.key()] {
				g.keys[m.key()] = true
				g.lin = append(g.lin, m)
				i = -1
			}
		} else if g.entails(linScale(n, -1)) {
			m := linAdd(linScale(n, -1), linConst(-1)).normGe()
			if !g.keys[m.key()] {
				g.keys[m.key()] = true
				g.lin = append(g.lin, m)
				i = -1
			}
		}
	}
	return true
}

// add records a condition that is neither known true nor known false
func (g *Facts) add(c *Term, v bool) bool {
	switch c.op {
	case OGe0:
		l := linOf(c.args[0])
		if !v {
			l = linAdd(linScale(l, -1), linConst(-1))
		}
		g.lits[c] = v
		if len(l.vs) == 1 && l.vs[0].k > 0 && l.c < 0 {
			// a positive number or length of a value in a map
			t := l.vs[0].t
			if t.op == OLen {
				t = t.args[0]
			}
			g.presence(t)
		}
		return g.addLin(l) && g.derive(l)
	case OEq0:
		l := linOf(c.args[0])
		g.lits[c] = v
		if v {
			if !g.addLin(l) || !g.addLin(linScale(l, -1)) {
				return false
			}
			if !g.derive(l) {
				return false
			}
			// an integer term with a constant value
			if len(l.vs) == 1 && (l.vs[0].k == 1 || l.vs[0].k == -1) {
				g.cst[l.vs[0].t] = mkInt(-l.c * l.vs[0].k)
				// an empty string
				if t := l.vs[0].t; t.op == OLen && l.c == 0 && isString(t.args[0].typ) {
					g.cst[t.args[0]] = mkStr("")
				}
			}
			return true
		}
		g.neq = append(g.neq, l)
		if g.entails(l) {
			if !g.addLin(linAdd(l, linConst(-1))) {
				return false
			}
		} else if g.entails(linScale(l, -1)) {
			if !g.addLin(linAdd(linScale(l, -1), linConst(-1))) {
				return false
			}
		}
		// a non-zero value or a non-empty string in a map means that the key is present
		if len(l.vs) == 1 {
			t := l.vs[0].t
			if t.op == OLen {
				t = t.args[0]
			}
			if l.c == 0 {
				g.presence(t)
			}
		}
		return g.derive(l)
	case OIsNil:
		g.lits[c] = v
		if v {
			x := c.args[0]
			g.cst[x] = mkNil(x.typ)
			g.addLin(linScale(linOf(mkLen(x)), -1))
			if x.op == OMapGet && valuesNonNil != nil && valuesNonNil(x) {
				if has := mk(OMapHas, types.Typ[types.Bool], x.aux, false, x.args[0], x.args[1]); g.eval(has) == -1 {
					g.lits[has] = false
				} else if g.lits[has] {
					return false
				}
			}
		} else {
			g.presence(c.args[0])
			if x := c.args[0]; x.op == OUnIface {
				g.lits[mkIsNil(x.args[0])] = false
			}
		}
		return true
	case OEq:
		g.lits[c] = v
		if v {
			a, b := c.args[0], c.args[1]
			if b.isConst() {
				g.cst[a] = b
				if s, ok := b.strConst(); ok {
					d := linSub(linOf(mkLen(a)), linConst(int64(len(s))))
					if !g.addLin(d) || !g.addLin(linScale(d, -1)) {
						return false
					}
				}
			} else if isString(a.typ) {
				d := linSub(linOf(mkLen(a)), linOf(mkLen(b)))
				g.addLin(d)
				g.addLin(linScale(d, -1))
			}
		}
		return true
	case OMapHas:
		g.lits[c] = v
		m, k := c.args[0], c.args[1]
		if v {
			if mt, ok := m.typ.Underlying().(*types.Map); ok && mt != nil {
				if g.evalNil(m) == 1 {
					return false
				}
				if _, ok := g.lits[mkIsNil(m)]; !ok {
					g.lits[mkIsNil(m)] = false
					g.presence(m)
				}
				ver := c.aux
				if ver == "0" {
					ver = ""
				}
				g.addLin(linSub(linOf(mk(OLen, types.Typ[types.Int], ver, false, m)), linConst(1)))
			}
		} else if mt, ok := m.typ.Underlying().(*types.Map); ok {
			val := mk(OMapGet, mt.Elem(), c.aux, false, m, k)
			z := zeroValue(mt.Elem())
			if z.isNil() && g.evalNil(val) == 0 {
				return false
			}
			g.cst[val] = z
			if z.isNil() {
				g.lits[mkIsNil(val)] = true
				g.addLin(linScale(linOf(mkLen(val)), -1))
			}
			if isString(mt.Elem()) {
				g.addLin(linScale(linOf(mkLen(val)), -1))
			}
			if isInteger(mt.Elem()) {
				g.addLin(linOf(val))
				g.addLin(linScale(linOf(val), -1))
			}
		}
		return true
	case OCall:
		g.lits[c] = v
		if v {
			switch c.aux {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.Contains", "bytes.HasPrefix", "bytes.HasSuffix":
				return g.addLin(linSub(linOf(mkLen(c.args[0])), linOf(mkLen(c.args[1]))))
			}
		}
		return true
	}
	g.lits[c] = v
	if isBool(c.typ) {
		g.cst[c] = mkBool(v)
		if v {
			g.presence(c)
		}
	}
	return true
}

// presence: a non-zero value looked up in a map implies that its key is present
func (g *Facts) presence(t *Term) {
	if t.op == OMapGet {
		has := mk(OMapHas, types.Typ[types.Bool], t.aux, false, t.args[0], t.args[1])
		if _, ok := g.lits[has]; !ok {
			g.add(has, true)
		}
	}
	if t.op == OField && t.args[0].op == OMapGet {
		g.presence(t.args[0])
	}
}

// derive adds consequences of a new linear fact for its atoms; false means contradiction
func (g *Facts) derive(l *Lin) bool {
	for _, v := range l.vs {
		t := v.t
		if t.op != OCall {
			continue
		}
		switch t.aux {
		case "strings.Index", "bytes.Index", "strings.LastIndex", "bytes.LastIndex":
			if g.entails(linOf(t)) { // found
				g.addLin(linSub(linSub(linOf(mkLen(t.args[0])), linOf(mkLen(t.args[1]))), linOf(t)))
			}
		}
	}
	// the whole conjunction around l must stay satisfiable
	ls := g.relevant(l)
	return !infeasible(ls)
}

// same reports whether two terms are known to be equal
func (f *Facts) same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	sa, sb := f.subst(a), f.subst(b)
	if sa == sb {
		return true
	}
	if isInteger(a.typ) && isInteger(b.typ) {
		return f.eval(mkEq(sa, sb)) == 1
	}
	if sa.op == sb.op && sa.aux == sb.aux && len(sa.args) == len(sb.args) && len(sa.args) > 0 && sa.op != OAlloc && sa.op != OSym && sa.op != OLin {
		for i := range sa.args {
			if !f.same(sa.args[i], sb.args[i]) {
				return false
			}
		}
		return typeKeyMatters(sa, sb)
	}
	if isBool(a.typ) && isBool(b.typ) && a.typ != nil {
		x, y := f.eval(a), f.eval(b)
		return x >= 0 && x == y
	}
	return f.eval(mkEq(sa, sb)) == 1
}

func typeKeyMatters(a, b *Term) bool {
	switch a.op {
	case OConv, OIface, OUnIface, OIsTyp:
		return a.typ != nil && b.typ != nil && types.Identical(a.typ, b.typ)
	}
	return true
}

// distinct reports whether two pointer-like terms can never be equal
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	ra, rb := a, b
	if ra.op == OAlloc && rb.op == OAlloc {
		return true
	}
	if ra.op == OAlloc && rb.seq < ra.seq {
		return true
	}
	if rb.op == OAlloc && ra.seq < rb.seq {
		return true
	}
	if a.op == OGlobal && (b.op == OGlobal || b.op == OAlloc) || b.op == OGlobal && a.op == OAlloc {
		return true
	}
	if a.op == OFieldAddr && b.op == OFieldAddr {
		if a.aux != b.aux && sameStruct(a.args[0].typ, b.args[0].typ) {
			return true
		}
		if a.aux == b.aux {
			return distinct(a.args[0], b.args[0])
		}
	}
	if (a.op == OFieldAddr || a.op == OIndexAddr) && b.op == OAlloc {
		return distinct(rootPtr(a), b) || !sameElem(a, b)
	}
	if (b.op == OFieldAddr || b.op == OIndexAddr) && a.op == OAlloc {
		return distinct(rootPtr(b), a) || !sameElem(a, b)
	}
	return false
}

func sameElem(a, b *Term) bool {
	pa, ok1 := a.typ.Underlying().(*types.Pointer)
	pb, ok2 := b.typ.Underlying().(*types.Pointer)
	return ok1 && ok2 && types.Identical(pa.Elem(), pb.Elem())
}

func sameStruct(a, b types.Type) bool { return types.Identical(a, b) }

func rootPtr(a *Term) *Term {
	for a.op == OFieldAddr || a.op == OIndexAddr {
		a = a.args[0]
	}
	return a
}

// describe prints the facts, for reports
func (f *Facts) describe() string {
	var ss []string
	for t, v := range f.lits {
		if v {
			ss = append(ss, t.String())
		} else {
			ss = append(ss, "!("+t.String()+")")
		}
	}
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}
