package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The plural-rule compiler: token lists of a given shape with arbitrary operands are compiled
// abstractly, and the resulting test is evaluated abstractly.

var cmpOps = []string{"==", "!=", "<", "<=", ">", ">="}

var allOps = append(append([]string{}, cmpOps...), "&&", "||", "%", "?", ":", "n", "(", ")")

type compiler struct {
	c        *Ctx
	compile  *ssa.Function // Compile
	expr     *ssa.Function // string -> Expression
	test     *ssa.Function // string -> test
	tokenize *ssa.Function // string -> []string
	bad      bool
}

// newCompiler finds the parts of the compiler by their types
func (c *Ctx) newCompiler() *compiler {
	k := &compiler{c: c}
	k.compile = c.need("plurals", "Compile")
	et := c.p.typ("plurals", "Expression")
	if k.compile == nil || et == nil {
		k.bad = true
		return k
	}
	reach := c.p.reachable([]*ssa.Function{k.compile})
	var exprs, tests, toks []*ssa.Function
	for _, f := range c.p.funcs {
		if !reach[f] || f == k.compile || f.Signature.Recv() != nil || f.Parent() != nil {
			continue
		}
		s := f.Signature
		if s.Params().Len() != 1 || !isString(s.Params().At(0).Type()) || !returnsError(f) || s.Results().Len() != 2 {
			continue
		}
		rt := s.Results().At(0).Type()
		switch {
		case types.Identical(rt, et):
			exprs = append(exprs, f)
		case isTestType(rt):
			tests = append(tests, f)
		case typeStr(rt) == "[]string":
			toks = append(toks, f)
		}
	}
	calls := func(f, g *ssa.Function) bool {
		for _, h := range c.p.callees[f] {
			if h == g {
				return true
			}
		}
		return false
	}
	// helpers of the same type are called by the function itself
	top := func(fs []*ssa.Function) *ssa.Function {
		for _, f := range fs {
			ok := true
			for _, g := range fs {
				ok = ok && (g == f || !calls(g, f))
			}
			if ok {
				return f
			}
		}
		if len(fs) > 0 {
			return fs[0]
		}
		return nil
	}
	k.tokenize = top(toks)
	using := func(fs []*ssa.Function) *ssa.Function {
		var us []*ssa.Function
		for _, f := range fs {
			if calls(f, k.tokenize) {
				us = append(us, f)
			}
		}
		if len(us) > 0 {
			fs = us
		}
		return top(fs)
	}
	k.expr, k.test = using(exprs), using(tests)
	if k.expr == nil || k.test == nil || k.tokenize == nil {
		c.fail("anchors", "plurals.Compile", k.compile.Pos(), "the compiler's functions (text to tokens, text to test, text to expression) are not recognised")
		k.bad = true
	}
	return k
}

// isTestType: an interface with one method from uint32 to bool
func isTestType(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 1 && methodShape(i.Method(0), types.Bool)
}

func methodShape(m *types.Func, kind types.BasicKind) bool {
	s := m.Type().(*types.Signature)
	if s.Params().Len() != 1 || s.Results().Len() != 1 {
		return false
	}
	b, ok := s.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == kind
}

// tokens builds a token list in a fresh array
func tokenList(st *State, toks []*Term) *Term {
	str := types.Typ[types.String]
	at := types.NewArray(str, int64(len(toks)))
	arr := mkAlloc("tokens", types.NewPointer(at))
	st.push(&Mem{kind: mAlloc, addr: arr})
	for i, t := range toks {
		st.store(mkIndexAddr(arr, mkInt(int64(i)), types.NewPointer(str)), t, str, token.NoPos, "")
	}
	return mkSlice(arr, mkInt(0), mkInt(int64(len(toks))), types.NewSlice(str))
}

// shape is a list of words: operators stand for themselves, other words are arbitrary operands
type shape struct {
	words []string
	toks  []*Term
}

func isOp(w string) bool {
	for _, o := range allOps {
		if o == w {
			return true
		}
	}
	return false
}

func (k *compiler) shape(words ...string) *shape {
	s := &shape{words: words}
	for _, w := range words {
		if isOp(w) {
			s.toks = append(s.toks, mkStr(w))
		} else {
			s.toks = append(s.toks, mkParam("tok "+w, types.Typ[types.String]))
		}
	}
	return s
}

func (s *shape) String() string { return strings.Join(s.words, " ") }

func (s *shape) text(lo, hi int) *Term {
	r := mkStr("")
	for i := lo; i < hi; i++ {
		r = mkConcat(r, s.toks[i])
	}
	return r
}

// run compiles a shape with f, which takes the text; the tokenizer yields the shape's tokens
func (k *compiler) run(f *ssa.Function, s *shape, setup func(x *Interp)) *run {
	arg := mkParam("text", types.Typ[types.String])
	x := newInterp(k.c.p)
	st := x.newState()
	for i, t := range s.toks {
		if isOp(s.words[i]) {
			continue
		}
		for _, o := range allOps {
			if g, ok := st.facts.assume(mkEq(t, mkStr(o)), false); ok {
				st.facts = g
			}
		}
	}
	list := tokenList(st, s.toks)
	return k.c.runWith(f, []*Term{arg}, st, func(x *Interp) {
		x.traceErr = true
		x.precise = false
		x.stub = func(g *ssa.Function, args []*Term) ([]*Term, bool) {
			if g == k.tokenize && args[0] == arg {
				return []*Term{list, mkNil(nil)}, true
			}
			return nil, false
		}
		x.pure = func(g *ssa.Function) bool { return g == k.test || g == k.expr }
		if setup != nil {
			setup(x)
		}
	})
}

// success outcomes: the error is nil
func (r *run) success(body func(o *Outcome, f *Facts)) int {
	n := 0
	for _, o := range r.outs {
		if f, ok := o.st.facts.assume(mkIsNil(o.res[len(o.res)-1]), true); ok {
			n++
			body(o, f)
		}
	}
	return n
}

// apply calls the only method of a compiled value
func (r *run) apply(o *Outcome, f *Facts, v, n *Term, want types.Type) []*Outcome {
	it := want.Underlying().(*types.Interface)
	m := it.Method(0)
	st := o.st.clone()
	st.facts = f
	v = f.subst(v)
	if v.op != OIface {
		res := mkCall("invoke "+m.Name(), 0, m.Type().(*types.Signature).Results().At(0).Type(), v, n)
		return []*Outcome{{st: st, res: []*Term{res}}}
	}
	g := r.x.method(v.typ, m)
	if g == nil {
		return nil
	}
	pure := r.x.pure
	r.x.pure = nil
	outs := r.x.live(r.x.call(g, []*Term{v.args[0], n}, nil, st))
	r.x.pure = pure
	return outs
}

var u32 = types.Typ[types.Uint32]

// number: the value is the number that the word stands for, read as a decimal
func (k *compiler) number(f *Facts, t, word *Term) bool {
	t = f.subst(t)
	for t.op == OConv && isInteger(t.typ) {
		t = t.args[0]
	}
	if t.op != OCall || strings.Contains(t.aux, "$") {
		return false
	}
	switch {
	case strings.HasPrefix(t.aux, "strconv.Atoi"):
		return equal(f, t.args[0], word)
	case strings.HasPrefix(t.aux, "strconv.ParseUint"), strings.HasPrefix(t.aux, "strconv.ParseInt"):
		b, ok := t.args[1].intConst()
		return ok && (b == 10 || b == 0) && equal(f, t.args[0], word)
	}
	return false
}

// atoms lists the integer values that a condition speaks of
func atoms(t *Term, add func(*Term)) {
	switch t.op {
	case OGe0, OEq0:
		l := linOf(t.args[0])
		for _, v := range l.vs {
			add(v.t)
		}
	case ONeg:
		for _, a := range t.args {
			atoms(a, add)
		}
	case OEq:
		for _, a := range t.args {
			add(a)
		}
	}
}

func checkOperators(c *Ctx) {
	c.parentheses()
	k := c.newCompiler()
	if k.bad {
		return
	}
	tt := k.test.Signature.Results().At(0).Type()
	et := k.expr.Signature.Results().At(0).Type()
	n := mkParam("n", u32)
	for _, op := range cmpOps {
		for _, sh := range []*shape{k.shape("n", op, "K"), k.shape("K", op, "n"), k.shape("n", "%", "M", op, "K"), k.shape("K", op, "n", "%", "M")} {
			k.comparison(tt, n, sh, op)
		}
	}
	for _, op := range []string{"&&", "||"} {
		lower := append([]string{}, cmpOps...)
		lower = append(lower, "%")
		if op == "||" {
			lower = append(lower, "&&")
		}
		shapes := [][]string{{"A", op, "B"}, {"A", op, "B", op, "C"}}
		for _, l := range lower {
			shapes = append(shapes, []string{"A", l, "B", op, "C", l, "D"}, []string{"A", op, "B", l, "C"}, []string{"A", l, "B", op, "C"})
			for _, l2 := range lower {
				if l2 != l {
					shapes = append(shapes, []string{"A", l, "B", op, "C", l2, "D"})
				}
			}
		}
		for _, w := range shapes {
			k.logic(tt, n, k.shape(w...), op)
		}
	}
	var tern [][]string
	tern = append(tern, []string{"A", "?", "B", ":", "C"}, []string{"A", "?", "B", ":", "C", "?", "D", ":", "E"},
		[]string{"A", "?", "B", ":", "C", "?", "D", ":", "E", "?", "F", ":", "G"}, []string{"n", "?", "B", ":", "C"})
	for _, l := range append(append([]string{}, cmpOps...), "%", "&&", "||") {
		tern = append(tern, []string{"A", l, "B", "?", "C", ":", "D"}, []string{"A", "?", "B", ":", "C", l, "D", "?", "E", ":", "F"})
	}
	for _, w := range tern {
		k.ternary(et, tt, n, k.shape(w...))
	}
	k.constant(et, n)
	k.top()
	c.atLeast("shapes", 90)
}

func (k *compiler) name(s *shape) string { return "rule '" + s.String() + "'" }

func (k *compiler) comparison(tt types.Type, n *Term, s *shape, op string) {
	c := k.c
	c.count("shapes", 1)
	r := k.run(k.test, s, nil)
	ki, mi := -1, -1
	left := true // the number to compare with n is the right operand
	for i, w := range s.words {
		if w == "K" {
			ki = i
		}
		if w == "M" {
			mi = i
		}
		if w == op && ki >= 0 {
			left = false
		}
	}
	ok := r.success(func(o *Outcome, f *Facts) {
		for _, e := range r.apply(o, f, o.res[0], n, tt) {
			c.count("evaluations", 1)
			res := e.res[0]
			g := e.st.facts
			// the operands that the result compares
			var x, v *Term
			alien := ""
			atoms(g.subst(res), func(t *Term) {
				switch {
				case t == n && mi < 0:
					x = t
				case k.number(g, t, s.toks[ki]):
					v = t
				case mi >= 0 && t.op == OBin && t.aux == "%" && t.args[0] == n && k.number(g, t.args[1], s.toks[mi]):
					x = t
				default:
					alien = t.String()
				}
			})
			if x == nil || v == nil {
				// the truth may have been decided by the path
				for _, t := range numbersIn(g) {
					switch {
					case t == n && mi < 0:
						x = t
					case k.number(g, t, s.toks[ki]):
						v = t
					case mi >= 0 && t.op == OBin && t.aux == "%" && t.args[0] == n && k.number(g, t.args[1], s.toks[mi]):
						x = t
					}
				}
			}
			if x == nil || v == nil {
				c.fail("operands", k.name(s), o.pos, "the test does not compare %s with %s (%s)", "n", s.toks[ki], trunc(res.String()+" "+alien, 160))
				continue
			}
			d := linSub(linOf(x), linOf(v))
			if !left {
				d = linScale(d, -1)
			}
			for _, rel := range []struct {
				name string
				cond *Term
				s    int
			}{{"less", mkNot(mkGe0(d)), -1}, {"equal", mkEq0(d), 0}, {"greater", mkGe0(linAdd(d, linConst(-1))), 1}} {
				h, ok := g.assume(rel.cond, true)
				if !ok {
					continue
				}
				want := cmpTruth(op, rel.s)
				if got := h.eval(res); got != b2i(want) {
					c.fail("comparison", k.name(s), o.pos, "yields %s when the left operand is %s (want %v)", truth(got), rel.name, want)
				}
			}
		}
	})
	if ok == 0 {
		c.fail("comparison", k.name(s), k.test.Pos(), "is never accepted")
	}
}

func truth(v int) string {
	switch v {
	case 1:
		return "true"
	case 0:
		return "false"
	}
	return "an undetermined value"
}

func cmpTruth(op string, s int) bool {
	switch op {
	case "==":
		return s == 0
	case "!=":
		return s != 0
	case "<":
		return s < 0
	case "<=":
		return s <= 0
	case ">":
		return s > 0
	}
	return s >= 0
}

// numbersIn lists the integer values that the facts speak of
func numbersIn(f *Facts) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if !seen[t] {
			seen[t] = true
			r = append(r, t)
		}
	}
	for _, l := range append(append([]*Lin{}, f.lin...), f.neq...) {
		for _, v := range l.vs {
			add(v.t)
		}
	}
	for t, c := range f.cst {
		if isInteger(t.typ) {
			add(t)
		}
		_ = c
	}
	sortTerms(r)
	return r
}

// logic: a split at one of the op tokens, evaluated as C does
func (k *compiler) logic(tt types.Type, n *Term, s *shape, op string) {
	c := k.c
	c.count("shapes", 1)
	r := k.run(k.test, s, nil)
	m := tt.Underlying().(*types.Interface).Method(0)
	sub := func(lo, hi int) *Term {
		t := mkCall(fname(k.test), 0, tt, s.text(lo, hi))
		return mkCall("invoke "+m.Name(), 0, types.Typ[types.Bool], t, n)
	}
	var at []int
	for i, w := range s.words {
		if w == op {
			at = append(at, i)
		}
	}
	ok := r.success(func(o *Outcome, f *Facts) {
		good := false
		why := ""
		for _, i := range at {
			a, b := sub(0, i), sub(i+1, len(s.words))
			fine := true
			for _, e := range r.apply(o, f, o.res[0], n, tt) {
				c.count("evaluations", 1)
				for v := 0; v < 4; v++ {
					g, ok := e.st.facts.assume(a, v&1 != 0)
					if !ok {
						continue
					}
					if g, ok = g.assume(b, v&2 != 0); !ok {
						continue
					}
					want := v == 3
					if op == "||" {
						want = v != 0
					}
					if got := g.eval(e.res[0]); got != b2i(want) {
						fine = false
						why = fmt.Sprintf("yields %s when the left operand is %v and the right one %v (%s)", truth(got), v&1 != 0, v&2 != 0, trunc(e.res[0].String(), 200))
					}
				}
			}
			if fine {
				good = true
			}
		}
		if !good {
			c.fail("logic", k.name(s), o.pos, "is not '%s' applied to the texts before and after it: %s", op, why)
		}
	})
	if ok == 0 {
		c.fail("logic", k.name(s), k.test.Pos(), "is never accepted")
	}
}

func (k *compiler) ternary(et, tt types.Type, n *Term, s *shape) {
	c := k.c
	c.count("shapes", 1)
	r := k.run(k.expr, s, nil)
	q, d := -1, -1
	for i, w := range s.words {
		if w == "?" && q < 0 {
			q = i
		}
		if w == ":" && d < 0 {
			d = i
		}
	}
	tm := tt.Underlying().(*types.Interface).Method(0)
	em := et.Underlying().(*types.Interface).Method(0)
	cond := mkCall("invoke "+tm.Name(), 0, types.Typ[types.Bool], mkCall(fname(k.test), 0, tt, s.text(0, q)), n)
	val := func(lo, hi int) *Term {
		return mkCall("invoke "+em.Name(), 0, types.Typ[types.Int], mkCall(fname(k.expr), 0, et, s.text(lo, hi)), n)
	}
	yes, no := val(q+1, d), val(d+1, len(s.words))
	ok := r.success(func(o *Outcome, f *Facts) {
		for _, e := range r.apply(o, f, o.res[0], n, et) {
			c.count("evaluations", 1)
			for _, v := range []bool{true, false} {
				g, ok := e.st.facts.assume(cond, v)
				if !ok {
					continue
				}
				want := no
				if v {
					want = yes
				}
				if !equal(g, e.res[0], want) {
					c.fail("ternary", k.name(s), o.pos, "yields %s when the test is %v", trunc(g.subst(e.res[0]).String(), 200), v)
				}
			}
		}
	})
	if ok == 0 {
		c.fail("ternary", k.name(s), k.expr.Pos(), "is never accepted")
	}
}

// constant: a number stands for itself
func (k *compiler) constant(et types.Type, n *Term) {
	c := k.c
	c.count("shapes", 1)
	s := k.shape("K")
	r := k.run(k.expr, s, nil)
	ok := r.success(func(o *Outcome, f *Facts) {
		for _, e := range r.apply(o, f, o.res[0], n, et) {
			c.count("evaluations", 1)
			if !k.number(e.st.facts, e.res[0], s.toks[0]) {
				c.fail("constant", k.name(s), o.pos, "yields %s", trunc(e.res[0].String(), 200))
			}
		}
	})
	if ok == 0 {
		c.fail("constant", k.name(s), k.expr.Pos(), "is never accepted")
	}
}

// top: Compile compiles the text itself; a bare test stands for (test) ? 1 : 0
func (k *compiler) top() {
	c := k.c
	et := k.expr.Signature.Results().At(0).Type()
	n := mkParam("n", u32)
	em := et.Underlying().(*types.Interface).Method(0)
	arg := mkParam("text", types.Typ[types.String])
	r := c.runWith(k.compile, []*Term{arg}, nil, func(x *Interp) {
		x.traceErr = true
		x.pure = func(g *ssa.Function) bool { return g == k.test || g == k.expr }
	})
	has := mkCall("strings.Contains", 0, types.Typ[types.Bool], arg, mkStr("?"))
	r.success(func(o *Outcome, f *Facts) {
		for _, e := range r.apply(o, f, o.res[0], n, et) {
			c.count("evaluations", 1)
			g := e.st.facts
			if g.eval(mkEq(arg, mkStr("0"))) == 1 {
				if v, ok := g.subst(e.res[0]).intConst(); !ok || v != 0 {
					c.fail("top", "plurals.Compile", o.pos, "the rule 0 yields %s", e.res[0])
				}
				continue
			}
			text := arg
			if g.eval(has) == 0 {
				text = mkConcat(arg, mkStr("?1:0"))
			} else if g.eval(has) < 0 {
				// decided in another way: both readings are tried
				c.count("undecided_text", 1)
			}
			want := mkCall("invoke "+em.Name(), 0, types.Typ[types.Int], mkCall(fname(k.expr), 0, et, text), n)
			got := g.subst(e.res[0])
			if equal(g, got, want) {
				continue
			}
			if got.op == OCall && len(got.args) == 2 && got.args[0].op == OCall && got.args[0].aux == fname(k.expr) && sameRule(g, got.args[0].args[0], text, arg) {
				continue
			}
			c.fail("top", "plurals.Compile", o.pos, "the rule is compiled as %s, not as %s", trunc(got.String(), 200), want)
		}
	})
}

// sameRule: the text is the rule up to white space and an equivalent ending
func sameRule(f *Facts, got, want, arg *Term) bool {
	got = f.subst(got)
	strip := func(t *Term) *Term {
		for t.op == OCall && (t.aux == "strings.TrimSpace" || t.aux == "strings.ReplaceAll" || t.aux == "strings.TrimRight" || t.aux == "strings.TrimSuffix") {
			t = t.args[0]
		}
		return t
	}
	if strip(got) == strip(want) {
		return true
	}
	if got.op == OConcat && want.op == OConcat {
		var sb strings.Builder
		base := strip(got.args[0])
		for _, a := range got.args[1:] {
			s, ok := a.strConst()
			if !ok {
				return false
			}
			sb.WriteString(s)
		}
		return base == arg && strings.ReplaceAll(sb.String(), " ", "") == "?1:0"
	}
	return false
}

func init() {
	register("C13", "for every shape of operators and arbitrary operands, the test or expression that the compiler builds is evaluated abstractly and agrees with C for every n and operand", checkOperators)
}
