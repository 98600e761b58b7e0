package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Malformed plural rules are rejected; compiling is silent and finishes with the call.

func funcParam(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if _, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func checkMalformed(c *Ctx) {
	k := c.newCompiler()
	if k.bad {
		return
	}
	roots := []*ssa.Function{k.compile}
	reach := c.p.reachable(roots)
	div := c.divisors()
	for _, f := range c.p.funcs {
		if !reach[f] || pkgOf(f) == nil || pkgOf(f) != c.p.pkg("plurals") {
			continue
		}
		c.silent(f)
		if !returnsError(f) || funcParam(f) || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		c.count("compile_functions", 1)
		root := f
		r := c.runFn(f, func(x *Interp) {
			x.precise = false
			x.traceErr = true
			x.pathCap, x.loopCap, x.outCap = 64, 2, 8
			x.pure = func(g *ssa.Function) bool { return g != root && returnsError(g) && !funcParam(g) && reach[g] }
		})
		er := &errRun{c: c, r: r, opened: map[*Term]bool{}}
		er.skip = func(e *Event) bool { return strings.HasPrefix(e.name, "fmt.") || strings.HasPrefix(e.name, "errors.") }
		seen := map[*LoopRec]bool{}
		r.success(func(o *Outcome, g *Facts) {
			c.count("success_outcomes", 1)
			er.check(g, o, o.res[len(o.res)-1], seen)
			for i, v := range o.res[:len(o.res)-1] {
				c.usable(r, f, o, g, v, f.Signature.Results().At(i).Type(), div, map[*Term]bool{})
			}
		})
	}
	k.nothingIgnored()
	k.tokenizerKeepsAll()
	c.atLeast("compile_functions", 10)
	c.atLeast("success_outcomes", 10)
}

// divisors lists the struct fields that a method divides by
func (c *Ctx) divisors() map[string]bool {
	div := map[string]bool{}
	for _, f := range c.p.funcs {
		if pkgOf(f) == nil || pkgOf(f) != c.p.pkg("plurals") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.REM && bo.Op != token.QUO || !isInteger(bo.Type()) {
					continue
				}
				v := bo.Y
				if u, ok := v.(*ssa.UnOp); ok {
					v = u.X
				}
				switch v := v.(type) {
				case *ssa.Field:
					div[typeStr(v.X.Type())+"."+fmt.Sprint(v.Field)] = true
				case *ssa.FieldAddr:
					div[typeStr(elemOf(v.X.Type()))+"."+fmt.Sprint(v.Field)] = true
				case *ssa.Const:
					continue
				default:
					continue // decided by C04
				}
				c.count("divisions", 1)
			}
		}
	}
	return div
}

// usable: the value that a successful compilation returns can be evaluated: no nil parts, no
// zero divisor
func (c *Ctx) usable(r *run, f *ssa.Function, o *Outcome, g *Facts, v *Term, t types.Type, div map[string]bool, seen map[*Term]bool) {
	v = g.subst(v)
	if seen[v] {
		return
	}
	seen[v] = true
	switch t.Underlying().(type) {
	case *types.Interface:
		if v.op != OIface {
			if g.evalNil(v) != 0 && !r.x.nonNil(g, v) {
				c.fail("usable", fname(f), o.pos, "reports success with a part that can be nil: %s", trunc(v.String(), 120))
			}
			return
		}
		c.count("parts", 1)
		c.usable(r, f, o, g, v.args[0], v.typ, div, seen)
	case *types.Pointer:
		if v.op == OAlloc {
			el := elemOf(v.typ)
			st := structOf(el)
			if st == nil {
				return
			}
			s2 := o.st.clone()
			s2.facts = g
			for i := 0; i < st.NumFields(); i++ {
				ft := st.Field(i).Type()
				c.part(r, f, o, g, s2.load(mkFieldAddr(v, i, types.NewPointer(ft)), ft), el, i, ft, div, seen)
			}
			return
		}
		if g.evalNil(v) != 0 && !r.x.nonNil(g, v) {
			c.fail("usable", fname(f), o.pos, "reports success with a part that can be nil: %s", trunc(v.String(), 120))
		}
	case *types.Struct:
		st := t.Underlying().(*types.Struct)
		e := expandStruct(v, t)
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			c.part(r, f, o, g, fieldOf(e, i, ft), t, i, ft, div, seen)
		}
	}
}

func (c *Ctx) part(r *run, f *ssa.Function, o *Outcome, g *Facts, v *Term, owner types.Type, i int, ft types.Type, div map[string]bool, seen map[*Term]bool) {
	if div[typeStr(owner)+"."+fmt.Sprint(i)] {
		c.count("divisors", 1)
		if g.eval(mkEq0(linOf(v))) != 0 {
			c.fail("zero-divisor", fname(f), o.pos, "reports success although the divisor %s can be zero", trunc(v.String(), 120))
		}
	}
	c.usable(r, f, o, g, v, ft, div, seen)
}

// silent: nothing is printed and no goroutine is started
func (c *Ctx) silent(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				c.fail("goroutine", fname(f), in.Pos(), "starts a goroutine while a plural rule is compiled")
				continue
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c.count("call_sites", 1)
			cc := ci.Common()
			if bi, ok := cc.Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
				c.fail("printing", fname(f), in.Pos(), "prints while a plural rule is compiled")
			}
			g := cc.StaticCallee()
			if g == nil || c.p.inMod[g] {
				continue
			}
			n := g.String()
			switch {
			case strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "log."), strings.HasPrefix(n, "(*log."), strings.HasPrefix(n, "log/slog."), strings.HasPrefix(n, "(*log/slog."):
				c.fail("printing", fname(f), in.Pos(), "prints with %s while a plural rule is compiled", n)
			case strings.HasPrefix(n, "time.AfterFunc"):
				c.fail("goroutine", fname(f), in.Pos(), "starts a timer goroutine while a plural rule is compiled")
			}
			for _, a := range cc.Args {
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				if u, ok := a.(*ssa.UnOp); ok {
					if gl, ok := u.X.(*ssa.Global); ok && gl.Pkg != nil && gl.Pkg.Pkg.Path() == "os" && strings.HasPrefix(gl.Name(), "Std") {
						c.fail("printing", fname(f), in.Pos(), "writes to os.%s while a plural rule is compiled", gl.Name())
					}
				}
			}
		}
	}
}

// nothingIgnored: when a list of arbitrary tokens is accepted, every token either is a known
// operator or has been handed on to a compilation or conversion that succeeded
func (k *compiler) nothingIgnored() {
	c := k.c
	names := []string{"T0", "T1", "T2", "T3", "T4", "T5", "T6"}
	max := 6
	if c.thorough {
		max = 7
	}
	for _, f := range []*ssa.Function{k.test, k.expr} {
		for n := 1; n <= max; n++ {
			k.ignored(f, names[:n])
		}
	}
}

func (k *compiler) ignored(f *ssa.Function, names []string) {
	c := k.c
	c.count("token_lists", 1)
	arg := mkParam("text", types.Typ[types.String])
	x := newInterp(c.p)
	st := x.newState()
	var toks []*Term
	for _, n := range names {
		toks = append(toks, mkParam("tok "+n, types.Typ[types.String]))
	}
	list := tokenList(st, toks)
	r := c.runWith(f, []*Term{arg}, st, func(x *Interp) {
		x.traceErr = true
		x.precise = false
		x.stub = func(g *ssa.Function, args []*Term) ([]*Term, bool) {
			if g == k.tokenize && args[0] == arg {
				return []*Term{list, mkNil(nil)}, true
			}
			return nil, false
		}
		x.pure = func(g *ssa.Function) bool { return g == k.test || g == k.expr }
	})
	r.success(func(o *Outcome, g *Facts) {
		c.count("accepted_shapes", 1)
		used := map[*Term]bool{}
		for _, e := range o.st.events(nil) {
			if e.kind != "call" && e.kind != "modcall" || len(e.res) == 0 {
				continue
			}
			if err := e.res[len(e.res)-1]; !isErrorType(err.typ) || g.evalNil(err) != 1 {
				continue
			}
			for _, a := range e.args {
				for _, t := range toks {
					if a.contains(t) {
						used[t] = true
					}
				}
				a = g.subst(a)
				for _, t := range toks {
					if a.contains(t) {
						used[t] = true
					}
				}
			}
		}
		for i, t := range toks {
			if used[t] {
				continue
			}
			if s, ok := g.subst(t).strConst(); ok && isOp(s) {
				continue
			}
			c.fail("ignored", fname(f), o.pos, "a rule of %d tokens is accepted although token %d has no influence on it", len(toks), i)
		}
	})
}

// tokenizerKeepsAll: where tokens are picked out of the text with a regular expression, text
// that does not match must not be skipped silently
func (k *compiler) tokenizerKeepsAll() {
	c := k.c
	r := c.runFn(k.tokenize, func(x *Interp) {
		x.pure = func(g *ssa.Function) bool {
			return g != k.tokenize && !strings.Contains(calledNames(g), "regexp.Regexp).Find")
		}
	})
	// every success path and every finished iteration in which matches were taken
	seen := map[*LoopRec]bool{}
	var visit func(st *State, f *Facts, pos token.Pos, taken []*Term)
	visit = func(st *State, f *Facts, pos token.Pos, taken []*Term) {
		for _, m := range taken {
			c.count("match_uses", 1)
			text := m.args[1]
			if !accounted(f, text, m) {
				c.fail("skipped-text", fname(k.tokenize), pos, "tokens are taken from %s by a regular expression without checking that nothing else is in it, when %s", trunc(text.String(), 100), trunc(f.describe(), 300))
			}
		}
	}
	var loops func(st *State)
	loops = func(st *State) {
		for _, rec := range loopsOf(st) {
			if seen[rec] {
				continue
			}
			seen[rec] = true
			for i, b := range rec.back {
				taken := k.matches(b)
				for _, t := range rec.next[i] {
					for _, m := range regexMatches(t) {
						if madeIn(m, rec) {
							taken = append(taken, m)
						}
					}
				}
				visit(b, b.facts, rec.pos, taken)
				loops(b)
			}
		}
	}
	r.success(func(o *Outcome, f *Facts) {
		loops(o.st)
		visit(o.st, f, o.pos, k.matches(o.st))
	})
}

// madeIn: the match was made in an iteration of the loop
func madeIn(m *Term, rec *LoopRec) bool {
	for _, s := range rec.sym {
		if m.seq >= s.seq {
			return true
		}
	}
	return false
}

func regexMatches(t *Term) (r []*Term) {
	t.walk(func(u *Term) {
		if u.op == OCall && strings.Contains(u.aux, "regexp.Regexp).Find") {
			r = append(r, u)
		}
	})
	return
}

// matches lists the regular-expression matches that inner loops of a state walk through; those
// made inside a loop are looked at where its iteration ends
func (k *compiler) matches(st *State) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	for _, in := range loopsOf(st) {
		for _, nx := range in.next {
			for _, t := range nx {
				for _, m := range regexMatches(t) {
					if !seen[m] && !madeIn(m, in) {
						seen[m] = true
						r = append(r, m)
					}
				}
			}
		}
	}
	return r
}

// accounted: the facts tie the whole text, or its length, to something that is not constant
func accounted(f *Facts, text, m *Term) bool {
	n := mkLen(text)
	if f.subst(n) != n || f.subst(text) != text {
		return true
	}
	for _, l := range f.lin {
		has, others := false, false
		for _, v := range l.vs {
			if v.t == n {
				has = true
			} else {
				others = true
			}
		}
		if has && others && (f.eval(mkEq0(l)) == 1 || coef(l, n) < 0) {
			return true
		}
	}
	for t, v := range f.lits {
		if v && t.op == OEq && (t.args[0] == text || t.args[1] == text) {
			return true
		}
	}
	return false
}

func calledNames(f *ssa.Function) string {
	s := ""
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil {
					s += g.String() + " "
				}
			}
		}
	}
	return s
}

func init() {
	register("C14", "on every path on which a compile function reports success, each error it met is nil, the value has no nil part and no zero divisor, and every token was used; no call reachable from Compile prints or starts a goroutine", checkMalformed)
}
