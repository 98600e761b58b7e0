package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Specifications: the abstract results of a function are compared, outcome by outcome, with the
// value that the property prescribes, written over the same value numbers.

// dec evaluates a specification under the facts of an outcome. A condition that the facts do
// not decide splits the outcome: the specification is evaluated for both truth values.
type dec struct {
	x      *Interp
	f      *Facts
	st     *State // heap in which the specification reads (usually the initial one)
	script []bool
	pos    int
	next   [][]bool
	n      int
}

type deadCase struct{}

// cases runs body for every combination of the conditions that it asks about
func cases(x *Interp, f *Facts, st *State, body func(d *dec)) int {
	pending := [][]bool{nil}
	n := 0
	for len(pending) > 0 {
		s := pending[len(pending)-1]
		pending = pending[:len(pending)-1]
		d := &dec{x: x, f: f, script: s}
		d.st = &State{facts: f, mem: st.mem}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(deadCase); !ok {
						panic(e)
					}
				}
			}()
			body(d)
		}()
		pending = append(pending, d.next...)
		n++
		if n > 4096 {
			panic("too many cases in a specification")
		}
	}
	return n
}

func (d *dec) set(f *Facts) { d.f = f; d.st.facts = f }

// ask decides a condition
func (d *dec) ask(c *Term) bool {
	switch d.f.eval(c) {
	case 1:
		return true
	case 0:
		return false
	}
	var v bool
	if d.pos < len(d.script) {
		v = d.script[d.pos]
	} else {
		v = true
		alt := append(append([]bool{}, d.script...), false)
		d.next = append(d.next, alt)
		d.script = append(append([]bool{}, d.script...), true)
	}
	d.pos++
	g, ok := d.f.assume(c, v)
	if !ok {
		panic(deadCase{})
	}
	d.set(g)
	return v
}

// lookup reads m[k]
func (d *dec) lookup(m, k *Term) (*Term, bool) {
	mt := m.typ.Underlying().(*types.Map)
	for {
		has, val, cond := d.st.mapLookup(m, k, mt)
		if cond != nil {
			d.ask(cond)
			continue
		}
		if d.ask(has) {
			return val, true
		}
		return zeroValue(mt.Elem()), false
	}
}

// field reads a field of the object that ptr points to
func (d *dec) field(ptr *Term, name string) *Term {
	return d.load(fieldAddr(ptr, name))
}

func (d *dec) load(addr *Term) *Term { return d.st.load(addr, elemOf(addr.typ)) }

func fieldAddr(ptr *Term, name string) *Term {
	st := structOf(elemOf(ptr.typ))
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkFieldAddr(ptr, i, types.NewPointer(st.Field(i).Type()))
		}
	}
	panic("no field " + name + " in " + ptr.typ.String())
}

// ---- equality

// canon removes differences of writing: conversions between strings and byte slices that are
// appended, fmt.Appendf, formatting helpers
func canon(f *Facts, t *Term) *Term {
	t = f.subst(t)
	switch t.op {
	case OAppendS:
		b, s := canon(f, t.args[0]), canon(f, t.args[1])
		for s.op == OConv && (isString(s.args[0].typ) || isBytes(s.args[0].typ)) {
			s = canon(f, s.args[0])
		}
		return mk(OAppendS, t.typ, "", false, b, s)
	case OConv:
		in := canon(f, t.args[0])
		// string([]byte(s)) and []byte(string(b)) as values
		if in.op == OConv && (isString(t.typ) && isBytes(in.typ) && isString(in.args[0].typ)) {
			return in.args[0]
		}
		if in != t.args[0] {
			return mk(OConv, t.typ, t.aux, true, in)
		}
	case OCall:
		if t.aux == "fmt.Appendf" && len(t.args) >= 2 {
			return mk(OAppendS, t.typ, "", false, canon(f, t.args[0]), canon(f, mkCall("fmt.Sprintf", 0, types.Typ[types.String], t.args[1:]...)))
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = canon(f, a)
			ch = ch || as[i] != a
		}
		if ch {
			return mk(OCall, t.typ, t.aux, false, as...)
		}
	}
	return t
}

func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// equal reports whether two values are known to be the same
func equal(f *Facts, a, b *Term) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a == b {
		return true
	}
	a, b = canon(f, a), canon(f, b)
	if f.same(a, b) {
		return true
	}
	if isBool(a.typ) && isBool(b.typ) {
		x, y := f.eval(a), f.eval(b)
		if x >= 0 && x == y {
			return true
		}
	}
	if a.op == b.op && a.aux == b.aux && len(a.args) == len(b.args) && len(a.args) > 0 && a.op != OAlloc && a.op != OSym && a.op != OLin {
		for i := range a.args {
			if !equal(f, a.args[i], b.args[i]) {
				return false
			}
		}
		return typeKeyMatters(a, b)
	}
	return false
}

// merge assumes everything that g knows on top of f
func merge(f, g *Facts) (*Facts, bool) {
	r := f.clone()
	var ts []*Term
	for t := range g.lits {
		ts = append(ts, t)
	}
	sortTerms(ts)
	for _, t := range ts {
		n, ok := r.assume(t, g.lits[t])
		if !ok {
			return nil, false
		}
		r = n
	}
	ts = nil
	for t := range g.cst {
		ts = append(ts, t)
	}
	sortTerms(ts)
	for _, t := range ts {
		c := g.cst[t]
		if o, ok := r.cst[t]; ok && o != c && o.isConst() && c.isConst() {
			if r.eval(mkEq(o, c)) == 0 {
				return nil, false
			}
		}
		n, ok := r.assume(mkEq(t, c), true)
		if !ok {
			return nil, false
		}
		r = n
	}
	for _, l := range g.lin {
		r = r.clone()
		if !r.addLin(l) || !r.derive(l) {
			return nil, false
		}
	}
	for _, l := range g.neq {
		n, ok := r.assume(mkEq0(l), false)
		if !ok {
			return nil, false
		}
		r = n
	}
	return r, true
}

// ---- running

type run struct {
	c    *Ctx
	x    *Interp
	f    *ssa.Function
	args []*Term
	st0  *State
	outs []*Outcome
	bad  bool
}

// runWith analyses f on the given arguments. ok is false when the analysis could not decide.
func (c *Ctx) runWith(f *ssa.Function, args []*Term, st *State, setup func(x *Interp)) *run {
	x := newInterp(c.p)
	x.noOblige = true
	x.precise = true
	if setup != nil {
		setup(x)
	}
	if st == nil {
		st = x.newState()
	}
	r := &run{c: c, x: x, f: f, args: args, st0: st.clone()}
	outs := x.call(f, args, nil, st)
	for _, o := range outs {
		if !o.panic {
			r.outs = append(r.outs, o)
		}
	}
	c.count("functions_explored", len(x.visited))
	c.count("outcomes", len(r.outs))
	if d := os.Getenv("GOTEXT_DUMP"); d != "" && strings.HasSuffix(fname(f), d) {
		r.dump()
	}
	if len(x.undecided) > 0 {
		r.bad = true
		c.fail("undecided", fname(f), f.Pos(), "the analysis cannot decide: %s", strings.Join(x.undecided, "; "))
	}
	if len(r.outs) == 0 {
		r.bad = true
		c.fail("undecided", fname(f), f.Pos(), "no return is reachable")
	}
	return r
}

func (c *Ctx) runFn(f *ssa.Function, setup func(x *Interp)) *run {
	x := newInterp(c.p)
	args, _ := x.rootArgs(f)
	return c.runWith(f, args, nil, setup)
}

// dump prints the outcomes, for development
func (r *run) dump() {
	var loops func(in string, st *State, ev *Event)
	loops = func(in string, st *State, ev *Event) {
		for _, e := range st.events(ev) {
			fmt.Println(in+"ev", e.kind, e.name, e.args, e.res, r.c.p.pos(e.pos))
			if e.kind == "loop" {
				for i, b := range e.loop.back {
					fmt.Println(in+"  iteration", i, "sym", e.loop.sym, "init", e.loop.init, "next", e.loop.next[i])
					fmt.Println(in+"    facts", b.facts.describe())
					for _, m := range b.writes(e.loop.start.mem) {
						fmt.Println(in+"    mem", m.kind, m.addr, m.key, m.val, m.class)
					}
					loops(in+"    ", b, e.loop.start.ev)
				}
			}
		}
	}
	for i, o := range r.outs {
		fmt.Println("--- outcome", i, o.res, r.at(o))
		fmt.Println("  facts", o.st.facts.describe())
		loops("  ", o.st, nil)
		for _, m := range o.st.writes(nil) {
			fmt.Println("  mem", m.kind, m.addr, m.key, m.val, m.class)
		}
	}
}

// param finds a parameter by position, counted without the receiver
func recvArgs(f *ssa.Function, args []*Term) (recv *Term, rest []*Term) {
	if f.Signature.Recv() != nil {
		return args[0], args[1:]
	}
	return nil, args
}

// outPos is the source position of an outcome
func (r *run) at(o *Outcome) string { return r.c.p.pos(o.pos) }

// sharedArgs makes arguments that depend only on position and type, so that two functions of
// the same shape get the same ones
func sharedArgs(f *ssa.Function) []*Term {
	var args []*Term
	for i, v := range f.Params {
		args = append(args, expandStruct(mkParam("a"+string(rune('0'+i)), v.Type()), v.Type()))
	}
	return args
}
