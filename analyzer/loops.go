package main

import (
	"go/types"
)

// Loops that walk a sequence: what an arbitrary iteration does, and what holds after it.

// scan is an index that starts at a constant and grows by one per iteration
type scan struct {
	rec  *LoopRec
	j    int
	init int64
}

func scans(rec *LoopRec) []scan {
	var r []scan
	for j, phi := range rec.phis {
		if !isInteger(phi.Type()) {
			continue
		}
		i, ok := rec.init[j].intConst()
		if !ok {
			continue
		}
		step := true
		for _, nx := range rec.next {
			d := linSub(linOf(nx[j]), linOf(rec.sym[j]))
			if len(d.vs) != 0 || d.c != 1 {
				step = false
			}
		}
		if step {
			r = append(r, scan{rec, j, i})
		}
	}
	return r
}

// offset: idx is the scan's symbol plus this constant
func (s scan) offset(idx *Term) (int64, bool) {
	d := linSub(linOf(idx), linOf(s.rec.sym[s.j]))
	if len(d.vs) != 0 {
		return 0, false
	}
	return d.c, true
}

func (s scan) sym() *Term { return s.rec.sym[s.j] }

// loopsOf lists the loops that an outcome went through, in order
func loopsOf(st *State) []*LoopRec {
	var r []*LoopRec
	for _, e := range st.events(nil) {
		if e.kind == "loop" {
			r = append(r, e.loop)
		}
	}
	return r
}

// rebuild replaces a symbol in a term
func rebuild(t, from, to *Term) *Term {
	if t == from {
		return to
	}
	if t.op == OLin {
		l := &Lin{c: t.lin.c}
		for _, v := range t.lin.vs {
			l = linComb(l, 1, linOf(rebuild(v.t, from, to)), v.k)
		}
		return mkLin(l)
	}
	if len(t.args) == 0 || !t.contains(from) {
		return t
	}
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = rebuild(a, from, to)
	}
	switch t.op {
	case OIndexAddr:
		return mkIndexAddr(as[0], as[1], t.typ)
	case OIndex:
		return mkIndex(as[0], as[1], t.typ)
	case OGe0:
		return mkGe0(linOf(as[0]))
	case OEq0:
		return mkEq0(linOf(as[0]))
	case ONeg:
		return mkNot(as[0])
	case OLen:
		if t.aux == "" {
			return mkLen(as[0])
		}
	case OConcat:
		r := as[0]
		for _, a := range as[1:] {
			r = mkConcat(r, a)
		}
		return r
	}
	keyTyp := t.op == OConv || t.op == OStruct || t.op == OIface || t.op == OUnIface || t.op == OIsTyp
	n := mk(t.op, t.typ, t.aux, keyTyp, as...)
	n.obj, n.cval = t.obj, t.cval
	return n
}

// settle replaces a variable that a loop assigns on every iteration by what the last iteration
// assigned, when at least one iteration has been completed
func settle(f *Facts, recs []*LoopRec, t *Term) *Term {
	for n := 0; n < 4; n++ {
		done := true
		for _, rec := range recs {
			for j, s := range rec.sym {
				if !t.contains(s) || isInteger(rec.phis[j].Type()) || len(rec.next) == 0 {
					continue
				}
				e := rec.next[0][j]
				same := !e.contains(s)
				for _, nx := range rec.next {
					if nx[j] != e {
						same = false
					}
				}
				if !same {
					continue
				}
				for _, sc := range scans(rec) {
					if f.eval(mkGe0(linAdd(linOf(sc.sym()), linConst(-sc.init-1)))) == 1 {
						prev := mkLin(linAdd(linOf(sc.sym()), linConst(-1)))
						t = rebuild(t, s, rebuild(e, sc.sym(), prev))
						done = false
						break
					}
				}
			}
		}
		if done {
			break
		}
	}
	return t
}

// elemOfSeq splits "seq[i]", loaded from a slice or indexed in a value
func elemOfSeq(t *Term) (seq, idx *Term, ok bool) {
	if t.op == OLoad && t.args[0].op == OIndexAddr {
		return t.args[0].args[0], t.args[0].args[1], true
	}
	if t.op == OIndex {
		return t.args[0], t.args[1], true
	}
	return nil, nil, false
}

func isLocaleSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	p, ok := s.Elem().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Locale" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "gotext"
}
