package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// parentheses: where the compiler of plural rules goes through a text character by character
// and keeps count of parentheses, the count goes up by one at '(' and down by one at ')'; the
// text is cut only outside of parentheses, and nothing between two cuts gets lost
func (c *Ctx) parentheses() {
	pk := c.p.pkg("plurals")
	if pk == nil {
		return
	}
	for _, f := range c.p.funcs {
		if pkgOf(f) != pk {
			continue
		}
		c.trims(f)
		if f.Parent() != nil || !scansText(f) {
			continue
		}
		r := c.runFn(f, nil)
		seen := map[*LoopRec]bool{}
		for _, o := range r.outs {
			for _, rec := range loopsOf(o.st) {
				c.parenLoop(f, o, rec, !seen[rec])
				seen[rec] = true
			}
		}
	}
}

// trims: strings.Trim takes off parentheses without a counterpart at the other end
func (c *Ctx) trims(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || len(call.Call.Args) != 2 {
				continue
			}
			switch fname(call.Call.StaticCallee()) {
			case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
				if k, ok := call.Call.Args[1].(*ssa.Const); ok && k.Value != nil && strings.ContainsAny(constant.StringVal(k.Value), "()") {
					c.fail("parentheses", fname(f), call.Pos(), "takes off any number of parentheses, matching or not")
				}
			}
		}
	}
}

// scansText: the function has a loop and looks for parentheses as characters
func scansText(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if op, ok := in.(*ssa.BinOp); ok {
				for _, v := range []ssa.Value{op.X, op.Y} {
					if k, ok := v.(*ssa.Const); ok && k.Value != nil && isInteger(k.Type()) && (k.Int64() == '(' || k.Int64() == ')') {
						return true
					}
				}
			}
		}
	}
	return false
}

// parenAt: the character of an iteration is c (1), is not (0), or may be (-1)
func parenAt(b *State, chars []*Term, c byte) int {
	r := 0
	for _, t := range chars {
		switch b.facts.eval(mkEq(t, mkInt(int64(c)))) {
		case 1:
			return 1
		case -1:
			r = -1
		}
	}
	return r
}

func (c *Ctx) parenLoop(f *ssa.Function, o *Outcome, rec *LoopRec, first bool) {
	// the characters that are compared with parentheses
	set := map[*Term]bool{}
	note := func(t, k *Term) {
		if n, ok := k.intConst(); ok && (n == '(' || n == ')') && isInteger(t.typ) && (t.op == OIndex || t.op == OLoad || t.op == OConv) {
			for _, y := range rec.sym {
				if t.contains(y) {
					set[t] = true
				}
			}
		}
	}
	for _, b := range rec.back {
		b.facts.atoms(func(t *Term) {
			if t.op == OEq {
				note(t.args[0], t.args[1])
				note(t.args[1], t.args[0])
			}
			if t.op == OIndex && isInteger(t.typ) && (b.facts.eval(mkEq(t, mkInt('('))) == 1 || b.facts.eval(mkEq(t, mkInt(')'))) == 1) {
				note(t, mkInt('('))
			}
		})
	}
	var chars []*Term
	for t := range set {
		chars = append(chars, t)
	}
	if len(chars) == 0 {
		return
	}
	scan := map[int]bool{}
	for _, s := range scans(rec) {
		scan[s.j] = true
	}
	counter, sign := -1, int64(0)
	for j, phi := range rec.phis {
		if !isInteger(phi.Type()) || scan[j] {
			continue
		}
		counts, simple := int64(0), true
		for i := range rec.back {
			d := linSub(linOf(rec.next[i][j]), linOf(rec.sym[j]))
			_, konst := rec.next[i][j].intConst()
			switch {
			case len(d.vs) == 0 && d.c != 0:
				counts = d.c
				if parenAt(rec.back[i], chars, ')') == 1 {
					counts = -d.c
				}
			case len(d.vs) != 0 && !konst:
				simple = false
			}
		}
		if counts == 0 || !simple {
			continue
		}
		if counter >= 0 {
			return // several counts: not known what they stand for
		}
		counter, sign = j, counts
	}
	if counter < 0 || sign != 1 && sign != -1 {
		return
	}
	if first {
		for i, b := range rec.back {
			open, close := parenAt(b, chars, '('), parenAt(b, chars, ')')
			want := int64(0)
			switch {
			case open == 1:
				want = sign
			case close == 1:
				want = -sign
			case open != -1 && close != -1:
				continue
			case open == 0 || close == 0:
				continue
			}
			c.count("paren_steps", 1)
			d := linSub(linOf(rec.next[i][counter]), linOf(rec.sym[counter]))
			d.c -= want
			if b.facts.eval(mkEq0(d)) != 1 {
				c.fail("parentheses", fname(f), rec.pos, "the count of open parentheses goes from %s to %s where it should change by %d, when %s", rec.sym[counter], rec.next[i][counter], want, trunc(b.facts.describe(), 200))
			}
		}
	}
	if len(o.res) == 1 && isBool(o.res[0].typ) {
		c.matched(f, o, rec, chars, scan)
	}
	for j, phi := range rec.phis {
		s, ok := phi.Type().Underlying().(*types.Slice)
		if !ok || !isString(s.Elem()) {
			continue
		}
		c.cuts(f, o, rec, chars, counter, j, sign, first)
	}
}

// cuts: the pieces are cut off outside parentheses, one after the other
func (c *Ctx) cuts(f *ssa.Function, o *Outcome, rec *LoopRec, chars []*Term, counter, j int, sign int64, first bool) {
	depth := rec.sym[counter]
	from := -1 // where the next piece begins
	var text *Term
	for i, b := range rec.back {
		nx := rec.next[i][j]
		if nx == rec.sym[j] {
			continue
		}
		if nx.op != OAppend || nx.args[0] != rec.sym[j] || len(nx.args) != 2 || nx.args[1].op != OSlice {
			return // not cut in pieces
		}
		p := nx.args[1]
		if first {
			c.count("cuts", 1)
			d := linOf(depth)
			if parenAt(b, chars, ')') == 1 {
				d = linAdd(d, linConst(-sign))
			}
			if b.facts.eval(mkEq0(d)) != 1 {
				c.fail("parentheses", fname(f), rec.pos, "the text is cut inside parentheses when %s", trunc(b.facts.describe(), 200))
			}
		}
		for k := range rec.sym {
			if rec.sym[k] == p.args[1] {
				from, text = k, p.args[0]
				if first && b.facts.eval(mkEq(rec.next[i][k], p.args[2])) != 1 && rec.next[i][k] != p.args[2] {
					c.fail("parentheses", fname(f), rec.pos, "what follows a cut at %s begins at %s", p.args[2], rec.next[i][k])
				}
			}
		}
	}
	if from < 0 {
		return
	}
	if n, ok := rec.init[from].intConst(); first && (!ok || n != 0) {
		c.fail("parentheses", fname(f), rec.pos, "the first piece begins at %s", rec.init[from])
	}
	if first {
		for i, b := range rec.back {
			if rec.next[i][j] == rec.sym[j] && rec.next[i][from] != rec.sym[from] && b.facts.eval(mkEq(rec.next[i][from], rec.sym[from])) != 1 {
				c.fail("parentheses", fname(f), rec.pos, "the text up to %s is left out when %s", rec.next[i][from], trunc(b.facts.describe(), 200))
			}
		}
	}
	// the rest of the text
	if len(o.res) == 0 || !types.Identical(o.res[0].typ, rec.sym[j].typ) {
		return
	}
	got, rest := o.res[0], rec.sym[from]
	if !got.contains(rec.sym[j]) {
		return
	}
	whole := func(p *Term) bool {
		return p.op == OSlice && p.args[0] == text && p.args[1] == rest && (p.args[2] == mkLen(text) || o.st.facts.eval(mkEq(p.args[2], mkLen(text))) == 1)
	}
	switch {
	case got.op == OAppend && got.args[0] == rec.sym[j] && len(got.args) == 2 && whole(got.args[1]):
		c.count("rests", 1)
	case got == rec.sym[j] && o.st.facts.eval(mkGe0(linSub(linOf(rest), linOf(mkLen(text))))) == 1:
		c.count("rests", 1)
	default:
		c.fail("parentheses", fname(f), o.pos, "the end of the text is left out: %s", trunc(got.String(), 160))
	}
}

// matched: a text is found enclosed only when its parentheses were followed to its end
func (c *Ctx) matched(f *ssa.Function, o *Outcome, rec *LoopRec, chars []*Term, scan map[int]bool) {
	if o.st.facts.eval(o.res[0]) == -1 {
		return
	}
	facts, ok := o.st.facts.assume(o.res[0], true)
	if !ok {
		return
	}
	for _, t := range chars {
		if t.op != OIndex {
			continue
		}
		for j := range scan {
			i := rec.sym[j]
			if !t.args[1].contains(i) {
				continue
			}
			c.count("matches", 1)
			at := linSub(linOf(i), linOf(mkLen(t.args[0])))
			at.c++
			if facts.eval(mkGe0(at)) != 1 {
				c.fail("parentheses", fname(f), o.pos, "answers true though the text goes on after %s, when %s", i, trunc(facts.describe(), 200))
			}
		}
	}
}
