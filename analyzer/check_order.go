package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Nothing depends on the order in which a map is iterated

type orderCheck struct {
	c      *Ctx
	f      *ssa.Function
	r      *run
	w      *textOf
	done   map[string]bool
	escape bool // an unsorted list is returned
	loops  map[token.Pos]bool
}

func (k *orderCheck) fail(kind string, pos token.Pos, format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	if key := kind + s; !k.done[key] {
		k.done[key] = true
		k.c.fail(kind, fname(k.f), pos, "%s", s)
	}
}

// isMapRange: the loop's header takes the next key of a map
func isMapRange(rec *LoopRec) bool {
	for _, in := range rec.header.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			return true
		}
	}
	return false
}

// keyOf is the key that an iteration of a range over a map has
func (k *orderCheck) keyOf(rec *LoopRec, b *State) (key, m *Term) {
	for l, v := range b.facts.lits {
		if !v || l.op != OMapHas || rec.start.facts.lits[l] {
			continue
		}
		if n := k.r.x.nexts[l.args[1]]; n != nil && n.Block() == rec.header {
			return l.args[1], l.args[0]
		}
	}
	return nil, nil
}

// what changed between the start of an iteration and its end, inner loops included
type changes struct {
	writes []*Mem
	states []*State // of the write
	events []*Event
	at     []*State
	allocs map[*Term]bool
	inner  []*LoopRec
}

func changesOf(rec *LoopRec, b *State) *changes {
	ch := &changes{allocs: map[*Term]bool{}}
	var add func(rec *LoopRec, b *State)
	add = func(rec *LoopRec, b *State) {
		for _, w := range b.writes(rec.start.mem) {
			ch.writes, ch.states = append(ch.writes, w), append(ch.states, b)
			if w.kind == mAlloc {
				ch.allocs[w.addr] = true
			}
		}
		for _, e := range b.events(rec.start.ev) {
			ch.events, ch.at = append(ch.events, e), append(ch.at, b)
			if e.kind == "loop" {
				ch.inner = append(ch.inner, e.loop)
				for _, bb := range e.loop.back {
					add(e.loop, bb)
				}
			}
		}
	}
	add(rec, b)
	return ch
}

// grows classifies what happened to a value: "same", "append", "sum", "const..." or ""
func (k *orderCheck) grows(b *State, t, sym *Term, depth int) string {
	t = b.facts.subst(t)
	if t == sym {
		return "same"
	}
	if depth > 8 {
		return ""
	}
	if t.isConst() {
		return "const " + t.String()
	}
	if t.op == OAppend || t.op == OAppendS {
		if g := k.grows(b, t.args[0], sym, depth+1); g == "same" || g == "append" {
			for _, a := range t.args[1:] {
				if a.contains(sym) {
					return ""
				}
			}
			return "append"
		}
		return ""
	}
	if rec, init, next, ok := k.w.accum(b, t); ok {
		g := k.grows(rec.entry, init, sym, depth+1)
		for i, nx := range next {
			h := k.grows(rec.back[i], nx, t, depth+1)
			if g = joinGrowth(g, h); g == "" {
				return ""
			}
		}
		return g
	}
	if isInteger(t.typ) && !t.contains(sym) {
		up := mkGe0(linAdd(linSub(linOf(t), linOf(sym)), linConst(-1)))
		down := mkGe0(linAdd(linSub(linOf(sym), linOf(t)), linConst(-1)))
		if b.facts.eval(up) == 1 {
			return "max"
		}
		if b.facts.eval(down) == 1 {
			return "min"
		}
	}
	if isString(t.typ) && !t.contains(sym) {
		if b.facts.lits[mk(OBin, types.Typ[types.Bool], "<", false, sym, t)] {
			return "max"
		}
		if b.facts.lits[mk(OBin, types.Typ[types.Bool], "<", false, t, sym)] {
			return "min"
		}
	}
	if isInteger(t.typ) {
		if d := linSub(linOf(t), linOf(sym)); !mkLin(d).contains(sym) {
			return "sum"
		}
	}
	return ""
}

func joinGrowth(a, b string) string {
	switch {
	case a == b:
		return a
	case a == "same":
		return b
	case b == "same":
		return a
	}
	return ""
}

// within: an address belongs to what only one iteration touches
func within(ch *changes, key, addr *Term) bool {
	own := false
	addr.walk(func(u *Term) {
		if u == key || ch.allocs[u] {
			own = true
		}
	})
	return own
}

// atom is a value that depends on the order of the iterations
type atom struct {
	t    *Term
	rec  *LoopRec
	list bool
	cell *Term // where it is stored
	why  string
}

// bodyTerms lists the terms of a loop's iterations, inner loops included
func bodyTerms(rec *LoopRec) (ts []*Term) {
	for i, b := range rec.back {
		ts = append(ts, rec.next[i]...)
		for _, m := range b.writes(rec.start.mem) {
			for _, t := range []*Term{m.addr, m.key, m.val} {
				if t != nil {
					ts = append(ts, t)
				}
			}
		}
		for l := range b.facts.lits {
			if _, ok := rec.start.facts.lits[l]; !ok {
				ts = append(ts, l)
			}
		}
		ts = append(ts, eventTerms(b.events(rec.start.ev))...)
	}
	return
}

func eventTerms(evs []*Event) (ts []*Term) {
	for _, e := range evs {
		for _, t := range append(append([]*Term{}, e.args...), e.text...) {
			if t != nil {
				ts = append(ts, t)
			}
		}
		if e.loop != nil {
			ts = append(ts, e.loop.init...)
			ts = append(ts, bodyTerms(e.loop)...)
		}
		if e.kind == "callback" {
			for _, q := range e.cb.outs {
				ts = append(ts, eventTerms(q.st.events(nil))...)
			}
		}
	}
	return
}

// mapLoop checks one range over a map and lists the values that depend on its order
func (k *orderCheck) mapLoop(rec *LoopRec, after *State, failed bool) (atoms []atom) {
	pos := rec.pos
	if !k.loops[pos] {
		k.loops[pos] = true
		k.c.count("map_ranges", 1)
	}
	growth := make([]string, len(rec.phis))
	for j := range growth {
		growth[j] = "same"
	}
	cells := map[*Term]string{}
	lists := map[*Term]bool{}
	effects := false
	for i, b := range rec.back {
		key, _ := k.keyOf(rec, b)
		if key == nil {
			k.fail("undecided", pos, "the key of an iteration is not known")
			return
		}
		k.c.count("iterations", 1)
		ch := changesOf(rec, b)
		for j := range rec.phis {
			g := k.grows(b, rec.next[i][j], rec.sym[j], 0)
			if growth[j] != "" {
				if g = joinGrowth(growth[j], g); g == "" {
					growth[j] = ""
				} else {
					growth[j] = g
				}
			}
			if g != "same" {
				effects = true
			}
		}
		for n, w := range ch.writes {
			st := ch.states[n]
			switch w.kind {
			case mMapUpd:
				effects = true
				if within(ch, key, w.addr) || injective(w.key, key) || w.val.isConst() {
					continue
				}
				if ch.allocs[w.val] && missing(st.facts, w.addr, w.key) {
					continue // made by whichever iteration needs it first
				}
				k.fail("last-wins", w.pos, "while a map is iterated in any order, an entry %s is set to %s", trunc(w.key.String(), 80), trunc(w.val.String(), 80))
			case mStore:
				if within(ch, key, w.addr) {
					effects = effects || !ch.allocs[rootPtr(w.addr)]
					continue
				}
				effects = true
				if base := k.filled(rec, i, w); base != nil {
					lists[base] = true
					continue
				}
				old, now := ld(rec.start, w.addr), ld(b, w.addr)
				g := k.grows(b, now, old, 0)
				if prev, ok := cells[w.addr]; ok {
					g = joinGrowth(prev, g)
				}
				cells[w.addr] = g
			case mMapDel:
				effects = true
			}
		}
		for n, e := range ch.events {
			if k.ordered(ch, key, e, ch.at[n]) {
				effects = true
				k.fail("ordered-effect", e.pos, "while a map is iterated in any order, %s is called", e.name)
			}
		}
	}
	// what an iteration finds left by others
	changing := map[*Term]bool{}
	for j, g := range growth {
		if g != "same" && g != "max" && g != "min" {
			changing[rec.sym[j]] = true
		}
	}
	for a, g := range cells {
		if g != "same" && g != "max" && g != "min" {
			changing[ld(rec.start, a)] = true
		}
	}
	if len(lists) > 0 {
		for j, s := range rec.sym {
			if growth[j] == "sum" {
				delete(changing, s)
			}
		}
	}
	for i, b := range rec.back {
		k.leftovers(rec, b, rec.next[i], changing)
	}
	// leaving the loop early
	if key, _ := k.keyOf(rec, after); key != nil && !failed {
		if effects {
			k.fail("early-exit", pos, "the range over a map ends early after an unknown part of its effects, when %s", trunc(after.facts.describe(), 200))
		}
		atoms = append(atoms, atom{key, rec, false, nil, "the key at which the range ended"})
	}
	for j, g := range growth {
		switch {
		case g == "append":
			atoms = append(atoms, atom{rec.sym[j], rec, true, nil, "a list in the order of the iterations"})
		case g == "":
			atoms = append(atoms, atom{rec.sym[j], rec, false, nil, "the value of the last iteration"})
		}
	}
	for a := range lists {
		atoms = append(atoms, atom{a, rec, true, nil, "a list in the order of the iterations"})
	}
	for a, g := range cells {
		// the value that it has after the loop
		now := ld(after, a)
		for _, x := range rec.exits {
			if key, _ := k.keyOf(rec, x); key == nil {
				now = ld(x, a)
			}
		}
		switch {
		case g == "append":
			atoms = append(atoms, atom{now, rec, true, a, "a list in the order of the iterations"})
		case g == "":
			atoms = append(atoms, atom{now, rec, false, a, "the value of the last iteration"})
		}
	}
	return
}

// leftovers: an iteration's effects depend on what the iterations before it did
func (k *orderCheck) leftovers(rec *LoopRec, b *State, next []*Term, changing map[*Term]bool) {
	if len(changing) == 0 {
		return
	}
	used := func(t *Term, own *Term) *Term {
		for s := range changing {
			if s != own && reads(t, s) {
				return s
			}
		}
		return nil
	}
	bad := func(pos token.Pos, what string) {
		if !pos.IsValid() {
			pos = rec.pos
		}
		k.fail("leftover", pos, "while a map is iterated in any order, %s depends on what the iterations before did", what)
	}
	var conds []*Term // read in conditions
	for l := range b.facts.lits {
		if _, ok := rec.start.facts.lits[l]; !ok {
			for s := range changing {
				if l.contains(s) && !(l.op == OGe0 && positive(l, s)) {
					conds = append(conds, s)
				}
			}
		}
	}
	under := func(own *Term) bool {
		for _, s := range conds {
			if s != own {
				return true
			}
		}
		return false
	}
	for j, nx := range next {
		if nx != rec.sym[j] && (used(nx, rec.sym[j]) != nil || under(rec.sym[j])) {
			bad(rec.pos, "a value")
		}
	}
	for _, w := range b.writes(rec.start.mem) {
		if w.kind != mStore && w.kind != mMapUpd || rootPtr(w.addr).op == OAlloc && fresh(rec, b, rootPtr(w.addr)) {
			continue
		}
		own := (*Term)(nil)
		if w.kind == mStore {
			own = ld(rec.start, w.addr)
		}
		if used(w.val, own) != nil || w.key != nil && used(w.key, nil) != nil || under(own) {
			bad(w.pos, "what is stored in "+trunc(w.addr.String(), 60))
		}
	}
}

// positive: only says that a counter or a list has something
func positive(l, s *Term) bool { return l.args[0] == s }

// fresh: made in this iteration
func fresh(rec *LoopRec, b *State, a *Term) bool {
	for _, w := range b.writes(rec.start.mem) {
		if w.kind == mAlloc && w.addr == a {
			return true
		}
	}
	return false
}

// firstWins: ranges that return different things for different keys
func (k *orderCheck) firstWins(a, b *Outcome) {
	if a.panic || b.panic || len(a.res) != len(b.res) {
		return
	}
	keys := func(o *Outcome) map[*ssa.BasicBlock]*Term {
		r := map[*ssa.BasicBlock]*Term{}
		for l, v := range o.st.facts.lits {
			if v && l.op == OMapHas {
				if n := k.r.x.nexts[l.args[1]]; n != nil {
					r[n.Block()] = l.args[1]
				}
			}
		}
		return r
	}
	for i := range a.res {
		if isErrorType(a.res[i].typ) && (a.st.facts.evalNil(a.res[i]) != 1 || b.st.facts.evalNil(b.res[i]) != 1) {
			return
		}
	}
	differs := -1
	for i := range a.res {
		if !equal(a.st.facts, a.res[i], b.res[i]) {
			differs = i
		}
	}
	if differs < 0 {
		return
	}
	ks, kt := keys(a), keys(b)
	for blk, ka := range ks {
		kb := kt[blk]
		if kb == nil {
			continue
		}
		excluded := false
		for l, v := range a.st.facts.lits {
			if w, ok := b.st.facts.lits[l]; ok && v != w && !elementOf(l, ka) && !elementOf(l, kb) {
				excluded = true
			}
		}
		if !excluded {
			k.fail("first-wins", k.headerPos(blk), "the range over a map returns %s for one key and %s for another, whichever it meets first", trunc(a.res[differs].String(), 80), trunc(b.res[differs].String(), 80))
		}
	}
}

// filled: the next place of a new list is filled
func (k *orderCheck) filled(rec *LoopRec, i int, w *Mem) *Term {
	a := w.addr
	if a.op != OIndexAddr || a.args[0].op != OAlloc {
		return nil
	}
	for j, s := range rec.sym {
		if a.args[1] == s && rec.next[i][j] == mkLin(linAdd(linOf(s), linConst(1))) {
			return a.args[0]
		}
	}
	return nil
}

func (k *orderCheck) headerPos(b *ssa.BasicBlock) token.Pos {
	for _, o := range k.r.outs {
		for _, rec := range loopsOf(o.st) {
			if rec.header == b {
				return rec.pos
			}
		}
	}
	return b.Parent().Pos()
}

// missing: the facts say that a map has no entry
func missing(f *Facts, m, key *Term) bool {
	for l, v := range f.lits {
		x := l
		if l.op == OIsNil && v {
			x = l.args[0]
		} else if l.op != OMapHas || v {
			continue
		}
		if (x.op == OMapGet || x.op == OMapHas) && equal(f, x.args[0], m) && equal(f, x.args[1], key) {
			return true
		}
	}
	return false
}

// injective: different loop keys give different map keys
func injective(t, key *Term) bool {
	if t == key {
		return true
	}
	if t.op == OConcat {
		n := 0
		for _, a := range t.args {
			if a == key {
				n++
			} else if !a.isConst() {
				return false
			}
		}
		return n == 1
	}
	return false
}

// elementOf: the value tells for which key it was found. What the type checker knows of one
// syntax node is the same in every package that knows it.
func elementOf(t, key *Term) bool {
	if !t.contains(key) {
		return false
	}
	if t.op == OMapGet && !t.args[1].contains(key) && strings.Contains(t.args[0].typ.String(), "go/ast.") && strings.Contains(t.args[0].typ.String(), "go/types.") {
		return false
	}
	if t == key || len(t.args) == 0 {
		return true
	}
	for _, a := range t.args {
		if elementOf(a, key) {
			return true
		}
	}
	return false
}

// ordered: an effect whose order can be observed
func (k *orderCheck) ordered(ch *changes, key *Term, e *Event, at *State) bool {
	switch e.kind {
	case "go", "send", "dyn", "print", "select", "recv":
		return true
	case "loop", "iteration", "sort", "makechan", "join", "bufread":
		return false
	case "modcall":
		var f *ssa.Function
		for _, g := range k.c.p.funcs {
			if fname(g) == e.name {
				f = g
			}
		}
		if f == nil {
			return true
		}
		ef := k.c.p.effects(f)
		if len(ef.list) == 0 && !ef.all {
			return false
		}
		if ef.all && len(e.args) == 0 {
			return true
		}
		// it can only change what its arguments reach, and package variables
		for _, cl := range ef.list {
			if strings.HasPrefix(cl, "G:") {
				return true
			}
		}
		for _, a := range e.args {
			if _, basic := a.typ.Underlying().(*types.Basic); !basic && !within(ch, key, a) {
				return true
			}
		}
		return false
	}
	if strings.HasPrefix(e.name, "log.") || strings.HasPrefix(e.name, "sync.") || strings.HasPrefix(e.name, "(*sync.") {
		return false
	}
	if len(e.args) > 0 && (e.kind == "write" || e.kind == "copy") {
		return !within(ch, key, e.args[0])
	}
	for _, a := range e.args {
		if within(ch, key, a) {
			return false
		}
		for _, o := range ch.events {
			for _, r := range o.res {
				if a.contains(r) {
					return false
				}
			}
		}
	}
	return true
}

// check looks at everything that an outcome went through
func (k *orderCheck) outcome(o *Outcome) {
	failed := false
	var walk func(evs []*Event, st *State, res []*Term, mem *Mem, since *Mem) []atom
	walk = func(evs []*Event, st *State, res []*Term, mem *Mem, since *Mem) []atom {
		var open []atom
		if st == o.st {
			open = k.unordered(evs, st, res)
		}
		observe := func(what string, pos token.Pos, ts ...*Term) {
			for _, t := range ts {
				if t == nil {
					continue
				}
				for _, a := range open {
					if k.observes(t, a) {
						k.fail("observed", pos, "%s depends on %s", what, a.where(k))
					}
				}
			}
		}
		for _, e := range evs {
			switch e.kind {
			case "loop":
				for _, t := range bodyTerms(e.loop) {
					observe("a loop", e.pos, t)
				}
				for _, b := range e.loop.back {
					walk(b.events(e.loop.start.ev), b, nil, nil, nil)
				}
				// what the loop goes on with
				for _, a := range open {
					for j, t := range e.loop.init {
						if k.observes(t, a) {
							open = append(open, atom{e.loop.sym[j], a.rec, a.list, nil, a.why})
						}
					}
					if a.cell != nil {
						if v := ld(e.loop.start, a.cell); v != a.t && ld(e.loop.entry, a.cell) == a.t {
							open = append(open, atom{v, a.rec, a.list, a.cell, a.why})
						}
					}
				}
				if isMapRange(e.loop) {
					open = append(open, k.mapLoop(e.loop, st, failed)...)
				}
			case "sort":
				var rest []atom
				covered := k.chain(st, e.args[0])
				for _, a := range open {
					if !a.list || !covered[a.t] {
						rest = append(rest, a)
					}
				}
				n := len(open)
				open = rest
				for t := range covered {
					if collected(t) {
						n = len(rest) + 1
					}
				}
				if len(rest) < n {
					k.sorted(st, e)
				}
			case "callback":
				for _, q := range e.cb.outs {
					walk(q.st.events(nil), q.st, nil, nil, nil)
				}
			default:
				observe(e.name, e.pos, e.args...)
				observe(e.name, e.pos, e.text...)
			}
		}
		for _, t := range res {
			for _, a := range open {
				if !k.observes(t, a) {
					continue
				}
				if a.list && (k.f.Object() == nil || !k.f.Object().Exported()) {
					k.escape = true
					continue
				}
				k.fail("observed", o.pos, "the result depends on %s", a.where(k))
			}
		}
		for _, m := range st.writes(since) {
			if m.kind != mStore && m.kind != mMapUpd {
				continue
			}
			for _, a := range open {
				if m.val != nil && k.observes(m.val, a) && rootPtr(m.addr).op != OAlloc {
					k.fail("observed", m.pos, "what is stored in %s depends on %s", trunc(m.addr.String(), 80), a.where(k))
				}
			}
		}
		return open
	}
	for _, t := range o.res {
		failed = failed || isErrorType(t.typ) && o.st.facts.evalNil(t) != 1
	}
	left := walk(o.st.events(nil), o.st, o.res, nil, nil)
	for _, a := range left {
		if a.cell != nil && rootPtr(a.cell).op != OAlloc && k.observes(ld(o.st, a.cell), a) {
			k.fail("observed", a.rec.pos, "what is stored in %s depends on %s", trunc(a.cell.String(), 80), a.where(k))
		}
	}
}

// unordered lists the collected keys and values of maps that the terms mention
func (k *orderCheck) unordered(evs []*Event, st *State, res []*Term) (r []atom) {
	seen := map[*Term]bool{}
	scan := func(t *Term) {
		if t == nil {
			return
		}
		t.walk(func(u *Term) {
			if u.op != OCall || seen[u] {
				return
			}
			seen[u] = true
			if collected(u) && !k.sortedIn(evs, st, u) {
				r = append(r, atom{u, nil, true, nil, "the list that " + u.aux + " makes"})
			}
		})
	}
	for _, e := range evs {
		if e.kind == "sort" {
			continue
		}
		for _, t := range e.args {
			scan(t)
		}
		for _, t := range e.text {
			scan(t)
		}
		if e.kind == "loop" {
			for _, t := range bodyTerms(e.loop) {
				scan(t)
			}
		}
	}
	for _, t := range res {
		scan(t)
	}
	return
}

// collected: a list of keys or values in any order
func collected(t *Term) bool {
	if t.op != OCall || t.aux != "slices.Collect" && t.aux != "slices.AppendSeq" {
		return false
	}
	v := t.args[len(t.args)-1]
	return v.op == OCall && (v.aux == "maps.Keys" || v.aux == "maps.Values")
}

// sortedIn: the events sort the list
func (k *orderCheck) sortedIn(evs []*Event, st *State, t *Term) bool {
	for _, e := range evs {
		if e.kind == "sort" && k.chain(st, e.args[0])[t] {
			return true
		}
		if e.kind == "loop" {
			for _, b := range e.loop.back {
				if k.sortedIn(b.events(e.loop.start.ev), b, t) {
					return true
				}
			}
		}
	}
	return false
}

func (a atom) where(k *orderCheck) string {
	if a.rec == nil {
		return a.why
	}
	return a.why + " of the range at " + k.c.p.pos(a.rec.pos)
}

func (k *orderCheck) observes(t *Term, a atom) bool {
	if k.r.x.nexts[a.t] != nil {
		return elementOf(t, a.t)
	}
	return reads(t, a.t)
}

// reads: more than the length of an ordered value is used
func reads(t, a *Term) bool {
	if t == a {
		return true
	}
	if (t.op == OLen || t.op == OCap || t.op == OIsNil) && t.args[0] == a {
		return false
	}
	for _, u := range t.args {
		if reads(u, a) {
			return true
		}
	}
	if t.lin != nil {
		for _, v := range t.lin.vs {
			if reads(v.t, a) {
				return true
			}
		}
	}
	return false
}

// whole: a slice of everything
func (k *orderCheck) whole(t *Term) bool {
	lo, ok := t.args[1].intConst()
	return ok && lo == 0 && (len(t.args) < 3 || t.args[2].isNil() || t.args[2] == mkLen(t.args[0]))
}

// chain lists the values that a list went through while it was built
func (k *orderCheck) chain(st *State, t *Term) map[*Term]bool {
	r := map[*Term]bool{}
	var add func(st *State, t *Term, d int)
	add = func(st *State, t *Term, d int) {
		t = st.facts.subst(t)
		if d > 12 || r[t] {
			return
		}
		for t.op == OSlice && k.whole(t) {
			t = t.args[0]
		}
		switch t.op {
		case OAppend:
			add(st, t.args[0], d+1)
			return
		case OAppendS:
			add(st, t.args[0], d+1)
			add(st, t.args[1], d+1)
			return
		}
		if collected(t) || t.op == OAlloc {
			r[t] = true
			return
		}
		if rec, init, next, ok := k.w.accum(st, t); ok {
			r[t] = true
			add(rec.entry, init, d+1)
			for i, nx := range next {
				add(rec.back[i], nx, d+1)
			}
		}
	}
	add(st, t, 0)
	return r
}

// leaf is a value that a list gets, with the keys of the ranges over maps around it
type leaf struct {
	t     *Term
	st    *State
	keys  []*Term
	loops string
}

func (k *orderCheck) leaves(segs []listSeg, keys []*Term, loops string) (r []leaf) {
	for i, s := range segs {
		if s.rec == nil {
			r = append(r, leaf{s.t, s.st, keys, fmt.Sprintf("%s/%d", loops, i)})
			continue
		}
		for n, alt := range s.alts {
			in := append([]*Term{}, keys...)
			name := loops + "/" + k.c.p.pos(s.rec.pos)
			if isMapRange(s.rec) {
				if key, _ := k.keyOf(s.rec, s.back[n]); key != nil {
					in = append(in, key)
				}
			} else {
				name += " in order"
			}
			r = append(r, k.leaves(alt, in, name)...)
		}
	}
	return
}

// tie is how a comparison cannot tell two elements apart
type tie struct {
	f    *Facts
	st   *State
	a, b *Term // the elements, or their indexes
	seq  *Term
}

// ties lists the ways in which two elements are in no order
func (k *orderCheck) ties(e *Event) (r []tie, ok bool) {
	cb := e.cb
	cl := cb.fn
	g, _ := cl.obj.(*ssa.Function)
	if g == nil || len(cb.args) != 2 {
		return nil, false
	}
	back := k.r.x.call(g, append(append([]*Term{}, cb.recv...), cb.args[1], cb.args[0]), cl.args, cb.st.clone())
	zero := func(t *Term) []*Term {
		if isInteger(t.typ) {
			l := linOf(t)
			neg := mkGe0(linAdd(linSub(linConst(0), l), linConst(-1)))
			return []*Term{mkEq0(l), neg, mkGe0(linAdd(l, linConst(-1)))}
		}
		return []*Term{t}
	}
	for _, o := range cb.outs {
		for _, q := range back {
			if len(o.res) != 1 || len(q.res) != 1 {
				continue
			}
			f0, ok := merge(o.st.facts, q.st.facts)
			if !ok {
				continue
			}
			var cases []*Facts
			x, y := zero(o.res[0]), zero(q.res[0])
			for i := range x {
				for _, v := range []bool{true, false} {
					if len(x) > 1 && !v {
						continue
					}
					if f, ok := f0.assume(x[i], v); ok {
						if f, ok = f.assume(y[i], v); ok {
							cases = append(cases, f)
						}
					}
				}
			}
			for _, f := range cases {
				if f, ok := compared(o.st, f); ok {
					r = append(r, tie{f, o.st, cb.args[0], cb.args[1], e.args[0]})
				}
			}
		}
	}
	return r, true
}

// compared adds what comparisons say about each other
func compared(st *State, f *Facts) (*Facts, bool) {
	isCmp := func(t *Term) bool {
		return t.op == OCall && (t.aux == "cmp.Compare" || t.aux == "strings.Compare") && len(t.args) == 2
	}
	calls := map[*Term]bool{}
	scan := func(t *Term) {
		t.walk(func(u *Term) {
			if isCmp(u) {
				calls[u] = true
			}
			if u.lin != nil {
				for _, v := range u.lin.vs {
					v.t.walk(func(w *Term) {
						if isCmp(w) {
							calls[w] = true
						}
					})
				}
			}
		})
	}
	for l := range f.lits {
		scan(l)
	}
	for t := range f.cst {
		scan(t)
	}
	for _, l := range f.lin {
		for _, v := range l.vs {
			scan(v.t)
		}
	}
	var cs []*Term
	for t := range calls {
		cs = append(cs, t)
	}
	sortTerms(cs)
	ok := true
	for _, a := range cs {
		for _, b := range cs {
			if a != b && equal(f, a.args[0], b.args[1]) && equal(f, a.args[1], b.args[0]) {
				if f, ok = f.assume(mkEq0(linAdd(linOf(a), linOf(b))), true); !ok {
					return nil, false
				}
			}
		}
	}
	for _, a := range cs {
		if f.eval(mkEq0(linOf(a))) == 1 {
			if f, ok = f.assume(mkEq(a.args[0], a.args[1]), true); !ok {
				return nil, false
			}
		}
		if f.eval(mkEq(a.args[0], a.args[1])) == 1 {
			if f, ok = f.assume(mkEq0(linOf(a)), true); !ok {
				return nil, false
			}
		}
	}
	var ls []*Term
	for l := range f.lits {
		if l.op == OBin && l.aux == "<" {
			ls = append(ls, l)
		}
	}
	sortTerms(ls)
	for _, l := range ls {
		for _, m := range ls {
			if l == m || !equal(f, l.args[0], m.args[1]) || !equal(f, l.args[1], m.args[0]) {
				continue
			}
			if f.lits[l] && f.lits[m] {
				return nil, false
			}
			if !f.lits[l] && !f.lits[m] {
				if f, ok = f.assume(mkEq(l.args[0], l.args[1]), true); !ok {
					return nil, false
				}
			}
		}
		if f.lits[l] {
			if f, ok = f.assume(mkEq(l.args[0], l.args[1]), false); !ok {
				return nil, false
			}
		}
	}
	return f, true
}

// of replaces the element of a comparison by a value
func (t tie) of(x, v *Term, st *State) *Term {
	if x == t.a {
		return v
	}
	switch x.op {
	case OLoad:
		if a := x.args[0]; t.at(a) != nil {
			return t.field(a, v)
		} else if a.op == OFieldAddr {
			n, err := strconv.Atoi(a.aux)
			if p := t.of(a.args[0], v, st); err == nil && p != nil {
				return ld(st, mkFieldAddr(p, n, a.typ))
			}
		}
		return nil
	case OField:
		n, err := strconv.Atoi(x.aux)
		if p := t.of(x.args[0], v, st); err == nil && p != nil {
			return mkField(p, n, x.typ)
		}
	}
	return nil
}

// at: the address is in the element
func (t tie) at(a *Term) *Term {
	for a.op == OFieldAddr {
		a = a.args[0]
	}
	if a.op == OIndexAddr && a.args[0] == t.seq && a.args[1] == t.a {
		return a
	}
	return nil
}

func (t tie) field(a, v *Term) *Term {
	if a.op == OIndexAddr {
		return v
	}
	n, err := strconv.Atoi(a.aux)
	if p := t.field(a.args[0], v); err == nil && p != nil {
		return mkField(p, n, elemOf(a.typ))
	}
	return nil
}

// other is the same part of the other element
func (t tie) other(x *Term) *Term {
	if x == t.a {
		return t.b
	}
	if !x.contains(t.a) {
		if x.contains(t.b) {
			return nil
		}
		return x
	}
	p := t.other(x.args[0])
	if p == nil {
		return nil
	}
	switch x.op {
	case OLoad:
		return mk(OLoad, x.typ, x.aux, false, p)
	case OFieldAddr, OField:
		n, err := strconv.Atoi(x.aux)
		if err != nil {
			return nil
		}
		if x.op == OField {
			return mkField(p, n, x.typ)
		}
		return mkFieldAddr(p, n, x.typ)
	case OIndexAddr:
		i := t.other(x.args[1])
		if i == nil {
			return nil
		}
		return mkIndexAddr(p, i, x.typ)
	}
	return nil
}

// same lists what two elements have in common when they tie
func (t tie) same() (r []*Term) {
	seen := map[*Term]bool{}
	var add func(u *Term)
	add = func(u *Term) {
		if seen[u] || !u.contains(t.a) {
			return
		}
		seen[u] = true
		if u.op == OLoad || u.op == OField || u == t.a && !isInteger(u.typ) {
			if v := t.other(u); v != nil && (t.f.eval(mkEq(u, v)) == 1 || equal(t.f, u, v)) {
				r = append(r, u)
			}
		}
	}
	scan := func(l *Term) { l.walk(add) }
	for l := range t.f.lits {
		scan(l)
	}
	for u, v := range t.f.cst {
		scan(u)
		scan(v)
	}
	for _, l := range t.f.lin {
		for _, v := range l.vs {
			scan(v.t)
		}
	}
	sortTerms(r)
	return
}

// sorted: the order that the sort makes does not depend on the order before
func (k *orderCheck) sorted(st *State, e *Event) {
	k.c.count("sorts", 1)
	if e.cb == nil {
		return // equal elements are the same
	}
	ties, ok := k.ties(e)
	if !ok {
		k.fail("undecided", e.pos, "the comparison of %s is not known", e.name)
		return
	}
	segs, known := k.w.list(st, e.args[0], nil, 0)
	if !known {
		k.fail("undecided", e.pos, "what %s sorts is not known", e.name)
		return
	}
	ls := k.leaves(segs, nil, "")
	stable := strings.Contains(e.name, "Stable")
	for _, t := range ties {
		k.c.count("ties", 1)
		same := t.same()
		whole := false
		for _, u := range same {
			if u == t.a || u.op == OLoad && u.args[0].op == OIndexAddr && t.at(u.args[0]) != nil {
				whole = true
			}
		}
		if whole {
			continue
		}
		for n, l := range ls {
			for _, key := range l.keys {
				if !k.tells(t, same, l, key) {
					k.fail("partial-order", e.pos, "%s does not put elements in order that are from different keys of the range at %s, when %s", e.name, k.c.p.pos(k.headerPos(k.r.x.nexts[key].Block())), trunc(t.f.describe(), 300))
				}
			}
			if stable {
				continue
			}
			if strings.HasSuffix(l.loops, " in order") {
				k.fail("partial-order", e.pos, "%s puts equal elements in no order", e.name)
			}
			for _, m := range ls[:n] {
				if m.loops != l.loops && !apart(t, same, l, m) {
					k.fail("partial-order", e.pos, "%s is not stable, and puts equal elements from %s and %s in no order", e.name, m.loops, l.loops)
				}
			}
		}
	}
}

// tells: equal elements of this kind have the same key
func (k *orderCheck) tells(t tie, same []*Term, l leaf, key *Term) bool {
	for _, u := range same {
		c := t.of(u, l.t, l.st)
		if c == nil {
			continue
		}
		if equal(l.st.facts, c, key) || injective(c, key) {
			return true
		}
		// an entry is stored under its id
		if c.op == OLoad && c.args[0].op == OFieldAddr && fieldName(c.args[0]) == "ID" {
			if p := c.args[0].args[0]; p.op == OMapGet && equal(l.st.facts, p.args[1], key) {
				return true
			}
		}
	}
	return false
}

// apart: elements of two kinds are never equal
func apart(t tie, same []*Term, l, m leaf) bool {
	for _, u := range same {
		a, b := t.of(u, l.t, l.st), t.of(u, m.t, m.st)
		if a == nil || b == nil {
			continue
		}
		f, ok := merge(l.st.facts, m.st.facts)
		if ok && f.eval(mkEq(a, b)) == 0 {
			return true
		}
	}
	return false
}

func (c *Ctx) mapOrder(f *ssa.Function, seen map[*ssa.Function]bool) {
	if seen[f] {
		return
	}
	seen[f] = true
	k := &orderCheck{c: c, f: f, done: map[string]bool{}, loops: map[token.Pos]bool{}}
	k.r = c.runFn(f, func(x *Interp) {
		x.pure = func(h *ssa.Function) bool { return h != f && c.valueFunc(h) }
		x.opaque = func(h *ssa.Function) bool {
			return h != f && h.Parent() == nil && size(h, map[*ssa.Function]bool{}) > 30 && !rangesMap(h, map[*ssa.Function]bool{})
		}
	})
	k.w = &textOf{c: c, x: k.r.x}
	for i, o := range k.r.outs {
		k.outcome(o)
		for _, q := range k.r.outs[:i] {
			k.firstWins(o, q)
		}
	}
	if k.escape {
		for _, g := range c.callersOf(f) {
			c.mapOrder(g, seen)
		}
	}
}

// valueFunc: a function of texts and numbers to texts and numbers that ranges over no map
func (c *Ctx) valueFunc(f *ssa.Function) bool {
	basic := func(t *types.Tuple) bool {
		for i := 0; i < t.Len(); i++ {
			if _, ok := t.At(i).Type().Underlying().(*types.Basic); !ok {
				return false
			}
		}
		return true
	}
	if f.Parent() != nil || f.Signature.Recv() != nil || len(f.Blocks) == 0 || !basic(f.Signature.Params()) || !basic(f.Signature.Results()) {
		return false
	}
	if e := c.p.effects(f); e.all || len(e.list) > 0 {
		return false
	}
	return !rangesMap(f, map[*ssa.Function]bool{})
}

func rangesMap(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Range); ok {
				if _, ok := r.X.Type().Underlying().(*types.Map); ok {
					return true
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if h := ci.Common().StaticCallee(); h != nil && rangesMap(h, seen) {
					return true
				}
			}
		}
	}
	for _, h := range f.AnonFuncs {
		if rangesMap(h, seen) {
			return true
		}
	}
	return false
}

// size is the number of blocks of a function and of what it calls
func size(f *ssa.Function, seen map[*ssa.Function]bool) int {
	if seen[f] {
		return 0
	}
	seen[f] = true
	n := len(f.Blocks)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if h := ci.Common().StaticCallee(); h != nil {
					n += size(h, seen)
				}
			}
		}
	}
	return n
}

// callersOf lists the functions that call f directly
func (c *Ctx) callersOf(f *ssa.Function) (r []*ssa.Function) {
	for _, g := range c.p.funcs {
		hit := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
					hit = true
				}
			}
		}
		if hit {
			r = append(r, topFunc(g))
		}
	}
	return
}

// inModule: the function is written in this module
func inModule(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
}

func topFunc(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func init() {
	register("C17", "In every function that ranges over a map (or collects its keys), what each iteration does is summarised by abstract interpretation: an effect that others can see in order, an entry or variable that the last iteration wins, an early exit after effects, a condition on what earlier iterations left, and a list in iteration order that anything reads before it is sorted are violations; a sort only settles the order when its comparison, run both ways, calls two elements equal only if they come from the same key (and from the same source, if the sort is not stable). Clock readings and random numbers are not used.", func(c *Ctx) {
		for _, f := range c.p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if h := ci.Common().StaticCallee(); h != nil && h.Pkg != nil {
							if path := h.Pkg.Pkg.Path(); path == "math/rand" || path == "math/rand/v2" || path == "crypto/rand" || path == "time" && h.Name() == "Now" {
								c.fail("varying", fname(f), in.Pos(), "%s is called: it gives something else on every run", h.String())
							}
						}
					}
				}
			}
		}
		seen := map[*ssa.Function]bool{}
		for _, f := range c.p.funcs {
			has := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Range); ok {
						if _, ok := r.X.Type().Underlying().(*types.Map); ok {
							has = true
						}
					}
				}
			}
			if has && inModule(topFunc(f)) {
				c.count("functions", 1)
				c.mapOrder(topFunc(f), seen)
			}
		}
	})
}
