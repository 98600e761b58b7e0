package main

import (
	"go/token"
	"go/types"
	"strconv"
)

// The heap is a persistent log of writes, allocations and havocs, newest first.

type memKind uint8

const (
	mStore memKind = iota
	mMapUpd
	mMapDel
	mAlloc
	mHavocAddr  // the cell (or the map) at addr has an unknown value
	mHavocClass // every cell of the class; fresh: only objects born after seq
	mHavocAll
	mCopy // addr: destination slice, val: source slice
)

type Mem struct {
	kind  memKind
	addr  *Term
	key   *Term
	val   *Term
	class string
	fresh int // mHavocClass: only addresses with seq > fresh (0: all)
	keep  map[*Term]bool
	held  map[*Term]bool // mHavocAll: objects read-locked here: their own fields stay
	id    int
	seq   int
	pos   token.Pos
	fn    string
	prev  *Mem
	depth int
}

type Event struct {
	kind string // call, invoke, loop, send, go, callback, lock...
	name string
	args []*Term
	res  []*Term
	text []*Term // what a print function writes
	pos  token.Pos
	loop *LoopRec
	cb   *CallbackRec
	mem  *Mem // heap before the event
	prev *Event
	n    int
}

type State struct {
	facts *Facts
	mem   *Mem
	ev    *Event
	held  map[*Term]bool // objects whose mutex is held for reading (never changed in place)
}

// withHeld adds or removes an object
func (s *State) setHeld(o *Term, on bool) {
	n := map[*Term]bool{}
	for k := range s.held {
		n[k] = true
	}
	if on {
		n[o] = true
	} else {
		delete(n, o)
	}
	s.held = n
}

func commonHeld(a, b map[*Term]bool) map[*Term]bool {
	n := map[*Term]bool{}
	for k := range a {
		if b[k] {
			n[k] = true
		}
	}
	return n
}

// kept: a havoc of everything leaves the cell alone, because its variable is never written
// after initialisation, or is a field of an object that nobody can write now
func (m *Mem) kept(addr, root *Term) bool {
	if m.keep[root] {
		return true
	}
	if addr.op == OGlobal {
		return constGlobals[addr.aux]
	}
	for a := addr; a.op == OFieldAddr; a = a.args[0] {
		if m.held[a.args[0]] {
			return true
		}
	}
	return false
}

// constGlobals: package variables of the module that only initialisation writes
var constGlobals map[string]bool

func (s *State) clone() *State { c := *s; return &c }

func (s *State) push(m *Mem) {
	m.id = tick()
	m.seq = m.id
	m.prev = s.mem
	if s.mem != nil {
		m.depth = s.mem.depth + 1
	}
	s.mem = m
}

func (s *State) event(e *Event) {
	e.prev = s.ev
	if s.ev != nil {
		e.n = s.ev.n + 1
	}
	if e.mem == nil {
		e.mem = s.mem
	}
	s.ev = e
}

// events returns the events oldest first, newer than stop
func (s *State) events(stop *Event) []*Event {
	var r []*Event
	for e := s.ev; e != nil && e != stop; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// writes returns the heap log oldest first, newer than stop
func (s *State) writes(stop *Mem) []*Mem {
	var r []*Mem
	for e := s.mem; e != nil && e != stop; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func elemOf(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// classOf names the set of cells that an address belongs to
func classOf(addr *Term) string {
	switch addr.op {
	case OFieldAddr:
		return fieldClass(addr.args[0].typ, addr.aux)
	case OIndexAddr:
		if e := elemOf(addr.typ); e != nil {
			return "E:" + typeStr(e)
		}
	case OGlobal:
		return "G:" + addr.aux
	}
	if e := elemOf(addr.typ); e != nil {
		return "C:" + typeStr(e)
	}
	return "C:?"
}

func fieldClass(base types.Type, idx string) string {
	t := base
	if e := elemOf(base); e != nil {
		t = e
	}
	name := idx
	if st, ok := t.Underlying().(*types.Struct); ok {
		i, _ := strconv.Atoi(idx)
		if i < st.NumFields() {
			name = st.Field(i).Name()
		}
	}
	return "F:" + typeStr(t) + "." + name
}

func mapClass(t types.Type) string { return "M:" + typeStr(t.Underlying()) }

// alias: 1 must, 0 no, -1 maybe
func (s *State) alias(a, b *Term) int {
	if a == b {
		return 1
	}
	if distinct(a, b) {
		return 0
	}
	if a.op == OIndexAddr && b.op == OIndexAddr {
		base := s.alias(a.args[0], b.args[0])
		idx := s.facts.eval(mkEq(a.args[1], b.args[1]))
		switch {
		case base == 1 && idx == 1:
			return 1
		case base == 0 || (base == 1 && idx == 0):
			return 0
		}
		return -1
	}
	if a.op == OFieldAddr && b.op == OFieldAddr && a.aux == b.aux && types.Identical(a.args[0].typ, b.args[0].typ) {
		return s.alias(a.args[0], b.args[0])
	}
	if (a.op == OIndexAddr) != (b.op == OIndexAddr) && (a.op == OFieldAddr || b.op == OFieldAddr) {
		return -1
	}
	switch s.facts.eval(mkEq(a, b)) {
	case 1:
		return 1
	case 0:
		return 0
	}
	return -1
}

var frozenMem func(addr *Term) (*State, bool)

const maxArrayVal = 64

// load reads the value of type typ at addr
func (s *State) load(addr *Term, typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			ft := u.Field(i).Type()
			fs[i] = s.load(mkFieldAddr(addr, i, types.NewPointer(ft)), ft)
		}
		return mkStruct(typ, fs)
	case *types.Array:
		if u.Len() <= maxArrayVal {
			es := make([]*Term, u.Len())
			for i := range es {
				es[i] = s.load(mkIndexAddr(addr, mkInt(int64(i)), types.NewPointer(u.Elem())), u.Elem())
			}
			return mkStruct(typ, es)
		}
	}
	// elements of an append result
	if addr.op == OIndexAddr {
		if v := s.loadAppend(addr, typ); v != nil {
			return v
		}
	}
	class := classOf(addr)
	root := rootPtr(addr)
	for m := s.mem; m != nil; m = m.prev {
		switch m.kind {
		case mStore, mHavocAddr:
			if m.class != class {
				continue
			}
			switch s.alias(m.addr, addr) {
			case 0:
				continue
			case 1:
				if m.kind == mStore {
					return m.val
				}
			}
			return mkLoad(addr, m, typ)
		case mAlloc:
			if m.addr == root {
				if addr.op == OIndexAddr && m.val != nil && m.val.op == OSym { // contents given by an external
					return mkLoad(addr, nil, typ)
				}
				return zeroValue(typ)
			}
		case mHavocClass:
			if m.class == class && (m.fresh == 0 || addr.seq > m.fresh) && !m.keep[root] {
				return mkLoad(addr, m, typ)
			}
		case mHavocAll:
			if !m.kept(addr, root) {
				return mkLoad(addr, m, typ)
			}
		case mCopy:
			if class != m.class || addr.op != OIndexAddr {
				continue
			}
			dst := m.addr
			var droot, doff *Term
			if dst.op == OSlice {
				droot, doff = dst.args[0], dst.args[1]
			} else {
				droot, doff = dst, mkInt(0)
			}
			switch s.alias(droot, addr.args[0]) {
			case 0:
				continue
			case 1:
				i := mkLin(linSub(linOf(addr.args[1]), linOf(doff)))
				if s.facts.eval(mkGe0(linOf(i))) == 1 && s.facts.eval(mkGe0(linAdd(linSub(linOf(mkLen(m.val)), linOf(i)), linConst(-1)))) == 1 {
					old := &State{facts: s.facts, mem: m.prev}
					return old.load(mkIndexAddr(m.val, i, addr.typ), typ)
				}
			}
			return mkLoad(addr, m, typ)
		}
	}
	if frozenMem != nil {
		if st, ok := frozenMem(addr); ok && st != s && st.mem != s.mem {
			f := &State{facts: newFacts(), mem: st.mem}
			return f.load(addr, typ)
		}
	}
	if v := s.fieldOfAppend(addr); v != nil {
		return v
	}
	return mkLoad(addr, nil, typ)
}

// fieldOfAppend: a field of a structure that was appended, and not written to since
func (s *State) fieldOfAppend(addr *Term) *Term {
	if addr.op != OFieldAddr {
		return nil
	}
	base := addr.args[0]
	var v *Term
	switch e := elemOf(base.typ); {
	case base.op == OIndexAddr && e != nil:
		v = s.loadAppend(base, e)
	case base.op == OFieldAddr:
		v = s.fieldOfAppend(base)
	}
	if v == nil {
		return nil
	}
	i, err := strconv.Atoi(addr.aux)
	if err != nil {
		return nil
	}
	return mkField(v, i, elemOf(addr.typ))
}

func (s *State) loadAppend(addr *Term, typ types.Type) *Term {
	base, idx := addr.args[0], addr.args[1]
	switch base.op {
	case OAppend:
		off := linSub(linOf(idx), linOf(mkLen(base.args[0])))
		if len(off.vs) == 0 {
			if off.c >= 0 && off.c < int64(len(base.args)-1) {
				return base.args[1+off.c]
			}
		}
		if s.facts.entails(linAdd(linScale(off, -1), linConst(-1))) {
			return s.load(mkIndexAddr(base.args[0], idx, addr.typ), typ)
		}
	case OAppendS:
		off := linSub(linOf(idx), linOf(mkLen(base.args[0])))
		if s.facts.entails(off) {
			return s.load(mkIndexAddr(base.args[1], mkLin(off), addr.typ), typ)
		}
		if s.facts.entails(linAdd(linScale(off, -1), linConst(-1))) {
			return s.load(mkIndexAddr(base.args[0], idx, addr.typ), typ)
		}
	}
	return nil
}

func mkLoad(addr *Term, m *Mem, typ types.Type) *Term {
	ver := "0"
	seq := 0
	if m != nil {
		ver = strconv.Itoa(m.id)
		seq = m.seq
	}
	t := mk(OLoad, typ, ver, false, addr)
	if seq > t.seq {
		t.seq = seq
	}
	return t
}

// store writes a value, splitting aggregates
func (s *State) store(addr, val *Term, typ types.Type, pos token.Pos, fn string) {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			s.store(mkFieldAddr(addr, i, types.NewPointer(ft)), fieldOf(val, i, ft), ft, pos, fn)
		}
		return
	case *types.Array:
		if u.Len() <= maxArrayVal {
			for i := 0; i < int(u.Len()); i++ {
				s.store(mkIndexAddr(addr, mkInt(int64(i)), types.NewPointer(u.Elem())), elemAt(val, i, u.Elem()), u.Elem(), pos, fn)
			}
			return
		}
	}
	s.push(&Mem{kind: mStore, addr: addr, val: val, class: classOf(addr), pos: pos, fn: fn})
}

func fieldOf(v *Term, i int, ft types.Type) *Term {
	if v.op == OConst {
		return zeroValue(ft)
	}
	return mkField(v, i, ft)
}

func elemAt(v *Term, i int, et types.Type) *Term {
	if v.op == OStruct {
		return v.args[i]
	}
	if v.op == OConst {
		return zeroValue(et)
	}
	return mkIndex(v, mkInt(int64(i)), et)
}

// mapLookup finds the entry of a map. cond is a condition on which the answer depends
// (equality of two keys), to be decided by the caller; otherwise has and val are the answer.
func (s *State) mapLookup(m, k *Term, mt *types.Map) (has, val, cond *Term) {
	if m.isNil() || s.facts.evalNil(m) == 1 {
		return mkBool(false), zeroValue(mt.Elem()), nil
	}
	class := mapClass(m.typ)
	// the log records keys; two writes of the same key shadow each other
	for e := s.mem; e != nil; e = e.prev {
		switch e.kind {
		case mMapUpd, mMapDel:
			if e.class != class {
				continue
			}
			switch s.alias(e.addr, m) {
			case 0:
				continue
			case -1:
				return s.mapVer(m, k, e, mt)
			}
			c := mkEq(e.key, k)
			switch s.facts.eval(c) {
			case 0:
				continue
			case -1:
				return nil, nil, c
			}
			if e.kind == mMapUpd {
				return mkBool(true), e.val, nil
			}
			return mkBool(false), zeroValue(mt.Elem()), nil
		case mAlloc:
			if e.addr == m {
				return mkBool(false), zeroValue(mt.Elem()), nil
			}
		case mHavocAddr:
			if e.class != class {
				continue
			}
			if s.alias(e.addr, m) == 0 {
				continue
			}
			return s.mapVer(m, k, e, mt)
		case mHavocClass:
			if e.class == class && (e.fresh == 0 || m.seq > e.fresh) && !e.keep[m] {
				return s.mapVer(m, k, e, mt)
			}
		case mHavocAll:
			if !e.keep[m] {
				return s.mapVer(m, k, e, mt)
			}
		}
	}
	if frozenMem != nil {
		if st, ok := frozenMem(m); ok && st.mem != s.mem {
			f := &State{facts: s.facts, mem: st.mem}
			return f.mapLookup(m, k, mt)
		}
	}
	return s.mapVer(m, k, nil, mt)
}

func (s *State) mapVer(m, k *Term, e *Mem, mt *types.Map) (has, val, cond *Term) {
	ver, seq := "0", 0
	if e != nil {
		ver, seq = strconv.Itoa(e.id), e.seq
	}
	has = mk(OMapHas, types.Typ[types.Bool], ver, false, m, k)
	val = mk(OMapGet, mt.Elem(), ver, false, m, k)
	if val.seq < seq {
		val.seq = seq
	}
	if s.facts.eval(has) == 0 {
		return mkBool(false), zeroValue(mt.Elem()), nil
	}
	return has, s.expand(val, mt.Elem()), nil
}

// expand turns an opaque value of struct type into a struct of its fields
func (s *State) expand(v *Term, t types.Type) *Term {
	if st, ok := t.Underlying().(*types.Struct); ok && v.op != OStruct {
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fs[i] = s.expand(mkField(v, i, st.Field(i).Type()), st.Field(i).Type())
		}
		return mkStruct(t, fs)
	}
	return v
}

// mapLen is the number of entries of a map now
func (s *State) mapLen(m *Term) *Term {
	if m.isNil() || s.facts.evalNil(m) == 1 {
		return mkInt(0)
	}
	class := mapClass(m.typ)
	for e := s.mem; e != nil; e = e.prev {
		hit := false
		switch e.kind {
		case mMapUpd, mMapDel, mHavocAddr:
			hit = e.class == class && s.alias(e.addr, m) != 0
		case mHavocClass:
			hit = e.class == class && (e.fresh == 0 || m.seq > e.fresh) && !e.keep[m]
		case mHavocAll:
			hit = !e.keep[m]
		case mAlloc:
			if e.addr == m {
				return mkInt(0)
			}
		}
		if hit {
			return mk(OLen, types.Typ[types.Int], strconv.Itoa(e.id), false, m)
		}
	}
	return mk(OLen, types.Typ[types.Int], "", false, m)
}

// escaped computes the allocations that code outside the current function can reach
func (s *State) unescaped(args []*Term) map[*Term]bool {
	allocs := map[*Term]bool{}
	var stores []*Mem
	for m := s.mem; m != nil; m = m.prev {
		switch m.kind {
		case mAlloc:
			allocs[m.addr] = true
		case mStore, mMapUpd:
			stores = append(stores, m)
		}
	}
	var drop func(t *Term)
	changed := true
	drop = func(t *Term) {
		t.walk(func(x *Term) {
			if x.op == OAlloc && allocs[x] {
				delete(allocs, x)
				changed = true
			}
		})
	}
	for _, a := range args {
		drop(a)
	}
	for changed {
		changed = false
		for _, m := range stores {
			root := rootPtr(m.addr)
			if !allocs[root] {
				drop(m.val)
				if m.key != nil {
					drop(m.key)
				}
			}
		}
	}
	return allocs
}
