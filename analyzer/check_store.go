package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isTranslationMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isString(m.Key()) {
		return false
	}
	return isTranslationPtr(m.Elem())
}

func isTranslationPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Translation" && n.Obj().Pkg().Name() == "gotext"
}

func isContextMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isTranslationMap(m.Elem())
}

// catalogueMap: the map may be one that lookups read
func catalogueMap(st *State, m *Term, fresh map[*Term]bool) bool {
	if m.op == OAlloc {
		return !fresh[m]
	}
	if m.op == OMapGet {
		return catalogueMap(st, m.args[0], fresh)
	}
	if m.op == OLoad && m.args[0].op == OFieldAddr && isContextMap(m.typ) {
		return true
	}
	if m.op == OLoad && m.args[0].op == OFieldAddr {
		return fieldName(m.args[0]) == "translations"
	}
	return true
}

// forEachWrite visits the heap writes of an outcome and of the loops that it went through
func forEachWrite(outs []*Outcome, visit func(st *State, m *Mem)) {
	seen := map[*LoopRec]bool{}
	var loops func(st *State)
	loops = func(st *State) {
		for _, rec := range loopsOf(st) {
			if seen[rec] {
				continue
			}
			seen[rec] = true
			for _, b := range rec.back {
				for _, m := range b.writes(rec.start.mem) {
					visit(b, m)
				}
				loops(b)
			}
		}
	}
	for _, o := range outs {
		for _, m := range o.st.writes(nil) {
			visit(o.st, m)
		}
		loops(o.st)
	}
}

// entryIDs: every entry is stored in a catalogue under its own ID
func (c *Ctx) entryIDs() {
	for _, f := range c.p.funcs {
		if pkgOf(f) == nil || pkgOf(f) != c.p.pkg("") {
			continue
		}
		writes := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && isTranslationMap(mu.Map.Type()) && !otherField(mu.Map) {
					writes = true
				}
			}
		}
		if !writes || f.Parent() != nil {
			continue
		}
		r := c.runFn(f, func(x *Interp) { x.precise = false; x.pathCap, x.loopCap, x.outCap = 32, 8, 8 })
		forEachWrite(r.outs, func(st *State, m *Mem) {
			if m.kind != mMapUpd || !isTranslationMap(m.addr.typ) {
				return
			}
			if !catalogueMap(st, m.addr, st.unescaped(r.args)) {
				return
			}
			c.count("entry_writes", 1)
			ida := fieldAddr(m.val, "ID")
			id := st.load(ida, types.Typ[types.String])
			if !equal(st.facts, id, m.key) {
				c.fail("entry-id", fname(f), m.pos, "stores an entry with the id %s under the key %s", id, m.key)
			}
			if m.val.op == OLoad && m.val.args[0].op == OFieldAddr && strings.Contains(typeStr(m.val.args[0].args[0].typ), "Domain") {
				if now := st.load(m.val.args[0], m.val.typ); now == m.val {
					c.fail("entry-id", fname(f), m.pos, "the stored entry stays the buffer that later lines are written to")
				}
			}
		})
	}
	c.atLeast("entry_writes", 10)
}

// otherField: the map is a field of the domain that lookups do not read
func otherField(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	st := structOf(elemOf(fa.X.Type()))
	return st != nil && isTranslationMap(st.Field(fa.Field).Type()) && st.Field(fa.Field).Name() != "translations"
}
