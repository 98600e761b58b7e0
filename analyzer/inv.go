package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Invariants are facts about every object of the module between calls: the named reference
// fields, elements, map values and globals are not nil, the named numbers are not zero.
// They start as candidates and are dropped as soon as one analysed function may break them.
type Invariants struct {
	cand    map[string]bool
	nz      map[string]bool
	lb      map[string]int64 // lower bounds of signed numbers
	dropped map[string]string
	changed bool
}

type contract struct {
	nonNil  map[int]bool
	errPair map[int]bool
	lin     map[string]linContract
}

type linContract func(args, res []*Term) *Lin

func newInvariants() *Invariants {
	return &Invariants{cand: map[string]bool{}, nz: map[string]bool{}, lb: map[string]int64{}, dropped: map[string]string{}}
}

func (iv *Invariants) holds(class string) bool { return iv.cand[class] }

func (iv *Invariants) drop(class, why string) {
	if _, ok := iv.lb[class]; ok || iv.cand[class] || iv.nz[class] {
		delete(iv.lb, class)
		delete(iv.cand, class)
		delete(iv.nz, class)
		iv.dropped[class] = why
		iv.changed = true
	}
}

func refType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// seed proposes the candidates for every type and global of the packages
func (iv *Invariants) seed(p *Program) {
	var walk func(t types.Type, seen map[string]bool)
	walk = func(t types.Type, seen map[string]bool) {
		k := typeStr(t)
		if seen[k] {
			return
		}
		seen[k] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			walk(u.Elem(), seen)
		case *types.Slice:
			_, isFn := u.Elem().Underlying().(*types.Signature)
			if pt, ok := u.Elem().Underlying().(*types.Pointer); ok && isModule(pt.Elem()) || isFn && isModule(u.Elem()) {
				iv.cand["E:"+typeStr(u.Elem())] = true
			}
			walk(u.Elem(), seen)
		case *types.Array:
			walk(u.Elem(), seen)
		case *types.Map:
			if refType(u.Elem()) {
				iv.cand["ME:"+typeStr(u)] = true
			}
			walk(u.Elem(), seen)
		case *types.Struct:
			if n, ok := t.(*types.Named); ok && !isModule(n) {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				if refType(ft) {
					iv.cand[fieldClass(t, strconv.Itoa(i))] = true
				}
				if isSigned(ft) {
					iv.lb[fieldClass(t, strconv.Itoa(i))] = 0
				}
				if isInteger(ft) {
					iv.nz[fieldClass(t, strconv.Itoa(i))] = true
				}
				walk(ft, seen)
			}
		}
	}
	seen := map[string]bool{}
	for _, sp := range p.ssaPkg {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Type:
				walk(m.Type(), seen)
			case *ssa.Global:
				t := elemOf(m.Type())
				if refType(t) && m.Name() != "init$guard" {
					iv.cand["G:"+mkGlobal(m).aux] = true
				}
				walk(t, seen)
			}
		}
	}
}

func isModule(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func (iv *Invariants) nonZero(t *Term) bool {
	switch t.op {
	case OLoad:
		return iv.nz[classOf(t.args[0])]
	case OField:
		return t.args[0].typ != nil && iv.nz[fieldClass(t.args[0].typ, t.aux)]
	}
	return false
}

const dbgLower = false

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// relevant: something is claimed of the class
func (iv *Invariants) relevant(class string) bool {
	_, ok := iv.lb[class]
	return ok || iv.cand[class] || iv.nz[class]
}

// lower gives the lower bound that holds of every number of the class of t
func (iv *Invariants) lower(t *Term) (int64, bool) {
	switch t.op {
	case OLoad:
		b, ok := iv.lb[classOf(t.args[0])]
		return b, ok
	case OField:
		if t.args[0].typ != nil {
			b, ok := iv.lb[fieldClass(t.args[0].typ, t.aux)]
			return b, ok
		}
	}
	return 0, false
}

func (iv *Invariants) checkLower(st *State, class string, v *Term, where string) {
	for {
		b, ok := iv.lb[class]
		if !ok || v.typ != nil && !isInteger(v.typ) || st.facts.entails(linSub(linOf(v), linConst(b))) {
			return
		}
		iv.changed = true
		if dbgLower {
			fmt.Println("lower", class, b, trunc(v.String(), 200), where)
		}
		if b == 0 {
			iv.lb[class] = -1
			continue
		}
		delete(iv.lb, class)
		iv.dropped["lower bound of "+class] = where
	}
}

func (iv *Invariants) checkVal(st *State, class string, v *Term, where string) {
	if iv.cand[class] && st.facts.evalNil(v) != 0 {
		iv.drop(class, where+": "+trunc(v.String(), 200))
	}
	iv.checkLower(st, class, v, where)
	if iv.nz[class] && st.facts.eval(mkEq0(linOf(v))) != 0 && !iv.nonZero(v) {
		delete(iv.nz, class)
		iv.changed = true
	}
}

// structVal checks the fields of a struct value
func (iv *Invariants) structVal(st *State, v *Term, t types.Type, where string) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	if n, isN := t.(*types.Named); isN && !isModule(n) {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if _, ok := ft.Underlying().(*types.Struct); ok {
			iv.structVal(st, fieldOf(v, i, ft), ft, where)
			continue
		}
		c := fieldClass(t, strconv.Itoa(i))
		if iv.relevant(c) {
			iv.checkVal(st, c, fieldOf(v, i, ft), where)
		}
	}
}

func (iv *Invariants) boxed(x *Interp, st *State, v *Term, t types.Type, fn *ssa.Function, pos token.Pos) {
	iv.structVal(st, v, t, x.p.pos(pos))
}

// boundary: the invariants of everything that the callee may see
func (iv *Invariants) boundary(x *Interp, st *State, args []*Term, pos token.Pos) {
	iv.check(x, st, nil, args, x.p.pos(pos), false)
}

// check verifies what the writes since stop have established
func (iv *Invariants) check(x *Interp, st *State, stop *Mem, vals []*Term, where string, all bool) {
	var hidden map[*Term]bool
	if !all {
		hidden = st.unescaped(vals)
	}
	checkAppends := func(v *Term) {
		if v == nil {
			return
		}
		v.walk(func(t *Term) {
			if t.op == OAppend {
				if s, ok := typeUnder(t).(*types.Slice); ok {
					c := "E:" + typeStr(s.Elem())
					if iv.cand[c] {
						for _, e := range t.args[1:] {
							iv.checkVal(st, c, e, where)
						}
					}
				}
			}
		})
	}
	for _, v := range vals {
		if v == nil {
			continue
		}
		checkAppends(v)
		if v.typ != nil {
			iv.structVal(st, v, v.typ, where)
		}
	}
	done := map[*Term]bool{}
	for m := st.mem; m != nil && m != stop; m = m.prev {
		switch m.kind {
		case mStore, mHavocAddr:
			checkAppends(m.val)
			if !iv.relevant(m.class) || done[m.addr] || hidden[rootPtr(m.addr)] {
				continue
			}
			done[m.addr] = true
			t := elemOf(m.addr.typ)
			if t == nil {
				continue
			}
			iv.checkVal(st, m.class, st.load(m.addr, t), where+" ("+x.p.pos(m.pos)+")")
		case mMapUpd:
			checkAppends(m.val)
			mt, ok := typeUnder(m.addr).(*types.Map)
			if !ok || hidden[rootPtr(m.addr)] {
				continue
			}
			c := "ME:" + typeStr(mt)
			if iv.cand[c] {
				iv.checkVal(st, c, m.val, where+" ("+x.p.pos(m.pos)+")")
			}
			iv.structVal(st, m.val, mt.Elem(), where)
		case mAlloc:
			if hidden[m.addr] {
				continue
			}
			t := elemOf(m.addr.typ)
			if t == nil {
				if s, ok := typeUnder(m.addr).(*types.Slice); ok {
					c := "E:" + typeStr(s.Elem())
					if iv.cand[c] && st.facts.eval(mkEq0(linOf(mkLen(m.addr)))) != 1 {
						iv.drop(c, where+": elements of make")
					}
				}
				continue
			}
			iv.objVal(st, m.addr, t, where+" ("+x.p.pos(m.pos)+")")
		}
	}
}

func (iv *Invariants) objVal(st *State, addr *Term, t types.Type, where string) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if n, isN := t.(*types.Named); isN && !isModule(n) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			fa := mkFieldAddr(addr, i, types.NewPointer(ft))
			if _, ok := ft.Underlying().(*types.Struct); ok {
				iv.objVal(st, fa, ft, where)
				continue
			}
			c := classOf(fa)
			if iv.relevant(c) {
				iv.checkVal(st, c, st.load(fa, ft), where)
			}
		}
	case *types.Array:
		c := "E:" + typeStr(u.Elem())
		if iv.cand[c] && u.Len() <= maxArrayVal {
			for i := 0; i < int(u.Len()); i++ {
				iv.checkVal(st, c, st.load(mkIndexAddr(addr, mkInt(int64(i)), types.NewPointer(u.Elem())), u.Elem()), where)
			}
		}
	}
}

// external: code outside the module may fill objects of these types
func (iv *Invariants) external(t types.Type, where string, seen map[string]bool) {
	k := typeStr(t)
	if seen[k] {
		return
	}
	seen[k] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		iv.external(u.Elem(), where, seen)
	case *types.Slice:
		iv.external(u.Elem(), where, seen)
	case *types.Array:
		iv.external(u.Elem(), where, seen)
	case *types.Map:
		iv.external(u.Elem(), where, seen)
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && !isModule(n) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			iv.drop(fieldClass(t, strconv.Itoa(i)), where+": filled by a decoder")
			if u.Field(i).Exported() {
				iv.external(u.Field(i).Type(), where, seen)
			}
		}
	}
}

// ---- static effects of functions

type effectSet struct {
	all  bool
	list []string
}

func (p *Program) effects(f *ssa.Function) *effectSet {
	if p.effs == nil {
		p.computeEffects()
	}
	if e := p.effs[f]; e != nil {
		return e
	}
	return &effectSet{all: true}
}

// freshRoot: the object written is created by the function itself
func freshRoot(v ssa.Value) bool {
	for {
		switch u := v.(type) {
		case *ssa.FieldAddr:
			v = u.X
		case *ssa.IndexAddr:
			if _, ok := u.X.Type().Underlying().(*types.Slice); ok {
				if s, ok := u.X.(*ssa.Slice); ok {
					v = s.X
					continue
				}
				_, ok := u.X.(*ssa.MakeSlice)
				return ok
			}
			v = u.X
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return true
		case *ssa.ChangeType:
			v = u.X
		default:
			return false
		}
	}
}

func storeClasses(addr ssa.Value, t types.Type, add func(string)) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if _, ok := ft.Underlying().(*types.Struct); ok {
				storeClasses(nil, ft, add)
				continue
			}
			add(fieldClass(t, strconv.Itoa(i)))
		}
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= maxArrayVal {
		storeClasses(nil, at.Elem(), add)
		add("E:" + typeStr(at.Elem()))
		return
	}
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		add(fieldClass(a.X.Type(), strconv.Itoa(a.Field)))
	case *ssa.IndexAddr:
		add("E:" + typeStr(t))
	case *ssa.Global:
		add("G:" + mkGlobal(a).aux)
	default:
		// a pointer of unknown origin: a variable, a field or an element
		add("C:" + typeStr(t))
	}
}

func (p *Program) computeEffects() {
	p.effs = map[*ssa.Function]*effectSet{}
	direct := map[*ssa.Function]map[string]bool{}
	calls := map[*ssa.Function][]*ssa.Function{}
	// functions whose address is taken, by signature
	taken := map[string][]*ssa.Function{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ops := in.Operands(nil)
				for i, op := range ops {
					if *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Function)
					if mc, isMC := (*op).(*ssa.MakeClosure); isMC {
						g, ok = mc.Fn.(*ssa.Function), true
					}
					if !ok {
						continue
					}
					if c, isCall := in.(ssa.CallInstruction); isCall && i == 0 && c.Common().StaticCallee() == g {
						continue
					}
					k := typeStr(g.Signature)
					taken[k] = append(taken[k], g)
				}
			}
		}
	}
	for _, f := range p.funcs {
		set := map[string]bool{}
		direct[f] = set
		add := func(c string) { set[c] = true }
		var ext func(t types.Type, seen map[string]bool)
		ext = func(t types.Type, seen map[string]bool) {
			if seen[typeStr(t)] {
				return
			}
			seen[typeStr(t)] = true
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				storeClasses(nil, u.Elem(), add)
				ext(u.Elem(), seen)
			case *types.Slice:
				add("E:" + typeStr(u.Elem()))
				ext(u.Elem(), seen)
			case *types.Map:
				add(mapClass(u))
				ext(u.Elem(), seen)
			case *types.Struct:
				if n, ok := t.(*types.Named); ok && !isModule(n) {
					return
				}
				storeClasses(nil, t, add)
				for i := 0; i < u.NumFields(); i++ {
					ext(u.Field(i).Type(), seen)
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if !freshRoot(in.Addr) {
						storeClasses(in.Addr, in.Val.Type(), add)
					}
				case *ssa.MapUpdate:
					if !freshRoot(in.Map) {
						add(mapClass(in.Map.Type()))
					}
				case ssa.CallInstruction:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "clear":
							if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
								add(mapClass(mt))
							}
						case "copy":
							if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && !freshRoot(c.Args[0]) {
								storeClasses(nil, s.Elem(), add)
								add("E:" + typeStr(s.Elem()))
							}
						}
						continue
					}
					g := c.StaticCallee()
					switch {
					case g != nil && p.inMod[g]:
						calls[f] = append(calls[f], g)
					case g != nil && g.Synthetic != "" && g.Pkg == nil && g.Object() != nil && p.inMod[p.prog.FuncValue(g.Object().(*types.Func))]:
						calls[f] = append(calls[f], p.prog.FuncValue(g.Object().(*types.Func)))
					case g != nil:
						name := g.String()
						if strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") {
							if len(c.Args) > 0 {
								if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
									if s, ok := mi.X.Type().Underlying().(*types.Slice); ok {
										storeClasses(nil, s.Elem(), add)
										add("E:" + typeStr(s.Elem()))
									}
								} else if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
									storeClasses(nil, s.Elem(), add)
									add("E:" + typeStr(s.Elem()))
								}
							}
							continue
						}
						if strings.HasSuffix(name, ").Decode") || name == "encoding/binary.Read" {
							for i, a := range c.Args {
								t := a.Type()
								if mi, ok := a.(*ssa.MakeInterface); ok {
									t = mi.X.Type()
								} else if types.IsInterface(t) && i == len(c.Args)-1 {
									add("*") // fills whatever the caller gave
								}
								if pt, ok := t.Underlying().(*types.Pointer); ok && (isModule(pt.Elem()) || refType(pt.Elem())) {
									ext(t, map[string]bool{})
								}
							}
						}
						// closures given to library functions
						for _, a := range c.Args {
							if mc, ok := a.(*ssa.MakeClosure); ok {
								calls[f] = append(calls[f], mc.Fn.(*ssa.Function))
							}
							if h, ok := a.(*ssa.Function); ok && p.inMod[h] {
								calls[f] = append(calls[f], h)
							}
						}
					case c.IsInvoke():
						for _, t := range p.implementers(c.Value.Type()) {
							if sel := p.prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
								if m, ok := sel.Obj().(*types.Func); ok {
									if h := p.prog.FuncValue(m); h != nil {
										calls[f] = append(calls[f], h)
									}
								}
							}
						}
					default:
						if mc, ok := c.Value.(*ssa.MakeClosure); ok {
							calls[f] = append(calls[f], mc.Fn.(*ssa.Function))
							continue
						}
						calls[f] = append(calls[f], taken[typeStr(c.Signature())]...)
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.funcs {
			for _, g := range calls[f] {
				for c := range direct[g] {
					if !direct[f][c] {
						direct[f][c] = true
						changed = true
					}
				}
			}
		}
	}
	for _, f := range p.funcs {
		e := &effectSet{}
		for c := range direct[f] {
			if c == "*" {
				e.all = true
				continue
			}
			e.list = append(e.list, c)
		}
		sort.Strings(e.list)
		p.effs[f] = e
	}
	p.callees = calls
}

// implementers lists the module's types that implement an interface
func (p *Program) implementers(iface types.Type) []types.Type {
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []types.Type
	var names []string
	for path := range p.ssaPkg {
		names = append(names, path)
	}
	sort.Strings(names)
	for _, path := range names {
		sc := p.ssaPkg[path].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(tn.Type(), it) {
				r = append(r, tn.Type())
			} else if types.Implements(types.NewPointer(tn.Type()), it) {
				r = append(r, types.NewPointer(tn.Type()))
			}
		}
	}
	return r
}

// ---- roots

// rootArgs makes the arguments of a function called by unknown code
func (x *Interp) rootArgs(f *ssa.Function) (args, free []*Term) {
	for _, v := range f.Params {
		args = append(args, expandStruct(mkParam(v.Name(), v.Type()), v.Type()))
	}
	for _, v := range f.FreeVars {
		free = append(free, expandStruct(mkParam(v.Name(), v.Type()), v.Type()))
	}
	return
}

func (x *Interp) newState() *State {
	return &State{facts: newFacts()}
}

// runRoot analyses a function for every argument
func (x *Interp) runRoot(f *ssa.Function) []*Outcome {
	args, free := x.rootArgs(f)
	return x.call(f, args, free, x.newState())
}

// ---- initial values of globals that are set once

func (p *Program) setupFrozen() error {
	frozenMem = nil
	x := newInterp(p)
	x.noOblige = true
	written := map[string]bool{}
	for _, f := range p.funcs {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, c := range p.directEffects(f) {
			written[c] = true
		}
	}
	var paths []string
	for path := range p.ssaPkg {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	st := x.newState()
	for _, path := range paths {
		sp := p.ssaPkg[path]
		var names []string
		for n, m := range sp.Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			g := sp.Members[n].(*ssa.Global)
			t := elemOf(g.Type())
			st.store(mkGlobal(g), zeroValue(t), t, token.NoPos, "")
		}
	}
	for _, path := range paths {
		sp := p.ssaPkg[path]
		ini := sp.Func("init")
		if ini == nil {
			continue
		}
		os := x.live(x.call(ini, nil, nil, st.clone()))
		if len(os) != 1 {
			p.frozenNote = append(p.frozenNote, fmt.Sprintf("%s: initialiser not deterministic (%d outcomes)", path, len(os)))
			continue
		}
		st = os[0].st
	}
	p.initState = st
	p.written = written
	allocs := map[*Term]bool{}
	for m := st.mem; m != nil; m = m.prev {
		if m.kind == mAlloc {
			allocs[m.addr] = true
		}
	}
	frozenMem = func(addr *Term) (*State, bool) {
		root := rootPtr(addr)
		if addr.op == OGlobal {
			if g, ok := addr.obj.(*ssa.Global); ok && g.Pkg != nil && p.ssaPkg[g.Pkg.Pkg.Path()] == nil {
				return nil, false
			}
			return st, !written["G:"+addr.aux]
		}
		if root.op == OGlobal {
			return st, !written[classOf(addr)] && !written["G:"+root.aux]
		}
		if root.op != OAlloc || !allocs[root] {
			return nil, false
		}
		if _, ok := typeUnder(addr).(*types.Map); ok {
			return st, !written[mapClass(addr.typ)]
		}
		return st, !written[classOf(addr)]
	}
	return nil
}

func (p *Program) directEffects(f *ssa.Function) []string {
	e := p.effects(f)
	return e.list
}
