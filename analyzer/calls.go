package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Interp) callInstr(fi *funcInfo, p *path, in *ssa.Call) []*path {
	args := make([]*Term, len(in.Call.Args))
	for i, a := range in.Call.Args {
		args[i] = x.val(p, fi, a)
	}
	fn := x.val(p, fi, in.Call.Value)
	return x.dispatch(fi, p, &in.Call, fn, args, in.Pos(), in)
}

// dispatch performs a call; dst receives the result
func (x *Interp) dispatch(fi *funcInfo, p *path, c *ssa.CallCommon, fn *Term, args []*Term, pos token.Pos, dst ssa.Value) []*path {
	sig := c.Signature()
	setRes := func(q *path, res []*Term) *path {
		if dst != nil {
			if sig.Results().Len() == 1 {
				x.set(q, fi, dst, res[0])
			} else {
				x.set(q, fi, dst, mkTuple(res...))
			}
		}
		return q
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fi, p, b.Name(), c, args, pos, dst)
	}
	instr, _ := dst.(ssa.Instruction)
	if instr == nil {
		instr = fi.fn.Blocks[0].Instrs[0]
	}
	var target *ssa.Function
	var free []*Term
	if c.IsInvoke() {
		recv := fn
		if !x.requireNonNil(p, fi, instr, recv, "interface "+c.Method.Name()) {
			return nil
		}
		if recv.op == OIface {
			if m := x.method(recv.typ, c.Method); m != nil {
				target = m
				args = append([]*Term{recv.args[0]}, args...)
			}
		}
		if n := orderWidth(c.Method.FullName()); n > 0 && len(args) == 1 {
			if !x.oblige(p, fi, instr, "bytes to decode", mkGe0(linAdd(linOf(mkLen(args[0])), linConst(-n)))) {
				return nil
			}
		}
		if target == nil {
			return x.invokeUnknown(fi, p, c, recv, args, pos, setRes)
		}
	} else if f := c.StaticCallee(); f != nil {
		target = f
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			_ = mc
			free = fn.args
		}
	} else {
		fn = p.st.facts.subst(fn)
		if !x.requireNonNil(p, fi, instr, fn, "function value") {
			return nil
		}
		switch fn.op {
		case OFunc:
			target, _ = fn.obj.(*ssa.Function)
		case OClosure:
			target = fn.obj.(*ssa.Function)
			free = fn.args
		}
		if target == nil {
			// a function value given by the user: assumed not to touch the library's objects
			res := x.results("dyn", sig, append([]*Term{fn}, args...), true)
			p.st.event(&Event{kind: "dyn", args: append([]*Term{fn}, args...), res: res, pos: pos})
			return []*path{setRes(p, res)}
		}
	}
	var r []*path
	groups := map[string][]*path{}
	var order []string
	outs := x.callFn(fi, p, target, args, free, pos, instr)
	for _, o := range outs {
		q := p.clone()
		q.st = o.st
		q = setRes(q, o.res)
		r = append(r, q)
		if x.outCap > 0 {
			k := ""
			for _, t := range o.res {
				switch {
				case t.typ != nil && isNilable(t.typ):
					k += strconv.Itoa(o.st.facts.evalNil(t))
				case t.typ != nil && isBool(t.typ):
					k += strconv.Itoa(o.st.facts.eval(t))
				}
				k += ","
			}
			if groups[k] == nil {
				order = append(order, k)
			}
			groups[k] = append(groups[k], q)
		}
	}
	if x.outCap > 0 && len(r) > x.outCap {
		r = nil
		for _, k := range order {
			js := x.joinTo(fi, groups[k], 1)
			r = append(r, js...)
		}
	}
	return r
}

func (x *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	sel := x.p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return x.p.prog.MethodValue(sel)
}

// naturalSort: the types that sort.Strings and its like use
func naturalSort(t types.Type) bool {
	return t.String() == "sort.StringSlice" || t.String() == "sort.IntSlice"
}

// lessMethod is the comparison of a slice type that sort.Sort can sort
func (x *Interp) lessMethod(t types.Type) *ssa.Function {
	if _, ok := t.Underlying().(*types.Slice); !ok {
		return nil
	}
	sel := x.p.prog.MethodSets.MethodSet(t).Lookup(nil, "Less")
	if sel == nil {
		return nil
	}
	f := x.p.prog.MethodValue(sel)
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	return f
}

func (x *Interp) results(name string, sig *types.Signature, args []*Term, pure bool) []*Term {
	n := sig.Results().Len()
	res := make([]*Term, n)
	for i := range res {
		t := sig.Results().At(i).Type()
		if pure {
			res[i] = expandStruct(mkCall(name, i, t, args...), t)
		} else {
			res[i] = expandStruct(mkSym(name, t), t)
		}
	}
	if n > 1 && isErrorType(sig.Results().At(n-1).Type()) {
		for i := 0; i < n-1; i++ {
			x.pairErr[res[i]] = res[n-1]
		}
	}
	return res
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (x *Interp) invokeUnknown(fi *funcInfo, p *path, c *ssa.CallCommon, recv *Term, args []*Term, pos token.Pos, setRes func(*path, []*Term) *path) []*path {
	sig := c.Signature()
	name := c.Method.FullName()
	all := append([]*Term{recv}, args...)
	inMod := c.Method.Pkg() != nil && strings.HasPrefix(c.Method.Pkg().Path(), modPath)
	if inMod && c.Method.Pkg().Name() == "plurals" || x.pureInvoke != nil && x.pureInvoke(c.Method) {
		res := x.results("invoke "+c.Method.Name(), sig, all, true)
		p.st.event(&Event{kind: "invoke", name: name, args: all, res: res, pos: pos})
		return []*path{setRes(p, res)}
	}
	if inMod {
		if x.inv != nil {
			x.inv.boundary(x, p.st, all, pos)
		}
		res := x.results("invoke "+c.Method.Name(), sig, all, false)
		x.forget(p, all)
		p.st.event(&Event{kind: "invoke", name: name, args: all, res: res, pos: pos})
		x.implContract(p, c, res)
		return []*path{setRes(p, res)}
	}
	// an interface of the standard library
	if pureMethods[name] {
		res := x.results(name, sig, all, true)
		return []*path{setRes(p, res)}
	}
	res := x.results(name, sig, all, false)
	p.st.event(&Event{kind: "call", name: name, args: all, res: res, pos: pos})
	x.havocArgs(p, args)
	return []*path{setRes(p, res)}
}

// implContract: what every implementation of an interface method guarantees of its results
func (x *Interp) implContract(p *path, c *ssa.CallCommon, res []*Term) {
	if x.contract == nil {
		return
	}
	impl := x.p.implementers(c.Value.Type())
	for i, r := range res {
		nn, ep := len(impl) > 0, len(impl) > 0
		for _, t := range impl {
			var ct *contract
			if sel := x.p.prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if m, ok := sel.Obj().(*types.Func); ok {
					ct = x.contract[x.p.prog.FuncValue(m)]
				}
			}
			if ct == nil || !ct.nonNil[i] {
				nn = false
			}
			if ct == nil || !ct.errPair[i] {
				ep = false
			}
		}
		if nn {
			if g, ok := p.st.facts.assume(mkIsNil(r), false); ok {
				p.st.facts = g
			}
		}
		if !ep {
			delete(x.pairErr, r)
		}
	}
}

// forget: a call into unknown code of the module may change everything it can reach
func (x *Interp) forget(p *path, args []*Term) {
	p.st.push(&Mem{kind: mHavocAll, keep: p.st.unescaped(args), held: p.st.held})
}

// callFn calls a known function
func (x *Interp) callFn(fi *funcInfo, p *path, f *ssa.Function, args, free []*Term, pos token.Pos, in ssa.Instruction) []*Outcome {
	if f.Synthetic != "" && len(f.Blocks) > 0 && !x.p.inMod[f] {
		// wrappers and bound methods
		if pkgOf(f) == nil || x.inModule(f) {
			return x.live(x.call(f, args, free, p.st))
		}
	}
	if len(f.Blocks) == 0 || !x.inModule(f) {
		return x.external(fi, p, f, args, pos, in)
	}
	rec := 0
	for _, g := range x.stack {
		if g == f {
			rec++
		}
	}
	if x.stub != nil {
		if res, ok := x.stub(f, args); ok {
			return []*Outcome{{st: p.st, res: res}}
		}
	}
	if x.pure != nil && x.pure(f) {
		res := x.results(fname(f), f.Signature, args, true)
		p.st.event(&Event{kind: "modcall", name: fname(f), args: args, res: res, pos: pos})
		return []*Outcome{{st: p.st, res: res}}
	}
	if rec > 0 || len(x.stack) > x.maxDepth || (x.opaque != nil && x.opaque(f)) {
		return []*Outcome{x.opaqueCall(fi, p, f, args, pos)}
	}
	return x.live(x.call(f, args, free, p.st))
}

func (x *Interp) inModule(f *ssa.Function) bool {
	if x.p.inMod[f] {
		return true
	}
	for g := f; g != nil; g = g.Parent() {
		if x.p.inMod[g] {
			return true
		}
	}
	if f.Synthetic != "" {
		if pk := pkgOf(f); pk != nil {
			_, ok := x.p.ssaPkg[pk.Pkg.Path()]
			return ok && len(f.Blocks) > 0
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			_, ok := x.p.ssaPkg[o.Pkg().Path()]
			return ok && len(f.Blocks) > 0
		}
	}
	return false
}

func (x *Interp) live(os []*Outcome) []*Outcome {
	var r []*Outcome
	for _, o := range os {
		if !o.panic {
			r = append(r, o)
		}
	}
	return r
}

// opaqueCall replaces a call of a module function by its effect summary and contract
func (x *Interp) opaqueCall(fi *funcInfo, p *path, f *ssa.Function, args []*Term, pos token.Pos) *Outcome {
	if x.inv != nil {
		x.inv.boundary(x, p.st, args, pos)
	}
	res := x.results(fname(f), f.Signature, args, false)
	before := p.st.mem
	list, grown := -1, (*Term)(nil)
	if x.appends != nil {
		list = x.appends(f)
	}
	if list >= 0 {
		t := args[list].typ.Underlying().(*types.Pointer).Elem()
		more := mkSym("more", t)
		res = append(res[:len(res):len(res)], more)
		grown = mk(OAppendS, t, "", false, p.st.load(args[list], t), more)
	}
	eff := x.p.effects(f)
	if eff.all || x.havocAll {
		x.forget(p, args)
	} else {
		var keep map[*Term]bool
		if x.inv != nil && len(eff.list) > 0 {
			keep = p.st.unescaped(args)
		}
		for _, c := range eff.list {
			p.st.push(&Mem{kind: mHavocClass, class: c, keep: keep, pos: pos, fn: fname(f)})
		}
	}
	if grown != nil {
		p.st.store(args[list], grown, grown.typ, pos, fname(f))
	}
	p.st.event(&Event{kind: "modcall", name: fname(f), args: args, res: res, pos: pos, mem: before})
	if ct := x.contract[f]; ct != nil {
		for i, r := range res {
			if ct.nonNil[i] {
				if g, ok := p.st.facts.assume(mkIsNil(r), false); ok {
					p.st.facts = g
				}
			}
			if !ct.errPair[i] {
				delete(x.pairErr, r)
			}
		}
		var ks []string
		for k := range ct.lin {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			g := p.st.facts.clone()
			if g.addLin(ct.lin[k](args, res)) {
				p.st.facts = g
			}
		}
	} else {
		for _, r := range res {
			delete(x.pairErr, r)
		}
	}
	return &Outcome{st: p.st, res: res}
}

// ---- builtins

func (x *Interp) builtin(fi *funcInfo, p *path, name string, c *ssa.CallCommon, args []*Term, pos token.Pos, dst ssa.Value) []*path {
	set := func(t *Term) {
		if dst != nil {
			x.set(p, fi, dst, t)
		}
	}
	switch name {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			set(p.st.mapLen(args[0]))
		} else {
			set(mkLen(args[0]))
		}
	case "cap":
		set(mk(OCap, types.Typ[types.Int], "", false, args[0]))
	case "append":
		set(x.appendTerm(fi, p, args[0], args[1], c.Args[0].Type(), pos))
	case "copy":
		dstS, src := args[0], args[1]
		el := "E:uint8"
		if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			el = "E:" + typeStr(s.Elem())
		}
		p.st.push(&Mem{kind: mCopy, addr: dstS, val: src, class: el, pos: pos, fn: fname(fi.fn)})
		p.st.event(&Event{kind: "copy", args: args, pos: pos})
		n := mkSym("copied", types.Typ[types.Int])
		f := p.st.facts.clone()
		f.addLin(linOf(n))
		f.addLin(linSub(linOf(mkLen(dstS)), linOf(n)))
		f.addLin(linSub(linOf(mkLen(src)), linOf(n)))
		p.st.facts = f
		set(n)
	case "delete":
		p.st.push(&Mem{kind: mMapDel, addr: args[0], key: args[1], class: mapClass(c.Args[0].Type()), pos: pos, fn: fname(fi.fn)})
	case "clear":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			p.st.push(&Mem{kind: mHavocAddr, addr: args[0], class: mapClass(c.Args[0].Type()), pos: pos, fn: fname(fi.fn)})
		} else {
			x.havocArgs(p, args)
		}
	case "print", "println":
		p.st.event(&Event{kind: "print", args: args, pos: pos})
	case "min", "max":
		bt, _ := args[0].typ.Underlying().(*types.Basic)
		if bt == nil || bt.Info()&types.IsInteger == 0 {
			set(mkCall(name, 0, args[0].typ, args...))
			break
		}
		// one path for each argument that may be the result
		type choice struct {
			p *path
			t *Term
		}
		cur := []choice{{p, args[0]}}
		for _, b := range args[1:] {
			var next []choice
			for _, ch := range cur {
				ge := mkGe0(linSub(linOf(ch.t), linOf(b)))
				if name == "min" {
					ge = mkGe0(linSub(linOf(b), linOf(ch.t)))
				}
				yes, no := x.split(ch.p, ge)
				if yes != nil {
					next = append(next, choice{yes, ch.t})
				}
				if no != nil {
					next = append(next, choice{no, b})
				}
			}
			cur = next
		}
		var ps []*path
		for _, ch := range cur {
			if dst != nil {
				x.set(ch.p, fi, dst, ch.t)
			}
			ps = append(ps, ch.p)
		}
		return ps
	case "recover":
		set(mkNil(nil))
	case "close":
		p.st.event(&Event{kind: "close", pos: pos})
	default:
		if strings.HasPrefix(name, "ssa:wrapnilchk") {
			instr := dst.(ssa.Instruction)
			if !x.requireNonNil(p, fi, instr, args[0], "receiver") {
				return nil
			}
			set(args[0])
			break
		}
		x.giveUp("%s: builtin %s", fname(fi.fn), name)
		if dst != nil {
			set(x.freshOf(name, dst.Type()))
		}
	}
	return []*path{p}
}

// elems lists the elements of a slice built from a fixed array
func (x *Interp) elems(st *State, s *Term) ([]*Term, bool) {
	if s.isNil() {
		return nil, true
	}
	switch s.op {
	case OSlice:
		lo, ok1 := s.args[1].intConst()
		hi, ok2 := s.args[2].intConst()
		sl, ok3 := s.typ.Underlying().(*types.Slice)
		if ok1 && ok2 && ok3 && hi-lo <= 64 && s.args[0].op == OAlloc {
			var r []*Term
			for i := lo; i < hi; i++ {
				r = append(r, st.load(mkIndexAddr(s.args[0], mkInt(i), types.NewPointer(sl.Elem())), sl.Elem()))
			}
			return r, true
		}
	case OAppend:
		b, ok := x.elems(st, s.args[0])
		if ok {
			return append(append([]*Term{}, b...), s.args[1:]...), true
		}
	}
	return nil, false
}

func (x *Interp) appendTerm(fi *funcInfo, p *path, base, more *Term, typ types.Type, pos token.Pos) *Term {
	if cut := base; cut.op == OSlice || cut.op == OAppend || cut.op == OAppendS {
		for cut.op == OAppend || cut.op == OAppendS {
			cut = cut.args[0]
		}
		if sl, ok := typ.Underlying().(*types.Slice); ok && cut.op == OSlice && cut.args[0].op != OAlloc && p.st.facts.eval(mkEq0(linSub(linOf(cut.args[2]), linOf(mkLen(cut.args[0]))))) != 1 {
			// the elements behind the cut are overwritten
			p.st.push(&Mem{kind: mCopy, addr: cut, val: more, class: "E:" + typeStr(sl.Elem()), pos: pos, fn: fname(fi.fn)})
		}
	}
	if es, ok := x.elems(p.st, more); ok && !isString(more.typ) {
		if len(es) == 0 {
			return base
		}
		if base.op == OAppend {
			return mk(OAppend, typ, "", false, append(append([]*Term{}, base.args...), es...)...)
		}
		return mk(OAppend, typ, "", false, append([]*Term{base}, es...)...)
	}
	return mk(OAppendS, typ, "", false, base, more)
}

// ---- external functions

// Functions of the standard library (and x/tools) without effects on the caller's data,
// whose result is determined by their arguments.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "path": true, "errors": true, "slices": true, "maps": true, "math": true, "cmp": true}

var pureFuncs = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"fmt.Appendf": true, "fmt.Append": true, "(*strings.Replacer).Replace": true,
	"path/filepath.Join": true, "path/filepath.Rel": true, "path/filepath.Clean": true, "path/filepath.Base": true, "path/filepath.Dir": true, "path/filepath.Ext": true, "path/filepath.Abs": true, "path/filepath.ToSlash": true,
	"bytes.Split": true, "bytes.SplitN": true, "bytes.Join": true, "bytes.Index": true, "bytes.IndexByte": true, "bytes.Equal": true, "bytes.Contains": true, "bytes.HasPrefix": true, "bytes.HasSuffix": true, "bytes.TrimSpace": true, "bytes.Count": true, "bytes.Cut": true, "bytes.LastIndex": true,
	"regexp.MustCompile":                     true,
	"(*regexp.Regexp).FindAllStringSubmatch": true, "(*regexp.Regexp).FindAllStringSubmatchIndex": true, "(*regexp.Regexp).MatchString": true, "(*regexp.Regexp).FindAllString": true, "(*regexp.Regexp).FindAllStringIndex": true, "(*regexp.Regexp).FindStringSubmatch": true,
	"(go/token.Pos).IsValid":       true,
	"(*go/token.FileSet).Position": true, "(go/token.Position).String": true,
	"(*go/types.Info).TypeOf": true, "(*go/types.Info).ObjectOf": true,
	"(*go/types.Named).Obj": true, "(*go/types.Pointer).Elem": true, "(*go/types.Tuple).Len": true, "(*go/types.Tuple).At": true, "(*go/types.Signature).Results": true,
	"(*go/types.object).Pkg": true, "(*go/types.object).Name": true, "(*go/types.TypeName).Pkg": true, "(*go/types.TypeName).Name": true,
	"(*go/types.Package).Path": true, "(*go/types.Package).Name": true, "(*go/types.Package).Scope": true, "(*go/types.Scope).Lookup": true,
	"go/types.Unalias": true, "(*go/types.Alias).Obj": true, "(*go/types.Alias).Rhs": true, "(*go/types.Named).String": true,
	"golang.org/x/tools/go/packages.PrintErrors": false,
}

var pureMethods = map[string]bool{
	"(encoding/binary.ByteOrder).Uint16": true, "(encoding/binary.ByteOrder).Uint32": true, "(encoding/binary.ByteOrder).Uint64": true,
	"(error).Error": true, "(go/types.Type).String": true, "(go/types.Type).Underlying": true,
	"(go/types.Object).Pkg": true, "(go/types.Object).Name": true, "(go/types.Object).Type": true, "(go/ast.Node).Pos": true, "(go/ast.Node).End": true, "(go/ast.Expr).Pos": true,
	"(io/fs.FileInfo).IsDir": true, "(io/fs.FileInfo).Name": true, "(io/fs.FileInfo).Size": true, "(io/fs.FileInfo).Mode": true,
}

// results of external functions without an error result that may be nil
var nilableResult = map[string]bool{
	"(*go/types.Info).TypeOf": true, "(*go/types.Info).ObjectOf": true, "(*go/types.Scope).Lookup": true,
	"(go/types.Object).Pkg": true, "(go/types.Object).Type": true, "(*go/types.object).Pkg": true, "(*go/types.TypeName).Pkg": true,
	"(*regexp.Regexp).FindStringSubmatch": true, "errors.Unwrap": true, "(*go/token.FileSet).File": true,
	"(*go/types.Signature).Recv": true, "(*go/types.object).Type": true, "errors.Join": true,
}

// fields of external structs that may be nil
var nilableField = map[string]bool{
	"F:ast.ImportSpec.Name": true, "F:ast.Ident.Obj": true, "F:packages.Package.TypesInfo": true, "F:packages.Package.Types": true,
	"F:ast.ValueSpec.Type": true, "F:ast.Field.Tag": true, "F:ast.Object.Decl": true, "F:ast.Object.Type": true, "F:ast.Object.Data": true,
	"F:ast.FuncDecl.Recv": true, "F:ast.FuncDecl.Body": true, "F:types.TypeAndValue.Type": true, "F:types.TypeAndValue.Value": true,
	"F:ast.FuncType.Results": true, "F:ast.FuncType.TypeParams": true, "F:packages.Package.Module": true, "F:packages.Package.Fset": false,
	"F:packages.Package.Imports": true,
}

func (x *Interp) external(fi *funcInfo, p *path, f *ssa.Function, args []*Term, pos token.Pos, in ssa.Instruction) []*Outcome {
	name := f.String()
	if f.Origin() != nil {
		name = f.Origin().String()
	}
	sig := f.Signature
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	one := func(res ...*Term) []*Outcome { return []*Outcome{{st: p.st, res: res}} }
	ev := func(kind string, res []*Term) {
		p.st.event(&Event{kind: kind, name: name, args: args, res: res, pos: pos})
	}
	if sig.Recv() != nil && len(args) > 0 {
		if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
			if !x.requireNonNil(p, fi, in, args[0], "receiver of "+f.Name()) {
				return nil
			}
		}
	}
	if n := orderWidth(name); n > 0 && len(args) == 2 {
		if !x.oblige(p, fi, in, "bytes to decode", mkGe0(linAdd(linOf(mkLen(args[1])), linConst(-n)))) {
			return nil
		}
		return one(x.results(name, sig, args, true)...)
	}
	switch {
	case strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "(*sync/atomic."):
		res := x.results(name, sig, args, false)
		ev("lock", res)
		if len(args) > 0 && args[0].op == OFieldAddr {
			switch f.Name() {
			case "RLock":
				p.st.setHeld(args[0].args[0], true)
			case "RUnlock", "Lock", "Unlock":
				p.st.setHeld(args[0].args[0], false)
			}
		}
		if f.Name() == "Do" && len(args) == 2 {
			return x.callback(fi, p, args[1], nil, pos, res)
		}
		return one(res...)
	case name == "(*go/ast.Ident).String":
		a := fieldAddr(args[0], "Name")
		return one(p.st.load(a, elemOf(a.typ)))
	case name == "strings.Repeat":
		if !x.oblige(p, fi, in, "negative repeat count", mkGe0(linOf(args[1]))) {
			return nil
		}
	case name == "(*strings.Builder).Grow" || name == "(*bytes.Buffer).Grow":
		if !x.oblige(p, fi, in, "negative growth", mkGe0(linOf(args[1]))) {
			return nil
		}
		x.allocSize(p, fi, in, args[1])
		return one()
	case name == "regexp.MustCompile":
		s, ok := args[0].strConst()
		_, err := regexp.Compile(s)
		if !x.oblige(p, fi, in, "regular expression", mkBool(ok && err == nil)) {
			return nil
		}
		r := mkCall(name, 0, sig.Results().At(0).Type(), args...)
		return one(r)
	case strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer)."):
		return x.buffer(p, f, name, args, pos)
	case (strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString") && args[0].op == OIface && ((len(args) == 3) == (name == "fmt.Fprintf")) && memBuffer(args[0].typ):
		if text := x.printed(p, name, args[1:]); text != nil {
			p.st.event(&Event{kind: "write", name: name, args: []*Term{args[0].args[0], text}, pos: pos})
			res := x.results(name, sig, args, false)
			if g, ok := p.st.facts.assume(mkIsNil(res[1]), true); ok {
				p.st.facts = g
			}
			return one(res...)
		}
	case name == "sort.Slice" || name == "sort.SliceStable" || name == "slices.SortFunc" || name == "slices.SortStableFunc":
		sl := args[0]
		if sl.op == OIface {
			sl = sl.args[0]
		}
		n := mkLen(sl)
		var cbArgs []*Term
		if strings.HasPrefix(name, "sort.") {
			for i := 0; i < 2; i++ {
				s := mkSym("i", types.Typ[types.Int])
				g := p.st.facts.clone()
				g.addLin(linOf(s))
				g.addLin(linAdd(linSub(linOf(n), linOf(s)), linConst(-1)))
				p.st.facts = g
				cbArgs = append(cbArgs, s)
			}
		} else if fn, ok := f.Signature.Params().At(1).Type().Underlying().(*types.Signature); ok {
			for i := 0; i < 2; i++ {
				cbArgs = append(cbArgs, mkSym("e", fn.Params().At(i).Type()))
			}
		}
		cb := &CallbackRec{fn: args[1], args: cbArgs, st: p.st.clone()}
		if cl := args[1]; cl.op == OClosure || cl.op == OFunc {
			if g, ok := cl.obj.(*ssa.Function); ok && len(g.Blocks) > 0 {
				q := p.clone()
				cb.outs = x.call(g, cbArgs, cl.args, q.st)
			}
		}
		x.havocSlice(p, sl, pos)
		p.st.event(&Event{kind: "sort", name: name, args: append([]*Term{sl}, args[1:]...), pos: pos, cb: cb})
		return one()
	case (name == "sort.Sort" || name == "sort.Stable") && args[0].op == OIface && x.lessMethod(args[0].typ) != nil:
		sl := args[0].args[0]
		n := mkLen(sl)
		var cbArgs []*Term
		for i := 0; i < 2; i++ {
			s := mkSym("i", types.Typ[types.Int])
			g := p.st.facts.clone()
			g.addLin(linOf(s))
			g.addLin(linAdd(linSub(linOf(n), linOf(s)), linConst(-1)))
			p.st.facts = g
			cbArgs = append(cbArgs, s)
		}
		less := x.lessMethod(args[0].typ)
		cb := &CallbackRec{fn: mkFunc(less), recv: []*Term{sl}, args: cbArgs, st: p.st.clone()}
		q := p.clone()
		cb.outs = x.call(less, append([]*Term{sl}, cbArgs...), nil, q.st)
		x.havocSlice(p, sl, pos)
		p.st.event(&Event{kind: "sort", name: name, args: []*Term{sl}, pos: pos, cb: cb})
		return one()
	case (name == "sort.Sort" || name == "sort.Stable") && args[0].op == OIface && naturalSort(args[0].typ):
		x.havocSlice(p, args[0].args[0], pos)
		p.st.event(&Event{kind: "sort", name: name, args: []*Term{args[0].args[0]}, pos: pos})
		return one()
	case name == "cmp.Or":
		es, ok := x.elems(p.st, args[0])
		if !ok || len(es) == 0 || len(es) > 8 || !isInteger(es[0].typ) {
			break
		}
		var outs []*Outcome
		f := p.st.facts
		for _, e := range es {
			if g, ok := f.assume(mkEq0(linOf(e)), false); ok {
				q := p.clone()
				q.st.facts = g
				outs = append(outs, &Outcome{st: q.st, res: []*Term{e}})
			}
			g, ok := f.assume(mkEq0(linOf(e)), true)
			if !ok {
				f = nil
				break
			}
			f = g
		}
		if f != nil {
			p.st.facts = f
			outs = append(outs, one(mkInt(0))...)
		}
		return outs
	case name == "sort.Strings" || name == "sort.Ints" || name == "slices.Sort":
		x.havocSlice(p, args[0], pos)
		p.st.event(&Event{kind: "sort", name: name, args: args, pos: pos})
		return one()
	case name == "errors.Join":
		// nil exactly when every error is
		es, ok := x.elems(p.st, args[0])
		if !ok || len(es) > 6 {
			break
		}
		var outs []*Outcome
		rest, res := p.st.facts, x.results(name, sig, args, false)
		for _, e := range es {
			isNil := mkIsNil(e)
			if v := rest.eval(isNil); v == 1 {
				continue
			}
			if g, ok := rest.assume(isNil, false); ok {
				if g, ok = g.assume(mkIsNil(res[0]), false); ok {
					q := p.clone()
					q.st.facts = g
					q.st.event(&Event{kind: "call", name: name, args: append([]*Term{}, es...), res: res, pos: pos})
					outs = append(outs, &Outcome{st: q.st, res: res})
				}
			}
			g, ok := rest.assume(isNil, true)
			if !ok {
				return outs
			}
			rest = g
		}
		p.st.facts = rest
		return append(outs, one(mkNil(res[0].typ))...)
	case name == "slices.Contains":
		if es, ok := x.elems(p.st, args[0]); ok {
			var open []*Term
			sure := false
			for _, e := range es {
				c := mkEq(e, args[1])
				if v := p.st.facts.eval(c); v == 1 {
					sure = true
				} else if v < 0 {
					open = append(open, c)
				}
			}
			switch {
			case sure:
				return one(mkBool(true))
			case len(open) == 0:
				return one(mkBool(false))
			case len(open) > 16:
				return one(mkCall(name, 0, types.Typ[types.Bool], args...))
			}
			var outs []*Outcome
			rest := p.st.facts
			for _, c := range open {
				if g, ok := rest.assume(c, true); ok {
					st := p.st.clone()
					st.facts = g
					outs = append(outs, &Outcome{st: st, res: []*Term{mkBool(true)}})
				}
				g, ok := rest.assume(c, false)
				if !ok {
					return outs
				}
				rest = g
			}
			p.st.facts = rest
			return append(outs, one(mkBool(false))...)
		}
	case name == "path/filepath.Walk" || name == "path/filepath.WalkDir" || name == "go/ast.Inspect":
		cl := args[len(args)-1]
		var ps []*Term
		if fsig, ok := f.Signature.Params().At(f.Signature.Params().Len() - 1).Type().Underlying().(*types.Signature); ok {
			for i := 0; i < fsig.Params().Len(); i++ {
				ps = append(ps, mkSym("cb"+strconv.Itoa(i), fsig.Params().At(i).Type()))
			}
		}
		if n := len(ps); n == 3 && isErrorType(ps[2].typ) {
			// Walk gives no FileInfo when it reports an error for the root
			x.pairErr[ps[1]] = ps[2]
		}
		res := x.results(name, sig, args, false)
		return x.callbackEv(fi, p, name, cl, ps, pos, res, args)
	case name == "encoding/binary.Read" && len(args) == 3:
		// binary.Read(r, order, data): fills data
		res := x.results(name, sig, args, false)
		ev("call", res)
		x.havocArgs(p, args[2:])
		if a := args[2]; a.op == OIface {
			x.havocSlice(p, a.args[0], pos)
		}
		return one(res...)
	}
	if x.snapshot != nil && x.snapshot(name) {
		res := x.results(name, sig, args, true)
		ev("call", res)
		return one(res...)
	}
	isPure := pureFuncs[name] || purePkgs[pkg] && !strings.HasPrefix(name, "(*") && sig.Results().Len() > 0
	if isPure {
		return x.pureCall(p, f, name, sig, args, pos)
	}
	res := x.results(name, sig, args, false)
	if len(res) == 1 && !nilableResult[name] {
		if _, ok := sig.Results().At(0).Type().Underlying().(*types.Pointer); ok {
			extNonNil[res[0]] = true
		}
	}
	if name == "os.Exit" || strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "(*log.Logger).Fatal") {
		ev("exit", res)
		if x.onExit != nil {
			x.onExit(p.st, name, args, pos)
		}
		return nil
	}
	var text []*Term
	if strings.HasPrefix(name, "fmt.Fprint") {
		if t := x.printed(p, name, args[1:]); t != nil {
			text = []*Term{t}
		}
	}
	ev("call", res)
	p.st.ev.text = text
	x.havocArgs(p, args)
	if name == "flag.Parse" || name == "(*flag.FlagSet).Parse" {
		x.havocFlags(p)
	}
	return one(res...)
}

// havocFlags: the variables of the flags get the values of the command line
func (x *Interp) havocFlags(p *path) {
	evs := p.st.events(nil)
	if x.p.initState != nil {
		evs = append(append([]*Event{}, x.p.initState.events(nil)...), evs...)
	}
	for _, e := range evs {
		if e.kind != "call" || !strings.Contains(e.name, "flag.") {
			continue
		}
		for _, t := range append(append([]*Term{}, e.args...), e.res...) {
			if ptr, ok := t.typ.Underlying().(*types.Pointer); ok {
				if _, ok := ptr.Elem().Underlying().(*types.Basic); ok {
					x.havocObj(p, t, ptr.Elem(), 0)
				}
			}
		}
	}
}

// pureCall builds the value of an effect-free external function
func (x *Interp) pureCall(p *path, f *ssa.Function, name string, sig *types.Signature, args []*Term, pos token.Pos) []*Outcome {
	one := func(res ...*Term) []*Outcome { return []*Outcome{{st: p.st, res: res}} }
	as := make([]*Term, len(args))
	for i, a := range args {
		as[i] = p.st.facts.subst(a)
	}
	// constant folding for the few functions used on literals
	strs := make([]string, len(as))
	allStr := len(as) > 0
	for i, a := range as {
		s, ok := a.strConst()
		if !ok {
			allStr = false
		}
		strs[i] = s
	}
	if allStr {
		switch name {
		case "strings.ToLower":
			return one(mkStr(strings.ToLower(strs[0])))
		case "strings.TrimSpace":
			return one(mkStr(strings.TrimSpace(strs[0])))
		case "strings.HasPrefix":
			return one(mkBool(strings.HasPrefix(strs[0], strs[1])))
		case "strings.HasSuffix":
			return one(mkBool(strings.HasSuffix(strs[0], strs[1])))
		case "strings.Contains":
			return one(mkBool(strings.Contains(strs[0], strs[1])))
		case "strings.Count":
			return one(mkInt(int64(strings.Count(strs[0], strs[1]))))
		case "strings.Index":
			return one(mkInt(int64(strings.Index(strs[0], strs[1]))))
		case "strings.TrimPrefix":
			return one(mkStr(strings.TrimPrefix(strs[0], strs[1])))
		case "strings.ReplaceAll":
			return one(mkStr(strings.ReplaceAll(strs[0], strs[1], strs[2])))
		}
	}
	if name == "strings.EqualFold" {
		a, b := mkCall("strings.ToLower", 0, types.Typ[types.String], as[0]), mkCall("strings.ToLower", 0, types.Typ[types.String], as[1])
		return one(mkEq(a, b))
	}
	if name == "strings.TrimPrefix" || name == "strings.TrimSuffix" {
		if s, ok := as[1].strConst(); ok {
			cname := "strings.Has" + strings.TrimPrefix(name, "strings.Trim")
			c := mkCall(cname, 0, types.Typ[types.Bool], as[0], as[1])
			switch p.st.facts.eval(c) {
			case 1:
				n := mkLen(as[0])
				if cname == "strings.HasPrefix" {
					return one(mkSlice(as[0], mkInt(int64(len(s))), n, types.Typ[types.String]))
				}
				return one(mkSlice(as[0], mkInt(0), mkLin(linAdd(linOf(n), linConst(-int64(len(s))))), types.Typ[types.String]))
			case 0:
				return one(as[0])
			}
		}
	}
	if name == "strings.Join" || name == "path.Join" || name == "path/filepath.Join" {
		if es, ok := x.elems(p.st, as[0]); ok {
			if name == "strings.Join" {
				r := mkStr("")
				for i, e := range es {
					if i > 0 {
						r = mkConcat(r, as[1])
					}
					r = mkConcat(r, e)
				}
				return one(r)
			}
			r := mkCall(name, 0, types.Typ[types.String], es...)
			for _, e := range es {
				if p.st.facts.eval(mkGe0(linAdd(linOf(mkLen(e)), linConst(-1)))) == 1 {
					// the result is empty only when every element is
					if g, ok := p.st.facts.assume(mkGe0(linAdd(linOf(mkLen(r)), linConst(-1))), true); ok {
						p.st.facts = g
					}
					break
				}
			}
			return one(r)
		}
	}
	if (name == "strings.Index" || name == "bytes.Index" || name == "strings.IndexByte" || name == "bytes.IndexByte" || name == "strings.IndexRune" || name == "bytes.IndexRune") && len(as) == 2 {
		sep, ok := as[1].strConst()
		if n, isc := as[1].intConst(); isc && n > 0 && n < 0x80 {
			sep, ok = string(rune(n)), true
		}
		if ok && sep != "" {
			r := mkCall(name, 0, types.Typ[types.Int], as...)
			hp := mkCall("strings.HasPrefix", 0, types.Typ[types.Bool], as[0], mkStr(sep))
			if p.st.facts.eval(hp) == 0 || p.st.facts.prefixMismatch(as[0], sep) {
				if g, ok := p.st.facts.assume(mkEq0(linOf(r)), false); ok {
					p.st.facts = g
				}
			}
			return one(r)
		}
	}
	// variadic arguments are listed one by one when they are known
	if sig.Variadic() && len(as) > 0 {
		last := as[len(as)-1]
		if es, ok := x.elems(p.st, last); ok {
			as = append(append([]*Term{}, as[:len(as)-1]...), es...)
		}
	}
	if name == "fmt.Sprintf" {
		if t := x.sprintf(p, as); t != nil {
			return one(t)
		}
	}
	if name == "bytes.Cut" && len(as) == 2 {
		if sep := as[1]; sep.op == OConv {
			if s, ok := sep.args[0].strConst(); ok && s != "" {
				return x.cutAt(p, as[0], mkCall("bytes.Index", 0, types.Typ[types.Int], as[0], sep), int64(len(s)), as[0].typ, mkNil(as[0].typ))
			}
		}
	}
	if (name == "strings.CutPrefix" || name == "strings.CutSuffix") && len(as) == 2 {
		if w, ok := as[1].strConst(); ok {
			cond := mkCall("strings.Has"+strings.TrimPrefix(name, "strings.Cut"), 0, types.Typ[types.Bool], as...)
			n := int64(len(w))
			var r []*Outcome
			if f, ok := p.st.facts.assume(cond, true); ok {
				st := p.st.clone()
				st.facts = f
				rest := mkSlice(as[0], mkInt(n), mkLen(as[0]), as[0].typ)
				if name == "strings.CutSuffix" {
					rest = mkSlice(as[0], mkInt(0), mkLin(linAdd(linOf(mkLen(as[0])), linConst(-n))), as[0].typ)
				}
				r = append(r, &Outcome{st: st, res: []*Term{rest, mkBool(true)}})
			}
			if f, ok := p.st.facts.assume(cond, false); ok {
				st := p.st.clone()
				st.facts = f
				r = append(r, &Outcome{st: st, res: []*Term{as[0], mkBool(false)}})
			}
			return r
		}
	}
	if name == "strings.Cut" && len(as) == 2 {
		if sep, ok := as[1].strConst(); ok {
			return x.cut(p, as[0], sep)
		}
	}
	res := x.results(name, sig, as, true)
	// functions that read the contents of a slice depend on the state of the heap
	for i, a := range as {
		if _, ok := typeUnder(a).(*types.Slice); ok && a.op != OCall && !(a.op == OSym) && a.op != OConv && a.op != OLoad && a.op != OSlice && a.op != OIndex && a.op != OMapGet && a.op != OAppend && a.op != OAppendS {
			_ = i
		}
	}
	if x.traceErr && len(res) > 0 && isErrorType(res[len(res)-1].typ) && name != "fmt.Errorf" && !strings.HasPrefix(name, "errors.") {
		p.st.event(&Event{kind: "call", name: name, args: as, res: res, pos: pos})
	}
	if name == "fmt.Errorf" || name == "errors.New" {
		if g, ok := p.st.facts.assume(mkIsNil(res[0]), false); ok {
			p.st.facts = g
		}
	}
	return one(res...)
}

// cut models strings.Cut by cases
func (x *Interp) cut(p *path, s *Term, sep string) []*Outcome {
	return x.cutAt(p, s, mkCall("strings.Index", 0, types.Typ[types.Int], s, mkStr(sep)), int64(len(sep)), types.Typ[types.String], mkStr(""))
}

func (x *Interp) cutAt(p *path, s, idx *Term, w int64, typ types.Type, none *Term) []*Outcome {
	var r []*Outcome
	if f, ok := p.st.facts.assume(mkGe0(linOf(idx)), true); ok {
		st := p.st.clone()
		st.facts = f
		n := mkLen(s)
		r = append(r, &Outcome{st: st, res: []*Term{mkSlice(s, mkInt(0), idx, typ), mkSlice(s, mkLin(linAdd(linOf(idx), linConst(w))), n, typ), mkBool(true)}})
	}
	if f, ok := p.st.facts.assume(mkGe0(linOf(idx)), false); ok {
		st := p.st.clone()
		st.facts = f
		r = append(r, &Outcome{st: st, res: []*Term{s, none, mkBool(false)}})
	}
	return r
}

// orderWidth is the number of bytes that a byte order's decoding method needs
func orderWidth(name string) int64 {
	if strings.HasPrefix(name, "(encoding/binary.") {
		switch {
		case strings.HasSuffix(name, ").Uint16"):
			return 2
		case strings.HasSuffix(name, ").Uint32"):
			return 4
		case strings.HasSuffix(name, ").Uint64"):
			return 8
		}
	}
	return 0
}

func typeUnder(t *Term) types.Type {
	if t.typ == nil {
		return nil
	}
	return t.typ.Underlying()
}

// sprintf turns simple formats into concatenations
func (x *Interp) sprintf(p *path, as []*Term) *Term {
	format, ok := as[0].strConst()
	if !ok {
		return nil
	}
	out := mkStr("")
	k := 1
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = mkConcat(out, mkStr(format[i:i+1]))
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		switch format[i] {
		case '%':
			out = mkConcat(out, mkStr("%"))
		case 's', 'v', 'd':
			if k >= len(as) || as[k].op != OIface {
				return nil
			}
			v := as[k].args[0]
			k++
			b, ok := as[k-1].typ.(*types.Basic)
			if !ok {
				return nil
			}
			switch {
			case b.Info()&types.IsString != 0 && format[i] != 'd':
				out = mkConcat(out, v)
			case b.Info()&types.IsInteger != 0 && format[i] != 's':
				if n, ok := v.intConst(); ok {
					out = mkConcat(out, mkStr(strconv.FormatInt(n, 10)))
				} else {
					out = mkConcat(out, mkCall("strconv.Itoa", 0, types.Typ[types.String], v))
				}
			default:
				return nil
			}
		default:
			return nil
		}
	}
	if k != len(as) {
		return nil
	}
	return out
}

// buffer models strings.Builder and bytes.Buffer: writes are events, the content is opaque
// printed is the text that a print function writes
func (x *Interp) printed(p *path, name string, args []*Term) *Term {
	if name == "io.WriteString" {
		return args[0]
	}
	as := args
	if es, ok := x.elems(p.st, args[len(args)-1]); ok {
		as = append(append([]*Term{}, args[:len(args)-1]...), es...)
	} else if name != "fmt.Fprintf" {
		return nil
	}
	switch name {
	case "fmt.Fprintf":
		if t := x.sprintf(p, as); t != nil {
			return t
		}
		return mkCall("fmt.Sprintf", 0, types.Typ[types.String], as...)
	case "fmt.Fprint", "fmt.Fprintln":
		r := mkStr("")
		for i, a := range as {
			if a.op != OIface || !isString(a.typ) {
				return nil
			}
			if i > 0 && name == "fmt.Fprintln" {
				r = mkConcat(r, mkStr(" "))
			}
			r = mkConcat(r, a.args[0])
		}
		if name == "fmt.Fprintln" {
			r = mkConcat(r, mkStr("\n"))
		}
		return r
	}
	return nil
}

func (x *Interp) buffer(p *path, f *ssa.Function, name string, args []*Term, pos token.Pos) []*Outcome {
	sig := f.Signature
	one := func(res ...*Term) []*Outcome { return []*Outcome{{st: p.st, res: res}} }
	short := f.Name()
	switch short {
	case "WriteString", "Write", "WriteByte", "WriteRune":
		v := args[1]
		if short == "WriteByte" || short == "WriteRune" {
			if n, ok := p.st.facts.subst(v).intConst(); ok {
				if short == "WriteByte" {
					v = mkStr(string([]byte{byte(n)}))
				} else {
					v = mkStr(string(rune(n)))
				}
			} else {
				v = mk(OConv, types.Typ[types.String], "char", true, v)
			}
		}
		p.st.event(&Event{kind: "write", name: name, args: []*Term{args[0], v}, pos: pos})
		res := x.results(name, sig, args, false)
		// writes to memory buffers do not fail
		for i, r := range res {
			if isErrorType(sig.Results().At(i).Type()) {
				if g, ok := p.st.facts.assume(mkIsNil(r), true); ok {
					p.st.facts = g
				}
			}
		}
		return one(res...)
	case "String", "Bytes", "Len":
		n := 0
		if p.st.ev != nil {
			n = p.st.ev.n
		}
		res := x.results(name+"@"+strconv.Itoa(n), sig, args, true)
		for i := range res {
			_ = i
			if short == "Bytes" || short == "String" {
				p.st.event(&Event{kind: "bufread", name: name, args: args, res: res, pos: pos})
			}
		}
		return one(res...)
	}
	res := x.results(name, sig, args, false)
	p.st.event(&Event{kind: "call", name: name, args: args, res: res, pos: pos})
	return one(res...)
}

func (x *Interp) callback(fi *funcInfo, p *path, cl *Term, ps []*Term, pos token.Pos, res []*Term) []*Outcome {
	return x.callbackEv(fi, p, "callback", cl, ps, pos, res, nil)
}

// callbackEv: an external function calls cl any number of times
func (x *Interp) callbackEv(fi *funcInfo, p *path, name string, cl *Term, ps []*Term, pos token.Pos, res []*Term, args []*Term) []*Outcome {
	rec := &CallbackRec{fn: cl, args: ps}
	target, _ := cl.obj.(*ssa.Function)
	if target == nil || len(target.Blocks) == 0 {
		x.forget(p, args)
		p.st.event(&Event{kind: "callback", name: name, args: args, res: res, pos: pos, cb: rec})
		return []*Outcome{{st: p.st, res: res}}
	}
	ms := &modSet{}
	ms.init()
	born := tick()
	for round := 0; round < 10; round++ {
		q := p.clone()
		ms.apply(q.st)
		q.st.ev = nil
		mark := q.st.mem
		rec.st = q.st.clone()
		x.sinks = append(x.sinks, newSink())
		outs := x.call(target, ps, cl.args, q.st)
		sk := x.sink()
		x.sinks = x.sinks[:len(x.sinks)-1]
		grew := false
		for _, o := range outs {
			if ms.collect(o.st, mark, born) {
				grew = true
			}
		}
		if grew {
			continue
		}
		x.sink().merge(sk)
		rec.outs = outs
		break
	}
	ms.apply(p.st)
	p.st.event(&Event{kind: "callback", name: name, args: args, res: res, pos: pos, cb: rec})
	return []*Outcome{{st: p.st, res: res}}
}

func (x *Interp) havocSlice(p *path, sl *Term, pos token.Pos) {
	s, ok := typeUnder(sl).(*types.Slice)
	if !ok {
		return
	}
	x.havocElems(p, sl, s.Elem(), pos)
}

func (x *Interp) havocElems(p *path, sl *Term, el types.Type, pos token.Pos) {
	var classes []string
	var rec func(t types.Type, prefix string)
	rec = func(t types.Type, prefix string) {
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if _, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
					rec(st.Field(i).Type(), "")
					continue
				}
				classes = append(classes, fieldClass(t, strconv.Itoa(i)))
			}
			return
		}
		classes = append(classes, "E:"+typeStr(t))
	}
	rec(el, "")
	for _, c := range classes {
		p.st.push(&Mem{kind: mHavocClass, class: c, pos: pos})
	}
}

// havocArgs: an external function may write through the pointers and slices it is given
func (x *Interp) havocArgs(p *path, args []*Term) {
	for _, a := range args {
		if a.op == OIface {
			a = a.args[0]
		}
		switch u := typeUnder(a).(type) {
		case *types.Pointer:
			x.havocObj(p, a, u.Elem(), 0)
			if x.inv != nil && isModule(u.Elem()) {
				x.inv.external(u.Elem(), "external code", map[string]bool{})
			}
		}
	}
}

func (x *Interp) havocObj(p *path, addr *Term, t types.Type, d int) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if !x.ownType(t) {
			return // internals of external structs are not tracked
		}
		for i := 0; i < u.NumFields(); i++ {
			x.havocObj(p, mkFieldAddr(addr, i, types.NewPointer(u.Field(i).Type())), u.Field(i).Type(), d+1)
		}
	case *types.Array:
		if u.Len() <= maxArrayVal {
			for i := 0; i < int(u.Len()); i++ {
				x.havocObj(p, mkIndexAddr(addr, mkInt(int64(i)), types.NewPointer(u.Elem())), u.Elem(), d+1)
			}
		}
	default:
		p.st.push(&Mem{kind: mHavocAddr, addr: addr, class: classOf(addr)})
	}
}

func (x *Interp) ownType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		return x.moduleType(n)
	}
	return true // anonymous struct declared here
}

// ---- nil-ness from context

func (x *Interp) nonNil(f *Facts, t *Term) bool {
	if e, ok := x.pairErr[t]; ok {
		if isNilable(t.typ) {
			if _, isSl := typeUnder(t).(*types.Slice); !isSl && f.evalNil(e) == 1 {
				return true
			}
		}
		return false
	}
	switch t.op {
	case OUnIface:
		if _, ok := typeUnder(t).(*types.Pointer); ok {
			return true
		}
	case OCall:
		if x.inv == nil && t.aux == "invoke GetDomain" {
			return true // C04: every implementation guarantees it
		}
		if strings.HasPrefix(t.aux, "invoke ") || strings.HasPrefix(t.aux, "dyn") || strings.Contains(t.aux, "$") {
			return false
		}
		base := t.aux
		if nilableResult[base] {
			return false
		}
		switch typeUnder(t).(type) {
		case *types.Pointer, *types.Interface:
			if isErrorType(t.typ) {
				return base == "fmt.Errorf" || base == "errors.New"
			}
			return pureFuncs[base] || pureMethods[base] || base == "strings.NewReplacer" || base == "strings.NewReader" || base == "bytes.NewReader"
		}
	case OLoad:
		if x.inv != nil || true {
			return x.addrNonNil(t.args[0], t.typ)
		}
	case OField:
		if t.args[0].typ != nil {
			return x.classNonNil(fieldClass(t.args[0].typ, t.aux), t.typ, t.args[0].typ)
		}
	case OMapGet:
		has := mk(OMapHas, types.Typ[types.Bool], t.aux, false, t.args[0], t.args[1])
		if f.lits[has] {
			if mt, ok := typeUnder(t.args[0]).(*types.Map); ok {
				return x.elemNonNil("ME:"+typeStr(mt), mt.Elem())
			}
		}
		if n, ok := t.args[0].typ.(*types.Named); !ok || isModule(n) {
			if mt, ok := typeUnder(t.args[0]).(*types.Map); ok && foreignElem(mt) && foreignField(t.args[0]) && (t.args[1].op == OLoad || t.args[1].op == OSym && !strings.HasPrefix(t.args[1].aux, "param:")) {
				// tables that a library made, asked for keys taken from elsewhere
				// (they are collected from the table itself)
				return x.elemNonNil("ME:"+typeStr(mt), mt.Elem())
			}
		}
	case OSym:
		if strings.HasPrefix(t.aux, "cb") || strings.HasPrefix(t.aux, "key#") {
			// arguments that libraries pass to callbacks
			if strings.HasPrefix(t.aux, "cb1#") { // os.FileInfo next to an error
				return false
			}
			return false
		}
		return x.paramNonNil(t)
	}
	return false
}

// isEntries: *Translation, or a map of them
func isEntries(t types.Type) bool {
	if mt, ok := t.Underlying().(*types.Map); ok {
		return isEntries(mt.Elem())
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	return ok && n.Obj().Name() == "Translation" && isModule(n)
}

// valuesNonNil: the map that a value was looked up in holds no nil values
func (x *Interp) valuesNonNil(get *Term) bool {
	mt, ok := typeUnder(get.args[0]).(*types.Map)
	return ok && refType(mt.Elem()) && x.elemNonNil("ME:"+typeStr(mt), mt.Elem())
}

// extNonNil: results of library functions that are never nil
var extNonNil = map[*Term]bool{}

// foreignField: the value of a field of an object that a library made
func foreignField(t *Term) bool {
	if t.op != OLoad || t.args[0].op != OFieldAddr {
		return false
	}
	n, ok := types.Unalias(elemOf(t.args[0].args[0].typ)).(*types.Named)
	return ok && !isModule(n)
}

// foreignElem: the map's values are objects that only libraries make
func foreignElem(mt *types.Map) bool {
	pt, ok := mt.Elem().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	return ok && !isModule(n)
}

func (x *Interp) paramNonNil(t *Term) bool {
	if extNonNil[t] {
		return true
	}
	if !strings.HasPrefix(t.aux, "param:") {
		// results of external functions without an error: non-nil unless listed
		return false
	}
	if pt, ok := typeUnder(t).(*types.Pointer); ok {
		_ = pt
		return true
	}
	if _, ok := typeUnder(t).(*types.Signature); ok {
		return isModule(t.typ)
	}
	return false
}

func (x *Interp) addrNonNil(addr *Term, typ types.Type) bool {
	switch addr.op {
	case OFieldAddr:
		return x.classNonNil(classOf(addr), typ, elemOf(addr.args[0].typ))
	case OIndexAddr:
		return x.elemNonNil(classOf(addr), typ)
	case OGlobal:
		return x.classNonNil(classOf(addr), typ, nil)
	}
	return false
}

func (x *Interp) classNonNil(class string, typ types.Type, owner types.Type) bool {
	if x.inv != nil && x.inv.holds(class) {
		return true
	}
	if owner == nil {
		return false
	}
	if !x.ownType(owner) { // field of an external struct
		switch typ.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature:
			return !nilableField[class]
		}
	}
	return false
}

func (x *Interp) elemNonNil(class string, typ types.Type) bool {
	if x.inv != nil && x.inv.holds(class) {
		return true
	}
	if x.inv == nil && strings.HasPrefix(class, "ME:") && isEntries(typ) {
		// catalogues hold no nil entries (the panic checks establish it)
		return true
	}
	if pt, ok := typ.Underlying().(*types.Pointer); ok && !x.moduleType(pt.Elem()) {
		return !strings.Contains(class, "ast.BasicLit")
	}
	if n, ok := typ.(*types.Named); ok {
		if _, isI := n.Underlying().(*types.Interface); isI && n.Obj().Pkg() != nil && !x.moduleType(n) {
			return true
		}
	}
	return false
}

var _ = constant.MakeInt64
var _ = fmt.Sprint
