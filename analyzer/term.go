package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are hash-consed value numbers (Herbrand terms): two program values with the same
// term are equal on every execution that reaches the program point.

type Op uint8

const (
	OConst     Op = iota // aux: canonical constant text; typ
	OSym                 // aux: name; unique id
	OAlloc               // pointer to an object allocated at this event; typ: pointer type (or map type)
	OGlobal              // aux: *ssa.Global
	OFunc                // aux: *ssa.Function
	OClosure             // aux: *ssa.Function, args: bindings
	OFieldAddr           // aux: field index
	OIndexAddr           // base, index
	OField               // struct value, aux: field index
	OIndex               // string/array value, index
	OLoad                // addr; aux: version id
	OMapGet              // map, key; aux: version id
	OMapHas              // map, key; aux: version id
	OCall                // aux: callee name + result index; args (deterministic, effect-free)
	OLen
	OCap
	OBin  // aux: operator (not linear)
	ONeg  // boolean negation
	OConv // to typ
	OSlice
	OConcat
	OAppend  // base, elems...
	OAppendS // base, other slice
	OStruct
	OTuple
	OIface   // value boxed as an interface; typ: dynamic type
	OUnIface // type assertion of an unknown interface value to typ
	OLin     // linear combination; lin
	OGe0     // lin >= 0
	OEq0     // lin == 0
	OIsNil
	OEq    // equality of two non-integer values
	OIsTyp // interface value has dynamic type typ
)

var opNames = [...]string{"const", "sym", "alloc", "global", "func", "closure", "&field", "&index", "field", "index", "load", "mapget", "maphas", "call", "len", "cap", "bin", "not", "conv", "slice", "concat", "append", "appends", "struct", "tuple", "iface", "uniface", "lin", "ge0", "eq0", "isnil", "eq", "istyp"}

type Term struct {
	id   int
	op   Op
	typ  types.Type
	args []*Term
	aux  string
	lin  *Lin
	seq  int // birth time; a term cannot denote an object allocated later
	obj  interface{}
	cval constant.Value
}

var (
	internTab = map[string]*Term{}
	allTerms  []*Term
	clock     = 1
)

func tick() int { clock++; return clock }

var typeIDs = map[string]string{}

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	return types.TypeString(t, nil)
}

func mk(op Op, typ types.Type, aux string, keyTyp bool, args ...*Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + op))
	if keyTyp {
		b.WriteString(typeKey(typ))
	}
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := internTab[k]; ok {
		return t
	}
	t := &Term{id: len(allTerms), op: op, typ: typ, aux: aux, args: args}
	for _, a := range args {
		if a.seq > t.seq {
			t.seq = a.seq
		}
	}
	allTerms = append(allTerms, t)
	internTab[k] = t
	return t
}

func mkSym(name string, typ types.Type) *Term {
	s := tick()
	t := mk(OSym, typ, name+"#"+strconv.Itoa(s), false)
	t.seq = s
	return t
}

// mkParam makes a symbol that predates everything allocated in the analysed code
func mkParam(name string, typ types.Type) *Term {
	t := mk(OSym, typ, "param:"+name, true)
	t.seq = 0
	return t
}

func mkAlloc(name string, typ types.Type) *Term {
	s := tick()
	t := mk(OAlloc, typ, name+"#"+strconv.Itoa(s), false)
	t.seq = s
	return t
}

func mkConst(v constant.Value, typ types.Type) *Term {
	if v == nil {
		t := mk(OConst, typ, "zero", true)
		return t
	}
	// integers and strings are identified by value only
	key := v.ExactString()
	var t *Term
	switch v.Kind() {
	case constant.Int:
		t = mk(OConst, typ, "i"+key, false)
	case constant.String:
		t = mk(OConst, typ, "s"+key, false)
	case constant.Bool:
		t = mk(OConst, typ, "b"+key, false)
	default:
		if isInteger(typ) {
			if iv := constant.ToInt(v); iv.Kind() == constant.Int {
				return mkConst(iv, typ)
			}
		}
		t = mk(OConst, typ, "x"+key, true)
	}
	if t.cval == nil {
		t.cval = v
	}
	return t
}

func mkInt(n int64) *Term   { return mkConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func mkStr(s string) *Term  { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func mkBool(b bool) *Term   { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func (t *Term) isNil() bool { return t.op == OConst && t.cval == nil && isNilable(t.typ) }

func mkNil(typ types.Type) *Term { return mk(OConst, nil, "nil", false).setTyp(typ) }
func (t *Term) setTyp(typ types.Type) *Term {
	if t.typ == nil {
		t.typ = typ
	}
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) boolConst() (bool, bool) {
	if t.op == OConst && t.cval != nil && t.cval.Kind() == constant.Bool {
		return constant.BoolVal(t.cval), true
	}
	return false, false
}
func (t *Term) strConst() (string, bool) {
	if t.op == OConst && t.cval != nil && t.cval.Kind() == constant.String {
		return constant.StringVal(t.cval), true
	}
	return "", false
}
func (t *Term) intConst() (int64, bool) {
	if t.op == OConst && t.cval != nil && t.cval.Kind() == constant.Int {
		return constant.Int64Val(t.cval)
	}
	return 0, false
}

func isNilable(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer
	}
	return false
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// zeroValue returns the zero value of a type
func zeroValue(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return mkConst(constant.MakeInt64(0), t)
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return mkNil(t)
		}
		return mk(OConst, t, "zero", true)
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = zeroValue(u.Field(i).Type())
		}
		return mkStruct(t, fs)
	case *types.Array, *types.Tuple:
		return mk(OConst, t, "zeroarr", true)
	case *types.TypeParam:
		return mk(OConst, t, "zero", true)
	}
	return mkNil(t)
}

func mkStruct(t types.Type, fs []*Term) *Term { return mk(OStruct, t, "", true, fs...) }

func mkFieldAddr(base *Term, i int, typ types.Type) *Term {
	return mk(OFieldAddr, typ, strconv.Itoa(i), false, base)
}

func mkField(x *Term, i int, typ types.Type) *Term {
	if x.op == OStruct {
		return x.args[i]
	}
	return mk(OField, typ, strconv.Itoa(i), false, x)
}

func mkTuple(ts ...*Term) *Term { return mk(OTuple, nil, "", false, ts...) }

func mkCall(name string, idx int, typ types.Type, args ...*Term) *Term {
	aux := name
	if idx > 0 {
		aux += "$" + strconv.Itoa(idx)
	}
	return mk(OCall, typ, aux, false, args...)
}

func mkNot(t *Term) *Term {
	if b, ok := t.boolConst(); ok {
		return mkBool(!b)
	}
	switch t.op {
	case ONeg:
		return t.args[0]
	case OGe0:
		return mkGe0(linAdd(linScale(linOf(t.args[0]), -1), linConst(-1)))
	}
	return mk(ONeg, types.Typ[types.Bool], "", false, t)
}

func mkGe0(l *Lin) *Term {
	l = l.normGe()
	if len(l.vs) == 0 {
		return mkBool(l.c >= 0)
	}
	return mk(OGe0, types.Typ[types.Bool], "", false, mkLin(l))
}

func mkEq0(l *Lin) *Term {
	if len(l.vs) == 0 {
		return mkBool(l.c == 0)
	}
	if l.vs[0].k < 0 {
		l = linScale(l, -1)
	}
	return mk(OEq0, types.Typ[types.Bool], "", false, mkLin(l))
}

// mkEq builds the equality of two values
func mkEq(a, b *Term) *Term {
	if a == b {
		return mkBool(true)
	}
	if isInteger(a.typ) || isInteger(b.typ) || a.op == OLin || b.op == OLin {
		return mkEq0(linSub(linOf(a), linOf(b)))
	}
	if a.isNil() {
		a, b = b, a
	}
	if b.isNil() {
		return mkIsNil(a)
	}
	if as, ok := a.strConst(); ok {
		if bs, ok := b.strConst(); ok {
			return mkBool(as == bs)
		}
		a, b = b, a
	}
	if bs, ok := b.strConst(); ok && bs == "" {
		return mkEq0(linOf(mkLen(a)))
	}
	if bv, ok := b.boolConst(); ok {
		a, b = b, a
		_ = bv
	}
	if av, ok := a.boolConst(); ok {
		if av {
			return b
		}
		return mkNot(b)
	}
	if a.op == OIface && b.op == OIface {
		if !types.Identical(a.typ, b.typ) {
			return mkBool(false)
		}
		return mkEq(a.args[0], b.args[0])
	}
	if a.op == OConst && b.op == OConst && a.cval != nil && b.cval != nil {
		return mkBool(constant.Compare(a.cval, 39 /* token.EQL */, b.cval))
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.op == OConst { // constant second
		a, b = b, a
	}
	return mk(OEq, types.Typ[types.Bool], "", false, a, b)
}

func mkIsNil(a *Term) *Term {
	switch a.op {
	case OAlloc, OFieldAddr, OIndexAddr, OGlobal, OFunc, OClosure, OIface:
		return mkBool(false)
	case OConst:
		return mkBool(a.isNil())
	case OAppend:
		if len(a.args) > 1 {
			return mkBool(false)
		}
		return mkIsNil(a.args[0])
	case OSlice:
		// slicing an array or a non-nil slice never gives nil
		if a.args[0].op == OAlloc {
			return mkBool(false)
		}
		if s, ok := a.args[0].typ.Underlying().(*types.Slice); ok && s != nil {
			return mkIsNil(a.args[0])
		}
	case OConv:
		if isString(a.args[0].typ) {
			return mk(OIsNil, types.Typ[types.Bool], "", false, a)
		}
		return mkIsNil(a.args[0])
	}
	return mk(OIsNil, types.Typ[types.Bool], "", false, a)
}

// mkLen builds len(x)
// madeLen is the length of the new arrays that slices are made of
var madeLen = map[*Term]*Term{}

func mkLen(x *Term) *Term {
	if n := madeLen[x]; n != nil {
		return n
	}
	if s, ok := x.strConst(); ok {
		return mkInt(int64(len(s)))
	}
	if x.isNil() {
		return mkInt(0)
	}
	switch x.op {
	case OConcat:
		l := linConst(0)
		for _, a := range x.args {
			l = linAdd(l, linOf(mkLen(a)))
		}
		return mkLin(l)
	case OSlice:
		return mkLin(linSub(linOf(x.args[2]), linOf(x.args[1])))
	case OAppend:
		return mkLin(linAdd(linOf(mkLen(x.args[0])), linConst(int64(len(x.args)-1))))
	case OAppendS:
		return mkLin(linAdd(linOf(mkLen(x.args[0])), linOf(mkLen(x.args[1]))))
	case OConv:
		src := x.args[0]
		if isBytesOrString(x.typ) && isBytesOrString(src.typ) {
			return mkLen(src)
		}
		if types.Identical(x.typ.Underlying(), src.typ.Underlying()) {
			return mkLen(src)
		}
	}
	if x.typ != nil {
		switch u := x.typ.Underlying().(type) {
		case *types.Array:
			return mkInt(u.Len())
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return mkInt(a.Len())
			}
		}
	}
	return mk(OLen, types.Typ[types.Int], "", false, x)
}

func isBytesOrString(t types.Type) bool {
	if t == nil {
		return false
	}
	if isString(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func mkConcat(a, b *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		if t.op == OConcat {
			parts = append(parts, t.args...)
		} else {
			parts = append(parts, t)
		}
	}
	add(a)
	add(b)
	var out []*Term
	for _, p := range parts {
		s, ok := p.strConst()
		if ok && s == "" {
			continue
		}
		if ok && len(out) > 0 {
			if ps, ok := out[len(out)-1].strConst(); ok {
				out[len(out)-1] = mkStr(ps + s)
				continue
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return mk(OConcat, types.Typ[types.String], "", false, out...)
}

// mkSlice builds x[lo:hi]; lo and hi are always present
func mkSlice(x, lo, hi *Term, typ types.Type) *Term {
	if s, ok := x.strConst(); ok {
		l, ok1 := lo.intConst()
		h, ok2 := hi.intConst()
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s)) {
			return mkStr(s[l:h])
		}
	}
	if isStrOrSlice(x.typ) {
		if l, ok := lo.intConst(); ok && l == 0 && hi == mkLen(x) {
			return x
		}
	}
	if x.op == OSlice {
		base := linOf(x.args[1])
		return mkSlice(x.args[0], mkLin(linAdd(base, linOf(lo))), mkLin(linAdd(base, linOf(hi))), typ)
	}
	return mk(OSlice, typ, "", false, x, lo, hi)
}

func isStrOrSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	if isString(t) {
		return true
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func mkIndexAddr(base, idx *Term, typ types.Type) *Term {
	if base.op == OSlice {
		return mkIndexAddr(base.args[0], mkLin(linAdd(linOf(base.args[1]), linOf(idx))), typ)
	}
	return mk(OIndexAddr, typ, "", false, base, idx)
}

func mkIndex(x, idx *Term, typ types.Type) *Term {
	if s, ok := x.strConst(); ok {
		if i, ok := idx.intConst(); ok && i >= 0 && i < int64(len(s)) {
			return mkConst(constant.MakeInt64(int64(s[i])), typ)
		}
	}
	if x.op == OSlice {
		return mkIndex(x.args[0], mkLin(linAdd(linOf(x.args[1]), linOf(idx))), typ)
	}
	return mk(OIndex, typ, "", false, x, idx)
}

func mkIface(x *Term, dyn types.Type) *Term { return mk(OIface, dyn, "", true, x) }

// ---- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 8 {
		return "…"
	}
	as := func() string {
		var ss []string
		for _, a := range t.args {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case OConst:
		if t.cval != nil {
			return t.cval.ExactString()
		}
		return t.aux
	case OSym:
		return strings.TrimPrefix(t.aux, "param:")
	case OAlloc:
		return "new " + t.aux
	case OGlobal:
		return "&" + t.aux
	case OFunc, OClosure:
		return "func " + t.aux
	case OFieldAddr:
		return "&" + t.args[0].str(d+1) + "." + fieldName(t)
	case OIndexAddr:
		return "&" + t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OField:
		return t.args[0].str(d+1) + ".f" + t.aux
	case OIndex:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OLoad:
		s := t.args[0].str(d + 1)
		if strings.HasPrefix(s, "&") {
			s = s[1:]
		} else {
			s = "*" + s
		}
		if t.aux != "0" {
			s += "@" + t.aux
		}
		return s
	case OMapGet:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OMapHas:
		return "(" + t.args[1].str(d+1) + " in " + t.args[0].str(d+1) + ")"
	case OCall:
		return t.aux + "(" + as() + ")"
	case OBin:
		return "(" + t.args[0].str(d+1) + " " + t.aux + " " + t.args[1].str(d+1) + ")"
	case ONeg:
		return "!" + t.args[0].str(d+1)
	case OConv:
		return typeKey(t.typ) + "(" + as() + ")"
	case OSlice:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + ":" + t.args[2].str(d+1) + "]"
	case OConcat:
		var ss []string
		for _, a := range t.args {
			ss = append(ss, a.str(d+1))
		}
		return "(" + strings.Join(ss, " + ") + ")"
	case OLin:
		return "(" + t.lin.str(d+1) + ")"
	case OGe0:
		return t.args[0].str(d+1) + " >= 0"
	case OEq0:
		return t.args[0].str(d+1) + " == 0"
	case OIsNil:
		return t.args[0].str(d+1) + " == nil"
	case OEq:
		return t.args[0].str(d+1) + " == " + t.args[1].str(d+1)
	}
	return opNames[t.op] + "(" + as() + ")"
}

func fieldName(t *Term) string {
	i, _ := strconv.Atoi(t.aux)
	if st := structOf(t.args[0].typ); st != nil && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return t.aux
}

// structOf returns the struct type that a pointer type (or struct type) leads to
func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// contains reports whether t has sub as a subterm
func (t *Term) contains(sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.args {
		if a.contains(sub) {
			return true
		}
	}
	return false
}

func (t *Term) walk(f func(*Term)) {
	f(t)
	for _, a := range t.args {
		a.walk(f)
	}
}

// ---- linear forms

type LV struct {
	t *Term
	k int64
}

type Lin struct {
	c    int64
	vs   []LV
	over bool // arithmetic overflow: value unknown
}

func linConst(c int64) *Lin { return &Lin{c: c} }

func linOf(t *Term) *Lin {
	if t.op == OLin {
		return t.lin
	}
	if n, ok := t.intConst(); ok {
		return linConst(n)
	}
	return &Lin{vs: []LV{{t, 1}}}
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0) || b == 0
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	return c, c/b == a && !(a == -1 && b == -1<<63) && !(b == -1 && a == -1<<63)
}

func linComb(a *Lin, ka int64, b *Lin, kb int64) *Lin {
	r := &Lin{over: a.over || b.over}
	m1, o1 := mulOv(a.c, ka)
	m2, o2 := mulOv(b.c, kb)
	var o3 bool
	r.c, o3 = addOv(m1, m2)
	if !o1 || !o2 || !o3 {
		r.over = true
	}
	i, j := 0, 0
	for i < len(a.vs) || j < len(b.vs) {
		switch {
		case j >= len(b.vs) || (i < len(a.vs) && a.vs[i].t.id < b.vs[j].t.id):
			k, o := mulOv(a.vs[i].k, ka)
			r.over = r.over || !o
			if k != 0 {
				r.vs = append(r.vs, LV{a.vs[i].t, k})
			}
			i++
		case i >= len(a.vs) || b.vs[j].t.id < a.vs[i].t.id:
			k, o := mulOv(b.vs[j].k, kb)
			r.over = r.over || !o
			if k != 0 {
				r.vs = append(r.vs, LV{b.vs[j].t, k})
			}
			j++
		default:
			k1, o1 := mulOv(a.vs[i].k, ka)
			k2, o2 := mulOv(b.vs[j].k, kb)
			k, o3 := addOv(k1, k2)
			r.over = r.over || !o1 || !o2 || !o3
			if k != 0 {
				r.vs = append(r.vs, LV{a.vs[i].t, k})
			}
			i++
			j++
		}
	}
	return r
}

func linAdd(a, b *Lin) *Lin         { return linComb(a, 1, b, 1) }
func linSub(a, b *Lin) *Lin         { return linComb(a, 1, b, -1) }
func linScale(a *Lin, k int64) *Lin { return linComb(a, k, linConst(0), 0) }
func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// normGe divides l >= 0 by the gcd of its coefficients, rounding the constant down
func (l *Lin) normGe() *Lin {
	g := int64(0)
	for _, v := range l.vs {
		g = gcd(g, v.k)
	}
	if g <= 1 {
		return l
	}
	r := &Lin{over: l.over}
	for _, v := range l.vs {
		r.vs = append(r.vs, LV{v.t, v.k / g})
	}
	r.c = floorDiv(l.c, g)
	return r
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func mkLin(l *Lin) *Term {
	if l.over {
		return mkSym("overflow", types.Typ[types.Int])
	}
	if len(l.vs) == 0 {
		return mkInt(l.c)
	}
	if len(l.vs) == 1 && l.vs[0].k == 1 && l.c == 0 {
		return l.vs[0].t
	}
	args := make([]*Term, len(l.vs))
	var b strings.Builder
	b.WriteString(strconv.FormatInt(l.c, 10))
	for i, v := range l.vs {
		args[i] = v.t
		b.WriteByte(' ')
		b.WriteString(strconv.FormatInt(v.k, 10))
	}
	t := mk(OLin, types.Typ[types.Int], b.String(), false, args...)
	t.lin = l
	return t
}

func (l *Lin) str(d int) string {
	var ss []string
	for _, v := range l.vs {
		s := v.t.str(d + 1)
		if v.k != 1 {
			s = strconv.FormatInt(v.k, 10) + "*" + s
		}
		ss = append(ss, s)
	}
	if l.c != 0 || len(ss) == 0 {
		ss = append(ss, strconv.FormatInt(l.c, 10))
	}
	return strings.Join(ss, " + ")
}

func (l *Lin) String() string { return l.str(0) }

func (l *Lin) key() string {
	var b strings.Builder
	b.WriteString(strconv.FormatInt(l.c, 10))
	for _, v := range l.vs {
		fmt.Fprintf(&b, " %d*%d", v.k, v.t.id)
	}
	return b.String()
}

func sortTerms(ts []*Term) { sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id }) }

// termGlobal etc.
func mkGlobal(g *ssa.Global) *Term {
	t := mk(OGlobal, g.Type(), g.String(), false)
	t.obj = g
	return t
}
func mkFunc(f *ssa.Function) *Term {
	t := mk(OFunc, f.Type(), f.String(), false)
	t.obj = f
	return t
}
func mkClosure(f *ssa.Function, bind []*Term) *Term {
	t := mk(OClosure, f.Type(), fmt.Sprintf("%s@%d", f.String(), f.Pos()), false, bind...)
	t.obj = f
	return t
}
