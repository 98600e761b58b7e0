package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Catalogue files: which file a locale loads for a domain, from where, and how it is published.

// fileCalls lists the standard-library functions that look at files: true for those that take
// a file system, false for those that use the operating system's
var fileCalls = map[string]bool{
	"os.Stat": false, "os.Lstat": false, "os.ReadFile": false, "os.Open": false, "os.OpenFile": false, "os.ReadDir": false,
	"io/ioutil.ReadFile": false, "io/ioutil.ReadDir": false, "path/filepath.Glob": false, "path/filepath.Walk": false, "path/filepath.WalkDir": false,
	"path/filepath.EvalSymlinks": false,
	"io/fs.Stat":                 true, "io/fs.ReadFile": true, "io/fs.Sub": true, "io/fs.ReadDir": true, "io/fs.Glob": true, "io/fs.WalkDir": true,
}

func isFileCall(name string) bool { _, ok := fileCalls[name]; return ok }

// usesFS: the call looks at a file system given as a value
func fsCall(e *Event) (fs *Term, ok bool) {
	if e.kind != "call" {
		return nil, false
	}
	if v, is := fileCalls[e.name]; is && v {
		return e.args[0], true
	}
	if strings.HasPrefix(e.name, "(io/fs.") {
		switch e.name[strings.LastIndex(e.name, ".")+1:] {
		case "Open", "ReadFile", "Stat", "ReadDir", "Glob", "Sub":
			return e.args[0], true
		}
	}
	return nil, false
}

func osCall(e *Event) bool {
	v, is := fileCalls[e.name]
	return e.kind == "call" && is && !v || e.kind == "callback" && is && !v
}

// fileRun analyses a function over an unchanging file system; parsing is left out
func (c *Ctx) fileRun(f *ssa.Function, setup func(x *Interp, st *State, args []*Term)) *run {
	x := newInterp(c.p)
	args, _ := x.rootArgs(f)
	st := x.newState()
	if setup != nil {
		setup(x, st, args)
	}
	parse := c.parsers()
	return c.runWith(f, args, st, func(y *Interp) {
		y.snapshot = isFileCall
		y.pathCap = 2000
		y.opaque = func(g *ssa.Function) bool { return parse[g] != "" }
	})
}

// parsers maps Po.Parse and Mo.Parse to the extension of their files
func (c *Ctx) parsers() map[*ssa.Function]string {
	r := map[*ssa.Function]string{}
	for n, e := range map[string]string{"Po.Parse": ".po", "Mo.Parse": ".mo"} {
		if f := c.need("", n); f != nil {
			r[f] = e
		}
	}
	return r
}

// pathOf flattens a file path into its elements
func pathOf(f *Facts, t *Term) []*Term {
	t = f.subst(t)
	if t.op == OCall && (t.aux == "path.Join" || t.aux == "path/filepath.Join") {
		var r []*Term
		for _, a := range t.args {
			r = append(r, pathOf(f, a)...)
		}
		return r
	}
	// a text with slashes inside
	parts := []*Term{t}
	if t.op == OConcat {
		parts = t.args
	}
	r := []*Term{nil}
	for _, p := range parts {
		s, isc := p.strConst()
		if !isc {
			r[len(r)-1] = concatOf(r[len(r)-1], p)
			continue
		}
		for i, piece := range strings.Split(s, "/") {
			if i > 0 {
				r = append(r, nil)
			}
			if piece != "" {
				r[len(r)-1] = concatOf(r[len(r)-1], mkStr(piece))
			}
		}
	}
	var out []*Term
	for _, p := range r {
		if p != nil {
			out = append(out, p)
		}
	}
	return out
}

func concatOf(a, b *Term) *Term {
	if a == nil {
		return b
	}
	return mkConcat(a, b)
}

func samePath(f *Facts, a, b *Term) bool {
	x, y := pathOf(f, a), pathOf(f, b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !equal(f, x[i], y[i]) {
			return false
		}
	}
	return true
}

// tree is the specification's view of a locale's files
type tree struct {
	d    *dec
	loc  *Term
	evs  []*Event
	miss bool
}

// exists: whether a file exists, by the answer that the function got; what it did not ask for
// is decided either way
func (t *tree) exists(p *Term) bool {
	d := t.d
	for _, e := range t.evs {
		if e.kind != "call" || !strings.HasSuffix(e.name, "Stat") || !isFileCall(e.name) {
			continue
		}
		if samePath(d.f, e.args[len(e.args)-1], p) {
			return d.ask(mkIsNil(e.res[1]))
		}
	}
	return d.ask(mkIsNil(mkCall("not asked", 0, errorType(), p)))
}

func errorType() types.Type { return types.Universe.Lookup("error").Type() }

// choose finds the file that the documented order gives
func (t *tree) choose(dom *Term) (file, lang *Term, ext string) {
	d := t.d
	p, full := d.field(t.loc, "path"), d.field(t.loc, "lang")
	str := types.Typ[types.String]
	short := mkSlice(full, mkInt(0), mkInt(2), str)
	join := func(l *Term, dir, ext string) *Term {
		name := mkConcat(dom, mkStr(ext))
		if dir == "" {
			return mkCall("path.Join", 0, str, p, l, name)
		}
		return mkCall("path.Join", 0, str, p, l, mkStr(dir), name)
	}
	for _, ext := range []string{".po", ".mo"} {
		for _, dir := range []string{"LC_MESSAGES", ""} {
			if f := join(full, dir, ext); t.exists(f) {
				return f, full, ext
			}
			if d.ask(mkGe0(linAdd(linOf(mkLen(full)), linConst(-3)))) {
				if f := join(short, dir, ext); t.exists(f) {
					return f, short, ext
				}
			}
		}
	}
	return nil, nil, ""
}

// addDomain: AddDomain loads the file that comes first in the documented order
func (c *Ctx) addDomain() {
	f := c.need("", "Locale.AddDomain")
	if f == nil {
		return
	}
	parse := c.parsers()
	for _, long := range []bool{false, true} {
		c.addDomainFor(f, parse, long)
	}
}

// longCode assumes that the locale's code is longer than two letters, or not
func longCode(long bool) func(x *Interp, st *State, args []*Term) {
	return func(x *Interp, st *State, args []*Term) {
		lang := st.load(fieldAddr(args[0], "lang"), types.Typ[types.String])
		if g, ok := st.facts.assume(mkGe0(linAdd(linOf(mkLen(lang)), linConst(-3))), long); ok {
			st.facts = g
		}
	}
}

func (c *Ctx) addDomainFor(f *ssa.Function, parse map[*ssa.Function]string, long bool) {
	r := c.fileRun(f, longCode(long))
	l, dom := r.args[0], r.args[1]
	for _, o := range r.outs {
		evs := o.st.events(nil)
		n := cases(r.x, o.st.facts, r.st0, func(d *dec) {
			t := &tree{d: d, loc: l, evs: evs}
			file, _, ext := t.choose(dom)
			when := trunc(d.f.describe(), 400)
			var published []*Mem
			for _, m := range o.st.writes(nil) {
				if m.kind == mMapUpd && isDomainMap(m.addr.typ) || m.kind == mMapDel && isDomainMap(m.addr.typ) {
					published = append(published, m)
				}
			}
			if file == nil {
				c.count("no_file", 1)
				for _, e := range evs {
					if readsFile(e) {
						c.fail("no-file", fname(f), e.pos, "reads %s although no catalogue file was found, when %s", e.args[len(e.args)-1], when)
					}
				}
				if len(published) > 0 {
					c.fail("no-file", fname(f), published[0].pos, "changes the domains although no catalogue file was found, when %s", when)
				}
				for _, fld := range []string{"defaultDomain", "path", "lang"} {
					if d.field(l, fld) != o.st.load(fieldAddr(l, fld), types.Typ[types.String]) {
						c.fail("no-file", fname(f), o.pos, "changes %s although no catalogue file was found", fld)
					}
				}
				return
			}
			c.count("files", 1)
			// what is read is that file
			var read *Event
			for _, e := range evs {
				if !readsFile(e) {
					continue
				}
				if !samePath(d.f, e.args[len(e.args)-1], file) {
					c.fail("order", fname(f), e.pos, "reads %s where %s comes first, when %s", e.args[len(e.args)-1], file, when)
					return
				}
				read = e
			}
			if read == nil && !isDirectory(d.f, evs) {
				c.fail("order", fname(f), o.pos, "%s is not read although it comes first, when %s", file, when)
				return
			}
			for _, e := range evs {
				if e.kind != "modcall" {
					continue
				}
				for g, x := range parse {
					if e.name == fname(g) && x != ext {
						c.fail("parser", fname(f), e.pos, "%s is parsed by %s, when %s", file, e.name, when)
					}
				}
			}
			v, ok := d2(o, d).lookup(o.st.load(fieldAddr(l, "Domains"), elemOf(fieldAddr(l, "Domains").typ)), dom)
			if !ok {
				c.fail("register", fname(f), o.pos, "the catalogue of %s is not registered under the domain's name, when %s", file, when)
				return
			}
			want := map[string]string{".po": "Po", ".mo": "Mo"}[ext]
			if tn := typeName(v); tn != want {
				c.fail("register", fname(f), o.pos, "registers %s (a %s) for %s, when %s", v, tn, file, when)
			}
		})
		c.count("cases", n)
	}
}

// d2 reads in the state at the end of an outcome
func d2(o *Outcome, d *dec) *dec {
	return &dec{x: d.x, f: d.f, st: &State{facts: d.f, mem: o.st.mem, ev: o.st.ev}, script: d.script, pos: d.pos, next: d.next}
}

// typeName is the name of the dynamic type of a value
func typeName(v *Term) string {
	t := v.typ
	if v.op == OIface {
		t = v.args[0].typ
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func isDomainMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isString(m.Key()) {
		return false
	}
	n, ok := m.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Translator"
}

// readsFile: the event reads the contents of a file
func readsFile(e *Event) bool {
	if e.kind != "call" {
		return false
	}
	switch e.name {
	case "os.ReadFile", "io/ioutil.ReadFile", "io/fs.ReadFile", "os.Open", "os.OpenFile":
		return true
	}
	return strings.HasPrefix(e.name, "(io/fs.") && (strings.HasSuffix(e.name, ".Open") || strings.HasSuffix(e.name, ".ReadFile"))
}

// isDirectory: the file is known to be a directory
func isDirectory(f *Facts, evs []*Event) bool {
	for t, v := range f.lits {
		if v && t.op == OCall && strings.HasSuffix(t.aux, ".IsDir") || v && t.op == OSym && strings.HasSuffix(t.aux, "IsDir") {
			return true
		}
	}
	for _, e := range evs {
		if e.kind == "call" && strings.HasSuffix(e.name, ".IsDir") && len(e.res) == 1 && f.eval(e.res[0]) == 1 {
			return true
		}
	}
	return false
}

// actual: GetActualLanguage names the directory of the file that would be loaded
func (c *Ctx) actual() {
	f := c.need("", "Locale.GetActualLanguage")
	if f == nil {
		return
	}
	for _, long := range []bool{false, true} {
		c.actualFor(f, long)
	}
}

func (c *Ctx) actualFor(f *ssa.Function, long bool) {
	r := c.fileRun(f, longCode(long))
	for _, o := range r.outs {
		evs := o.st.events(nil)
		n := cases(r.x, o.st.facts, r.st0, func(d *dec) {
			t := &tree{d: d, loc: r.args[0], evs: evs}
			_, lang, _ := t.choose(r.args[1])
			if lang == nil {
				lang = mkStr("")
			}
			c.count("languages", 1)
			if !equal(d.f, o.res[0], lang) {
				c.fail("actual-language", fname(f), o.pos, "returns %s where the file found first is in %s, when %s", o.res[0], lang, trunc(d.f.describe(), 400))
			}
		})
		c.count("cases", n)
	}
}

func init() {
	register("C21", "AddDomain and GetActualLanguage, for an arbitrary unchanging file system: on every path the file that is read (whose directory is named) equals the first existing one of the documented sequence of eight paths, is parsed only by the parser of its extension, and the translator registered under the domain's name has that type; without any file nothing is read and no field changes.", func(c *Ctx) {
		c.addDomain()
		c.actual()
		c.atLeast("files", 6)
		c.atLeast("no_file", 1)
		c.atLeast("languages", 9)
	})
}

// ---- C22: file systems

// fileEntries lists the exported methods of locales and translators that may look at files
func (c *Ctx) fileEntries() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.p.funcs {
		if f.Signature.Recv() == nil || f.Parent() != nil || f.Pkg != c.p.pkg("") || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		n, ok := derefNamed(f.Signature.Recv().Type())
		if !ok || fsField(n) == "" {
			continue
		}
		looks := callsFile(f)
		for g := range staticCallees(c.p, f) {
			looks = looks || callsFile(g)
		}
		if looks {
			r = append(r, f)
		}
	}
	return r
}

func callsFile(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil && isFileCall(g.String()) {
					return true
				}
				if m := call.Common().Method; m != nil && strings.HasPrefix(m.FullName(), "(io/fs.") {
					return true
				}
			}
		}
	}
	return false
}

// fsField names the field of a struct that holds a file system
func fsField(n *types.Named) string {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if isFS(st.Field(i).Type()) {
			return st.Field(i).Name()
		}
	}
	return ""
}

func isFS(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io/fs" && n.Obj().Name() == "FS"
}

func (c *Ctx) fileSystems() {
	parse := c.parsers()
	for _, f := range c.fileEntries() {
		c.count("entries", 1)
		n, _ := derefNamed(f.Signature.Recv().Type())
		r := c.fileRun(f, nil)
		own := r.st0.load(fieldAddr(r.args[0], fsField(n)), elemOf(fieldAddr(r.args[0], fsField(n)).typ))
		seen := map[*LoopRec]bool{}
		var state func(st *State, since *Event)
		state = func(st *State, since *Event) {
			fs := st.facts
			for _, e := range st.events(since) {
				if e.kind == "loop" && !seen[e.loop] {
					seen[e.loop] = true
					for _, b := range e.loop.back {
						state(b, e.loop.start.ev)
					}
				}
				if v, ok := fsCall(e); ok {
					c.count("fs_calls", 1)
					if !equal(fs, v, own) {
						c.fail("which-fs", fname(f), e.pos, "%s looks at %s, not at the file system that the object was given, when %s", e.name, v, trunc(fs.describe(), 200))
					}
				}
				if osCall(e) {
					c.count("os_calls", 1)
					if fs.evalNil(own) != 1 {
						c.fail("os-files", fname(f), e.pos, "%s looks at the operating system's files although the object may have a file system of its own, when %s", e.name, trunc(fs.describe(), 200))
					}
				}
				if e.kind == "modcall" {
					for g := range parse {
						if e.name == fname(g) {
							c.parsed(f, st, e)
						}
					}
				}
			}
		}
		for _, o := range r.outs {
			state(o.st, nil)
		}
	}
	// the file system is handed on
	for _, k := range []struct {
		name string
		fs   int
	}{{"NewPoFS", 0}, {"NewMoFS", 0}, {"NewLocaleFS", 1}, {"NewLocaleFSWithPath", 1}} {
		f := c.need("", k.name)
		if f == nil {
			continue
		}
		r := c.runFn(f, nil)
		for _, o := range r.outs {
			c.count("constructors", 1)
			n, ok := derefNamed(o.res[0].typ)
			if !ok || fsField(n) == "" {
				continue
			}
			a := fieldAddr(o.res[0], fsField(n))
			if v := o.st.load(a, elemOf(a.typ)); !equal(o.st.facts, v, r.args[k.fs]) {
				c.fail("constructor", fname(f), o.pos, "the new object's file system is %s, not the given one", v)
			}
		}
	}
	for _, k := range []struct {
		name string
		path int
	}{{"NewLocale", 0}, {"NewLocaleFSWithPath", 2}} {
		f := c.need("", k.name)
		if f == nil {
			continue
		}
		r := c.runFn(f, nil)
		for _, o := range r.outs {
			c.count("constructors", 1)
			if v := o.st.load(fieldAddr(o.res[0], "path"), types.Typ[types.String]); !equal(o.st.facts, v, r.args[k.path]) {
				c.fail("constructor", fname(f), o.pos, "the new locale's path is %s, not the given one", v)
			}
		}
	}
}

// parsed: what a parser gets was read without an error
func (c *Ctx) parsed(f *ssa.Function, st *State, parse *Event) {
	c.count("parses", 1)
	data := parse.args[len(parse.args)-1]
	for data.op == OConv {
		data = data.args[0]
	}
	for _, e := range st.events(nil) {
		if e == parse {
			break
		}
		if e.kind != "call" || len(e.res) != 2 || e.res[0] != data {
			continue
		}
		if st.facts.evalNil(e.res[1]) == 1 {
			return
		}
		c.fail("unread", fname(f), parse.pos, "parses what %s returned although it may have failed, when %s", e.name, trunc(st.facts.describe(), 200))
		return
	}
	c.fail("unread", fname(f), parse.pos, "parses %s, which is not the contents of a file that was read, when %s", data, trunc(st.facts.describe(), 200))
}

func init() {
	register("C22", "In every exported method of Locale, Po and Mo from which a file can be looked at: on every path, each call of an operating-system file function happens only where the object's file system is known to be nil, and each call on a file system is on the object's own (AddDomain hands it to the translator that it makes); constructors store it. A parser only ever gets the contents returned by a read whose error is known to be nil.", func(c *Ctx) {
		c.fileSystems()
		c.atLeast("entries", 4)
		c.atLeast("fs_calls", 8)
		c.atLeast("os_calls", 8)
		c.atLeast("parses", 4)
		c.atLeast("constructors", 6)
	})
	register("C23", "AddDomain: every Parse happens on a translator allocated in the same call, before the only write to the locale's domains on that path; nothing of the new translator is written afterwards; domains and default domain are written within one write-locked section of the locale; the default domain becomes the new domain exactly when there was none. The same publication rule holds for AddTranslator.", func(c *Ctx) {
		c.publication()
		c.atLeast("publications", 4)
		c.atLeast("parses", 2)
	})
}

// ---- C23: publication

func depth(m *Mem) int {
	if m == nil {
		return -1
	}
	return m.depth
}

// section is the Lock event of the locale under which a write happens, or nil
func section(o *Outcome, l *Term, w *Mem) *Event {
	var cur *Event
	for _, e := range o.st.events(nil) {
		if depth(e.mem) >= w.depth {
			break
		}
		if e.kind != "lock" || len(e.args) == 0 {
			continue
		}
		if a := e.args[0]; a.op != OFieldAddr || !equal(o.st.facts, a.args[0], l) {
			continue
		}
		switch {
		case strings.HasSuffix(e.name, ").Lock"):
			cur = e
		case strings.HasSuffix(e.name, ").Unlock"):
			cur = nil
		}
	}
	return cur
}

func (c *Ctx) publication() {
	parse := c.parsers()
	for _, name := range []string{"Locale.AddDomain", "Locale.AddTranslator"} {
		f := c.need("", name)
		if f == nil {
			continue
		}
		r := c.fileRun(f, nil)
		l, dom := r.args[0], r.args[1]
		for _, o := range r.outs {
			fs := o.st.facts
			when := trunc(fs.describe(), 200)
			var pub []*Mem
			var sections []*Event
			ws := o.st.writes(nil)
			for _, m := range ws {
				switch {
				case (m.kind == mMapUpd || m.kind == mMapDel) && isDomainMap(m.addr.typ):
					pub = append(pub, m)
				case m.kind == mStore && m.addr.op == OFieldAddr && equal(fs, m.addr.args[0], l):
				default:
					continue
				}
				sections = append(sections, section(o, l, m))
				if s := sections[len(sections)-1]; s == nil {
					c.fail("unlocked", fname(f), m.pos, "the locale is changed without its lock, when %s", when)
				} else if s != sections[0] {
					c.fail("one-step", fname(f), m.pos, "the locale is changed in several steps, when %s", when)
				}
			}
			if len(pub) > 1 {
				c.fail("one-step", fname(f), pub[1].pos, "the domains are changed %d times, when %s", len(pub), when)
				continue
			}
			var tr *Term
			for _, e := range o.st.events(nil) {
				if e.kind != "modcall" {
					continue
				}
				for g := range parse {
					if e.name != fname(g) {
						continue
					}
					c.count("parses", 1)
					tr = e.args[0]
					if tr.op != OAlloc {
						c.fail("fresh", fname(f), e.pos, "parses into %s, which others may already use, when %s", tr, when)
					}
					if len(pub) > 0 && depth(e.mem) >= pub[0].depth {
						c.fail("early", fname(f), e.pos, "the catalogue is parsed after it was made visible, when %s", when)
					}
				}
			}
			if len(pub) == 0 {
				if name == "Locale.AddTranslator" {
					c.fail("register", fname(f), o.pos, "the translator is not registered, when %s", when)
				}
				continue
			}
			c.count("publications", 1)
			p := pub[0]
			v := p.val
			if v != nil && v.op == OIface {
				v = v.args[0]
			}
			switch {
			case p.kind == mMapDel || !equal(fs, p.key, dom):
				c.fail("register", fname(f), p.pos, "changes the domain %s", p.key)
			case name == "Locale.AddTranslator" && !equal(fs, p.val, r.args[2]):
				c.fail("register", fname(f), p.pos, "registers %s", p.val)
			case tr != nil && v != tr:
				c.fail("register", fname(f), p.pos, "registers %s, not the translator that was parsed", p.val)
			}
			if a := fieldAddr(l, "Domains"); !equal(fs, o.st.load(a, elemOf(a.typ)), p.addr) {
				c.fail("register", fname(f), p.pos, "the domain is stored in %s, which is not the locale's", p.addr)
			}
			// nothing of it is written later
			for _, m := range ws {
				if m.depth <= p.depth || m.kind == mAlloc || m.kind == mStore && m.addr.op == OFieldAddr && equal(fs, m.addr.args[0], l) {
					continue
				}
				if m.kind == mStore && m.addr.op == OAlloc && !strings.HasPrefix(m.class, "F:gotext.") {
					continue // a local variable
				}
				c.fail("early", fname(f), m.pos, "something is written (%s) after the catalogue was made visible, when %s", m.class, when)
			}
			// the default domain
			da := fieldAddr(l, "defaultDomain")
			old, now := r.st0.load(da, types.Typ[types.String]), o.st.load(da, types.Typ[types.String])
			cases(r.x, fs, r.st0, func(d *dec) {
				want := old
				if d.ask(mkEq(old, mkStr(""))) {
					want = dom
				}
				if !equal(d.f, now, want) {
					c.fail("default-domain", fname(f), o.pos, "the default domain becomes %s, when it was %s and %s", now, old, trunc(d.f.describe(), 200))
				}
			})
			// a table that was there stays
			if a := fieldAddr(l, "Domains"); r.st0.load(a, elemOf(a.typ)) != o.st.load(a, elemOf(a.typ)) && fs.evalNil(r.st0.load(a, elemOf(a.typ))) != 1 {
				c.fail("register", fname(f), o.pos, "the other domains are dropped, when %s", when)
			}
		}
	}
}
