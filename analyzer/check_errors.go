package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Errors: an error that a call reports is known to be nil wherever the function reports success.

func returnsError(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type())
}

// errSource is an error result that must not be lost
type errSource struct {
	err  *Term
	what string
	pos  token.Pos
	fn   string
}

// std streams: failing to print a message is not an error of the operation
func stdStream(t *Term) bool {
	for t.op == OIface || t.op == OConv {
		t = t.args[0]
	}
	if t.op == OLoad && t.args[0].op == OGlobal {
		if g, ok := t.args[0].obj.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
			return true
		}
	}
	return false
}

// memory buffers never fail
func memBuffer(t types.Type) bool {
	s := typeStr(t)
	return strings.Contains(s, "bytes.Buffer") || strings.Contains(s, "strings.Builder") || strings.Contains(s, "bytes.Reader") || strings.Contains(s, "strings.Reader")
}

type errRun struct {
	c      *Ctx
	r      *run
	skip   func(e *Event) bool // errors that need not be reported
	opened map[*Term]bool      // files opened for reading
}

// sources lists the errors reported by the events of a state, with those of the loops and
// callbacks it went through left out
func (er *errRun) sources(st *State) []errSource {
	var out []errSource
	for _, e := range st.events(nil) {
		if s, ok := er.source(e); ok {
			out = append(out, s)
		}
	}
	return out
}

func (er *errRun) source(e *Event) (errSource, bool) {
	if len(e.res) == 0 {
		return errSource{}, false
	}
	err := e.res[len(e.res)-1]
	if !isErrorType(err.typ) {
		return errSource{}, false
	}
	switch e.kind {
	case "call", "invoke", "modcall", "callback", "dyn":
	default:
		return errSource{}, false
	}
	short := e.name[strings.LastIndex(e.name, ".")+1:]
	switch {
	case strings.HasPrefix(e.name, "os.Open") && len(e.args) == 1 || e.kind == "invoke" && short == "Open", e.name == "(io/fs.FS).Open":
		er.opened[e.res[0]] = true
	case short == "Close" && len(e.args) > 0:
		f := e.args[0]
		if f.op == OIface {
			f = f.args[0]
		}
		if er.opened[f] {
			return errSource{}, false
		}
	case strings.HasPrefix(e.name, "fmt.Fprint") && stdStream(e.args[0]), strings.HasPrefix(e.name, "fmt.Print"):
		return errSource{}, false
	case strings.HasPrefix(e.name, "fmt.Fprint") && e.args[0].op == OIface && memBuffer(e.args[0].typ):
		return errSource{}, false
	case strings.HasPrefix(e.name, "log."):
		return errSource{}, false
	}
	if er.skip != nil && er.skip(e) {
		return errSource{}, false
	}
	return errSource{err: err, what: e.name, pos: e.pos, fn: fname(er.r.f)}, true
}

// carried: the value that the loop keeps for the next iteration contains the error
func carried(rec *LoopRec, k int, err *Term) (int, bool) {
	for j, nx := range rec.next[k] {
		switch {
		case isErrorType(rec.phis[j].Type()):
			if nx.contains(err) || rec.back[k].facts.evalNil(nx) == 0 {
				return j, true
			}
		case errSlice(rec.phis[j].Type()):
			if nx.contains(err) {
				return j, true
			}
		}
	}
	return 0, false
}

func errSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isErrorType(s.Elem())
}

// inspected: the program asked what kind of error it is, and goes on for that kind only
func inspected(f *Facts, err *Term) bool {
	for t, v := range f.lits {
		if v && t.op == OCall && (t.aux == "os.IsNotExist" || t.aux == "errors.Is" || t.aux == "os.IsExist") && len(t.args) > 0 && t.args[0] == err {
			return true
		}
		if v && t.op == OEq && (t.args[0] == err || t.args[1] == err) { // err == io.EOF
			return true
		}
	}
	return false
}

func (er *errRun) lost(f *Facts, err *Term) bool {
	return f.evalNil(err) != 1 && !inspected(f, err)
}

// check examines one way of reporting success: facts assume that the result is nil
func (er *errRun) check(f *Facts, o *Outcome, res *Term, seen map[*LoopRec]bool) {
	c := er.c
	srcs := er.sources(o.st)
	for _, s := range srcs {
		c.count("error_sources", 1)
		c.sample("%s: %s", s.fn, s.what)
		if er.lost(f, s.err) && (res == nil || !res.contains(s.err)) {
			c.fail("swallowed", s.fn+"/"+s.what, s.pos, "the error of %s can be non-nil where %s reports success (%s)", s.what, s.fn, c.p.pos(o.pos))
		}
	}
	for _, rec := range loopsOf(o.st) {
		for _, j := range er.loop(rec, seen) {
			s := rec.sym[j]
			c.count("error_sources", 1)
			if errSlice(rec.phis[j].Type()) {
				if res == nil || !res.contains(s) {
					// or known empty
					if f.eval(mkEq0(linOf(mkLen(s)))) != 1 && f.evalNil(s) != 1 {
						c.fail("swallowed", fname(er.r.f)+"/loop", rec.pos, "errors collected in the loop are not reported")
					}
				}
			} else if er.lost(f, s) && (res == nil || !res.contains(s)) {
				c.fail("swallowed", fname(er.r.f)+"/loop", rec.pos, "the error that the loop keeps can be non-nil where %s reports success", fname(er.r.f))
			}
		}
	}
	for _, e := range o.st.events(nil) {
		if e.kind == "callback" {
			er.callback(e)
		}
	}
}

// loop: at the end of an iteration no error is pending, or the loop keeps it. The indexes of
// the variables that keep errors are returned.
func (er *errRun) loop(rec *LoopRec, seen map[*LoopRec]bool) []int {
	c := er.c
	keep := map[int]bool{}
	if seen[rec] {
		return nil
	}
	seen[rec] = true
	for k, b := range rec.back {
		for _, s := range er.sources(b) {
			c.count("error_sources", 1)
			if !er.lost(b.facts, s.err) {
				continue
			}
			if j, ok := carried(rec, k, s.err); ok {
				keep[j] = true
				continue
			}
			c.fail("swallowed", s.fn+"/"+s.what, s.pos, "the error of %s can be non-nil when the loop goes on with the next iteration", s.what)
		}
		for _, in := range loopsOf(b) {
			for _, j := range er.loop(in, seen) {
				s := in.sym[j]
				if er.lost(b.facts, s) {
					if jj, ok := carried(rec, k, s); ok {
						keep[jj] = true
					} else {
						c.fail("swallowed", fname(er.r.f)+"/loop", in.pos, "an error kept by the inner loop is lost")
					}
				}
			}
		}
		for _, e := range b.events(nil) {
			if e.kind == "callback" {
				er.callback(e)
			}
		}
	}
	var js []int
	for j := range keep {
		js = append(js, j)
	}
	sort.Ints(js)
	for _, j := range js {
		for k, nx := range rec.next {
			n := nx[j]
			if n.contains(rec.sym[j]) || rec.back[k].facts.evalNil(n) == 0 || rec.back[k].facts.evalNil(rec.sym[j]) == 1 {
				continue
			}
			c.fail("swallowed", fname(er.r.f)+"/loop", rec.pos, "a later iteration overwrites the error of an earlier one")
		}
	}
	return js
}

// callback: a function that a library calls reports the errors it is given and meets
func (er *errRun) callback(e *Event) {
	if e.cb == nil {
		return
	}
	for _, o := range e.cb.outs {
		g, _ := e.cb.fn.obj.(*ssa.Function)
		if o.panic || g == nil || !returnsError(g) {
			continue
		}
		res := o.res[len(o.res)-1]
		f, ok := o.st.facts.assume(mkIsNil(res), true)
		if !ok {
			continue
		}
		for _, a := range e.cb.args {
			if isErrorType(a.typ) {
				er.c.count("error_sources", 1)
				if er.lost(f, a) {
					er.c.fail("swallowed", fname(er.r.f)+"/"+e.name, o.pos, "the callback of %s reports success when it is given an error", e.name)
				}
			}
		}
		er.check(f, o, res, map[*LoopRec]bool{})
	}
}

// bearers are the module functions in which an error can arise
func (c *Ctx) bearers(skip func(name string) bool) map[*ssa.Function]bool {
	has := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range c.p.funcs {
			if has[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						if mc, ok := in.(*ssa.MakeClosure); ok {
							if g, ok := mc.Fn.(*ssa.Function); ok && has[g] {
								has[f] = true
								changed = true
							}
						}
						continue
					}
					cc := ci.Common()
					sig := cc.Signature()
					n := sig.Results().Len()
					if n > 0 && isErrorType(sig.Results().At(n-1).Type()) {
						if _, isB := cc.Value.(*ssa.Builtin); isB {
							continue
						}
						if g := cc.StaticCallee(); g == nil || !c.p.inMod[g] {
							if g == nil || !skip(g.String()) {
								if !has[f] {
									has[f] = true
									changed = true
								}
							}
						}
					}
					if g := cc.StaticCallee(); g != nil && has[g] && !has[f] {
						has[f] = true
						changed = true
					}
				}
			}
		}
	}
	return has
}

func pureErr(name string) bool {
	return strings.HasPrefix(name, "strconv.") || strings.HasPrefix(name, "path/filepath.Abs") || strings.HasPrefix(name, "path/filepath.Rel") || strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "errors.") || strings.HasPrefix(name, "(*strings.Builder)") || strings.HasPrefix(name, "(*bytes.Buffer)")
}

func init() {
	register("C31", "every error that an I/O, encoding, loading or module call reports is known to be nil on every path on which the enclosing function reports success", checkErrors)
}

// unreadable: a translator whose file cannot be read is left as it was
func (c *Ctx) unreadable() {
	for _, name := range []string{"Po", "Mo"} {
		f := c.need("", name+".ParseFile")
		if f == nil {
			continue
		}
		r := c.runFn(f, func(x *Interp) {
			x.precise = false
			x.opaque = func(g *ssa.Function) bool {
				return g != f && g.Parent() == nil && (returnsError(g) || g.Name() == "Parse" || g.Name() == "parse")
			}
		})
		for _, o := range r.outs {
			for _, e := range o.st.events(nil) {
				if len(e.res) == 0 || !isErrorType(e.res[len(e.res)-1].typ) || pureErr(e.name) {
					continue
				}
				c.count("reads", 1)
				if o.st.facts.evalNil(e.res[len(e.res)-1]) == 1 {
					continue
				}
				esc := o.st.unescaped(r.args)
				for _, m := range o.st.writes(nil) {
					if m.kind == mStore && !esc[rootPtr(m.addr)] || m.kind == mMapUpd && !esc[m.addr] || m.kind == mMapDel || m.kind == mHavocAll {
						c.fail("unreadable", fname(f), m.pos, "writes to the translator although %s can have failed", e.name)
					}
				}
				for _, m := range o.st.events(nil) {
					if m.kind == "modcall" && m != e && m.n > e.n {
						c.fail("unreadable", fname(f), m.pos, "calls %s although %s can have failed", m.name, e.name)
					}
				}
			}
		}
	}
	c.atLeast("reads", 2)
}

func checkErrors(c *Ctx) {
	c.unreadable()
	defer func() { c.atLeast("functions", 15); c.atLeast("error_sources", 20) }()
	has := c.bearers(func(name string) bool { return pureErr(name) && !strings.HasPrefix(name, "fmt.Fprint") })
	// functions that report their errors are looked at one by one
	stop := func(f *ssa.Function) bool {
		return returnsError(f) || !has[f] && len(f.Blocks) > 0 && f.Parent() == nil
	}
	for _, f := range c.p.funcs {
		if f.Pkg != nil && f.Pkg == c.p.pkg("plurals") || f.Parent() != nil || !has[f] {
			continue
		}
		isMain := f.Name() == "main" && f.Signature.Recv() == nil
		if !returnsError(f) && !isMain {
			continue
		}
		c.count("functions", 1)
		root := f
		er := &errRun{c: c, r: &run{f: f}, opened: map[*Term]bool{}}
		r := c.runFn(f, func(x *Interp) {
			x.precise = false
			x.pathCap, x.loopCap, x.outCap = 64, 2, 8
			x.opaque = func(g *ssa.Function) bool { return g != root && stop(g) }
			x.onExit = func(st *State, name string, args []*Term, pos token.Pos) {
				if name != "os.Exit" || st.facts.eval(mkEq0(linOf(args[0]))) == 0 {
					return
				}
				for _, s := range er.sources(st) {
					if er.lost(st.facts, s.err) {
						c.fail("swallowed", s.fn+"/"+s.what, pos, "the process can exit with status 0 although %s failed", s.what)
					}
				}
			}
		})
		er.r = r
		inDir := f.Pkg == c.p.pkg("cli/xgotext/parser/dir")
		er.skip = func(e *Event) bool {
			return pureErr(e.name) && !strings.HasPrefix(e.name, "fmt.Fprint") || inDir && root.Signature.Results().Len() == 1 && strings.HasSuffix(e.name, "packages.Load")
		}
		seen := map[*LoopRec]bool{}
		for _, o := range r.outs {
			var res *Term
			g, ok := o.st.facts, true
			if !isMain {
				res = o.res[len(o.res)-1]
				g, ok = o.st.facts.assume(mkIsNil(res), true)
			}
			if !ok {
				continue
			}
			c.count("success_outcomes", 1)
			er.check(g, o, res, seen)
		}
	}
}
