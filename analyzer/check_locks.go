package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var lockCache *lockAnalysis

// sharedOps lists the operations that goroutines may run at the same time
func (c *Ctx) sharedOps() []*ssa.Function {
	pk := c.p.pkg("")
	var r []*ssa.Function
	for _, f := range c.p.funcs {
		if f.Pkg != pk || f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if rv := f.Signature.Recv(); rv != nil {
			n, ok := derefNamed(rv.Type())
			if !ok {
				continue
			}
			switch n.Obj().Name() {
			case "Domain", "Po", "Mo", "Locale":
			default:
				continue
			}
		}
		r = append(r, f)
	}
	return r
}

func derefNamed(t types.Type) (*types.Named, bool) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return n, ok
}

func (c *Ctx) lockRun() *lockAnalysis {
	a := newLockAnalysis(c.p)
	for _, f := range c.sharedOps() {
		t := time.Now()
		a.operation(f)
		if os.Getenv("LOCKDBG") != "" {
			fmt.Fprintln(os.Stderr, fname(f), time.Since(t), len(a.t.list), a.bodies)
		}
		c.count("operations", 1)
	}
	c.count("functions_analysed", len(a.nfuncs))
	c.count("accesses", len(a.accesses))
	c.count("acquisitions", a.acquires)
	for _, u := range a.undec {
		c.fail("undecided", "locks", 0, "%s", u)
	}
	c.atLeast("operations", 90)
	return a
}

func lockList(x access) string {
	var ls []string
	for _, h := range x.locks {
		m := "R"
		if h.w {
			m = "W"
		}
		ls = append(ls, m+":"+h.n.String())
	}
	sort.Strings(ls)
	if len(ls) == 0 {
		return "no lock"
	}
	return strings.Join(ls, ", ")
}

func (x access) what() string {
	if x.user {
		return "the caller of " + fname(x.op) + " reads"
	}
	if x.write {
		return fname(x.fn) + " writes"
	}
	return fname(x.fn) + " reads"
}

func (c *Ctx) races(a *lockAnalysis) {
	by := map[string][]access{}
	for _, x := range a.accesses {
		by[x.key] = append(by[x.key], x)
	}
	var keys []string
	for k := range by {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		xs := by[k]
		// accesses with the same guards behave alike
		type cls struct {
			x access
			n int
		}
		var cs []*cls
		seen := map[string]*cls{}
		for _, x := range xs {
			s := ""
			for _, g := range x.guards() {
				s += g.lock + g.rel
				if g.w {
					s += "W"
				}
				s += ";"
			}
			if x.write {
				s += "!"
			}
			if e := seen[s]; e != nil {
				e.n++
				continue
			}
			e := &cls{x, 1}
			seen[s] = e
			cs = append(cs, e)
		}
		c.count("state_cells", 1)
		for i, p := range cs {
			for _, q := range cs[i:] {
				c.count("pairs", 1)
				if race(p.x, q.x) {
					x, y := p.x, q.x
					if !x.write {
						x, y = y, x
					}
					c.fail("race", k, x.pos, "%s (with %s) while %s it at %s (with %s)", x.what(), lockList(x), y.what(), c.p.pos(y.pos), lockList(y))
				}
			}
		}
	}
	for _, k := range keys {
		w := 0
		for _, x := range by[k] {
			if x.write {
				w++
			}
		}
		c.sample("%s: %d reads, %d writes", k, len(by[k])-w, w)
	}
}

// rulesAreImmutable: evaluating a compiled plural rule changes nothing, so that it needs no lock
func (c *Ctx) rulesAreImmutable() {
	et := c.p.typ("plurals", "Expression")
	if et == nil {
		c.fail("anchors", "plurals.Expression", 0, "type not found")
		return
	}
	for _, t := range c.p.implementers(et) {
		ms := c.p.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			f := c.p.prog.MethodValue(ms.At(i))
			if f == nil || len(f.Blocks) == 0 {
				continue
			}
			c.count("rule_methods", 1)
			if e := c.p.effects(f); e.all || len(e.list) > 0 {
				c.fail("rule-writes", fname(f), f.Pos(), "evaluating a compiled plural rule modifies %v", e.list)
			}
		}
	}
	c.atLeast("rule_methods", 2)
}

var queryPrefixes = []string{"Get", "Append", "IsTranslated", "MarshalText", "MarshalBinary", "GetTranslations"}

// queriesWriteNothing: no query writes to memory that outlives it
func (c *Ctx) queriesWriteNothing() {
	a := newLockAnalysis(c.p)
	for _, f := range c.sharedOps() {
		if f.Signature.Recv() == nil {
			continue
		}
		q := false
		for _, p := range queryPrefixes {
			q = q || strings.HasPrefix(f.Name(), p)
		}
		if !q {
			continue
		}
		c.count("queries", 1)
		n := len(a.accesses)
		a.seenAcc = map[string]bool{}
		a.operation(f)
		for _, x := range a.accesses[n:] {
			if x.write {
				c.fail("write", fname(f), x.pos, "%s modifies %s", fname(x.fn), x.key)
			}
		}
	}
	c.count("accesses", len(a.accesses))
	c.count("functions_analysed", len(a.nfuncs))
	for _, u := range a.undec {
		c.fail("undecided", "effects", 0, "%s", u)
	}
	c.rulesAreImmutable()
	c.atLeast("queries", 50)
	c.atLeast("accesses", 200)
}

func init() {
	register("C32", "Effect analysis with access paths, callees inlined: no Get*, Append*, IsTranslated*, Marshal* method of Domain, Po, Mo and Locale writes to memory reached from its receiver, arguments or globals (locks excepted); evaluating a plural rule has no effects.", func(c *Ctx) {
		c.queriesWriteNothing()
	})
	register("C01", "Lockset analysis of every exported operation, callees inlined, values as access paths: any two accesses to the same piece of shared state (struct field, map or slice content reached from receivers, arguments and globals), one of them a write, hold a common mutex of the owning object (or a global one), at least one of them exclusively. State handed out to callers counts as read without locks.", func(c *Ctx) {
		a := c.lockRun()
		c.races(a)
		c.rulesAreImmutable()
		c.atLeast("state_cells", 15)
		c.atLeast("pairs", 20)
	})
	register("C02", "Lock typestate of every exported operation, callees inlined, per path alternative: no mutex is acquired while the same one is held, released when not held or in the wrong mode, or still held at a return; the order in which mutexes are acquired while others are held is acyclic.", func(c *Ctx) {
		a := c.lockRun()
		for _, p := range a.problems {
			c.fail(p.rule, fname(p.fn), p.pos, "%s", p.msg)
		}
		next := map[string]map[string]lockOrder{}
		for _, o := range a.orders {
			if next[o.from] == nil {
				next[o.from] = map[string]lockOrder{}
			}
			if _, ok := next[o.from][o.to]; !ok {
				next[o.from][o.to] = o
				c.count("lock_orders", 1)
				c.sample("%s before %s (%s)", o.from, o.to, fname(o.fn))
			}
		}
		var froms []string
		for f := range next {
			froms = append(froms, f)
		}
		sort.Strings(froms)
		reach := func(from, to string) bool {
			seen := map[string]bool{from: true}
			work := []string{from}
			for len(work) > 0 {
				n := work[0]
				work = work[1:]
				for m := range next[n] {
					if m == to {
						return true
					}
					if !seen[m] {
						seen[m] = true
						work = append(work, m)
					}
				}
			}
			return false
		}
		for _, f := range froms {
			var tos []string
			for t := range next[f] {
				tos = append(tos, t)
			}
			sort.Strings(tos)
			for _, t := range tos {
				o := next[f][t]
				if t == f || reach(t, f) {
					c.fail("order", fname(o.fn), o.pos, "%s is acquired while %s is held (in %s), and elsewhere the other way round: two operations may wait for each other forever", t, f, fname(o.op))
				}
			}
		}
		c.atLeast("acquisitions", 60)
		c.atLeast("lock_orders", 3)
	})
}
