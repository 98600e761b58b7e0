package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/leonelquinteros/gotext"

type Program struct {
	dir        string
	fset       *token.FileSet
	pkgs       []*packages.Package
	prog       *ssa.Program
	ssaPkg     map[string]*ssa.Package // by import path
	funcs      []*ssa.Function         // every function of the module with a body
	inMod      map[*ssa.Function]bool
	infos      map[*ssa.Function]*funcInfo
	loads      int
	effs       map[*ssa.Function]*effectSet
	callees    map[*ssa.Function][]*ssa.Function
	initState  *State
	written    map[string]bool
	frozenNote []string
	tloop      map[*ssa.Function]bool
}

func loadProgram(dir string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps,
		Dir:  dir,
		Fset: fset,
		Env:  append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	cfg.Overlay = desugared(dir)
	// only the module's packages need syntax; the dependencies come as export data
	cfg.Mode &^= packages.NeedDeps
	cfg.Mode |= packages.NeedExportFile
	// the generic helpers of the standard library are analysed like the module's code
	pkgs, err := packages.Load(cfg, "./...", "maps", "slices")
	if err != nil {
		return nil, err
	}
	var errs []string
	var keep, std []*packages.Package
	for _, p := range pkgs {
		if p.PkgPath == "maps" || p.PkgPath == "slices" {
			if len(p.Errors) == 0 && !p.IllTyped {
				std = append(std, p)
			}
			continue
		}
		if strings.Contains(p.PkgPath, "/fixtures") { // example input of xgotext, not part of the library
			continue
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if p.IllTyped {
			errs = append(errs, p.PkgPath+" does not type-check")
		}
		keep = append(keep, p)
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading %s: %s", dir, strings.Join(errs, "; "))
	}
	if len(keep) < 6 {
		return nil, fmt.Errorf("only %d packages found in %s", len(keep), dir)
	}
	prog, spkgs := ssautil.Packages(append(append([]*packages.Package{}, keep...), std...), ssa.InstantiateGenerics)
	p := &Program{dir: dir, fset: fset, pkgs: keep, prog: prog, ssaPkg: map[string]*ssa.Package{}, inMod: map[*ssa.Function]bool{}, infos: map[*ssa.Function]*funcInfo{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for a package")
		}
		sp.Build()
		if i < len(keep) {
			p.ssaPkg[keep[i].PkgPath] = sp
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if len(f.Blocks) == 0 || f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		if f.Pkg == nil && f.Parent() == nil && len(f.TypeArgs()) == 0 {
			continue
		}
		if pk := pkgOf(f); pk != nil {
			if _, ok := p.ssaPkg[pk.Pkg.Path()]; ok || stdHelper(f) {
				p.addFunc(f)
			}
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		if p.funcs[i].String() != p.funcs[j].String() {
			return p.funcs[i].String() < p.funcs[j].String()
		}
		return p.funcs[i].Pos() < p.funcs[j].Pos()
	})
	p.findConstGlobals()
	return p, nil
}

// findConstGlobals: unexported package variables that only initialisation writes, and whose
// address goes nowhere
func (p *Program) findConstGlobals() {
	constGlobals = map[string]bool{}
	for _, sp := range p.ssaPkg {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && g.Object() != nil && !g.Object().Exported() {
				constGlobals[g.String()] = true
			}
		}
	}
	var ops [8]*ssa.Value
	for _, f := range p.funcs {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		init := top.Signature.Recv() == nil && (top.Name() == "init" || strings.HasPrefix(top.Name(), "init#"))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(ops[:0]) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if in.Addr == g && in.Val != ssa.Value(g) && init && f == top {
							continue
						}
					}
					delete(constGlobals, g.String())
				}
			}
		}
	}
}

// pkgOf is the package that declares a function, generic or not
func pkgOf(f *ssa.Function) *ssa.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

// stdHelper: a generic function of maps or slices that is explored like code of the module; the others have models
func stdHelper(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	o := f.Origin()
	if o == nil || o == f || o.Pkg == nil {
		return false
	}
	switch o.Pkg.Pkg.Path() + "." + o.Name() {
	case "maps.DeleteFunc", "maps.Copy", "slices.ContainsFunc", "slices.IndexFunc", "slices.Index", "slices.Reverse":
		return true
	}
	return false
}

func (p *Program) addFunc(f *ssa.Function) {
	if p.inMod[f] {
		return
	}
	p.inMod[f] = true
	p.funcs = append(p.funcs, f)
	for _, a := range f.AnonFuncs {
		p.addFunc(a)
	}
}

func (p *Program) pkg(suffix string) *ssa.Package {
	path := modPath
	if suffix != "" {
		path += "/" + suffix
	}
	return p.ssaPkg[path]
}

// fn finds a package-level function, or "Type.Method" (pointer or value receiver)
func (p *Program) fn(suffix, name string) *ssa.Function {
	pk := p.pkg(suffix)
	if pk == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, ok := pk.Pkg.Scope().Lookup(name[:i]).(*types.TypeName)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{types.NewPointer(tn.Type()), tn.Type()} {
			if sel := p.prog.MethodSets.MethodSet(t).Lookup(pk.Pkg, name[i+1:]); sel != nil {
				f := p.prog.MethodValue(sel)
				if f != nil && f.Synthetic != "" {
					if obj, ok := sel.Obj().(*types.Func); ok {
						if g := p.prog.FuncValue(obj); g != nil {
							return g
						}
					}
				}
				return f
			}
		}
		return nil
	}
	return pk.Func(name)
}

func (p *Program) typ(suffix, name string) types.Type {
	pk := p.pkg(suffix)
	if pk == nil {
		return nil
	}
	tn, ok := pk.Pkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	return tn.Type()
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	f = strings.TrimPrefix(f, p.dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func fname(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/cli/xgotext/", "xgotext/")
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "gotext.")
	return s
}

// ---- control flow structure

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
}

type funcInfo struct {
	fn    *ssa.Function
	index map[ssa.Value]int
	n     int
	rpo   []*ssa.BasicBlock
	loop  map[*ssa.BasicBlock]*loopInfo // innermost loop
	heads map[*ssa.BasicBlock]*loopInfo
	bad   string
	live  map[*ssa.BasicBlock]map[int]bool
}

// liveIn: values that the block or a later one uses
func (fi *funcInfo) liveIn(b *ssa.BasicBlock) map[int]bool {
	if fi.live == nil {
		fi.live = map[*ssa.BasicBlock]map[int]bool{}
		for _, b := range fi.fn.Blocks {
			fi.live[b] = map[int]bool{}
		}
		for changed := true; changed; {
			changed = false
			for i := len(fi.rpo) - 1; i >= 0; i-- {
				b := fi.rpo[i]
				cur := map[int]bool{}
				for si, s := range b.Succs {
					_ = si
					for v := range fi.live[s] {
						cur[v] = true
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						for k, pr := range s.Preds {
							if pr == b {
								if n, ok := fi.index[phi.Edges[k]]; ok {
									cur[n] = true
								}
							}
						}
					}
				}
				for k := len(b.Instrs) - 1; k >= 0; k-- {
					in := b.Instrs[k]
					if v, ok := in.(ssa.Value); ok {
						if _, isPhi := in.(*ssa.Phi); !isPhi {
							delete(cur, fi.index[v])
						}
					}
					if _, ok := in.(*ssa.Phi); ok {
						cur[fi.index[in.(ssa.Value)]] = true // set on entry
						continue
					}
					for _, op := range in.Operands(nil) {
						if *op == nil {
							continue
						}
						if n, ok := fi.index[*op]; ok {
							cur[n] = true
						}
					}
				}
				old := fi.live[b]
				for v := range cur {
					if !old[v] {
						old[v] = true
						changed = true
					}
				}
			}
		}
	}
	return fi.live[b]
}

func (p *Program) info(f *ssa.Function) *funcInfo {
	if fi, ok := p.infos[f]; ok {
		return fi
	}
	fi := &funcInfo{fn: f, index: map[ssa.Value]int{}, loop: map[*ssa.BasicBlock]*loopInfo{}, heads: map[*ssa.BasicBlock]*loopInfo{}}
	p.infos[f] = fi
	add := func(v ssa.Value) {
		fi.index[v] = fi.n
		fi.n++
	}
	for _, v := range f.Params {
		add(v)
	}
	for _, v := range f.FreeVars {
		add(v)
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	if len(f.Blocks) == 0 {
		return fi
	}
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	num := map[*ssa.BasicBlock]int{}
	for i, b := range fi.rpo {
		num[b] = i
	}
	// natural loops
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if num[s] <= num[b] { // retreating edge
				if !s.Dominates(b) {
					fi.bad = "irreducible control flow"
					continue
				}
				l := fi.heads[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.heads[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, pr := range x.Preds {
						if seen[pr] {
							stack = append(stack, pr)
						}
					}
				}
			}
		}
	}
	var loops []*loopInfo
	for _, l := range fi.heads {
		loops = append(loops, l)
	}
	sort.Slice(loops, func(i, j int) bool {
		if len(loops[i].blocks) != len(loops[j].blocks) {
			return len(loops[i].blocks) < len(loops[j].blocks)
		}
		return num[loops[i].header] < num[loops[j].header]
	})
	for i, l := range loops {
		for b := range l.blocks {
			if fi.loop[b] == nil {
				fi.loop[b] = l
			}
		}
		for _, m := range loops[i+1:] {
			if m.blocks[l.header] && m != l {
				l.parent = m
				break
			}
		}
	}
	return fi
}

// syntax helpers
func (p *Program) fileOf(pos token.Pos) *ast.File {
	for _, pk := range p.pkgs {
		for _, f := range pk.Syntax {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
	}
	return nil
}

// extName is the name of an external function, without type arguments
func extName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}
