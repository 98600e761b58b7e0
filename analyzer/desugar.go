package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Ranges over the standard iterators of slices, maps and split texts are analysed as the
// ranges over slices and maps that they stand for. Lines stay where they are.

var iterators = map[string]map[string]struct {
	to     string // the function to call instead; none for the argument itself
	second bool   // the values come second
}{
	"maps":    {"Keys": {}, "All": {}, "Values": {second: true}},
	"slices":  {"All": {}, "Values": {second: true}},
	"strings": {"SplitSeq": {"Split", true}, "SplitAfterSeq": {"SplitAfter", true}, "FieldsSeq": {"Fields", true}, "FieldsFuncSeq": {"FieldsFunc", true}},
	"bytes":   {"SplitSeq": {"Split", true}, "FieldsSeq": {"Fields", true}},
}

func desugared(dir string) map[string][]byte {
	r := map[string][]byte{}
	filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && path != dir && (strings.HasPrefix(d.Name(), ".") || d.Name() == "vendor" || d.Name() == "testdata" || d.Name() == "fixtures") {
			return filepath.SkipDir
		}
		if d.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		if out, ok := desugar(src); ok {
			r[path] = out
		}
		return nil
	})
	return r
}

func desugar(src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, false
	}
	names := map[string]string{}
	for _, im := range file.Imports {
		path, err := strconv.Unquote(im.Path.Value)
		if err != nil || iterators[path] == nil {
			continue
		}
		name := path
		if im.Name != nil {
			name = im.Name.Name
		}
		names[name] = path
	}
	type edit struct {
		from, to int
		text     string
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	used := map[string]string{}
	ast.Inspect(file, func(n ast.Node) bool {
		rs, ok := n.(*ast.RangeStmt)
		if !ok {
			return true
		}
		call, ok := rs.X.(*ast.CallExpr)
		if !ok {
			return true
		}
		sel, ok := call.Fun.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		pkg, ok := sel.X.(*ast.Ident)
		if !ok || names[pkg.Name] == "" {
			return true
		}
		it, ok := iterators[names[pkg.Name]][sel.Sel.Name]
		if !ok || len(call.Args) == 0 {
			return true
		}
		used[pkg.Name] = names[pkg.Name]
		if it.second && rs.Key != nil {
			if id, blank := rs.Key.(*ast.Ident); blank && id.Name == "_" {
				edits = append(edits, edit{off(rs.Key.Pos()), off(rs.Key.End()), "_, _"})
				if rs.Tok == token.DEFINE {
					edits = append(edits, edit{off(rs.TokPos), off(rs.TokPos) + 2, "="})
				}
			} else {
				edits = append(edits, edit{off(rs.Key.Pos()), off(rs.Key.Pos()), "_, "})
			}
		}
		if it.to != "" {
			edits = append(edits, edit{off(sel.Sel.Pos()), off(sel.Sel.End()), it.to})
		} else {
			edits = append(edits, edit{off(call.Fun.Pos()), off(call.Fun.End()), ""})
		}
		return true
	})
	if len(edits) == 0 {
		return nil, false
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
	out := append([]byte{}, src...)
	for _, e := range edits {
		out = append(out[:e.from:e.from], append([]byte(e.text), out[e.to:]...)...)
	}
	// the packages stay in use
	for _, name := range sortedKeys(used) {
		switch used[name] {
		case "maps":
			out = append(out, "\nfunc _() { _ = "+name+".Keys[map[int]int] }\n"...)
		case "slices":
			out = append(out, "\nfunc _() { _ = "+name+".Values[[]int] }\n"...)
		}
	}
	return out, true
}

func sortedKeys(m map[string]string) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}
