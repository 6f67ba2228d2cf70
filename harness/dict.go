package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"
)

// Literals that occur in the sources the framework was developed on. Literals
// of the current tree that are not among them are tried more often. They only
// steer which values are generated; no verdict depends on how code is written.
//
//go:embed baseline_lits.txt
var baselineLits string

func constEval(e ast.Expr) constant.Value {
	switch x := e.(type) {
	case *ast.BasicLit:
		return constant.MakeFromLiteral(x.Value, x.Kind, 0)
	case *ast.ParenExpr:
		return constEval(x.X)
	case *ast.UnaryExpr:
		v := constEval(x.X)
		if v != nil && (v.Kind() == constant.Int || v.Kind() == constant.Float) && (x.Op == token.SUB || x.Op == token.ADD) {
			return constant.UnaryOp(x.Op, v, 0)
		}
	case *ast.BinaryExpr:
		a, b := constEval(x.X), constEval(x.Y)
		if a == nil || b == nil || a.Kind() != constant.Int || b.Kind() != constant.Int {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			n, ok := constant.Uint64Val(b)
			if !ok || n > 64 {
				return nil
			}
			return constant.Shift(a, x.Op, uint(n))
		case token.ADD, token.SUB, token.MUL:
			return constant.BinaryOp(a, x.Op, b)
		}
	}
	return nil
}

func scanLits(dir string) (ints map[int64]bool, strs map[string]bool) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(files)
	ints, strs = map[int64]bool{}, map[string]bool{}
	fset := token.NewFileSet()
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			continue
		}
		ast.Inspect(file, func(n ast.Node) bool {
			e, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			v := constEval(e)
			if v == nil {
				return true
			}
			switch v.Kind() {
			case constant.Int:
				if i, ok := constant.Int64Val(v); ok {
					ints[i] = true
				}
			case constant.String:
				if s := constant.StringVal(v); len(s) < 80 && utf8.ValidString(s) {
					strs[s] = true
				}
			}
			return true
		})
	}
	return
}

func harvest(dir string) {
	base := map[string]bool{}
	for _, l := range strings.Split(baselineLits, "\n") {
		base[l] = true
	}
	ints, strs := scanLits(dir)
	for v := range ints {
		dict.Ints = append(dict.Ints, v)
		if !base[fmt.Sprintf("i%d", v)] {
			dict.NewInts = append(dict.NewInts, v)
		}
	}
	sort.Slice(dict.Ints, func(i, j int) bool { return dict.Ints[i] < dict.Ints[j] })
	sort.Slice(dict.NewInts, func(i, j int) bool { return dict.NewInts[i] < dict.NewInts[j] })
	for s := range strs {
		dict.Strs = append(dict.Strs, s)
		if !base[fmt.Sprintf("s%q", s)] {
			dict.NewStrs = append(dict.NewStrs, s)
		}
	}
	sort.Strings(dict.Strs)
	sort.Strings(dict.NewStrs)
	for _, v := range dict.Ints {
		if v >= 2 && v <= 700 {
			dict.Sizes = append(dict.Sizes, int(v))
		}
	}
	for _, v := range dict.NewInts {
		if v >= 2 && v <= 5000 {
			dict.NewSizes = append(dict.NewSizes, int(v))
		}
	}
}

func printLits(dir string) {
	ints, strs := scanLits(dir)
	var out []string
	for v := range ints {
		out = append(out, fmt.Sprintf("i%d", v))
	}
	for s := range strs {
		out = append(out, fmt.Sprintf("s%q", s))
	}
	sort.Strings(out)
	fmt.Println(strings.Join(out, "\n"))
}

// Dict: literals harvested from the source under test; a cheap way to reach
// input-dependent branches keyed on a constant.
type Dict struct {
	Ints, NewInts   []int64
	Strs, NewStrs   []string
	Sizes, NewSizes []int
}

var dict = &Dict{}

// dictInt returns a harvested integer or a neighbour.
func dictInt(r *Rng) (int64, bool) {
	p := dict.Ints
	if len(dict.NewInts) > 0 && r.P(60) {
		p = dict.NewInts
	}
	if len(p) == 0 {
		return 0, false
	}
	v := p[r.N(len(p))]
	if v > -(1<<62) && v < 1<<62 {
		v += int64(r.W(20, 60, 20) - 1)
		if r.P(10) {
			v = -v
		}
	}
	return v, true
}

func dictStr(r *Rng) (string, bool) {
	p := dict.Strs
	if len(dict.NewStrs) > 0 && r.P(60) {
		p = dict.NewStrs
	}
	if len(p) == 0 {
		return "", false
	}
	return p[r.N(len(p))], true
}

// dictSize returns a harvested size or a neighbour, at most max.
func dictSize(r *Rng, max int) int {
	p := dict.Sizes
	if len(dict.NewSizes) > 0 && r.P(60) {
		p = dict.NewSizes
	}
	for i := 0; i < 6 && len(p) > 0; i++ {
		v := p[r.N(len(p))] + r.In(-1, 2)
		if v <= max {
			return v
		}
	}
	return r.In(1, min(max, 40))
}

// nNew scales how often harvested values are used: more when there are
// literals the framework has not seen before.
func newBoost(pct int) int {
	if len(dict.NewInts)+len(dict.NewStrs) > 0 {
		return pct * 3
	}
	return pct
}
