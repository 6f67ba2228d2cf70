package main

import (
	"fmt"
	"strconv"
)

// A small world: documents that follow one schema with a few keys and tiny
// value domains, and expressions that walk that schema with their types. Almost
// every operand is there and most conditions go either way from document to
// document, so that each part of an expression decides verdicts.

type schema struct {
	k    Kind // KInt, KStr, KObj or KArr
	keys []string
	sub  []*schema // members of an object, or the one element schema
}

var smallKeys = []string{"p", "q", "r", "s", "list", "a\\\"b", "x.y", "[0]"}

func genSchema(r *Rng, depth int) *schema {
	s := &schema{k: KObj}
	n := r.In(2, 4)
	keys := smallKeys
	if r.P(30) {
		keys = keyFamily(r, 5)
	}
	for _, i := range r.Perm(len(keys))[:n] {
		s.keys = append(s.keys, keys[i])
		s.sub = append(s.sub, genSchemaValue(r, depth-1))
	}
	return s
}

func genSchemaValue(r *Rng, depth int) *schema {
	if depth <= 0 {
		if r.P(12) {
			return &schema{k: KStr}
		}
		return &schema{k: KInt}
	}
	switch r.W(30, 20, 50) {
	case 0:
		return genSchemaValue(r, 0)
	case 1:
		return genSchema(r, depth)
	}
	e := &schema{k: KArr}
	if r.P(75) {
		e.sub = []*schema{genSchema(r, depth-1)}
	} else {
		e.sub = []*schema{genSchemaValue(r, depth-1)}
	}
	return e
}

func (s *schema) value(r *Rng, missing, odd int) *J {
	if r.P(odd) {
		switch r.N(4) {
		case 0:
			return JNull()
		case 1:
			return &J{K: KArr}
		case 2:
			return &J{K: KObj}
		}
		return JInt(int64(r.N(3)))
	}
	switch s.k {
	case KObj:
		d := &J{K: KObj}
		for _, i := range r.Perm(len(s.keys)) {
			if r.P(missing) {
				continue
			}
			d.O = append(d.O, Member{s.keys[i], s.sub[i].value(r, missing, odd)})
		}
		return d
	case KArr:
		d := &J{K: KArr}
		for n := r.W(12, 28, 30, 20, 10); n > 0; n-- {
			d.A = append(d.A, s.sub[0].value(r, missing, odd))
		}
		return d
	case KStr:
		return JStr([]string{"u", "v"}[r.N(2)])
	}
	return JInt(int64(r.N(3)))
}

type smallGen struct {
	r      *Rng
	root   *schema
	scopes []smallScope
	nvar   int
	ids    idScheme
	budget int
}

type smallScope struct {
	id int
	s  *schema
}

// fields of a scope: the paths to nodes of one kind
func (s *schema) find(k Kind, path []string, idx bool, out *[][]string, at *[]*schema) {
	if s.k == k {
		*out = append(*out, append([]string(nil), path...))
		*at = append(*at, s)
	}
	switch s.k {
	case KObj:
		for i, key := range s.keys {
			s.sub[i].find(k, append(path[:len(path):len(path)], key), idx, out, at)
		}
	case KArr:
		if idx {
			for i := 0; i < 2; i++ {
				s.sub[0].find(k, append(path[:len(path):len(path)], "["+strconv.Itoa(i)+"]"), idx, out, at)
			}
		}
	}
}

// pick returns a field of a kind in one of the scopes.
func (g *smallGen) pick(k Kind, innermost bool) (*Opd, *schema) {
	r := g.r
	for try := 0; try < 6; try++ {
		sc := g.scopes[len(g.scopes)-1]
		if !innermost && r.P(45) {
			sc = g.scopes[r.N(len(g.scopes))]
		}
		var ps [][]string
		var at []*schema
		sc.s.find(k, nil, r.P(25), &ps, &at)
		if len(ps) == 0 {
			continue
		}
		i := r.N(len(ps))
		if len(ps[i]) == 0 && sc.id == 0 {
			continue
		}
		if sc.id == 0 {
			return Fld(ps[i]...), at[i]
		}
		return VarFld(sc.id, ps[i]...), at[i]
	}
	return nil, nil
}

var smallOps = []CmpOp{OpEQ, OpEQ, OpEQ, OpNE, OpLT, OpLE, OpGT, OpGE}

func (g *smallGen) cond() *E {
	r := g.r
	k := KInt
	if r.P(10) {
		k = KStr
	}
	f, _ := g.pick(k, r.P(50))
	if f == nil {
		k = KInt
		if f, _ = g.pick(k, false); f == nil {
			f = Fld("p")
		}
	}
	op := smallOps[r.N(len(smallOps))]
	var l *J
	if k == KInt {
		l = JInt(int64(r.N(3)))
	} else {
		l = JStr([]string{"u", "v"}[r.N(2)])
	}
	switch r.W(45, 35, 12, 8) {
	case 1:
		if b, _ := g.pick(k, false); b != nil {
			return Cmp(f, op, b)
		}
	case 2:
		if r.P(50) {
			if b, _ := g.pick([]Kind{KArr, KObj, KInt}[r.N(3)], false); b != nil {
				f = b
			}
		}
		if r.P(40) {
			return NotExists(f)
		}
		return Exists(f)
	case 3:
		if b, _ := g.pick(KInt, false); b != nil && k == KInt {
			if r.P(50) {
				return Cmp(Fn("mathAdd", f, b), op, Lit(JInt(int64(r.N(5)))))
			}
			if d, _ := g.pick(KInt, false); d != nil {
				return Cmp(Fn("mathAdd", f, b), op, d)
			}
		}
	}
	if r.P(10) {
		return Cmp(Lit(l), op, f)
	}
	return Cmp(f, op, Lit(l))
}

func (g *smallGen) expr(depth, loops int) *E {
	r := g.r
	g.budget--
	if depth <= 0 || g.budget <= 0 {
		return g.cond()
	}
	switch r.W(30, loops, 15, 55-loops/2) {
	case 0:
		return g.cond()
	case 1:
		if x := g.loop(depth, loops); x != nil {
			return x
		}
		return g.cond()
	case 2:
		return Not(g.expr(depth-1, loops))
	}
	x := &E{K: EAnd}
	if r.P(50) {
		x.K = EOr
	}
	for n := r.In(2, 3); n > 0; n-- {
		x.Sub = append(x.Sub, g.expr(depth-1, loops))
	}
	return x
}

func (g *smallGen) loop(depth, loops int) *E {
	r := g.r
	in, s := g.pick(KArr, true)
	if in == nil || len(g.scopes) > 3 {
		return nil
	}
	if g.ids.stride == 0 {
		g.ids = genIDs(r)
	}
	id := g.ids.next(g.nvar, len(g.scopes)-1)
	g.nvar++
	g.scopes = append(g.scopes, smallScope{id, s.sub[0]})
	body := g.expr(depth-1, loops)
	g.scopes = g.scopes[:len(g.scopes)-1]
	return Loop([]EK{EAny, EEvery, EAnyEvery}[r.N(3)], id, in, body)
}

type smallWorld struct {
	s            *schema
	missing, odd int
}

func newSmallWorld(r *Rng, deep bool) *smallWorld {
	d := r.In(2, 5)
	if deep {
		d = r.In(4, 6)
	}
	return &smallWorld{s: genSchema(r, d), missing: []int{0, 5, 20}[r.N(3)], odd: []int{0, 0, 5}[r.N(3)]}
}

func (w *smallWorld) doc(r *Rng) *J {
	odd := w.odd
	d := &J{K: KObj}
	for _, i := range r.Perm(len(w.s.keys)) {
		if !r.P(w.missing) {
			d.O = append(d.O, Member{w.s.keys[i], w.s.sub[i].value(r, w.missing, odd)})
		}
	}
	return d
}

func (w *smallWorld) expr(r *Rng, depth, loops int) *E {
	g := &smallGen{r: r, root: w.s, budget: 25, scopes: []smallScope{{0, w.s}}}
	if loops > 0 && r.P(40) {
		if x := g.loop(depth, loops); x != nil {
			return x
		}
	}
	return g.expr(depth, loops)
}

// caseSmall: one expression of a small world against many of its documents.
func caseSmall(loops int) func(c *Case) {
	return func(c *Case) {
		r := c.R
		w := newSmallWorld(r, loops >= 50 && r.P(80))
		diffCase(c, &diffOpts{Doc: w.doc, Docs: 10, NextDoc: func(r *Rng, _ *J) *J { return w.doc(r) },
			Style: func(r *Rng) *Style {
				if r.P(70) {
					return nil
				}
				return fullStyle(r)
			},
			Expr: func(r *Rng, _ *J) *E {
				x := w.expr(r, r.In(1, 5), loops)
				observe(c, x)
				if n := nesting(x); n > 1 {
					c.Count(fmt.Sprintf("loops nested %d deep", n))
				}
				return x
			}})
	}
}

func nesting(x *E) int {
	n := 0
	for _, s := range x.Sub {
		if k := nesting(s); k > n {
			n = k
		}
	}
	switch x.K {
	case EAny, EEvery, EAnyEvery:
		n++
	}
	return n
}
