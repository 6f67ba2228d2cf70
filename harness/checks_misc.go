package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	g "github.com/couchbaselabs/gojsonsm"
)

// ---- C20: the two matchers ----

// slowDoc: objects whose arrays are of one type, with few types overall, so
// that comparisons are mostly of values of one type.
func slowDoc(r *Rng) *J {
	var val func(d int) *J
	scalar := func(k int) *J {
		for {
			v := genScalar(r)
			switch k {
			case 0:
				if v.K == KInt || v.K == KFloat {
					return v
				}
			case 1:
				if v.K == KStr {
					return v
				}
			case 2:
				if v.IsBool() {
					return v
				}
			}
			if r.P(5) {
				return []*J{JInt(int64(r.In(-5, 5))), JStr(genStr(r)), JBool(r.P(50))}[k]
			}
		}
	}
	val = func(d int) *J {
		switch {
		case d > 0 && r.P(25):
			o := JObj()
			for i, n := 0, r.In(1, 4); i < n; i++ {
				o.O = append(o.O, Member{fmt.Sprintf("%c%d", 'f'+rune(i), r.N(2)), val(d - 1)})
			}
			dotted(r, o, 10)
			return o
		case d > 0 && r.P(35):
			a := JArr()
			k := r.N(4)
			var shape *J
			if k == 3 {
				shape = val(d - 1)
			}
			for i, n := 0, r.W(5, 20, 30, 30, 15); i < n; i++ {
				if shape != nil {
					a.A = append(a.A, alike(r, shape))
				} else {
					a.A = append(a.A, scalar(k))
				}
			}
			return a
		}
		return scalar(r.W(45, 40, 15))
	}
	o := JObj()
	for i, n := 0, r.In(2, 7); i < n; i++ {
		k := string(rune('a' + i))
		if r.P(8) {
			k = oddKeys[r.N(len(oddKeys))]
		}
		if o.get(k) == nil {
			o.O = append(o.O, Member{k, val(3)})
		}
	}
	dotted(r, o, 15)
	return o
}

// alike: another value of the same type and shape.
func alike(r *Rng, j *J) *J {
	switch j.K {
	case KObj:
		o := JObj()
		for _, m := range j.O {
			o.O = append(o.O, Member{m.K, alike(r, m.V)})
		}
		return o
	case KArr:
		a := JArr()
		if len(j.A) > 0 {
			for i, n := 0, r.In(0, 4); i < n; i++ {
				a.A = append(a.A, alike(r, j.A[r.N(len(j.A))]))
			}
		}
		return a
	}
	if r.P(25) {
		return j
	}
	for i := 0; i < 8; i++ {
		v := near(r, j)
		if v.K == j.K && v.K != KUint || v.IsBool() && j.IsBool() {
			return v
		}
	}
	return j
}

func slowComparable(a, b *J) bool {
	num := func(j *J) bool {
		switch j.K {
		case KInt:
			return j.I >= -1<<53 && j.I <= 1<<53
		case KFloat:
			return !math.IsNaN(j.F) && !math.IsInf(j.F, 0)
		}
		return false
	}
	switch {
	case num(a) && num(b):
		d := math.Abs(a.asFloat() - b.asFloat())
		return d == 0 || d > 1e-6
	case a.K == KStr && b.K == KStr:
		return true
	}
	return a.IsBool() && b.IsBool() || a.K == KNull && b.K == KNull
}

// overNulls: a loop over an array in which nulls are, with a body that does not
// mind: over fields outside of the loop, or asking for null itself.
func overNulls(r *Rng, e *egen, doc *J) *E {
	var arrs []int
	for i, m := range doc.O {
		if m.V.K == KArr {
			arrs = append(arrs, i)
		}
	}
	if len(arrs) == 0 {
		return nil
	}
	m := &doc.O[arrs[r.N(len(arrs))]]
	only := r.P(60)
	a := JArr()
	for i, n := 0, r.W(5, 50, 30, 15); i < n; i++ {
		if only || len(m.V.A) == 0 || r.P(50) {
			a.A = append(a.A, JNull())
		} else {
			a.A = append(a.A, m.V.A[r.N(len(m.V.A))])
		}
	}
	m.V = a
	v := r.In(40, 60)
	var body *E
	if only && r.P(40) {
		body = Cmp(VarFld(v), []CmpOp{OpEQ, OpNE, OpLE, OpLT, OpGE, OpGT}[r.N(6)], Lit(JNull()))
	} else {
		body = e.expr(r.In(0, 1))
		has := false
		walk(body, func(x *E) { has = has || x.K == EAny || x.K == EEvery || x.K == EAnyEvery }, nil)
		if has {
			return nil
		}
	}
	return Loop(EAny, v, Fld(m.K), body)
}

var slowOpts = &ExprOpts{Depth: 3, Loops: 14, CmpLit: 45, CmpField: 12, AndOr: 35, MaxArity: 4, MaxLoop: 3, NoArrIdx: true,
	LitOK: func(l *J) bool { return l.K == KStr || l.K == KInt || l.K == KFloat || l.IsBool() }}

func onlyAny(x *E) {
	walk(x, func(x *E) {
		if x.K == EEvery || x.K == EAnyEvery {
			x.K = EAny
		}
	}, nil)
}

func caseSlow(c *Case) {
	r := c.R
	doc := slowDoc(r)
	n := r.W(0, 65, 20, 10, 5)
	e := newEgen(r, doc, slowOpts)
	var xs []*E
	var ss []string
	for i := 0; i < n; i++ {
		e.nCond = 0
		x := e.expr(r.In(0, 4)).floatLits()
		if r.P(6) {
			if y := overNulls(r, e, doc); y != nil {
				c.Count("over nulls")
				if x = y.floatLits(); r.P(30) {
					x = &E{K: []EK{EAnd, EOr}[r.N(2)], Sub: []*E{e.expr(1).floatLits(), x}}
				}
			}
		}
		if i > 0 && r.P(25) {
			x = confuse(r, xs[r.N(i)]).floatLits()
		} else if r.P(15) {
			x = &E{K: []EK{EAnd, EOr}[r.N(2)], Sub: []*E{x, confuse(r, x).floatLits()}}
		}
		onlyAny(x)
		idx := false
		walk(x, func(*E) {}, func(o *Opd) { idx = idx || hasIdx(o.Path) })
		if idx { // the slow matcher does not index arrays
			return
		}
		xs = append(xs, x)
		ss = append(ss, x.String())
	}
	var fast *g.FastMatcher
	fast, err := compile(xs...)
	if err != nil {
		c.Fail("compile", "%v\n  %s", err, join(ss))
		return
	}
	slow := g.NewSlowMatcher(apis(xs))
	slowDocs(c, xs, ss, slow, fast, func(k int) *J {
		if k == 0 {
			return doc
		}
		return alike(r, doc)
	})
}

func slowDocs(c *Case, xs []*E, ss []string, slow *g.SlowMatcher, fast *g.FastMatcher, doc func(k int) *J) {
	r, n := c.R, len(xs)
	for k := 0; k < 4; k++ {
		d := doc(k)
		txt := docText(d, fullStyle(r))
		bad := k > 0 && r.P(10)
		if bad {
			txt = txt[:r.N(len(strings.TrimSpace(txt)))]
		}
		want := make([]bool, n)
		if !bad {
			ok, touched := true, 0
			for i, x := range xs {
				env := &Env{Doc: d, Vars: map[int]*J{}}
				env.Trace = func(op string, a, b *J) {
					if !slowComparable(a, b) {
						ok = false
					}
				}
				env.Over = func(v *J) {
					if v.K == KMissing || v.K == KObj {
						ok = false
					}
				}
				want[i] = x.eval(env)
				if env.Absent > 0 || env.Unclear {
					ok = false
				}
				touched += env.Touched
			}
			if !ok {
				c.Count("left out: not of the common fragment")
				slow.Reset()
				if so := run(slow, []byte(txt)); so.Panic || so.Err != "" && so.Match {
					c.Fail("error", "outside of the common fragment: slow %v\n  %s", so, clip("expressions: "+join(ss)+"\n  document: "+txt, 2500))
					return
				}
				continue
			}
			if touched > 0 {
				c.Nontrivial(join(ss) + "\x00" + txt)
			}
		}
		slow.Reset()
		fast.Reset()
		so, fo := run(slow, []byte(txt)), run(fast, []byte(txt))
		c.Eval(1)
		show := func() string { return clip("expressions: "+join(ss)+"\n  document: "+txt, 2500) }
		if so.Panic || fo.Panic {
			c.Fail("panic", "slow %v, fast %v\n  %s", so, fo, show())
			return
		}
		if bad {
			c.Count("incomplete documents")
			if so.Err == "" || so.Match {
				c.Fail("incomplete accepted", "slow %v\n  %s", so, show())
				return
			}
			for i := range xs {
				if slow.ExpressionMatched(i) {
					c.Fail("kept", "after a reset and an incomplete document the slow matcher says that expression %d matched\n  %s", i, show())
					return
				}
			}
			continue
		}
		if so.Err != "" || fo.Err != "" {
			c.Fail("error", "slow %v, fast %v\n  %s", so, fo, show())
			return
		}
		for i := range xs {
			s, f := slow.ExpressionMatched(i), fast.ExpressionMatched(i)
			if s != f || s != want[i] {
				c.Fail("differ", "expression %d: slow %v, fast %v, meaning %v\n  %s", i, s, f, want[i], show())
				return
			}
			c.Count(fmt.Sprintf("verdict:%v", s))
		}
		if n == 1 && (so.Match != want[0] || fo.Match != want[0]) {
			c.Fail("overall", "slow %v, fast %v, meaning %v\n  %s", so, fo, want[0], show())
			return
		}
		c.Sample(func() string { return show() })
	}
}

// ---- C21: compaction ----

func constsIn(x g.Expression) bool {
	isC := func(y g.Expression) bool {
		switch y.(type) {
		case g.TrueExpr, g.FalseExpr:
			return true
		}
		return false
	}
	var sub []g.Expression
	switch x := x.(type) {
	case g.AndExpr:
		sub = x
	case g.OrExpr:
		sub = x
	}
	for _, s := range sub {
		if isC(s) || constsIn(s) {
			return true
		}
	}
	return false
}

// confuse gives an expression which prints much like x but means something else.
func confuse(r *Rng, x *E) *E {
	n := *x
	n.Sub = nil
	for _, s := range x.Sub {
		n.Sub = append(n.Sub, confuse(r, s))
	}
	opd := func(o *Opd) *Opd {
		if o == nil || !r.P(60) {
			return o
		}
		switch {
		case o.K == OField && len(o.Path) > 1 && !hasIdx(o.Path):
			i := r.N(len(o.Path) - 1)
			p := append(append([]string(nil), o.Path[:i]...), o.Path[i]+"."+o.Path[i+1])
			return &Opd{K: OField, Root: o.Root, Path: append(p, o.Path[i+2:]...)}
		case o.K == OField && len(o.Path) > 0 && strings.Contains(o.Path[len(o.Path)-1], "."):
			k := len(o.Path) - 1
			return &Opd{K: OField, Root: o.Root, Path: append(append([]string(nil), o.Path[:k]...), strings.Split(o.Path[k], ".")...)}
		case o.K == OLit && o.Lit.K == KStr:
			if i, err := strconv.ParseInt(o.Lit.S, 10, 64); err == nil {
				return Lit(JInt(i))
			}
			if o.Lit.S == "true" || o.Lit.S == "false" {
				return Lit(JBool(o.Lit.S == "true"))
			}
		case o.K == OLit && o.Lit.K != KNull:
			return Lit(JStr(fmt.Sprint(litGo(o.Lit))))
		}
		return o
	}
	switch {
	case n.K == EExists, n.K == ENotExists, n.K == ELike:
		n.L = opd(n.L)
	case n.L != nil && n.R != nil && !(n.R.K == OLit && n.R.Lit.K == KStr && n.L.K != OField):
		n.L, n.R = opd(n.L), opd(n.R)
	}
	return &n
}

// twins puts operands beside some comparisons which are written alike but mean
// something else, or the same once more.
func twins(r *Rng, x *E) int {
	n := 0
	walk(x, func(y *E) {
		if y.K != EAnd && y.K != EOr {
			return
		}
		for i := 0; i < len(y.Sub); i++ {
			s := y.Sub[i]
			if s.K != ECmp || !r.P(60) || n > 5 {
				continue
			}
			t := *s
			switch {
			case r.P(25): // the same again
			case t.L.K == OField && len(t.L.Path) > 1 && r.P(60):
				t.L = &Opd{K: OField, Root: t.L.Root, Path: []string{strings.Join(t.L.Path, ".")}}
			case t.R.K == OLit && t.R.Lit.K == KStr:
				if i, err := strconv.ParseInt(t.R.Lit.S, 10, 64); err == nil {
					t.R = Lit(JInt(i))
				}
			case t.R.K == OLit && t.R.Lit.K != KNull:
				t.R = Lit(JStr(fmt.Sprint(litGo(t.R.Lit))))
			}
			n++
			at := i + 1
			if r.P(50) {
				at = i
			}
			y.Sub = append(y.Sub[:at], append([]*E{&t}, y.Sub[at:]...)...)
			i++
		}
	}, func(*Opd) {})
	return n
}

func caseCompact(c *Case) {
	r := c.R
	doc := genDoc(r)
	o := randOpts(r)
	o.Consts = r.In(10, 60)
	o.AndOr = r.In(30, 100)
	if r.P(40) {
		o.Loops = 25
	}
	e := newEgen(r, doc, o)
	x := e.expr(r.In(1, 4))
	if r.P(25) {
		if t := twins(r, x); t > 0 {
			c.Count("operands that print alike")
		}
	}
	var docs []*J
	for k := 0; k < 5; k++ {
		d := doc
		if k > 0 {
			d = mutate(r, doc, 20)
		}
		docs = append(docs, d)
	}
	compact(c, x, docs)
}

func compact(c *Case, x *E, docs []*J) {
	r := c.R
	if x.K == ETrue || x.K == EFalse {
		c.Count("plain constants")
	}
	a := x.api()
	before := fmt.Sprintf("%#v", a)
	var y g.Expression
	if p := guarded(func() string { y = g.CompactExpression(a); return "" }); p != "" {
		c.Fail("panic", "%s\n  expression: %s", p, clip(x.String(), 1500))
		return
	}
	if after := fmt.Sprintf("%#v", a); after != before {
		c.Fail("changed", "the expression was modified\n  before: %s\n  after: %s", clip(before, 800), clip(after, 800))
	}
	if constsIn(y) {
		c.Fail("not compact", "constants are left below AND and OR\n  expression: %s\n  compacted: %s", clip(x.String(), 1500), clip(y.String(), 1500))
		return
	}
	switch y.(type) {
	case g.TrueExpr:
		c.Count("became TRUE")
	case g.FalseExpr:
		c.Count("became FALSE")
	default:
		if fmt.Sprintf("%#v", y) != before {
			c.Count("became smaller")
		} else {
			c.Count("unchanged")
		}
	}
	var m *g.FastMatcher
	if p := guarded(func() string {
		var t g.Transformer
		m = g.NewFastMatcher(t.Transform([]g.Expression{y}))
		return ""
	}); p != "" {
		c.Fail("compile", "%s\n  expression: %s\n  compacted: %s", p, x, y)
		return
	}
	for _, d := range docs {
		want, env := EvalDoc(x, d)
		if env.Unclear || env.Struct {
			c.Count("left open")
			continue
		}
		txt := docText(d, fullStyle(r))
		m.Reset()
		got := run(m, []byte(txt))
		c.Eval(1)
		c.Count(fmt.Sprintf("verdict:%v", want))
		c.Nontrivial(before + txt)
		if got.Err != "" || got.Match != want {
			c.Fail("verdict", "compacted gives %v, meaning is %v\n  expression: %s\n  compacted: %s\n  document: %s", got, want, clip(x.String(), 1500), clip(y.String(), 1500), clip(txt, 1500))
			return
		}
		c.Sample(func() string { return fmt.Sprintf("%s compacted to %s on %s -> %v", x, y, txt, got) })
	}
}

// ---- C25: descriptions ----

func caseDescribe(c *Case) {
	r := c.R
	doc := genDoc(r)
	o := randOpts(r)
	o.Loops += r.N(30)
	e := newEgen(r, doc, o)
	describe(c, e.expr(r.In(0, 5)))
}

func describe(c *Case, x *E) {
	a := x.api()
	var want g.ExpressionStats
	var count func(x *E, depth int)
	var opd func(o *Opd)
	opd = func(o *Opd) {
		if o == nil {
			return
		}
		switch o.K {
		case OField:
			want.NumFields++
		case OLit:
			want.NumValues++
		}
		for _, a := range o.Args {
			opd(a)
		}
	}
	count = func(x *E, depth int) {
		if depth > want.MaxLoopDepth {
			want.MaxLoopDepth = depth
		}
		opd(x.L)
		opd(x.R)
		opd(x.In)
		switch x.K {
		case EAnd:
			want.NumAnds++
		case EOr:
			want.NumOrs++
		case EAny, EEvery, EAnyEvery:
			want.NumLoops++
			depth++
		}
		for _, s := range x.Sub {
			count(s, depth)
		}
	}
	count(x, 0)
	var got g.ExpressionStats
	if p := guarded(func() string {
		if err := got.Scan(a); err != nil {
			return "error: " + err.Error()
		}
		return ""
	}); p != "" {
		c.Fail("statistics", "%s\n  expression: %s", p, clip(x.String(), 1500))
		return
	}
	c.Eval(1)
	want.NumNestedLoops = got.NumNestedLoops // not claimed
	if got != want {
		c.Fail("statistics", "%+v, it has %+v\n  expression: %s", got, want, clip(x.String(), 1500))
		return
	}
	c.Nontrivial(x.String())
	observe(c, x)

	// the printed form names the parts in order
	text := ""
	if p := guarded(func() string { text = a.String(); return "" }); p != "" {
		c.Fail("print", "%s\n  expression: %s", p, clip(x.String(), 1500))
		return
	}
	var parts []string
	var oparts func(o *Opd)
	oparts = func(o *Opd) {
		switch o.K {
		case OField:
			if o.Root != 0 {
				parts = append(parts, fmt.Sprintf("$%d", o.Root))
			}
			parts = append(parts, o.Path...)
		case OLit:
			parts = append(parts, fmt.Sprint(litGo(o.Lit)))
		case OTime:
			parts = append(parts, o.Time)
		case OFunc:
			parts = append(parts, o.Fn)
		}
		for _, a := range o.Args {
			oparts(a)
		}
	}
	var eparts func(x *E)
	eparts = func(x *E) {
		switch x.K {
		case ENot:
			parts = append(parts, "NOT")
		case EAny, EEvery, EAnyEvery:
			parts = append(parts, fmt.Sprintf("$%d", x.Var))
			oparts(x.In)
		}
		if x.K != EAny && x.K != EEvery && x.K != EAnyEvery {
			if x.L != nil {
				oparts(x.L)
			}
			switch x.K {
			case ECmp:
				parts = append(parts, []string{"=", "!=", "<", "<=", ">", ">="}[x.Op])
				oparts(x.R)
			case ELike:
				parts = append(parts, x.Re)
			}
		}
		for i, s := range x.Sub {
			if i > 0 {
				parts = append(parts, map[EK]string{EAnd: "AND", EOr: "OR"}[x.K])
			}
			eparts(s)
		}
	}
	eparts(x)
	pos := 0
	for _, p := range parts {
		if strings.ContainsAny(p, "\n") { // lines are indented again
			continue
		}
		i := strings.Index(text[pos:], p)
		if j := pos + i + len(p); i >= 0 && p[0:min(1, len(p))] == "$" && j < len(text) && text[j] >= '0' && text[j] <= '9' {
			i = -1
		}
		if i < 0 {
			c.Fail("print", "the printed form does not name %q after %q\n  expression: %s\n  printed: %s", p, clip(text[max0(pos-300)-1:pos], 300), clip(x.String(), 1500), clip(text, 1500))
			return
		}
		pos += i + len(p)
	}
	c.Add("parts named", len(parts))
	for _, v := range []int{0, 1, c.R.N(60)} {
		if a, b := g.VariableID(v).String(), (g.FieldExpr{Root: g.VariableID(v)}).String(); a != b {
			c.Fail("print", "the variable is %q alone and %q in an expression", a, b)
			return
		}
	}

	// the compiled definition
	m, err := compileDef(x)
	if err != nil {
		c.Fail("compile", "%v\n  expression: %s", err, x)
		return
	}
	if p := guarded(func() string { return defPrinted(m, m.String()) }); p != "" {
		c.Fail("print definition", "%s\n  expression: %s", p, clip(x.String(), 1500))
		return
	}
	c.Count("definitions printed")
	var nums []string
	for _, w := range strings.FieldsFunc(got.String(), func(c rune) bool { return c < '0' || c > '9' }) {
		nums = append(nums, w)
	}
	all := []string{}
	for _, n := range []int{got.NumLoops, got.NumNestedLoops, got.MaxLoopDepth, got.NumAnds, got.NumOrs, got.NumFields, got.NumValues} {
		all = append(all, fmt.Sprint(n))
	}
	if strings.Join(nums, " ") != strings.Join(all, " ") {
		c.Fail("statistics", "printed as %q, they are %v", got.String(), all)
		return
	}
	c.Sample(func() string { return text })
}

func init() {
	register(&Check{
		ID:    "C20",
		Scale: 5,
		Rule:  "expressions of AND, OR, ANY over arrays and the six comparisons of fields with fields and literals, on documents in which the compared values are there and of one type: the slow matcher, the fast matcher and the reference model agree on every expression and neither gives an error; matchers are reused over several documents, some truncated, and report nothing of the last one after a reset; non-trivial = a comparison with both operands there was evaluated",
		Assume: append([]string{"the common fragment: literals are strings, booleans and 64-bit floats, integers up to 2^53, floats that differ by more than the fast matcher's tolerance; the overall result is compared for single expressions only"},
			stdAssume...),
		Load: []Workload{{Name: "agree", Quick: 60000, Thorough: 2000000, Run: caseSlow},
			{Name: "sizes", Quick: 400, Thorough: 6000, Run: bigSlow, Once: true}},
		Require: map[string]int{"verdict:true": 2000, "verdict:false": 2000, "incomplete documents": 500},
	})
	register(&Check{
		ID:     "C21",
		Scale:  8,
		Rule:   "expressions with constants anywhere, compacted and compiled: the verdict on mutated documents is the one the reference model gives for the original expression; the original is not modified and no constant is left below AND or OR; non-trivial = every evaluation",
		Assume: stdAssume,
		Load: []Workload{{Name: "compact", Quick: 40000, Thorough: 1200000, Run: caseCompact},
			{Name: "sizes", Quick: 800, Thorough: 10000, Run: bigCompact, Once: true}},
		Require: map[string]int{"became TRUE": 300, "became FALSE": 300, "became smaller": 3000, "verdict:true": 3000, "verdict:false": 3000},
	})
	register(&Check{
		ID:     "C25",
		Scale:  4,
		Rule:   "statistics of generated expressions of every kind against counts over the model's tree; the printed form names all fields, literals, functions, operators and connectives in order; the printed form of a parsed filter text has the text's parts; printed statistics give their numbers and printed definitions every element, operation, loop and condition once and in its place; nothing panics; non-trivial = distinct expressions",
		Assume: []string{"the number of nested loops is left open (its meaning is not documented); the layout of the printed form is left open"},
		Load: []Workload{{Name: "describe", Quick: 60000, Thorough: 1000000, Run: caseDescribe},
			{Name: "filter", Quick: 10000, Thorough: 200000, Run: caseFilterPrint, Once: true},
			{Name: "sizes", Quick: 400, Thorough: 6000, Run: bigDescribe, Once: true}},
		Require: map[string]int{"node:ANY": 1000, "node:EVERY": 1000, "node:ANYEVERY": 1000, "node:NOTEXISTS": 500, "node:LIKE": 300, "parts named": 100000, "filter texts printed": 3000, "definitions printed": 10000},
	})
}

// ---- printed forms of parsed texts, definitions and statistics ----

// defParts is what the printed form of a definition has to say, in its order,
// without white space.
func defParts(d *g.MatchDef) string {
	var sb strings.Builder
	ref := func(x g.DataRef) {}
	ref = func(x g.DataRef) {
		switch y := x.(type) {
		case nil:
			sb.WriteString("@")
		case g.SlotRef:
			fmt.Fprintf(&sb, "$%d", int(y.Slot))
		case g.FuncRef:
			sb.WriteString("func:" + y.FuncName + "(")
			for i, p := range y.Params {
				if i > 0 {
					sb.WriteString(",")
				}
				ref(p)
			}
			sb.WriteString(")")
		case g.FastVal: // its printed form is not what is watched here
			sb.WriteString(y.String())
		default:
			fmt.Fprintf(&sb, "%v", y)
		}
	}
	ops := map[g.OpType]string{g.OpTypeEquals: "eq", g.OpTypeLessThan: "lt", g.OpTypeLessEquals: "le", g.OpTypeGreaterThan: "gt",
		g.OpTypeGreaterEquals: "gte", g.OpTypeIn: "in", g.OpTypeExists: "exists", g.OpTypeMatches: "matches"}
	modes := map[g.LoopType]string{g.LoopTypeAny: "any", g.LoopTypeEvery: "every", g.LoopTypeAnyEvery: "anyevery"}
	var node func(n *g.ExecNode)
	opList := func(title string, l []g.OpNode) {
		if len(l) > 0 {
			sb.WriteString(title)
		}
		for _, o := range l {
			fmt.Fprintf(&sb, "[%d]", int(o.BucketIdx))
			ref(o.Lhs)
			sb.WriteString(ops[o.Op])
			ref(o.Rhs)
		}
	}
	loops := func(title string, l []g.LoopNode) {
		if len(l) > 0 {
			sb.WriteString(title)
		}
		for _, o := range l {
			fmt.Fprintf(&sb, "[%d]:%sin", int(o.BucketIdx), modes[o.Mode])
			ref(o.Target)
			sb.WriteString(":")
			node(o.Node)
		}
	}
	node = func(n *g.ExecNode) {
		if n.StoreId > 0 {
			fmt.Fprintf(&sb, ":store$%d", int(n.StoreId))
		}
		opList(":ops", n.Ops)
		var keys []string
		for k := range n.Elems {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if len(keys) > 0 {
			sb.WriteString(":elems")
		}
		for _, k := range keys {
			sb.WriteString("`" + k + "`:")
			node(n.Elems[k])
		}
		loops(":loops", n.Loops)
		if n.After != nil {
			opList(":after-ops:", n.After.Ops)
			loops(":after-loops:", n.After.Loops)
		}
	}
	if d.ParseNode != nil {
		node(d.ParseNode)
	}
	return strings.Join(strings.Fields(sb.String()), "")
}

var binLine = regexp.MustCompile(`^( *)\[(\d+):(-?\d+)\] (\S+)`)

// defPrinted says what the printed form of a definition leaves out.
func defPrinted(d *g.MatchDef, text string) string {
	i := strings.Index(text, "bin tree:\n")
	for { // a name may contain these words, the title is at the beginning of a line and comes last
		j := strings.Index(text[i+1:], "\nbin tree:\n")
		if j < 0 {
			break
		}
		i += 1 + j + 1
	}
	k := strings.LastIndex(text, "match buckets:\n")
	if i < 0 || k < i {
		return "the parts are not there"
	}
	tree := strings.TrimPrefix(text[:i], "match tree:\n")
	tree = strings.TrimPrefix(strings.TrimLeft(tree, " "), "$doc:\n")
	if got, want := strings.Join(strings.Fields(tree), ""), defParts(d); got != want {
		return fmt.Sprintf("the match tree is printed as\n  %s\n  it is\n  %s", clip(got, 1500), clip(want, 1500))
	}
	// the tree of conditions: every one once, below its parent
	type lvl struct{ indent, id int }
	var up []lvl
	seen := map[int]bool{}
	kids := map[int]int{}
	kind := map[int]string{}
	for _, l := range strings.Split(strings.TrimSuffix(strings.TrimPrefix(text[i:k], "bin tree:\n"), "\n"), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		p := binLine.FindStringSubmatch(l)
		if p == nil {
			return fmt.Sprintf("a line of the bin tree is %q", l)
		}
		id, _ := strconv.Atoi(p[2])
		parent, _ := strconv.Atoi(p[3])
		if seen[id] {
			return fmt.Sprintf("condition %d is printed twice", id)
		}
		seen[id] = true
		for len(up) > 0 && up[len(up)-1].indent >= len(p[1]) {
			up = up[:len(up)-1]
		}
		if len(up) > 0 && up[len(up)-1].id != parent {
			return fmt.Sprintf("condition %d is printed below %d, its parent is %d", id, up[len(up)-1].id, parent)
		}
		if len(up) > 0 {
			kids[parent]++
		}
		kind[id] = p[4]
		up = append(up, lvl{len(p[1]), id})
	}
	for id := 0; id < d.NumBuckets; id++ {
		if !seen[id] {
			return fmt.Sprintf("condition %d of %d is not printed", id, d.NumBuckets)
		}
	}
	for id, n := range kids {
		if want := map[string]int{"and": 2, "or": 2, "neor": 2, "not": 1, "loop": 1}[kind[id]]; want > 0 && n != want {
			return fmt.Sprintf("condition %d (%s) has %d below it", id, kind[id], n)
		}
	}
	want := "matchbuckets:"
	for i, b := range d.MatchBuckets {
		want += fmt.Sprintf("%d:%d", i, b)
	}
	want += fmt.Sprintf("numbuckets:%dnumslots:%d", d.NumBuckets, d.NumSlots)
	if got := strings.Join(strings.Fields(text[k:]), ""); got != want {
		return fmt.Sprintf("the end is printed as %s, it is %s", got, want)
	}
	return ""
}

// plainText is a filter text without what its printed form leaves out: white
// space, quotes and the different spellings of operators and numbers.
func plainText(t string) string {
	var sb strings.Builder
	put := func(s string) {
		for _, c := range s {
			if !unicode.IsSpace(c) {
				sb.WriteRune(c)
			}
		}
	}
	for i := 0; i < len(t); {
		switch c := t[i]; {
		case c == '"':
			j := i + 1
			for t[j] != '"' {
				if t[j] == '\\' {
					j++
				}
				j++
			}
			s, _ := strconv.Unquote(t[i : j+1])
			put(s)
			i = j + 1
		case c == '\'' || c == '`':
			j := i + 1 + strings.IndexByte(t[i+1:], c)
			put(t[i+1 : j])
			i = j + 1
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(t) && t[i+1] >= '0' && t[i+1] <= '9':
			j := i
			for j < len(t) && (t[j] >= '0' && t[j] <= '9' || t[j] == '.' || t[j] == 'e' || t[j] == 'E' || (t[j] == '-' || t[j] == '+') && (t[j-1] == 'e' || t[j-1] == 'E')) {
				j++
			}
			n := t[i:j]
			if v, err := strconv.ParseInt(n, 10, 64); err == nil {
				put(strconv.FormatInt(v, 10))
			} else {
				f, _ := strconv.ParseFloat(n, 64)
				put(fmt.Sprint(f))
			}
			i = j
		case c == '=' && strings.HasPrefix(t[i:], "=="):
			put("=")
			i += 2
		case c == '!' && strings.HasPrefix(t[i:], "!="):
			put("<>")
			i += 2
		case unicode.IsLetter(rune(c)) || c == '_' || c >= 0x80:
			j := i
			for j < len(t) && (t[j] >= 'a' && t[j] <= 'z' || t[j] >= 'A' && t[j] <= 'Z' || t[j] == '_' || t[j] >= 0x80 || t[j] >= '0' && t[j] <= '9') {
				j++
			}
			put(t[i:j])
			i = j
		default:
			put(t[i : i+1])
			i++
		}
	}
	return strings.ReplaceAll(sb.String(), "--", "")
}

func caseFilterPrint(c *Case) {
	r := c.R
	f := newFgen(r, filterDoc(r))
	t, _ := f.or(r.In(0, 3))
	if strings.Contains(t, "(bool)") { // a name that reads like what is printed after constants
		return
	}
	_, fe, err := g.NewFilterExpressionParser(t)
	if err != nil {
		c.Fail("rejected", "%v\n  text: %s", err, t)
		return
	}
	text := ""
	if p := guarded(func() string { text = fe.String(); return "" }); p != "" {
		c.Fail("print", "%s\n  text: %s", p, t)
		return
	}
	c.Eval(1)
	c.Nontrivial(t)
	c.Count("filter texts printed")
	want := plainText(t)
	got := strings.ReplaceAll(text, "(bool)", "")
	got = strings.Join(strings.Fields(got), "")
	got = strings.ReplaceAll(got, "--", "")
	if got != want {
		c.Fail("print", "the printed form does not have the parts of the text\n  text: %s\n  printed: %s\n  parts: %s\n  printed parts: %s", t, text, want, got)
	}
	c.Sample(func() string { return t + " printed as " + text })
}
