package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

var stdAssume = []string{
	"documents are valid UTF-8 JSON without duplicate keys in one object and without lone surrogate escapes, unless the workload says otherwise",
	"a loop nested in another loop iterates something reached from the innermost loop variable (the compiler supports no other nesting)",
	"cases whose meaning the library leaves open (NaN, float differences at the 1e-7 tolerance, 64-bit overflow, ordering of structured values, literals of two different types) are not judged",
}

func genDoc(r *Rng) *J {
	o := *defaultGen
	switch r.N(6) {
	case 0:
		o.MaxDepth, o.Width = 2, 4
	case 1:
		o.MaxDepth, o.Width = 5, 3
	case 2:
		o.MaxDepth, o.Width = 3, 12
	}
	d := genObj(r, o.MaxDepth, &o)
	if r.P(4) {
		// a deep chain
		n := dictSize(r, 120)
		for i := 0; i < n; i++ {
			if r.P(20) {
				d = JObj(Member{genKey(r), JArr(genScalar(r), d)})
			} else {
				d = JObj(Member{genKey(r), d})
				if r.P(30) {
					k := genKey(r)
					if d.get(k) == nil {
						d.O = append(d.O, Member{k, genScalar(r)})
					}
				}
			}
		}
	}
	if r.P(3) {
		// a wide object
		n := dictSize(r, 300)
		for i := 0; i < n; i++ {
			d.O = append(d.O, Member{fmt.Sprintf("w%d", i), genScalar(r)})
		}
	}
	return d
}

func randOpts(r *Rng) *ExprOpts {
	o := stdExpr()
	switch r.N(8) {
	case 0:
		o.Loops, o.CmpField, o.MaxLoop = 50, 30, 3
	case 1:
		o.Funcs = unaryFuncs
		o.CmpFunc = 40
	case 2:
		o.CmpDate, o.Like = 20, 20
	case 3:
		o.AndOr, o.Not, o.MaxArity = 60, 20, 8
	case 4:
		o.CmpField, o.Exists = 40, 30
	case 5:
		o.Consts = 15
	}
	return o
}

func init() {
	register(&Check{
		ID:     "C01",
		Scale:  4,
		Rule:   "a random document and a random expression over its paths (all node kinds), evaluated on mutated documents in random spellings; non-trivial = at least one operand pair was there to be judged; distinct by expression and document text",
		Assume: stdAssume,
		Load: []Workload{
			{Name: "meaning", Quick: 40000, Thorough: 900000, Run: func(c *Case) {
				diffCase(c, &diffOpts{Doc: genDoc, Docs: 6, MutPct: 20, Expr: func(r *Rng, doc *J) *E {
					o := randOpts(r)
					x := newEgen(r, doc, o).expr(r.In(0, 4))
					observe(c, x)
					return x
				}})
			}},
			{Name: "small", Quick: 25000, Thorough: 400000, Run: caseSmall(20)},
			{Name: "sizes", Quick: 800, Thorough: 12000, Run: bigCase(bigLoop, bigObject, bigBool, bigString, bigRegex, bigNumber, bigFn, bigExact), Once: true},
			{Name: "big", Quick: 2500, Thorough: 60000, Run: func(c *Case) {
				diffCase(c, &diffOpts{Doc: genDoc, Docs: 6, MutPct: 12, Expr: func(r *Rng, doc *J) *E {
					o := randOpts(r)
					o.MaxArity = 8
					e := newEgen(r, doc, o)
					x := &E{K: []EK{EAnd, EOr}[r.N(2)]}
					n := dictSize(r, 70)
					for i := 0; i < n; i++ {
						e.nCond = 0
						s := e.expr(r.In(0, 2))
						x.Sub = append(x.Sub, s)
					}
					if r.P(30) {
						x = Not(x)
					}
					observe(c, x)
					return x
				}})
			}},
		},
		Require: map[string]int{"verdict:true": 1000, "verdict:false": 1000, "node:ANY": 100, "node:EXISTS": 100, "node:LIKE": 50, "node:NOT": 100},
	})

	// ---- C14: boolean composition ----
	register(&Check{
		ID:     "C14",
		Scale:  3,
		Rule:   "truth tables: trees of AND/OR/NOT over up to 7 yes/no fields, every assignment (field true, false, missing), fields in random order; trees of up to thousands and over 2^16 conditions; and composites of arbitrary conditions against their parts matched alone; non-trivial = all",
		Assume: stdAssume,
		Load: []Workload{
			{Name: "truthtable", Quick: 12000, Thorough: 200000, Run: caseTruthTable},
			{Name: "parts", Quick: 20000, Thorough: 400000, Run: caseParts},
			{Name: "sizes", Quick: 1500, Thorough: 25000, Run: bigCase(bigBool), Once: true},
			{Name: "huge", Quick: 40, Thorough: 400, Run: caseHuge, Once: true},
		},
		Require: map[string]int{"verdict:true": 1000, "verdict:false": 1000},
	})

	// ---- C02: spelling ----
	register(&Check{
		ID:     "C02",
		Scale:  4,
		Rule:   "one document in 6 spellings (whitespace, member order, escapes in keys and strings, unreferenced members) must give one verdict; non-trivial = the spellings differ and some operand is there",
		Assume: stdAssume,
		Load: []Workload{
			{Name: "spellings", Quick: 25000, Thorough: 500000, Run: caseSpellings},
			{Name: "order", Quick: 6000, Thorough: 100000, Run: caseOrder},
			{Name: "sizes", Quick: 1500, Thorough: 20000, Run: bigSpelling, Once: true},
		},
		Require: map[string]int{"verdict:true": 1000, "verdict:false": 1000},
	})

	// ---- C03: paths ----
	register(&Check{
		ID:     "C03",
		Scale:  3,
		Rule:   "expressions over paths (nested, prefixes of one another, odd and long keys, array indexes, loop variables and beside loops, null, missing, wrong container kind); non-trivial = some operand is there",
		Assume: stdAssume,
		Load: []Workload{
			{Name: "paths", Quick: 40000, Thorough: 800000, Run: func(c *Case) {
				diffCase(c, &diffOpts{Doc: pathDoc, Docs: 5, MutPct: 25, Expr: func(r *Rng, doc *J) *E { return pathExpr(r, doc) }})
			}},
			{Name: "exists", Quick: 15000, Thorough: 300000, Run: caseExists},
			{Name: "small", Quick: 15000, Thorough: 300000, Run: caseSmall(40)},
			{Name: "sizes", Quick: 1000, Thorough: 15000, Run: bigCase(bigObject), Once: true},
		},
		Require: map[string]int{"verdict:true": 1000, "verdict:false": 1000, "exists:null": 20},
	})

	// ---- C04: typed comparison ----
	register(&Check{
		ID:     "C04",
		Scale:  12,
		Rule:   "single comparisons, field with literal, literal with field, field with field, over all pairs of kinds and all six operators; non-trivial = both operands there",
		Assume: stdAssume,
		Load: []Workload{
			{Name: "compare", Quick: 70000, Thorough: 1500000, Run: func(c *Case) {
				diffCase(c, &diffOpts{Docs: 4, Pairs: true,
					Doc:     cmpDoc,
					NextDoc: func(r *Rng, d *J) *J { return JObj(Member{"a", near(r, d.get("a"))}, Member{"b", near(r, d.get("b"))}) },
					Expr:    cmpExpr})
			}},
			{Name: "sizes", Quick: 1000, Thorough: 15000, Run: bigCase(bigString, bigExact), Once: true},
		},
		Require: map[string]int{"verdict:true": 1000, "verdict:false": 1000, "pair:int/string": 100, "pair:null/string": 50, "pair:false/true": 50, "pair:string/string": 500},
	})

	// ---- C05: numbers ----
	register(&Check{
		ID:     "C05",
		Scale:  7,
		Rule:   "numeric comparisons (signed, unsigned, float; field with literal and field with field) over boundary values and many spellings of numbers; oracle: exact integers and strconv's floats; non-trivial = both operands there",
		Assume: stdAssume,
		Load: []Workload{
			{Name: "numbers", Quick: 70000, Thorough: 1500000, Run: func(c *Case) {
				diffCase(c, &diffOpts{Docs: 4, Pairs: true,
					Doc: func(r *Rng) *J {
						a := genNum(r)
						b := numNear(r, a)
						if r.P(30) {
							b = genNum(r)
						}
						return JObj(Member{"a", a}, Member{"b", b}, Member{"c", JArr(a, b, genNum(r))})
					},
					NextDoc: func(r *Rng, d *J) *J {
						return JObj(Member{"a", numNear(r, d.get("a"))}, Member{"b", numNear(r, d.get("b"))}, Member{"c", d.get("c")})
					},
					Expr: numExpr})
			}},
			{Name: "sizes", Quick: 8000, Thorough: 100000, Run: bigCase(bigNumber), Once: true},
		},
		Require: map[string]int{"verdict:true": 1000, "verdict:false": 1000, "pair:int/float": 100, "pair:uint/int": 100, "pair:uint/float": 50},
	})

	// ---- C06: loops ----
	register(&Check{
		ID:     "C06",
		Scale:  3,
		Rule:   "ANY/EVERY/ANY-AND-EVERY over arrays of scalars, objects and arrays, bodies with conditions on the element, on outer fields, nested loops; non-trivial = some operand there",
		Assume: stdAssume,
		Load: []Workload{
			{Name: "loops", Quick: 40000, Thorough: 800000, Run: func(c *Case) {
				diffCase(c, &diffOpts{Doc: loopDoc, Docs: 6, MutPct: 25, Expr: func(r *Rng, doc *J) *E {
					x := loopExpr(r, doc)
					observe(c, x)
					return x
				}})
			}},
			{Name: "elements", Quick: 15000, Thorough: 300000, Run: caseElements},
			{Name: "nested", Quick: 40000, Thorough: 600000, Run: caseSmall(70)},
			{Name: "sizes", Quick: 800, Thorough: 12000, Run: bigCase(bigLoop), Once: true},
		},
		Require: map[string]int{"verdict:true": 1000, "verdict:false": 1000, "node:ANY": 500, "node:EVERY": 500, "node:ANYEVERY": 500},
	})

	// ---- C07: functions ----
	register(&Check{
		ID:     "C07",
		Scale:  8,
		Rule:   "comparisons of (nested) arithmetic and functions of fields and literals with literals close to the true result, fields and other functions; oracle: exact integers (math/big) and Go's math on float64; non-trivial = both operands there",
		Assume: stdAssume,
		Load: []Workload{
			{Name: "functions", Quick: 60000, Thorough: 1200000, Run: func(c *Case) {
				diffCase(c, &diffOpts{Docs: 4, Doc: fnDoc, Pairs: true,
					NextDoc: func(r *Rng, d *J) *J {
						n := &J{K: KObj}
						for _, m := range d.O {
							if r.P(4) {
								continue
							}
							v := m.V
							if r.P(50) {
								v = near(r, v)
							}
							n.O = append(n.O, Member{m.K, v})
						}
						return n
					},
					Expr: func(r *Rng, doc *J) *E {
						x := fnExpr(r, doc, stdExpr())
						observe(c, x)
						return x
					}})
			}},
			{Name: "integers", Quick: 20000, Thorough: 400000, Run: func(c *Case) {
				diffCase(c, &diffOpts{Docs: 4, Doc: intDoc, Pairs: true,
					NextDoc: func(r *Rng, d *J) *J {
						n := &J{K: KObj}
						for _, m := range d.O {
							v := m.V
							if r.P(60) {
								v = genWideInt(r)
							}
							n.O = append(n.O, Member{m.K, v})
						}
						return n
					},
					Expr: func(r *Rng, doc *J) *E {
						o := stdExpr()
						o.Funcs = arithFuncs
						x := fnExpr(r, doc, o)
						observe(c, x)
						return x
					}})
			}},
			{Name: "values", Quick: 10000, Thorough: 300000, Run: caseFnValues},
			{Name: "sizes", Quick: 2000, Thorough: 30000, Run: bigCase(bigFn), Once: true},
		},
		Require: fnRequire(),
	})

	// ---- C08: dates ----
	register(&Check{
		ID:     "C08",
		Scale:  7,
		Rule:   "comparisons of date strings (year, month, day, RFC3339 with and without offsets, fractions, invalid ones) with time literals and each other, with and without the date function; oracle: Go's time package; non-trivial = both operands there",
		Assume: stdAssume,
		Load: []Workload{
			{Name: "dates", Quick: 60000, Thorough: 1200000, Run: func(c *Case) {
				diffCase(c, &diffOpts{Docs: 5, Doc: dateDoc, Pairs: true,
					NextDoc: func(r *Rng, d *J) *J {
						n := &J{K: KObj}
						for _, m := range d.O {
							if r.P(5) {
								continue
							}
							v := m.V
							if r.P(60) {
								v = dateNear(r, v)
							}
							n.O = append(n.O, Member{m.K, v})
						}
						return n
					},
					Expr: dateExpr})
			}},
		},
		Require: map[string]int{"verdict:true": 1000, "verdict:false": 1000, "pair:time/time": 200},
	})

	// ---- C09: regex ----
	register(&Check{
		ID:     "C09",
		Scale:  7,
		Rule:   "regular expressions against string fields (plain and escaped spellings, any unicode) and non-strings, in and out of loops; oracle: Go's regexp on the unescaped contents; non-trivial = the field is there",
		Assume: stdAssume,
		Load: []Workload{
			{Name: "regex", Quick: 30000, Thorough: 600000, Run: func(c *Case) {
				diffCase(c, &diffOpts{Docs: 6, MutPct: 30,
					Doc:  func(r *Rng) *J { return strDoc(r) },
					Expr: regexExpr})
			}},
			{Name: "sizes", Quick: 1500, Thorough: 20000, Run: bigCase(bigRegex), Once: true},
		},
		Require: map[string]int{"verdict:true": 1000, "verdict:false": 1000},
	})

	// ---- C10: several expressions at once ----
	register(&Check{
		ID:     "C10",
		Scale:  6,
		Rule:   "2 to 12 (in sizes up to about a thousand, in huge over 2^16 conditions) expressions compiled together: every one reports the result it gives alone, and the overall result is whether any matched; non-trivial = the individual results are not all equal",
		Assume: stdAssume,
		Load: []Workload{
			{Name: "merge", Quick: 15000, Thorough: 300000, Run: caseMerge},
			{Name: "sizes", Quick: 800, Thorough: 10000, Run: bigMerge, Once: true},
			{Name: "huge", Quick: 24, Thorough: 240, Run: func(c *Case) { hugeCase(c, 2) }, Once: true},
		},
		Require: map[string]int{"verdict:true": 1000, "verdict:false": 1000},
	})

	// ---- C11: reuse ----
	register(&Check{
		ID:     "C11",
		Scale:  7,
		Rule:   "one matcher over a history of 4 to 16 documents (valid, truncated, corrupted, empty), reset in between: every result, status flag and error equals a fresh matcher's; the compiled definition is also used by several matchers alternately; non-trivial = histories with both verdicts or an error",
		Assume: stdAssume,
		Load: []Workload{
			{Name: "history", Quick: 12000, Thorough: 250000, Run: caseHistory},
			{Name: "sizes", Quick: 64, Thorough: 800, Run: bigHistory, Once: true},
		},
		Require: map[string]int{"histories with an error": 200, "histories with both verdicts": 1000},
	})

	// ---- C13: arbitrary bytes ----
	register(&Check{
		ID:     "C13",
		Scale:  3,
		Rule:   "matching arbitrary bytes (corrupted, truncated at every point, random, deeply nested, huge numbers and strings): no panic, it ends, valid documents give no error, nothing outside or inside the input is written, bytes after the end are not read; non-trivial = distinct inputs that are not valid JSON",
		Assume: []string{"a run-away case is recognised by 15 s of CPU time (25 s when it is confirmed) or 3 GB of heap in one case; a stack may grow to 64 MB"},
		Load: []Workload{
			{Name: "corrupt", Quick: 25000, Thorough: 600000, Run: caseCorrupt},
			{Name: "prefixes", Quick: 2500, Thorough: 50000, Run: casePrefixes},
			{Name: "deep", Quick: 60, Thorough: 400, Run: caseDeep},
			{Name: "soup", Quick: 20000, Thorough: 500000, Run: caseSoup},
		},
		Require: map[string]int{"invalid inputs": 10000, "valid inputs": 2000, "errors": 5000},
	})

	// ---- C22: malformed tokens ----
	register(&Check{
		ID:     "C22",
		Scale:  4,
		Rule:   "one token of a valid document is spoilt (bad escapes, control characters, unfinished strings, numbers and literals, stray bytes) and the document matched against expressions over paths that are not there, so that the scan has to pass the spoilt token: the match must return an error (and obey C13's monitors); non-trivial = distinct spoilt documents",
		Assume: []string{"a document is spoilt at one place; structural errors made of well-formed tokens are not claimed to be reported"},
		Load: []Workload{
			{Name: "tokens", Quick: 40000, Thorough: 1500000, Run: caseTokens},
			{Name: "sizes", Quick: 1200, Thorough: 15000, Run: bigTokens, Once: true},
		},
		Require: map[string]int{"spoilt:stray": 5000, "spoilt:escape": 3000, "spoilt:control": 3000, "spoilt:cut": 3000, "spoilt:key": 3000, "spoilt:number": 3000, "spoilt:literal": 2000},
	})

	// ---- C23: status flag ----
	register(&Check{
		ID:     "C23",
		Scale:  6,
		Rule:   "the collation flag: on single conditions set exactly when the operands could not be reconciled; in composites set when the result depends on such operands and never when every condition's operands can be reconciled; cleared by reset; non-trivial = both operands there",
		Assume: stdAssume,
		Load: []Workload{
			{Name: "single", Quick: 60000, Thorough: 1000000, Run: func(c *Case) {
				diffCase(c, &diffOpts{Docs: 4, Doc: cmpDoc,
					NextDoc: func(r *Rng, d *J) *J { return JObj(Member{"a", near(r, d.get("a"))}, Member{"b", near(r, d.get("b"))}) },
					Expr: func(r *Rng, d *J) *E {
						if r.P(15) {
							return Like(Fld("a"), r.Pick(reAtoms))
						}
						return cmpExpr(r, d)
					},
					After: func(c *Case, x *E, d *J, txt string, want bool, env *Env, got outcome) {
						flagCheck(c, x, txt, env, got, true)
					}})
			}},
			{Name: "composite", Quick: 20000, Thorough: 400000, Run: func(c *Case) {
				diffCase(c, &diffOpts{Doc: genDoc, Docs: 5, MutPct: 10, Expr: func(r *Rng, doc *J) *E {
					return newEgen(r, doc, randOpts(r)).expr(r.In(1, 3))
				}, After: func(c *Case, x *E, d *J, txt string, want bool, env *Env, got outcome) {
					flagCheck(c, x, txt, env, got, false)
				}})
			}},
			{Name: "sizes", Quick: 800, Thorough: 10000, Run: bigFlag, Once: true},
		},
		Require: map[string]int{"flag:set": 500, "flag:clear": 500},
	})
}

func flagCheck(c *Case, x *E, txt string, env *Env, got outcome, exact bool) {
	set := got.Status&g.MatcherCollateUsed != 0
	if set {
		c.Count("flag:set")
	} else {
		c.Count("flag:clear")
	}
	if set && !env.Collate {
		c.Fail("flag", "collation flag set although all operands could be reconciled\n  expression: %s\n  document: %s", x, txt)
	}
	if exact && !set && env.Collate {
		c.Fail("flag", "collation flag not set although the operands could not be reconciled\n  expression: %s\n  document: %s", x, txt)
	}
	if !exact && !set && env.Collate {
		e3 := &Env{Doc: env.Doc, Vars: map[int]*J{}}
		if x.eval3(e3) == unknown3 && !e3.Unclear {
			c.Fail("flag", "collation flag not set although the result depends on operands that could not be reconciled\n  expression: %s\n  document: %s", x, txt)
		}
	} else if !exact && set && env.Collate {
		c.Count("flag:set in composites")
	}
	if got.Status&^g.MatcherCollateUsed != 0 || !set && got.Status != g.MatcherNoStatus {
		c.Fail("flag", "unknown status bits %x", got.Status)
	}
}

// ---------------- C14 ----------------

func boolTree(r *Rng, k, depth int, leaf func() *E) *E {
	if depth == 0 || r.P(15) {
		return leaf()
	}
	switch r.W(25, 35, 35, 5) {
	case 0:
		return Not(boolTree(r, k, depth-1, leaf))
	case 3:
		return &E{K: []EK{ETrue, EFalse}[r.N(2)]}
	}
	x := &E{K: EAnd}
	if r.P(50) {
		x.K = EOr
	}
	n := r.W(5, 50, 20, 15, 10) + 1
	if r.P(3) {
		n = dictSize(r, 40)
		depth = 1
	}
	for i := 0; i < n; i++ {
		x.Sub = append(x.Sub, boolTree(r, k, depth-1, leaf))
	}
	return x
}

func caseTruthTable(c *Case) {
	r := c.R
	k := r.In(1, 6)
	nest := r.P(30)
	place := func(i int) []string {
		if nest {
			return []string{"o" + strconv.Itoa(i%3), "f" + strconv.Itoa(i)}
		}
		return []string{"f" + strconv.Itoa(i)}
	}
	x := boolTree(r, k, r.In(1, 6), func() *E {
		f := Fld(place(r.N(k))...)
		switch r.N(5) {
		case 0:
			return Exists(f)
		case 1:
			return NotExists(f)
		case 2:
			return Cmp(f, OpNE, Lit(JInt(1)))
		}
		return Cmp(f, OpEQ, Lit(JInt(1)))
	})
	observe(c, x)
	m, err := compile(x)
	if err != nil {
		c.Fail("compile", "%v\n  %s", err, x)
		return
	}
	xs := x.String()
	total := 1
	for i := 0; i < k; i++ {
		total *= 3
	}
	// every assignment, or a sample of them when there are many
	step := 1
	if total > 250 {
		step = 7
	}
	for a := r.N(step); a < total; a += step {
		doc := &J{K: KObj}
		v := a
		for i := 0; i < k; i++ {
			b := v % 3
			v /= 3
			if b == 2 {
				continue
			}
			p := place(i)
			if len(p) == 1 {
				doc.O = append(doc.O, Member{p[0], JInt(int64(b))})
			} else {
				o := doc.get(p[0])
				if o == nil {
					o = &J{K: KObj}
					doc.O = append(doc.O, Member{p[0], o})
				}
				o.O = append(o.O, Member{p[1], JInt(int64(b))})
			}
		}
		want, _ := EvalDoc(x, doc)
		txt := docText(doc, &Style{R: r, Shuffle: true})
		m.Reset()
		got := run(m, []byte(txt))
		c.Eval(1)
		c.Count(fmt.Sprintf("verdict:%v", want))
		c.Nontrivial(xs + txt)
		c.Sample(func() string { return xs + " on " + txt + " -> " + got.String() })
		if got.Err != "" || got.Match != want {
			c.Fail("verdict", "got %v, want %v\n  expression: %s\n  document: %s", got, want, xs, txt)
			return
		}
	}
}

// caseParts: a composite of arbitrary conditions against its parts matched
// alone by the same code.
func caseParts(c *Case) {
	r := c.R
	doc := genDoc(r)
	o := randOpts(r)
	e := newEgen(r, doc, o)
	k := r.In(1, 5)
	var leaves []*E
	var ms []*g.FastMatcher
	for i := 0; i < k; i++ {
		d := 0
		if r.P(25) {
			d = 1
		}
		l := e.expr(d)
		m, err := compile(l)
		if err != nil {
			c.Fail("compile", "%v\n  %s", err, l)
			return
		}
		leaves, ms = append(leaves, l), append(ms, m)
	}
	// structure over leaf placeholders
	used := map[*E]int{}
	x := boolTree(r, k, r.In(1, 4), func() *E {
		i := r.N(k)
		l := *leaves[i]
		used[&l] = i
		return &l
	})
	m, err := compile(x)
	if err != nil {
		c.Fail("compile", "%v\n  %s", err, x)
		return
	}
	xs := x.String()
	for n := 0; n < 5; n++ {
		d := doc
		if n > 0 {
			d = mutate(r, doc, 20)
		}
		txt := docText(d, fullStyle(r))
		vals := make([]bool, k)
		for i := range ms {
			ms[i].Reset()
			o := run(ms[i], []byte(txt))
			if o.Err != "" {
				c.Fail("error", "%v\n  expression: %s\n  document: %s", o, leaves[i], txt)
				return
			}
			vals[i] = o.Match
		}
		var ev func(x *E) bool
		ev = func(x *E) bool {
			if i, ok := used[x]; ok {
				return vals[i]
			}
			switch x.K {
			case ETrue:
				return true
			case EFalse:
				return false
			case ENot:
				return !ev(x.Sub[0])
			}
			res := x.K == EAnd
			for _, s := range x.Sub {
				if x.K == EAnd {
					res = ev(s) && res
				} else {
					res = ev(s) || res
				}
			}
			return res
		}
		want := ev(x)
		m.Reset()
		got := run(m, []byte(txt))
		c.Eval(1)
		c.Count(fmt.Sprintf("verdict:%v", want))
		c.Nontrivial(xs + txt)
		if got.Err != "" || got.Match != want {
			c.Fail("parts", "got %v, the parts alone give %v (%v)\n  expression: %s\n  document: %s", got, want, vals, xs, txt)
			return
		}
	}
}

// ---------------- C02 ----------------

func caseSpellings(c *Case) {
	r := c.R
	doc := genDoc(r)
	x := newEgen(r, doc, randOpts(r)).expr(r.In(0, 3))
	m, err := compile(x)
	if err != nil {
		c.Fail("compile", "%v\n  %s", err, x)
		return
	}
	xs := x.String()
	for n := 0; n < 2; n++ {
		d := doc
		if n > 0 {
			d = mutate(r, doc, 20)
		}
		_, env := EvalDoc(x, d)
		if env.Struct {
			c.Count("left open: structured values compare by their text")
			continue
		}
		base := canon(d)
		m.Reset()
		first := run(m, []byte(base))
		c.Count(fmt.Sprintf("verdict:%v", first.Match))
		// functions work on integers where both numbers are written as such
		// and strings are compared with the text of a number
		intFloat := !hasFn(x) && !env.Unclear
		te := &Env{Doc: d, Vars: map[int]*J{}}
		te.Trace = func(op string, a, b *J) {
			if a.K == KStr && b.IsNumeric() || a.IsNumeric() && b.K == KStr {
				intFloat = false
			}
		}
		x.eval(te)
		for k := 0; k < 6; k++ {
			var st *Style
			switch k {
			case 0:
				st = &Style{R: r, Ws: 30, TailWs: true}
			case 1:
				st = &Style{R: r, Esc: 50, AllEsc: r.P(30)}
			case 2:
				st = &Style{R: r, Shuffle: true}
			case 3:
				st = &Style{R: r, Extra: 40, ExtraKey: extraKey}
			case 4:
				st = &Style{R: r, Nums: 60, IntFloat: intFloat}
			case 5:
				if st = fullStyle(r); st != nil {
					st.IntFloat = intFloat
				}
			}
			txt := docText(d, st)
			m.Reset()
			got := run(m, []byte(txt))
			c.Eval(1)
			if env.Touched > 0 && txt != base {
				c.Nontrivial(xs + "\x00" + txt)
				c.Sample(func() string { return xs + " on " + base + " and " + txt + " -> " + got.String() })
			}
			if got.Err != first.Err || got.Match != first.Match {
				c.Fail("spelling", "%v on one spelling, %v on another\n  expression: %s\n  document: %s\n  document: %s", first, got, xs, base, txt)
				return
			}
		}
	}
}

func hasFn(x *E) bool {
	f := false
	walk(x, func(*E) {}, func(o *Opd) { f = f || o.K == OFunc })
	return f
}

// caseOrder: all permutations of the members of a small object.
func caseOrder(c *Case) {
	r := c.R
	doc := &J{K: KObj}
	n := r.In(2, 4)
	for i := 0; i < n; i++ {
		k := keyPool[i]
		doc.O = append(doc.O, Member{k, genValue(r, 2, nil)})
	}
	x := newEgen(r, doc, randOpts(r)).expr(r.In(1, 3))
	m, err := compile(x)
	if err != nil {
		c.Fail("compile", "%v\n  %s", err, x)
		return
	}
	_, env := EvalDoc(x, doc)
	if env.Struct {
		return
	}
	xs := x.String()
	var first outcome
	firstTxt := ""
	perms(n, func(p []int) {
		d := &J{K: KObj}
		for _, i := range p {
			d.O = append(d.O, doc.O[i])
		}
		txt := canon(d)
		m.Reset()
		got := run(m, []byte(txt))
		c.Eval(1)
		c.Nontrivial(xs + txt)
		if firstTxt == "" {
			first, firstTxt = got, txt
			return
		}
		if got.Err != first.Err || got.Match != first.Match {
			c.Fail("order", "%v in one member order, %v in another\n  expression: %s\n  document: %s\n  document: %s", first, got, xs, firstTxt, txt)
		}
	})
}

func perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// ---------------- C03 ----------------

func pathDoc(r *Rng) *J {
	o := *defaultGen
	o.MaxDepth, o.Width = r.In(2, 6), r.In(1, 6)
	o.ObjPct, o.ArrPct = 50, 20
	d := genObj(r, o.MaxDepth, &o)
	if r.P(10) {
		return genDoc(r)
	}
	return d
}

func pathExpr(r *Rng, doc *J) *E {
	o := stdExpr()
	o.Loops, o.Like, o.CmpFunc, o.CmpDate, o.Consts, o.Not = 0, 0, 0, 0, 0, 10
	o.CmpLit, o.CmpField, o.Exists = 40, 25, 25
	o.Ops = []CmpOp{OpEQ, OpEQ, OpNE}
	if r.P(30) {
		// paths that start at a loop's variable, or beside a loop
		o.Loops, o.MaxLoop = 35, 2
	}
	e := newEgen(r, doc, o)
	if r.P(50) {
		return e.expr(r.N(1 + o.Loops/20))
	}
	x := &E{K: []EK{EAnd, EOr}[r.N(2)]}
	n := r.In(2, 6)
	for i := 0; i < n; i++ {
		e.nCond = 0
		x.Sub = append(x.Sub, e.expr(r.N(2)))
	}
	return x
}

func caseExists(c *Case) {
	// every location of a document exists, as does no path that is not one;
	// all asked at once as separate expressions and singly
	r := c.R
	doc := pathDoc(r)
	var locs []loc
	collectLocs(doc, nil, &locs)
	var paths [][]string
	for i := 0; i < 8; i++ {
		if len(locs) > 0 && r.P(65) {
			paths = append(paths, locs[r.N(len(locs))].path)
		} else {
			p := []string{genKey(r)}
			if len(locs) > 0 {
				b := locs[r.N(len(locs))].path
				p = append([]string(nil), b...)
				switch r.N(4) {
				case 0:
					p = append(p, genKey(r))
				case 1:
					p[len(p)-1] = genKey(r)
				case 2:
					p = append(p, "["+strconv.Itoa(r.N(5))+"]")
				case 3:
					p[r.N(len(p))] = genKey(r)
				}
			}
			paths = append(paths, p)
		}
	}
	var xs []*E
	for _, p := range paths {
		if r.P(30) {
			xs = append(xs, NotExists(Fld(p...)))
		} else {
			xs = append(xs, Exists(Fld(p...)))
		}
	}
	m, err := compile(xs...)
	if err != nil {
		c.Fail("compile", "%v", err)
		return
	}
	for n := 0; n < 4; n++ {
		d := doc
		if n > 0 {
			d = mutate(r, doc, 25)
		}
		txt := docText(d, fullStyle(r))
		m.Reset()
		got := run(m, []byte(txt))
		if got.Err != "" {
			c.Fail("error", "%v on %s", got, txt)
			return
		}
		for i, x := range xs {
			want, _ := EvalDoc(x, d)
			if v := d.path(paths[i]); v != nil {
				c.Count("exists:" + v.K.String())
			} else {
				c.Count("exists:missing")
			}
			c.Eval(1)
			c.Count(fmt.Sprintf("verdict:%v", want))
			c.Nontrivial(x.String() + txt)
			if m.ExpressionMatched(i) != want {
				c.Fail("exists", "%s reported %v\n  document: %s\n  together with %v", x, !want, txt, xs)
				return
			}
		}
		i := r.N(len(xs))
		s, _ := compile(xs[i])
		want, _ := EvalDoc(xs[i], d)
		o := run(s, []byte(txt))
		c.Eval(1)
		if o.Err != "" || o.Match != want {
			c.Fail("exists", "%s alone: %v, want %v\n  document: %s", xs[i], o, want, txt)
			return
		}
	}
}

// ---------------- C04 ----------------

func cmpVal(r *Rng) *J {
	if r.P(6) {
		if r.P(50) {
			return genArr(r, r.In(1, 2), defaultGen)
		}
		return genObj(r, r.In(1, 2), defaultGen)
	}
	if r.P(10) {
		return JStr([]string{"5", "0", "-3", "10", "1", "true", "false", "2019-01-01", "9", "1.5"}[r.N(10)])
	}
	return genScalar(r)
}

func cmpDoc(r *Rng) *J {
	a := cmpVal(r)
	b := cmpVal(r)
	if r.P(50) || a.K == KArr || a.K == KObj {
		b = near(r, a)
	}
	return JObj(Member{"a", a}, Member{"b", b})
}

func cmpExpr(r *Rng, d *J) *E {
	op := CmpOp(r.N(6))
	e := &egen{r: r, o: stdExpr()}
	f := Fld("a")
	v := d.get("a")
	if r.P(30) || (v.K == KArr || v.K == KObj) && r.P(70) {
		g := Fld("b")
		if r.P(4) {
			return Cmp(f, op, f)
		}
		if r.P(50) {
			f, g = g, f
		}
		return Cmp(f, op, g)
	}
	l := Lit(e.litFor(v))
	if r.P(30) {
		return Cmp(l, op, f)
	}
	return Cmp(f, op, l)
}

// ---------------- C05 ----------------

func genNum(r *Rng) *J {
	switch r.W(35, 10, 25, 30) {
	case 0:
		return JInt(genInt(r))
	case 1:
		u := r.U64()
		switch r.N(4) {
		case 0:
			u |= 1 << 63
		case 1:
			u = math.MaxUint64 - uint64(r.N(3))
		case 2:
			u = 1<<63 + uint64(r.N(3))
		}
		if u <= math.MaxInt64 {
			return JInt(int64(u))
		}
		return JUint(u)
	case 2:
		return JFloat(genFloat(r))
	}
	// spelled
	var t string
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + r.N(10))
		}
		if b[0] == '0' {
			b[0] = '1'
		}
		return string(b)
	}
	switch r.N(6) {
	case 0:
		t = digits(r.In(1, 22))
	case 1:
		t = digits(r.In(1, 18)) + "." + digits(r.In(1, 22))
	case 2:
		t = "0." + strings.Repeat("0", r.N(8)) + digits(r.In(1, 18))
	case 3:
		t = digits(r.In(1, 3)) + []string{"e", "E"}[r.N(2)] + []string{"", "+", "-"}[r.N(3)] + strconv.Itoa(r.In(0, 30))
	case 4:
		t = digits(1) + "." + digits(r.In(1, 17)) + []string{"e", "E"}[r.N(2)] + []string{"", "+", "-"}[r.N(3)] + strconv.Itoa(r.In(0, 300))
	case 5:
		t = []string{"0", "-0", "0.0", "-0.0", "0e0", "1e0", "1E+0", "10e-1", "1.0", "1.00", "9007199254740993", "9007199254740992.0", "9223372036854775807.0", "1e19", "1e18", "0.30000000000000004", "0.1"}[r.N(17)]
	}
	if r.P(30) && t[0] != '-' {
		t = "-" + t
	}
	return numFromText(t)
}

func numFromText(t string) *J {
	if !strings.ContainsAny(t, ".eE") {
		if i, err := strconv.ParseInt(t, 10, 64); err == nil {
			return &J{K: KInt, I: i, Txt: t}
		}
		if u, err := strconv.ParseUint(t, 10, 64); err == nil {
			return &J{K: KUint, U: u, Txt: t}
		}
	}
	f, err := strconv.ParseFloat(t, 64)
	if err != nil {
		return JInt(7)
	}
	return &J{K: KFloat, F: f, Txt: t}
}

func numNear(r *Rng, j *J) *J {
	switch r.N(5) {
	case 0:
		return j
	case 1:
		if j.Txt != "" && len(j.Txt) > 1 {
			b := []byte(j.Txt)
			i := r.N(len(b))
			if b[i] >= '1' && b[i] <= '8' {
				b[i]++
				return numFromText(string(b))
			}
		}
	case 2:
		// the same value in another representation
		switch j.K {
		case KInt:
			return JFloat(float64(j.I))
		case KUint:
			return JFloat(float64(j.U))
		case KFloat:
			if j.F == math.Trunc(j.F) && math.Abs(j.F) < 9e18 {
				return JInt(int64(j.F))
			}
			return numFromText(strconv.FormatFloat(j.F, 'e', -1, 64))
		}
	}
	n := near(r, j)
	if !n.IsNumeric() {
		return j
	}
	return n
}

func numExpr(r *Rng, d *J) *E {
	op := CmpOp(r.N(6))
	fs := []*Opd{Fld("a"), Fld("b"), Fld("c", "[0]"), Fld("c", "[2]")}
	f := fs[r.W(50, 30, 10, 10)]
	if r.P(35) {
		return Cmp(f, op, fs[r.N(4)])
	}
	v := d.path(f.Path)
	l := numNear(r, v)
	if r.P(15) {
		l = genNum(r)
	}
	l = &J{K: l.K, I: l.I, U: l.U, F: l.F}
	if l.K == KInt && l.I >= 0 && r.P(30) {
		l = JUint(uint64(l.I))
	}
	if r.P(30) {
		return Cmp(Lit(l), op, f)
	}
	return Cmp(f, op, Lit(l))
}

// ---------------- C06 ----------------

func loopDoc(r *Rng) *J {
	d := &J{K: KObj}
	elem := func() *J {
		switch r.N(4) {
		case 0:
			return JInt(int64(r.In(0, 3)))
		case 1:
			return genObj(r, 2, &GenOpts{MaxDepth: 2, ArrPct: 30, ObjPct: 15, Width: 3})
		case 2:
			return genArr(r, 2, &GenOpts{MaxDepth: 2, ArrPct: 30, ObjPct: 20, Width: 3})
		}
		return genScalar(r)
	}
	for _, k := range []string{"list", "a", "b", "x", "sub"} {
		switch r.W(40, 20, 20, 20) {
		case 0:
			n := r.In(0, 5)
			if r.P(5) {
				n = dictSize(r, 200)
			}
			arr := &J{K: KArr}
			same := r.P(50)
			proto := elem()
			for i := 0; i < n; i++ {
				if same {
					arr.A = append(arr.A, mutate(r, proto, 35))
				} else {
					arr.A = append(arr.A, elem())
				}
			}
			d.O = append(d.O, Member{k, arr})
		case 1:
			d.O = append(d.O, Member{k, genScalar(r)})
		case 2:
			d.O = append(d.O, Member{k, genObj(r, 3, defaultGen)})
		}
	}
	return d
}

func loopExpr(r *Rng, doc *J) *E {
	o := stdExpr()
	o.Loops, o.CmpField, o.MaxLoop = 60, 20, 3
	o.NoOuter = r.P(50)
	o.Like, o.CmpDate, o.CmpFunc = 1, 0, 3
	if r.P(60) {
		o.CmpFunc, o.Like = 0, 0
	}
	e := newEgen(r, doc, o)
	if r.P(60) {
		return e.loop(r.In(1, 4))
	}
	return e.expr(r.In(1, 4))
}

// caseElements: an ANY/EVERY/ANY-AND-EVERY over an array against the body
// matched on each element alone (as the only element of its array).
func caseElements(c *Case) {
	r := c.R
	arr := genArr(r, 3, &GenOpts{MaxDepth: 3, ArrPct: 25, ObjPct: 30, Width: 4})
	if len(arr.A) > 0 && r.P(60) {
		p := arr.A[0]
		for i := 1; i < len(arr.A); i++ {
			arr.A[i] = mutate(r, p, 35)
		}
	}
	doc := JObj(Member{"list", arr}, Member{"x", genScalar(r)}, Member{"y", genValue(r, 2, nil)})
	o := randOpts(r)
	e := newEgen(r, doc, o)
	sc := varScope{id: 1}
	e.nvar = 1
	if len(arr.A) > 0 {
		sc.self = arr.A[r.N(len(arr.A))]
		for _, el := range arr.A {
			collectLocs(el, nil, &sc.locs)
		}
	}
	e.vars = append(e.vars, sc)
	e.root = nil
	var rl []loc
	collectLocs(doc, nil, &rl)
	for _, l := range rl {
		if l.path[0] != "list" {
			e.root = append(e.root, l)
		}
	}
	body := e.expr(r.In(0, 2))
	bodyOK := true
	walk(body, func(*E) {}, func(o *Opd) {
		if o.K == OField && o.Root == 0 && len(o.Path) > 0 && o.Path[0] == "list" {
			bodyOK = false
		}
	})
	if !bodyOK {
		return
	}
	in := Fld("list")
	var ms []*g.FastMatcher
	kinds := []EK{EAny, EEvery, EAnyEvery}
	for _, k := range kinds {
		m, err := compile(Loop(k, 1, in, body))
		if err != nil {
			c.Fail("compile", "%v\n  %s", err, Loop(k, 1, in, body))
			return
		}
		ms = append(ms, m)
	}
	rest := []Member{doc.O[1], doc.O[2]}
	_, env := EvalDoc(Loop(EAny, 1, in, body), doc)
	if env.Struct {
		return
	}
	any, every := false, true
	for _, el := range arr.A {
		one := &J{K: KObj, O: append([]Member{{"list", JArr(el)}}, rest...)}
		ms[0].Reset()
		g := run(ms[0], []byte(docText(one, fullStyle(r))))
		if g.Err != "" {
			c.Fail("error", "%v", g)
			return
		}
		if g.Match {
			any = true
		} else {
			every = false
		}
	}
	txt := docText(doc, fullStyle(r))
	for i, want := range []bool{any, every, any && every} {
		ms[i].Reset()
		got := run(ms[i], []byte(txt))
		c.Eval(1)
		c.Count(fmt.Sprintf("verdict:%v", want))
		c.Nontrivial(body.String() + txt)
		if got.Err != "" || got.Match != want {
			c.Fail("elements", "got %v, elements one at a time give %v\n  expression: %s\n  document: %s", got, want, Loop(kinds[i], 1, in, body), txt)
			return
		}
	}
}

// ---------------- C07 ----------------

func fnDoc(r *Rng) *J {
	d := &J{K: KObj}
	for _, k := range []string{"a", "b", "c", "x"} {
		switch r.W(40, 27, 8, 13, 6, 6) {
		case 0:
			d.O = append(d.O, Member{k, JInt(genInt(r))})
		case 1:
			d.O = append(d.O, Member{k, JFloat(genFloat(r))})
		case 2:
			d.O = append(d.O, Member{k, genScalar(r)})
		case 3:
			d.O = append(d.O, Member{k, JInt(int64(r.In(-12, 12)))})
		case 4: // beyond the signed range
			d.O = append(d.O, Member{k, JUint(1<<63 | r.U64()>>uint(r.N(60)))})
		case 5:
			d.O = append(d.O, Member{k, JInt(int64(r.In(-1, 1)))})
		}
	}
	if r.P(30) {
		d.O = append(d.O, Member{"list", JArr(JInt(int64(r.In(-5, 5))), JFloat(genFloat(r)), JInt(genInt(r)))})
	}
	return d
}

// genWideInt: integers over the whole range of both integer types, with the
// weight on its corners.
func genWideInt(r *Rng) *J {
	switch r.W(20, 20, 20, 15, 15, 10) {
	case 0:
		return JInt(int64(r.In(-2, 3)))
	case 1:
		return JUint(1<<63 | r.U64()>>uint(r.N(64)))
	case 2:
		return JInt(int64(r.U64() >> uint(1+r.N(63))))
	case 3:
		return JInt(-int64(r.U64() >> uint(1+r.N(63))))
	case 4:
		return JUint(math.MaxUint64 - uint64(r.N(4)))
	}
	return JInt(math.MaxInt64 - int64(r.N(4)))
}

func intDoc(r *Rng) *J {
	d := &J{K: KObj}
	for _, k := range []string{"a", "b", "c"} {
		d.O = append(d.O, Member{k, genWideInt(r)})
	}
	return d
}

func fnExpr(r *Rng, doc *J, o *ExprOpts) *E {
	e := newEgen(r, doc, o)
	f := e.fn(r.In(0, 2))
	env := &Env{Doc: doc, Vars: map[int]*J{}}
	v, _ := f.eval(env)
	var rhs *Opd
	switch r.W(65, 10, 15, 10) {
	case 0:
		if v.IsNumeric() && !math.IsNaN(v.asFloat()) && !math.IsInf(v.asFloat(), 0) {
			l := near(r, v)
			if l.K == KStr || l.K == KNull {
				l = v
			}
			rhs = Lit(l)
		} else {
			rhs = Lit(e.litFor(JInt(int64(r.In(-9, 9)))))
		}
	case 1:
		rhs = Lit(e.litFor(nil))
	case 2:
		rhs = e.num()
	case 3:
		rhs = e.fn(1)
	}
	op := CmpOp(r.N(6))
	x := Cmp(f, op, rhs)
	if r.P(20) {
		x = Cmp(rhs, op, f)
	}
	if r.P(15) {
		x = And(x, Exists(e.num()))
	} else if r.P(10) {
		x = Not(x)
	}
	return x
}

func fnRequire() map[string]int {
	m := map[string]int{"verdict:true": 1000, "verdict:false": 1000}
	for _, f := range append(append([]string{}, unaryFuncs...), binFuncs...) {
		m["fn:"+f] = 50
	}
	return m
}

// ---------------- C08 ----------------

func dateDoc(r *Rng) *J {
	d := &J{K: KObj}
	for _, k := range []string{"a", "b", "c"} {
		if r.P(90) {
			d.O = append(d.O, Member{k, JStr(genTimeStr(r))})
		} else {
			d.O = append(d.O, Member{k, genScalar(r)})
		}
	}
	return d
}

func dateNear(r *Rng, j *J) *J {
	if j.K != KStr || r.P(30) {
		return JStr(genTimeStr(r))
	}
	b := []byte(j.S)
	if r.P(25) {
		// a character more, fewer or other, most often where parts meet
		rs := []rune(j.S)
		at := []int{0, len(rs), len(rs) - 1, r.N(len(rs) + 1), 4, 7, 10, 13, 16, 19}[r.N(10)]
		if at < 0 || at > len(rs) {
			at = len(rs)
		}
		c := ' '
		alphabet := []rune(" \t\n-+:.,TZtz/0123459W_\"'\x00\u00a0\u0660\uff10\u2212")
		if r.P(75) {
			c = alphabet[r.N(len(alphabet))]
		}
		switch r.N(3) {
		case 0:
			rs = append(rs[:at:at], append([]rune{c}, rs[at:]...)...)
		case 1:
			if at < len(rs) {
				rs[at] = c
			}
		case 2:
			if at < len(rs) {
				rs = append(rs[:at:at], rs[at+1:]...)
			}
		}
		return JStr(string(rs))
	}
	for i := 0; i < 5 && len(b) > 0; i++ {
		k := r.N(len(b))
		if b[k] >= '0' && b[k] <= '9' {
			b[k] = byte('0' + r.N(10))
			if r.P(50) {
				break
			}
		}
	}
	if r.P(10) && len(b) > 1 {
		b = b[:len(b)-1]
	}
	if i := strings.IndexByte(j.S, '.'); i > 0 && i+1 < len(j.S) && r.P(50) {
		// the same but for the last digit of the fraction
		b = []byte(j.S)
		for i++; i+1 < len(b) && b[i+1] >= '0' && b[i+1] <= '9'; i++ {
		}
		b[i] = byte('0' + r.N(10))
	}
	return JStr(string(b))
}

func dateExpr(r *Rng, doc *J) *E {
	op := CmpOp(r.N(6))
	f := Fld([]string{"a", "b", "c"}[r.N(3)])
	h := Fld([]string{"a", "b", "c"}[r.N(3)])
	lit := func() *Opd {
		for i := 0; i < 10; i++ {
			if v := doc.path(f.Path); v != nil && v.K == KStr && r.P(60) {
				s := v.S
				if r.P(70) {
					s = dateNear(r, v).S
				}
				if _, ok := parseTimeSpec(s, false); ok {
					return &Opd{K: OTime, Time: s}
				}
			}
		}
		return &Opd{K: OTime, Time: genTimeLit(r)}
	}
	var l, rr *Opd
	switch r.N(5) {
	case 0:
		l, rr = f, lit()
	case 1, 2:
		l, rr = Fn("date", f), lit()
	case 3:
		l, rr = Fn("date", f), Fn("date", h)
	case 4:
		l, rr = Fn("date", f), h
	}
	if r.P(30) {
		l, rr = rr, l
	}
	x := Cmp(l, op, rr)
	if r.P(15) {
		x = Not(x)
	}
	return x
}

// ---------------- C09 ----------------

func strDoc(r *Rng) *J {
	d := &J{K: KObj}
	for _, k := range []string{"a", "b", "name"} {
		if r.P(85) {
			d.O = append(d.O, Member{k, JStr(genStr(r))})
		} else {
			d.O = append(d.O, Member{k, genValue(r, 1, nil)})
		}
	}
	if r.P(40) {
		a := &J{K: KArr}
		for i := r.In(0, 4); i > 0; i-- {
			a.A = append(a.A, JStr(genStr(r)))
		}
		d.O = append(d.O, Member{"list", a})
	}
	return d
}

func regexExpr(r *Rng, doc *J) *E {
	e := newEgen(r, doc, stdExpr())
	if l := doc.get("list"); l != nil && l.K == KArr && r.P(30) {
		var v *J
		if len(l.A) > 0 {
			v = l.A[r.N(len(l.A))]
		}
		return Loop([]EK{EAny, EEvery, EAnyEvery}[r.N(3)], 1, Fld("list"), Like(VarFld(1), e.regexFor(v)))
	}
	f, v := e.field()
	x := Like(f, e.regexFor(v))
	switch r.N(6) {
	case 0:
		return Not(x)
	case 1:
		f, v := e.field()
		return Or(x, Like(f, e.regexFor(v)))
	case 2:
		f, v := e.field()
		return And(x, Like(f, e.regexFor(v)))
	}
	return x
}

// ---------------- C10 ----------------

func caseMerge(c *Case) {
	r := c.R
	doc := genDoc(r)
	o := randOpts(r)
	n := r.In(2, 6)
	if r.P(10) {
		n = dictSize(r, 40)
	}
	e := newEgen(r, doc, o)
	var sw *smallWorld
	if r.P(50) {
		sw = newSmallWorld(r, false)
	}
	var xs []*E
	var ss []string
	for i := 0; i < n; i++ {
		e.nCond = 0
		var x *E
		if sw != nil {
			x = sw.expr(r, r.In(0, 3), []int{0, 20, 50}[r.N(3)])
		} else {
			x = e.expr(r.In(0, 2))
		}
		if r.P(5) {
			x = &E{K: []EK{ETrue, EFalse}[r.N(2)]}
		}
		if i > 0 && r.P(25) { // another which looks alike, or the same once more
			x = confuse(r, xs[r.N(i)])
		}
		xs = append(xs, x)
		ss = append(ss, x.String())
	}
	// some compilations share a transformer, one after another
	one := new(g.Transformer)
	share := r.N(2) * 60
	tr := func() *g.Transformer {
		if r.P(share) {
			c.Count("transformer reused")
			return one
		}
		return new(g.Transformer)
	}
	if r.P(20) {
		compileBy(tr(), xs[r.N(n):]...)
	}
	m, err := compileBy(tr(), xs...)
	if err != nil {
		c.Fail("compile", "%v\n  %s", err, join(ss))
		return
	}
	var ms []*g.FastMatcher
	for _, x := range xs {
		s, err := compileBy(tr(), x)
		if err != nil {
			c.Fail("compile", "%v\n  %s", err, x)
			return
		}
		ms = append(ms, s)
	}
	for k := 0; k < 4; k++ {
		d := doc
		if sw != nil {
			d = sw.doc(r)
		} else if k > 0 {
			d = mutate(r, doc, 20)
		}
		txt := docText(d, fullStyle(r))
		m.Reset()
		got := run(m, []byte(txt))
		if got.Err != "" {
			c.Fail("error", "%v\n  expressions: %s\n  document: %s", got, join(ss), txt)
			return
		}
		any, all := false, true
		for i := range xs {
			ms[i].Reset()
			alone := run(ms[i], []byte(txt))
			if alone.Err != "" {
				c.Fail("error", "%v\n  expression: %s\n  document: %s", alone, ss[i], txt)
				return
			}
			c.Eval(1)
			c.Count(fmt.Sprintf("verdict:%v", alone.Match))
			if a := ms[i].ExpressionMatched(0); a != alone.Match {
				c.Fail("alone", "match %v but expression 0 reported %v\n  expression: %s\n  document: %s", alone.Match, a, ss[i], txt)
				return
			}
			if tg := m.ExpressionMatched(i); tg != alone.Match {
				c.Fail("merge", "expression %d: %v together, %v alone\n  expression: %s\n  all: %s\n  document: %s", i, tg, alone.Match, ss[i], join(ss), txt)
				return
			}
			any = any || alone.Match
			all = all && alone.Match
		}
		if got.Match != any {
			c.Fail("overall", "overall %v, any matched: %v\n  all: %s\n  document: %s", got.Match, any, join(ss), txt)
			return
		}
		if any && !all {
			c.Nontrivial(join(ss) + txt)
			c.Sample(func() string { return join(ss) + " on " + txt })
		}
	}
}

// ---------------- C11 ----------------

func caseHistory(c *Case) {
	r := c.R
	doc := genDoc(r)
	n := 1
	if r.P(30) {
		n = r.In(2, 4)
	}
	o := randOpts(r)
	e := newEgen(r, doc, o)
	var xs []*E
	var ss []string
	for i := 0; i < n; i++ {
		e.nCond = 0
		x := e.expr(r.In(0, 4))
		xs = append(xs, x)
		ss = append(ss, x.String())
	}
	def, err := compileDef(xs...)
	if err != nil {
		c.Fail("compile", "%v\n  %s", err, join(ss))
		return
	}
	// two long-lived matchers share the definition; a fresh definition and
	// matcher is the reference
	ms := []*g.FastMatcher{g.NewFastMatcher(def), g.NewFastMatcher(def)}
	steps := r.In(4, 16)
	var hist []string
	sawErr, sawT, sawF := false, false, false
	for k := 0; k < steps; k++ {
		var txt string
		switch r.W(70, 10, 10, 5, 5) {
		case 0:
			txt = docText(mutate(r, doc, 25), fullStyle(r))
		case 1:
			txt = corrupt(r, docText(mutate(r, doc, 10), fullStyle(r)))
		case 2:
			t := docText(doc, nil)
			txt = t[:r.N(len(t)+1)]
		case 3:
			txt = docText(genDoc(r), fullStyle(r))
		case 4:
			txt = []string{"", "{}", "[]", "null", "5", "\"x\"", "{\"a\":", "  "}[r.N(8)]
		}
		hist = append(hist, txt)
		def2, _ := compileDef(xs...)
		fresh := g.NewFastMatcher(def2)
		want := run(fresh, []byte(txt))
		m := ms[r.N(2)]
		if r.P(50) {
			m.Reset()
		} else {
			m.Reset()
			m.Reset()
		}
		got := run(m, []byte(txt))
		c.Eval(1)
		if want.Err != "" {
			sawErr = true
		} else if want.Match {
			sawT = true
		} else {
			sawF = true
		}
		if got != want {
			c.Fail("history", "reused matcher: %v, fresh matcher: %v\n  expressions: %s\n  document: %s\n  earlier: %s", got, want, join(ss), txt, clip(join(hist), 3000))
			return
		}
		if want.Err == "" {
			for i := range xs {
				if m.ExpressionMatched(i) != fresh.ExpressionMatched(i) {
					c.Fail("history", "reused matcher: expression %d %v, fresh %v\n  expressions: %s\n  document: %s", i, m.ExpressionMatched(i), fresh.ExpressionMatched(i), join(ss), txt)
					return
				}
			}
		}
	}
	if sawErr {
		c.Count("histories with an error")
	}
	if sawT && sawF {
		c.Count("histories with both verdicts")
	}
	if sawErr || sawT && sawF {
		c.Nontrivial(join(ss) + join(hist))
		c.Sample(func() string { return join(ss) + " over " + join(hist) })
	}
}
