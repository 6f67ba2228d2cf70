package main

import (
	"math"

	g "github.com/couchbaselabs/gojsonsm"
)

// The functions and the arithmetic of the text languages, on numbers of every
// magnitude and compared with values close to the true result, so that the
// operation that was meant decides the verdict.

// numbersDoc: numbers only, with the weight on the corners of their ranges.
func numbersDoc(r *Rng) *J {
	d := &J{K: KObj}
	wide := r.P(60)
	for _, k := range []string{"a", "b", "c", "x"} {
		d.O = append(d.O, Member{k, genNumber(r, wide)})
	}
	if r.P(25) {
		d.O = append(d.O, Member{"obj", JObj(Member{"n", genNumber(r, wide)})})
	}
	if r.P(25) {
		d.O = append(d.O, Member{"list", JArr(genNumber(r, wide), genNumber(r, wide))})
	}
	return d
}

func genNumber(r *Rng, wide bool) *J {
	if !wide {
		switch r.W(45, 35, 20) {
		case 0:
			return JInt(int64(r.In(-12, 12)))
		case 1:
			return JFloat(float64(r.In(-48, 48)) / 8)
		}
		return JFloat(genFloat(r))
	}
	switch r.W(25, 25, 20, 15, 15) {
	case 0:
		return genWideInt(r)
	case 1: // around the powers of two, and what squares to around them
		v := int64(1)<<uint(r.N(63)) + int64(r.In(-1, 1))
		if r.P(40) {
			v = int64(math.Sqrt(float64(v))) + int64(r.In(-1, 1))
		}
		if r.P(40) {
			v = -v
		}
		return JInt(v)
	case 2:
		return JFloat(math.Ldexp(1+float64(r.N(1<<20))/(1<<20), r.In(-40, 80)))
	case 3:
		return JFloat(-math.Ldexp(1+float64(r.N(1<<20))/(1<<20), r.In(-40, 80)))
	}
	return JInt(int64(r.In(-12, 12)))
}

func numbersNext(r *Rng, d *J) *J {
	n := &J{K: KObj}
	for _, m := range d.O {
		v := m.V
		switch {
		case r.P(3):
			continue
		case r.P(4):
			v = genScalar(r)
		case r.P(50):
			v = mapNumbers(v, func(j *J) *J {
				if r.P(50) {
					return genNumber(r, r.P(40))
				}
				return numNear(r, j)
			})
		}
		n.O = append(n.O, Member{m.K, v})
	}
	return n
}

func mapNumbers(j *J, f func(*J) *J) *J {
	switch j.K {
	case KInt, KUint, KFloat:
		return f(j)
	case KArr:
		n := &J{K: KArr}
		for _, e := range j.A {
			n.A = append(n.A, mapNumbers(e, f))
		}
		return n
	case KObj:
		n := &J{K: KObj}
		for _, m := range j.O {
			n.O = append(n.O, Member{m.K, mapNumbers(m.V, f)})
		}
		return n
	}
	return j
}

// result: a literal close to what an operand evaluates to, or one that tells
// signs or magnitudes apart.
func result(r *Rng, o *Opd, doc *J) *J {
	env := &Env{Doc: doc, Vars: map[int]*J{}}
	v, _ := o.eval(env)
	if !v.IsNumeric() || math.IsNaN(v.asFloat()) || math.IsInf(v.asFloat(), 0) || r.P(12) {
		return JInt(int64(r.In(-1, 1)))
	}
	switch r.W(40, 30, 30) {
	case 0:
		if l := near(r, v); l.IsNumeric() {
			return l
		}
	case 1: // a step of a few digits' precision
		f := v.asFloat()
		return JFloat(f + f*float64(r.In(-2, 2))*1e-3)
	}
	switch v.K {
	case KUint:
		return JFloat(float64(v.U))
	case KFloat:
		return JFloat(v.F)
	}
	return JInt(v.I)
}

// caseText: one comparison, spelled by gen, against many documents.
func caseText(c *Case, what string, get func(string) (*g.FastMatcher, error), gen func(doc *J) (string, *E, map[string]int)) {
	r := c.R
	doc := numbersDoc(r)
	t, x, use := gen(doc)
	if x == nil {
		c.Count("skipped")
		return
	}
	for k, n := range use {
		c.Add("use:"+k, n)
	}
	m, err := get(t)
	if err != nil {
		c.Eval(1)
		c.Fail("rejected "+clip(err.Error(), 40), "%v\n  %s: %s\n  meaning: %s", err, what, t, x)
		return
	}
	for k := 0; k < 8; k++ {
		d := doc
		if k > 0 {
			d = numbersNext(r, doc)
		}
		diffOne(c, &diffOpts{}, m, x, t+"   meaning "+x.String(), d)
	}
}

// simpleFn: a function or one operation of a field and a constant
func (f *fgen) simpleFn() (string, *Opd) {
	r := f.r
	at, ao, _ := f.numField()
	if r.P(25) {
		bt, bl := f.number(plainNumber(r))
		k := r.N(5)
		return at + " " + fArith[k].t + " " + bt, Fn(mName(k), ao, Lit(bl))
	}
	if r.P(50) {
		k := r.N(len(fFuncs))
		return fFuncs[k].t + "(" + at + ")", Fn(fFuncs[k].fn, ao)
	}
	name, fn := "POW", "mathPow"
	if r.P(30) {
		name, fn = "ATAN2", "mathAtan2"
	}
	bt, bl := f.number(plainNumber(r))
	bo := Lit(bl)
	if r.P(25) {
		at, ao, bt, bo = bt, bo, at, ao
	}
	return name + "(" + at + ", " + bt + ")", Fn(fn, ao, bo)
}

func caseFilterNumbers(c *Case) {
	r := c.R
	caseText(c, "filter", func(t string) (*g.FastMatcher, error) { return filterMatcher(r, t) }, func(doc *J) (string, *E, map[string]int) {
		f := newFgen(r, doc)
		f.lits = 20
		for i := 0; i < 20; i++ {
			var t string
			var o *Opd
			if r.P(35) {
				t, o = f.simpleFn()
			} else if r.P(55) {
				t, o = f.fn(r.In(0, 2))
			} else {
				t, o = f.fieldWMath(false)
			}
			if !o.hasField() {
				continue
			}
			op, k := f.cmpOp()
			if r.P(50) {
				k = OpLT + CmpOp(r.N(2))*(OpGT-OpLT)
				op = k.String()
			}
			l := result(r, o, doc)
			lt, ok := f.numText(l)
			if !ok {
				continue
			}
			t, x := f.glue(t, op, lt), Cmp(o, k, Lit(l))
			if r.P(15) {
				t, x = "NOT "+t, Not(x)
			}
			return t, x, f.use
		}
		return "", nil, nil
	})
}

func caseSimpleNumbers(c *Case) {
	r := c.R
	caseText(c, "simple expression", simpleMatcher, func(doc *J) (string, *E, map[string]int) {
		f := newSgen(r, doc)
		f.lits = 20
		for i := 0; i < 20; i++ {
			t, o := f.fn(r.W(50, 25, 25))
			if !o.hasField() {
				continue
			}
			op, k := f.cmpOp()
			if r.P(50) {
				k = OpLT + CmpOp(r.N(2))*(OpGT-OpLT)
				op = k.String()
			}
			l := result(r, o, doc)
			lt, ok := f.numText(l)
			if !ok {
				continue
			}
			return t + " " + op + " " + lt, Cmp(o, k, Lit(l)), f.use
		}
		return "", nil, nil
	})
}

func caseJSONNumbers(c *Case) {
	r := c.R
	caseText(c, "JSON expression", jsonMatcher, func(doc *J) (string, *E, map[string]int) {
		e := newEgen(r, doc, randOpts(r))
		o := e.fn(r.In(0, 2))
		x := Cmp(o, e.op(), Lit(result(r, o, doc))).floatLits()
		use := map[string]int{}
		walk(x, func(*E) {}, func(o *Opd) {
			if o.K == OFunc {
				use["fn:"+o.Fn]++
			}
		})
		return jsonText(r, x.asJSON()), x, use
	})
}
