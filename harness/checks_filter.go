package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode"

	g "github.com/couchbaselabs/gojsonsm"
)

// Filter language: a text and its meaning are generated side by side, by the
// documented grammar.

type fgen struct {
	r    *Rng
	e    *egen
	n    int
	lits int // more literals as arguments
	use  map[string]int
	bad  *poison
}

var fKeywords = map[string]bool{"NOT": true, "TRUE": true, "true": true, "FALSE": true, "false": true, "AND": true, "OR": true, "IS": true, "EXISTS": true,
	"NULL": true, "MISSING": true, "META": true, "REGEXP_CONTAINS": true}

func isIdent(s string) bool {
	for i, c := range s {
		if !(c == '_' || unicode.IsLetter(c) || unicode.IsDigit(c) && i > 0) {
			return false
		}
	}
	return s != "" && !fKeywords[s]
}

const fPunct = "-+*/%()[].,"

func rawOK(s string) bool {
	if len(s) == 1 && strings.Contains(fPunct, s) {
		return false
	}
	for _, c := range s {
		if c == '`' || c == 0 || c == '\r' || c == 0xfffd || c == 0xfeff {
			return false
		}
	}
	return true
}

func isIndex(s string) bool {
	if len(s) < 3 || s[0] != '[' || s[len(s)-1] != ']' {
		return false
	}
	for _, c := range s[1 : len(s)-1] {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

func (f *fgen) mark(s string) { f.use[s]++ }

// ws: optional white space
func (f *fgen) ws() string {
	switch f.r.W(55, 35, 10) {
	case 0:
		return ""
	case 1:
		return " "
	}
	return f.r.Pick([]string{"  ", "\t", "\n", " \t ", "\r\n"})
}

// sp: needed white space
func (f *fgen) sp() string {
	if f.r.P(85) {
		return " "
	}
	return f.r.Pick([]string{"  ", "\t", "\n", " \n "})
}

func (f *fgen) pathText(p []string) (string, bool) {
	var sb strings.Builder
	for i, k := range p {
		if i > 0 && isIndex(k) && strconv.Itoa(atoi(k[1:len(k)-1])) == k[1:len(k)-1] {
			sb.WriteString("[" + k[1:len(k)-1] + "]")
			f.mark("index")
			continue
		}
		if i > 0 {
			sb.WriteByte('.')
		}
		switch {
		case k == "META()" && f.r.P(80):
			sb.WriteString("META()")
			f.mark("META")
		case isIdent(k) && f.r.P(85):
			sb.WriteString(k)
		case len(k) == 1 && (k[0] >= 'a' && k[0] <= 'z' || k[0] == ' ' || k[0] >= '0' && k[0] <= '9') && f.r.P(30):
			sb.WriteString("'" + k + "'")
			f.mark("char")
		case rawOK(k):
			sb.WriteString("`" + k + "`")
			f.mark("backquoted")
		default:
			return "", false
		}
	}
	return sb.String(), true
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// field: a path without leading minus
func (f *fgen) field() (string, *Opd, *J) {
	for i := 0; i < 50; i++ {
		o, v := f.e.okField()
		if len(o.Path) == 0 || isIndex(o.Path[0]) {
			continue
		}
		if t, ok := f.pathText(o.Path); ok {
			if b, bad := f.bad.spoil("field", 8, badField(t)); bad {
				return b, o, v
			}
			return t, o, v
		}
	}
	return "a", Fld("a"), nil
}

func (f *fgen) numField() (string, *Opd, *J) {
	t, o, v := f.field()
	for i := 0; i < 6 && (v == nil || !v.IsNumeric()); i++ {
		t, o, v = f.field()
	}
	return t, o, v
}

// negField: a field, now and then negated
func (f *fgen) negField() (string, *Opd) {
	t, o, _ := f.numField()
	if f.r.P(18) {
		f.mark("negated field")
		return f.minus(true) + t, Fn("mathNegate", o)
	}
	return f.minus(false) + t, o
}

// minus: leading minus signs, two of which cancel each other (the parser's
// lookahead allows no more of them everywhere)
func (f *fgen) minus(neg bool) string {
	if neg {
		return "-" + f.maybe(15, " ")
	}
	if f.r.P(4) {
		f.mark("two minus signs")
		return "-" + f.maybe(15, " ") + "-" + f.maybe(15, " ")
	}
	return ""
}

func (f *fgen) maybe(p int, s string) string {
	if f.r.P(p) {
		return s
	}
	return ""
}

// plainNumber: the constants that formulas are full of, which are also those
// that tempt an implementation to take a short cut.
func plainNumber(r *Rng) *J {
	if r.P(50) {
		return JInt(int64(r.In(-9, 9)))
	}
	return []*J{JInt(0), JInt(1), JInt(-1), JInt(2), JInt(2), JInt(3), JInt(4), JInt(10), JInt(16), JInt(100), JFloat(0.5), JFloat(1.5), JFloat(2), JFloat(-0.5), JFloat(0.25)}[r.N(15)]
}

// number: text and value
func (f *fgen) number(near *J) (string, *J) {
	for {
		var l *J
		if near != nil && near.IsNumeric() {
			if l = near; f.r.P(60) {
				l = f.e.litFor(near)
			}
		} else {
			l = f.e.litFor(JInt(int64(f.r.In(-9, 9))))
		}
		if t, ok := f.numText(l); ok {
			if b, bad := f.bad.spoil("number", 25, wrongNumbers); bad {
				return b, l
			}
			return t, l
		}
	}
}

func (f *fgen) numText(l *J) (string, bool) {
	switch l.K {
	case KInt:
		if l.I == math.MinInt64 {
			return "", false
		}
		if l.I < 0 {
			f.mark("negative")
			return f.minus(true) + strconv.FormatInt(-l.I, 10), true
		}
		return f.minus(false) + strconv.FormatInt(l.I, 10), true
	case KFloat:
		if math.IsNaN(l.F) || math.IsInf(l.F, 0) {
			return "", false
		}
		a, neg := l.F, ""
		if a < 0 {
			a, neg = -a, f.minus(true)
		} else {
			neg = f.minus(false)
		}
		t := ""
		switch f.r.N(3) {
		case 0:
			t = strconv.FormatFloat(a, 'e', -1, 64)
		case 1:
			t = strconv.FormatFloat(a, 'g', -1, 64)
		default:
			t = strconv.FormatFloat(a, 'f', -1, 64)
		}
		if !strings.ContainsAny(t, ".e") {
			t += f.r.Pick([]string{".0", ".", ".00", "e0", "E0"})
		}
		f.mark("float")
		return neg + t, true
	}
	return "", false
}

func (f *fgen) strText(s string) (string, bool) {
	if len(s) == 1 && strings.Contains(fPunct, s) {
		return "", false
	}
	if fKeywords[s] || s == "TRUE" || s == "FALSE" || s == "true" || s == "false" {
		return "", false
	}
	for _, c := range s {
		if c == 0xfffd || c == 0xfeff {
			return "", false
		}
	}
	if f.r.P(10) && len(s) >= 2 && len(s) < 40 {
		ok := true
		for i := 0; i < len(s); i++ {
			if !(s[i] >= 'a' && s[i] <= 'z' || s[i] >= '0' && s[i] <= '9' || s[i] == ' ') {
				ok = false
			}
		}
		if ok {
			f.mark("single quoted")
			return "'" + s + "'", true
		}
	}
	if f.r.P(30) {
		return strconv.QuoteToASCII(s), true
	}
	return strconv.Quote(s), true
}

// value: a literal for a field with value v
func (f *fgen) value(v *J) (string, *Opd) {
	for i := 0; i < 60; i++ {
		l := f.e.litFor(v)
		switch l.K {
		case KInt, KFloat:
			if t, ok := f.numText(l); ok {
				return t, Lit(l)
			}
		case KStr:
			if t, ok := f.strText(l.S); ok {
				f.mark("string")
				return t, Lit(l)
			}
		}
	}
	return "1", Lit(JInt(1))
}

var fArith = []struct{ t string }{{"+"}, {"-"}, {"*"}, {"/"}, {"%"}}

// fieldWMath: number op field | field { op (number | field) }
func (f *fgen) fieldWMath(startField bool) (string, *Opd) {
	r := f.r
	if !startField && r.P(20) {
		t, l := f.number(JInt(int64(r.In(-9, 9))))
		k := r.N(5)
		ft, fo := f.negField()
		f.mark("number op field")
		return t + f.sp() + fArith[k].t + f.sp() + ft, Fn(mName(k), Lit(l), fo)
	}
	t, o := f.negField()
	n := r.W(40, 40, 15, 8, 5)
	if n == 0 {
		return t, o
	}
	f.mark(fmt.Sprintf("chain of %d", n))
	// terms of a sum, each a product
	type term struct {
		op int
		o  *Opd
	}
	sum := []term{{0, o}}
	for i := 0; i < n; i++ {
		k := r.N(5)
		var ot string
		var oo *Opd
		if r.P(60) {
			var l *J
			ot, l = f.number(plainNumber(r))
			oo = Lit(l)
		} else {
			ot, oo = f.negField()
		}
		t += f.sp() + fArith[k].t + f.sp() + ot
		if k < 2 {
			sum = append(sum, term{k, oo})
		} else {
			l := &sum[len(sum)-1]
			l.o = Fn(mName(k), l.o, oo)
		}
	}
	res := sum[0].o
	for _, s := range sum[1:] {
		res = Fn(mName(s.op), res, s.o)
	}
	return t, res
}

func mName(k int) string {
	return []string{"mathAdd", "mathSubract", "mathMultiply", "mathDivide", "mathModulo"}[k]
}

var fFuncs = []struct{ t, fn string }{{"ABS", "mathAbs"}, {"ACOS", "mathAcos"}, {"ASIN", "mathAsin"}, {"ATAN", "mathAtan"}, {"CEIL", "mathCeil"}, {"COS", "mathCos"},
	{"DEGREES", "mathDegrees"}, {"EXP", "mathExp"}, {"FLOOR", "mathFloor"}, {"LOG", "mathLog"}, {"LN", "mathLn"}, {"SIN", "mathSin"}, {"TAN", "mathTan"},
	{"RADIANS", "mathRadians"}, {"ROUND", "mathRound"}, {"SQRT", "mathSqrt"}}

func (f *fgen) arg(depth int) (string, *Opd) {
	r := f.r
	switch {
	case depth > 0 && r.P(20):
		return f.fn(depth - 1)
	case r.P(15 + f.lits):
		t, l := f.number(plainNumber(r))
		return t, Lit(l)
	}
	return f.fieldWMath(false)
}

func (f *fgen) fn(depth int) (string, *Opd) {
	r := f.r
	if b, bad := f.bad.spoil("function", 25, badFuncs("a")); bad {
		return b, Fn("mathAbs", Fld("a"))
	}
	var t string
	var o *Opd
	switch r.W(70, 20+f.lits, 6) {
	case 0:
		k := r.N(len(fFuncs))
		at, ao := f.arg(depth)
		t, o = fFuncs[k].t+f.maybe(5, " ")+"("+f.ws()+at+f.ws()+")", Fn(fFuncs[k].fn, ao)
		f.mark("fn:" + fFuncs[k].t)
	case 1:
		name, fn := "POW", "mathPow"
		if r.P(40) {
			name, fn = "ATAN2", "mathAtan2"
		}
		at, ao := f.arg(depth)
		bt, bo := f.arg(depth)
		t, o = name+"("+f.ws()+at+f.ws()+","+f.ws()+bt+f.ws()+")", Fn(fn, ao, bo)
		f.mark("fn:" + name)
	default:
		if r.P(50) {
			t, o = "PI()", Lit(JFloat(math.Pi))
		} else {
			t, o = "E()", Lit(JFloat(math.E))
		}
		f.mark("fn:constant")
	}
	if r.P(12) {
		f.mark("negated function")
		return f.minus(true) + t, Fn("mathNegate", o)
	}
	return t, o
}

func (f *fgen) cmpOp() (string, CmpOp) {
	k := f.e.op()
	switch k {
	case OpEQ:
		return f.r.Pick([]string{"=", "=="}), k
	case OpNE:
		return f.r.Pick([]string{"!=", "<>"}), k
	}
	return k.String(), k
}

func (f *fgen) glue(a, op, b string) string {
	if f.r.P(70) {
		return a + " " + op + " " + b
	}
	return a + f.ws() + op + f.ws() + b
}

// cond: one condition
func (f *fgen) cond() (string, *E) {
	r := f.r
	f.n++
	switch r.W(35, 10, 14, 14, 8, 10, 8, 8, 4) {
	case 0: // field with literal
		ft, fo, v := f.field()
		if v != nil && v.IsBool() && r.P(60) {
			t, b := f.boolText()
			op, k := f.cmpOp()
			return f.glue(ft, op, t), Cmp(fo, k, Lit(JBool(b)))
		}
		vt, vo := f.value(v)
		op, k := f.cmpOp()
		if r.P(20) {
			f.mark("literal first")
			return f.glue(vt, op, ft), Cmp(vo, k, fo)
		}
		return f.glue(ft, op, vt), Cmp(fo, k, vo)
	case 1: // field with field
		a, ao, _ := f.field()
		b, bo, _ := f.field()
		op, k := f.cmpOp()
		return f.glue(a, op, b), Cmp(ao, k, bo)
	case 2: // arithmetic
		a, ao := f.fieldWMath(false)
		op, k := f.cmpOp()
		if r.P(30) {
			b, bo := f.fieldWMath(true)
			return f.glue(a, op, b), Cmp(ao, k, bo)
		}
		b, l := f.number(f.e.closeTo(ao, f.mark))
		return f.glue(a, op, b), Cmp(ao, k, Lit(l))
	case 3: // function
		a, ao := f.fn(2)
		op, k := f.cmpOp()
		if !ao.hasField() || r.P(30) {
			var b string
			var bo *Opd
			if r.P(30) {
				b, bo = f.fn(1)
				if !bo.hasField() {
					b, bo = f.fieldWMath(true)
				}
			} else {
				b, bo = f.fieldWMath(true)
			}
			if r.P(50) && ao.hasField() {
				return f.glue(a, op, b), Cmp(ao, k, bo)
			}
			return f.glue(a, op, b), Cmp(ao, k, bo)
		}
		b, l := f.number(f.e.closeTo(ao, f.mark))
		return f.glue(a, op, b), Cmp(ao, k, Lit(l))
	case 4: // dates
		a, ao, _ := f.field()
		at, aO := "DATE("+a+")", Fn("date", ao)
		op, k := f.cmpOp()
		f.mark("DATE")
		var bt string
		var bo *Opd
		if r.P(75) {
			s := genTimeLit(r)
			if b, bad := f.bad.spoil("date", 40, badDates(r)); bad {
				s = b
			}
			bt, bo = "DATE("+strconv.Quote(s)+")", Fn("date", Lit(JStr(s)))
		} else {
			b, o, _ := f.field()
			bt, bo = "DATE("+b+")", Fn("date", o)
		}
		if r.P(25) {
			return f.glue(bt, op, at), Cmp(bo, k, aO)
		}
		return f.glue(at, op, bt), Cmp(aO, k, bo)
	case 5: // IS [NOT] NULL | MISSING
		a, ao, _ := f.field()
		f.mark("IS")
		n := 4
		if r.P(15) {
			if a, ao = f.fieldWMath(false); r.P(50) {
				a, ao = f.fn(1)
			}
			n = 2
			if ao.K != OField {
				f.mark("IS of a function")
			}
		}
		switch r.N(n) {
		case 0:
			return a + f.sp() + "IS" + f.sp() + "NULL", Cmp(ao, OpEQ, Lit(JNull()))
		case 1:
			return a + f.sp() + "IS" + f.sp() + "NOT" + f.sp() + "NULL", Not(Cmp(ao, OpEQ, Lit(JNull())))
		case 2:
			return a + f.sp() + "IS" + f.sp() + "MISSING", NotExists(ao)
		}
		return a + f.sp() + "IS" + f.sp() + "NOT" + f.sp() + "MISSING", Exists(ao)
	case 6:
		a, ao, _ := f.field()
		f.mark("EXISTS")
		return "EXISTS" + f.maybe(20, " ") + "(" + f.ws() + a + f.ws() + ")", Exists(ao)
	case 7:
		a, ao, v := f.field()
		if r.P(8) {
			if a, ao = f.fieldWMath(false); r.P(40) {
				a, ao = f.fn(1)
			}
			if s := JStr(r.Pick([]string{"abc", "hello", "5", "xax", "ab b"})); r.P(40) {
				a, ao, v = strconv.Quote(s.S), Lit(s), s
			}
		}
		for i := 0; i < 30; i++ {
			re := f.e.regexFor(v)
			if strings.Contains(re, "(?") && !strings.Contains(re, "(?i)") {
				continue
			}
			if _, err := regexp.Compile(re); err != nil {
				continue
			}
			t, ok := f.strText(re)
			if !ok || t[0] == '\'' {
				continue
			}
			if b, bad := f.bad.spoil("regex", 40, badRegexes); bad {
				t = strconv.Quote(b)
			}
			f.mark("REGEXP_CONTAINS")
			return "REGEXP_CONTAINS(" + f.ws() + a + f.ws() + "," + f.ws() + t + f.ws() + ")", Like(ao, re)
		}
	}
	t, b := f.boolText()
	x := &E{K: EFalse}
	if b {
		x.K = ETrue
	}
	f.mark("constant")
	return t, x
}

func (f *fgen) boolText() (string, bool) {
	k := f.r.N(4)
	return []string{"TRUE", "true", "FALSE", "false"}[k], k < 2
}

func (f *fgen) term(depth int) (string, *E) {
	r := f.r
	if depth > 0 && f.n < 25 && r.P(30) {
		t, x := f.or(depth - 1)
		f.mark("parentheses")
		return "(" + f.ws() + t + f.ws() + ")", x
	}
	t, x := f.cond()
	for r.P(15) {
		t, x = "NOT"+f.sp()+t, Not(x)
		f.mark("NOT")
	}
	return t, x
}

func (f *fgen) and(depth int) (string, *E) {
	n := f.r.W(55, 30, 15)
	if f.n > 25 {
		n = 0
	}
	t, x := f.term(depth)
	if n == 0 {
		return t, x
	}
	f.mark("AND")
	a := And(x)
	for i := 0; i < n; i++ {
		t2, x2 := f.term(depth)
		t += f.sp() + "AND" + f.sp() + t2
		a.Sub = append(a.Sub, x2)
	}
	return t, a
}

func (f *fgen) or(depth int) (string, *E) {
	n := f.r.W(60, 28, 12)
	if f.n > 25 {
		n = 0
	}
	if f.r.P(1) {
		n = dictSize(f.r, 30)
	}
	t, x := f.and(depth)
	if n == 0 {
		return t, x
	}
	f.mark("OR")
	o := Or(x)
	for i := 0; i < n; i++ {
		t2, x2 := f.and(depth)
		t += f.sp() + "OR" + f.sp() + t2
		o.Sub = append(o.Sub, x2)
	}
	return t, o
}

func newFgen(r *Rng, doc *J) *fgen {
	o := stdExpr()
	o.UintLits = false
	return &fgen{r: r, e: newEgen(r, doc, o), use: map[string]int{}}
}

func filterDoc(r *Rng) *J {
	d := genDoc(r)
	if r.P(15) && d.get("META()") == nil {
		d.O = append(d.O, Member{"META()", genObj(r, 2, defaultGen)})
	}
	if r.P(10) {
		for _, k := range []string{"true", "FALSE", "PI", "E", "ABS", "IS", "OR", "NOT", "date", "DATE"} {
			if r.P(20) && d.get(k) == nil {
				d.O = append(d.O, Member{k, genScalar(r)})
			}
		}
	}
	if r.P(30) {
		for _, k := range []string{"when", "day"} {
			if d.get(k) == nil {
				d.O = append(d.O, Member{k, JStr(genTimeStr(r))})
			}
		}
	}
	return d
}

// filterMatcher goes from the text to a matcher, by one of the public ways.
func filterMatcher(r *Rng, t string) (m *g.FastMatcher, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("PANIC %v", e)
		}
	}()
	if r.P(50) {
		x, err := g.GetFilterExpressionMatcher(t)
		if err != nil {
			return nil, err
		}
		return x.(*g.FastMatcher), nil
	}
	_, fe, err := g.NewFilterExpressionParser(t)
	if err != nil {
		return nil, err
	}
	// Neither printing nor an earlier output changes what was parsed
	for r.P(40) {
		if r.P(50) {
			_ = fe.String()
		} else if _, err := fe.OutputExpression(); err != nil {
			return nil, err
		}
	}
	e, err := fe.OutputExpression()
	if err != nil {
		return nil, err
	}
	if r.P(20) {
		_ = e.String()
	}
	var tr g.Transformer
	return g.NewFastMatcher(tr.Transform([]g.Expression{e})), nil
}

func caseFilter(c *Case) {
	r := c.R
	doc := filterDoc(r)
	f := newFgen(r, doc)
	t, x := f.or(r.In(0, 3))
	t = f.ws() + t + f.ws()
	for k, n := range f.use {
		c.Add("use:"+k, n)
	}
	m, err := filterMatcher(r, t)
	if err != nil {
		c.Eval(1)
		c.Fail("rejected", "%v\n  text: %s\n  meaning: %s", err, t, x)
		return
	}
	o := &diffOpts{}
	for k := 0; k < 6; k++ {
		d := doc
		if k > 0 {
			d = mutate(r, doc, 18)
		}
		diffOne(c, o, m, x, t+"   meaning "+x.String(), d)
	}
}

// ---- robustness of the text parsers ----

var soupTokens = []string{"AND", "OR", "NOT", "(", ")", "(", ")", "=", "==", "<>", "!=", "<", "<=", ">", ">=", "IS", "NULL", "MISSING", "EXISTS", "TRUE", "false", "a", "b", "`a b`", "'c'",
	"x.y", "x[0]", "[0]", "[", "]", ".", ",", "-", "+", "*", "/", "%", "5", "-3", "2.5", "1e3", "\"s\"", "\"\"", "\"a", "'", "`", "ABS", "ABS(", "POW(", "PI()", "E()", "DATE(", "META()", "REGEXP_CONTAINS(",
	"\"[\"", "!", "\\", "$", "é", "\x00", "\xff", "//", "/*", "0x", "1.", "99999999999999999999", "9223372036854775807", "&&", "||", "== ==", "EXISTS(", "BETWEEN", "\"2019-01-01\"", "TRUE", "FALSE", "true"}

func mangle(r *Rng, s string) string {
	b := []byte(s)
	n := r.In(1, 4)
	for i := 0; i < n; i++ {
		switch r.N(6) {
		case 0:
			if len(b) > 0 {
				b = b[:r.N(len(b))]
			}
		case 1:
			if len(b) > 0 {
				k := r.N(len(b))
				b = append(b[:k:k], b[k+1:]...)
			}
		case 2:
			k := r.N(len(b) + 1)
			t := r.Pick(soupTokens)
			b = append(b[:k:k], append([]byte(t), b[k:]...)...)
		case 3:
			if len(b) > 0 {
				b[r.N(len(b))] = byte(r.N(256))
			}
		case 4:
			if len(b) > 0 {
				k, l := r.N(len(b)), r.N(len(b))
				b[k], b[l] = b[l], b[k]
			}
		default:
			if len(b) > 1 {
				k := r.N(len(b))
				l := k + r.N(len(b)-k)
				b = append(b, b[k:l]...)
			}
		}
		if len(b) > 4000 {
			b = b[:4000]
		}
	}
	return string(b)
}

func soup(r *Rng) string {
	var sb strings.Builder
	n := r.In(0, 25)
	if r.P(5) {
		n = r.In(25, 300)
	}
	for i := 0; i < n; i++ {
		sb.WriteString(r.Pick(soupTokens))
		if r.P(75) {
			sb.WriteByte(' ')
		}
	}
	return sb.String()
}

func tryText(c *Case, what, t string, docs []string, get func(string) (g.Matcher, error)) (accepted bool) {
	var m g.Matcher
	var err error
	stage := "parsing"
	func() {
		defer func() {
			if e := recover(); e != nil {
				c.Fail("panic", "panic while %s: %v\n  %s: %q", stage, e, what, t)
				err = fmt.Errorf("panic")
			}
		}()
		m, err = get(t)
		if err == nil && m == nil {
			c.Fail("nothing", "neither an expression nor an error\n  %s: %q", what, t)
			return
		}
		if err != nil {
			return
		}
		stage = "matching"
		for _, d := range docs {
			m.Reset()
			if _, merr := m.Match([]byte(d)); merr != nil {
				c.Fail("match error", "%v\n  %s: %q\n  document: %s", merr, what, t, d)
			}
		}
	}()
	c.Eval(1)
	c.Nontrivial(t)
	if err != nil {
		c.Count("rejected")
	} else {
		c.Count("accepted")
	}
	c.Sample(func() string { return fmt.Sprintf("%s %q -> %v", what, t, err) })
	return err == nil
}

// getFilter also parses the text alone and prints what came of it.
func getFilter(t string) (g.Matcher, error) {
	m, err := g.GetFilterExpressionMatcher(t)
	_, fe, perr := g.NewFilterExpressionParser(t)
	if perr == nil && fe != nil {
		_ = fe.String()
	}
	return m, err
}

func someDocs(r *Rng, doc *J) []string {
	var ds []string
	for i := 0; i < 3; i++ {
		d := doc
		if i > 0 {
			d = mutate(r, doc, 20)
		}
		ds = append(ds, docText(d, nil))
	}
	return ds
}

func caseFilterSoup(c *Case) {
	r := c.R
	doc := filterDoc(r)
	docs := someDocs(r, doc)
	for i := 0; i < 4; i++ {
		var t string
		switch r.N(3) {
		case 0:
			t = soup(r)
		default:
			f := newFgen(r, doc)
			t, _ = f.or(r.In(0, 2))
			t = mangle(r, t)
		}
		tryText(c, "filter", t, docs, getFilter)
	}
}

// caseFilterBad: texts which are no filter expressions by construction.
func caseFilterBad(c *Case) {
	r := c.R
	doc := filterDoc(r)
	docs := someDocs(r, doc)
	f := newFgen(r, doc)
	t, _ := f.or(r.In(0, 2))
	f2 := newFgen(r, doc)
	cond, _ := f2.cond()
	fld, _, _ := f2.field()
	bad := []string{
		"(" + t,
		t + ")",
		t + " AND",
		t + " OR ",
		") " + t,
		t + " OR OR (" + cond + ")",
		t + " AND (" + cond,
		t + " " + fld,
		t + " AND " + fld,
		t + " AND " + fld + " =",
		t + " AND = 5",
		t + " AND " + fld + " => 5",
		t + " AND " + fld + " >< 5",
		t + " AND " + fld + " === 5",
		t + " AND " + fld + " ! 5",
		t + " AND " + fld + " = \"abc",
		t + " AND `abc = 5",
		t + " AND NOT",
		t + " AND ()",
		t + " AND " + fld + " IS",
		t + " AND " + fld + " IS NOT",
		t + " AND " + fld + " IS 5",
		t + " AND NOSUCHFUNC(" + fld + ") = 1",
		t + " AND ABS() = 1",
		t + " AND POW(" + fld + ") = 1",
		t + " AND ABS(" + fld + ", 1) = 1",
		t + " AND EXISTS(5)",
		t + " AND EXISTS()",
		t + " AND REGEXP_CONTAINS(" + fld + ")",
		t + " AND REGEXP_CONTAINS(" + fld + ", \"[\")",
		t + " AND REGEXP_CONTAINS(" + fld + ", \"(a\")",
		t + " AND DATE(" + fld + ") = DATE(\"2019-99-01\")",
		t + " AND DATE(" + fld + ") = DATE(\"soon\")",
		t + " AND " + fld + " + 1 IS MISSING",
		t + " AND 5 IS MISSING",
		t + " AND " + fld + "[-1] = 1",
		t + " AND " + fld + "[x] = 1",
		t + " AND " + fld + " + = 1",
		t + " AND " + fld + ". = 1",
		t + " AND ." + fld + " = 1",
		t + " AND " + fld + " = 5 6",
		t + " AND " + fld + " = 99999999999999999999",
		"",
		" ",
	}
	for i := 0; i < 6; i++ {
		b := bad[r.N(len(bad))]
		if tryText(c, "filter", b, docs, getFilter) {
			c.Fail("accepted", "a malformed text was accepted\n  filter: %q", b)
		}
	}
}

// casePoisoned: valid texts in which one atom, anywhere, is wrong.
func caseFilterPoisoned(c *Case) {
	r := c.R
	doc := filterDoc(r)
	docs := someDocs(r, doc)
	for i := 0; i < 6; i++ {
		f := newFgen(r, doc)
		f.bad = newPoison(r)
		if r.P(25) {
			f.bad.left = 0
		}
		t, _ := f.or(r.In(0, 2))
		if f.bad.what == "" {
			b, ok := spoilParens(r, t)
			if !ok {
				continue
			}
			t, f.bad.kind = b, "parentheses"
		} else {
			var ok bool
			if t, ok = f.bad.finish(t); !ok {
				continue
			}
		}
		c.Count("spoilt:" + f.bad.kind)
		if tryText(c, "filter", t, docs, getFilter) {
			c.Fail("accepted "+f.bad.kind+" "+f.bad.what, "a malformed text was accepted (%s %q)\n  filter: %q", f.bad.kind, f.bad.what, t)
		}
	}
}

func caseFilterDeep(c *Case) {
	r := c.R
	n := []int{10, 30, 100, 300, 1000, 1500}[r.N(6)]
	var t string
	switch r.N(6) {
	case 0:
		t = strings.Repeat("(", n) + "a = 1" + strings.Repeat(")", n)
	case 1:
		t = strings.Repeat("NOT ", n) + "a = 1"
	case 2:
		n = n/3 + 1
		t = strings.Repeat("ABS(", n) + "a" + strings.Repeat(")", n) + " = 1"
	case 3:
		t = "a = 1" + strings.Repeat(" OR b = 2", n)
	case 4:
		t = "a" + strings.Repeat(" + 1", n) + " = 1"
	default:
		t = "a" + strings.Repeat(".a", n) + " = 1"
	}
	docs := []string{`{"a":1}`, `{"a":2,"b":3}`, `{}`}
	if !tryText(c, "filter", t, docs, getFilter) {
		c.Fail("rejected", "a valid text was rejected\n  filter: %s", clip(t, 300))
	}
	if tryText(c, "filter", t+")", docs, getFilter) {
		c.Fail("accepted", "a malformed text was accepted\n  filter: %s", clip(t, 300))
	}
}

func init() {
	register(&Check{
		ID:     "C15",
		Rule:   "a text of the filter language and its meaning generated side by side from the documented grammar (all operators, functions, arithmetic chains, quoting forms, white space), matched on mutated documents; oracle: reference model of the meaning; non-trivial = some operand there",
		Assume: append([]string{"texts avoid the quoted constants \"TRUE\"/\"true\"/\"FALSE\"/\"false\", which the library (and its tests) take for the constants, and quoted texts that are a single punctuation mark or keyword"}, stdAssume...),
		Load: []Workload{
			{Name: "filter", Quick: 40000, Thorough: 600000, Run: caseFilter},
			{Name: "numbers", Quick: 40000, Thorough: 600000, Run: caseFilterNumbers},
			{Name: "sizes", Quick: 1500, Thorough: 20000, Run: bigFilterText, Once: true},
			{Name: "long numbers", Quick: 2000, Thorough: 40000, Run: caseLongNumber(filterMatcher)},
		},
		Require: map[string]int{"long number read": 100, "verdict:true": 1000, "verdict:false": 1000, "use:AND": 500, "use:OR": 500, "use:NOT": 500, "use:parentheses": 200, "use:IS": 200, "use:DATE": 100,
			"use:REGEXP_CONTAINS": 100, "use:chain of 2": 50, "use:backquoted": 100, "use:index": 100},
	})
	register(&Check{
		ID:     "C16",
		Rule:   "token soup, corrupted valid texts, texts malformed by construction and deeply nested texts given to the filter parser: an expression or an error, never a panic; malformed ones always an error, whether built so or found outside the grammar by a recogniser after tokens were dropped, doubled, swapped or replaced; what is accepted can be matched; non-trivial = all",
		Assume: []string{"nesting up to 1500 levels"},
		Load: []Workload{
			{Name: "soup", Quick: 12000, Thorough: 400000, Run: caseFilterSoup},
			{Name: "malformed", Quick: 8000, Thorough: 200000, Run: caseFilterBad},
			{Name: "poisoned", Quick: 6000, Thorough: 150000, Run: caseFilterPoisoned},
			{Name: "tokens", Quick: 2500, Thorough: 150000, Run: caseFilterTokens},
			{Name: "one token", Quick: 104, Thorough: 104, Run: caseFilterToken1},
			{Name: "deep", Quick: 200, Thorough: 2000, Run: caseFilterDeep},
		},
		Require: map[string]int{"accepted": 100, "rejected": 1000, "outside the grammar": 5000},
	})
}
