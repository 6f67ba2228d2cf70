package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode"

	g "github.com/couchbaselabs/gojsonsm"
)

// The simple expression language (ParseSimpleExpression): a text and its
// meaning generated side by side.

type sgen struct {
	r    *Rng
	e    *egen
	n    int
	lits int  // more literals as arguments
	par  bool // inside parentheses
	use  map[string]int
	bad  *poison
}

func (f *sgen) mark(s string) { f.use[s]++ }

// names the language can spell without backticks
func sIdent(s string) bool {
	if s == "" || s == "NOT" || s == "IS" || s == "true" || s == "false" || strings.Contains(s, "AND") || strings.Contains(s, "OR") || strings.Contains(s, "LIKE") ||
		strings.Contains(s, "EXISTS") || strings.Contains(s, "IS_") {
		return false
	}
	for _, c := range s {
		if !(c == '_' || c == '-' || unicode.IsLetter(c) || unicode.IsDigit(c)) {
			return false
		}
	}
	return !(s[0] >= '0' && s[0] <= '9' || s[0] == '-')
}

// names it can spell between backticks: runs of blanks are not kept
func sRaw(s string) bool {
	if s == "" || strings.Join(strings.Fields(s), " ") != s {
		return false
	}
	for _, c := range s {
		if c == '`' || c == 0xfffd {
			return false
		}
	}
	return true
}

func (f *sgen) pathText(p []string) (string, bool) {
	var sb strings.Builder
	for i, k := range p {
		if i > 0 && isIndex(k) && (k == "[0]" || k[1] != '0') {
			sb.WriteString(k)
			f.mark("index")
			if i+1 < len(p) && !isIndex(p[i+1]) {
				f.mark("member of element")
			}
			continue
		}
		if isIndex(k) && i > 0 {
			return "", false
		}
		if i > 0 {
			sb.WriteByte('.')
		}
		switch {
		case sIdent(k) && f.r.P(75):
			sb.WriteString(k)
		case sRaw(k):
			sb.WriteString("`" + k + "`")
			f.mark("backticks")
		default:
			return "", false
		}
	}
	return sb.String(), true
}

func (f *sgen) field() (string, *Opd, *J) {
	for i := 0; i < 60; i++ {
		o, v := f.e.okField()
		if len(o.Path) == 0 {
			continue
		}
		if t, ok := f.pathText(o.Path); ok {
			if b, bad := f.bad.spoil("field", 10, sBadField(t)); bad {
				return b, o, v
			}
			return t, o, v
		}
	}
	return "a", Fld("a"), nil
}

// oneWord: a field spelled without blanks, as function arguments need it
func (f *sgen) oneWord() (string, *Opd, *J) {
	for i := 0; i < 60; i++ {
		t, o, v := f.field()
		if !strings.ContainsAny(t, " ") && !f.numeric(t) {
			return t, o, v
		}
	}
	return "a", Fld("a"), nil
}

func (f *sgen) numeric(s string) bool { return s != "" && (s[0] >= '0' && s[0] <= '9' || s[0] == '-') }

func (f *sgen) numText(l *J) (string, bool) {
	switch l.K {
	case KInt:
		return strconv.FormatInt(l.I, 10), true
	case KFloat:
		if math.IsNaN(l.F) || math.IsInf(l.F, 0) {
			return "", false
		}
		t := strconv.FormatFloat(l.F, 'f', -1, 64)
		if !strings.Contains(t, ".") {
			t += ".0"
		}
		if len(t) > 60 {
			return "", false
		}
		return t, true
	}
	return "", false
}

func (f *sgen) number(near *J) (string, *J) {
	for {
		l := f.e.litFor(JInt(int64(f.r.In(-9, 9))))
		if near != nil && near.IsNumeric() && f.r.P(80) {
			if l = near; f.r.P(70) {
				l = f.e.litFor(near)
			}
		}
		if t, ok := f.numText(l); ok {
			if b, bad := f.bad.spoil("number", 25, sBadNumbers); bad {
				return b, l
			}
			return t, l
		}
	}
}

func sNumeric(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if !(c >= '0' && c <= '9' || c == '.' || c == '-') {
			return false
		}
	}
	return true
}

func (f *sgen) strText(s string) (string, bool) {
	if strings.Join(strings.Fields(s), " ") != strings.TrimSuffix(s, " ") || s == " " {
		return "", false
	}
	for _, c := range s {
		if c == 0xfffd || c < 32 {
			return "", false
		}
	}
	d := "\""
	if f.r.P(30) {
		d = "'"
	}
	if strings.Contains(s, d) {
		return "", false
	}
	if sNumeric(s) {
		f.mark("quoted number")
	}
	if strings.ContainsAny(s, "()") {
		f.mark("quoted parentheses")
	}
	if strings.Contains(s, " ") {
		f.mark("words")
	}
	return d + s + d, true
}

func (f *sgen) value(v *J) (string, *Opd) {
	for i := 0; i < 60; i++ {
		l := f.e.litFor(v)
		switch l.K {
		case KInt, KFloat:
			if t, ok := f.numText(l); ok {
				f.mark("number")
				return t, Lit(l)
			}
		case KStr:
			if f.r.P(6) && l.S != "" && !strings.HasSuffix(l.S, " ") {
				l = JStr(l.S + " ")
				f.mark("blank at the end")
			}
			if t, ok := f.strText(l.S); ok {
				f.mark("string")
				return t, Lit(l)
			}
		}
	}
	return "1", Lit(JInt(1))
}

func (f *sgen) cmpOp() (string, CmpOp) {
	for {
		k := f.e.op()
		switch k {
		case OpEQ:
			return f.r.Pick([]string{"=", "=="}), k
		case OpNE:
			return "!=", k
		}
		return k.String(), k
	}
}

func (f *sgen) sp() string {
	if f.r.P(85) {
		return " "
	}
	return f.r.Pick([]string{"  ", "\t", "\n", " \n "})
}

func (f *sgen) arg(depth int) (string, *Opd) {
	switch {
	case depth > 0 && f.r.P(35):
		return f.fn(depth - 1)
	case f.r.P(6 + f.lits/4):
		f.mark("constant in a function")
		if f.r.P(50) {
			return "PI()", Lit(JFloat(math.Pi))
		}
		return "E()", Lit(JFloat(math.E))
	case f.r.P(15 + f.lits):
		t, l := f.number(plainNumber(f.r))
		return t, Lit(l)
	}
	t, o, _ := f.oneWord()
	return t, o
}

func (f *sgen) fn(depth int) (string, *Opd) {
	if b, bad := f.bad.spoil("function", 25, sBadFuncs("a", f.r)); bad {
		return b, Fn("mathAbs", Fld("a"))
	}
	if f.r.P(75 - f.lits) {
		k := f.r.N(len(fFuncs))
		t, o := f.arg(depth)
		f.mark("fn:" + fFuncs[k].t)
		return fFuncs[k].t + "(" + t + ")", Fn(fFuncs[k].fn, o)
	}
	name, fn := "POW", "mathPow"
	if f.r.P(40) {
		name, fn = "ATAN2", "mathAtan2"
	}
	f.mark("fn:" + name)
	at, ao := f.arg(depth)
	bt, bo := f.arg(depth)
	if ao.K == OFunc || bo.K == OFunc {
		f.mark("nested in two")
	}
	return name + "(" + at + "," + bt + ")", Fn(fn, ao, bo)
}

// cond: one condition; tight = ends in a word that a closing parenthesis may follow directly
func (f *sgen) cond() (t string, x *E) {
	r := f.r
	f.n++
	sp := func() string { return f.sp() }
	if f.n > 1 && r.P(6) {
		f.mark("constant")
		if r.P(50) {
			return "true", &E{K: ETrue}
		}
		return "false", &E{K: EFalse}
	}
	switch r.W(40, 10, 8, 8, 8, 8, 14, 6) {
	case 0:
		ft, fo, v := f.field()
		vt, vo := f.value(v)
		op, k := f.cmpOp()
		if r.P(20) && !strings.ContainsAny(ft+vt, " ") && !strings.ContainsAny(vt, "()") {
			f.mark("no blanks")
			return ft + op + vt, Cmp(fo, k, vo)
		}
		return ft + sp() + op + sp() + vt, Cmp(fo, k, vo)
	case 1:
		ft, fo, _ := f.field()
		b := r.P(50)
		op, k := r.Pick([]string{"=", "==", "!="}), OpEQ
		if op == "!=" {
			k = OpNE
		}
		f.mark("boolean")
		return ft + sp() + op + sp() + fmt.Sprint(b), Cmp(fo, k, Lit(JBool(b)))
	case 2:
		ft, fo, _ := f.field()
		f.mark("EXISTS")
		return ft + sp() + "EXISTS", Exists(fo)
	case 3:
		ft, fo, _ := f.field()
		f.mark("IS MISSING")
		return ft + sp() + "IS" + sp() + "MISSING", NotExists(fo)
	case 4:
		ft, fo, _ := f.field()
		f.mark("IS NULL")
		if r.P(50) {
			return ft + sp() + "IS" + sp() + "NULL", Cmp(fo, OpEQ, Lit(JNull()))
		}
		return ft + sp() + "IS" + sp() + "NOT" + sp() + "NULL", Not(Cmp(fo, OpEQ, Lit(JNull())))
	case 5:
		ft, fo, v := f.field()
		for i := 0; i < 40; i++ {
			re := f.e.regexFor(v)
			vt, ok := f.strText(re)
			if !ok {
				continue
			}
			if b, bad := f.bad.spoil("regex", 40, badRegexes); bad {
				vt = "\"" + b + "\""
			}
			f.mark("LIKE")
			if r.P(40) {
				return ft + sp() + "NOT" + sp() + "LIKE" + sp() + vt, Not(Like(fo, re))
			}
			return ft + sp() + r.Pick([]string{"LIKE", "=~"}) + sp() + vt, Like(fo, re)
		}
	case 6:
		ft, fo := f.fn(2)
		op, k := f.cmpOp()
		if r.P(25) {
			b, bo := f.fn(1)
			return ft + sp() + op + sp() + b, Cmp(fo, k, bo)
		}
		vt, l := f.number(f.e.closeTo(fo, f.mark))
		if r.P(20) && !strings.Contains(ft, "OR") {
			f.mark("no blanks")
			return ft + op + vt, Cmp(fo, k, Lit(l))
		}
		return ft + sp() + op + sp() + vt, Cmp(fo, k, Lit(l))
	}
	ft, fo, _ := f.oneWord()
	op, k := f.cmpOp()
	if r.P(30) {
		f.mark("constant function")
		if r.P(50) {
			return ft + sp() + op + sp() + "PI()", Cmp(fo, k, Lit(JFloat(math.Pi)))
		}
		return ft + sp() + op + sp() + "E()", Cmp(fo, k, Lit(JFloat(math.E)))
	}
	f.mark("DATE")
	s := genTimeLit(r)
	if b, bad := f.bad.spoil("date", 40, badDates(r)); bad {
		s = b
	}
	return "DATE(" + ft + ")" + sp() + op + sp() + "DATE(\"" + s + "\")", Cmp(Fn("date", fo), k, Fn("date", Lit(JStr(s))))
}

// glues: && and || may stand between these two without blanks: a number
// that is a word of its own and a plain name
func glues(l, r string) bool {
	lw, rw := strings.Fields(l), strings.Fields(r)
	return len(lw) > 2 && len(rw) > 2 && sNumeric(lw[len(lw)-1]) && sIdent(rw[0])
}

// chain: conditions and groups joined from left to right
func (f *sgen) chain(depth, n int, shape *string) (string, *E) {
	r := f.r
	spells := [][2]string{{"AND", "OR"}, {"&&", "||"}}
	own, mixed := r.N(2), r.P(35)
	only := r.W(40, 30, 30)
	var t string
	var x *E
	for i := 0; i < n; i++ {
		var pt string
		var px *E
		if depth > 0 && r.P(30) {
			*shape += "("
			pt, px = f.chain(depth-1, r.W(30, 40, 30)+1, shape)
			*shape += ")"
			pt = "(" + r.Pick([]string{"", " "}) + pt + r.Pick([]string{" ", " ", ""}) + ")"
			f.mark("parentheses")
		} else {
			pt, px = f.cond()
			*shape += "x"
		}
		if i == 0 {
			t, x = pt, px
			continue
		}
		and := only == 1 || only == 0 && r.P(50)
		k := own
		if mixed && r.P(50) {
			k = 1 - own
			f.mark("both spellings")
		}
		a, b := f.sp(), f.sp()
		if mixed && k == 1 && r.P(60) && glues(t, pt) {
			a, b = "", ""
			f.mark("joined without blanks")
		}
		if and {
			*shape += "&"
			t, x = t+a+spells[k][0]+b+pt, And(x, px)
			f.mark("AND")
		} else {
			*shape += "|"
			t, x = t+a+spells[k][1]+b+pt, Or(x, px)
			f.mark("OR")
		}
	}
	return t, x
}

func newSgen(r *Rng, doc *J) *sgen {
	o := stdExpr()
	o.UintLits = false
	return &sgen{r: r, e: newEgen(r, doc, o), use: map[string]int{}}
}

func simpleMatcher(t string) (m *g.FastMatcher, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("PANIC %v", e)
		}
	}()
	x, err := g.ParseSimpleExpression(t)
	if err != nil {
		return nil, err
	}
	var tr g.Transformer
	return g.NewFastMatcher(tr.Transform([]g.Expression{x})), nil
}

func caseSimple(c *Case) {
	r := c.R
	doc := filterDoc(r)
	f := newSgen(r, doc)
	shape := ""
	t, x := f.chain(r.In(0, 3), r.W(30, 30, 25, 15)+1, &shape)
	for k, n := range f.use {
		c.Add("use:"+k, n)
	}
	m, err := simpleMatcher(t)
	if err != nil {
		c.Eval(1)
		c.Count("rej:" + shape)
		c.Fail("rejected "+clip(err.Error(), 40), "%v\n  text: %s\n  meaning: %s", err, t, x)
		return
	}
	c.Count("acc:" + shape)
	o := &diffOpts{}
	for k := 0; k < 6; k++ {
		d := doc
		if k > 0 {
			d = mutate(r, doc, 18)
		}
		diffOne(c, o, m, x, t+"   meaning "+x.String(), d)
	}
}

func getSimple(t string) (g.Matcher, error) {
	x, err := g.ParseSimpleExpression(t)
	if err != nil {
		return nil, err
	}
	if x == nil {
		return nil, nil
	}
	var tr g.Transformer
	return g.NewFastMatcher(tr.Transform([]g.Expression{x})), nil
}

var sSoup = append([]string{"LIKE", "NOT LIKE", "IS NOT NULL", "IS MISSING", "IS NULL", "=~", "a[1]", "a[0].b", "(a", "a)", "((", "))", "(true)", "'x y'", "\"x y\"", "\"(", ")\"", "a==1", "a==1&&b==2",
	"ABS(a)", "POW(a,b)", "POW(ABS(a),2)", "ATAN2(a", "PI()", "DATE(\"2019-01-01\")", "SQRT()", "`", "`a", "b`", "a.", ".a", "a[", "[1]", "a[01]"}, soupTokens...)

func simpleSoup(r *Rng) string {
	var sb strings.Builder
	n := r.In(0, 12)
	if r.P(5) {
		n = r.In(12, 120)
	}
	for i := 0; i < n; i++ {
		sb.WriteString(r.Pick(sSoup))
		if r.P(80) {
			sb.WriteByte(' ')
		}
	}
	return sb.String()
}

func caseSimpleSoup(c *Case) {
	r := c.R
	doc := filterDoc(r)
	docs := someDocs(r, doc)
	for i := 0; i < 4; i++ {
		var t string
		switch r.N(3) {
		case 0:
			t = simpleSoup(r)
		default:
			f := newSgen(r, doc)
			sh := ""
			t, _ = f.chain(r.In(0, 2), r.In(1, 4), &sh)
			t = mangle(r, t)
		}
		tryText(c, "simple expression", t, docs, getSimple)
	}
}

// what an unfinished quotation may end in
var tailChars = []string{"a", ".", ",", ";", ":", "!", "?", "=", "-", "_", "+", "*", "/", "%", "$", "#", "@", "&", "|", "^", "~", "<", ">", "[", "]", "{", "}", "\\", "0", "9", "É", "日", "\\n"}

// caseSimpleBad: texts which are no simple expressions by construction.
func caseSimpleBad(c *Case) {
	r := c.R
	doc := filterDoc(r)
	docs := someDocs(r, doc)
	f := newSgen(r, doc)
	sh := ""
	t, _ := f.chain(r.In(0, 2), r.In(1, 4), &sh)
	cond, _ := f.cond()
	fld, _, _ := f.oneWord()
	op := r.Pick([]string{" AND ", " OR ", " && ", " || "})
	bad := []string{
		"( " + t,
		t + " )",
		t + op,
		op + t,
		") " + t,
		"( ) " + op + t,
		t + op + "( )",
		t + op + op + cond,
		t + op + "( " + cond,
		t + " " + fld,
		t + " " + cond,
		t + op + fld,
		t + op + fld + " =",
		t + op + " = 5",
		t + op + fld + " = 5 6",
		t + op + fld + " = 5 = 6",
		t + op + fld + " EXISTS EXISTS",
		t + op + fld + " EXISTS = 5",
		t + op + fld + " = \"abc",
		t + op + fld + " = 'abc def",
		t + op + fld + " = \"" + r.Pick([]string{"abc", "abc def", "a b c", "a.b", ""}) + r.Pick(tailChars),
		t + op + fld + r.Pick([]string{" LIKE ", " NOT LIKE ", " = "}) + "'" + r.Pick([]string{"abc", "abc def", "a b c", "a.b", "x "}) + r.Pick(tailChars),
		t + op + "`" + r.Pick([]string{"abc", "abc def", "a.b"}) + r.Pick(tailChars) + " = 5",
		t + op + "( " + fld + " = \"" + r.Pick([]string{"abc", "abc def"}) + r.Pick(tailChars) + " )",
		t + op + "`abc = 5",
		t + op + "`` = 5",
		t + op + fld + " IS",
		t + op + fld + " IS NOT",
		t + op + fld + " IS 5",
		t + op + fld + " NOT",
		t + op + fld + " NOT 5",
		t + op + "NOT " + fld,
		t + op + fld + " LIKE \"[\"",
		t + op + fld + " LIKE \"x [y\"",
		t + op + fld + " NOT LIKE \"(a\"",
		t + op + "DATE(" + fld + ") = DATE(\"2019-99-01\")",
		t + op + "DATE(" + fld + ") = DATE(\"soon\")",
		t + op + "ABS(" + fld + ",1) = 1",
		t + op + "POW(" + fld + ") = 1",
		t + op + "POW(" + fld + ",1,2) = 1",
		t + op + "ABS() = 1",
		t + op + "NOSUCHFUNC(" + fld + ") = 1",
		t + op + fld + "[x] = 1",
		t + op + "abc[01] = 1",
		t + op + "abc[-1] = 1",
		t + op + "abc[] = 1",
		t + op + "abc[1 = 1",
		t + op + "abc. = 1",
		t + op + ".abc = 1",
		t + op + fld + " = 99999999999999999999",
		"( " + t + " ) = 5",
		t + op + "( " + cond + " ) ( " + cond + " )",
		"",
		" ",
	}
	for i := 0; i < 8; i++ {
		b := bad[r.N(len(bad))]
		if tryText(c, "simple expression", b, docs, getSimple) {
			c.Fail("accepted", "a malformed text was accepted\n  simple expression: %q", b)
		}
	}
}

func sBadField(t string) []string {
	return []string{t + "[-1]", t + "[x]", t + "[1.5]", t + "[]", t + "[1", t + ".", "." + t, t + "[01]", "abc[0", "``", "abc[",
		t + "[1]b", t + "[1]`b`", t + "`b`", "`b`" + t, t + ".`b`c", "abc`b`", "`a``b`", "`a`b", t + ".``", "``." + t, t + ".``.b", t + "[1].``"}
}

var sBadNumbers = []string{"5 6", "99999999999999999999", "5 (", "5 5"}

func sBadFuncs(f string, r *Rng) []string {
	return []string{"NOSUCHFUNC(" + f + ")", "ABS()", "POW(" + f + ")", "POW(,2)", "POW(2,)", "ABS(" + f + ",1)", "ATAN2(" + f + ",1,2)", "ABS(" + f, "DATE(\"" + r.Pick(badDates(r)) + "\")",
		"ABS(DATE(\"" + r.Pick(badDates(r)) + "\"))", "POW(" + f + ",DATE(\"" + r.Pick(badDates(r)) + "\"))", "POW(DATE(\"soon\")," + f + ")", "ABS(NOSUCHFUNC(" + f + "))", "POW(" + f + ",POW(" + f + "))"}
}

// caseSimplePoisoned: valid texts in which one atom, anywhere, is wrong.
func caseSimplePoisoned(c *Case) {
	r := c.R
	doc := filterDoc(r)
	docs := someDocs(r, doc)
	for i := 0; i < 6; i++ {
		f := newSgen(r, doc)
		f.bad = newPoison(r)
		if r.P(25) {
			f.bad.left = 0
		}
		sh := ""
		t, _ := f.chain(r.In(0, 3), r.In(1, 4), &sh)
		if f.bad.what == "" {
			b, ok := spoilParens(r, t)
			if !ok {
				continue
			}
			t, f.bad.kind = b, "parentheses"
		} else {
			var ok bool
			if t, ok = f.bad.finish(t); !ok {
				continue
			}
		}
		c.Count("spoilt:" + f.bad.kind)
		if tryText(c, "simple expression", t, docs, getSimple) {
			c.Fail("accepted "+f.bad.kind+" "+f.bad.what, "a malformed text was accepted (%s %q)\n  simple expression: %q", f.bad.kind, f.bad.what, t)
		}
	}
}

func caseSimpleDeep(c *Case) {
	r := c.R
	n := []int{10, 30, 100, 300, 1000}[r.N(5)]
	var t string
	switch r.N(5) {
	case 0:
		t = strings.Repeat("(", n) + "a = 1" + strings.Repeat(")", n)
	case 1:
		t = strings.Repeat("ABS(", n/5+1) + "a" + strings.Repeat(")", n/5+1) + " = 1"
	case 2:
		t = "a = 1" + strings.Repeat(" OR b = 2", n)
	case 3:
		t = "a = 1" + strings.Repeat(" && b = 2", n)
	default:
		t = "a" + strings.Repeat(".a", n) + " = 1"
	}
	docs := []string{`{"a":1}`, `{"a":2,"b":3}`, `{}`}
	if !tryText(c, "simple expression", t, docs, getSimple) {
		c.Fail("rejected", "a valid text was rejected\n  simple expression: %s", clip(t, 300))
	}
	if tryText(c, "simple expression", t+" )", docs, getSimple) {
		c.Fail("accepted", "a malformed text was accepted\n  simple expression: %s", clip(t, 300))
	}
}

func init() {
	register(&Check{
		ID:     "C17",
		Rule:   "a text of the simple expression language and its meaning generated side by side (all operators, functions, constants, quoting forms, nested parentheses, mixed chains, operators with and without blanks), matched on mutated documents; oracle: reference model of the meaning; non-trivial = some operand there",
		Assume: append([]string{"without parentheses AND and OR group from left to right; unquoted names contain no operator (AND, OR, LIKE, EXISTS ... are separated wherever they occur in a word); quoted values contain neither their own quote nor control characters; operators after a quoted value are separated by white space"}, stdAssume...),
		Load: []Workload{
			{Name: "simple", Quick: 60000, Thorough: 800000, Run: caseSimple},
			{Name: "numbers", Quick: 20000, Thorough: 400000, Run: caseSimpleNumbers},
			{Name: "sizes", Quick: 2000, Thorough: 30000, Run: bigSimpleText, Once: true},
			{Name: "long numbers", Quick: 2000, Thorough: 40000, Run: caseLongNumber(func(r *Rng, t string) (*g.FastMatcher, error) { return simpleMatcher(t) })},
		},
		Require: map[string]int{"long number read": 100, "verdict:true": 1000, "verdict:false": 1000, "use:AND": 500, "use:OR": 500, "use:parentheses": 500, "use:LIKE": 200, "use:backticks": 200, "use:index": 100,
			"use:member of element": 20, "use:nested in two": 50, "use:constant": 100, "use:words": 100, "use:quoted number": 20, "use:no blanks": 100},
		Known: func() []KnownResult {
			res := KnownResult{Key: "blanks-in-quotes", What: `a == "x  y" is read as a == "x y": runs of white space inside quotes become one blank`}
			if m, err := simpleMatcher(`a == "x  y"`); err == nil {
				o := run(m, []byte(`{"a":"x  y"}`))
				res.Failed = !o.Match
			}
			return []KnownResult{res}
		},
	})
	register(&Check{
		ID:     "C26",
		Rule:   "token soup, corrupted valid texts, texts malformed by construction and deeply nested texts given to the simple expression parser: an expression or an error, never a panic; malformed ones always an error, whether built so or found malformed by a recogniser after one word was changed; what is accepted can be compiled and matched; non-trivial = all",
		Assume: []string{"nesting up to 1000 levels"},
		Load: []Workload{
			{Name: "soup", Quick: 18000, Thorough: 600000, Run: caseSimpleSoup},
			{Name: "malformed", Quick: 10000, Thorough: 200000, Run: caseSimpleBad},
			{Name: "poisoned", Quick: 6000, Thorough: 150000, Run: caseSimplePoisoned},
			{Name: "one word", Quick: 72, Thorough: 7200, Run: caseSimpleToken1},
			{Name: "deep", Quick: 200, Thorough: 2000, Run: caseSimpleDeep},
		},
		Require: map[string]int{"accepted": 100, "rejected": 1000},
	})
}

// caseLongNumber: a whole number of any length in a text is an error or that
// number, compared with numbers well away from it.
func caseLongNumber(parse func(r *Rng, t string) (*g.FastMatcher, error)) func(c *Case) {
	return func(c *Case) {
		r := c.R
		n := r.In(15, 40)
		digits := make([]byte, n)
		for i := range digits {
			digits[i] = byte('0' + r.N(10))
		}
		digits[0] = byte('1' + r.N(9))
		num, neg := string(digits), r.P(40)
		if r.P(25) {
			num += "." + string(digits[:r.In(1, n)])
		}
		if neg {
			num = "-" + num
		}
		k := r.N(3)
		op := []string{"<", ">", "="}[k]
		t := "a " + op + " " + num
		m, err := parse(r, t)
		if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
			c.Fail("panic", "parsing %q: %v", t, err)
			return
		}
		c.Nontrivial(t)
		if err != nil {
			c.Count("long number refused")
			if n <= 18 {
				c.Fail("refused", "%q: %v", t, err)
			}
			c.Eval(1)
			return
		}
		c.Count("long number read")
		// the number of digits decides
		for e := n - 3; e < n+4; e++ {
			if e == n-1 || e == n {
				continue
			}
			for _, s := range []string{"", "-"} {
				v := s + "1e" + strconv.Itoa(e)
				if e < 19 {
					v = s + "1" + strings.Repeat("0", e)
				}
				above := s == "" // whether the value is above the number
				if (s == "-") == neg {
					above = (e > n) != neg
				}
				want := [3]bool{!above, above, false}[k]
				m.Reset()
				got := run(m, []byte(`{"a":`+v+`}`))
				c.Eval(1)
				if got.Err != "" || got.Match != want {
					c.Fail("long number", "%q on a = %s: want %v, got %v", t, v, want, got)
					return
				}
			}
		}
	}
}
