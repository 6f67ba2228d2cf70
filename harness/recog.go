package main

// A recogniser of the filter language, written from the grammar in the head of
// filterExprParser.go and nothing else: it says whether a text can be derived
// at all. It looks at every derivation, so it accepts whatever a parser with
// limited lookahead may accept; what it turns down is malformed.

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
	"text/scanner"
	"unicode/utf8"

	g "github.com/couchbaselabs/gojsonsm"
)

type ftok struct {
	k    rune
	v    string
	a, b int // where in the text
}

// filterTokens splits a text into tokens; the second result is false if it cannot be.
func filterTokens(t string) ([]ftok, bool) {
	var s scanner.Scanner
	s.Init(strings.NewReader(t))
	ok := true
	s.Error = func(_ *scanner.Scanner, msg string) {
		if !strings.HasSuffix(msg, "char literal") { // '...' is a string too
			ok = false
		}
	}
	var out []ftok
	for {
		k := s.Scan()
		if k == scanner.EOF {
			return out, ok
		}
		f := ftok{k: k, v: s.TokenText(), a: s.Position.Offset}
		f.b = f.a + len(f.v)
		switch k {
		case scanner.Char, scanner.String:
			q := f.v
			if len(q) < 2 {
				return out, false
			}
			if k == scanner.Char {
				q = fmt.Sprintf("\"%s\"", q[1:len(q)-1])
			}
			u, err := strconv.Unquote(q)
			if err != nil {
				return out, false
			}
			f.v = u
			if k == scanner.Char && utf8.RuneCountInString(u) > 1 {
				f.k = scanner.String
			}
		case scanner.RawString:
			if len(f.v) < 2 {
				return out, false
			}
			f.v = f.v[1 : len(f.v)-1]
		}
		out = append(out, f)
	}
}

type recog struct {
	t    []ftok
	memo map[string]map[int][]int
}

// a rule gives the places at which what it derives from place i on can end
type rule func(i int) []int

func (g *recog) named(name string, f rule) rule {
	return func(i int) []int {
		m := g.memo[name]
		if m == nil {
			m = map[int][]int{}
			g.memo[name] = m
		}
		if r, ok := m[i]; ok {
			return r
		}
		m[i] = nil
		r := f(i)
		m[i] = r
		return r
	}
}

func addEnds(a, b []int) []int {
next:
	for _, x := range b {
		for _, y := range a {
			if x == y {
				continue next
			}
		}
		a = append(a, x)
	}
	return a
}

func seq(rs ...rule) rule {
	return func(i int) []int {
		at := []int{i}
		for _, r := range rs {
			var next []int
			for _, p := range at {
				next = addEnds(next, r(p))
			}
			at = next
		}
		return at
	}
}

func alt(rs ...rule) rule {
	return func(i int) (out []int) {
		for _, r := range rs {
			out = addEnds(out, r(i))
		}
		return
	}
}

func opt(r rule) rule {
	return func(i int) []int { return addEnds([]int{i}, r(i)) }
}

func many(r rule) rule {
	return func(i int) []int {
		out := []int{i}
		for k := 0; k < len(out); k++ {
			out = addEnds(out, r(out[k]))
		}
		return out
	}
}

func (g *recog) is(ok func(t ftok) bool) rule {
	return func(i int) []int {
		if i < len(g.t) && ok(g.t[i]) {
			return []int{i + 1}
		}
		return nil
	}
}

func (g *recog) word(vs ...string) rule {
	return g.is(func(t ftok) bool {
		for _, v := range vs {
			if t.v == v {
				return true
			}
		}
		return false
	})
}

func (g *recog) kind(ks ...rune) rule {
	return g.is(func(t ftok) bool {
		for _, k := range ks {
			if t.k == k {
				return true
			}
		}
		return false
	})
}

func filterDerivable(t string) bool {
	ts, ok := filterTokens(t)
	if !ok {
		return false
	}
	g := &recog{t: ts, memo: map[string]map[int][]int{}}
	w := g.word
	op := func(k string) rule { return g.is(func(t ftok) bool { return string(t.k) == k }) }
	neg := many(w("-"))
	num := g.named("num", seq(neg, g.kind(scanner.Int, scanner.Float)))
	value := g.named("value", alt(num, g.kind(scanner.String)))
	mathOp := w("+", "-", "*", "/", "%")
	index := seq(w("["), g.is(func(t ftok) bool {
		if t.k != scanner.Int {
			return false
		}
		n, err := strconv.ParseUint(t.v, 10, 64)
		return err != nil && strings.Trim(t.v, "0123456789") == "" && t.v[0] != '0' || err == nil && strconv.FormatUint(n, 10) == t.v
	}), w("]"))
	onePath := seq(alt(seq(w("META"), w("("), w(")")), g.kind(scanner.Ident, scanner.RawString, scanner.Char)), many(index))
	field := g.named("field", seq(neg, onePath, many(seq(w("."), onePath))))
	fieldMath := g.named("fieldMath", alt(seq(num, mathOp, field), seq(field, many(seq(mathOp, alt(num, field))))))
	var fn rule
	fnRef := func(i int) []int { return fn(i) }
	arg := g.named("arg", alt(fnRef, fieldMath, value))
	argRHS := alt(fnRef, value)
	fn = g.named("fn", seq(neg, alt(
		seq(w("PI", "E"), w("("), w(")")),
		seq(w("ABS", "ACOS", "ASIN", "ATAN", "CEIL", "COS", "DATE", "DEGREES", "EXP", "FLOOR", "LOG", "LN", "SIN", "TAN", "RADIANS", "ROUND", "SQRT"), w("("), arg, w(")")),
		seq(w("ATAN2", "POW"), w("("), arg, w(","), arg, w(")")))))
	boolean := g.is(func(t ftok) bool {
		return (t.k == scanner.Ident || t.k == scanner.String) && (t.v == "TRUE" || t.v == "true" || t.v == "FALSE" || t.v == "false")
	})
	boolFn := alt(seq(w("REGEXP_CONTAINS"), w("("), arg, w(","), argRHS, w(")")), seq(w("EXISTS"), w("("), field, w(")")))
	cmp := alt(op("="), op("<"), op(">"), seq(op("="), op("=")), seq(op("<"), op(">")), seq(op("!"), op("=")), seq(op(">"), op("=")), seq(op("<"), op("=")))
	check := seq(w("IS"), opt(w("NOT")), w("NULL", "MISSING"))
	side := g.named("side", alt(fnRef, boolean, fieldMath, value))
	operand := g.named("operand", alt(boolean, boolFn, seq(side, alt(check, seq(cmp, side)))))
	var cond, inner rule
	cond = g.named("cond", alt(seq(g.is(func(t ftok) bool { return t.k == scanner.Ident && t.v == "NOT" }), func(i int) []int { return cond(i) }), operand))
	sub := g.named("sub", alt(seq(w("("), func(i int) []int { return inner(i) }, w(")")), cond))
	and := g.named("and", seq(sub, many(seq(w("AND"), sub))))
	inner = g.named("inner", seq(and, many(seq(w("OR"), and))))
	for _, e := range inner(0) {
		if e == len(ts) {
			return true
		}
	}
	return false
}

var filterWords = []string{"AND", "OR", "NOT", "(", ")", "(", ")", "=", "==", "<>", "!=", "<", "<=", ">", ">=", "!", "IS", "NULL", "MISSING", "EXISTS", "TRUE", "false", "a", "`b c`", "'c'", "'long'",
	".", "[", "]", "[0]", "[2]", "]", ",", ",", "-", "+", "*", "/", "%", "5", "2.5", "1e3", "\"s\"", "\"\"", "ABS", "POW", "ATAN2", "PI", "E", "DATE", "META", "META()", "PI()", "REGEXP_CONTAINS", "ROUND",
	":", ";", "#", "@", "$", "&", "|", "{", "}", "?", "\\", "~", "^", "and", "or", "not", "is", "null", "exists", "LIKE", "ABS(a)", "EXISTS(a)", "IS NULL", "= 5", "a = 1", "AND b = 2", "OR", ")"}

// editTokens changes a text by tokens: some are lost, doubled, exchanged,
// replaced, moved or new. The text between them stays.
func editTokens(r *Rng, t string, ts []ftok) (string, string) {
	type piece struct{ gap, tok string }
	var ps []piece
	at := 0
	for _, x := range ts {
		ps = append(ps, piece{t[at:x.a], t[x.a:x.b]})
		at = x.b
	}
	tail := t[at:]
	var how []string
	n := 1 + r.W(75, 20, 5)
	for k := 0; k < n && len(ps) > 0; k++ {
		i := r.N(len(ps))
		put := func(j int, s string) {
			ps = append(ps[:j:j], append([]piece{{" ", s}}, ps[j:]...)...)
			if j+1 < len(ps) {
				ps[j+1].gap = " " + ps[j+1].gap
			}
		}
		switch r.W(25, 20, 20, 12, 8, 8, 7) {
		case 0:
			how = append(how, "lost "+ps[i].tok)
			ps = append(ps[:i:i], ps[i+1:]...)
			if i < len(ps) {
				ps[i].gap = " " + ps[i].gap
			}
		case 1:
			how = append(how, "doubled "+ps[i].tok)
			put(i, ps[i].tok)
		case 2:
			w := r.Pick(filterWords)
			how = append(how, "new "+w)
			put(r.N(len(ps)+1), w)
		case 3:
			w := r.Pick(filterWords)
			how = append(how, ps[i].tok+" becomes "+w)
			ps[i].tok = w
			ps[i].gap += " "
			tail = " " + tail
		case 4:
			j := r.N(len(ps))
			how = append(how, "exchanged "+ps[i].tok+" and "+ps[j].tok)
			ps[i].tok, ps[j].tok = ps[j].tok, ps[i].tok
			for k := range ps {
				ps[k].gap += " "
			}
		case 5: // a run of them
			j := min(len(ps), i+r.In(2, 6))
			how = append(how, "lost several from "+ps[i].tok)
			ps = append(ps[:i:i], ps[j:]...)
			if i < len(ps) {
				ps[i].gap = " " + ps[i].gap
			}
		case 6:
			j := min(len(ps), i+r.In(2, 6))
			how = append(how, "doubled several from "+ps[i].tok)
			run := append([]piece{}, ps[i:j]...)
			run[0].gap = " " + run[0].gap
			ps = append(ps[:j:j], append(run, ps[j:]...)...)
			if j+len(run) < len(ps) {
				ps[j+len(run)].gap = " " + ps[j+len(run)].gap
			}
		}
	}
	var sb strings.Builder
	for _, p := range ps {
		sb.WriteString(p.gap + p.tok)
	}
	return sb.String() + tail, join(how)
}

// caseFilterTokens: valid texts changed by tokens. What cannot be derived from
// the grammar any more has to give an error.
func caseFilterTokens(c *Case) {
	r := c.R
	doc := filterDoc(r)
	docs := someDocs(r, doc)
	f := newFgen(r, doc)
	t, _ := f.or(r.In(0, 2))
	ts, ok := filterTokens(t)
	if !ok || !filterDerivable(t) {
		c.Fail("recogniser", "the recogniser does not know a valid text\n  filter: %q", t)
		return
	}
	if len(ts) > 120 {
		return
	}
	for i := 0; i < 12; i++ {
		b, how := editTokens(r, t, ts)
		if !judgeTokens(c, b, how, t, docs) {
			return
		}
	}
}

// judgeTokens: a text outside the grammar has to be an error. The texts are
// parsed with the parser a first call of NewFilterExpressionParser gave; one
// it accepts goes through GetFilterExpressionMatcher too, and that decides.
func judgeTokens(c *Case, b, how, from string, docs []string) bool {
	if len(b) == 0 {
		return true
	}
	derivable := filterDerivable(b)
	if !derivable && !c.R.P(20) {
		if quickReject(b) {
			c.Eval(1)
			c.Nontrivial(b)
			c.Count("outside the grammar")
			return true
		}
	}
	accepted := tryText(c, "filter", b, docs, func(t string) (g.Matcher, error) { return g.GetFilterExpressionMatcher(t) })
	switch {
	case !derivable && accepted:
		c.Fail("accepted", "a text outside the grammar was accepted (%s)\n  filter: %q\n  made from: %q", how, b, from)
		return false
	case !derivable:
		c.Count("outside the grammar")
	case accepted:
		c.Count("still inside the grammar, accepted")
	default:
		c.Count("still inside the grammar, rejected")
	}
	return true
}

var tokenParsers = sync.Pool{New: func() any {
	p, _, err := g.NewFilterExpressionParser("a = 1")
	if err != nil {
		return nil
	}
	return func(t string) (rejected bool) {
		defer func() {
			if recover() != nil {
				rejected = false // the full way decides
			}
		}()
		return p.ParseString(t, &g.FilterExpression{}) != nil
	}
}}

func quickReject(t string) bool {
	f, _ := tokenParsers.Get().(func(string) bool)
	if f == nil {
		return false
	}
	defer tokenParsers.Put(f)
	return f(t)
}

// tokenBases: together they use every construct of the grammar; caseFilterToken1
// makes every change of a single token in each of them.
var tokenBases = []string{
	"a = 1 AND b = 2 OR c <> 3",
	"(a = 1 OR b = 2) AND NOT c < 3 AND NOT EXISTS(d)",
	"NOT NOT a >= 1 OR (NOT b = 2)",
	"a IS NULL AND b IS NOT NULL OR c IS MISSING AND d IS NOT MISSING",
	"EXISTS(a.b[2].c)",
	"EXISTS(a) AND EXISTS(`b c`)",
	"a.`b c`.'d'[0][1] != \"s\"",
	"a == TRUE AND b <> FALSE",
	"a = TRUE OR 5 <= b",
	"ABS(a) > -5",
	"-a = -1.5",
	"a = -b",
	"POW(a, 2) < ATAN2(1.5, b.c)",
	"ABS(POW(a, SQRT(b))) = 2",
	"a = PI() AND b > E()",
	"REGEXP_CONTAINS(a.b, \"x+\")",
	"NOT REGEXP_CONTAINS(`a`, \"x\") AND b = \"c\"",
	"DATE(a) >= DATE(\"2019-01-01\")",
	"a + 1 = b * 2",
	"a % 2 = b - 1",
	"a / 2 + 1 > 3",
	"META().id = \"x\"",
	"\"s\" = a AND 2 = 2",
	"((a = 1)) OR (b IS NULL)",
	"ROUND(a.b) <> CEIL(FLOOR(c))",
	"DEGREES(a) = RADIANS(b)",
}

func caseFilterToken1(c *Case) {
	base := tokenBases[c.Idx%len(tokenBases)]
	part := c.Idx / len(tokenBases)
	docs := []string{`{"a":1,"b":2,"c":{"d":"e"}}`, `{"a":{"b":[1,2,{"c":null}]},"b c":"x"}`}
	ts, ok := filterTokens(base)
	if !ok || !filterDerivable(base) {
		c.Fail("recogniser", "the recogniser does not know a valid text\n  filter: %q", base)
		return
	}
	toks := make([]string, len(ts))
	for i, t := range ts {
		toks[i] = base[t.a:t.b]
	}
	if !tryText(c, "filter", base, docs, getFilter) {
		c.Fail("rejected", "a valid text was rejected\n  filter: %q", base)
		return
	}
	with := func(a, b int, w ...string) string {
		return strings.Join(append(append(append([]string{}, toks[:a]...), w...), toks[b:]...), " ")
	}
	for i := 0; i <= len(toks); i++ {
		if i%4 != part%4 {
			continue
		}
		if i < len(toks) {
			if !judgeTokens(c, with(i, i+1), "lost "+toks[i], base, docs) ||
				!judgeTokens(c, with(i, i, toks[i]), "doubled "+toks[i], base, docs) {
				return
			}
			for j := i + 1; j < len(toks); j++ {
				if !judgeTokens(c, with(i, j+1), "lost several from "+toks[i], base, docs) {
					return
				}
			}
		}
		for _, w := range filterWords {
			if !judgeTokens(c, with(i, i, w), "new "+w, base, docs) {
				return
			}
			if i < len(toks) && !judgeTokens(c, with(i, i+1, w), toks[i]+" becomes "+w, base, docs) {
				return
			}
		}
	}
}
