package main

import (
	"strings"
)

// The simple language by tokens: texts made of known words with blanks between
// them, and a recogniser of what can be derived, written from the comment that
// documents the language and meant to be generous: values, booleans, fields and
// functions are all taken on the right of an operator.

type sword struct{ text, kinds string }

// kinds: f field or function, v number, q quoted value, t boolean, o comparison, l LIKE, E
// EXISTS, I IS, N NOT, U NULL, M MISSING, c AND or OR
var simpleWords = []sword{
	{"a", "f"}, {"b.c", "f"}, {"`d e`", "f"}, {"a[0]", "f"}, {"a[1].`x y`", "f"}, {"ABS(a)", "f"}, {"POW(a,2)", "f"}, {"PI()", "f"},
	{"5", "v"}, {"-2.5", "v"}, {"\"s\"", "q"}, {"'s t'", "q"}, {"\"\"", "q"}, {"\"AND\"", "q"}, {"true", "t"}, {"false", "t"},
	{"=", "o"}, {"==", "o"}, {"!=", "o"}, {"<", "o"}, {"<=", "o"}, {">", "o"}, {">=", "o"}, {"LIKE", "l"}, {"=~", "l"},
	{"EXISTS", "E"}, {"IS", "I"}, {"NOT", "N"}, {"NULL", "U"}, {"MISSING", "M"}, {"AND", "c"}, {"&&", "c"}, {"OR", "c"}, {"||", "c"}, {"(", "("}, {")", ")"},
	{"IS NULL", "IU"}, {"IS NOT NULL", "INU"}, {"IS MISSING", "IM"}, {"NOT LIKE", "Nl"}, {"IS NOT", "IN"}, {"= 5", "ov"}, {"AND a = 1", "cfov"}, {"( b.c > 2 )", "(fov)"}, {"OR (", "c("}, {") AND", ")c"}, {"LIKE \"x+\"", "lq"},
}

// simpleDerivable: expr = term { chain term }; term = ( expr ) | boolean | field condition
func simpleDerivable(k string) bool {
	var expr func(i int) []int
	operand := func(i int) []int {
		if i < len(k) && strings.IndexByte("fqvtUM", k[i]) >= 0 {
			return []int{i + 1}
		}
		return nil
	}
	term := func(i int) (e []int) {
		if i >= len(k) {
			return nil
		}
		switch k[i] {
		case '(':
			for _, j := range expr(i + 1) {
				if j < len(k) && k[j] == ')' {
					e = append(e, j+1)
				}
			}
			return e
		case 't', 'q', 'f', 'U', 'M': // NULL and MISSING can be names; what a quoted value or a boolean says there is open
			if k[i] == 't' {
				e = append(e, i+1)
			}
			for _, s := range []string{"E", "IU", "INU", "IM"} {
				if strings.HasPrefix(k[i+1:], s) {
					e = append(e, i+1+len(s))
				}
			}
			for _, s := range []string{"o", "l", "Nl"} {
				if strings.HasPrefix(k[i+1:], s) {
					e = append(e, operand(i+1+len(s))...)
				}
			}
		}
		return e
	}
	expr = func(i int) []int {
		seen := map[int]bool{}
		todo := term(i)
		var all []int
		for len(todo) > 0 {
			j := todo[0]
			todo = todo[1:]
			if seen[j] {
				continue
			}
			seen[j] = true
			all = append(all, j)
			if j < len(k) && k[j] == 'c' {
				todo = append(todo, term(j+1)...)
			}
		}
		return all
	}
	for _, e := range expr(0) {
		if e == len(k) {
			return true
		}
	}
	return false
}

var simpleBases = []string{
	"a = 5",
	"a == 5 AND b.c != -2.5",
	"a = 5 OR b.c < \"s\" OR `d e` >= 's t'",
	"a = 5 && b.c LIKE \"s\" && a[0] EXISTS",
	"a =~ 's t' || b.c NOT LIKE \"s\"",
	"a IS NULL OR b.c IS NOT NULL AND `d e` IS MISSING",
	"( a = 5 )",
	"( a = 5 AND b.c EXISTS ) OR ( a[0] != 5 )",
	"( ( a <= 5 OR b.c = \"\" ) AND a[1].`x y` > 5 ) OR true",
	"true AND ( a EXISTS OR false )",
	"ABS(a) >= 5 AND POW(a,2) = PI()",
	"a = \"AND\" AND ( true )",
	"a IS NOT NULL AND ( b.c IS MISSING )",
	"a NOT LIKE \"s\" OR ( b.c LIKE 's t' AND a EXISTS )",
	"a = 5 AND b.c = 5 OR a = -2.5 AND ( a[0] = 5 OR a = 5 )",
	"( a = 5 ) AND ( b.c = 5 ) AND ( a EXISTS )",
	"( ( ( a = 5 ) ) )",
	"false OR a = ABS(a)",
}

func simpleBaseWords(t string) []sword {
	var ws []sword
	for t != "" {
		best := sword{}
		for _, w := range simpleWords {
			if (t == w.text || strings.HasPrefix(t, w.text+" ")) && len(w.text) > len(best.text) && len(w.kinds) == 1 {
				best = w
			}
		}
		if best.text == "" {
			return nil
		}
		ws = append(ws, best)
		t = strings.TrimPrefix(t[len(best.text):], " ")
	}
	return ws
}

// caseSimpleToken1 makes every change of one word in the bases, and some of two.
func caseSimpleToken1(c *Case) {
	base := simpleBases[c.Idx%len(simpleBases)]
	part := c.Idx / len(simpleBases)
	docs := []string{`{"a":5,"b":{"c":"s"},"d e":1}`, `{"a":[1,{"x y":2}],"b":{"c":null}}`}
	ws := simpleBaseWords(base)
	kinds := func(ws []sword) string {
		var sb strings.Builder
		for _, w := range ws {
			sb.WriteString(w.kinds)
		}
		return sb.String()
	}
	text := func(ws []sword) string {
		var ts []string
		for _, w := range ws {
			ts = append(ts, w.text)
		}
		return strings.Join(ts, " ")
	}
	if ws == nil || text(ws) != base || !simpleDerivable(kinds(ws)) {
		c.Fail("recogniser", "the recogniser does not know a valid text\n  simple expression: %q", base)
		return
	}
	if !tryText(c, "simple expression", base, docs, getSimple) {
		c.Fail("rejected", "a valid text was rejected\n  simple expression: %q", base)
		return
	}
	judge := func(ws []sword, how string) bool {
		t, ok := text(ws), simpleDerivable(kinds(ws))
		accepted := tryText(c, "simple expression", t, docs, getSimple)
		switch {
		case !ok && accepted:
			c.Fail("accepted "+kinds(ws), "a malformed text was accepted (%s)\n  simple expression: %q\n  made from: %q", how, t, base)
			return allFails
		case !ok:
			c.Count("malformed by one word")
		case accepted:
			c.Count("still valid, accepted")
		default:
			c.Count("still valid, rejected")
		}
		return true
	}
	with := func(ws []sword, a, b int, n ...sword) []sword {
		return append(append(append([]sword{}, ws[:a]...), n...), ws[b:]...)
	}
	r := c.R
	for i := 0; i <= len(ws); i++ {
		if i%4 != part%4 {
			continue
		}
		for j := i + 1; j <= len(ws); j++ {
			if !judge(with(ws, i, j), "lost "+text(ws[i:j])) || !judge(with(ws, i, i, ws[i:j]...), "doubled "+text(ws[i:j])) {
				return
			}
			if j < len(ws) {
				x := with(ws, i, i+1, ws[j])
				x[j] = ws[i]
				if !judge(x, "exchanged "+ws[i].text+" and "+ws[j].text) {
					return
				}
			}
		}
		for _, w := range simpleWords {
			n := with(ws, i, i, w)
			if !judge(n, "new "+w.text) {
				return
			}
			if i < len(ws) {
				n = with(ws, i, i+1, w)
				if !judge(n, ws[i].text+" becomes "+w.text) {
					return
				}
			}
			for k := 0; k < 3; k++ {
				j, w2 := r.N(len(n)), simpleWords[r.N(len(simpleWords))]
				m := with(n, j, j+r.N(2), w2)
				if !judge(m, "new "+w.text+" and "+w2.text) {
					return
				}
			}
		}
	}
}
