package main

import "strings"

// poison makes a text generator write one atom of a text wrong, wherever in
// the grammar it happens to be. A text in which that happened is malformed.
type poison struct {
	r    *Rng
	left int
	what string // the wrong atom
	kind string
	sure bool
}

func newPoison(r *Rng) *poison { return &poison{r: r, left: 1} }

// spoil decides whether the atom being written goes wrong, and how.
func (p *poison) spoil(kind string, pct int, bad []string) (string, bool) {
	if p == nil || p.left == 0 || !p.r.P(pct) {
		return "", false
	}
	p.left--
	p.what, p.kind = p.r.Pick(bad), kind
	if kind == "date" || kind == "regex" {
		p.sure = true // it will be quoted
		return p.what, true
	}
	return mark + p.what, true
}

// mark precedes the wrong atom until the text is complete: generators drop some of what they produce.
const mark = "\ue123"

func (p *poison) finish(t string) (string, bool) {
	u := strings.Replace(t, mark, "", -1)
	return u, p.sure || u != t
}

func badDates(r *Rng) []string {
	return []string{"soon", "", "2019-13-01", "2019-00-10", "2019-01-32", "2019-1-1", "19-01-01", "2019-01-01T", "2019-01-01T25:00:00Z", "2019-01-01T10:61:00Z",
		"2019-01-01T10:00:00+", "x2019-01-01", "2019-01-01 ", "2019-01-0a"}
}

var badRegexes = []string{"[", "(a", "*a", "a{2,1}", "a)", "[b-a]", "(?P<x", "a\\", "+", "(?z)", "\\8"}

// filter language

func badField(t string) []string {
	return []string{t + "[-1]", t + "[x]", t + "[1.5]", t + "[01]", t + "[00]", t + "[0x1]", t + "[1_0]", t + "[0b1]", t + "[007]", t + "[]", t + "[1", t + ".", t + "..b", t + "]", t + " " + t, "(" + t, t + "[`0`]", t + "[\"0\"]"}
}

var wrongNumbers = []string{"1.2.3", "5 6", "99999999999999999999", "5 (", "(5", "5)", "1 2.5", "- .", ", 5", "5 ]"}

func badFuncs(f string) []string {
	return []string{"NOSUCHFUNC(" + f + ")", "ABS()", "POW(" + f + ")", "POW(,2)", "POW(2,)", "ABS(" + f + ",1)", "ATAN2(" + f + ",1,2)", "PI(" + f + ")", "abs(" + f + ")", "ABS(" + f, "ABS " + f,
		"DATE(\"soon\")", "DATE(\"2019-99-01\")", "DATE()", "DATE(" + f + ",1)", "EXISTS(" + f + ")", "ABS(" + f + " = 1)"}
}

// missing or superfluous parentheses
func spoilParens(r *Rng, t string) (string, bool) {
	if strings.ContainsAny(t, "\"'`") {
		return "", false
	}
	k := r.In(1, 3)
	if r.P(40) {
		return strings.Repeat("(", k) + t, true
	}
	if r.P(30) {
		return t + strings.Repeat(")", k), true
	}
	// one of those it has is lost
	var at []int
	for i := 0; i < len(t); i++ {
		if t[i] == '(' || t[i] == ')' {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return "", false
	}
	if k > len(at) {
		k = len(at)
	}
	side := "()"[r.N(2)]
	n := 0
	b := []byte(t)
	for i := 0; i < len(at) && n < k; i++ {
		j := at[len(at)-1-i]
		if b[j] == side {
			b[j] = ' '
			n++
		}
	}
	return string(b), n > 0
}
