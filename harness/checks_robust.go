package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// beyond: bytes that could pass for a continuation of the input
func beyond(txt []byte) string {
	if len(txt) > 0 {
		switch b := txt[len(txt)-1]; {
		case b >= '0' && b <= '9' && len(txt)%3 != 0:
			return "7053,}]"
		case b == '.' || b == 'e' || b == 'E' || b == '-' || b == '+':
			return "42}],"
		case b >= 'a' && b <= 'z':
			for _, w := range []string{"true", "false", "null"} {
				for i := 1; i < len(w); i++ {
					if bytes.HasSuffix(txt, []byte(w[:i])) && len(txt)%3 != 0 {
						return w[i:] + "}],"
					}
				}
			}
			return "a\",}]"
		case b == '\\':
			return "n\",}]"
		}
	}
	return []string{"}]}\"]}}]5,", "\":1,}]", ",\"a\":1}", "]}0"}[len(txt)%4]
}

// robustRun matches txt inside a larger buffer twice, with different bytes
// after the end, and checks that neither the input nor the surroundings change
// and that what lies after the end makes no difference.
func robustRun(c *Case, m *g.FastMatcher, desc func() string, txt []byte, valid bool) outcome {
	mk := func(fill string) []byte {
		b := make([]byte, 0, len(txt)+64)
		b = append(b, txt...)
		full := b[:cap(b)]
		for i := len(txt); i < len(full); i++ {
			full[i] = fill[(i-len(txt))%len(fill)]
		}
		return b
	}
	var res [2]outcome
	for k, fill := range [2]string{beyond(txt), "\x00\"aa,:{["} {
		b := mk(fill)
		keep := append([]byte(nil), b[:cap(b)]...)
		m.Reset()
		res[k] = run(m, b)
		c.Eval(1)
		if !bytes.Equal(keep, b[:cap(b)]) {
			c.Fail("input written", "the input buffer was changed\n  %s\n  document: %q", desc(), txt)
		}
	}
	o := res[0]
	if o.Panic {
		c.Fail("panic", "%v\n  %s\n  document: %q", o, desc(), clip(string(txt), 3000))
		return o
	}
	if res[0] != res[1] {
		c.Fail("overread", "%v or %v, depending on bytes after the end of the input\n  %s\n  document: %q", res[0], res[1], desc(), txt)
	}
	if valid && o.Err != "" {
		c.Fail("error", "%v on a valid document\n  %s\n  document: %s", o, desc(), clip(string(txt), 3000))
	}
	if valid {
		c.Count("valid inputs")
	} else {
		c.Count("invalid inputs")
		c.Nontrivial(desc() + string(txt))
		c.Sample(func() string { return fmt.Sprintf("%s on %q -> %v", desc(), txt, o) })
	}
	if o.Err != "" {
		c.Count("errors")
		if o.Match {
			c.Fail("error", "a match along with an error: %v\n  %s\n  document: %q", o, desc(), clip(string(txt), 3000))
		}
	}
	return o
}

func robustExpr(c *Case, doc *J) ([]*E, *g.FastMatcher, func() string) {
	r := c.R
	var xs []*E
	n := 1
	if r.P(20) {
		n = 2
	}
	e := newEgen(r, doc, randOpts(r))
	for i := 0; i < n; i++ {
		e.nCond = 0
		xs = append(xs, e.expr(r.In(0, 3)))
	}
	m, err := compile(xs...)
	if err != nil {
		c.Fail("compile", "%v\n  %v", err, xs)
		return nil, nil, nil
	}
	return xs, m, func() string {
		var ss []string
		for _, x := range xs {
			ss = append(ss, x.String())
		}
		return "expression: " + join(ss)
	}
}

func caseCorrupt(c *Case) {
	r := c.R
	doc := genDoc(r)
	_, m, desc := robustExpr(c, doc)
	if m == nil {
		return
	}
	for k := 0; k < 6; k++ {
		t := docText(mutate(r, doc, 10), fullStyle(r))
		if k > 0 {
			t = corrupt(r, t)
		}
		robustRun(c, m, desc, []byte(t), json.Valid([]byte(t)))
	}
}

func casePrefixes(c *Case) {
	r := c.R
	doc := genObj(r, 3, defaultGen)
	_, m, desc := robustExpr(c, doc)
	if m == nil {
		return
	}
	t := docText(doc, fullStyle(r))
	if len(t) > 400 {
		t = t[:400]
	}
	for i := 0; i <= len(t); i++ {
		robustRun(c, m, desc, []byte(t[:i]), json.Valid([]byte(t[:i])))
	}
}

var soupTok = []string{"{", "}", "[", "]", ":", ",", "\"a\"", "\"b\"", "\"\"", "\"x\\n\"", "1", "-1", "0.5", "1e5", "true", "false", "null", " ", "\n",
	"\"a\":", "\"b\":", "\"a\":1", "\"list\":[", "\"", "\\", "-", "1.", "1e", "tru", "nul", "fals", "\x00", "\xff", "\xc3\x28", "\ufeff", "//", "\"\\u12\"", "\"\\ud800\"", "\"\\x\"", "01", "+1", ".5", "0x1", "NaN", "Infinity", "'a'", "1e999", "-1e999", "123456789012345678901234567890", "1e-999"}

func caseSoup(c *Case) {
	r := c.R
	doc := genObj(r, 2, defaultGen)
	_, m, desc := robustExpr(c, doc)
	if m == nil {
		return
	}
	for k := 0; k < 5; k++ {
		var sb strings.Builder
		n := r.In(1, 24)
		switch r.N(3) {
		case 0:
			for i := 0; i < n; i++ {
				sb.WriteString(r.Pick(soupTok))
			}
		case 1:
			for i := 0; i < n*3; i++ {
				sb.WriteByte(byte(r.U64()))
			}
		case 2:
			// a valid document with tokens spliced in
			t := docText(doc, nil)
			i := r.N(len(t) + 1)
			sb.WriteString(t[:i])
			sb.WriteString(r.Pick(soupTok))
			sb.WriteString(t[i:])
		}
		b := []byte(sb.String())
		robustRun(c, m, desc, b, json.Valid(b))
	}
}

// caseDeep: nesting, long strings and numbers, many members.
func caseDeep(c *Case) {
	r := c.R
	// the stack of the worker is limited to 64 MB, a sixteenth of what Go allows
	n := []int{100, 1000, 10000, 100000, 400000, 3000000}[r.N(6)]
	kind := r.N(9)
	if n > 400000 {
		kind = []int{0, 1, 6, 7, 8}[r.N(5)]
	}
	var t string
	switch kind {
	case 0:
		t = strings.Repeat("[", n) + strings.Repeat("]", n)
	case 1:
		t = strings.Repeat("{\"a\":", n) + "1" + strings.Repeat("}", n)
	case 2:
		t = "{\"a\":\"" + strings.Repeat("\\u00e9x", n) + "\"}"
	case 3:
		t = "{\"a\":" + strings.Repeat("9", n) + "}"
	case 4:
		var sb strings.Builder
		sb.WriteString("{")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "\"k%d\":%d,", i, i)
		}
		sb.WriteString("\"a\":1}")
		t = sb.String()
	case 5:
		t = "{\"a\":[" + strings.Repeat("1,", n) + "2],\"list\":[" + strings.Repeat("{\"a\":1},", n/10) + "{}]}"
	case 6:
		t = strings.Repeat("[", n)
	case 7:
		t = "{\"a\":" + strings.Repeat("{\"list\":[[", n/4)
	case 8:
		// in a member or an element that is passed over
		t = r.Pick([]string{"{\"z\":", "[", "{\"list\":[", "{\"list\":[{\"z\":", "{\"a\":{\"z\":"}) + strings.Repeat(r.Pick([]string{"[", "{\"a\":", "[{\"b\":", "[1,["}), n)
	}
	xs := []*E{Cmp(Fld("a"), OpEQ, Lit(JInt(1))), Exists(Fld("a", "a", "a")), Loop(EAny, 1, Fld("list"), Cmp(VarFld(1, "a"), OpEQ, Lit(JInt(1)))),
		Cmp(Fld("a"), OpLT, Fld("b")), Like(Fld("a"), "x+$"), Loop(EEvery, 1, Fld("a"), Cmp(VarFld(1), OpGT, Lit(JInt(0)))), Cmp(Fn("mathAdd", Fld("a"), Lit(JInt(1))), OpGT, Lit(JInt(3)))}
	x := xs[r.N(len(xs))]
	m, err := compile(x)
	if err != nil {
		c.Fail("compile", "%v", err)
		return
	}
	robustRun(c, m, func() string { return "expression: " + x.String() }, []byte(t), json.Valid([]byte(t)))
	c.Count(fmt.Sprintf("deep:%d", n))
}

// tokenSpans splits valid JSON text into its tokens.
func tokenSpans(t string) [][2]int {
	var out [][2]int
	for i := 0; i < len(t); {
		j := i + 1
		switch ch := t[i]; {
		case ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r':
			i++
			continue
		case ch == '"':
			for t[j] != '"' {
				if t[j] == '\\' {
					j++
				}
				j++
			}
			j++
		case strings.IndexByte("{}[],:", ch) >= 0:
		default:
			for j < len(t) && strings.IndexByte("{}[],: \t\n\r", t[j]) < 0 {
				j++
			}
		}
		out = append(out, [2]int{i, j})
		i = j
	}
	return out
}

var strayBytes = []string{"@", "'", "\x00", "\xff", "/", "\v", "\f", "\u00a0", "\\", "x", "T", "N", "+", ".", ";", "=", "(", "\x1f", "\x7f", "\ufeff", "E", "_", "#", "!", "`"}
var badNumbers = []string{"1.", "1.x", "1e", "1e+", "1E-", "-", "-x", "-.5", "+1", ".5", "1.e5", "1.5e", "1.5e+x", "0.", "-0.", "0e", "--1", "1e5.", "- 1", "1.-5", "0x1F", "1_000", "Infinity", "-Infinity", "NaN", "1e++5", "1eE5"}
var badLiterals = []string{"tru", "truE", "True", "TRUE", "t", "tr", "trxe", "fals", "falsE", "f", "fa", "falze", "nul", "nulL", "n", "nil", "nu", "Null", "none", "undefined", "txue", "nxll", "fxlse"}
var badEscapes = []string{"\\x", "\\'", "\\ ", "\\0", "\\U0041", "\\a", "\\v", "\\u", "\\u1", "\\u12", "\\u123", "\\u12G4", "\\uG123", "\\u1g23", "\\u123g", "\\u 123", "\\u-123", "\\N", "\\T", "\\u00:0", "\\u@000", "\\u0`00", "\\u00/0"}

// badEscape: an escape in which one byte, any byte, is wrong.
func badEscape(r *Rng) string {
	switch r.N(3) {
	case 0:
		for {
			if b := byte(r.N(256)); strings.IndexByte("\"\\/bfnrtu", b) < 0 {
				return "\\" + string([]byte{b})
			}
		}
	case 1:
		for {
			h := []byte(fmt.Sprintf("%04x", r.N(65536)))
			if b := byte(r.N(256)); !isHex(b) && b != '"' && b != '\\' {
				h[r.N(4)] = b
				return "\\u" + string(h)
			}
		}
	}
	return r.Pick(badEscapes)
}

// badLiteral: true, false or null with one byte, any byte, wrong.
func badLiteral(r *Rng) string {
	if r.P(50) {
		return r.Pick(badLiterals)
	}
	l := []byte(r.Pick([]string{"true", "false", "null"}))
	i := r.N(len(l))
	if b := byte(r.N(256)); b != l[i] && !(i == 0 && strings.IndexByte("{}[],:\" \t\r\n", b) >= 0) {
		l[i] = b
		return string(l)
	}
	return r.Pick(badLiterals)
}

// badNumber: a number with one byte, any byte, wrong.
func badNumber(r *Rng) string {
	if r.P(60) {
		return r.Pick(badNumbers)
	}
	n := []byte(r.Pick([]string{"12.5e+3", "-7", "-10", "0.25", "1E5", "-3.25e-7", "123456", "1e10"}))
	for {
		if b := byte(r.N(256)); strings.IndexByte("{}[],:\"-0123456789 \t\r\n", b) < 0 {
			if n[r.N(len(n))] = b; !json.Valid(n) {
				return string(n)
			}
		}
	}
}

// stray: something that begins no token.
func stray(r *Rng) string {
	if r.P(50) {
		return r.Pick(strayBytes)
	}
	for {
		if b := byte(r.N(256)); strings.IndexByte("{}[],:\"-0123456789tfn \t\r\n", b) < 0 {
			return string([]byte{b})
		}
	}
}

// caseTokens spoils one token of a valid document. Scans that must reach the
// end (nothing looked for is there) have to report it.
func caseTokens(c *Case) {
	r := c.R
	doc := genDoc(r)
	if doc.K != KObj {
		return
	}
	spoil(c, doc, 12)
}

func spoil(c *Case, doc *J, times int) {
	r := c.R
	e := newEgen(r, doc, stdExpr())
	var alts []*E
	for i, n := 0, r.In(1, 4); i < n; i++ {
		o, v := e.field()
		p := append([]string{}, o.Path...)
		if r.P(30) && len(p) > 0 {
			p = p[:r.N(len(p))]
			v = nil
		}
		o = Fld(append(p, "zzz-absent")...)
		if strings.HasPrefix(o.Path[0], "[") {
			o = Fld("zzz-absent")
		}
		switch {
		case v != nil && v.K == KArr && r.P(60):
			alts = append(alts, Loop(EAny, 1, Fld(p...), Exists(VarFld(1, "zzz-absent"))))
		case r.P(50):
			alts = append(alts, Exists(o))
		case r.P(50):
			alts = append(alts, Cmp(o, OpEQ, Lit(JInt(1))))
		default:
			alts = append(alts, Cmp(o, OpLT, Fld("zzz-none")))
		}
	}
	// loops are decided when the array ends; this is not
	alts = append(alts, Exists(Fld("zzz-none")))
	x := Or(alts...)
	if len(alts) > 2 && r.P(30) {
		x = Or(And(alts[2], alts[0]), alts[1], Exists(Fld("zzz-none")))
	}
	m, err := compile(x)
	if err != nil {
		c.Fail("compile", "%v\n  %v", err, x)
		return
	}
	t := docText(doc, fullStyle(r))
	sp := tokenSpans(t)
	if !json.Valid([]byte(t)) || len(sp) < 3 {
		return
	}
	for k := 0; k < times; k++ {
		how, bad, txt, a := spoilToken(r, t, sp)
		if how == "" {
			continue
		}
		o := robustRun(c, m, func() string { return "expression: " + x.String() }, []byte(txt), false)
		c.Count("spoilt:" + how)
		if o.Err == "" && !o.Panic {
			c.Fail("accepted", "%v on a document with a malformed token (%s: %q at %d)\n  expression: %v\n  document: %q", o, how, clip(bad, 60), a, clip(x.String(), 1000), clip(txt, 2000))
		}
	}
}

// spoilToken makes one token of a valid text malformed, but neither the first
// nor the last.
func spoilToken(r *Rng, t string, sp [][2]int) (how, bad, txt string, a int) {
	i := r.In(1, len(sp)-2)
	a, b := sp[i][0], sp[i][1]
	tok := t[a:b]
	rest := t[b:]
	switch w := r.N(10); {
	case w < 2:
		how = "stray"
		bad = tok + stray(r)
		if r.P(50) {
			bad = tok + " " + bad[len(tok):]
		}
		if tok[0] != '"' && (tok[0] == '-' || tok[0] >= '0' && tok[0] <= '9') {
			bad = tok + " " + stray(r) // 1.5 and 1E5 are numbers
		}
	case tok[0] == '"' && w < 4:
		how = "escape"
		cut := inString(r, tok)
		bad = tok[:cut] + badEscape(r)
		rest = tok[cut:] + rest
		if nb := bad + rest; strings.Contains(bad[cut:], "u") && isHex(nb[len(bad)]) {
			bad += "z" // what follows does not complete the escape
		}
	case tok[0] == '"' && w < 6:
		how = "control"
		cut := inString(r, tok)
		bad = tok[:cut] + string(rune(r.N(32)))
		rest = tok[cut:] + rest
	case tok[0] == '"' && w < 8:
		how = "cut"
		bad, rest = tok[:r.In(1, len(tok)-1)], ""
	case strings.IndexByte("{}[],:", tok[0]) >= 0 && w < 7:
		how = "stray"
		bad = stray(r) + tok
		if prev := t[sp[i-1][0]]; prev == '-' || prev >= '0' && prev <= '9' {
			bad = " " + bad
		}
	case strings.IndexByte("{}[],:", tok[0]) >= 0:
		return "", "", "", 0
	case tok[0] == '"' && t[sp[i+1][0]] == ':':
		how = "key"
		bad = r.Pick(append(badLiterals, badNumbers...))
	case w < 9:
		how = "number"
		bad = badNumber(r)
	default:
		how = "literal"
		bad = badLiteral(r)
	}
	if (how == "number" || how == "literal") && r.P(15) {
		rest = ""
	}
	txt = t[:a] + bad + rest
	if json.Valid([]byte(txt)) {
		return "", "", "", 0
	}
	return how, bad, txt, a
}

func isHex(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}

// inString picks a place between two characters of a quoted string.
func inString(r *Rng, tok string) int {
	var at []int
	for i := 1; i < len(tok); {
		at = append(at, i)
		switch {
		case tok[i] == '\\' && tok[i+1] == 'u':
			i += 6
		case tok[i] == '\\':
			i += 2
		default:
			i++
		}
	}
	return at[r.N(len(at))]
}
