package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// ---------------- C18: expressions written as JSON ----------------

func jlist(name string, xs ...*J) *J {
	return JArr(append([]*J{JStr(name)}, xs...)...)
}

func (o *Opd) asJSON() *J {
	switch o.K {
	case OField:
		var xs []*J
		if o.Root != 0 {
			xs = append(xs, JInt(int64(o.Root)))
		}
		for _, p := range o.Path {
			xs = append(xs, JStr(p))
		}
		return jlist("field", xs...)
	case OLit:
		return jlist("value", o.Lit)
	case OTime:
		return jlist("time", JStr(o.Time))
	}
	xs := []*J{JStr(o.Fn)}
	for _, a := range o.Args {
		xs = append(xs, a.asJSON())
	}
	return jlist("func", xs...)
}

var jsonOps = map[CmpOp]string{OpEQ: "equals", OpNE: "notequals", OpLT: "lessthan", OpLE: "lessequals", OpGT: "greaterthan", OpGE: "greaterequals"}

func (x *E) asJSON() *J {
	subs := func() []*J {
		var xs []*J
		for _, s := range x.Sub {
			xs = append(xs, s.asJSON())
		}
		return xs
	}
	switch x.K {
	case EAnd:
		return jlist("and", subs()...)
	case EOr:
		return jlist("or", subs()...)
	case ENot:
		return jlist("not", subs()...)
	case ECmp:
		return jlist(jsonOps[x.Op], x.L.asJSON(), x.R.asJSON())
	case EExists:
		return jlist("exists", x.L.asJSON())
	case ENotExists:
		return jlist("notexists", x.L.asJSON())
	case ELike:
		return jlist("like", x.L.asJSON(), jlist("regex", JStr(x.Re)))
	case EAny, EEvery, EAnyEvery:
		return jlist(map[EK]string{EAny: "anyin", EEvery: "everyin", EAnyEvery: "anyeveryin"}[x.K], JInt(int64(x.Var)), x.In.asJSON(), x.Sub[0].asJSON())
	}
	panic("no JSON form")
}

// floatLits: numbers written in JSON are float64
func (o *Opd) floatLits() *Opd {
	n := *o
	if o.K == OLit && o.Lit.IsNumeric() {
		n.Lit = JFloat(o.Lit.asFloat())
	}
	n.Args = nil
	for _, a := range o.Args {
		n.Args = append(n.Args, a.floatLits())
	}
	return &n
}

func (x *E) floatLits() *E {
	n := *x
	if x.K == ETrue || x.K == EFalse {
		// the constants have no JSON form
		v := 1.0
		if x.K == EFalse {
			v = 2
		}
		return Cmp(Lit(JFloat(1)), OpEQ, Lit(JFloat(v)))
	}
	n.Sub = nil
	for _, s := range x.Sub {
		n.Sub = append(n.Sub, s.floatLits())
	}
	if x.L != nil {
		n.L = x.L.floatLits()
	}
	if x.R != nil {
		n.R = x.R.floatLits()
	}
	if x.In != nil {
		n.In = x.In.floatLits()
	}
	return &n
}

func jsonText(r *Rng, j *J) string {
	switch r.N(3) {
	case 0:
		return docText(j, nil)
	case 1:
		return docText(j, &Style{R: r, Ws: 25, TailWs: true})
	}
	return docText(j, &Style{R: r, Ws: 15, Esc: 25, TailWs: true})
}

func jsonMatcher(t string) (m *g.FastMatcher, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("PANIC %v", e)
		}
	}()
	x, err := g.ParseJsonExpression([]byte(t))
	if err != nil {
		return nil, err
	}
	var tr g.Transformer
	return g.NewFastMatcher(tr.Transform([]g.Expression{x})), nil
}

func caseJSONExpr(c *Case) {
	r := c.R
	doc := genDoc(r)
	o := randOpts(r)
	o.UintLits = false
	x := newEgen(r, doc, o).expr(r.In(0, 4)).floatLits()
	t := jsonText(r, x.asJSON())
	m, err := jsonMatcher(t)
	if err != nil {
		c.Eval(1)
		c.Fail("rejected", "%v\n  JSON expression: %s", err, t)
		return
	}
	walk(x, func(y *E) { c.Count(fmt.Sprintf("use:%d", y.K)) }, func(*Opd) {})
	for k := 0; k < 5; k++ {
		d := doc
		if k > 0 {
			d = mutate(r, doc, 15)
		}
		diffOne(c, &diffOpts{}, m, x, t, d)
	}
}

func tryJSON(c *Case, t string) (accepted bool) {
	var err error
	func() {
		defer func() {
			if e := recover(); e != nil {
				c.Fail("panic", "panic while parsing: %v\n  JSON expression: %s", e, clip(t, 600))
				err = fmt.Errorf("panic")
			}
		}()
		var x g.Expression
		x, err = g.ParseJsonExpression([]byte(t))
		if err == nil && x == nil {
			c.Fail("nothing", "neither an expression nor an error\n  JSON expression: %s", clip(t, 600))
		}
	}()
	c.Eval(1)
	c.Nontrivial(t)
	if err != nil {
		c.Count("rejected")
	} else {
		c.Count("accepted")
	}
	return err == nil
}

// lists of a tree that are expressions (their first element is a name)
func jsonNodes(j *J, f func(j *J)) {
	if j.K == KArr {
		if len(j.A) > 0 && j.A[0].K == KStr {
			f(j)
		}
		for _, e := range j.A {
			jsonNodes(e, f)
		}
	}
}

var minOperands = map[string]int{"value": 1, "field": 1, "func": 1, "not": 1, "and": 1, "or": 1, "exists": 1, "notexists": 1, "equals": 2, "notequals": 2, "lessthan": 2, "lessequals": 2, "greaterthan": 2, "greaterequals": 2,
	"like": 2, "anyin": 3, "everyin": 3, "anyeveryin": 3, "regex": 1, "time": 1}

func caseJSONBad(c *Case) {
	r := c.R
	doc := genDoc(r)
	o := randOpts(r)
	x := newEgen(r, doc, o).expr(r.In(0, 3)).floatLits()
	good := docText(x.asJSON(), nil)
	if !tryJSON(c, good) {
		c.Fail("rejected", "a well-formed JSON expression was rejected: %s", clip(good, 600))
	}
	var tree *J
	pick := func() *J {
		tree = x.asJSON()
		var ns []*J
		jsonNodes(tree, func(j *J) {
			if _, ok := minOperands[j.A[0].S]; ok {
				ns = append(ns, j)
			}
		})
		return ns[r.N(len(ns))]
	}
	var why, t string
	n := pick()
	name := n.A[0].S
	switch r.N(8) {
	case 7:
		for k := 0; k < 10 && name != "regex" && name != "time"; k++ {
			n = pick()
			name = n.A[0].S
		}
		switch name {
		case "regex":
			why = "a malformed regular expression"
			n.A[1] = JStr(r.Pick(badRegexes))
		case "time":
			why = "a malformed time"
			n.A[1] = JStr(r.Pick(badDates(r)))
		}
	case 0:
		why = "too few elements"
		n.A = n.A[:r.N(minOperands[name]+1)]
	case 1:
		why = "an unknown kind"
		n.A[0] = JStr(r.Pick([]string{"", "equal", "Equals", "xor", "any", "values", " equals", "nand"}))
	case 2:
		why = "a kind that is no string"
		n.A[0] = []*J{JInt(1), &J{K: KNull}, JArr(), JObj(), &J{K: KTrue}}[r.N(5)]
	case 3:
		why = "an operand of the wrong type"
		bad := []*J{JInt(1), &J{K: KNull}, JObj(), &J{K: KTrue}, JFloat(2.5)}[r.N(5)]
		switch name {
		case "value":
			why = "" // any value goes
		case "field":
			n.A = append(n.A, bad)
		case "func":
			n.A = append(n.A, bad)
			if r.P(30) {
				n.A = []*J{n.A[0], bad}
			}
		case "anyin", "everyin", "anyeveryin":
			k := r.In(1, 3)
			if k == 1 {
				bad = []*J{JStr("1"), &J{K: KNull}, JArr(), &J{K: KTrue}}[r.N(4)]
			}
			n.A[k] = bad
		case "regex", "time":
			n.A[1] = bad
		case "and", "or":
			n.A[r.In(1, len(n.A)-1)] = bad
		default:
			n.A[r.In(1, minOperands[name])] = bad
		}
	case 4:
		why = "a truncated text"
		t = good[:r.N(len(good))]
	case 5:
		why = "text after the end"
		t = good + r.Pick([]string{string([]byte{byte(r.In(33, 255))}), " " + string([]byte{byte(r.In(33, 255))}), "]", "[", " 1", "x", ",[]", "\x00", "}", good})
	case 6:
		why = "something else than a list"
		t = r.Pick([]string{"", " ", "{}", "null", "5", "\"equals\"", "true", "[]", "[[]]", `{"equals":[["field","a"],["value",1]]}`, `[null]`, `["regex","("]`, `["time","yesterday"]`, `["time","2019-13-01"]`})
	}
	if why == "" {
		return
	}
	if t == "" && why != "a truncated text" && why != "something else than a list" {
		t = docText(tree, nil)
	}
	c.Count("malformed: " + why)
	if tryJSON(c, t) {
		c.Fail("accepted", "accepted with %s\n  JSON expression: %s", why, clip(t, 600))
	}
}

func caseJSONSoup(c *Case) {
	r := c.R
	var names []string
	for _, n := range []string{"value", "field", "func", "not", "and", "or", "exists", "notexists", "equals", "lessthan", "like", "anyin", "everyin", "anyeveryin", "regex", "time", "notequals", "mathRound", "x", ""} {
		names = append(names, n)
	}
	var gen func(d int) *J
	gen = func(d int) *J {
		if d == 0 || r.P(15) {
			switch r.N(4) {
			case 0:
				return JStr(r.Pick(names))
			case 1:
				return JInt(int64(r.N(4)) - 1)
			}
			return genScalar(r)
		}
		if r.P(4) {
			return genObj(r, 1, defaultGen)
		}
		var xs []*J
		if r.P(92) {
			xs = append(xs, JStr(r.Pick(names)))
		}
		for i, n := 0, r.W(15, 30, 30, 15, 10); i < n; i++ {
			xs = append(xs, gen(d-1))
		}
		return JArr(xs...)
	}
	t := docText(gen(r.In(1, 5)), nil)
	if r.P(15) {
		t = corrupt(r, t)
	}
	if r.P(2) {
		n := r.In(100, 3000)
		t = strings.Repeat(`["not",`, n) + `["value",true]` + strings.Repeat(`]`, n-r.N(2))
	}
	tryJSON(c, t)
}

// ---------------- C19: removing items ----------------

// raw is a JSON value with the texts of its parts as they are in the source.
type raw struct {
	text string // scalars
	open byte
	keys []string // as written
	subs []*raw
	src  string // the whole value as written
}

type rawParser struct {
	s string
	p int
}

func (p *rawParser) ws() {
	for p.p < len(p.s) && strings.IndexByte(" \t\r\n", p.s[p.p]) >= 0 {
		p.p++
	}
}

// value parses text known to be valid JSON.
func (p *rawParser) value() *raw {
	p.ws()
	st := p.p
	v := &raw{}
	switch ch := p.s[p.p]; ch {
	case '{', '[':
		v.open = ch
		p.p++
		for {
			p.ws()
			if p.s[p.p] == '}' || p.s[p.p] == ']' {
				p.p++
				break
			}
			if p.s[p.p] == ',' {
				p.p++
				continue
			}
			if ch == '{' {
				p.ws()
				v.keys = append(v.keys, p.str())
				p.ws()
				p.p++ // :
			}
			v.subs = append(v.subs, p.value())
		}
	case '"':
		v.text = p.str()
	default:
		for p.p < len(p.s) && strings.IndexByte(" \t\r\n,]}", p.s[p.p]) < 0 {
			p.p++
		}
		v.text = p.s[st:p.p]
	}
	v.src = p.s[st:p.p]
	return v
}

func (p *rawParser) str() string {
	st := p.p
	for p.p++; p.s[p.p] != '"'; p.p++ {
		if p.s[p.p] == '\\' {
			p.p++
		}
	}
	p.p++
	return p.s[st:p.p]
}

func unquoteJSON(s string) string {
	var r string
	if err := json.Unmarshal([]byte(s), &r); err != nil {
		panic(err)
	}
	return r
}

// without writes v without the members named in gone, and collects them.
func (v *raw) without(sb *strings.Builder, gone map[string]bool, got map[string]string, n *int) {
	if v.open == 0 {
		sb.WriteString(v.text)
		return
	}
	sb.WriteByte(v.open)
	first := true
	for i, s := range v.subs {
		if v.open == '{' {
			if k := unquoteJSON(v.keys[i]); gone[k] {
				got[k] = s.src
				*n++
				continue
			}
		}
		if !first {
			sb.WriteByte(',')
		}
		first = false
		if v.open == '{' {
			sb.WriteString(v.keys[i])
			sb.WriteByte(':')
		}
		s.without(sb, gone, got, n)
	}
	sb.WriteByte(v.open + 2)
}

type removal struct {
	n, items int
	left     bool
	err      error
	pan      interface{}
}

func doRemove(src []byte, rm []string, dst []byte, removed map[string][]byte) (x removal) {
	defer func() { x.pan = recover() }()
	x.n, x.items, x.left, x.err = g.MatchAndRemoveItemsFromJsonObject(src, rm, dst, removed)
	return
}

func docKeys(j *J, f func(k string)) {
	for _, m := range j.O {
		f(m.K)
		docKeys(m.V, f)
	}
	for _, e := range j.A {
		docKeys(e, f)
	}
}

func removeKeys(r *Rng, doc *J) []string {
	var all []string
	docKeys(doc, func(k string) { all = append(all, k) })
	var rm []string
	for i, n := 0, r.W(5, 30, 30, 20, 15); i < n; i++ {
		switch {
		case len(all) > 0 && r.P(75):
			rm = append(rm, all[r.N(len(all))])
		case r.P(30) && len(rm) > 0:
			rm = append(rm, rm[r.N(len(rm))])
		case r.P(40) && len(all) > 0:
			k := all[r.N(len(all))]
			rm = append(rm, k+"x", strings.TrimSuffix(k, k[len(k)-min(1, len(k)):]))
		default:
			rm = append(rm, genKey(r))
		}
	}
	if r.P(3) {
		rm = append(rm, all...)
	}
	return rm
}

func itemsStyle(r *Rng) *Style {
	switch r.N(3) {
	case 0:
		return nil
	case 1:
		return &Style{R: r, Ws: 25}
	}
	return &Style{R: r, Ws: 15, Esc: 20}
}

func itemsText(r *Rng, doc *J) string {
	return strings.Trim(docText(doc, itemsStyle(r)), " \t\r\n")
}

const guardByte = 0xA7

func caseItems(c *Case) {
	r := c.R
	doc := genDoc(r)
	if r.P(10) {
		doc = JObj()
	}
	items(c, doc)
}

func items(c *Case, doc *J) {
	r := c.R
	// long-lived destination buffers, as callers do
	for k := 0; k < 4; k++ {
		d := doc
		if k > 0 {
			d = mutate(r, doc, 15)
		}
		if d.K != KObj {
			continue
		}
		txt := itemsText(r, d)
		rm := removeKeys(r, d)
		gone := map[string]bool{}
		for _, x := range rm {
			gone[x] = true
		}
		p := &rawParser{s: txt}
		tree := p.value()
		var sb strings.Builder
		got := map[string]string{}
		items := 0
		tree.without(&sb, gone, got, &items)
		want := sb.String()

		src := []byte(txt)
		size := len(src)
		kind := "roomy destination"
		switch r.W(50, 15, 15, 20) {
		case 1:
			size, kind = len(want), "exact destination"
		case 2:
			size, kind = r.N(len(want)), "short destination"
		case 3:
			size, kind = -1, "no destination"
		}
		var dst, full []byte
		if size >= 0 {
			full = make([]byte, size+8)
			for i := range full {
				full[i] = guardByte
			}
			dst = full[:size]
		}
		removed := map[string][]byte{}
		if r.P(10) {
			removed = nil
		}
		res := doRemove(src, rm, dst, removed)
		c.Eval(1)
		c.Count(kind)
		desc := func() string {
			return fmt.Sprintf("\n  source: %s\n  remove: %s\n  %s of %d bytes\n  result: %+v", clip(txt, 1500), clip(fmt.Sprintf("%q", rm), 500), kind, size, res)
		}
		if string(src) != txt {
			c.Fail("source changed", "the source was modified: %s%s", clip(string(src), 500), desc())
			return
		}
		if res.pan != nil {
			c.Fail("panic", "panic %v%s", res.pan, desc())
			return
		}
		for i := 0; i < 8 && size >= 0; i++ {
			if full[size+i] != guardByte {
				c.Fail("overrun", "bytes after the destination were written%s", desc())
				return
			}
		}
		if size >= 0 && size < len(want) {
			if res.err == nil {
				c.Fail("short", "no error although the destination cannot hold the result (%d bytes)%s", len(want), desc())
			}
			continue
		}
		if res.err != nil {
			c.Fail("error", "error for a valid object: %v%s", res.err, desc())
			return
		}
		if items > 0 {
			c.Nontrivial(txt + "|" + strings.Join(rm, "|"))
			c.Count("with removals")
		}
		c.Add("items removed", items)
		if res.n != len(want) || dst != nil && string(dst[:res.n]) != want {
			have := ""
			if dst != nil && res.n <= len(dst) {
				have = string(dst[:res.n])
			}
			c.Fail("rest", "the remaining object is wrong\n  got:  %s\n  want: %s%s", clip(have, 1500), clip(want, 1500), desc())
			return
		}
		if res.items != items || res.left != (len(tree.subs) > 0 && want != "{}") {
			c.Fail("report", "reported %d removed, items left %v; removed %d, rest %s%s", res.items, res.left, items, clip(want, 300), desc())
			return
		}
		if removed != nil {
			if len(removed) != len(got) {
				c.Fail("removed", "%d removed keys reported, want %d%s", len(removed), len(got), desc())
				return
			}
			for k, v := range got {
				if h := strings.Trim(string(removed[k]), " \t\r\n"); h != v {
					c.Fail("removed", "removed %q is %s, want %s%s", k, clip(h, 300), clip(v, 300), desc())
					return
				}
			}
		}
		c.Sample(func() string { return desc() + "\n  rest: " + want })
	}
}

// caseKeys: keys of each length that differ in one byte, at each position.
func caseKeys(c *Case) {
	r := c.R
	n := c.Idx % 140
	b := make([]byte, n)
	chars := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_- .$@"
	if r.P(25) {
		chars = "aA"
	}
	for i := range b {
		b[i] = chars[r.N(len(chars))]
	}
	base := string(b)
	eqs := func(x, y string, want bool) {
		src := []byte(x)
		if r.P(30) { // with further bytes behind it
			src = []byte(x + "tail")[:len(x)]
		}
		got := g.BytesEqualsString(src, y)
		c.Eval(1)
		if got != want {
			c.Fail("equal", "BytesEqualsString(%q, %q) = %v", x, y, got)
		}
	}
	remove := func(x, y string, want bool) {
		txt := "{\"" + x + "\":1,\"other\":2}"
		res := doRemove([]byte(txt), []string{y}, make([]byte, len(txt)), nil)
		c.Eval(1)
		if res.pan != nil || res.err != nil || (res.items == 1) != want {
			c.Fail("removed", "removing %q from %s: %+v", y, txt, res)
		}
	}
	eqs(base, base, true)
	eqs(base, base+"a", false)
	if n > 0 {
		eqs(base, base[:n-1], false)
		eqs(base[1:], base[:n-1], base[1:] == base[:n-1])
	}
	if base != "other" {
		remove(base, base, true)
		remove(base, base+"a", false)
	}
	for p := 0; p < n; p++ {
		d := []byte(base)
		for d[p] == base[p] {
			switch r.N(4) {
			case 0:
				d[p] ^= 0x20
			case 1:
				d[p] ^= 1 << uint(r.N(7))
			default:
				d[p] = chars[r.N(len(chars))]
			}
		}
		eqs(base, string(d), false)
		eqs(string(d), base, false)
		if string(d) != "other" {
			remove(base, string(d), false)
		}
		c.Nontrivial(base + "|" + string(d))
	}
	c.Count("lengths")
}

func caseItemsBad(c *Case) {
	r := c.R
	doc := genDoc(r)
	txt := itemsText(r, doc)
	rm := removeKeys(r, doc)
	what := "corrupted"
	mustFail := false
	bad := ""
	switch r.W(35, 20, 10, 10, 15, 20, 8) {
	case 6: // closed before it is opened, as often as it is opened
		what, mustFail = "closed before opened", true
		mid := r.Pick([]string{"", "", `"x"`, `"k":`, `"k":1`, `"k":"x"`})
		if strings.HasPrefix(mid, `"k"`) && len(rm) > 0 && r.P(60) {
			mid = strconv.Quote("kk") + mid[3:]
			rm = append(append([]string{}, rm...), "kk")
		}
		k := r.In(1, 3)
		a, b := "", ""
		for i := 0; i < k; i++ {
			if r.P(70) {
				a, b = a+"}", "{"+b
			} else {
				a, b = a+"]", "["+b
			}
		}
		bad = txt + mid + a + b + r.Pick([]string{txt, "{}"})
	case 4: // a bracket more or less, of either kind, anywhere
		sp := tokenSpans(txt)
		i := r.N(len(sp))
		if r.P(50) {
			what, mustFail = "unbalanced", true
			bad = txt[:sp[i][0]] + r.Pick([]string{"{", "}", "[", "]"}) + txt[sp[i][0]:]
			break
		}
		for k := 0; k < 20 && strings.IndexByte("{}[]", txt[sp[i][0]]) < 0; k++ {
			i = r.N(len(sp))
		}
		if strings.IndexByte("{}[]", txt[sp[i][0]]) >= 0 {
			what, mustFail = "unbalanced", true
			bad = txt[:sp[i][0]] + txt[sp[i][1]:]
		}
	case 5:
		sp := tokenSpans(txt)
		if len(sp) < 3 || !json.Valid([]byte(txt)) {
			return
		}
		var how string
		if how, _, bad, _ = spoilToken(r, txt, sp); how == "" {
			return
		}
		what, mustFail = "malformed in one token ("+how+")", true
	case 0:
		bad = corrupt(r, txt)
	case 1:
		what, mustFail = "truncated", true
		bad = txt[:r.N(len(txt))]
	case 2:
		what, mustFail = "closed too often", true
		bad = txt + strings.Repeat("}", r.In(1, 3))
	case 3:
		what, mustFail = "no object", true
		bad = r.Pick([]string{"", "{", "}", "[]", "null", "\"{}\"", "5", "[" + txt + "]", "{{}", "{]}", "{[}", "{[{}"})
		if bad == "{]}" {
			mustFail = false
		}
	}
	src := []byte(bad)
	full := make([]byte, len(src)+8)
	for i := range full {
		full[i] = guardByte
	}
	res := doRemove(src, rm, full[:len(src)], map[string][]byte{})
	c.Eval(1)
	c.Nontrivial(bad)
	desc := fmt.Sprintf("\n  source: %s\n  remove: %q\n  result: %+v", strconv.Quote(clip(bad, 1500)), rm, res)
	if res.pan != nil {
		c.Fail("panic", "panic %v%s", res.pan, desc)
		return
	}
	if string(src) != bad {
		c.Fail("source changed", "the source was modified%s", desc)
	}
	for i := 0; i < 8; i++ {
		if full[len(src)+i] != guardByte {
			c.Fail("overrun", "bytes after the destination were written%s", desc)
			return
		}
	}
	if mustFail {
		c.Count("hostile: " + what)
	}
	if res.err != nil {
		c.Count("errors")
		return
	}
	c.Count("no error")
	if mustFail {
		c.Fail("accepted", "no error for an object that is %s%s", what, desc)
	}
}

func init() {
	register(&Check{
		ID:     "C18",
		Scale:  4,
		Rule:   "an expression of the reference model written as a JSON expression (any spacing and escaping), parsed back and matched on mutated documents against the model; malformed ones (each list too short, an unknown or non-string kind, operands of a wrong type, truncated, followed by more text) and random nested lists: an error where malformed, never a panic; non-trivial = operands there, or distinct hostile texts",
		Assume: append([]string{"numbers in a JSON expression are 64-bit floats; functions exist and get their number of arguments; operands are values, fields, functions or times"}, stdAssume...),
		Load: []Workload{
			{Name: "meaning", Quick: 25000, Thorough: 600000, Run: caseJSONExpr},
			{Name: "numbers", Quick: 10000, Thorough: 400000, Run: caseJSONNumbers},
			{Name: "sizes", Quick: 1200, Thorough: 15000, Run: bigJSON, Once: true},
			{Name: "malformed", Quick: 25000, Thorough: 400000, Run: caseJSONBad},
			{Name: "soup", Quick: 30000, Thorough: 600000, Run: caseJSONSoup},
		},
		Require: map[string]int{"verdict:true": 1000, "verdict:false": 1000, "accepted": 1000, "rejected": 1000, "malformed: too few elements": 100, "malformed: an operand of the wrong type": 100},
	})
	register(&Check{
		ID:     "C19",
		Scale:  8,
		Rule:   "items removed by key at any depth from random objects (any spelling of keys and values, repeated and absent keys, keys that also occur as values): the rest is byte for byte the source's tokens without these members and their commas, the removed values are the source's texts, counts and the left-over flag agree, the source and the bytes after the destination are untouched, a destination too short gives an error; hostile sources: no panic, no overrun, an error where unbalanced; keys of each length up to 139 that differ in one byte, at each position, are told apart; non-trivial = something was removed, or distinct hostile sources",
		Assume: []string{"objects without duplicate keys; a key that occurs at several depths is reported with its last value; removed values may carry the white space before them"},
		Load: []Workload{
			{Name: "items", Quick: 40000, Thorough: 900000, Run: caseItems},
			{Name: "keys", Quick: 280, Thorough: 14000, Run: caseKeys},
			{Name: "sizes", Quick: 1200, Thorough: 15000, Run: bigItems, Once: true},
			{Name: "hostile", Quick: 50000, Thorough: 900000, Run: caseItemsBad},
		},
		Require: map[string]int{"with removals": 5000, "short destination": 1000, "exact destination": 1000, "errors": 5000, "no error": 100},
	})
}
