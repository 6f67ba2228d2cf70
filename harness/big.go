package main

// Sizes: the same meanings, over documents, expressions, texts and histories
// that are large in one dimension. Sizes are drawn around the powers of two at
// which counters, indices and buffers change their behaviour, from the sizes
// that occur in the code itself, and at random between them.

import (
	"fmt"
	"strconv"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

var sizeEdges = []int{8, 10, 16, 20, 32, 33, 64, 65, 100, 127, 128, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 70000, 100000, 131072}

func bigSize(r *Rng, max int) int {
	if r.P(20) {
		return dictSize(r, max)
	}
	n := len(sizeEdges)
	for n > 1 && sizeEdges[n-1] > max {
		n--
	}
	k := r.N(n)
	if r.P(40) { // the largest ones
		k = n - 1 - r.N(min(n, 5))
	}
	v := sizeEdges[k] + r.In(-1, 1)
	if r.P(35) && k+1 < n { // between two
		v += r.N(sizeEdges[k+1] - sizeEdges[k])
	}
	return max0(min(v, max))
}

func max0(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

// aPos is a position among n, likely one at which something changes.
func aPos(r *Rng, n int) int {
	switch r.N(5) {
	case 0:
		return 0
	case 1:
		return n - 1
	case 2:
		return min(n-1, sizeEdges[r.N(len(sizeEdges))])
	case 3:
		return max0(n-r.In(1, 3)+1) - 1
	}
	return r.N(n)
}

// tens is the order of magnitude of n, for counting.
func tens(n int) string {
	k := 1
	for k < n {
		k *= 10
	}
	return fmt.Sprintf("size up to %d", k)
}

// bigOne compares the verdict of x on d with the meaning of x.
func bigOne(c *Case, m *g.FastMatcher, x *E, d *J, what string, st *Style) bool {
	env := &Env{Doc: d, Vars: map[int]*J{}}
	want := x.eval(env)
	if env.Unclear {
		c.Count("left open: " + env.Why)
		return true
	}
	if env.Struct { // they compare by their text
		st = nil
	}
	txt := docText(d, st)
	m.Reset()
	got := run(m, []byte(txt))
	c.Eval(1)
	c.Count(fmt.Sprintf("verdict:%v", want))
	xs := clip(x.String(), 600)
	if env.Touched > 0 {
		c.Nontrivial(what + xs + "\x00" + txt)
	}
	if got.Err != "" || got.Match != want {
		c.Fail("verdict", "got %v, meaning is %v; %s\n  expression: %s\n  document (%d bytes): %s", got, want, what, xs, len(txt), clip(txt, 600))
		return false
	}
	c.Sample(func() string { return fmt.Sprintf("%s: %s on %s -> %v", what, clip(xs, 200), clip(txt, 200), got) })
	return true
}

func bigStyle(r *Rng) *Style {
	switch r.N(4) {
	case 0:
		return &Style{R: r, Ws: 10, Esc: 10, TailWs: true}
	case 1:
		return &Style{R: r, Shuffle: true, Esc: 5}
	}
	return nil
}

type bigGen func(r *Rng) (x *E, docs []*J, what string, n int)

func bigCase(gens ...bigGen) func(c *Case) {
	return func(c *Case) {
		r := c.R
		x, docs, what, n := gens[r.N(len(gens))](r)
		m, err := compile(x)
		if err != nil {
			c.Fail("compile", "%v (%s)\n  expression: %s", err, what, clip(x.String(), 1000))
			return
		}
		c.Count(tens(n))
		for _, d := range docs {
			if !bigOne(c, m, x, d, what, bigStyle(r)) {
				return
			}
		}
	}
}

func with(r *Rng, v *J, rest ...Member) *J {
	d := &J{K: KObj}
	if r.P(70) {
		d.O = append(d.O, Member{"a", JInt(int64(r.N(3)))})
	}
	d.O = append(d.O, Member{"big", v})
	d.O = append(d.O, rest...)
	if r.P(80) {
		d.O = append(d.O, Member{"z", JInt(int64(r.N(3)))})
	}
	return d
}

// around puts conditions on what comes before and after beside x.
func around(r *Rng, x *E) *E {
	for i := r.N(3); i > 0; i-- {
		o := Cmp(Fld(r.Pick([]string{"a", "z"})), []CmpOp{OpEQ, OpNE, OpLT, OpGE}[r.N(4)], Lit(JInt(int64(r.N(3)))))
		k := []EK{EAnd, EOr}[r.N(2)]
		if r.P(50) {
			x = &E{K: k, Sub: []*E{x, o}}
		} else {
			x = &E{K: k, Sub: []*E{o, x}}
		}
		if r.P(20) {
			x = Not(x)
		}
	}
	return x
}

var loopKinds = []EK{EAny, EEvery, EAnyEvery}

// bigLoop: an array of n elements, all alike but for one or two.
func bigLoop(r *Rng) (*E, []*J, string, int) {
	n := bigSize(r, 100000)
	inner := 0
	kind := r.N(5)
	var base, odd *J
	var body *E
	v := VarFld(1)
	switch kind {
	case 0:
		base, odd = JInt(int64(r.N(5))), JInt(int64(5+r.N(5)))
	case 1:
		base, odd = JStr("x"), JStr("y"+genStr(r))
	case 2:
		v = VarFld(1, "k")
		base, odd = JObj(Member{"k", JInt(1)}), JObj(Member{"j", JArr(JInt(2))}, Member{"k", JInt(2)})
	case 3: // loops inside
		inner = bigSize(r, 300)
		n = max0(min(n, 60000/inner))
		in := &J{K: KArr}
		for i := 0; i < inner; i++ {
			in.A = append(in.A, JInt(1))
		}
		o2 := &J{K: KArr, A: append([]*J{}, in.A...)}
		o2.A[aPos(r, inner)] = JInt(2)
		base, odd = in, o2
	case 4:
		base, odd = JArr(), JStr("s")
	}
	pick := base
	if r.P(50) {
		pick = odd
	}
	switch kind {
	case 2:
		pick = pick.get("k")
	case 3:
		pick = JInt(int64(r.In(1, 2)))
		body = Loop(loopKinds[r.N(3)], 2, VarFld(1), Cmp(VarFld(2), []CmpOp{OpEQ, OpNE}[r.N(2)], Lit(pick)))
	case 4:
		body = []*E{Like(v, "^s$"), Cmp(v, OpEQ, Lit(JStr("s"))), Cmp(v, OpNE, Lit(JStr("s"))), Exists(v)}[r.N(4)]
	}
	if body == nil {
		body = Cmp(v, []CmpOp{OpEQ, OpNE, OpEQ, OpNE, OpLT, OpGE}[r.N(6)], Lit(pick))
	}
	if r.P(20) {
		body = And(body, Cmp(Fld("a"), OpEQ, Lit(JInt(int64(r.N(3))))))
	}
	if r.P(15) {
		body = Or(body, Exists(Fld("z")))
	}
	x := Loop(loopKinds[r.N(3)], 1, Fld("big"), body)
	if r.P(30) {
		y := Loop(loopKinds[r.N(3)], 1, Fld("big"), Cmp(v, OpNE, Lit(scal(pick))))
		x = &E{K: []EK{EAnd, EOr}[r.N(2)], Sub: []*E{x, y}}
	}
	x = around(r, x)
	arr := func(p int) *J {
		a := &J{K: KArr, A: make([]*J, n)}
		for i := range a.A {
			a.A[i] = base
		}
		if p >= 0 {
			a.A[p] = odd
		}
		return a
	}
	docs := []*J{with(r, arr(aPos(r, n))), with(r, arr(-1)), with(r, arr(aPos(r, n)))}
	return x, docs, fmt.Sprintf("an array of %d elements (%d inside each)", n, inner), n
}

func scal(j *J) *J {
	if j.K == KArr {
		return JStr("s")
	}
	return j
}

// bigObject: a member among n, an element of n, n levels down, or with a name
// of n characters.
func bigObject(r *Rng) (*E, []*J, string, int) {
	var path []string
	var v func(leaf *J) *J
	var what string
	n := 0
	fill := func(i int) *J {
		switch i % 7 {
		case 0:
			return JStr("v")
		case 1:
			return JArr(JInt(1), JArr())
		case 2:
			return JObj(Member{"k1", JInt(3)})
		case 3:
			return JNull()
		}
		return JInt(int64(i))
	}
	switch r.N(5) {
	case 0, 1:
		n = bigSize(r, 70000)
		p := aPos(r, n)
		what = fmt.Sprintf("member %d of %d", p, n)
		path = []string{fmt.Sprintf("k%d", p)}
		v = func(leaf *J) *J {
			o := &J{K: KObj, O: make([]Member, n)}
			for i := range o.O {
				o.O[i] = Member{fmt.Sprintf("k%d", i), fill(i)}
			}
			if leaf == nil {
				o.O = append(o.O[:p:p], o.O[p+1:]...)
			} else {
				o.O[p].V = leaf
			}
			return o
		}
	case 2:
		n = bigSize(r, 100000)
		p := aPos(r, n)
		what = fmt.Sprintf("element %d of %d", p, n)
		path = []string{fmt.Sprintf("[%d]", p)}
		v = func(leaf *J) *J {
			o := &J{K: KArr, A: make([]*J, n)}
			for i := range o.A {
				o.A[i] = fill(i)
			}
			if leaf == nil {
				o.A = o.A[:p]
			} else {
				o.A[p] = leaf
			}
			return o
		}
	case 3:
		n = bigSize(r, 3000)
		what = fmt.Sprintf("%d levels down", n)
		for i := 0; i < n; i++ {
			if i > 0 && r.P(20) {
				path = append(path, "[1]")
			} else {
				path = append(path, r.Pick([]string{"a", "b", "big", "k1"}))
			}
		}
		v = func(leaf *J) *J {
			if leaf == nil {
				leaf = JObj(Member{"other", JInt(1)})
				path := path[:len(path)-1]
				return wrapPath(path, leaf)
			}
			return wrapPath(path, leaf)
		}
	case 4:
		n = bigSize(r, 100000)
		what = fmt.Sprintf("a name of %d characters", n)
		unit := r.Pick([]string{"a", "é", "ab\"", "\\", "𝄞", "a.b"})
		k := strings.Repeat(unit, n/len(unit)+1)
		path = []string{k}
		v = func(leaf *J) *J {
			o := &J{K: KObj, O: []Member{{k + "x", JInt(7)}, {k[:len(k)-len(unit)], JInt(8)}}}
			if leaf != nil {
				o.O = append(o.O, Member{k, leaf})
			}
			return o
		}
	}
	full := append([]string{"big"}, path...)
	var x *E
	lit := JInt(int64(r.N(3)))
	switch r.N(4) {
	case 0:
		x = Exists(Fld(full...))
	case 1:
		x = NotExists(Fld(full...))
	case 2:
		x = Cmp(Fld(full...), []CmpOp{OpEQ, OpNE, OpLT, OpGE}[r.N(4)], Lit(lit))
	case 3:
		x = Cmp(Fld(full...), []CmpOp{OpEQ, OpLT, OpGE}[r.N(3)], Fld(r.Pick([]string{"a", "z"})))
	}
	x = around(r, x)
	docs := []*J{with(r, v(lit)), with(r, v(JInt(1))), with(r, v(nil)), with(r, v(JNull()))}
	return x, docs, what, n
}

func wrapPath(path []string, leaf *J) *J {
	for i := len(path) - 1; i >= 0; i-- {
		if strings.HasPrefix(path[i], "[") {
			leaf = JArr(JInt(1), leaf, JInt(2))
		} else {
			leaf = JObj(Member{"pad", JArr()}, Member{path[i], leaf})
		}
	}
	return leaf
}

// bigBool: AND and OR of n operands, or nested n deep, over flags of which one
// or two deviate from what leaves the result open.
func bigBool(r *Rng) (*E, []*J, string, int) {
	n := bigSize(r, 2100)
	key := func(i int) string { return fmt.Sprintf("f%d", i) }
	leaf := func(i int) *E { return Cmp(Fld(key(i)), OpEQ, Lit(JBool(true))) }
	var x *E
	var what string
	neutral := make([]bool, n)
	outer := []EK{EAnd, EOr}[r.N(2)]
	switch r.N(4) {
	case 0, 1:
		what = fmt.Sprintf("%v of %d operands", outer == EAnd, n)
		x = &E{K: outer}
		for i := 0; i < n; i++ {
			l := leaf(i)
			neutral[i] = outer == EAnd
			if r.P(5) {
				l, neutral[i] = Not(l), !neutral[i]
			}
			x.Sub = append(x.Sub, l)
		}
	case 2: // groups
		what = fmt.Sprintf("groups of %d operands", n)
		x = &E{K: outer}
		in := EAnd + EOr - outer
		for i := 0; i < n; {
			k := min(n-i, bigSize(r, 200))
			gr := &E{K: in}
			for j := 0; j < k; j++ {
				gr.Sub = append(gr.Sub, leaf(i+j))
				neutral[i+j] = r.P(50)
				if j == 0 {
					neutral[i+j] = outer == EAnd
				}
			}
			if in == EAnd { // an OR of ANDs stays open when each has a false part
				neutral[i+r.N(k)] = false
			}
			i += k
			x.Sub = append(x.Sub, gr)
		}
	case 3: // nested
		n = min(n, 1000)
		neutral = neutral[:n]
		what = fmt.Sprintf("nested %d deep", n)
		x = leaf(0)
		neutral[0] = r.P(50)
		for i := 1; i < n; i++ {
			k := []EK{EAnd, EOr}[r.N(2)]
			neutral[i] = k == EAnd
			l := leaf(i)
			if r.P(50) {
				x = &E{K: k, Sub: []*E{x, l}}
			} else {
				x = &E{K: k, Sub: []*E{l, x}}
			}
			if r.P(20) {
				x = Not(x)
			}
		}
	}
	if r.P(20) {
		x = Not(x)
	}
	mk := func(flip int) *J {
		d := &J{K: KObj}
		f := map[int]bool{}
		for ; flip > 0; flip-- {
			f[aPos(r, n)] = true
		}
		for i := 0; i < n; i++ {
			v := neutral[i] != f[i]
			if !v && f[i] && r.P(30) {
				continue // missing
			}
			d.O = append(d.O, Member{key(i), JBool(v)})
		}
		if r.P(50) {
			for i, p := range r.Perm(len(d.O)) {
				d.O[i], d.O[p] = d.O[p], d.O[i]
			}
		}
		return d
	}
	return x, []*J{mk(0), mk(1), mk(1), mk(1), mk(2), mk(1)}, what, n
}

func bigStr(r *Rng, n int) string {
	unit := r.Pick([]string{"a", "é", "ab", "\"", "\\", "𝄞", "a b", "\n", "0", "/"})
	return strings.Repeat(unit, n/len(unit)+1)
}

// bigString: strings of n characters that differ at one place at most.
func bigString(r *Rng) (*E, []*J, string, int) {
	n := bigSize(r, 100000)
	s := bigStr(r, n)
	vary := func() string {
		p := aPos(r, len(s))
		for p > 0 && s[p]&0xC0 == 0x80 {
			p--
		}
		switch r.N(6) {
		case 0:
			return s
		case 1:
			return s[:p]
		case 2:
			return s + "a"
		case 3:
			return s[:p] + "c" + s[p:]
		}
		q := p + 1
		for q < len(s) && s[q]&0xC0 == 0x80 {
			q++
		}
		return s[:p] + r.Pick([]string{"b", "é", "\"", "Z"}) + s[q:]
	}
	ops := []CmpOp{OpEQ, OpNE, OpLT, OpGE, OpGT, OpLE}
	var x *E
	switch r.N(4) {
	case 0, 1:
		x = Cmp(Fld("big"), ops[r.N(6)], Lit(JStr(vary())))
	case 2:
		x = Cmp(Fld("big"), ops[r.N(6)], Fld("other"))
	case 3:
		x = Cmp(Fld("big", "[0]"), ops[r.N(6)], Lit(JStr(vary())))
	}
	x = around(r, x)
	var docs []*J
	for i := 0; i < 4; i++ {
		v := JStr(vary())
		if hasIdxE(x) {
			v = JArr(v, JStr(vary()))
		}
		docs = append(docs, with(r, v, Member{"other", JStr(vary())}))
	}
	return x, docs, fmt.Sprintf("strings of %d bytes", len(s)), n
}

func hasIdxE(x *E) (idx bool) {
	walk(x, func(*E) {}, func(o *Opd) { idx = idx || hasIdx(o.Path) })
	return
}

// bigRegex: long strings and regular expressions.
func bigRegex(r *Rng) (*E, []*J, string, int) {
	n := bigSize(r, 60000)
	s := strings.Repeat(r.Pick([]string{"a", "ab", "é", "x.y", "\n", "\"a"}), n)
	res := []string{"^a*$", "a$", "b", "^(ab)+$", "é+$", "^.*$", "^[^b]+$", "y$", "c"}
	if len(s) < 900 {
		res = append(res, s, "^"+strings.ReplaceAll(s, ".", "\\.")+"$")
	}
	x := around(r, Like(Fld("big"), r.Pick(res)))
	if r.P(30) {
		x = Loop(loopKinds[r.N(3)], 1, Fld("list"), Like(VarFld(1), r.Pick(res)))
	}
	var docs []*J
	for i := 0; i < 4; i++ {
		t := s
		if r.P(70) {
			p := aPos(r, len(s))
			for p > 0 && s[p]&0xC0 == 0x80 {
				p--
			}
			t = s[:p] + r.Pick([]string{"b", "c", "é", "\n"}) + s[p:]
		}
		docs = append(docs, with(r, JStr(t), Member{"list", JArr(JStr(t), JStr(s))}))
	}
	return x, docs, fmt.Sprintf("strings of %d characters", n), n
}

// bigExact: values that take exactly n bytes, or begin or end exactly at byte
// n, which are looked at again later: in another comparison, inside a function,
// as the source of a loop.
func bigExact(r *Rng) (*E, []*J, string, int) {
	n := bigSize(r, 140000)
	if r.P(60) { // exact multiples
		k := []int{256, 4096, 32768, 65536, 65536, 65536}[r.N(6)]
		n = k * r.In(1, 140000/k)
	}
	kind := r.N(4)
	of := func(n int, fill byte) *J {
		pad := func(used int) string { return strings.Repeat(string(fill), max0(n-used+1)-1) }
		switch kind {
		case 1: // [1,"aaa"]
			return JArr(JInt(1), JStr(pad(6)))
		case 2: // {"k":"aaa"}
			return JObj(Member{"k", JStr(pad(8))})
		case 3: // 1.000
			return numFromText("1." + strings.Repeat("0", max0(n-2)))
		}
		return JStr(pad(2))
	}
	v := of(n, 'x')
	same := []*J{v, v, of(n, 'x'), of(n+1, 'x'), of(max0(n-1), 'x'), of(n, 'y'), JStr(""), JStr("x"), JInt(1)}
	ops := []CmpOp{OpEQ, OpEQ, OpNE}
	if kind == 0 || kind == 3 {
		ops = append(ops, OpLT, OpGE, OpLE, OpGT)
	}
	var x *E
	switch r.N(5) {
	case 0, 1:
		x = Cmp(Fld("big"), ops[r.N(len(ops))], Fld("other"))
	case 2:
		x = Cmp(Fld("other"), ops[r.N(len(ops))], Fld("big"))
	case 3:
		x = Cmp(Fld("big"), ops[r.N(len(ops))], Fld("in", "other"))
	case 4:
		x = Loop(loopKinds[r.N(3)], 1, Fld("list"), Cmp(VarFld(1), ops[r.N(len(ops))], Fld("big")))
	}
	x = around(r, x)
	var docs []*J
	for i := 0; i < 5; i++ {
		d := &J{K: KObj}
		o := same[r.N(len(same))]
		if i == 0 {
			o = v
		}
		if r.P(40) { // "p":"...", so that what follows begins or ends at byte n
			d.O = append(d.O, Member{"p", JStr(strings.Repeat("p", max0(n-[]int{0, 4, 6, 7, 8, 9, 10, 12, 14, 16, 20, n / 2}[r.N(12)]-r.N(3))))})
		}
		ms := []Member{{"big", v}, {"other", o}, {"in", JObj(Member{"other", o})}, {"list", JArr(o, same[r.N(len(same))])}}
		for _, k := range r.Perm(len(ms)) {
			d.O = append(d.O, ms[k])
		}
		for _, z := range []string{"a", "z"} {
			if r.P(70) {
				d.O = append(d.O, Member{z, JInt(int64(r.N(3)))})
			}
		}
		docs = append(docs, d)
	}
	return x, docs, fmt.Sprintf("a value of %d bytes", n), n
}

// bigNumber: numbers of n digits.
func bigNumber(r *Rng) (*E, []*J, string, int) {
	n := bigSize(r, 3000)
	digits := func(k int) string {
		b := make([]byte, k)
		fill := byte('0' + r.N(10))
		for i := range b {
			b[i] = fill
			if r.P(10) {
				b[i] = byte('0' + r.N(10))
			}
		}
		return string(b)
	}
	var t string
	head := strconv.Itoa(1 + r.N(9))
	switch r.N(5) {
	case 0:
		t = head + "." + digits(n)
	case 1:
		n = min(n, 300)
		t = head + digits(n)
	case 2:
		t = "0." + strings.Repeat("0", min(n, 300)) + head + digits(r.N(20))
	case 3: // shifted back
		n = min(n, 600)
		t = head + digits(n) + "e-" + strconv.Itoa(n+r.In(-15, 15))
	case 4:
		n = min(n, 300)
		t = head + "." + digits(n) + "e" + strconv.Itoa(r.In(-20, 20))
	}
	if r.P(30) {
		t = "-" + t
	}
	j := numFromText(t)
	x := around(r, Cmp(Fld("big"), []CmpOp{OpLT, OpLE, OpGT, OpGE, OpEQ}[r.N(5)], Lit(numNear(r, plainLit(j)))))
	docs := []*J{with(r, j), with(r, numNear(r, j)), with(r, JInt(int64(r.N(5))))}
	return x, docs, fmt.Sprintf("a number of %d characters", len(t)), len(t)
}

// plainLit is j as a Go value: without its spelling.
func plainLit(j *J) *J {
	c := *j
	c.Txt = ""
	return &c
}

// bigFn: functions nested n deep.
func bigFn(r *Rng) (*E, []*J, string, int) {
	n := bigSize(r, 600)
	v := int64(r.In(-1000, 1000))
	var o *Opd = Fld("big")
	for i := 0; i < n; i++ {
		switch r.N(6) {
		case 0:
			o = Fn("mathNegate", o)
		case 1:
			o = Fn("mathAdd", o, Lit(JInt(int64(r.In(-3, 3)))))
		case 2:
			o = Fn("mathAdd", Lit(JInt(int64(r.In(-3, 3)))), o)
		case 3:
			o = Fn("mathSubract", o, Lit(JInt(int64(r.In(-3, 3)))))
		case 4:
			o = Fn("mathAbs", o)
		case 5:
			o = Fn("mathSubract", Lit(JInt(int64(r.In(-3, 3)))), o)
		}
	}
	d := with(r, JInt(v))
	env := &Env{Doc: d, Vars: map[int]*J{}}
	res, _ := o.eval(env)
	lit := int64(0)
	if res != nil && res.K == KInt {
		lit = res.I + int64(r.In(-1, 1))
	}
	x := around(r, Cmp(o, []CmpOp{OpEQ, OpLT, OpGE}[r.N(3)], Lit(JInt(lit))))
	return x, []*J{d, with(r, JInt(v+1)), with(r, JInt(-v)), with(r, JStr("x"))}, fmt.Sprintf("functions nested %d deep", n), n
}

// bigMerge: n expressions in one matcher.
func bigMerge(c *Case) {
	r := c.R
	n := bigSize(r, 700)
	var xs []*E
	sw := newSmallWorld(r, false)
	mode := r.N(3)
	for i := 0; i < n; i++ {
		var x *E
		k := fmt.Sprintf("k%d", i)
		switch {
		case mode == 0 || mode == 2 && r.P(50):
			x = sw.expr(r, r.In(0, 2), 20)
		case r.P(70):
			x = Cmp(Fld(k), OpEQ, Lit(JInt(int64(r.N(3)))))
		case r.P(50):
			x = Exists(Fld("in", k))
		default:
			x = And(Exists(Fld(k)), Cmp(Fld("in", "k"+strconv.Itoa(r.N(n))), OpGT, Lit(JInt(0))))
		}
		if i > 0 && r.P(10) {
			x = xs[aPos(r, i)]
		}
		xs = append(xs, x)
	}
	m, err := compile(xs...)
	if err != nil {
		c.Fail("compile", "%v: %d expressions", err, n)
		return
	}
	c.Count(tens(n))
	for k := 0; k < 4; k++ {
		d := sw.doc(r)
		in := &J{K: KObj}
		few := r.P(50)
		for i := 0; i < n; i++ {
			if r.P(80) && !few || few && r.P(2) {
				d.O = append(d.O, Member{fmt.Sprintf("k%d", i), JInt(int64(r.N(3)))})
			}
			if r.P(50) && !few || few && r.P(2) {
				in.O = append(in.O, Member{fmt.Sprintf("k%d", i), JInt(int64(r.N(3)))})
			}
		}
		d.O = append(d.O, Member{"in", in})
		txt := docText(d, bigStyle(r))
		m.Reset()
		got := run(m, []byte(txt))
		c.Eval(1)
		if got.Err != "" {
			c.Fail("error", "%v with %d expressions\n  document: %s", got, n, clip(txt, 1000))
			return
		}
		any, all, open := false, true, false
		for i, x := range xs {
			want, env := EvalDoc(x, d)
			if env.Unclear {
				open = true
				continue
			}
			any = any || want
			all = all && want
			if tg := m.ExpressionMatched(i); tg != want {
				c.Fail("merge", "expression %d of %d: %v together, means %v\n  expression: %s\n  document: %s", i, n, tg, want, x, clip(txt, 1000))
				return
			}
		}
		if !open && got.Match != any {
			c.Fail("overall", "overall %v, any matched: %v (%d expressions)\n  document: %s", got.Match, any, n, clip(txt, 1000))
			return
		}
		if any && !all {
			c.Nontrivial(fmt.Sprint(n, mode) + txt)
		}
	}
}

// bigHistory: one matcher for more documents than a counter of 16 bits holds.
func bigHistory(c *Case) {
	r := c.R
	sw := newSmallWorld(r, r.P(50))
	n := r.In(1, 3)
	var xs []*E
	var ss []string
	for i := 0; i < n; i++ {
		x := sw.expr(r, r.In(1, 3), 40)
		xs = append(xs, x)
		ss = append(ss, x.String())
	}
	def, err := compileDef(xs...)
	if err != nil {
		c.Fail("compile", "%v\n  %s", err, join(ss))
		return
	}
	var txts [][]byte
	var want []string
	for i := 0; i < 12; i++ {
		t := docText(sw.doc(r), nil)
		if r.P(10) {
			t = t[:r.N(len(t))]
		}
		txts = append(txts, []byte(t))
		want = append(want, matchAll(g.NewFastMatcher(def), n, []byte(t)))
	}
	m := g.NewFastMatcher(def)
	total := bigSize(r, 132000)
	if r.P(60) {
		total = r.In(66000, 70000)
	}
	k := r.N(len(txts))
	same := 0
	for i := 0; i < total; i++ {
		if same == 0 {
			k = r.N(len(txts))
			same = []int{1, 1, 1, 200, 300, 1000}[r.N(6)]
		}
		same--
		m.Reset()
		if got := matchAll(m, n, txts[k]); got != want[k] {
			c.Fail("history", "document %d of one matcher: %s, a fresh matcher: %s\n  expressions: %s\n  document: %s", i, got, want[k], join(ss), txts[k])
			return
		}
	}
	c.Eval(total)
	c.Count(tens(total))
	c.Nontrivial(join(ss) + fmt.Sprint(total))
	c.Sample(func() string { return fmt.Sprintf("%d documents: %s", total, join(ss)) })
}

// via matches what a text made of the expression is read as.
func via(text func(r *Rng, x *E) string, get func(t string) (*g.FastMatcher, error), prep func(x *E) *E, gens ...bigGen) func(c *Case) {
	return func(c *Case) {
		r := c.R
		x, docs, what, n := gens[r.N(len(gens))](r)
		x = prep(x)
		t := text(r, x)
		m, err := get(t)
		if err != nil {
			c.Eval(1)
			c.Fail("rejected", "%v (%s)\n  text: %s", err, what, clip(t, 1000))
			return
		}
		c.Count(tens(n))
		for _, d := range docs {
			if !bigOne(c, m, x, d, what, bigStyle(r)) {
				return
			}
		}
	}
}

var bigJSON = via(func(r *Rng, x *E) string { return jsonText(r, x.asJSON()) }, jsonMatcher, (*E).floatLits, bigLoop, bigObject, bigBool, bigString, bigRegex, bigFn)

// bigCompact: constants among many operands.
func bigCompact(c *Case) {
	r := c.R
	x, docs, _, n := []bigGen{bigBool, bigBool, bigLoop}[r.N(3)](r)
	salt := r.N(3) * 40
	var add func(x *E)
	add = func(x *E) {
		for _, s := range x.Sub {
			add(s)
		}
		if (x.K == EAnd || x.K == EOr) && r.P(60) {
			var sub []*E
			for _, s := range x.Sub {
				if r.P(salt) {
					sub = append(sub, &E{K: map[EK]EK{EAnd: ETrue, EOr: EFalse}[x.K]})
				}
				sub = append(sub, s)
				if len(s.Sub) == 0 && r.P(5) {
					sub = append(sub, s)
				}
			}
			if r.P(10) {
				p := aPos(r, len(sub))
				sub = append(sub[:p:p], append([]*E{{K: []EK{ETrue, EFalse}[r.N(2)]}}, sub[p:]...)...)
			}
			x.Sub = sub
		}
	}
	add(x)
	c.Count(tens(n))
	compact(c, x, docs)
}

// bigSlow: both matchers over long arrays and many members.
func bigSlow(c *Case) {
	r := c.R
	n := bigSize(r, 20000)
	arr := func() *J {
		a := &J{K: KArr}
		odd := aPos(r, n)
		for i := 0; i < n; i++ {
			v := float64(1)
			if i == odd {
				v = float64(r.N(3))
			}
			a.A = append(a.A, JObj(Member{"k", JFloat(v)}, Member{"s", JStr("x")}))
		}
		return a
	}
	k := fmt.Sprintf("m%d", aPos(r, n))
	mk := func(int) *J {
		d := JObj(Member{"a", JFloat(float64(r.N(3)))}, Member{"list", arr()})
		in := &J{K: KObj}
		for i := 0; i < n; i++ {
			in.O = append(in.O, Member{fmt.Sprintf("m%d", i), JFloat(float64(r.N(3)))})
		}
		d.O = append(d.O, Member{"in", in}, Member{"z", JFloat(float64(r.N(3)))})
		return d
	}
	ops := []CmpOp{OpEQ, OpNE, OpLT, OpGE, OpGT, OpLE}
	lit := func() *Opd { return Lit(JFloat(float64(r.N(3)))) }
	conds := []*E{
		Loop(EAny, 1, Fld("list"), Cmp(VarFld(1, "k"), ops[r.N(6)], lit())),
		Loop(EAny, 2, Fld("list"), Cmp(VarFld(2, "k"), ops[r.N(6)], Fld("z"))),
		Cmp(Fld("in", k), ops[r.N(6)], lit()), Cmp(Fld("in", k), ops[r.N(6)], Fld("a")), Cmp(Fld("z"), ops[r.N(6)], lit())}
	var xs []*E
	var ss []string
	for i := r.In(1, 3); i > 0; i-- {
		x := conds[r.N(len(conds))]
		for r.P(50) {
			x = &E{K: []EK{EAnd, EOr}[r.N(2)], Sub: []*E{x, conds[r.N(len(conds))]}}
		}
		if r.P(50) { // many parts
			w := &E{K: []EK{EAnd, EOr}[r.N(2)]}
			for k := r.In(3, 70); k > 0; k-- {
				o := ops[r.N(6)]
				if r.P(85) { // most parts decide nothing
					o = OpLT
					if w.K == EAnd {
						o = OpGE
					}
				}
				at := []*Opd{Fld("in", fmt.Sprintf("m%d", r.N(n))), Fld("z"), Fld("a")}[r.N(3)]
				if o == OpLT || o == OpGE {
					w.Sub = append(w.Sub, Cmp(at, o, Lit(JFloat(0))))
				} else {
					w.Sub = append(w.Sub, Cmp(at, o, lit()))
				}
			}
			w.Sub[r.N(len(w.Sub))] = x
			x = w
		}
		xs = append(xs, x)
		ss = append(ss, x.String())
	}
	fast, err := compile(xs...)
	if err != nil {
		c.Fail("compile", "%v\n  %s", err, join(ss))
		return
	}
	c.Count(tens(n))
	slowDocs(c, xs, ss, g.NewSlowMatcher(apis(xs)), fast, mk)
}

func bigItems(c *Case) {
	_, docs, _, n := []bigGen{bigObject, bigLoop, bigBool, bigString}[c.R.N(4)](c.R)
	c.Count(tens(n))
	items(c, docs[c.R.N(len(docs))])
}

func bigTokens(c *Case) {
	_, docs, _, n := []bigGen{bigObject, bigLoop, bigString}[c.R.N(3)](c.R)
	c.Count(tens(n))
	spoil(c, docs[c.R.N(len(docs))], 6)
}

func bigDescribe(c *Case) {
	x, _, _, n := []bigGen{bigBool, bigLoop, bigObject, bigFn, bigString}[c.R.N(5)](c.R)
	for depth(x) > 150 { // what is printed grows with the square of the depth
		x = x.Sub[0]
		if len(x.Sub) == 0 {
			return
		}
	}
	long := false
	walk(x, func(y *E) {
		if len(y.Sub) > 250 {
			y.Sub = y.Sub[:250]
		}
	}, func(o *Opd) { long = long || len(o.Path) > 150 })
	if long {
		return
	}
	c.Count(tens(n))
	describe(c, x)
}

func depth(x *E) int {
	d := 0
	for _, s := range x.Sub {
		d = max(d, depth(s)+1)
	}
	return d
}

// bigFlag: the collation flag over many conditions.
func bigFlag(c *Case) {
	r := c.R
	x, docs, what, n := []bigGen{bigBool, bigLoop}[r.N(2)](r)
	m, err := compile(x)
	if err != nil {
		c.Fail("compile", "%v (%s)", err, what)
		return
	}
	c.Count(tens(n))
	for _, d := range docs {
		if len(d.O) > 0 && r.P(50) && d.O[0].V.K != KArr { // something which cannot be reconciled
			d.O[r.N(len(d.O))].V = JArr(JInt(1))
		}
		env := &Env{Doc: d, Vars: map[int]*J{}}
		want := x.eval(env)
		if env.Unclear || env.Struct {
			c.Count("left open")
			continue
		}
		txt := docText(d, bigStyle(r))
		m.Reset()
		got := run(m, []byte(txt))
		c.Eval(1)
		c.Nontrivial(what + txt)
		if got.Err != "" || got.Match != want {
			c.Fail("verdict", "got %v, meaning is %v; %s\n  document: %s", got, want, what, clip(txt, 600))
			return
		}
		flagCheck(c, x, clip(txt, 1500), env, got, false)
	}
}

// bigSpelling: long runs of whitespace, many members that do not matter, and
// escapes throughout.
func bigSpelling(c *Case) {
	r := c.R
	doc := genDoc(r)
	x := newEgen(r, doc, randOpts(r)).expr(r.In(0, 3))
	m, err := compile(x)
	if err != nil {
		c.Fail("compile", "%v\n  %s", err, x)
		return
	}
	n := bigSize(r, 70000)
	c.Count(tens(n))
	for k := 0; k < 3; k++ {
		d := doc
		if k > 0 {
			d = mutate(r, doc, 20)
		}
		_, env := EvalDoc(x, d)
		if env.Struct || d.K != KObj {
			continue
		}
		base := canon(d)
		m.Reset()
		first := run(m, []byte(base))
		txt := base
		var what string
		switch r.N(3) {
		case 0:
			what = fmt.Sprintf("%d times whitespace", n)
			sp := tokenSpans(base)
			p := sp[r.N(len(sp))][r.N(2)]
			txt = base[:p] + strings.Repeat(r.Pick([]string{" ", "\n", "\t", "\r\n", " \t"}), n) + base[p:]
		case 1:
			what = fmt.Sprintf("%d more members", n)
			var sb strings.Builder
			v := r.Pick([]string{"1", "\"v\"", "[1,{}]", "{\"a\":1}", "null", "-1.5e3", "\"\\\"\""})
			for i := 0; i < n; i++ {
				if i > 0 {
					sb.WriteByte(',')
				}
				fmt.Fprintf(&sb, "\"zz-%d\":%s", i, v)
			}
			switch {
			case base == "{}":
				txt = "{" + sb.String() + "}"
			case r.P(50):
				txt = "{" + sb.String() + "," + base[1:]
			default:
				txt = base[:len(base)-1] + "," + sb.String() + "}"
			}
		case 2:
			what = fmt.Sprintf("a member of %d characters", n)
			txt = "{\"zz\":\"" + strings.Repeat(r.Pick([]string{"a", "\\u00e9", "\\\"", "\\\\", "é"}), n) + "\""
			if base != "{}" {
				txt += ","
			}
			txt += base[1:]
		}
		m.Reset()
		got := run(m, []byte(txt))
		c.Eval(1)
		c.Count(fmt.Sprintf("verdict:%v", first.Match))
		c.Nontrivial(x.String() + base + what)
		if got.Err != first.Err || got.Match != first.Match {
			c.Fail("spelling", "%v on one spelling, %v with %s\n  expression: %s\n  document: %s\n  document: %s", first, got, what, x, clip(base, 1500), clip(txt, 600))
			return
		}
	}
}

// Long texts of the filter and simple languages.
func bigFilterText(c *Case) {
	r := c.R
	doc := filterDoc(r)
	f := newFgen(r, doc)
	var t string
	var x *E
	what := ""
	n := 0
	switch r.N(4) {
	case 0: // OR of ANDs
		n = bigSize(r, 300)
		var parts []string
		o := Or()
		for i := 0; i < n; {
			k := min(n-i, []int{1, 1, 2, n}[r.N(4)])
			a := And()
			var ts []string
			for j := 0; j < k; j++ {
				f.n = 0
				t1, x1 := f.term(0)
				ts = append(ts, t1)
				a.Sub = append(a.Sub, x1)
			}
			i += k
			parts = append(parts, strings.Join(ts, f.sp()+"AND"+f.sp()))
			o.Sub = append(o.Sub, a)
		}
		t, x = strings.Join(parts, f.sp()+"OR"+f.sp()), o
		what = fmt.Sprintf("%d conditions", n)
	case 1: // nested
		n = bigSize(r, 60)
		t, x = f.term(0)
		for i := 1; i < n; i++ {
			f.n = 0
			t1, x1 := f.term(0)
			k, w := EAnd, "AND"
			if r.P(50) {
				k, w = EOr, "OR"
			}
			if r.P(50) {
				t, x = "("+t+")"+f.sp()+w+f.sp()+t1, &E{K: k, Sub: []*E{x, x1}}
			} else {
				t, x = t1+f.sp()+w+f.sp()+"("+t+")", &E{K: k, Sub: []*E{x1, x}}
			}
		}
		what = fmt.Sprintf("%d levels", n)
	case 2: // long strings and names
		n = bigSize(r, 30000)
		s := strings.Repeat(r.Pick([]string{"a", "é", "ab ", "\"", "\\", "\n"}), n)
		t, x = "big = "+strconv.Quote(s), Cmp(Fld("big"), OpEQ, Lit(JStr(s)))
		doc.O = append([]Member{{"big", JStr(s)}}, doc.O...)
		what = fmt.Sprintf("a string of %d characters", n)
	case 3: // long sums
		n = bigSize(r, 60)
		t, x = "", nil
		o := Fld("big")
		t = "big"
		for i := 0; i < n; i++ {
			v := int64(r.N(4))
			k := r.N(2)
			t += f.sp() + fArith[k].t + f.sp() + strconv.Itoa(int(v))
			o = Fn(mName(k), o, Lit(JInt(v)))
		}
		doc.O = append([]Member{{"big", JInt(int64(r.N(100)))}}, doc.O...)
		res, _ := o.eval(&Env{Doc: doc, Vars: map[int]*J{}})
		lit := JInt(0)
		if res.K == KInt {
			lit = JInt(res.I + int64(r.In(0, 1)))
		}
		if lit.I < 0 {
			lit = JInt(0)
		}
		t, x = t+" >= "+strconv.Itoa(int(lit.I)), Cmp(o, OpGE, Lit(lit))
		what = fmt.Sprintf("a sum of %d", n)
	}
	c.Count(tens(n))
	m, err := filterMatcher(r, t)
	if err != nil {
		c.Eval(1)
		c.Fail("rejected", "%v (%s)\n  text: %s", err, what, clip(t, 1500))
		return
	}
	for k := 0; k < 4; k++ {
		d := doc
		if k > 0 {
			d = mutate(r, doc, 18)
		}
		if !bigOne(c, m, x, d, what+" "+clip(t, 300), nil) {
			return
		}
	}
}

func bigSimpleText(c *Case) {
	r := c.R
	doc := filterDoc(r)
	f := newSgen(r, doc)
	var t string
	var x *E
	what := ""
	n := 0
	switch r.N(3) {
	case 0:
		n = bigSize(r, 120)
		shape := ""
		t, x = f.chain(0, n, &shape)
		what = fmt.Sprintf("%d conditions", n)
	case 1: // nested
		n = bigSize(r, 40)
		t, x = f.cond()
		for i := 1; i < n; i++ {
			t1, x1 := f.cond()
			k, w := EAnd, "AND"
			if r.P(50) {
				k, w = EOr, "OR"
			}
			if r.P(50) {
				t, x = "("+t+")"+f.sp()+w+f.sp()+t1, &E{K: k, Sub: []*E{x, x1}}
			} else {
				t, x = t1+f.sp()+w+f.sp()+"("+t+")", &E{K: k, Sub: []*E{x1, x}}
			}
		}
		what = fmt.Sprintf("%d levels", n)
	case 2:
		n = bigSize(r, 10000)
		s := strings.TrimSpace(strings.Repeat(r.Pick([]string{"a", "é", "ab "}), n))
		t, x = "big == \""+s+"\"", Cmp(Fld("big"), OpEQ, Lit(JStr(s)))
		doc.O = append([]Member{{"big", JStr(s)}}, doc.O...)
		what = fmt.Sprintf("a string of %d characters", n)
	}
	c.Count(tens(n))
	m, err := simpleMatcher(t)
	if err != nil {
		c.Eval(1)
		c.Fail("rejected", "%v (%s)\n  text: %s", err, what, clip(t, 1500))
		return
	}
	for k := 0; k < 4; k++ {
		d := doc
		if k > 0 {
			d = mutate(r, doc, 18)
		}
		if !bigOne(c, m, x, d, what+" "+clip(t, 300), nil) {
			return
		}
	}
}

// caseHuge: one composite, or one matcher's expressions, of tens of thousands of
// conditions, each on a field of its own. What is to come out is plain without
// evaluating anything.
func caseHuge(c *Case) { hugeCase(c, c.R.N(3)) }

func hugeCase(c *Case, kind int) {
	r := c.R
	n := []int{20000, 32767, 32768, 33000, 40000, 65535, 65536, 66000, 70000}[r.N(9)] + r.In(-1, 2)
	// kind: AND, OR, separate expressions
	subs := make([]*E, n)
	for i := range subs {
		subs[i] = Cmp(Fld("f"+strconv.Itoa(i)), OpEQ, Lit(JBool(true)))
	}
	var m *g.FastMatcher
	var err error
	switch kind {
	case 0:
		m, err = compile(&E{K: EAnd, Sub: subs})
	case 1:
		m, err = compile(&E{K: EOr, Sub: subs})
	default:
		m, err = compile(subs...)
	}
	if err != nil {
		c.Fail("compile", "%d conditions: %v", n, err)
		return
	}
	c.Count(tens(n))
	for k := 0; k < 6; k++ {
		odd := map[int]bool{}
		for i := r.N(3); i > 0; i-- {
			odd[[]int{r.N(n), n - 1, 0, min(n-1, 32768+r.N(3)), min(n-1, 65536+r.N(3)), n / 2}[r.N(6)]] = true
		}
		var b strings.Builder
		b.WriteString("{")
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString("\"f" + strconv.Itoa(i) + "\":" + strconv.FormatBool(odd[i] != (kind == 0)))
		}
		b.WriteString("}")
		m.Reset()
		got := run(m, []byte(b.String()))
		want := len(odd) > 0
		if kind == 0 {
			want = len(odd) == 0
		}
		c.Eval(1)
		c.Nontrivial(fmt.Sprint(n, kind, odd))
		if got.Err != "" || got.Match != want {
			c.Fail("huge", "%v of %d conditions, of which %v are the odd ones: want %v, got %v", []string{"AND", "OR", "expressions"}[kind], n, odd, want, got)
			return
		}
		if kind == 2 {
			for i := 0; i < n; i++ {
				if e := m.ExpressionMatched(i); e != odd[i] {
					c.Fail("huge", "%d expressions, of which %v match: expression %d gives %v", n, odd, i, e)
					return
				}
			}
		}
	}
}
