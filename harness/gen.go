package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

var keyPool = []string{"a", "b", "c", "d", "e", "name", "age", "x", "y", "id", "sub", "list"}
var oddKeys = []string{"", " ", "a b", "é", "日本", "a.b", "[0]", "a[1]", "k\"q", "back\\slash", "tab\there", "A",
	"aVeryLongFieldNameThatIsLongerThanSixtyFourBytesSoThatItCannotFitInAnySmallScratchBuffer", "_x", "$y", "0", "true", "null", "a/b", "\u0001", "😀key"}

func genKey(r *Rng) string {
	if r.P(88) {
		return r.Pick(keyPool)
	}
	if r.P(newBoost(12)) {
		if s, ok := dictStr(r); ok {
			return s
		}
	}
	if r.P(4) {
		return strings.Repeat("k", dictSize(r, 300))
	}
	return r.Pick(oddKeys)
}

var intEdges = []int64{0, 1, -1, 2, 5, 7, 9, 10, 11, 99, 100, 127, 128, 255, 256, 32767, 65535, 65536, math.MaxInt32, math.MinInt32,
	1 << 31, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, 999999999999, 1e15, 1e18, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1}

func genInt(r *Rng) int64 {
	switch r.W(50, 20, 12, newBoost(8)) {
	case 0:
		return int64(r.In(-20, 20))
	case 1:
		return int64(r.In(-100000, 100000))
	case 2:
		v := intEdges[r.N(len(intEdges))]
		if r.P(30) && v > math.MinInt64+3 && v < math.MaxInt64-3 {
			v += int64(r.In(-1, 1))
		}
		return v
	default:
		if r.P(70) {
			if v, ok := dictInt(r); ok {
				return v
			}
		}
		return int64(r.U64())
	}
}

var floatEdges = []float64{0.5, -0.5, 1.5, -1.5, 2.5, 3.25, 0.1, 1e10, -1e10, 1e20, 1e300, -1e300, 123456.789, 0.001, 1e-5, 3.0, -7.0, 100.0, 2.75, 1e15}

func genFloat(r *Rng) float64 {
	switch r.W(50, 30, 20) {
	case 0:
		return float64(r.In(-40, 40)) / 4
	case 1:
		return floatEdges[r.N(len(floatEdges))]
	default:
		return float64(r.In(-1000000, 1000000)) / 1000
	}
}

var strPool = []string{"", "a", "b", "abc", "abd", "ABC", "Abc", "hello", "hello world", "x", "z", "5", "-3", "007", "10", "0", "é", "日本語", "😀", "a\"b", "aXb", "a\\b",
	"line\nbreak", "tab\tx", "/path/x", "\u0001ctl", "\u007f", "true", "FALSE", "null", " lead", "trail ", "2019-01-02", "2019-01-02T03:04:05Z", "2019-06-15T12:00:00+02:00", "2019-06", "1e3", "2.50", "ab", "ba", "foo", "bar", "\u2028", "\u00a0"}

// genRune picks any character beyond the first two planes' start.
func genRune(r *Rng) rune {
	switch r.W(30, 20, 25, 25) {
	case 0:
		return rune(r.In(0x10000, 0x1ffff))
	case 1:
		return rune(r.In(0x800, 0xd7ff))
	case 2:
		return rune(r.In(0x20000, 0x10ffff))
	}
	// at the edges of ranges, encodings and surrogates
	e := []rune{0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1fbff, 0x1fc00, 0x1ffff, 0x20000, 0x2ffff, 0x30000, 0xfffff, 0x100000, 0x10fc00, 0x10ffff}
	return e[r.N(len(e))]
}

func genStr(r *Rng) string {
	switch r.W(60, 15, 10, 8, newBoost(7)) {
	case 0:
		return r.Pick(strPool)
	case 1:
		n := r.In(1, 8)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 _-"[r.N(45)])
		}
		return string(b)
	case 2: // mixed unicode and specials
		n := r.In(1, 12)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			switch r.N(6) {
			case 0:
				sb.WriteByte("\"\\/\b\f\n\r\t"[r.N(8)])
			case 1:
				sb.WriteRune(rune(r.In(0x80, 0x7ff)))
			case 2:
				sb.WriteRune(genRune(r))
			default:
				sb.WriteRune(rune(r.In(0x20, 0x7e)))
			}
		}
		return sb.String()
	case 3: // long, around internal buffer sizes
		n := []int{31, 32, 33, 62, 63, 64, 65, 66, 70, 100, 127, 128, 129, 200, 255, 256, 257, 600}[r.N(18)]
		if r.P(50) {
			n = dictSize(r, 5000)
		}
		s := strings.Repeat(string(rune('a'+r.N(26))), n)
		if r.P(50) {
			s = s[:n-1] + "\n"
		}
		if r.P(30) {
			s = "\"" + s[1:]
		}
		return s
	default:
		if s, ok := dictStr(r); ok {
			return s
		}
		return "dflt"
	}
}

func genScalar(r *Rng) *J {
	switch r.W(35, 15, 30, 10, 8) {
	case 0:
		if r.P(4) {
			return JUint(1<<63 | uint64(r.U64()))
		}
		if r.P(2) { // an integer beyond 64 bits is read as a float
			t := []string{"18446744073709551616", "-9223372036854775809", "123456789012345678901234567890", "-99999999999999999999", "100000000000000000000"}[r.N(5)]
			f, _ := strconv.ParseFloat(t, 64)
			return &J{K: KFloat, F: f, Txt: t}
		}
		return JInt(genInt(r))
	case 1:
		j := JFloat(genFloat(r))
		switch {
		case r.P(8) && math.Abs(j.F) < 1e15: // other spellings of the same number
			j.Txt = strconv.FormatFloat(j.F, 'e', -1, 64)
		case r.P(5) && math.Abs(j.F) < 1e15:
			j.Txt = strings.ToUpper(strconv.FormatFloat(j.F, 'e', -1, 64))
		case r.P(5) && math.Abs(j.F) < 1e9:
			j.Txt = strconv.FormatFloat(j.F, 'f', 6, 64)
			j.F, _ = strconv.ParseFloat(j.Txt, 64)
		}
		return j
	case 2:
		return JStr(genStr(r))
	case 3:
		return JBool(r.P(50))
	default:
		return JNull()
	}
}

// GenOpts shapes documents.
type GenOpts struct {
	MaxDepth int
	ArrPct   int
	ObjPct   int
	Width    int
	BigArr   bool // arrays of more than ten elements now and then
}

var defaultGen = &GenOpts{MaxDepth: 3, ArrPct: 22, ObjPct: 28, Width: 5, BigArr: true}

func genValue(r *Rng, depth int, o *GenOpts) *J {
	if o == nil {
		o = defaultGen
	}
	if depth > 0 {
		x := r.N(100)
		if x < o.ArrPct {
			return genArr(r, depth, o)
		}
		if x < o.ArrPct+o.ObjPct {
			return genObj(r, depth, o)
		}
	}
	return genScalar(r)
}

func genArr(r *Rng, depth int, o *GenOpts) *J {
	n := r.W(10, 15, 25, 20, 15, 5)
	if o.BigArr && r.P(8) {
		n = r.In(9, 14)
		if depth == 1 && r.P(newBoost(8)) {
			n = dictSize(r, 400)
		}
	}
	a := &J{K: KArr}
	// arrays are usually homogeneous-ish, so loops have something to chew on
	mode := r.W(25, 25, 15, 15, 20)
	for i := 0; i < n; i++ {
		switch mode {
		case 0:
			a.A = append(a.A, JInt(int64(r.In(-3, 8))))
		case 1:
			if depth > 1 {
				a.A = append(a.A, genObj(r, depth-1, o))
			} else {
				a.A = append(a.A, genScalar(r))
			}
		case 2:
			a.A = append(a.A, JStr(genStr(r)))
		case 3:
			if depth > 1 {
				a.A = append(a.A, genArr(r, depth-1, o))
			} else {
				a.A = append(a.A, genScalar(r))
			}
		default:
			a.A = append(a.A, genValue(r, depth-1, o))
		}
	}
	return a
}

func genObj(r *Rng, depth int, o *GenOpts) *J {
	n := r.In(0, o.Width)
	if n == 0 && r.P(50) {
		n = 2
	}
	j := &J{K: KObj}
	seen := map[string]bool{}
	var fam []string
	if r.P(6) {
		fam = keyFamily(r, 6)
	}
	for i := 0; i < n; i++ {
		k := genKey(r)
		if fam != nil && r.P(80) {
			k = r.Pick(fam)
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		j.O = append(j.O, Member{k, genValue(r, depth-1, o)})
	}
	dotted(r, j, 6)
	if r.P(10) {
		alikes(r, j, 30)
	}
	return j
}

var familyWords = []string{"", "f", "key", "name", "field", "item_", "address", "longname", "attribute_", "some.path.to", "customerAddress", "customer_address_line_", "a rather long name with blanks in ", "日本語の名前", "😀😀😀😀"}

// keyFamily: n keys that are the same but for a character or two somewhere.
func keyFamily(r *Rng, n int) []string {
	w := r.Pick(familyWords)
	switch r.N(6) {
	case 0:
		w += r.Pick(familyWords)
	case 1:
		w = strings.Repeat(r.Pick([]string{"k", "ab", "x_", "0"}), r.In(1, 40))
	}
	v := r.Pick(familyWords)
	kind := r.N(7)
	at := r.N(10)
	var ks []string
	for i := 0; i < n; i++ {
		c := string(rune('1' + i))
		switch at {
		case 0:
			c = string(rune('A' + i))
		case 1:
			c = string(rune('à' + i))
		case 2:
			c = string(rune(0x1f600 + i))
		case 3:
			c = " .-_/"[i%5:][:1]
		}
		switch kind {
		case 0, 1, 2:
			ks = append(ks, w+c)
		case 3:
			ks = append(ks, c+w)
		case 4:
			ks = append(ks, w+c+v)
		case 5:
			ks = append(ks, w+strings.Repeat("z", i))
		case 6:
			b := []byte(strings.Repeat("a", n))
			b[i] = 'b'
			ks = append(ks, w+string(b))
		}
	}
	return ks
}

// nearKey: another key, which something that compares carelessly takes for k.
func nearKey(r *Rng, k string) string {
	switch r.N(12) {
	case 9, 10, 11:
		// one character differs
		if rs := []rune(k); len(rs) > 0 {
			i := []int{len(rs) - 1, 0, r.N(len(rs))}[r.N(3)]
			rs[i] = rune("abcxyz019_ "[r.N(11)])
			return string(rs)
		}
	case 0:
		return strings.ToUpper(k)
	case 1:
		return strings.ToLower(k)
	case 2:
		return strings.Title(k)
	case 3:
		return k + []string{" ", "\x00", "\t", "\u200b", "."}[r.N(5)]
	case 4:
		return " " + k
	case 5:
		return k + k
	case 6:
		if k != "" {
			_, n := utf8.DecodeLastRuneInString(k)
			return k[:len(k)-n]
		}
	case 7:
		if k != "" {
			_, n := utf8.DecodeRuneInString(k)
			return k[n:]
		}
	case 8:
		if i := strings.LastIndexByte(k, '.'); i >= 0 {
			return k[i+1:]
		}
		return "`" + k + "`"
	}
	return k + "x"
}

// alikes adds or puts in place of members ones with a similar key.
func alikes(r *Rng, j *J, pct int) {
	for i := range j.O {
		if !r.P(pct) {
			continue
		}
		k := nearKey(r, j.O[i].K)
		if j.get(k) != nil {
			continue
		}
		if r.P(40) {
			j.O[i].K = k
			continue
		}
		j.O = append(j.O, Member{k, near(r, j.O[i].V)})
		if r.P(50) {
			n := len(j.O) - 1
			j.O[i], j.O[n] = j.O[n], j.O[i]
		}
	}
}

// dotted adds keys written like the path to something nested.
func dotted(r *Rng, j *J, pct int) {
	for _, m := range j.O {
		if m.V.K != KObj || len(m.V.O) == 0 || !r.P(pct) {
			continue
		}
		in := m.V.O[r.N(len(m.V.O))]
		if k := m.K + "." + in.K; j.get(k) == nil {
			at := r.N(len(j.O) + 1)
			j.O = append(j.O[:at:at], append([]Member{{k, near(r, in.V)}}, j.O[at:]...)...)
		}
	}
}

// loc: a place in a document.
type loc struct {
	path []string
	v    *J
}

func collectLocs(j *J, path []string, out *[]loc) {
	if len(path) > 0 {
		*out = append(*out, loc{append([]string(nil), path...), j})
	}
	switch j.K {
	case KObj:
		for _, m := range j.O {
			collectLocs(m.V, append(append([]string(nil), path...), m.K), out)
		}
	case KArr:
		for i, e := range j.A {
			collectLocs(e, append(append([]string(nil), path...), fmt.Sprintf("[%d]", i)), out)
		}
	}
}

// mutate returns a changed copy of j.
func mutate(r *Rng, j *J, pct int) *J {
	if r.P(pct) {
		switch r.N(6) {
		case 0:
			return genValue(r, 2, nil)
		case 1:
			return near(r, j)
		case 2:
			return JNull()
		}
	}
	switch j.K {
	case KObj:
		n := &J{K: KObj}
		for _, m := range j.O {
			if r.P(pct / 2) {
				continue // dropped
			}
			n.O = append(n.O, Member{m.K, mutate(r, m.V, pct)})
		}
		if r.P(pct / 2) {
			k := genKey(r)
			if n.get(k) == nil {
				n.O = append(n.O, Member{k, genValue(r, 2, nil)})
			}
		}
		if r.P(pct / 3) {
			alikes(r, n, 25)
		}
		return n
	case KArr:
		n := &J{K: KArr}
		for _, e := range j.A {
			if r.P(pct / 3) {
				continue
			}
			n.A = append(n.A, mutate(r, e, pct))
		}
		if r.P(pct / 3) {
			n.A = append(n.A, genValue(r, 1, nil))
		}
		return n
	}
	return j
}

// alikeStr: a different text that something which interprets texts takes for s.
func alikeStr(r *Rng, s string) string {
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		sign, digits := "", strconv.FormatUint(uint64(i), 10)
		if i < 0 && i != math.MinInt64 {
			sign, digits = "-", strconv.FormatInt(-i, 10)
		}
		switch r.N(9) {
		case 0:
			return sign + "0" + digits
		case 1:
			return "+" + digits
		case 2:
			return " " + s
		case 3:
			return s + " "
		case 4:
			return s + ".0"
		case 5:
			return s + "e0"
		case 6:
			return fmt.Sprintf("%s0x%x", sign, i)
		case 7:
			return sign + digits[:1] + "_" + digits[1:]
		default:
			return sign + strings.Repeat("0", r.In(1, 25)) + digits
		}
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil && r.P(70) {
		return strconv.FormatFloat(f, "eEfgG"[r.N(5)], -1, 64)
	}
	if d, err := time.Parse("2006-01-02", s); err == nil && r.P(70) {
		return []string{d.Format("2006-01-02T15:04:05Z"), d.Format("2006-01"), d.Format("2006-1-2"), d.Format("2006-01-02 15:04:05")}[r.N(4)]
	}
	if d, err := time.Parse(time.RFC3339, s); err == nil && r.P(80) {
		z := d.In(time.FixedZone("", r.In(-20, 20)*1800))
		return []string{z.Format(time.RFC3339), z.Format(time.RFC3339Nano), d.UTC().Format(time.RFC3339), d.Format("2006-01-02T15:04:05.000Z07:00"), d.Format("2006-01-02"), strings.ToLower(s)}[r.N(6)]
	}
	switch r.N(11) {
	case 10:
		return strings.NewReplacer("k", "\u212a", "K", "\u212a", "s", "\u017f", "S", "\u017f", "å", "\u212b", "i", "\u0131", "σ", "ς", "a", "ａ", "1", "１").Replace(s)
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.TrimSpace(s)
	case 3:
		return " " + s
	case 4:
		return s + []string{" ", "\n", "\r", "\x00", "\t"}[r.N(5)]
	case 5:
		return "\"" + s + "\""
	case 6:
		t := strconv.Quote(s)
		return t[1 : len(t)-1]
	case 7:
		return strings.Replace(strings.Replace(s, "é", "e\u0301", -1), "ß", "ss", -1)
	case 8:
		return strings.Title(s)
	default:
		return strings.Replace(s, " ", "", -1)
	}
}

// near returns a value close to j: usually the same kind, close by.
func near(r *Rng, j *J) *J {
	switch j.K {
	case KUint:
		switch r.W(50, 30, 20) {
		case 0:
			return JUint(j.U)
		case 1:
			return JInt(int64(j.U & math.MaxInt64))
		default:
			return JFloat(float64(j.U))
		}
	case KInt:
		switch r.W(40, 30, 10, 10, 10) {
		case 0:
			return JInt(j.I)
		case 1:
			if j.I < math.MaxInt64-2 && j.I > math.MinInt64+2 {
				return JInt(j.I + int64(r.In(-1, 1)))
			}
			if j.I > 0 {
				return JInt(j.I - 1)
			}
			return JInt(j.I + 1)
		case 2:
			return JFloat(float64(j.I) + float64(r.In(-1, 1))*0.5)
		case 3:
			if r.P(40) {
				return JStr(alikeStr(r, strconv.FormatInt(j.I, 10)))
			}
			return JStr(strconv.FormatInt(j.I, 10))
		default:
			return JInt(-j.I)
		}
	case KFloat:
		switch r.W(40, 40, 20) {
		case 0:
			return JFloat(j.F)
		case 1:
			return JFloat(j.F + float64(r.In(-2, 2))*0.25)
		default:
			if math.Abs(j.F) < 1e15 {
				return JInt(int64(j.F))
			}
			return JFloat(j.F)
		}
	case KStr:
		switch r.W(42, 13, 13, 13, 8, 11) {
		case 5:
			return JStr(alikeStr(r, j.S))
		case 0:
			return JStr(j.S)
		case 1:
			return JStr(j.S + string(rune('a'+r.N(3))))
		case 2:
			if len(j.S) > 0 {
				_, n := utf8.DecodeLastRuneInString(j.S)
				return JStr(j.S[:len(j.S)-n])
			}
			return JStr("a")
		case 3:
			rs := []rune(j.S)
			if len(rs) > 0 {
				i := r.N(len(rs))
				rs[i] = rune("\"\\/\nabzAZ09 é"[r.N(8)])
				return JStr(string(rs))
			}
			return JStr("\"")
		default:
			if i, err := strconv.ParseInt(j.S, 10, 64); err == nil {
				return JInt(i)
			}
			return JStr(genStr(r))
		}
	case KTrue, KFalse:
		switch r.W(45, 45, 10) {
		case 0:
			return j
		case 1:
			return JBool(j.K == KFalse)
		default:
			return JInt(int64(r.N(2)))
		}
	case KNull:
		if r.P(50) {
			return JNull()
		}
	case KArr, KObj:
		switch r.W(35, 45, 10, 10) {
		case 0:
			return j
		case 1:
			return nearInside(r, j)
		case 2:
			return genArr(r, 1, defaultGen)
		case 3:
			return genObj(r, 1, defaultGen)
		}
	}
	return genScalar(r)
}

// nearInside returns a copy of j with a change of one scalar somewhere inside,
// often at the end and often of the same length when written.
func nearInside(r *Rng, j *J) *J {
	n := &J{K: j.K}
	n.A = append(n.A, j.A...)
	n.O = append(n.O, j.O...)
	k := len(n.A) + len(n.O)
	if k == 0 {
		return n
	}
	i := k - 1
	if r.P(40) {
		i = r.N(k)
	}
	at := func(v *J) *J {
		switch v.K {
		case KArr, KObj:
			return nearInside(r, v)
		case KInt:
			if r.P(60) && v.I > math.MinInt64+9 {
				return JInt(v.I ^ 1)
			}
		case KStr:
			if m := len(v.S); m > 0 && v.S[m-1] < 0x7e && v.S[m-1] > 0x20 && r.P(60) {
				return JStr(v.S[:m-1] + string(rune(v.S[m-1]+1)))
			}
		}
		return near(r, v)
	}
	if j.K == KArr {
		n.A[i] = at(n.A[i])
	} else {
		n.O[i].V = at(n.O[i].V)
	}
	return n
}

// ExprOpts shapes expressions.
type ExprOpts struct {
	Depth     int
	Loops     int // weight
	Exists    int
	Like      int
	CmpLit    int
	CmpField  int
	CmpFunc   int
	CmpDate   int
	Consts    int
	Not       int
	AndOr     int
	MaxArity  int
	Funcs     []string
	NoReverse bool // literals only on the right
	UintLits  bool
	MaxLoop   int // nesting
	NoArrIdx  bool
	Ops       []CmpOp
	PathOK    func([]string) bool
	LitOK     func(*J) bool
	NoOuter   bool // loop bodies refer to the loop variable only
}

var arithFuncs = []string{"mathAdd", "mathSubract", "mathMultiply", "mathDivide", "mathModulo"}
var unaryFuncs = []string{"mathAbs", "mathRound", "mathCeil", "mathFloor", "mathSqrt", "mathNegate", "mathDegrees", "mathRadians",
	"mathCos", "mathSin", "mathTan", "mathAcos", "mathAsin", "mathAtan", "mathExp", "mathLn", "mathLog"}
var binFuncs = append([]string{"mathPow", "mathAtan2"}, arithFuncs...)

func stdExpr() *ExprOpts {
	return &ExprOpts{Depth: 3, Loops: 8, Exists: 8, Like: 3, CmpLit: 40, CmpField: 8, CmpFunc: 8, CmpDate: 2, Consts: 2, Not: 10, AndOr: 30,
		MaxArity: 4, Funcs: append(append([]string{}, unaryFuncs...), binFuncs...), MaxLoop: 2, UintLits: true}
}

type egen struct {
	doc   *J
	r     *Rng
	o     *ExprOpts
	root  []loc
	vars  []varScope
	ids   idScheme
	nvar  int
	nCond int
}

// idScheme: how loop variables are numbered. Any number but 0 will do, and loops
// which are not nested in each other may share one.
type idScheme struct {
	base, stride int
	share        bool
}

func genIDs(r *Rng) idScheme {
	if r.P(50) {
		return idScheme{1, 1, r.P(30)}
	}
	return idScheme{[]int{1, 2, 7, 100, 255, 256, 257, 300, 1 << 15, 1 << 16, 1<<16 + 1, 1 << 24, 1<<31 - 40, 1 << 40}[r.N(14)],
		[]int{1, 3, 16, 100, 256, 1 << 16, 1 << 32}[r.N(7)], r.P(40)}
}

func (s idScheme) next(n, depth int) int {
	if s.share {
		n = depth
	}
	return s.base + n*s.stride
}

type varScope struct {
	id   int
	self *J // a representative element
	locs []loc
}

func newEgen(r *Rng, doc *J, o *ExprOpts) *egen {
	g := &egen{r: r, o: o, doc: doc}
	collectLocs(doc, nil, &g.root)
	return g
}

// field picks a field operand, and its value in the base document (or nil).
func (g *egen) field() (*Opd, *J) {
	r := g.r
	// which scope
	if n := len(g.vars); n > 0 && (g.o.NoOuter || r.P(80)) {
		v := g.vars[n-1]
		if n > 1 && r.P(25) && !g.o.NoOuter {
			v = g.vars[r.N(n)]
		}
		if len(v.locs) == 0 || r.P(15) {
			if r.P(70) || v.self == nil {
				return VarFld(v.id), v.self
			}
			return VarFld(v.id, genKey(r)), nil
		}
		l := v.locs[r.N(len(v.locs))]
		p, val := g.tweak(l.path, l.v)
		return VarFld(v.id, p...), val
	}
	if len(g.root) == 0 {
		return Fld(genKey(r)), nil
	}
	l := g.root[r.N(len(g.root))]
	p, val := g.tweak(l.path, l.v)
	return Fld(p...), val
}

func (g *egen) tweak(p []string, v *J) ([]string, *J) {
	r := g.r
	switch {
	case r.P(90):
		return p, v
	case r.P(40):
		return append(append([]string(nil), p...), genKey(r)), nil
	case r.P(40):
		q := append([]string(nil), p...)
		i := r.N(len(q))
		if !strings.HasPrefix(q[i], "[") {
			q[i] = nearKey(r, q[i])
		}
		return q, nil
	default:
		q := append([]string(nil), p...)
		q[len(q)-1] = genKey(r)
		return q, nil
	}
}

func (g *egen) okField() (*Opd, *J) {
	for i := 0; i < 20; i++ {
		f, v := g.field()
		if g.o.NoArrIdx && hasIdx(f.Path) {
			continue
		}
		if g.o.PathOK != nil && !g.o.PathOK(f.Path) {
			continue
		}
		return f, v
	}
	if n := len(g.vars); n > 0 {
		return VarFld(g.vars[n-1].id, "a"), nil
	}
	return Fld("a"), nil
}

func hasIdx(p []string) bool {
	for _, s := range p {
		if strings.HasPrefix(s, "[") {
			return true
		}
	}
	return false
}

func (g *egen) litFor(v *J) *J {
	r := g.r
	for i := 0; ; i++ {
		var l *J
		if v != nil && v.K != KArr && v.K != KObj && r.P(80) {
			l = near(r, v)
		} else {
			l = genScalar(r)
		}
		if g.o.UintLits && l.K == KInt && l.I >= 0 && r.P(12) {
			l = JUint(uint64(l.I))
			if r.P(10) {
				l.U |= 1 << 63
			}
		}
		if g.o.LitOK != nil && !g.o.LitOK(l) && i < 50 {
			continue
		}
		return l
	}
}

func (g *egen) op() CmpOp {
	if g.o.Ops != nil {
		return g.o.Ops[g.r.N(len(g.o.Ops))]
	}
	if g.r.P(35) {
		return OpEQ
	}
	return CmpOp(g.r.N(6))
}

func (g *egen) cmp(l *Opd, rr *Opd) *E {
	if !g.o.NoReverse && g.r.P(20) {
		l, rr = rr, l
	}
	return Cmp(l, g.op(), rr)
}

var reAtoms = []string{"a", "b", "abc", "h.*o", "^a", "b$", "^abc$", "[a-c]+", "x|z", "\\d+", "^\\s*$", "\\w+ \\w+", "é", "(?i)abc", "^.$", "^[^\"]*$", "\"", "\\\\", "\n", "\\t", ".", "^$", "[0-9]{2}", "日", "o{2}"}

func (g *egen) regexFor(v *J) string {
	r := g.r
	if v != nil && v.K == KStr && r.P(50) {
		rs := []rune(v.S)
		if len(rs) < 60 {
			switch r.N(4) {
			case 0:
				return "^" + regexp.QuoteMeta(v.S) + "$"
			case 1:
				if len(rs) > 1 {
					return regexp.QuoteMeta(string(rs[1:]))
				}
			case 2: // some part of it, or of a text like it
				if len(rs) > 0 {
					a := r.N(len(rs))
					b := a + 1 + r.N(len(rs)-a)
					p := regexp.QuoteMeta(string(rs[a:b]))
					switch r.W(60, 10, 10, 10, 10) {
					case 1:
						return p + " "
					case 2:
						return " " + p
					case 3:
						return p + "$"
					case 4:
						return p + p
					}
					return p
				}
			}
			if len(rs) > 0 {
				return "^" + regexp.QuoteMeta(string(rs[:1]))
			}
		}
	}
	switch r.W(85, 5, 4, 4) {
	case 1:
		return r.Pick(reAtoms) + r.Pick(reAtoms)
	case 2:
		return r.Pick(reAtoms) + " "
	case 3:
		return " " + r.Pick(reAtoms)
	}
	return r.Pick(reAtoms)
}

// closeTo gives a number at or near what an operand comes to on the document
// the generator works from.
func (g *egen) closeTo(o *Opd, mark func(string)) *J {
	r := g.r
	if r.P(50) {
		env := &Env{Doc: g.doc}
		v, _ := o.eval(env)
		if v.IsNumeric() && !env.Unclear {
			if x := v.asFloat(); math.Abs(x) < 1e6 {
				mark("literal near the result")
				switch r.W(50, 15, 15, 10, 10) {
				case 1:
					x += math.Max(1, math.Abs(x)) * 1e-5
				case 2:
					x -= math.Max(1, math.Abs(x)) * 1e-5
				case 3:
					x += 1
				case 4:
					x = -x
				}
				return JFloat(x)
			}
		}
	}
	return JFloat(float64(r.In(-30, 30)) / 2)
}

func (g *egen) num() *Opd {
	f, v := g.okField()
	for i := 0; i < 6 && (v == nil || !v.IsNumeric()); i++ {
		f, v = g.okField()
	}
	return f
}

func (g *egen) fn(depth int) *Opd {
	r := g.r
	name := g.o.Funcs[r.N(len(g.o.Funcs))]
	arg := func() *Opd {
		if depth > 0 && r.P(25) {
			return g.fn(depth - 1)
		}
		if r.P(35) {
			for i := 0; i < 10; i++ {
				l := g.litFor(JInt(int64(r.In(-9, 9))))
				if p := plainNumber(r); r.P(40) && (g.o.LitOK == nil || g.o.LitOK(p)) {
					l = p
				}
				if l.IsNumeric() {
					return Lit(l)
				}
			}
		}
		return g.num()
	}
	for _, b := range binFuncs {
		if b == name {
			a := arg()
			b := arg()
			if !a.hasField() && !b.hasField() {
				a = g.num()
			}
			return Fn(name, a, b)
		}
	}
	a := arg()
	if !a.hasField() {
		a = g.num()
	}
	return Fn(name, a)
}

func (o *Opd) hasField() bool {
	if o.K == OField {
		return true
	}
	for _, a := range o.Args {
		if a.hasField() {
			return true
		}
	}
	return false
}

var timePool = []string{"2019", "2019-01", "2019-01-01", "2019-01-02", "2018-12-31T23:59:59Z", "2019-01-01T00:00:00Z", "2019-01-01T00:00:00+01:00",
	"2019-01-01T01:00:00+01:00", "2020-02-29", "2000-01-01T12:34:56.789Z", "1999-12", "2038-01-19T03:14:08Z", "2019-06-15T10:00:00-07:00", "2001"}
var cbTimes = []string{"2019-01-01 00:00:00", "2018-12-31 23:59:59", "2019-06-15 17:00:00", "2020-02-29  01:02:03"}
var badTimes = []string{"2019-13", "2019-02-30", "1850", "not a date", "2019-1-1", "20190101", "2019-01-01T25:00:00Z", "2019-01-01T00:00:00", ""}

func genTimeStr(r *Rng) string {
	switch r.W(50, 25, 10, 15) {
	case 0:
		return r.Pick(timePool)
	case 1:
		y, m, d := r.In(1900, 2099), r.In(1, 12), r.In(1, 28)
		switch r.N(7) {
		case 5:
			return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d.%s%s", y, m, d, r.N(24), r.N(60), r.N(60), genDigits(r), r.Pick([]string{"Z", "+01:00", "-07:30"}))
		case 6: // close together, so that fractions and offsets decide
			return fmt.Sprintf("2019-01-01T0%d:00:00.%s%s", r.N(2), genDigits(r), r.Pick([]string{"Z", "+01:00", "-00:00", "+00:30"}))
		case 0:
			return fmt.Sprintf("%04d", y)
		case 1:
			return fmt.Sprintf("%04d-%02d", y, m)
		case 2:
			return fmt.Sprintf("%04d-%02d-%02d", y, m, d)
		case 3:
			return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02dZ", y, m, d, r.N(24), r.N(60), r.N(60))
		default:
			return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s%02d:%02d", y, m, d, r.N(24), r.N(60), r.N(60), r.Pick([]string{"+", "-"}), r.N(14), r.N(60))
		}
	case 2:
		return r.Pick(badTimes)
	default:
		return r.Pick(cbTimes)
	}
}

func genDigits(r *Rng) string {
	b := make([]byte, r.In(1, 9))
	for i := range b {
		b[i] = byte('0' + r.N(10))
		if r.P(30) {
			b[i] = '0'
		}
	}
	return string(b)
}

func genTimeLit(r *Rng) string {
	for {
		s := genTimeStr(r)
		if _, ok := parseTimeSpec(s, false); ok {
			return s
		}
	}
}

func (g *egen) expr(depth int) *E {
	r, o := g.r, g.o
	g.nCond++
	inner := depth > 0 && g.nCond < 40
	wl, wn, wa := 0, 0, 0
	if inner {
		wl, wn, wa = o.Loops, o.Not, o.AndOr
		if len(g.vars) >= o.MaxLoop {
			wl = 0
		}
	}
	switch r.W(o.CmpLit, o.CmpField, o.CmpFunc, o.CmpDate, o.Exists, o.Like, o.Consts, wl, wn, wa) {
	case 0:
		f, v := g.okField()
		return g.cmp(f, Lit(g.litFor(v)))
	case 1:
		a, _ := g.okField()
		b, _ := g.okField()
		return g.cmp(a, b)
	case 2:
		f := g.fn(2)
		if r.P(25) {
			b := g.num()
			return g.cmp(f, b)
		}
		if r.P(15) {
			return g.cmp(f, g.fn(1))
		}
		l := g.litFor(JFloat(float64(r.In(-30, 30)) / 2))
		return g.cmp(f, Lit(l))
	case 3:
		f, _ := g.okField()
		switch r.N(3) {
		case 0:
			return g.cmp(f, &Opd{K: OTime, Time: genTimeLit(r)})
		case 1:
			return g.cmp(Fn("date", f), &Opd{K: OTime, Time: genTimeLit(r)})
		default:
			b, _ := g.okField()
			return g.cmp(Fn("date", f), Fn("date", b))
		}
	case 4:
		f, _ := g.okField()
		if r.P(35) {
			return NotExists(f)
		}
		return Exists(f)
	case 5:
		f, v := g.okField()
		return Like(f, g.regexFor(v))
	case 6:
		return &E{K: []EK{ETrue, EFalse}[r.N(2)]}
	case 7:
		return g.loop(depth)
	case 8:
		return Not(g.expr(depth - 1))
	}
	n := r.In(2, o.MaxArity)
	if r.P(6) {
		n = 1
	}
	x := &E{K: EAnd}
	if r.P(50) {
		x.K = EOr
	}
	for i := 0; i < n; i++ {
		x.Sub = append(x.Sub, g.expr(depth-1))
	}
	return x
}

func (g *egen) loop(depth int) *E {
	r := g.r
	// find an array in the innermost scope
	in, v := g.loopTarget()
	if g.ids.stride == 0 {
		g.ids = genIDs(r)
	}
	id := g.ids.next(g.nvar, len(g.vars))
	g.nvar++
	sc := varScope{id: id}
	if v != nil && v.K == KArr && len(v.A) > 0 {
		sc.self = v.A[r.N(len(v.A))]
		for _, e := range v.A {
			collectLocs(e, nil, &sc.locs)
		}
	}
	g.vars = append(g.vars, sc)
	body := g.expr(depth - 1)
	g.vars = g.vars[:len(g.vars)-1]
	return Loop([]EK{EAny, EEvery, EAnyEvery}[r.N(3)], id, in, body)
}

func (g *egen) loopTarget() (*Opd, *J) {
	// Loops inside a loop iterate something reached from the innermost
	// variable: the compiler supports no other nesting (see DESIGN.md).
	if n := len(g.vars); n > 0 {
		v := g.vars[n-1]
		var arrs []loc
		for _, l := range v.locs {
			if l.v.K == KArr {
				arrs = append(arrs, l)
			}
		}
		if len(arrs) > 0 && g.r.P(85) {
			l := arrs[g.r.N(len(arrs))]
			return VarFld(v.id, l.path...), l.v
		}
		if v.self != nil && v.self.K == KArr {
			return VarFld(v.id), v.self
		}
		return VarFld(v.id, genKey(g.r)), nil
	}
	var arrs []loc
	for _, l := range g.root {
		if l.v.K == KArr {
			if (g.o.NoArrIdx && hasIdx(l.path)) || (g.o.PathOK != nil && !g.o.PathOK(l.path)) {
				continue
			}
			arrs = append(arrs, l)
		}
	}
	if len(arrs) > 0 && g.r.P(92) {
		l := arrs[g.r.N(len(arrs))]
		return Fld(l.path...), l.v
	}
	return g.okField()
}

// size of an expression
func (x *E) size() int {
	n := 1
	for _, s := range x.Sub {
		n += s.size()
	}
	return n
}
