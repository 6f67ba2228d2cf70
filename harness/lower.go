package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"

	g "github.com/couchbaselabs/gojsonsm"
)

// arith: integers exactly (what leaves the signed range of its
// operands, or the unsigned one if an operand is beyond int64, is left
// open), a float operand makes the operation a float64 one.
func arith(env *Env, name string, a, b *J) *J {
	if !a.IsNumeric() || !b.IsNumeric() {
		return jInvalid
	}
	if a.K == KFloat || b.K == KFloat {
		x, y := a.asFloat(), b.asFloat()
		switch name {
		case "mathAdd":
			return JFloat(x + y)
		case "mathSubract":
			return JFloat(x - y)
		case "mathMultiply":
			return JFloat(x * y)
		case "mathDivide":
			return JFloat(x / y)
		}
		return jInvalid // modulo of floats
	}
	bi := func(j *J) *big.Int {
		if j.K == KUint {
			return new(big.Int).SetUint64(j.U)
		}
		return big.NewInt(j.I)
	}
	x, y, r := bi(a), bi(b), new(big.Int)
	switch name {
	case "mathAdd":
		r.Add(x, y)
	case "mathSubract":
		r.Sub(x, y)
	case "mathMultiply":
		r.Mul(x, y)
	case "mathDivide":
		if y.Sign() == 0 {
			return jInvalid
		}
		r.Quo(x, y)
	case "mathModulo":
		if y.Sign() == 0 {
			return jInvalid
		}
		r.Rem(x, y)
	}
	if x.IsInt64() && y.IsInt64() {
		if r.IsInt64() {
			return JInt(r.Int64())
		}
	} else if r.IsUint64() && x.Sign() >= 0 && (y.Sign() >= 0 || name == "mathAdd" || name == "mathSubract") {
		// one operand is beyond int64, so this is unsigned arithmetic; it is
		// exact as long as everything stays in the unsigned range
		if y.Sign() >= 0 || name == "mathSubract" && b.I > math.MinInt64 {
			if r.IsInt64() {
				return JInt(r.Int64())
			}
			return JUint(r.Uint64())
		}
	}
	env.unclear("integer overflow")
	return jInvalid
}

// ---- documents to text ----

// Style of a document's spelling. None of it may change any result.
type Style struct {
	R        *Rng
	Ws       int // percent chance of whitespace at each position
	Shuffle  bool
	Extra    int // percent chance of an unrelated extra member, per object gap
	Esc      int // percent chance a character is written as an escape
	AllEsc   bool
	TailWs   bool
	ExtraKey func(r *Rng) string
	Nums     int  // percent chance a number is spelled another way
	IntFloat bool // which may be with a fraction or an exponent for whole numbers
}

func canon(j *J) string {
	var sb strings.Builder
	writeJ(&sb, j, nil)
	return sb.String()
}

func docText(j *J, st *Style) string {
	var sb strings.Builder
	ws(&sb, st)
	writeJ(&sb, j, st)
	if st != nil && st.TailWs {
		ws(&sb, st)
	}
	return sb.String()
}

func ws(sb *strings.Builder, st *Style) {
	if st == nil {
		return
	}
	for st.R.P(st.Ws) {
		sb.WriteByte(" \t\n\r"[st.R.N(4)])
	}
}

func numText(j *J) string {
	if j.Txt != "" {
		return j.Txt
	}
	switch j.K {
	case KInt:
		return strconv.FormatInt(j.I, 10)
	case KUint:
		return strconv.FormatUint(j.U, 10)
	}
	s := strconv.FormatFloat(j.F, 'g', -1, 64)
	if !strings.ContainsAny(s, ".eE") {
		s += ".0"
	}
	return s
}

// respell writes the same number another way.
func respell(j *J, st *Style) string {
	r := st.R
	t := numText(j)
	whole := j.K != KFloat
	if whole && (!st.IntFloat || j.K == KUint || j.I > 1<<52 || j.I < -1<<52) {
		if t == "0" && r.P(50) {
			return "-0"
		}
		return t
	}
	f := j.asFloat()
	mant, e, _ := strings.Cut(strconv.FormatFloat(math.Abs(f), 'e', -1, 64), "e")
	exp, err := strconv.Atoi(e)
	if err != nil {
		return t
	}
	digits := strings.Replace(mant, ".", "", 1)
	exp -= len(digits) - 1 // the value is digits * 10^exp
	if r.P(30) {
		n := r.In(1, 3)
		digits += strings.Repeat("0", n)
		exp -= n
	}
	out := ""
	if k := r.In(0, len(digits)); k > 0 && (digits[0] != '0' || k == 1) {
		out = digits[:k]
		exp += len(digits) - k
		if k < len(digits) {
			out += "." + digits[k:]
		}
	} else {
		z := r.N(4)
		out = "0." + strings.Repeat("0", z) + digits
		exp += len(digits) + z
	}
	if exp != 0 || !strings.Contains(out, ".") || r.P(30) {
		out += []string{"e", "E"}[r.N(2)]
		if exp < 0 {
			out += "-"
			exp = -exp
		} else if r.P(50) {
			out += "+"
		}
		out += strings.Repeat("0", r.W(70, 20, 10)) + strconv.Itoa(exp)
	}
	if math.Signbit(f) {
		out = "-" + out
	}
	if v, err := strconv.ParseFloat(out, 64); err != nil || v != f {
		return t
	}
	return out
}

func writeStr(sb *strings.Builder, s string, st *Style) {
	sb.WriteByte('"')
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			sb.WriteByte(s[i])
			i++
			continue
		}
		i += n
		must := r < 0x20 || r == '"' || r == '\\'
		if must || (st != nil && (st.AllEsc || st.R.P(st.Esc))) {
			short := ""
			switch r {
			case '"':
				short = `\"`
			case '\\':
				short = `\\`
			case '/':
				short = `\/`
			case '\b':
				short = `\b`
			case '\f':
				short = `\f`
			case '\n':
				short = `\n`
			case '\r':
				short = `\r`
			case '\t':
				short = `\t`
			}
			if short != "" && (st == nil || st.R.P(60)) {
				sb.WriteString(short)
				continue
			}
			up := st != nil && st.R.P(50)
			hex := func(c rune) {
				h := fmt.Sprintf("%04x", c)
				if up {
					h = strings.ToUpper(h)
				}
				sb.WriteString(`\u` + h)
			}
			if r >= 0x10000 {
				c := r - 0x10000
				hex(0xD800 + c>>10)
				hex(0xDC00 + c&0x3FF)
			} else {
				hex(r)
			}
			continue
		}
		sb.WriteRune(r)
	}
	sb.WriteByte('"')
}

func writeJ(sb *strings.Builder, j *J, st *Style) {
	switch j.K {
	case KNull:
		sb.WriteString("null")
	case KTrue:
		sb.WriteString("true")
	case KFalse:
		sb.WriteString("false")
	case KInt, KUint, KFloat:
		if st != nil && st.R.P(st.Nums) {
			sb.WriteString(respell(j, st))
		} else {
			sb.WriteString(numText(j))
		}
	case KStr:
		writeStr(sb, j.S, st)
	case KArr:
		sb.WriteByte('[')
		for i, e := range j.A {
			if i > 0 {
				sb.WriteByte(',')
			}
			ws(sb, st)
			writeJ(sb, e, st)
			ws(sb, st)
		}
		if len(j.A) == 0 {
			ws(sb, st)
		}
		sb.WriteByte(']')
	case KObj:
		sb.WriteByte('{')
		idx := make([]int, len(j.O))
		for i := range idx {
			idx[i] = i
		}
		if st != nil && st.Shuffle {
			idx = st.R.Perm(len(j.O))
		}
		first := true
		sep := func() {
			if !first {
				sb.WriteByte(',')
			}
			first = false
			ws(sb, st)
		}
		extra := func() {
			if st != nil && st.Extra > 0 && st.ExtraKey != nil && st.R.P(st.Extra) {
				k := st.ExtraKey(st.R)
				for _, m := range j.O {
					if m.K == k {
						return
					}
				}
				sep()
				writeStr(sb, k, st)
				ws(sb, st)
				sb.WriteByte(':')
				ws(sb, st)
				plain := *st
				plain.Extra = 0
				writeJ(sb, genValue(st.R, 2, nil), &plain)
				ws(sb, st)
			}
		}
		for _, i := range idx {
			extra()
			sep()
			writeStr(sb, j.O[i].K, st)
			ws(sb, st)
			sb.WriteByte(':')
			ws(sb, st)
			writeJ(sb, j.O[i].V, st)
			ws(sb, st)
		}
		extra()
		if first {
			ws(sb, st)
		}
		sb.WriteByte('}')
	default:
		panic("cannot serialize " + j.K.String())
	}
}

// ---- expressions to the public expression tree ----

// plainLits: literals only of the types int64, uint64 and float64
var plainLits bool

// litGo gives the Go value for a literal, numbers in any of the Go types that
// hold them exactly (one type for each number).
func litGo(j *J) interface{} {
	switch j.K {
	case KNull:
		return nil
	case KTrue:
		return true
	case KFalse:
		return false
	case KInt:
		switch k := uint64(j.I) * 0x9e3779b97f4a7c15 >> 59; {
		case plainLits:
		case k < 10:
			return int(j.I)
		case k < 14 && j.I == int64(int32(j.I)):
			return int32(j.I)
		case k < 18 && j.I == int64(int16(j.I)):
			return int16(j.I)
		case k < 22 && j.I == int64(int8(j.I)):
			return int8(j.I)
		}
		return j.I
	case KUint:
		switch k := j.U * 0x9e3779b97f4a7c15 >> 59; {
		case plainLits:
		case k < 10:
			return uint(j.U)
		case k < 14 && j.U == uint64(uint32(j.U)):
			return uint32(j.U)
		case k < 18 && j.U == uint64(uint16(j.U)):
			return uint16(j.U)
		case k < 22 && j.U == uint64(uint8(j.U)):
			return uint8(j.U)
		}
		return j.U
	case KFloat:
		if !plainLits && float64(float32(j.F)) == j.F && math.Float64bits(j.F)*0x9e3779b97f4a7c15>>63 == 0 {
			return float32(j.F)
		}
		return j.F
	case KStr:
		return j.S
	}
	panic("literal kind")
}

func (o *Opd) api() g.Expression {
	switch o.K {
	case OField:
		return g.FieldExpr{Root: g.VariableID(o.Root), Path: append([]string(nil), o.Path...)}
	case OLit:
		return g.ValueExpr{Value: litGo(o.Lit)}
	case OTime:
		return g.TimeExpr{Time: o.Time}
	case OFunc:
		f := g.FuncExpr{FuncName: o.Fn}
		for _, a := range o.Args {
			f.Params = append(f.Params, a.api())
		}
		return f
	}
	panic("operand kind")
}

func (x *E) api() g.Expression {
	switch x.K {
	case ETrue:
		return g.TrueExpr{}
	case EFalse:
		return g.FalseExpr{}
	case EAnd:
		var r g.AndExpr
		for _, s := range x.Sub {
			r = append(r, s.api())
		}
		return r
	case EOr:
		var r g.OrExpr
		for _, s := range x.Sub {
			r = append(r, s.api())
		}
		return r
	case ENot:
		return g.NotExpr{SubExpr: x.Sub[0].api()}
	case ECmp:
		l, r := x.L.api(), x.R.api()
		switch x.Op {
		case OpEQ:
			return g.EqualsExpr{Lhs: l, Rhs: r}
		case OpNE:
			return g.NotEqualsExpr{Lhs: l, Rhs: r}
		case OpLT:
			return g.LessThanExpr{Lhs: l, Rhs: r}
		case OpLE:
			return g.LessEqualsExpr{Lhs: l, Rhs: r}
		case OpGT:
			return g.GreaterThanExpr{Lhs: l, Rhs: r}
		case OpGE:
			return g.GreaterEqualsExpr{Lhs: l, Rhs: r}
		}
	case EExists:
		return g.ExistsExpr{SubExpr: x.L.api()}
	case ENotExists:
		return g.NotExistsExpr{SubExpr: x.L.api()}
	case ELike:
		return g.LikeExpr{Lhs: x.L.api(), Rhs: g.RegexExpr{Regex: x.Re}}
	case EAny:
		return g.AnyInExpr{VarId: g.VariableID(x.Var), InExpr: x.In.api(), SubExpr: x.Sub[0].api()}
	case EEvery:
		return g.EveryInExpr{VarId: g.VariableID(x.Var), InExpr: x.In.api(), SubExpr: x.Sub[0].api()}
	case EAnyEvery:
		return g.AnyEveryInExpr{VarId: g.VariableID(x.Var), InExpr: x.In.api(), SubExpr: x.Sub[0].api()}
	}
	panic("expr kind")
}

// ---- debugging form ----

func (o *Opd) String() string {
	switch o.K {
	case OField:
		s := "$doc"
		if o.Root != 0 {
			s = fmt.Sprintf("$%d", o.Root)
		}
		for _, p := range o.Path {
			s += "." + strconv.Quote(p)
		}
		return s
	case OLit:
		if o.Lit.K == KUint {
			return canon(o.Lit) + "u"
		}
		if o.Lit.K == KFloat && (math.IsInf(o.Lit.F, 0) || math.IsNaN(o.Lit.F)) {
			return fmt.Sprint(o.Lit.F)
		}
		if o.Lit.K == KStr {
			return strconv.Quote(o.Lit.S)
		}
		return canon(o.Lit)
	case OTime:
		return "time(" + o.Time + ")"
	}
	s := o.Fn + "("
	for i, a := range o.Args {
		if i > 0 {
			s += ", "
		}
		s += a.String()
	}
	return s + ")"
}

func (x *E) String() string {
	switch x.K {
	case ETrue:
		return "TRUE"
	case EFalse:
		return "FALSE"
	case EAnd, EOr:
		op := " AND "
		if x.K == EOr {
			op = " OR "
		}
		var ss []string
		for _, s := range x.Sub {
			ss = append(ss, s.String())
		}
		return "(" + strings.Join(ss, op) + ")"
	case ENot:
		return "NOT(" + x.Sub[0].String() + ")"
	case ECmp:
		return x.L.String() + " " + x.Op.String() + " " + x.R.String()
	case EExists:
		return "EXISTS(" + x.L.String() + ")"
	case ENotExists:
		return "NOTEXISTS(" + x.L.String() + ")"
	case ELike:
		return x.L.String() + " MATCHES " + strconv.Quote(x.Re)
	}
	n := map[EK]string{EAny: "ANY", EEvery: "EVERY", EAnyEvery: "ANYEVERY"}[x.K]
	return fmt.Sprintf("%s $%d IN %s SATISFIES %s END", n, x.Var, x.In, x.Sub[0])
}
