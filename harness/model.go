package main

// Reference model: JSON documents, expressions, and their meaning.
//
// Nothing in this file uses the code under test. Documents are trees; an
// expression is evaluated recursively over the tree. The code under test works
// the other way round (a single streaming pass over bytes, marking buckets of a
// binary tree), so the two share no mechanism.

import (
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"
)

type Kind int

const (
	KInvalid Kind = iota // result of a function applied to something it cannot take
	KMissing
	KNull
	KFalse
	KTrue
	KUint
	KInt
	KFloat
	KStr
	KTime
	KArr
	KObj
)

var kindNames = []string{"invalid", "missing", "null", "false", "true", "uint", "int", "float", "string", "time", "array", "object"}

func (k Kind) String() string { return kindNames[k] }

// Member of an object.
type Member struct {
	K string
	V *J
}

// J is a JSON value, or a computed one.
type J struct {
	K   Kind
	I   int64
	U   uint64
	F   float64
	S   string // string contents, unescaped
	T   time.Time
	A   []*J
	O   []Member
	Txt string // number spelling to use in the document, "" = canonical
}

func JNull() *J { return &J{K: KNull} }
func JBool(b bool) *J {
	if b {
		return &J{K: KTrue}
	}
	return &J{K: KFalse}
}
func JInt(i int64) *J     { return &J{K: KInt, I: i} }
func JUint(u uint64) *J   { return &J{K: KUint, U: u} }
func JFloat(f float64) *J { return &J{K: KFloat, F: f} }
func JStr(s string) *J    { return &J{K: KStr, S: s} }
func JArr(a ...*J) *J     { return &J{K: KArr, A: a} }
func JObj(m ...Member) *J { return &J{K: KObj, O: m} }
func JTime(t time.Time) *J {
	return &J{K: KTime, T: t}
}

var jInvalid = &J{K: KInvalid}
var jMissing = &J{K: KMissing}

func (j *J) IsNumeric() bool { return j.K == KInt || j.K == KUint || j.K == KFloat }
func (j *J) IsBool() bool    { return j.K == KTrue || j.K == KFalse }

func (j *J) get(key string) *J {
	switch j.K {
	case KObj:
		for i := range j.O {
			if j.O[i].K == key {
				return j.O[i].V
			}
		}
	case KArr:
		if len(key) > 2 && key[0] == '[' && key[len(key)-1] == ']' {
			n, err := strconv.Atoi(key[1 : len(key)-1])
			if err == nil && n >= 0 && n < len(j.A) && strconv.Itoa(n) == key[1:len(key)-1] {
				return j.A[n]
			}
		}
	}
	return nil
}

func (j *J) path(p []string) *J {
	for _, k := range p {
		j = j.get(k)
		if j == nil {
			return nil
		}
	}
	return j
}

// ---- expressions ----

type CmpOp int

const (
	OpEQ CmpOp = iota
	OpNE
	OpLT
	OpLE
	OpGT
	OpGE
)

var cmpNames = []string{"=", "<>", "<", "<=", ">", ">="}

func (o CmpOp) String() string { return cmpNames[o] }

type EK int

const (
	ETrue EK = iota
	EFalse
	EAnd
	EOr
	ENot
	ECmp
	EExists
	ENotExists
	ELike
	EAny
	EEvery
	EAnyEvery
)

// E is a boolean expression.
type E struct {
	K    EK
	Sub  []*E // And, Or, Not(1), loops(1: body)
	Op   CmpOp
	L, R *Opd // Cmp, Like(L), Exists(L)
	Re   string
	Var  int  // loops: variable id (>0)
	In   *Opd // loops: array operand
}

type OK int

const (
	OField OK = iota
	OLit
	OFunc
	OTime // a time literal, RFC3339 or one of the short ISO forms
)

// Opd is an operand.
type Opd struct {
	K    OK
	Root int // 0 = document, otherwise loop variable
	Path []string
	Lit  *J // KNull..KStr
	Fn   string
	Args []*Opd
	Time string
}

func Fld(path ...string) *Opd            { return &Opd{K: OField, Path: path} }
func VarFld(v int, path ...string) *Opd  { return &Opd{K: OField, Root: v, Path: path} }
func Lit(j *J) *Opd                      { return &Opd{K: OLit, Lit: j} }
func Fn(name string, args ...*Opd) *Opd  { return &Opd{K: OFunc, Fn: name, Args: args} }
func Cmp(l *Opd, op CmpOp, r *Opd) *E    { return &E{K: ECmp, Op: op, L: l, R: r} }
func And(s ...*E) *E                     { return &E{K: EAnd, Sub: s} }
func Or(s ...*E) *E                      { return &E{K: EOr, Sub: s} }
func Not(s *E) *E                        { return &E{K: ENot, Sub: []*E{s}} }
func Exists(o *Opd) *E                   { return &E{K: EExists, L: o} }
func NotExists(o *Opd) *E                { return &E{K: ENotExists, L: o} }
func Like(o *Opd, re string) *E          { return &E{K: ELike, L: o, Re: re} }
func Loop(k EK, v int, in *Opd, b *E) *E { return &E{K: k, Var: v, In: in, Sub: []*E{b}} }

// Env of an evaluation.
type Env struct {
	Doc     *J
	Vars    map[int]*J
	Collate bool // some evaluated comparison had operands that could not be reconciled
	Unclear bool // evaluation touched something the specification leaves open
	Why     string
	Struct  bool       // two arrays/objects were compared: decided on their serialized text
	Over    func(v *J) // called with the value of each loop executed
	Absent  int        // comparisons with a missing operand
	Touched int        // comparisons whose operands were both there
	Trace   func(op string, a, b *J)

	structOrder bool // two different arrays/objects were compared
}

func (e *Env) unclear(why string) {
	if !e.Unclear {
		e.Unclear = true
		e.Why = why
	}
}

func (o *Opd) eval(env *Env) (v *J, user bool) {
	switch o.K {
	case OField:
		root := env.Doc
		if o.Root != 0 {
			root = env.Vars[o.Root]
		}
		if root == nil {
			return jMissing, false
		}
		r := root.path(o.Path)
		if r == nil {
			return jMissing, false
		}
		return r, false
	case OLit:
		return o.Lit, true
	case OTime:
		t, ok := parseTimeSpec(o.Time, false)
		if !ok {
			env.unclear("bad time literal")
			return jInvalid, true
		}
		return JTime(t), true
	case OFunc:
		var args []*J
		for _, a := range o.Args {
			v, _ := a.eval(env)
			if v.K == KMissing {
				return jMissing, false
			}
			args = append(args, v)
		}
		return applyFn(env, o.Fn, args), false
	}
	panic("operand kind")
}

func (x *E) eval(env *Env) bool {
	switch x.K {
	case ETrue:
		return true
	case EFalse:
		return false
	case EAnd:
		r := true
		for _, s := range x.Sub {
			if !s.eval(env) {
				r = false
			}
		}
		return r
	case EOr:
		r := false
		for _, s := range x.Sub {
			if s.eval(env) {
				r = true
			}
		}
		return r
	case ENot:
		return !x.Sub[0].eval(env)
	case EExists, ENotExists:
		v, _ := x.L.eval(env)
		env.Touched++
		return (v.K != KMissing) == (x.K == EExists)
	case ELike:
		v, _ := x.L.eval(env)
		if v.K == KMissing {
			return false
		}
		env.Touched++
		if v.K != KStr {
			env.Collate = true
			return false
		}
		return regexp.MustCompile(x.Re).MatchString(v.S)
	case ECmp:
		l, lu := x.L.eval(env)
		r, ru := x.R.eval(env)
		if l.K == KMissing || r.K == KMissing {
			// a comparison with a missing field never holds; `<>` is its negation
			env.Absent++
			return x.Op == OpNE
		}
		env.Touched++
		if env.Trace != nil {
			env.Trace(x.Op.String(), l, r)
		}
		c, valid := compareJ(env, l, lu, r, ru)
		if constFn(x.L) && !lu || constFn(x.R) && !ru {
			// whether a function of constants counts as a literal is left open
			if c2, v2 := compareJ(env, l, lu || constFn(x.L), r, ru || constFn(x.R)); c2 != c || v2 != valid {
				env.unclear("function of constants against another type")
			}
		}
		if !valid {
			env.Collate = true
		}
		if env.structOrder && x.Op != OpEQ && x.Op != OpNE {
			env.unclear("ordering of structured values")
		}
		env.structOrder = false
		switch x.Op {
		case OpEQ:
			return valid && c == 0
		case OpNE:
			return !(valid && c == 0)
		case OpLT:
			return c < 0
		case OpLE:
			return c <= 0
		case OpGT:
			return c > 0
		case OpGE:
			return c >= 0
		}
	case EAny, EEvery, EAnyEvery:
		v, _ := x.In.eval(env)
		if env.Over != nil {
			env.Over(v)
		}
		if v.K != KArr {
			return false
		}
		any, every := false, true
		saved, had := env.Vars[x.Var]
		for _, el := range v.A {
			env.Vars[x.Var] = el
			if x.Sub[0].eval(env) {
				any = true
			} else {
				every = false
			}
		}
		if had {
			env.Vars[x.Var] = saved
		} else {
			delete(env.Vars, x.Var)
		}
		switch x.K {
		case EAny:
			return any
		case EEvery:
			return every
		default:
			return any && every
		}
	}
	panic("expr kind")
}

// Kleene values of eval3
const (
	no3 = iota
	yes3
	unknown3
)

// eval3 evaluates x with every condition that compares operands that cannot be
// reconciled counted as unknown. If the result is unknown, no evaluation can
// decide x without evaluating one of these conditions.
func (x *E) eval3(env *Env) int {
	all := func(rs []int) int {
		r := yes3
		for _, v := range rs {
			if v == no3 {
				return no3
			}
			if v == unknown3 {
				r = unknown3
			}
		}
		return r
	}
	not := func(v int) int { return [3]int{yes3, no3, unknown3}[v] }
	any := func(rs []int) int {
		var n []int
		for _, v := range rs {
			n = append(n, not(v))
		}
		return not(all(n))
	}
	switch x.K {
	case EAnd, EOr, ENot:
		var rs []int
		for _, s := range x.Sub {
			rs = append(rs, s.eval3(env))
		}
		switch x.K {
		case EAnd:
			return all(rs)
		case EOr:
			return any(rs)
		}
		return not(rs[0])
	case EAny, EEvery, EAnyEvery:
		v, _ := x.In.eval(env)
		if v.K != KArr || x.K == EAnyEvery && len(v.A) == 0 {
			return no3
		}
		var rs []int
		saved, had := env.Vars[x.Var]
		for _, el := range v.A {
			env.Vars[x.Var] = el
			rs = append(rs, x.Sub[0].eval3(env))
		}
		if had {
			env.Vars[x.Var] = saved
		} else {
			delete(env.Vars, x.Var)
		}
		if x.K == EAny {
			return any(rs)
		}
		return all(rs)
	}
	before := env.Collate
	env.Collate = false
	v := x.eval(env)
	collate := env.Collate
	env.Collate = before
	switch {
	case collate:
		return unknown3
	case v:
		return yes3
	}
	return no3
}

// constFn: a function applied to constants only
func constFn(o *Opd) bool {
	if o.K != OFunc {
		return false
	}
	for _, a := range o.Args {
		if a.K == OField || a.K == OFunc && !constFn(a) {
			return false
		}
	}
	return true
}

// EvalDoc evaluates x against doc.
func EvalDoc(x *E, doc *J) (bool, *Env) {
	env := &Env{Doc: doc, Vars: map[int]*J{}}
	r := x.eval(env)
	return r, env
}

// ---- comparison ----

func (j *J) asFloat() float64 {
	switch j.K {
	case KInt:
		return float64(j.I)
	case KUint:
		return float64(j.U)
	case KFloat:
		return j.F
	case KTrue:
		return 1
	}
	return 0
}

func cmpF(env *Env, a, b float64) (int, bool) {
	if math.IsNaN(a) || math.IsNaN(b) {
		env.unclear("NaN comparison")
		return 0, false
	}
	if a == b {
		return 0, true
	}
	if math.Abs(a-b) < 1e-7 {
		// fuzzy equality of floats: specified as equal below 1e-7
		if math.Abs(a-b) > 0.9e-7 {
			env.unclear("float epsilon edge")
		}
		return 0, true
	}
	if math.Abs(a-b) < 1.1e-7 {
		env.unclear("float epsilon edge")
	}
	if a < b {
		return -1, true
	}
	return 1, true
}

func cmp64(a, b int64) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

func cmpU64(a, b uint64) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

// cmpNum: numbers by numeric value; floats involve float64 arithmetic.
func cmpNum(env *Env, a, b *J) (int, bool) {
	if a.K == KFloat || b.K == KFloat {
		return cmpF(env, a.asFloat(), b.asFloat())
	}
	an, bn := a.K == KInt && a.I < 0, b.K == KInt && b.I < 0
	switch {
	case an && bn:
		return cmp64(a.I, b.I), true
	case an:
		return -1, true
	case bn:
		return 1, true
	}
	ua, ub := a.U, b.U
	if a.K == KInt {
		ua = uint64(a.I)
	}
	if b.K == KInt {
		ub = uint64(b.I)
	}
	return cmpU64(ua, ub), true
}

func boolOf(j *J) (bool, bool) {
	switch j.K {
	case KTrue:
		return true, true
	case KFalse:
		return false, true
	case KInt:
		return j.I != 0, true
	case KUint:
		return j.U != 0, true
	case KFloat:
		return j.F != 0, true
	case KStr:
		if strings.EqualFold(j.S, "true") && len(j.S) == 4 {
			return true, true
		}
		if strings.EqualFold(j.S, "false") && len(j.S) == 5 {
			return false, true
		}
	}
	return false, false
}

// convertible: can v be converted to the kind of `to`?
func convertible(env *Env, to, v *J) bool {
	if to.K == v.K || to.IsBool() && v.IsBool() || to.K == KNull {
		return true
	}
	switch v.K {
	case KInt:
		switch to.K {
		case KUint:
			return v.I >= 0
		case KFloat, KStr, KTrue, KFalse:
			return true
		}
	case KUint:
		switch to.K {
		case KInt, KFloat, KStr, KTrue, KFalse:
			return true
		}
	case KFloat:
		switch to.K {
		case KStr, KTrue, KFalse:
			return true
		}
	case KTrue, KFalse:
		switch to.K {
		case KInt, KUint, KFloat, KStr:
			return true
		}
	case KStr:
		switch to.K {
		case KInt:
			i, err := strconv.ParseInt(v.S, 10, 64)
			if err == nil && i >= 0 && (v.S[0] == '+' || v.S[0] == '-') {
				env.unclear("a needless sign in a numeric string") // signed and unsigned integers differ here
			}
			return err == nil
		case KUint:
			_, err := strconv.ParseUint(v.S, 10, 64)
			return err == nil
		case KFloat:
			if _, err := strconv.ParseFloat(v.S, 64); err == nil {
				env.unclear("numeric string against a float")
			}
			return false
		case KTrue, KFalse:
			if _, ok := boolOf(v); ok {
				env.unclear("boolean string against a bool")
			}
			return false
		case KTime:
			_, ok := parseTimeSpec(v.S, false)
			return ok
		}
	}
	return false
}

// cmpIn compares v, converted to the kind of `to`, with `to`: sign of (to - v).
func cmpIn(env *Env, to, v *J) (int, bool) {
	switch to.K {
	case KNull:
		if v.K == KNull {
			return 0, true
		}
		return -1, true
	case KTrue, KFalse:
		vb, ok := boolOf(v)
		if !ok {
			return 0, false
		}
		tb := to.K == KTrue
		switch {
		case tb == vb:
			return 0, true
		case tb:
			return 1, true
		}
		return -1, true
	case KInt, KUint, KFloat:
		switch {
		case v.IsNumeric():
			return cmpNum(env, to, v)
		case v.IsBool():
			n := int64(0)
			if v.K == KTrue {
				n = 1
			}
			return cmpNum(env, to, JInt(n))
		case v.K == KStr:
			if to.K == KUint {
				u, err := strconv.ParseUint(v.S, 10, 64)
				if err != nil {
					return 0, false
				}
				return cmpNum(env, to, JUint(u))
			}
			i, err := strconv.ParseInt(v.S, 10, 64)
			if err != nil {
				return 0, false
			}
			return cmpNum(env, to, JInt(i))
		}
	case KStr:
		switch v.K {
		case KStr:
			return strings.Compare(to.S, v.S), true
		case KInt:
			return strings.Compare(to.S, strconv.FormatInt(v.I, 10)), true
		case KUint:
			return strings.Compare(to.S, strconv.FormatUint(v.U, 10)), true
		case KFloat:
			env.unclear("float against a string")
			return 0, false
		case KTrue, KFalse:
			env.unclear("bool against a string")
			return 0, false
		}
	case KTime:
		t, ok := v.T, true
		if v.K == KStr {
			t, ok = parseTimeSpec(v.S, false)
		}
		if !ok {
			return 0, false
		}
		switch {
		case to.T.Equal(t):
			return 0, true
		case to.T.After(t):
			return 1, true
		}
		return -1, true
	case KArr, KObj:
		// Structured values compare by their serialized text.
		a, b := canon(to), canon(v)
		env.Struct = true
		if a == b {
			return 0, true
		}
		if sameish(to, v) {
			env.unclear("structured values that differ in spelling or order only")
		}
		env.structOrder = true
		return 1, true
	}
	return collate(to, v), false
}

// sameish tells whether two values might be called the same JSON.
func sameish(a, b *J) bool {
	if a.IsNumeric() && b.IsNumeric() {
		return math.Abs(a.asFloat()-b.asFloat()) < 1e-6 || a.asFloat() == b.asFloat()
	}
	if a.K != b.K || len(a.A) != len(b.A) || len(a.O) != len(b.O) {
		return false
	}
	for i := range a.A {
		if !sameish(a.A[i], b.A[i]) {
			return false
		}
	}
	for _, m := range a.O {
		w := b.get(m.K)
		if w == nil || !sameish(m.V, w) {
			return false
		}
	}
	return a.S == b.S
}

func collate(a, b *J) int {
	switch {
	case a.K < b.K:
		return -1
	case a.K > b.K:
		return 1
	}
	return 0
}

// compareJ: sign of (a - b), and whether the operands could be reconciled.
func compareJ(env *Env, a *J, au bool, b *J, bu bool) (int, bool) {
	if au && bu && a.K != b.K {
		env.unclear("two literals of different types")
	}
	bothNum := a.IsNumeric() && b.IsNumeric()
	switch {
	case au:
		if convertible(env, a, b) {
			return cmpIn(env, a, b)
		}
		if bothNum {
			return cmpNum(env, a, b)
		}
		return collate(a, b), false
	case bu:
		c, ok := compareJ(env, b, true, a, false)
		return -c, ok
	}
	if a.K == b.K {
		return cmpIn(env, a, b)
	}
	if bothNum {
		return cmpNum(env, a, b)
	}
	if a.K > b.K {
		c, ok := compareJ(env, b, false, a, false)
		return -c, ok
	}
	// a is the more restrictive kind: convert b to it if possible
	if convertible(env, a, b) {
		return cmpIn(env, a, b)
	}
	if convertible(env, b, a) {
		c, ok := cmpIn(env, b, a)
		return -c, ok
	}
	return collate(a, b), false
}

// ---- dates ----

var reYear = regexp.MustCompile(`^(19|20)[0-9][0-9]$`)
var reMonth = regexp.MustCompile(`^(19|20)[0-9][0-9]-(0[1-9]|1[012])$`)
var reDay = regexp.MustCompile(`^(19|20)[0-9][0-9]-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])$`)
var reCb = regexp.MustCompile(`^((19|20)[0-9][0-9]-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])) +(([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9])$`)

// parseTimeSpec: RFC3339, or YYYY, YYYY-MM, YYYY-MM-DD meaning the first
// instant (UTC) of that period; when cb is set also "YYYY-MM-DD HH:MM:SS" (UTC).
func parseTimeSpec(s string, cb bool) (time.Time, bool) {
	layout, in := time.RFC3339, s
	switch {
	case reYear.MatchString(s):
		layout = "2006"
	case reMonth.MatchString(s):
		layout = "2006-01"
	case reDay.MatchString(s):
		layout = "2006-01-02"
	case cb && reCb.MatchString(s):
		layout = "2006-01-02 15:04:05"
		in = s[:10] + " " + s[len(s)-8:]
	}
	t, err := time.Parse(layout, in)
	return t, err == nil
}

// ---- functions ----

func applyFn(env *Env, name string, a []*J) *J {
	num := func() bool {
		for _, x := range a {
			if !x.IsNumeric() {
				return false
			}
		}
		return true
	}
	f1 := func(f func(float64) float64) *J {
		if !num() {
			return jInvalid
		}
		r := f(a[0].asFloat())
		return JFloat(r)
	}
	f2 := func(f func(x, y float64) float64) *J {
		if !num() {
			return jInvalid
		}
		return JFloat(f(a[0].asFloat(), a[1].asFloat()))
	}
	switch name {
	case "mathAbs":
		switch a[0].K {
		case KInt:
			if a[0].I == math.MinInt64 {
				env.unclear("abs overflow")
			}
			if a[0].I < 0 {
				return JInt(-a[0].I)
			}
			return a[0]
		case KUint:
			return a[0]
		case KFloat:
			return JFloat(math.Abs(a[0].F))
		}
		return jInvalid
	case "mathRound":
		switch a[0].K {
		case KInt, KUint:
			return a[0]
		case KFloat:
			return JFloat(math.Round(a[0].F))
		}
		return jInvalid
	case "mathAcos":
		return f1(math.Acos)
	case "mathAsin":
		return f1(math.Asin)
	case "mathAtan":
		return f1(math.Atan)
	case "mathAtan2":
		return f2(math.Atan2)
	case "mathCos":
		return f1(math.Cos)
	case "mathSin":
		return f1(math.Sin)
	case "mathTan":
		return f1(math.Tan)
	case "mathSqrt":
		return f1(math.Sqrt)
	case "mathExp":
		return f1(math.Exp)
	case "mathLn":
		return f1(math.Log)
	case "mathLog":
		return f1(math.Log10)
	case "mathCeil":
		return f1(math.Ceil)
	case "mathFloor":
		return f1(math.Floor)
	case "mathDegrees":
		return f1(func(x float64) float64 { return x * 180 / math.Pi })
	case "mathRadians":
		return f1(func(x float64) float64 { return x * math.Pi / 180 })
	case "mathPow":
		return f2(math.Pow)
	case "mathAdd", "mathSubract", "mathMultiply", "mathDivide", "mathModulo":
		return arith(env, name, a[0], a[1])
	case "mathNegate":
		switch a[0].K {
		case KInt:
			if a[0].I == math.MinInt64 {
				env.unclear("neg overflow")
			}
			return JInt(-a[0].I)
		case KFloat:
			return JFloat(-a[0].F)
		case KUint:
			if a[0].U <= math.MaxInt64 {
				return JInt(-int64(a[0].U))
			}
		}
		return jInvalid
	case "date":
		switch a[0].K {
		case KTime:
			return a[0]
		case KStr:
			if t, ok := parseTimeSpec(a[0].S, true); ok {
				return JTime(t)
			}
		}
		return jInvalid
	}
	panic("function " + name)
}
