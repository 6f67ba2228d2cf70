package main

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	g "github.com/couchbaselabs/gojsonsm"
)

// val is a value of the library with what it stands for.
type val struct {
	v    g.FastVal
	j    *J // nil: nothing but a type
	desc string
	text bool // a number kept as text: the library itself never builds these
}

func plainStr(r *Rng) string {
	switch r.W(85, 7, 8) {
	case 1: // letters that need no escapes either
		return r.Pick([]string{"é", "日本", "ß", "a日", "ñab", "Ä0", "日", "éa", "e\u0301"})
	case 2: // nearly a boolean or a number: one letter of one exchanged, dropped or doubled
		b := []byte(r.Pick([]string{"true", "false", "TRUE", "False", "tRuE", "12", "-5", "0.5", "2019-01-01"}))
		i := r.N(len(b))
		switch r.N(4) {
		case 0:
			b[i] = "abtrueTRUEfalse|| 0159-."[r.N(24)]
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			b = append(b[:i+1], b[i:]...)
		}
		return string(b)
	}
	n := r.W(10, 30, 30, 20, 10)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abAB019 _-"[r.N(10)]
	}
	return string(b)
}

func genVal(r *Rng) val {
	mk := func(v g.FastVal, j *J, f string, a ...interface{}) val {
		return val{v: v, j: j, desc: fmt.Sprintf(f, a...)}
	}
	txt := func(v g.FastVal, j *J, f string, a ...interface{}) val {
		x := mk(v, j, f, a...)
		x.text = true
		return x
	}
	switch r.W(12, 12, 10, 8, 6, 8, 8, 6, 6, 10, 4, 4, 3, 3, 3) {
	case 0:
		i := genInt(r)
		switch r.N(6) {
		case 0:
			return mk(g.NewFastVal(int8(i)), JInt(int64(int8(i))), "int8 %d", int8(i))
		case 1:
			return mk(g.NewFastVal(int16(i)), JInt(int64(int16(i))), "int16 %d", int16(i))
		case 2:
			return mk(g.NewFastVal(int32(i)), JInt(int64(int32(i))), "int32 %d", int32(i))
		case 3:
			return mk(g.NewFastVal(int(i)), JInt(i), "int %d", i)
		}
		return mk(g.NewFastVal(i), JInt(i), "int64 %d", i)
	case 1:
		i := genInt(r)
		return txt(g.NewJsonIntFastVal([]byte(strconv.FormatInt(i, 10))), JInt(i), "json int %d", i)
	case 2:
		u := uint64(genInt(r))
		switch r.N(6) {
		case 0:
			return mk(g.NewFastVal(uint8(u)), JUint(uint64(uint8(u))), "uint8 %d", uint8(u))
		case 1:
			return mk(g.NewFastVal(uint16(u)), JUint(uint64(uint16(u))), "uint16 %d", uint16(u))
		case 2:
			return mk(g.NewFastVal(uint32(u)), JUint(uint64(uint32(u))), "uint32 %d", uint32(u))
		case 3:
			return mk(g.NewFastVal(uint(u)), JUint(u), "uint %d", u)
		}
		return mk(g.NewFastVal(u), JUint(u), "uint64 %d", u)
	case 3:
		u := uint64(genInt(r))
		return txt(g.NewJsonUintFastVal([]byte(strconv.FormatUint(u, 10))), JUint(u), "json uint %d", u)
	case 4:
		f := genFloat(r)
		if r.P(15) {
			h := float32(f)
			return mk(g.NewFastVal(h), JFloat(float64(h)), "float32 %v", h)
		}
		return mk(g.NewFastVal(f), JFloat(f), "float %v", f)
	case 5:
		f := genFloat(r)
		if math.IsInf(f, 0) || math.IsNaN(f) {
			f = 0.5
		}
		s := strconv.FormatFloat(f, 'e', -1, 64)
		return txt(g.NewJsonFloatFastVal([]byte(s)), JFloat(f), "json float %s", s)
	case 6:
		s := plainStr(r)
		return mk(g.NewFastVal(s), JStr(s), "string %q", s)
	case 7:
		s := plainStr(r)
		return mk(g.NewBinStringFastVal([]byte(s)), JStr(s), "binary string %q", s)
	case 8:
		s := plainStr(r)
		return mk(g.NewJsonStringFastVal([]byte(s)), JStr(s), "json string %q", s)
	case 9:
		b := r.P(50)
		return mk(g.NewFastVal(b), JBool(b), "%v", b)
	case 10:
		return mk(g.NewFastVal(nil), JNull(), "null")
	case 11:
		t := time.Unix(int64(r.In(0, 5))*1000, int64(r.N(3))).In(time.FixedZone("", r.In(-10, 10)*1800))
		return mk(g.NewFastVal(&t), JTime(t), "time %v", t)
	case 12:
		return mk(g.NewMissingFastVal(), nil, "missing")
	case 13:
		return mk(g.NewInvalidFastVal(), nil, "invalid")
	}
	if r.P(50) {
		s := r.Pick([]string{"[]", "[1]", "[1,2]", "[2]"})
		return mk(g.NewArrayFastVal([]byte(s)), nil, "array %s", s)
	}
	s := r.Pick([]string{"{}", `{"a":1}`, `{"a":2}`, `{"b":1}`})
	return mk(g.NewObjectFastVal([]byte(s)), nil, "object %s", s)
}

func family(v val) string {
	if v.j == nil {
		return v.desc[:3]
	}
	switch {
	case v.j.IsNumeric():
		return "number"
	case v.j.IsBool():
		return "boolean"
	}
	return v.j.K.String()
}

func sgn(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

func exact(j *J) *big.Float {
	f := new(big.Float).SetPrec(2000)
	switch j.K {
	case KInt:
		return f.SetInt64(j.I)
	case KUint:
		return f.SetUint64(j.U)
	}
	return f.SetFloat64(j.F)
}

// famOrder: the order of two values of one family.
func famOrder(a, b val) (int, bool) {
	x, y := a.j, b.j
	switch family(a) {
	case "number":
		if x.K == KFloat || y.K == KFloat {
			env := &Env{}
			c, ok := cmpF(env, x.asFloat(), y.asFloat())
			return c, ok && !env.Unclear
		}
		return exact(x).Cmp(exact(y)), true
	case "boolean":
		v := func(j *J) int {
			if j.K == KTrue {
				return 1
			}
			return 0
		}
		return v(x) - v(y), true
	case "string":
		switch {
		case x.S < y.S:
			return -1, true
		case x.S > y.S:
			return 1, true
		}
		return 0, true
	case "time":
		return x.T.Compare(y.T), true
	case "null":
		return 0, true
	}
	return 0, false
}

type cmpRes struct {
	c     int
	valid bool
	panic string
}

func fvCompare(a, b g.FastVal) (x cmpRes) {
	x.panic = guarded(func() string {
		x.c, x.valid = a.Compare(b)
		x.c = sgn(x.c)
		return ""
	})
	return
}

func caseValCmp(c *Case) {
	r := c.R
	var vs []val
	for i := 0; i < 6; i++ {
		v := genVal(r)
		for v.text {
			v = genVal(r)
		}
		if i > 0 && r.P(50) { // of the family of an earlier one
			for k := 0; k < 60 && (v.text || family(v) != family(vs[0])); k++ {
				v = genVal(r)
			}
		}
		if v.text {
			continue
		}
		vs = append(vs, v)
	}
	for _, a := range vs {
		for _, b := range vs {
			x, y := fvCompare(a.v, b.v), fvCompare(b.v, a.v)
			c.Eval(1)
			show := fmt.Sprintf("%s compared with %s: %+v, the other way round %+v", a.desc, b.desc, x, y)
			if x.panic != "" || y.panic != "" {
				c.Fail("panic", "%s", show)
				return
			}
			if x.c != -y.c || x.valid != y.valid {
				c.Fail("one-sided", "%s", show)
				return
			}
			fa, fb := family(a), family(b)
			c.Count("pair:" + fa + "/" + fb)
			c.Nontrivial(a.desc + "\x00" + b.desc)
			eq, ev := a.v.Equals(b.v)
			if eq != (x.valid && x.c == 0) || ev != x.valid {
				c.Fail("equals", "Equals says %v %v; %s", eq, ev, show)
				return
			}
			if fa == fb {
				if want, ok := famOrder(a, b); ok {
					c.Count("within a family")
					if !x.valid || x.c != sgn(want) {
						c.Fail("order", "their order is %d; %s", sgn(want), show)
						return
					}
				} else if a.desc == b.desc && x.c != 0 {
					c.Fail("order", "not equal to itself; %s", show)
					return
				}
			}
		}
	}
	c.Sample(func() string { return fmt.Sprintf("%s / %s: %+v", vs[0].desc, vs[1].desc, fvCompare(vs[0].v, vs[1].v)) })
}

func caseValConv(c *Case) {
	r := c.R
	v := genVal(r)
	if r.P(30) { // strings that are numbers, booleans, dates
		s := r.Pick([]string{"1", "-5", "9223372036854775807", "18446744073709551615", "true", "FALSE", "2019-01-01", "0.5", "12a"})
		switch r.N(3) {
		case 0:
			v = val{v: g.NewFastVal(s), j: JStr(s), desc: "string " + s}
		case 1:
			v = val{v: g.NewBinStringFastVal([]byte(s)), j: JStr(s), desc: "binary string " + s}
		case 2:
			v = val{v: g.NewJsonStringFastVal([]byte(s)), j: JStr(s), desc: "json string " + s}
		}
	}
	c.Eval(1)
	c.Nontrivial(v.desc)
	fail := func(what string, got interface{}) {
		c.Fail("conversion", "%s of %s gives %v", what, v.desc, got)
	}
	defer func() {
		if e := recover(); e != nil {
			c.Fail("panic", "%s: %v", v.desc, e)
		}
	}()
	f := family(v)
	is := []bool{v.v.IsNumeric(), v.v.IsString(), v.v.IsBoolean(), v.v.IsNull(), v.v.IsTime(), v.v.IsMissing()}
	for i, n := range []string{"number", "string", "boolean", "null", "time", "mis"} {
		if is[i] != (f == n) {
			fail("Is a "+n, is[i])
		}
	}
	if f == "number" && (v.v.IsFloat() != (v.j.K == KFloat) || v.v.IsIntegral() == (v.j.K == KFloat)) {
		fail("IsFloat/IsIntegral", v.v.IsFloat())
	}
	if i, ok := v.v.AsInt(); ok {
		c.Count("AsInt")
		switch f {
		case "number":
			if v.j.K == KFloat || exact(v.j).Cmp(new(big.Float).SetInt64(i)) != 0 {
				fail("AsInt", i)
			}
		case "boolean":
			if (i == 1) != (v.j.K == KTrue) || i < 0 || i > 1 {
				fail("AsInt", i)
			}
		case "string":
			if w, err := strconv.ParseInt(v.j.S, 10, 64); err != nil || w != i {
				fail("AsInt", i)
			}
		default:
			fail("AsInt", i)
		}
	} else if f == "number" && (v.j.K == KInt || v.j.K == KUint && v.j.U <= math.MaxInt64) {
		fail("AsInt", "nothing")
	}
	if u, ok := v.v.AsUint(); ok {
		c.Count("AsUint")
		switch f {
		case "number":
			if v.j.K == KFloat {
				if uint64(v.j.F) != u { // truncated
					fail("AsUint", u)
				}
			} else if exact(v.j).Cmp(new(big.Float).SetUint64(u)) != 0 {
				fail("AsUint", u)
			}
		case "boolean":
			if (u == 1) != (v.j.K == KTrue) || u > 1 {
				fail("AsUint", u)
			}
		case "string":
			if w, err := strconv.ParseUint(v.j.S, 10, 64); err != nil || w != u {
				fail("AsUint", u)
			}
		default:
			fail("AsUint", u)
		}
	} else if f == "number" && (v.j.K == KUint || v.j.K == KInt && v.j.I >= 0) {
		fail("AsUint", "nothing")
	}
	if x, ok := v.v.AsFloat(); ok {
		c.Count("AsFloat")
		switch f {
		case "number":
			if w := v.j.asFloat(); w != x && !(w != w && x != x) {
				fail("AsFloat", x)
			}
		case "boolean":
			if (x == 1) != (v.j.K == KTrue) || (x == 0) != (v.j.K == KFalse) {
				fail("AsFloat", x)
			}
		case "string":
			if w, err := strconv.ParseFloat(v.j.S, 64); err != nil || w != x {
				fail("AsFloat", x)
			}
		default:
			fail("AsFloat", x)
		}
	} else if f == "number" {
		fail("AsFloat", "nothing")
	}
	if b, ok := v.v.AsBoolean(); ok {
		c.Count("AsBoolean")
		switch f {
		case "number":
			if b != (v.j.asFloat() != 0) {
				fail("AsBoolean", b)
			}
		case "boolean":
			if b != (v.j.K == KTrue) {
				fail("AsBoolean", b)
			}
		case "string":
			if w, ok := boolOf(v.j); !ok || w != b {
				fail("AsBoolean", b)
			}
		default:
			fail("AsBoolean", b)
		}
	} else if f == "boolean" || f == "number" {
		fail("AsBoolean", "nothing")
	}
	if s, ok := v.v.AsString(); ok {
		c.Count("AsString")
		switch f {
		case "string":
			if s != v.j.S {
				fail("AsString", s)
			}
		case "boolean":
			if s != map[Kind]string{KTrue: "true", KFalse: "false"}[v.j.K] {
				fail("AsString", s)
			}
		case "number":
			x, _, err := big.ParseFloat(s, 10, 2000, big.ToNearestEven)
			if v.j.K == KFloat {
				w, _ := strconv.ParseFloat(s, 64)
				if math.Abs(w-v.j.F) > 1e-6 {
					fail("AsString", s)
				}
			} else if err != nil || x.Cmp(exact(v.j)) != 0 {
				fail("AsString", s)
			}
		default:
			fail("AsString", s)
		}
	} else if f == "string" || f == "boolean" || f == "number" {
		fail("AsString", "nothing")
	}
	if t, ok := v.v.AsTime(); ok {
		c.Count("AsTime")
		switch f {
		case "time":
			if !t.Equal(v.j.T) {
				fail("AsTime", t)
			}
		case "string":
			if w, ok := parseTimeSpec(v.j.S, false); !ok || !w.Equal(*t) {
				fail("AsTime", t)
			}
		default:
			fail("AsTime", t)
		}
	} else if f == "time" {
		fail("AsTime", "nothing")
	}
	if s, err := v.v.ToJsonString(); err == nil {
		if w, ok := s.AsString(); !ok || (f == "string" && w != v.j.S) {
			fail("ToJsonString", w)
		}
	}
	if s, err := v.v.ToBinString(); err == nil {
		if w, ok := s.AsString(); !ok || w != v.j.S {
			fail("ToBinString", w)
		}
	}
	if v.v.String() == "" {
		fail("String", "nothing")
	}
}

func init() {
	register(&Check{
		ID:     "C24",
		Scale:  10,
		Rule:   "values built by every constructor, compared both ways: antisymmetric with the same validity, Equals in step with Compare, in the order of what they stand for within numbers, strings, booleans and times; conversions give the value they stand for whenever they claim success; texts are dates exactly when Go's time package says so; strings in each representation match a regular expression exactly when it matches their characters; nothing panics; non-trivial = distinct pairs",
		Assume: []string{"strings of this workload need no escapes; floats that differ by no more than the library's tolerance, NaN, and conversions of floats to integers are left open"},
		Load: []Workload{
			{Name: "compare", Quick: 30000, Thorough: 1000000, Run: caseValCmp},
			{Name: "convert", Quick: 60000, Thorough: 1000000, Run: caseValConv},
			{Name: "dates", Quick: 10000, Thorough: 300000, Run: caseValDate},
			{Name: "matches", Quick: 10000, Thorough: 300000, Run: caseValMatch},
		},
		Require: map[string]int{"within a family": 20000, "AsInt": 2000, "AsUint": 2000, "AsFloat": 2000, "AsBoolean": 2000, "AsString": 2000, "AsTime": 500, "a date:true": 5000, "a date:false": 5000, "match:true": 2000, "match:false": 2000},
	})
}

// ---- functions and conversions applied to values directly ----

var fnDirect1 = map[string]func(g.FastVal) g.FastVal{
	"mathAbs": g.FastValMathAbs, "mathRound": g.FastValMathRound, "mathSqrt": g.FastValMathSqrt, "mathAcos": g.FastValMathAcos,
	"mathAsin": g.FastValMathAsin, "mathAtan": g.FastValMathAtan, "mathCos": g.FastValMathCos, "mathSin": g.FastValMathSin,
	"mathTan": g.FastValMathTan, "mathExp": g.FastValMathExp, "mathLn": g.FastValMathLn, "mathLog": g.FastValMathLog,
	"mathCeil": g.FastValMathCeil, "mathFloor": g.FastValMathFloor, "mathDegrees": g.FastValMathDegrees,
	"mathRadians": g.FastValMathRadians, "mathNegate": g.FastValMathNeg,
}

var fnDirect2 = map[string]func(a, b g.FastVal) g.FastVal{
	"mathPow": g.FastValMathPow, "mathAtan2": g.FastValMathAtan2, "mathAdd": g.FastValMathAdd, "mathSubract": g.FastValMathSub,
	"mathMultiply": g.FastValMathMul, "mathDivide": g.FastValMathDiv, "mathModulo": g.FastValMathMod,
}

var fnDirectNames = func() (l []string) {
	for n := range fnDirect1 {
		l = append(l, n)
	}
	for n := range fnDirect2 {
		l = append(l, n, n)
	}
	sort.Strings(l)
	return
}()

// numVal is a number in one of its representations.
func numVal(r *Rng) val {
	if r.P(35) {
		j := genWideInt(r)
		if r.P(30) {
			j = JInt(-int64(r.N(4)))
		}
		var i, u []g.FastVal
		if j.K == KInt {
			i = []g.FastVal{g.NewFastVal(j.I), g.NewIntFastVal(j.I), g.NewJsonIntFastVal([]byte(strconv.FormatInt(j.I, 10)))}
		}
		if j.K == KUint || j.I >= 0 {
			n := j.U
			if j.K == KInt {
				n = uint64(j.I)
			}
			u = []g.FastVal{g.NewFastVal(n), g.NewUintFastVal(n), g.NewJsonUintFastVal([]byte(strconv.FormatUint(n, 10)))}
		}
		all := append(append([]g.FastVal{}, i...), u...)
		k := r.N(len(all))
		if k >= len(i) && j.K == KInt {
			j = JUint(uint64(j.I))
		}
		return val{v: all[k], j: j, desc: fmt.Sprintf("%v (representation %d)", j, k)}
	}
	for {
		if v := genVal(r); v.j != nil && v.j.IsNumeric() || r.P(3) {
			return v
		}
	}
}

// sameNum says whether a result stands for a number.
func sameNum(v g.FastVal, want *J) bool {
	switch {
	case !v.IsNumeric():
		return false
	case want.K == KFloat:
		x, ok := v.AsFloat()
		return ok && v.IsFloat() && (x == want.F || x != x && want.F != want.F)
	case v.IsFloat(): // a best effort at integers out of range
		return false
	}
	if i, ok := v.AsInt(); ok {
		return exact(want).Cmp(new(big.Float).SetInt64(i)) == 0
	}
	u, ok := v.AsUint()
	return ok && exact(want).Cmp(new(big.Float).SetUint64(u)) == 0
}

func caseFnValues(c *Case) {
	r := c.R
	for k := 0; k < 8; k++ {
		a, b := numVal(r), numVal(r)
		name := r.Pick(fnDirectNames)
		args := []*J{a.j, b.j}
		for i := range args {
			if args[i] == nil {
				args[i] = &J{K: KArr}
			}
		}
		desc := fmt.Sprintf("%s of %s", name, a.desc)
		var got g.FastVal
		p := guarded(func() string {
			if f := fnDirect1[name]; f != nil {
				args = args[:1]
				got = f(a.v)
			} else {
				desc += " and " + b.desc
				got = fnDirect2[name](a.v, b.v)
			}
			return ""
		})
		c.Eval(1)
		if p != "" {
			c.Fail("panic", "%s: %s", desc, p)
			return
		}
		env := &Env{}
		want := applyFn(env, name, args)
		if env.Unclear {
			c.Count("left open")
			continue
		}
		c.Count("fn:" + name)
		c.Nontrivial(desc)
		if want.K == KInvalid {
			c.Count("no result")
			if got.Type() != g.InvalidValue {
				c.Fail("value", "%s gives %v, it has no result", desc, got)
				return
			}
			continue
		}
		if !sameNum(got, want) {
			c.Fail("value", "%s gives %v, it is %v", desc, got, want)
			return
		}
		c.Sample(func() string { return fmt.Sprintf("%s = %v", desc, got) })
	}
}

func strVal(r *Rng, s string) val {
	switch r.N(3) {
	case 0:
		return val{v: g.NewFastVal(s), j: JStr(s), desc: fmt.Sprintf("string %q", s)}
	case 1:
		return val{v: g.NewBinStringFastVal([]byte(s)), j: JStr(s), desc: fmt.Sprintf("binary string %q", s)}
	}
	return val{v: g.NewJsonStringFastVal([]byte(s)), j: JStr(s), desc: fmt.Sprintf("json string %q", s)}
}

// caseValDate: texts as dates.
func caseValDate(c *Case) {
	r := c.R
	s := genTimeStr(r)
	switch {
	case r.P(15):
		s = r.Pick(badDates(r))
	case r.P(20) && len(s) > 0:
		i := r.N(len(s))
		s = s[:i] + r.Pick([]string{"", "0", "9", "-", ":", "T", "Z", " "}) + s[i+r.N(2):]
	}
	defer func() {
		if e := recover(); e != nil {
			c.Fail("panic", "%q: %v", s, e)
		}
	}()
	check := func(what string, v g.FastVal, cb bool) {
		c.Eval(1)
		want, ok := parseTimeSpec(s, cb)
		t, is := v.AsTime()
		c.Count(fmt.Sprintf("a date:%v", ok))
		c.Nontrivial(what + s)
		if is != ok || ok != v.IsTime() {
			c.Fail("date", "%s of %q gives %v, it is one: %v", what, s, v, ok)
		} else if ok && !t.Equal(want) {
			c.Fail("date", "%s of %q gives %v, it is %v", what, s, t, want)
		}
	}
	t, err := g.GetNewTimeFastVal(s)
	if (err == nil) != t.IsTime() {
		c.Fail("date", "GetNewTimeFastVal of %q gives %v and error %v", s, t, err)
	}
	check("GetNewTimeFastVal", t, false)
	check("the date function (binary string)", g.FastValDateFunc(g.NewBinStringFastVal([]byte(s))), true)
	if !strings.ContainsAny(s, "\\\"") {
		check("the date function (json string)", g.FastValDateFunc(g.NewJsonStringFastVal([]byte(s))), true)
	}
	if !reCb.MatchString(s) { // a form for documents
		check("the date function (string)", g.FastValDateFunc(g.NewStringFastVal(s)), false)
	}
	if t.IsTime() {
		check("the date function (time)", g.FastValDateFunc(t), false)
	}
	if v := genVal(r); v.j == nil || v.j.K != KStr && v.j.K != KTime {
		if d := g.FastValDateFunc(v.v); d.IsTime() {
			c.Fail("date", "the date function of %s gives %v", v.desc, d)
		}
	}
	c.Sample(func() string { return fmt.Sprintf("%q -> %v", s, t) })
}

var matchRes = []string{"", "a", "^a", "a$", "^a*$", "[ab]+", "^[^a]", "0|1", "(?i)ab", "^.$", "^..$", "\\d\\d", "\\s", "^$", "_-", "A.*B", "^(a|b)*$", "\\w+ \\w+"}

// caseValMatch: values against regular expressions.
func caseValMatch(c *Case) {
	r := c.R
	v := genVal(r)
	if r.P(60) {
		v = strVal(r, plainStr(r))
	}
	t := r.Pick(matchRes)
	re := regexp.MustCompile(t)
	defer func() {
		if e := recover(); e != nil {
			c.Fail("panic", "%s against %q: %v", v.desc, t, e)
		}
	}()
	c.Eval(1)
	c.Nontrivial(v.desc + t)
	got, ok := v.v.Matches(g.NewFastVal(re))
	if r.P(30) {
		got, ok = v.v.Matches(g.NewRegexpFastVal(re))
	}
	str := v.j != nil && v.j.K == KStr
	want := str && re.MatchString(v.j.S)
	if got != want || ok != str {
		c.Fail("match", "%s against %q gives %v %v", v.desc, t, got, ok)
	}
	c.Count(fmt.Sprintf("match:%v", got))
	other := genVal(r)
	if got, ok := v.v.Matches(other.v); got || ok {
		c.Fail("match", "%s against %s, which is no regular expression, gives %v %v", v.desc, other.desc, got, ok)
	}
	c.Sample(func() string { return fmt.Sprintf("%s against %q: %v", v.desc, t, got) })
}
