package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	g "github.com/couchbaselabs/gojsonsm"
)

// Concurrency. The work is first done alone, then by several goroutines at
// once, started together and without any synchronisation between them (which
// would hide races from the detector). Every goroutine keeps its own log; the
// logs are compared afterwards with the sequential results, and their
// timestamps tell how many operations really overlapped.

type concOp struct {
	name string
	do   func() string
}

type concLog struct {
	op         int
	res        string
	start, end time.Duration
}

// concRun runs plan (per goroutine: indices into ops) and compares with what
// ref gives for each operation. The reference is computed after the concurrent
// part when later is set: work done before it can hide races (of state that is
// set up by the first use, say).
func concRun(c *Case, ops []concOp, ref func(int) string, later bool, plan [][]int, describe func() string) bool {
	want := make([]string, len(ops))
	refs := func() {
		for i := range ops {
			want[i] = ref(i)
		}
	}
	if !later {
		refs()
	}
	logs := make([][]concLog, len(plan))
	gate := make(chan struct{})
	var wg sync.WaitGroup
	t0 := time.Now()
	for gi := range plan {
		wg.Add(1)
		go func(gi int) {
			defer wg.Done()
			log := make([]concLog, 0, len(plan[gi]))
			<-gate
			for _, oi := range plan[gi] {
				l := concLog{op: oi, start: time.Since(t0)}
				l.res = guarded(ops[oi].do)
				l.end = time.Since(t0)
				log = append(log, l)
			}
			logs[gi] = log
		}(gi)
	}
	close(gate)
	wg.Wait()
	if later {
		refs()
		c.Count("reference after the concurrent part")
	}
	// overlap and interleaving, from the recorded logs
	type ev struct {
		t     time.Duration
		gi    int
		start bool
	}
	var evs []ev
	ok := true
	for gi, log := range logs {
		for _, l := range log {
			evs = append(evs, ev{l.start, gi, true}, ev{l.end, gi, false})
			c.Eval(1)
			if l.res != want[l.op] && ok {
				ok = false
				c.Fail("differs", "%s by goroutine %d of %d: %s\n  alone: %s\n  %s", ops[l.op].name, gi, len(logs), clip(l.res, 700), clip(want[l.op], 700), describe())
			}
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	busy, overlapped := 0, 0
	var sig strings.Builder
	for _, e := range evs {
		if e.start {
			if busy > 0 {
				overlapped++
			}
			busy++
		} else {
			busy--
		}
		sig.WriteByte(byte(e.gi))
	}
	c.Add("operations begun while another ran", overlapped)
	c.Add("concurrent operations", len(evs)/2)
	if overlapped > 0 {
		c.Count("cases with overlap")
		c.Nontrivial(fmt.Sprint(c.Idx) + sig.String())
	}
	return ok
}

func guarded(f func() string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("panic: %v", e)
		}
	}()
	return f()
}

func concLater(r *Rng) bool {
	b := r.P(50)
	return b || os.Getenv("VERIF_COLD") != ""
}

// caseConcCold runs a case of the other workloads as the first thing a new
// process does.
func caseConcCold(c *Case) {
	wl := []string{"match", "parse", "compile", "tools"}[c.Idx%4]
	cmd := exec.Command(os.Args[0], "one", "C12", wl, strconv.Itoa(1000000+c.Idx))
	cmd.Env = append(os.Environ(), "VERIF_COLD=1", "GOMAXPROCS=4", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66 history_size=3 atexit_sleep_ms=0")
	o, err := cmd.CombinedOutput()
	c.Eval(1)
	if err != nil {
		kind := "differs"
		if strings.Contains(string(o), "DATA RACE") {
			kind = "data race"
		}
		c.Fail(kind, "in a new process (%v):\n%s", err, clip(string(o), 3500))
	}
	c.Count("new processes")
	c.Nontrivial(fmt.Sprint(c.Idx))
}

func concPlan(r *Rng, nOps int) [][]int {
	n := r.In(2, 8)
	same := r.P(40) // all goroutines in the same order: the same operation at the same time
	var plan [][]int
	per := r.In(nOps, 3*nOps)
	for i := 0; i < n; i++ {
		var p []int
		if same && i > 0 {
			p = append(p, plan[0]...)
		} else {
			for j := 0; j < per; j++ {
				p = append(p, r.N(nOps))
			}
		}
		plan = append(plan, p)
	}
	return plan
}

func matchAll(m *g.FastMatcher, n int, txt []byte) string {
	m.Reset()
	o := run(m, txt)
	s := o.String()
	if o.Err == "" {
		for i := 0; i < n; i++ {
			s += fmt.Sprintf(" %v", m.ExpressionMatched(i))
		}
	}
	return s
}

// matchers over one definition
func caseConcMatch(c *Case) {
	r := c.R
	doc := genDoc(r)
	n := r.W(0, 50, 30, 15, 5)
	e := newEgen(r, doc, randOpts(r))
	var xs []*E
	var ss []string
	for i := 0; i < n; i++ {
		e.nCond = 0
		xs = append(xs, e.expr(r.In(1, 4)))
		ss = append(ss, xs[i].String())
	}
	def, err := compileDef(xs...)
	if err != nil {
		c.Fail("compile", "%v\n  %s", err, join(ss))
		return
	}
	show := func() string {
		if def.ParseNode == nil {
			return "" // a constant
		}
		return def.String()
	}
	before := show()
	var docs, keep [][]byte
	for i, k := 0, r.In(2, 6); i < k; i++ {
		t := docText(mutate(r, doc, 25), fullStyle(r))
		if r.P(15) {
			t = corrupt(r, t)
		}
		docs = append(docs, []byte(t))
		keep = append(keep, []byte(t))
	}
	// the reference: a definition and matchers of its own
	def2, _ := compileDef(xs...)
	plan := concPlan(r, len(docs))
	// each goroutine has its own matcher, some a new one for every document
	perG := make([]*g.FastMatcher, len(plan))
	var all []concOp
	var planAll [][]int
	for gi := range plan {
		gi := gi
		fresh := r.P(30)
		if !fresh && r.P(50) {
			perG[gi] = g.NewFastMatcher(def)
		}
		base := len(all)
		for i := range docs {
			i := i
			all = append(all, concOp{fmt.Sprintf("matching document %d", i), func() string {
				m := perG[gi]
				if m == nil {
					m = g.NewFastMatcher(def)
					if !fresh {
						perG[gi] = m
					}
				}
				return matchAll(m, n, docs[i])
			}})
		}
		var p []int
		for _, i := range plan[gi] {
			p = append(p, base+i)
		}
		planAll = append(planAll, p)
	}
	describe := func() string {
		var ds []string
		for _, d := range keep {
			ds = append(ds, string(d))
		}
		return clip("expressions: "+join(ss)+"\n  documents: "+strings.Join(ds, "\n    "), 3000)
	}
	concRun(c, all, func(i int) string {
		return guarded(func() string { return matchAll(g.NewFastMatcher(def2), n, keep[i%len(docs)]) })
	}, concLater(r), planAll, describe)
	for i := range docs {
		if !bytes.Equal(docs[i], keep[i]) {
			c.Fail("document changed", "a shared document was modified by matching\n  before: %s\n  after: %s", clip(string(keep[i]), 500), clip(string(docs[i]), 500))
		}
	}
	if after := show(); after != before {
		c.Fail("definition changed", "the shared definition changed by being used\n  before: %s\n  after: %s\n  %s", clip(before, 500), clip(after, 500), describe())
	}
	c.Count("shared definitions")
}

// parsing, compiling and matching of texts
func caseConcParse(c *Case) {
	r := c.R
	doc := filterDoc(r)
	var ops []concOp
	var ds [][]byte
	for _, d := range someDocs(r, doc) {
		ds = append(ds, []byte(d))
	}
	use := func(get func(string) (g.Matcher, error), t string) string {
		m, err := get(t)
		if err != nil {
			return "error " + err.Error()
		}
		s := ""
		for _, d := range ds {
			s += matchAll(m.(*g.FastMatcher), 1, d) + "; "
		}
		return s
	}
	later := concLater(r)
	depth := 3
	if later {
		depth = 1 // nothing has told which texts take long
	}
	for i, k := 0, r.In(2, 5); i < k; i++ {
		switch r.W(35, 35, 30) {
		case 0:
			t, _ := newFgen(r, doc).or(r.In(0, depth))
			if r.P(20) {
				t = mangle(r, t)
			}
			ops = append(ops, concOp{"filter expression " + t, func() string { return use(g.GetFilterExpressionMatcher, t) }})
		case 1:
			sh := ""
			t, _ := newSgen(r, doc).chain(r.In(0, depth-depth/2), r.In(1, 1+depth), &sh)
			if r.P(20) {
				t = mangle(r, t)
			}
			ops = append(ops, concOp{"simple expression " + t, func() string { return use(getSimple, t) }})
		case 2:
			e := newEgen(r, doc, randOpts(r))
			x := e.expr(r.In(0, 3))
			ops = append(ops, concOp{"expression " + x.String(), func() string {
				m, err := compile(x)
				if err != nil {
					return "error " + err.Error()
				}
				s := ""
				for _, d := range ds {
					s += matchAll(m, 1, d) + "; "
				}
				return s
			}})
		}
	}
	quick := ops
	if !later {
		quick = nil // texts that take long to parse alone are left out
		for _, o := range ops {
			t0 := time.Now()
			guarded(o.do)
			if time.Since(t0) > 30*time.Millisecond {
				c.Count("slow texts left out")
				continue
			}
			quick = append(quick, o)
		}
	}
	if len(quick) == 0 {
		return
	}
	concRun(c, quick, func(i int) string { return guarded(quick[i].do) }, later, concPlan(r, len(quick)), func() string { return "" })
	c.Count("shared texts")
}

// one expression value compiled, printed, compacted and analysed at once
func caseConcExpr(c *Case) {
	r := c.R
	doc := genDoc(r)
	n := r.In(1, 3)
	e := newEgen(r, doc, randOpts(r))
	var xs []*E
	for i := 0; i < n; i++ {
		e.nCond = 0
		xs = append(xs, e.expr(r.In(0, 4)))
	}
	shared := apis(xs)
	txt := []byte(docText(mutate(r, doc, 10), fullStyle(r)))
	before := fmt.Sprintf("%#v", shared)
	ops := []concOp{
		{"compiling a shared expression", func() string {
			var t g.Transformer
			return matchAll(g.NewFastMatcher(t.Transform(shared)), n, txt)
		}},
		{"printing a shared expression", func() string { return shared[0].String() }},
		{"removing items", func() string {
			dst := make([]byte, len(txt)+64)
			l, rm, any, err := g.MatchAndRemoveItemsFromJsonObject(txt, []string{"a", "b", "c"}, dst, map[string][]byte{})
			return fmt.Sprint(string(dst[:l]), rm, any, err)
		}},
	}
	concRun(c, ops, func(i int) string { return guarded(ops[i].do) }, concLater(r), concPlan(r, len(ops)), func() string {
		return clip(fmt.Sprint("expressions: ", xs, "\n  document: ", string(txt)), 2000)
	})
	if after := fmt.Sprintf("%#v", shared); after != before {
		c.Fail("expression changed", "a shared expression changed by being used\n  before: %s\n  after: %s", clip(before, 700), clip(after, 700))
	}
	c.Count("shared expressions")
}

// everything else the package offers, over shared inputs: values compared and
// converted, dates, both other front ends, statistics, compaction, the slow matcher
func caseConcTools(c *Case) {
	r := c.R
	doc := slowDoc(r)
	var ops []concOp
	add := func(name string, do func() string) { ops = append(ops, concOp{name, do}) }

	// slow matcher
	var xs []*E
	so := *slowOpts
	so.Loops = 0 // the slow matcher walks objects in no fixed order
	e := newEgen(r, doc, &so)
	for i, n := 0, r.In(1, 2); i < n; i++ {
		e.nCond = 0
		x := e.expr(r.In(0, 3)).floatLits()
		idx := false
		walk(x, func(*E) {}, func(o *Opd) { idx = idx || hasIdx(o.Path) })
		if !idx {
			xs = append(xs, x)
		}
	}
	slowExprs := apis(xs)
	txts := [][]byte{[]byte(docText(doc, fullStyle(r))), []byte(docText(alike(r, doc), fullStyle(r)))}
	if len(xs) > 0 {
		add("the slow matcher", func() string {
			m := g.NewSlowMatcher(slowExprs)
			s := ""
			for _, t := range txts {
				m.Reset()
				ok, err := m.Match(t)
				s += fmt.Sprint(ok, err, "; ")
			}
			return s
		})
	}

	// compaction, statistics, the JSON language
	e2 := newEgen(r, doc, randOpts(r))
	x := e2.expr(r.In(0, 4))
	shared := x.api()
	before := fmt.Sprintf("%#v", shared)
	later := concLater(r)
	add("compacting a shared expression", func() string { return g.CompactExpression(shared).String() })
	add("counting in a shared expression", func() string {
		var st g.ExpressionStats
		err := st.Scan(shared)
		return fmt.Sprintf("%+v %v", st, err)
	})
	o := randOpts(r)
	o.UintLits = false
	jt := jsonText(r, newEgen(r, doc, o).expr(r.In(0, 3)).floatLits().asJSON())
	if r.P(15) {
		jt = corrupt(r, jt)
	}
	jb := []byte(jt)
	add("a JSON expression", func() string {
		y, err := g.ParseJsonExpression(jb)
		if err != nil {
			return "error " + err.Error()
		}
		var tr g.Transformer
		return y.String() + matchAll(g.NewFastMatcher(tr.Transform([]g.Expression{y})), 1, txts[0])
	})

	// one parsed filter text printed and output by many
	ft, _ := newFgen(r, doc).or(1)
	if _, fe, err := g.NewFilterExpressionParser(ft); err == nil {
		add("output of a parsed filter text", func() string {
			y, err := fe.OutputExpression()
			if err != nil {
				return "error " + err.Error()
			}
			return fe.String() + " " + y.String()
		})
	}

	// item removal
	src := []byte(itemsText(r, doc))
	rm := removeKeys(r, doc)
	add("removing items", func() string {
		dst := make([]byte, len(src)+16)
		l, n, any, err := g.MatchAndRemoveItemsFromJsonObject(src, rm, dst, map[string][]byte{})
		return fmt.Sprint(string(dst[:l]), n, any, err)
	})

	// values
	var vs []val
	for i := 0; i < 6; i++ {
		vs = append(vs, genVal(r))
	}
	dates := []string{genTimeLit(r), genTimeLit(r), "2019", "no date"}
	add("values", func() string {
		var sb strings.Builder
		for _, a := range vs {
			for _, b := range vs {
				x, ok := a.v.Compare(b.v)
				fmt.Fprint(&sb, x, ok, " ")
			}
			i, iok := a.v.AsInt()
			u, uok := a.v.AsUint()
			f, fok := a.v.AsFloat()
			b, bok := a.v.AsBoolean()
			s, sok := a.v.AsString()
			fmt.Fprint(&sb, i, iok, u, uok, f, fok, b, bok, s, sok, a.v.String(), "; ")
		}
		for _, d := range dates {
			for _, v := range []g.FastVal{g.NewFastVal(d), g.NewBinStringFastVal([]byte(d))} {
				fmt.Fprint(&sb, g.FastValDateFunc(v).String(), " ")
			}
			t, err := g.GetNewTimeFastVal(d)
			fmt.Fprint(&sb, t.String(), err != nil, " ")
		}
		return sb.String()
	})
	concRun(c, ops, func(i int) string { return guarded(ops[i].do) }, later, concPlan(r, len(ops)), func() string {
		return clip(fmt.Sprint("expressions: ", xs, x, "\n  document: ", string(txts[0]), "\n  filter text: ", ft, "\n  JSON expression: ", jt), 3000)
	})
	if after := fmt.Sprintf("%#v", shared); after != before {
		c.Fail("expression changed", "a shared expression changed by being used\n  before: %s\n  after: %s", clip(before, 700), clip(after, 700))
	}
	if string(jb) != jt {
		c.Fail("text changed", "a shared JSON expression changed by being parsed\n  before: %s\n  after: %s", clip(jt, 700), clip(string(jb), 700))
	}
	c.Count("shared values and tools")
}

func init() {
	register(&Check{
		ID:     "C12",
		Race:   true,
		Rule:   "the race-detector build: 2 to 8 goroutines started together, each with matchers of its own over one shared definition, shared documents, shared texts and shared expression values (matching, compiling, parsing all three languages, printing, item removal, values compared and converted, dates, statistics, compaction, the slow matcher), without synchronisation between them; oracles: the race detector, and every logged result against the sequential one; definition, documents and expressions unchanged; non-trivial = distinct interleavings (order of all recorded operation starts and ends) with operations overlapping in time",
		Assume: append([]string{"a matcher itself is used by one goroutine at a time; races between accesses that none of the executed paths makes are not seen"}, stdAssume...),
		Procs:  4,
		Load: []Workload{
			{Name: "match", Quick: 2500, Thorough: 60000, Run: caseConcMatch},
			{Name: "parse", Quick: 250, Thorough: 8000, Run: caseConcParse},
			{Name: "compile", Quick: 1500, Thorough: 40000, Run: caseConcExpr},
			{Name: "tools", Quick: 1000, Thorough: 30000, Run: caseConcTools},
			{Name: "cold", Quick: 300, Thorough: 6000, Run: caseConcCold},
		},
		Require: map[string]int{"cases with overlap": 300, "operations begun while another ran": 5000},
	})
}
