package main

import (
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

func apis(xs []*E) []g.Expression {
	var es []g.Expression
	for _, x := range xs {
		es = append(es, x.api())
	}
	return es
}

func compileDef(xs ...*E) (d *g.MatchDef, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic while compiling: %v", e)
		}
	}()
	return new(g.Transformer).Transform(apis(xs)), nil
}

func compile(xs ...*E) (*g.FastMatcher, error) {
	return compileBy(new(g.Transformer), xs...)
}

// compileBy compiles with a transformer which may have been used before.
func compileBy(t *g.Transformer, xs ...*E) (m *g.FastMatcher, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic while compiling: %v", e)
		}
	}()
	return g.NewFastMatcher(t.Transform(apis(xs))), nil
}

type outcome struct {
	Match  bool
	Status int
	Err    string
	Panic  bool
}

func (o outcome) String() string {
	if o.Panic {
		return "panic(" + o.Err + ")"
	}
	if o.Err != "" {
		return "error(" + o.Err + ")"
	}
	return fmt.Sprintf("match=%v status=%d", o.Match, o.Status)
}

// run matches d with m (which is not reset here).
func run(m g.Matcher, d []byte) (o outcome) {
	defer func() {
		if e := recover(); e != nil {
			o = outcome{Err: fmt.Sprint(e), Panic: true}
		}
	}()
	r, st, err := m.MatchWithStatus(d)
	if err != nil {
		return outcome{Err: "E " + err.Error()}
	}
	return outcome{Match: r, Status: st}
}

func extraKey(r *Rng) string {
	if r.P(40) {
		return fmt.Sprintf("zz%d", r.N(50))
	}
	return genKey(r) + "_q"
}

func fullStyle(r *Rng) *Style {
	switch r.N(4) {
	case 0:
		return nil
	case 1:
		return &Style{R: r, Ws: 25, TailWs: true}
	case 2:
		return &Style{R: r, Shuffle: true, Extra: 25, Esc: 15, ExtraKey: extraKey, Ws: r.N(2) * 15, TailWs: true, Nums: 10}
	}
	return &Style{R: r, Ws: 20, Shuffle: true, Extra: 10, Esc: 40, TailWs: true, ExtraKey: extraKey, AllEsc: r.P(15), Nums: r.N(2) * 30}
}

type diffOpts struct {
	Doc     func(r *Rng) *J
	Expr    func(r *Rng, doc *J) *E
	Docs    int
	MutPct  int
	NextDoc func(r *Rng, doc *J) *J
	Style   func(r *Rng) *Style
	Pairs   bool
	After   func(c *Case, x *E, d *J, txt string, want bool, env *Env, got outcome)
}

// diffCase: one expression against several documents, the code's verdict
// against the reference model's.
func diffCase(c *Case, o *diffOpts) {
	r := c.R
	doc := o.Doc(r)
	x := o.Expr(r, doc)
	if x == nil {
		c.Count("skipped")
		return
	}
	m, err := compile(x)
	if err != nil {
		c.Eval(1)
		c.Fail("compile", "%v\n  expression: %s", err, x)
		return
	}
	c.Count("expressions")
	xs := x.String()
	for k := 0; k < o.Docs; k++ {
		d := doc
		if k > 0 {
			if o.NextDoc != nil {
				d = o.NextDoc(r, doc)
			} else {
				d = mutate(r, doc, o.MutPct)
			}
		}
		diffOne(c, o, m, x, xs, d)
	}
}

func diffOne(c *Case, o *diffOpts, m *g.FastMatcher, x *E, xs string, d *J) {
	r := c.R
	env := &Env{Doc: d, Vars: map[int]*J{}}
	if o.Pairs {
		env.Trace = func(op string, a, b *J) {
			if a.K > b.K {
				a, b = b, a
			}
			c.Count("pair:" + a.K.String() + "/" + b.K.String())
			c.Count("op:" + op)
		}
	}
	want := x.eval(env)
	if env.Unclear {
		c.Count("left open: " + env.Why)
		return
	}
	st := fullStyle(r)
	if o.Style != nil {
		st = o.Style(r)
	}
	if env.Struct {
		st = nil
	}
	txt := docText(d, st)
	m.Reset()
	got := run(m, []byte(txt))
	c.Eval(1)
	if want {
		c.Count("verdict:true")
	} else {
		c.Count("verdict:false")
	}
	if env.Touched > 0 {
		c.Nontrivial(xs + "\x00" + txt)
		c.Sample(func() string { return fmt.Sprintf("%s on %s -> %v", xs, txt, got) })
	}
	if got.Err != "" {
		kind := "error"
		if got.Panic {
			kind = "panic"
		}
		c.Fail(kind, "%v\n  expression: %s\n  document: %s", got, xs, txt)
		return
	}
	if got.Match != want {
		c.Fail("verdict", "got %v, meaning is %v\n  expression: %s\n  document: %s", got.Match, want, xs, txt)
		return
	}
	if o.After != nil {
		o.After(c, x, d, txt, want, env, got)
	}
}

// observe counts which constructs a workload used.
func observe(c *Case, x *E) {
	walk(x, func(x *E) {
		n := [...]string{"TRUE", "FALSE", "AND", "OR", "NOT", "cmp", "EXISTS", "NOTEXISTS", "LIKE", "ANY", "EVERY", "ANYEVERY"}[x.K]
		c.Count("node:" + n)
	}, func(o *Opd) {
		if o.K == OFunc {
			c.Count("fn:" + o.Fn)
		}
	})
}

func walk(x *E, fe func(*E), fo func(*Opd)) {
	fe(x)
	var w func(o *Opd)
	w = func(o *Opd) {
		if o == nil {
			return
		}
		if fo != nil {
			fo(o)
		}
		for _, a := range o.Args {
			w(a)
		}
	}
	w(x.L)
	w(x.R)
	w(x.In)
	for _, s := range x.Sub {
		walk(s, fe, fo)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func join(ss []string) string { return strings.Join(ss, " ; ") }
