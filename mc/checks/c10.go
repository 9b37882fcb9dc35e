package checks

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/hclparse"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"verif/mc/fw"
	"verif/mc/ref"
)

// schedCase is a shared subject evaluated by several threads. Kind selects how
// the source is used, Shared whether their contexts have a common parent.
type schedCase struct {
	Kind, Src string
	Threads   int
	Shared    bool
	Data      int
}

// threadData are the variables of each thread.
func threadData(data, thread int) map[string]cty.Value {
	elem := func(i int) cty.Value {
		n := fmt.Sprintf("t%de%d", thread, i)
		return obj("a", str(n), "l", tup(obj("b", str(n+"x"))), "m", mapv("k", str(n+"m")))
	}
	switch data {
	case 0:
		return map[string]cty.Value{"xs": tup(elem(0), elem(1)), "i": num("0")}
	case 1:
		return map[string]cty.Value{"xs": lst(elem(0), elem(1)), "i": num("0")}
	case 2: // threads see different lengths, one of them errors
		if thread == 0 {
			return map[string]cty.Value{"xs": tup(elem(0)), "i": num("0")}
		}
		return map[string]cty.Value{"xs": tup(elem(0), str("e")), "i": num("0")}
	case 3: // unknown for one
		if thread == 0 {
			return map[string]cty.Value{"xs": unk(lst(elem(0)).Type()), "i": num("0")}
		}
		return map[string]cty.Value{"xs": lst(elem(0), elem(1)), "i": num("0")}
	case 4: // nulls and empties
		if thread == 0 {
			return map[string]cty.Value{"xs": cty.ListValEmpty(elem(0).Type()), "i": num("0")}
		}
		return map[string]cty.Value{"xs": elem(0), "i": num("0")}
	}
	panic("data")
}

func pointFn(point func()) function.Function {
	return function.New(&function.Spec{
		Params: []function.Parameter{{Name: "v", Type: cty.DynamicPseudoType, AllowNull: true, AllowDynamicType: true, AllowUnknown: true}},
		Type:   func(a []cty.Value) (cty.Type, error) { return a[0].Type(), nil },
		Impl: func(a []cty.Value, _ cty.Type) (cty.Value, error) {
			point()
			return a[0], nil
		},
	})
}

var schedSpec = hcldec.ObjectSpec{
	"v": &hcldec.AttrSpec{Name: "v", Type: cty.DynamicPseudoType},
	"b": &hcldec.BlockTupleSpec{TypeName: "b", Nested: hcldec.ObjectSpec{
		"w": &hcldec.AttrSpec{Name: "w", Type: cty.DynamicPseudoType},
		"l": &hcldec.BlockLabelSpec{Index: 0, Name: "l"},
	}},
	"d": &hcldec.DefaultSpec{Primary: &hcldec.AttrSpec{Name: "d", Type: cty.String}, Default: &hcldec.LiteralSpec{Value: str("dd")}},
}

// subject builds the shared object of a case; the returned function is one
// thread's use of it.
func (c schedCase) subject(point func()) (func(ctx *hcl.EvalContext) evalRes, hcl.Diagnostics) {
	switch c.Kind {
	case "expr":
		e, diags := hclsyntax.ParseExpression([]byte(c.Src), "t.hcl", hcl.InitialPos)
		if diags.HasErrors() {
			return nil, diags
		}
		hookItems(e, point)
		return func(ctx *hcl.EvalContext) evalRes {
			v, d := e.Value(ctx)
			return evalRes{v, !d.HasErrors(), d}
		}, nil
	case "json":
		f, diags := json.Parse([]byte(c.Src), "t.json")
		if diags.HasErrors() {
			return nil, diags
		}
		return func(ctx *hcl.EvalContext) evalRes {
			v, d := hcldec.Decode(f.Body, schedSpec, ctx)
			return evalRes{v, !d.HasErrors(), d}
		}, nil
	case "userfunc":
		f, diags := hclsyntax.ParseConfig([]byte(c.Src), "t.hcl", hcl.InitialPos)
		if diags.HasErrors() {
			return nil, diags
		}
		base := &hcl.EvalContext{Variables: map[string]cty.Value{"base": str("B")}, Functions: map[string]function.Function{"p": pointFn(point)}}
		for _, b := range f.Body.(*hclsyntax.Body).Blocks {
			hookItems(b.Body.Attributes["result"].Expr, point)
		}
		funcs, _, diags := userfunc.DecodeUserFunctions(f.Body, "function", func() *hcl.EvalContext { return base })
		if diags.HasErrors() {
			return nil, diags
		}
		call, diags := hclsyntax.ParseExpression([]byte("f(p(xs), i)"), "c.hcl", hcl.InitialPos)
		return func(ctx *hcl.EvalContext) evalRes {
			ctx = ctx.NewChild()
			ctx.Functions = funcs
			v, d := call.Value(ctx)
			return evalRes{v, !d.HasErrors(), d}
		}, diags
	}
	// bodies
	f, diags := hclsyntax.ParseConfig([]byte(c.Src), "t.hcl", hcl.InitialPos)
	if diags.HasErrors() {
		return nil, diags
	}
	body := f.Body
	switch c.Kind {
	case "dynblock":
		return func(ctx *hcl.EvalContext) evalRes {
			v, d := hcldec.Decode(dynblock.Expand(body, ctx), schedSpec, ctx)
			return evalRes{v, !d.HasErrors(), d}
		}, nil
	case "transform":
		body = transform.Deep(body, transform.TransformerFunc(func(b hcl.Body) hcl.Body { point(); return b }))
	case "merged":
		g, diags := hclsyntax.ParseConfig([]byte("b \"extra\" {\n w = p(xs)[*].a\n}\n"), "u.hcl", hcl.InitialPos)
		if diags.HasErrors() {
			return nil, diags
		}
		body = hcl.MergeBodies([]hcl.Body{body, g.Body})
	case "packed":
		pb, diags := hclpack.PackNativeFile([]byte(c.Src), "t.hcl", hcl.InitialPos)
		if diags.HasErrors() {
			return nil, diags
		}
		body = pb
	case "gohcl":
		type blk struct {
			L string    `hcl:"l,label"`
			W cty.Value `hcl:"w,optional"`
		}
		type top struct {
			V cty.Value `hcl:"v,optional"`
			B []*blk    `hcl:"b,block"`
			R hcl.Body  `hcl:",remain"`
		}
		return func(ctx *hcl.EvalContext) evalRes {
			var t top
			d := gohcl.DecodeBody(body, ctx, &t)
			vals := []cty.Value{t.V}
			if t.V == cty.NilVal {
				vals[0] = cty.NullVal(cty.String)
			}
			for _, b := range t.B {
				w := b.W
				if w == cty.NilVal {
					w = cty.NullVal(cty.String)
				}
				vals = append(vals, obj("l", str(b.L), "w", w))
			}
			return evalRes{cty.TupleVal(vals), !d.HasErrors(), d}
		}, nil
	}
	return func(ctx *hcl.EvalContext) evalRes {
		v, d := hcldec.Decode(body, schedSpec, ctx)
		return evalRes{v, !d.HasErrors(), d}
	}, nil
}

func (c schedCase) contexts(point func()) []*hcl.EvalContext {
	var ctxs []*hcl.EvalContext
	fns := map[string]function.Function{"p": pointFn(point)}
	parent := &hcl.EvalContext{Functions: fns, Variables: map[string]cty.Value{"xs": str("outer"), "shared": str("S")}}
	for i := 0; i < c.Threads; i++ {
		vars := threadData(c.Data, i)
		if c.Shared {
			ctx := parent.NewChild()
			ctx.Variables = vars
			if c.Data%2 == 1 {
				ctx = ctx.NewChild() // with nothing of its own
			}
			ctxs = append(ctxs, ctx)
		} else {
			ctxs = append(ctxs, &hcl.EvalContext{Variables: vars, Functions: fns})
		}
	}
	return ctxs
}

func sameRes(a, b evalRes) bool {
	return a.ok == b.ok && a.v != cty.NilVal && b.v != cty.NilVal && a.v.RawEquals(b.v) && diagSet(a.d) == diagSet(b.d)
}

// diagSet shows diagnostics without their order, and without details since
// these can contain a suggestion that depends on it.
func diagSet(diags hcl.Diagnostics) string {
	var s []string
	for _, d := range diags {
		rng := "-"
		if d.Subject != nil {
			rng = d.Subject.String()
		}
		s = append(s, fmt.Sprintf("%d %s: %s", d.Severity, rng, d.Summary))
	}
	return sortedStr(s)
}

const maxSchedules = 40000

func runSched(r *fw.Rec, c schedCase) {
	s := &sched{off: true}
	// what each thread gets alone
	var alone []evalRes
	for i := 0; i < c.Threads; i++ {
		use, diags := c.subject(s.point)
		if diags.HasErrors() {
			r.Failf("", "%s is rejected: %s", c.Src, diagsStr(diags))
			return
		}
		alone = append(alone, use(c.contexts(s.point)[i]))
	}
	results := make([]evalRes, c.Threads)
	n, all := s.explore(maxSchedules, func() []func() {
		use, _ := c.subject(s.point)
		ctxs := c.contexts(s.point)
		var fs []func()
		for i := range ctxs {
			i := i
			results[i] = evalRes{}
			fs = append(fs, func() {
				defer func() {
					if e := recover(); e != nil {
						results[i] = evalRes{v: cty.StringVal(fmt.Sprintf("panic: %v", e))}
					}
				}()
				results[i] = use(ctxs[i])
			})
		}
		return fs
	}, func(trace []int) bool {
		r.Op(len(trace))
		r.State(c.Kind, c.Src, fmt.Sprint(c.Data, c.Shared), traceStr(trace))
		r.Trace()
		for i := range results {
			if !sameRes(results[i], alone[i]) {
				r.Failf("", "%s %s: thread %d of schedule %v gives %s, alone %s", c.Kind, c.Src, i, trace, results[i], alone[i])
				return false
			}
		}
		return true
	})
	r.Count("schedules", n)
	if !all {
		r.Cut()
	}
}

func init() {
	exprs := []string{
		`xs[*].a`, `xs.*.a`, `xs[*]`, `xs[*].l[*].b`, `xs.*.l[i].b`, `xs[*].l[p(i)]`, `xs[*].m["k"]`, `xs[*].m[p("k")]`, `[for x in xs : p(x.a)]`, `{for k, x in xs : p(k) => x.a...}`,
		`[for x in xs : x.l[*].b]`, `[for x in xs[*].a : p(x)]`, `"${p(xs[0].a)}-${xs[*].a[p(i)]}"`, `p(i) == 0 ? xs[*].a : []`, `"%{for x in xs}${p(x.a)}%{endfor}"`, `p(xs[*].a...)`, `{a = xs[*].a, (p("b")) = xs.*.l}`,
		`[xs[*].a, xs[*].a]`, `p(xs)[*].l[*]`, `xs[*].l[*].b[p(i)]`, `[for x in xs : [for y in x.l : p(y.b)] if p(true)]`, `xs[*].nope`, `-p(i) + length`, `xs[p(i)].a`,
	}
	bodies := []string{
		"v = p(xs)[*].a\nb \"one\" {\n w = p(i)\n}\n",
		"b \"one\" {\n w = xs[*].a\n}\nb \"two\" {\n w = [for x in xs : p(x.a)]\n}\nd = p(\"q\")\n",
		"v = nope\nb {\n w = p(1)\n}\nz = 1\n",
	}
	fw.Register(&fw.Check{
		ID: "C10",
		Assumptions: []string{"switches between threads happen at calls of harness functions and at reads of the current element of a splat; finer races are left to the race detector run, which does not enumerate schedules",
			"the same expression is not evaluated concurrently in the same evaluation context"},
		Suites: []fw.Suite{
			fw.S("interleavings", "every schedule (up to 40000 per case) of 2 threads (thorough 3) using one shared expression, body or function at all scheduling points",
				func(t fw.Tier, yield func(schedCase)) {
					add := func(kind, src string) {
						for n := 2; n <= fw.Pick(t, 2, 3); n++ {
							for _, shared := range []bool{false, true} {
								for d := 0; d < 5; d++ {
									yield(schedCase{kind, src, n, shared, d})
								}
							}
						}
					}
					for _, e := range exprs {
						add("expr", e)
					}
					for _, b := range bodies {
						for _, k := range []string{"native", "merged", "packed", "gohcl", "transform"} {
							add(k, b)
						}
					}
					add("json", `{"v": "${p(xs)[*].a}", "b": {"one": {"w": ["${p(i)}", "${xs[*].a}"]}}, "d": "${p(\"q\")}"}`)
					add("json", `{"v": {"${p(\"k\")}": "${[for x in xs : p(x.a)]}"}, "z": 1, "b": [{"one": [{"w": "${nope}"}]}]}`)
					add("dynblock", "dynamic \"b\" {\n for_each = p(xs)\n labels = [p(\"l\")]\n content {\n  w = [b.value.a, p(b.key)]\n }\n}\nb \"s\" {\n w = p(1)\n}\n")
					add("dynblock", "dynamic \"b\" {\n for_each = xs[*].a\n iterator = it\n labels = [it.value]\n content {\n  w = xs[*].l[p(i)]\n }\n}\n")
					add("userfunc", "function \"f\" {\n params = [a, b]\n result = a[*].a\n}\n")
					add("userfunc", "function \"f\" {\n params = [a]\n variadic_param = r\n result = [for x in a : [p(x.a), r, base]]\n}\n")
				}, runSched),
			fw.S("repeat", "every expression nested two deep out of 75 forms with 5 variable sets, evaluated 4 times; structure, context, value and diagnostics must not change",
				func(t fw.Tier, yield func(exprCase)) {
					hs := holes()
					x := ref.Var("x")
					for _, f := range hs {
						yield(exprCase{f(x)})
						for _, g := range hs {
							yield(exprCase{g(f(x))})
						}
					}
				},
				func(r *fw.Rec, c exprCase) {
					src := c.T.Print(ref.Spaced, true)
					r.State(src)
					e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.InitialPos)
					if diags.HasErrors() {
						r.Failf("", "%s is rejected: %s", src, diagsStr(diags))
						return
					}
					before := dumpExpr(e)
					for _, vars := range varSets {
						ctx := fnCtx.NewChild()
						ctx.Variables = map[string]cty.Value{}
						for k, v := range vars {
							ctx.Variables[k] = v
						}
						v0, d0 := e.Value(ctx)
						for i := 0; i < 3; i++ {
							v, d := e.Value(ctx)
							r.Op(1)
							if !v.RawEquals(v0) || diagsStr(d) != diagsStr(d0) {
								r.Failf("", "%s gives first %#v %s and then %#v %s", src, v0, diagsStr(d0), v, diagsStr(d))
								return
							}
						}
						if len(ctx.Variables) != len(vars) || ctx.Functions != nil {
							r.Failf("", "evaluating %s changes its context", src)
							return
						}
						for k, v := range vars {
							if w, ok := ctx.Variables[k]; !ok || !w.RawEquals(v) {
								r.Failf("", "evaluating %s changes variable %s", src, k)
								return
							}
						}
					}
					if after := dumpExpr(e); after != before {
						r.Failf("", "evaluating %s changes the expression from %s to %s", src, before, after)
					}
					r.Trace()
				}),
			fw.S("repeatbodies", "every body of up to 3 items (thorough 4) out of 12, native and JSON, decoded 12 times by each method; content and the set of diagnostics must not change",
				func(t fw.Tier, yield func([]int)) {
					eachSeq(len(repItems), 0, fw.Pick(t, 3, 4), func(i []int) { yield(append([]int{}, i...)) })
				}, runRepeatBody),
			fw.S("race", "one run of shared evaluation, decoding, formatting and parsing from 8 goroutines under the race detector",
				func(t fw.Tier, yield func(int)) { yield(fw.Pick(t, 60, 600)) }, runRace),
		},
	})
}

var repItems = []struct{ n, j string }{
	{"a = 1", `"a": 1`}, {"b = nope", `"b": "${nope}"`}, {"c = nope2.x", `"c": "${nope2.x}"`}, {"z1 = 1", `"z1": 1`}, {"z2 = zz", `"z2": "${zz}"`}, {"z3 = [1", `"z3": [1]`},
	{"blk \"x\" {\n w = 1\n}", `"blk": {"x": {"w": 1}}`}, {"blk {\n}", `"blk": {}`}, {"blk \"x\" {\n q1 = 1\n q2 = nope\n}", `"blk": {"x": {"q1": 1, "q2": "${nope}"}}`}, {"odd \"l\" {\n}", `"odd": {"l": {}}`},
	{"one {\n u = 1\n}", `"one": {"u": 1}`}, {"m \"k\" {\n w = {a = nope, b = nope}\n}", `"m": {"k": {"w": {"a": "${nope}", "b": "${nope}"}}}`},
}

var repSpec = hcldec.ObjectSpec{
	"a": &hcldec.AttrSpec{Name: "a", Type: cty.Bool, Required: true}, "b": &hcldec.AttrSpec{Name: "b", Type: cty.String, Required: true}, "c": &hcldec.AttrSpec{Name: "c", Type: cty.Number, Required: true}, "d": &hcldec.AttrSpec{Name: "d", Type: cty.Number, Required: true},
	"blk": &hcldec.BlockTupleSpec{TypeName: "blk", Nested: hcldec.ObjectSpec{"l": &hcldec.BlockLabelSpec{Index: 0, Name: "l"}, "w": &hcldec.AttrSpec{Name: "w", Type: cty.String, Required: true}, "x": &hcldec.AttrSpec{Name: "x", Type: cty.String, Required: true}}},
	"one": &hcldec.BlockSpec{TypeName: "one", Required: true, Nested: hcldec.ObjectSpec{"u": &hcldec.AttrSpec{Name: "u", Type: cty.String}}},
	"m":   &hcldec.BlockMapSpec{TypeName: "m", LabelNames: []string{"k"}, Nested: &hcldec.AttrSpec{Name: "w", Type: cty.Map(cty.String)}},
	"at":  &hcldec.BlockAttrsSpec{TypeName: "odd", ElementType: cty.String},
}

type repStruct struct {
	A bool    `hcl:"a"`
	B string  `hcl:"b"`
	C float64 `hcl:"c"`
	D int     `hcl:"d"`
	K []struct {
		L string `hcl:"l,label"`
		W string `hcl:"w"`
		X string `hcl:"x"`
	} `hcl:"blk,block"`
	One struct {
		U string `hcl:"u"`
	} `hcl:"one,block"`
}

func runRepeatBody(r *fw.Rec, c []int) {
	var ns, js []string
	for _, i := range c {
		ns = append(ns, repItems[i].n)
		js = append(js, repItems[i].j)
	}
	schema := &hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "b", Required: true}, {Name: "d", Required: true}}, Blocks: []hcl.BlockHeaderSchema{{Type: "blk", LabelNames: []string{"l"}}, {Type: "one"}}}
	for _, isJSON := range []bool{false, true} {
		src := strings.Join(ns, "\n") + "\n"
		if isJSON {
			src = "{" + strings.Join(js, ", ") + "}"
		}
		r.State(src)
		parse := func() (hcl.Body, string) {
			p := hclparse.NewParser()
			var f *hcl.File
			var diags hcl.Diagnostics
			if isJSON {
				f, diags = p.ParseJSON([]byte(src), "t.json")
			} else {
				f, diags = p.ParseHCL([]byte(src), "t.hcl")
			}
			if f == nil {
				return nil, diagsStr(diags)
			}
			return f.Body, diagsStr(diags)
		}
		use := func(body hcl.Body) string {
			var out []string
			add := func(what string, v string, d hcl.Diagnostics) { out = append(out, what+" "+v+" "+diagSet(d)) }
			content, d := body.Content(schema)
			add("content", contentStr(content), d)
			content, rest, d := body.PartialContent(schema)
			add("partial", contentStr(content), d)
			attrs, d := rest.JustAttributes()
			add("rest", attrsStr(attrs), d)
			attrs, d = body.JustAttributes()
			add("attributes", attrsStr(attrs), d)
			v, d := hcldec.Decode(body, repSpec, nil)
			add("decode", fmt.Sprintf("%#v", v), d)
			var s repStruct
			d = gohcl.DecodeBody(body, nil, &s)
			add("gohcl", fmt.Sprintf("%+v", s), d)
			content, d = dynblock.Expand(body, nil).Content(schema)
			add("dynblock", contentStr(content), d)
			content, d = hcl.MergeBodies([]hcl.Body{body, body}).Content(schema)
			add("merged", contentStr(content), d)
			attrs, d = hcl.MergeBodies([]hcl.Body{body, body}).JustAttributes()
			add("merged attributes", attrsStr(attrs), d)
			var vars []string
			for _, t := range hcldec.Variables(body, repSpec) {
				vars = append(vars, travStr(t, true))
			}
			sort.Strings(vars)
			add("variables", strings.Join(vars, " "), nil)
			return strings.Join(out, "\n")
		}
		body, firstDiags := parse()
		if body == nil {
			r.Failf("", "parsing %q gives no body", src)
			return
		}
		first := use(body)
		for k := 0; k < 12; k++ {
			if k%3 == 2 {
				var d string
				if body, d = parse(); body == nil || d != firstDiags {
					r.Failf("", "parsing %q again gives %s instead of %s", src, d, firstDiags)
					return
				}
			}
			again := use(body)
			r.Op(10)
			if first != again {
				r.Failf("", "repeating on %q gives\n%s\nfirst and then\n%s", src, diffLines(first, again), diffLines(again, first))
				return
			}
		}
		r.Trace()
	}
}

// diffLines gives the lines of a that differ from those of b.
func diffLines(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	var out []string
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			out = append(out, x[i])
		}
	}
	return strings.Join(out, "\n")
}

func attrsStr(attrs hcl.Attributes) string {
	var s []string
	for n, a := range attrs {
		s = append(s, fmt.Sprintf("%s=%s@%s", n, a.Name, a.Range))
	}
	return sortedStr(s)
}

func contentStr(c *hcl.BodyContent) string {
	if c == nil {
		return "<nil>"
	}
	s := attrsStr(c.Attributes)
	for _, b := range c.Blocks {
		s += fmt.Sprintf(" | %s%q@%s", b.Type, b.Labels, b.DefRange)
	}
	return s
}

// runRace builds and runs the race program.
func runRace(r *fw.Rec, iterations int) {
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		return
	}
	tmp, err := os.MkdirTemp("", "race-")
	if err != nil {
		return
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "race")
	cmd := exec.Command("go", "build", "-race", "-o", bin, "./race")
	cmd.Dir = filepath.Join(dir, "mc")
	if out, err := cmd.CombinedOutput(); err != nil {
		r.Count("race program not built", 1)
		fmt.Fprintf(os.Stderr, "race program not built: %s\n", out)
		return
	}
	cmd = exec.Command(bin, fmt.Sprint(iterations))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return
	}
	timer := time.AfterFunc(5*time.Minute, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	r.Op(iterations)
	if !timer.Stop() {
		r.Count("race program timed out", 1)
		return
	}
	r.Trace()
	if err != nil {
		text := out.String()
		if len(text) > 3000 {
			text = text[:3000]
		}
		r.Failf("", "running from several goroutines: %v\n%s", err, text)
	}
}
