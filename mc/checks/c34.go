package checks

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/hcltest"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"github.com/zclconf/go-cty/cty/function"
	"verif/mc/fw"
)

// aExpr is an expression with the ways in which it can be taken apart:
// list, map, call, trav (a static traversal), word (a literal keyword), none,
// or ? if that is not judged.
type aExpr struct {
	Src  string
	Kind string
	Trav string `json:",omitempty"` // the traversal, as shown by travStr
}

var aRoots = []string{"a", "o", "l", "nope", "x", "if"}
var aSteps = []struct{ src, trav string }{
	{".k", ".k"}, {".zz", ".zz"}, {"[0]", "[cty.NumberIntVal(0)]"}, {`["k"]`, `[cty.StringVal("k")]`}, {"[1]", "[cty.NumberIntVal(1)]"}, {".0", "[cty.NumberIntVal(0)]"}, {`["a b"]`, `[cty.StringVal("a b")]`},
	{"[x]", ""}, {"[1 - 1]", ""}, {`["${x}"]`, ""}, {".*", ""}, {"[*]", ""}, {"[-1]", ""}, {"[id(0)]", ""}, {`[x ? "k" : "k"]`, ""}, {"[a.k]", ""}, {".*.k", ""}, {"[*].k", ""},
	{"[0.5]", "?"}, {"[true]", "?"}, {"[null]", "?"}, {`["a${1}"]`, "?"},
}

func aTraversals(max int, yield func(aExpr)) {
	for _, root := range aRoots {
		eachSeq(len(aSteps), 0, max, func(ix []int) {
			e := aExpr{Src: root, Kind: "trav", Trav: root}
			for i, k := range ix {
				s := aSteps[k]
				if s.src == ".0" && i > 0 && strings.HasSuffix(e.Src, ".0") {
					return // read as a number
				}
				if strings.HasSuffix(s.src, "*") || strings.Contains(s.src, "*.") {
					if strings.Contains(e.Src, "*") {
						return // nested splats are checked elsewhere
					}
				}
				e.Src += s.src
				e.Trav += s.trav
				switch {
				case s.trav == "" && e.Kind != "none":
					e.Kind = "none"
				case s.trav == "?" && e.Kind == "trav":
					e.Kind = "?"
				}
			}
			if e.Kind != "trav" {
				e.Trav = ""
			}
			yield(e)
		})
	}
}

// aBasics are all kinds of expressions that are not traversals.
var aBasics = []aExpr{
	{"1", "none", ""}, {`"s"`, "none", ""}, {`""`, "none", ""}, {`"a"`, "none", ""}, {`"${a}"`, "none", ""}, {`"t${a.k}"`, "none", ""}, {"<<E\na\nE\n", "none", ""}, {`"%{ if x }a%{ endif }"`, "none", ""},
	{"null", "word", ""}, {"true", "word", ""}, {"false", "word", ""},
	{"[]", "list", ""}, {"{}", "map", ""},
	{"-a", "none", ""}, {"!x", "none", ""}, {"1 + 1", "none", ""}, {"a == a", "none", ""}, {"x ? a : a", "none", ""}, {"true ? [1] : [1]", "none", ""},
	{"[for v in l: v]", "none", ""}, {"{for k, v in o: k => v}", "none", ""}, {"[for v in [1, 2]: id(v)]", "none", ""}, {"l[*]", "none", ""}, {"[1, 2][*]", "none", ""}, {"[1, 2].*", "none", ""},
	{"id(a)", "call", ""}, {"zero()", "call", ""}, {"nofn(1)", "call", ""}, {"cat()", "call", ""}, {`cat("a", 1, true)`, "call", ""}, {"cat(l...)", "none", ""}, {`cat("a", l...)`, "none", ""}, {"id(1, 2)", "call", ""}, {"id()", "call", ""}, {"id(null)", "call", ""}, {"id(nope)", "call", ""}, {"cat(a,)", "call", ""}, {"num(\"12\")", "call", ""}, {"num(\"q\")", "call", ""}, {"id(id(id(a)))", "call", ""}, {"id([1, a])", "call", ""},
	{"id(a).k", "none", ""}, {"id(o)[\"k\"]", "none", ""}, {"[a][0]", "none", ""}, {"{k = a}.k", "none", ""}, {"{k = a}[\"k\"]", "none", ""}, {"[o].0", "none", ""},
	{"{k = a, \"l\" = 2}", "map", ""}, {"{(a.k) = 1}", "map", ""}, {"{\"p${x}\" = 1}", "map", ""}, {"{true = 1, null = 2}", "map", ""}, {"{1 = 2}", "map", ""}, {"{k = 1, k = 2}", "map", ""}, {"{a.k = 1}", "map", ""}, {"{(nope) = 1}", "map", ""}, {"{k = nope}", "map", ""}, {"{(l) = 1}", "map", ""}, {"{k: {k: [1]}}", "map", ""}, {"{\nk = 1\nm = 2\n}", "map", ""}, {"{(x) = 1}", "map", ""}, {"{(u) = 1}", "map", ""},
	{"(a)", "?", ""}, {"(a).k", "?", ""}, {"([1])", "?", ""}, {"({k = 1})", "?", ""}, {"(id(a))", "?", ""}, {"(null)", "?", ""}, {"(a)[0]", "?", ""}, {"null.k", "?", ""}, {"true[0]", "?", ""}, {"(a.k).k[0]", "?", ""}, {"(1)", "none", ""}, {"(1 + 1)", "none", ""}, {"(l)[*]", "none", ""},
}

// aCtxs are contexts in which the same expression has different values.
func aCtxs() []*hcl.EvalContext {
	fns := map[string]function.Function{
		"id": function.New(&function.Spec{
			Params: []function.Parameter{{Name: "v", Type: cty.DynamicPseudoType}},
			Type:   func(args []cty.Value) (cty.Type, error) { return args[0].Type(), nil },
			Impl:   func(args []cty.Value, t cty.Type) (cty.Value, error) { return args[0], nil },
		}),
		"zero": function.New(&function.Spec{
			Type: function.StaticReturnType(cty.Number),
			Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) { return cty.Zero, nil },
		}),
		"num": function.New(&function.Spec{
			Params: []function.Parameter{{Name: "v", Type: cty.Number}},
			Type:   function.StaticReturnType(cty.Number),
			Impl:   func(args []cty.Value, t cty.Type) (cty.Value, error) { return args[0], nil },
		}),
		"cat": uBaseFns()["join2"],
	}
	n := cty.NumberIntVal
	inner := cty.ObjectVal(map[string]cty.Value{"k": cty.StringVal("k"), "a b": n(9)})
	c1 := map[string]cty.Value{
		"a": cty.ObjectVal(map[string]cty.Value{"k": inner, "a b": cty.TupleVal([]cty.Value{n(1), inner})}),
		"o": cty.ObjectVal(map[string]cty.Value{"k": n(1), "m": n(2)}),
		"l": cty.TupleVal([]cty.Value{inner, cty.StringVal("e")}),
		"x": cty.StringVal("k"), "u": cty.UnknownVal(cty.String), "if": inner,
		"null": cty.StringVal("variable null"), "true": inner,
	}
	c2 := map[string]cty.Value{
		"a": cty.TupleVal([]cty.Value{inner, n(3)}),
		"o": cty.MapVal(map[string]cty.Value{"k": cty.TupleVal([]cty.Value{n(5)})}),
		"l": cty.ListVal([]cty.Value{cty.StringVal("p"), cty.StringVal("q")}),
		"x": n(0), "u": cty.DynamicVal, "if": n(4),
	}
	c3 := map[string]cty.Value{
		"a": cty.StringVal("text"), "o": cty.DynamicVal, "l": cty.NullVal(cty.List(cty.String)), "x": cty.True, "u": cty.NullVal(cty.String),
	}
	ret := []*hcl.EvalContext{}
	for _, v := range []map[string]cty.Value{c1, c2, c3} {
		ret = append(ret, &hcl.EvalContext{Variables: v, Functions: fns})
	}
	// The second one is spread over two scopes.
	child := ret[1].NewChild()
	child.Variables = map[string]cty.Value{"a": c2["a"], "x": c2["x"]}
	ret[1].Variables["a"] = cty.StringVal("hidden")
	ret[1] = child
	return ret
}

// aCheck takes an expression apart in every way and compares the parts with
// the whole.
type aCheck struct {
	r     *fw.Rec
	desc  string
	src   string // of the file
	ctxs  []*hcl.EvalContext
	iter  bool // some variables come from the expression itself
	json  bool // strings are templates, not references
	depth int
}

func (c *aCheck) diags(op string, diags hcl.Diagnostics, ok bool) {
	if ok {
		if len(diags) > 0 {
			c.r.Failf("ok-diags", "%s: %s succeeds with messages: %s", c.desc, op, diagsStr(diags))
		}
		return
	}
	if !diags.HasErrors() {
		c.r.Failf("no-diags", "%s: %s fails without an error", c.desc, op)
	}
	for _, d := range diags {
		if m := badDiag(d, 0, len(c.src)); m != "" {
			c.r.Failf("diag", "%s: %s: %s", c.desc, op, m)
		}
	}
}

// run checks expr and its parts; kind is the way it can be taken apart, trav
// its traversal if that is known.
func (c *aCheck) run(expr hcl.Expression, kind, trav string) {
	c.r.Op(1)
	if c.depth > 6 {
		return
	}
	c.depth++
	defer func() { c.depth-- }()
	can := func(op string, ok bool, wants ...string) {
		if kind == "?" {
			return
		}
		want := false
		for _, w := range wants {
			want = want || w == kind
		}
		if ok != want {
			c.r.Failf("decision", "%s: %s of %s is possible: %v", c.desc, op, c.text(expr), ok)
		}
	}

	list, diags := hcl.ExprList(expr)
	ok := !diags.HasErrors()
	can("list", ok, "list")
	c.diags("list", diags, ok)
	if ok {
		for _, ctx := range c.ctxs {
			c.r.Trace()
			whole, wd := expr.Value(ctx)
			vals := []cty.Value{}
			bad := false
			for _, p := range list {
				v, ds := p.Value(ctx)
				bad = bad || ds.HasErrors()
				vals = append(vals, v)
			}
			c.same("list", expr, whole, wd, cty.TupleVal(vals), bad)
		}
		for _, p := range list {
			c.run(p, "?", "")
		}
	}

	pairs, diags := hcl.ExprMap(expr)
	ok = !diags.HasErrors()
	can("map", ok, "map")
	c.diags("map", diags, ok)
	if ok {
		for _, ctx := range c.ctxs {
			c.r.Trace()
			whole, wd := expr.Value(ctx)
			vals := map[string]cty.Value{}
			bad, unk := false, false
			for _, p := range pairs {
				k, ds := p.Key.Value(ctx)
				bad = bad || ds.HasErrors()
				v, ds := p.Value.Value(ctx)
				bad = bad || ds.HasErrors()
				k, err := convert.Convert(k, cty.String)
				switch {
				case err != nil || k.IsNull():
					bad = true
				case !k.IsKnown():
					unk = true
				default:
					if _, dup := vals[k.AsString()]; dup && c.json {
						bad = true
					}
					vals[k.AsString()] = v
				}
			}
			if unk && !bad {
				if wd.HasErrors() || whole.IsKnown() {
					c.r.Failf("map-unknown", "%s: %#v (%s) with unknown keys", c.desc, whole, diagsStr(wd))
				}
				continue
			}
			c.same("map", expr, whole, wd, cty.ObjectVal(vals), bad)
		}
		for _, p := range pairs {
			c.run(p.Value, "?", "")
		}
	}

	call, diags := hcl.ExprCall(expr)
	ok = !diags.HasErrors()
	can("call", ok, "call")
	c.diags("call", diags, ok)
	if ok {
		if got := c.text2(call.NameRange); !c.json && got != call.Name {
			c.r.Failf("call-name", "%s: name range of the call is %q", c.desc, got)
		}
		if got := c.text2(call.ArgsRange); !c.json && (!strings.HasPrefix(got, "(") || !strings.HasSuffix(got, ")")) {
			c.r.Failf("call-args", "%s: argument range of the call is %q", c.desc, got)
		}
		for _, ctx := range c.ctxs {
			if c.json {
				break // the value is the text itself
			}
			c.r.Trace()
			whole, wd := expr.Value(ctx)
			var vals []cty.Value
			bad := false
			for _, p := range call.Arguments {
				v, ds := p.Value(ctx)
				bad = bad || ds.HasErrors()
				vals = append(vals, v)
			}
			got := cty.DynamicVal
			if f, ok := ctxFunc(ctx, call.Name); !ok {
				bad = true
			} else {
				got, bad = callConv(f, vals, bad)
			}
			c.same("call", expr, whole, wd, got, bad)
		}
		for _, p := range call.Arguments {
			c.run(p, "?", "")
		}
	}

	t, diags := hcl.AbsTraversalForExpr(expr)
	ok = !diags.HasErrors()
	can("traversal", ok, "trav", "word")
	c.diags("traversal", diags, ok)
	rel, rdiags := hcl.RelTraversalForExpr(expr)
	kw := hcl.ExprAsKeyword(expr)
	if rdiags.HasErrors() == ok {
		c.r.Failf("rel-decision", "%s: absolute and relative traversals disagree", c.desc)
	}
	if !ok {
		if kw != "" {
			c.r.Failf("keyword-none", "%s: keyword %s of an expression that is no traversal", c.desc, kw)
		}
		return
	}
	if trav != "" && travStr(t, false) != trav {
		c.r.Failf("traversal", "%s: traversal %s instead of %s", c.desc, travStr(t, false), trav)
	}
	if t.IsRelative() || !rel.IsRelative() || len(rel) != len(t) || len(rel) > 1 && travStr(rel[1:], true) != travStr(t[1:], true) || travStr(rel[:1], false) != "."+t.RootName() {
		c.r.Failf("relative", "%s: relative traversal %s of absolute %s", c.desc, travStr(rel, false), travStr(t, false))
	}
	for i := range rel {
		if i < len(t) && rel[i].SourceRange() != t[i].SourceRange() {
			c.r.Failf("relative-range", "%s: step %d is at %s in the relative traversal and at %s in the absolute one", c.desc, i, rel[i].SourceRange(), t[i].SourceRange())
		}
	}
	if _, isRoot := t[0].(hcl.TraverseRoot); !isRoot {
		c.r.Failf("root", "%s: traversal %s has no root", c.desc, travStr(t, false))
	}
	switch {
	case len(t) == 1 && kw != t.RootName():
		c.r.Failf("keyword", "%s: keyword %q of traversal %s", c.desc, kw, travStr(t, false))
	case len(t) > 1 && kw != "":
		c.r.Failf("keyword-long", "%s: keyword %q of traversal %s", c.desc, kw, travStr(t, false))
	}
	if c.json || c.iter {
		return
	}
	if root := t.RootName(); root == "null" || root == "true" || root == "false" {
		return // as a name rather than as a literal
	}
	for _, ctx := range c.ctxs {
		c.r.Trace()
		whole, wd := expr.Value(ctx)
		got, ds := t.TraverseAbs(ctx)
		c.same("traversal", expr, whole, wd, got, ds.HasErrors())
		vars := map[string]cty.Value{}
		for _, p := range []*hcl.EvalContext{ctx.Parent(), ctx} {
			if p != nil {
				for k, v := range p.Variables {
					vars[k] = v
				}
			}
		}
		got, ds = rel.TraverseRel(cty.ObjectVal(vars))
		c.same("relative traversal", expr, whole, wd, got, ds.HasErrors())
	}
}

func ctxFunc(ctx *hcl.EvalContext, name string) (function.Function, bool) {
	for ; ctx != nil; ctx = ctx.Parent() {
		if f, ok := ctx.Functions[name]; ok {
			return f, true
		}
	}
	return function.Function{}, false
}

// callConv calls a function with its arguments converted.
func callConv(f function.Function, vals []cty.Value, bad bool) (cty.Value, bool) {
	params, vp := f.Params(), f.VarParam()
	if len(vals) < len(params) || len(vals) > len(params) && vp == nil {
		return cty.DynamicVal, true
	}
	for i := range vals {
		var p function.Parameter
		if i < len(params) {
			p = params[i]
		} else {
			p = *vp
		}
		v, err := convert.Convert(vals[i], p.Type)
		if err != nil {
			return cty.DynamicVal, true
		}
		vals[i] = v
	}
	if bad {
		return cty.DynamicVal, true
	}
	v, err := f.Call(vals)
	return v, err != nil
}

func (c *aCheck) text2(rng hcl.Range) string {
	if rng.Start.Byte < 0 || rng.End.Byte > len(c.src) || rng.Start.Byte > rng.End.Byte {
		return "outside"
	}
	return c.src[rng.Start.Byte:rng.End.Byte]
}

func (c *aCheck) text(e hcl.Expression) string { return c.text2(e.Range()) }

func (c *aCheck) same(op string, expr hcl.Expression, whole cty.Value, wd hcl.Diagnostics, parts cty.Value, bad bool) {
	if wd.HasErrors() != bad {
		c.r.Failf("parts-error", "%s: evaluating %s fails: %v, its parts as a %s: %v (%s)", c.desc, c.text(expr), wd.HasErrors(), op, bad, diagsStr(wd))
		return
	}
	if !bad && !whole.RawEquals(parts) {
		c.r.Failf("parts", "%s: %s is %#v, from its parts as a %s %#v", c.desc, c.text(expr), whole, op, parts)
	}
}

// aWrapped gives the expression of the attribute a through each wrapper.
var aWrappers = []string{"plain", "packed", "dynamic", "nested dynamic", "packed dynamic"}

func aSource(wrapper, expr string) string {
	attr := "a = " + expr + "\n"
	switch wrapper {
	case "dynamic", "packed dynamic":
		return "dynamic \"b\" {\nfor_each = [\"k\"]\niterator = i\ncontent {\n" + attr + "}\n}\n"
	case "nested dynamic":
		return "dynamic \"b\" {\nfor_each = [\"k\"]\niterator = j\ncontent {\ndynamic \"b\" {\nfor_each = [\"k\"]\niterator = i\ncontent {\n" + attr + "}\n}\n}\n}\n"
	}
	return attr
}

func aExprOf(wrapper, src string, isJSON bool) (hcl.Expression, hcl.Diagnostics) {
	var body hcl.Body
	if strings.HasPrefix(wrapper, "packed") {
		var pb *hclpack.Body
		var diags hcl.Diagnostics
		if isJSON {
			return nil, nil
		}
		pb, diags = hclpack.PackNativeFile([]byte(src), "f", hcl.Pos{Line: 1, Column: 1})
		if diags.HasErrors() {
			return nil, diags
		}
		body = pb
	} else {
		f, diags := parseAny(src, isJSON)
		if diags.HasErrors() {
			return nil, diags
		}
		body = f.Body
	}
	if strings.Contains(wrapper, "dynamic") {
		body = dynblock.Expand(body, nil)
		for i := 0; i < strings.Count(src, "for_each"); i++ {
			content, diags := body.Content(&hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "b"}}})
			if diags.HasErrors() {
				return nil, diags
			}
			body = content.Blocks[0].Body
		}
	}
	content, _, diags := body.PartialContent(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "a", Required: true}}})
	if diags.HasErrors() {
		return nil, diags
	}
	return content.Attributes["a"].Expr, nil
}

type aCase struct {
	E       aExpr
	Wrapper string
}

func runStatic(r *fw.Rec, c aCase) {
	src := aSource(c.Wrapper, c.E.Src)
	r.State(c.Wrapper, c.E.Src)
	e, diags := aExprOf(c.Wrapper, src, false)
	if diags.HasErrors() {
		r.Failf("parse", "%s: %s", src, diagsStr(diags))
		return
	}
	ck := &aCheck{r: r, desc: c.Wrapper + " " + c.E.Src, src: src, ctxs: aCtxs(), iter: strings.Contains(c.Wrapper, "dynamic")}
	ck.run(e, c.E.Kind, c.E.Trav)
}

// aJSONCase is a JSON value with the ways in which it can be taken apart.
type aJSONCase struct {
	Src     string
	Kind    string
	Trav    string `json:",omitempty"`
	Native  string `json:",omitempty"` // the expression a string contains
	Dynamic bool   `json:",omitempty"`
}

func runStaticJSON(r *fw.Rec, c aJSONCase) {
	src := `{"a": ` + c.Src + `}`
	wrapper := "plain"
	if c.Dynamic {
		src = `{"dynamic": {"b": {"for_each": ["k"], "iterator": "i", "content": {"a": ` + c.Src + `}}}}`
		wrapper = "dynamic"
	}
	r.State(src)
	e, diags := aExprOf(wrapper, src, true)
	if diags.HasErrors() {
		r.Failf("parse", "%s: %s", src, diagsStr(diags))
		return
	}
	ck := &aCheck{r: r, desc: "JSON " + wrapper + " " + c.Src, src: src, ctxs: aCtxs(), iter: true, json: true}
	ck.run(e, c.Kind, c.Trav)
	if c.Native == "" {
		return
	}
	// A call in a string is the call the string contains.
	ne, diags := hclsyntax.ParseExpression([]byte(c.Native), "n", hcl.Pos{Line: 1, Column: 1})
	if diags.HasErrors() {
		return
	}
	want, wd := hcl.ExprCall(ne)
	got, gd := hcl.ExprCall(e)
	if wd.HasErrors() != gd.HasErrors() {
		r.Failf("json-call", "JSON %s: a call: %v, natively: %v", c.Src, !gd.HasErrors(), !wd.HasErrors())
		return
	}
	if wd.HasErrors() {
		return
	}
	if got.Name != want.Name || len(got.Arguments) != len(want.Arguments) {
		r.Failf("json-call-name", "JSON %s: call of %s with %d arguments", c.Src, got.Name, len(got.Arguments))
		return
	}
	for i := range got.Arguments {
		for _, ctx := range ck.ctxs {
			gv, gd := got.Arguments[i].Value(ctx)
			wv, wd := want.Arguments[i].Value(ctx)
			if gd.HasErrors() != wd.HasErrors() || !gv.RawEquals(wv) {
				r.Failf("json-call-arg", "JSON %s: argument %d is %#v instead of %#v", c.Src, i, gv, wv)
			}
		}
	}
}

func init() {
	fw.Register(&fw.Check{
		ID: "C34",
		Assumptions: []string{
			"whether an expression in parentheses, or one indexed by a constant that is neither a whole number nor a string, can be taken apart is not judged, only that the parts agree with the whole",
			"null, true and false are also accepted as names, as documented in the code",
			"traversals in JSON and those of iterators of dynamic blocks are compared as text, since a traversal has no context of its own",
		},
		Suites: []fw.Suite{
			fw.S("traversals", "all roots of six with all sequences of at most two (thorough: three) of 22 steps, static or not, through five wrappers, in three contexts", func(t fw.Tier, yield func(aCase)) {
				for _, w := range aWrappers {
					aTraversals(fw.Pick(t, 2, 3), func(e aExpr) { yield(aCase{e, w}) })
				}
			}, runStatic),
			fw.S("expressions", "all expressions of the alphabet, and lists, maps and calls of one or two of them (quick: a seventh of the pairs), through five wrappers, in three contexts", func(t fw.Tier, yield func(aCase)) {
				all := append([]aExpr{}, aBasics...)
				aTraversals(1, func(e aExpr) { all = append(all, e) })
				all = append(all, aExpr{"i.value", "trav", "i.value"}, aExpr{"[i.value]", "list", ""}, aExpr{"{k = i.value}", "map", ""}, aExpr{"{(i.value) = i.key}", "map", ""}, aExpr{"id(i.value)", "call", ""}, aExpr{"id([i.value])", "call", ""}, aExpr{"[[i.value], {k = i.value}]", "list", ""})
				for _, w := range aWrappers {
					for _, e := range all {
						yield(aCase{e, w})
					}
					var in []aExpr
					for _, e := range all {
						if !strings.HasPrefix(e.Src, "<<") {
							in = append(in, e)
						}
					}
					for i, e := range in {
						yield(aCase{aExpr{"[" + e.Src + "]", "list", ""}, w})
						yield(aCase{aExpr{"{k = " + e.Src + "}", "map", ""}, w})
						yield(aCase{aExpr{"{(" + e.Src + ") = 1}", "map", ""}, w})
						yield(aCase{aExpr{"id(" + e.Src + ")", "call", ""}, w})
						yield(aCase{aExpr{"cat(" + e.Src + "...)", "none", ""}, w})
						yield(aCase{aExpr{"[" + e.Src + "][0]", "none", ""}, w})
						for j, f := range in {
							if t == fw.Quick && (i+2*j)%7 != 0 {
								continue
							}
							yield(aCase{aExpr{"[" + e.Src + ", " + f.Src + "]", "list", ""}, w})
							yield(aCase{aExpr{"{k = " + e.Src + ", m = " + f.Src + "}", "map", ""}, w})
							yield(aCase{aExpr{"cat(" + e.Src + ", " + f.Src + ")", "call", ""}, w})
							if t == fw.Thorough {
								yield(aCase{aExpr{"[[" + e.Src + "], " + f.Src + ", 1]", "list", ""}, w})
								yield(aCase{aExpr{"{k = {k = " + e.Src + "}, (" + f.Src + ") = 1, m = 1}", "map", ""}, w})
								yield(aCase{aExpr{"cat(id(" + e.Src + "), 1, " + f.Src + ")", "call", ""}, w})
							}
						}
					}
				}
			}, runStatic),
			fw.S("json", "JSON values: strings holding each of the native expressions, and arrays and objects of one or of two of the first 300 of these, plain and inside a dynamic block", func(t fw.Tier, yield func(aJSONCase)) {
				var vals []aJSONCase
				add := func(e aExpr) {
					c := aJSONCase{Src: jsonStr(e.Src), Native: e.Src, Kind: e.Kind}
					switch {
					case e.Kind == "trav" && !strings.Contains(e.Src, ".0"):
						c.Trav = e.Trav
					case e.Kind == "call" || e.Kind == "none":
					case e.Kind == "list" || e.Kind == "map":
						c.Kind = "none"
					default:
						c.Kind = "?"
					}
					if strings.Contains(e.Src, ".0") || e.Kind == "none" {
						c.Kind = "?"
					}
					vals = append(vals, c)
				}
				for _, e := range aBasics {
					add(e)
				}
				for _, s := range []string{`1`, `null`, `true`, `""`, `" "`, `"a b"`, `"a,"`, `"${a}"`, `"a${1}"`, `"id(a) id(a)"`, `"id(a"`, `"id(${a})"`} {
					vals = append(vals, aJSONCase{Src: s, Kind: "none"})
				}
				vals = append(vals, aJSONCase{Src: "[]", Kind: "list"}, aJSONCase{Src: "{}", Kind: "map"}, aJSONCase{Src: `"${i.value}"`, Kind: "none"})
				aTraversals(fw.Pick(t, 1, 2), add)
				for _, dyn := range []bool{false, true} {
					for i, v := range vals {
						v.Dynamic = dyn
						yield(v)
						yield(aJSONCase{Src: "[" + v.Src + "]", Kind: "list", Dynamic: dyn})
						yield(aJSONCase{Src: `{"k": ` + v.Src + `}`, Kind: "map", Dynamic: dyn})
						if v.Src[0] == '"' {
							yield(aJSONCase{Src: `{` + v.Src + `: 1}`, Kind: "map", Dynamic: dyn})
						}
						for j, w := range vals {
							if i >= 300 || j >= 300 {
								break
							}
							if t == fw.Quick && (i+j)%5 != 0 {
								continue
							}
							yield(aJSONCase{Src: "[" + v.Src + "," + w.Src + "]", Kind: "list", Dynamic: dyn})
							yield(aJSONCase{Src: `{"k": ` + v.Src + `, "${x}": ` + w.Src + `}`, Kind: "map", Dynamic: dyn})
							yield(aJSONCase{Src: `{"k": [` + v.Src + `], "m": {"n": ` + w.Src + `}}`, Kind: "map", Dynamic: dyn})
						}
					}
				}
			}, runStaticJSON),
			fw.S("mocks", "the expressions for tests: literals, variables, traversals and lists", func(t fw.Tier, yield func(int)) {
				for i := range aMocks() {
					yield(i)
				}
			}, func(r *fw.Rec, i int) {
				m := aMocks()[i]
				r.State(fmt.Sprint(i))
				ck := &aCheck{r: r, desc: fmt.Sprintf("mock %d", i), ctxs: aCtxs()}
				ck.mock(m.e, m.kind)
			}),
			fw.S("unwrap", "an expression inside at most four wrappers, each of which may refuse to be unwrapped, with every choice of the levels that are accepted", func(t fw.Tier, yield func(aWrapCase)) {
				for n := 0; n <= 4; n++ {
					for open := 0; open < 1<<uint(n); open++ {
						for accept := 0; accept < 1<<uint(n+1); accept++ {
							yield(aWrapCase{n, open, accept})
						}
					}
				}
			}, func(r *fw.Rec, c aWrapCase) {
				r.State(fmt.Sprint(c))
				r.Op(1)
				r.Trace()
				list, _ := hclsyntax.ParseExpression([]byte("[v, 1]"), "f", hcl.InitialPos)
				levels := []hcl.Expression{list} // from the inside
				for i := 0; i < c.N; i++ {
					in := levels[i]
					if c.Open>>uint(i)&1 == 0 {
						in = nil
					}
					levels = append(levels, &aWrap{hcl.StaticExpr(cty.NumberIntVal(int64(i)), hcl.Range{}), in})
				}
				level := func(e hcl.Expression) int {
					for i, l := range levels {
						if l == e {
							return i
						}
					}
					return -1
				}
				inner := c.N // the innermost level that can be reached
				want := -1
				for i := c.N; i >= 0; i-- {
					inner = i
					if c.Accept>>uint(i)&1 == 1 && want < 0 {
						want = i
					}
					if i > 0 && c.Open>>uint(i-1)&1 == 0 {
						break
					}
				}
				if got := level(hcl.UnwrapExpression(levels[c.N])); got != inner {
					r.Failf("unwrap", "%+v: unwrapped to level %d instead of %d", c, got, inner)
				}
				var asked []int
				e := hcl.UnwrapExpressionUntil(levels[c.N], func(e hcl.Expression) bool {
					l := level(e)
					asked = append(asked, l)
					return l >= 0 && c.Accept>>uint(l)&1 == 1
				})
				got := -1
				if e != nil {
					got = level(e)
				}
				if got != want || e != nil && got < 0 {
					r.Failf("until", "%+v: unwrapped to level %d instead of %d", c, got, want)
				}
				for i, l := range asked {
					if l != c.N-i {
						r.Failf("asked", "%+v: asked about the levels %v", c, asked)
						break
					}
				}
				exprs, diags := hcl.ExprList(levels[c.N])
				if diags.HasErrors() != (inner > 0) || inner == 0 && len(exprs) != 2 {
					r.Failf("list", "%+v: the list inside gives %d elements and %s", c, len(exprs), diagsStr(diags))
				}
			}),
		},
	})
}

// aWrap is an expression that wraps another one.
type aWrap struct {
	hcl.Expression
	in hcl.Expression
}

func (w *aWrap) UnwrapExpression() hcl.Expression { return w.in }

// aWrapCase is a chain of wrappers. The bits tell, from the inside, which can
// be unwrapped and which levels are accepted.
type aWrapCase struct{ N, Open, Accept int }

type aMock struct {
	e    hcl.Expression
	kind string
}

func aMocks() []aMock {
	n := cty.NumberIntVal
	lit := hcltest.MockExprLiteral
	return []aMock{
		{lit(n(1)), "none"}, {lit(cty.True), "none"}, {lit(cty.NullVal(cty.String)), "none"}, {lit(cty.DynamicVal), "none"},
		{lit(cty.TupleVal([]cty.Value{n(1), cty.StringVal("a")})), "list"}, {lit(cty.EmptyTupleVal), "list"}, {lit(cty.ListVal([]cty.Value{n(1), n(2)})), "list"},
		{lit(cty.UnknownVal(cty.List(cty.String))), "none"}, {lit(cty.NullVal(cty.List(cty.String))), "none"}, {lit(cty.SetVal([]cty.Value{n(1)})), "none"},
		{hcltest.MockExprVariable("a"), "trav"}, {hcltest.MockExprVariable("nope"), "trav"}, {hcltest.MockExprTraversalSrc("a.k.k"), "trav"}, {hcltest.MockExprTraversalSrc("l[0]"), "trav"}, {hcltest.MockExprTraversalSrc("o"), "trav"},
		{hcltest.MockExprList([]hcl.Expression{lit(n(1)), lit(n(2))}), "list"},
		{hcl.StaticExpr(cty.TupleVal([]cty.Value{n(1)}), hcl.Range{}), "none"}, {hcl.StaticExpr(cty.StringVal("a"), hcl.Range{}), "none"},
	}
}

// mock is like run, for expressions without source.
func (c *aCheck) mock(expr hcl.Expression, kind string) {
	c.r.Op(1)
	list, diags := hcl.ExprList(expr)
	if diags.HasErrors() == (kind == "list") {
		c.r.Failf("mock", "%s: a list: %v", c.desc, !diags.HasErrors())
	}
	t, diags := hcl.AbsTraversalForExpr(expr)
	if diags.HasErrors() == (kind == "trav") {
		c.r.Failf("mock", "%s: a traversal: %v", c.desc, !diags.HasErrors())
	}
	for _, ctx := range c.ctxs {
		c.r.Trace()
		whole, wd := expr.Value(ctx)
		if kind == "trav" {
			v, ds := t.TraverseAbs(ctx)
			if wd.HasErrors() != ds.HasErrors() || !wd.HasErrors() && !v.RawEquals(whole) {
				c.r.Failf("mock-traversal", "%s: %#v, by its traversal %#v", c.desc, whole, v)
			}
		}
		if kind == "list" {
			i := 0
			for it := whole.ElementIterator(); it.Next(); i++ {
				_, ev := it.Element()
				if i >= len(list) {
					break
				}
				if v, _ := list[i].Value(ctx); !v.RawEquals(ev) {
					c.r.Failf("mock-list", "%s: element %d is %#v, by itself %#v", c.desc, i, ev, v)
				}
			}
			if i != len(list) {
				c.r.Failf("mock-length", "%s: %d parts of %d", c.desc, len(list), i)
			}
		}
	}
	if _, diags := hcl.ExprMap(expr); !diags.HasErrors() {
		c.r.Failf("mock-map", "%s is a map", c.desc)
	}
	if _, diags := hcl.ExprCall(expr); !diags.HasErrors() {
		c.r.Failf("mock-call", "%s is a call", c.desc)
	}
}
