package checks

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
	"verif/mc/ref"
)

// scopeCase is a chain of contexts, outermost first: each string lists the
// names defined there ("-" for a missing map), variables before the slash.
type scopeCase struct {
	Scopes []string
	T      *ref.Node
}

func (c scopeCase) String() string {
	return strings.Join(c.Scopes, " > ") + ": " + c.T.Print(ref.Spaced, true)
}

func constFn(s string) *ref.Fn {
	return &ref.Fn{Variadic: &ref.Param{Type: cty.DynamicPseudoType, AllowNull: true}, Impl: func(args []cty.Value) (cty.Value, bool) {
		return cty.TupleVal(append([]cty.Value{cty.StringVal(s)}, args...)), true
	}}
}

func scopeEnv(scopes []string) *ref.Env {
	var env *ref.Env
	for i, s := range scopes {
		env = &ref.Env{Parent: env}
		parts := strings.Split(s, "/")
		if parts[0] != "-" {
			env.Vars = map[string]cty.Value{}
			for _, n := range parts[0] {
				env.Vars[string(n)] = obj("n", cty.StringVal(fmt.Sprintf("%c%d", n, i)), "l", tup(num("1"), cty.StringVal(fmt.Sprintf("%c%d", n, i))))
			}
		}
		if parts[1] != "-" {
			env.Funcs = map[string]*ref.Fn{}
			for _, n := range parts[1] {
				env.Funcs[string(n)] = constFn(fmt.Sprintf("%c%d", n, i))
			}
		}
	}
	return env
}

// simpleFors are the for expressions over names a and b with the given bodies
// and collections.
func simpleFors(colls, bodies, conds []*ref.Node, forms int) []*ref.Node {
	var out []*ref.Node
	for _, kv := range [][2]string{{"", "a"}, {"", "b"}, {"a", "b"}, {"b", "a"}} {
		for _, coll := range colls {
			for _, body := range bodies {
				for _, cond := range conds {
					out = append(out, ref.ForT(kv[0], kv[1], coll, body, cond))
					if forms > 1 {
						out = append(out, ref.ForO(kv[0], kv[1], coll, ref.Tmpl(ref.Lit("k"), ref.Interp(ref.Idx(ref.Var("c"), ref.Num("0")))), body, true, cond))
					}
					if forms > 2 && kv[0] != "" {
						out = append(out, ref.ForO(kv[0], kv[1], coll, ref.Tmpl(ref.Lit("k"), ref.Interp(ref.Var(kv[0]))), body, false, cond))
					}
				}
			}
		}
	}
	return out
}

var forScopeEnv = envOf([]namedVal{
	{"a", tup(tup(num("1"), num("2")), tup(num("3")))},
	{"b", tup(tup(tup(num("4"))), tup(num("5")))},
	{"c", tup(num("0"), num("1"))},
})

var callVals = []*ref.Node{
	ref.Num("1"), ref.Str("2"), ref.Str("x"), ref.Bool(true), ref.Null(), ref.Tuple(ref.Num("1"), ref.Str("2")), ref.Tuple(),
	ref.Var("list"), ref.Var("set"), ref.Var("map"), ref.Var("nulllist"), ref.Obj(ref.Key("k"), ref.Num("1")), ref.Var("undefined"), ref.Call("g", ref.Num("7")), ref.Var("nested"), ref.Var("nulls"),
}

var callFns = map[string]*ref.Fn{}

func init() {
	echo := func(args []cty.Value) (cty.Value, bool) {
		return cty.TupleVal(append([]cty.Value{}, args...)), true
	}
	p := func(t cty.Type) ref.Param { return ref.Param{Type: t} }
	pp := func(t cty.Type) *ref.Param { return &ref.Param{Type: t} }
	nn := func(t cty.Type) ref.Param { return ref.Param{Type: t, AllowNull: true} }
	callFns["g"] = &ref.Fn{Params: []ref.Param{nn(cty.DynamicPseudoType)}, Impl: func(args []cty.Value) (cty.Value, bool) { return args[0], true }}
	callFns["f0"] = &ref.Fn{Impl: echo}
	callFns["f1n"] = &ref.Fn{Params: []ref.Param{p(cty.Number)}, Impl: echo}
	callFns["f2"] = &ref.Fn{Params: []ref.Param{p(cty.String), p(cty.Number)}, Impl: echo}
	callFns["f2d"] = &ref.Fn{Params: []ref.Param{nn(cty.DynamicPseudoType), nn(cty.String)}, Impl: echo}
	callFns["fv"] = &ref.Fn{Variadic: pp(cty.String), Impl: echo}
	callFns["f1v"] = &ref.Fn{Params: []ref.Param{p(cty.Bool)}, Variadic: pp(cty.Number), Impl: echo}
	callFns["fvd"] = &ref.Fn{Variadic: &ref.Param{Type: cty.DynamicPseudoType, AllowNull: true}, Impl: echo}
	callFns["fl"] = &ref.Fn{Params: []ref.Param{p(cty.List(cty.String))}, Variadic: pp(cty.Map(cty.Number)), Impl: echo}
	callFns["f3"] = &ref.Fn{Params: []ref.Param{p(cty.Number), p(cty.String), nn(cty.DynamicPseudoType)}, Impl: echo}
	callFns["bad"] = &ref.Fn{Params: []ref.Param{p(cty.String)}, Impl: func(args []cty.Value) (cty.Value, bool) {
		return args[0], args[0].AsString() != "x"
	}}

	fw.Register(&fw.Check{
		ID:          "C07",
		Assumptions: []string{"function implementations and conversions are those of the value library", "two names of one for expression are distinct"},
		Suites: []fw.Suite{
			fw.S("scopes", "all chains of up to 3 contexts (thorough 4) with variables and functions from {missing, none, one, both} at each level, times 24 expressions",
				func(t fw.Tier, yield func(scopeCase)) {
					opts := []string{}
					for _, v := range []string{"-", "", "a", "ab"} {
						for _, f := range []string{"-", "", "f", "fg"} {
							opts = append(opts, v+"/"+f)
						}
					}
					v, at, call := ref.Var, ref.Attr, ref.Call
					exprs := []*ref.Node{
						v("a"), at(v("a"), "n"), at(v("b"), "n"), call("f"), call("g"), call("f", at(v("a"), "n")), call("g", call("f", v("b"))),
						ref.ForT("", "a", at(v("a"), "l"), v("a"), nil), ref.ForT("", "a", at(v("a"), "l"), at(v("b"), "n"), nil), ref.ForT("", "b", at(v("a"), "l"), ref.Tuple(v("a"), v("b")), nil),
						ref.ForT("b", "a", at(v("b"), "l"), call("f", v("a"), v("b")), nil), ref.ForO("k", "v", at(v("a"), "l"), v("k"), call("g", v("v")), false, nil),
						ref.Tuple(ref.ForT("", "a", at(v("a"), "l"), v("a"), nil), v("a")),
						ref.FSplat(at(v("a"), "l"), ref.Item()), ref.ASplat(v("a"), ref.Attr(ref.Item(), "n")), ref.Idx(at(v("a"), "l"), ref.Num("1")),
						ref.Tmpl(ref.Lit("<"), ref.Interp(at(v("b"), "n")), ref.TFor("", "a", at(v("a"), "l"), ref.Body(ref.Interp(v("a"))))),
						ref.Obj(ref.Tmpl(ref.Lit("k"), ref.Interp(at(v("a"), "n"))), v("b")), ref.Obj(ref.Key("a"), at(v("b"), "n")), ref.Obj(ref.Paren(at(v("a"), "n")), ref.Num("1")),
						ref.Cond(ref.Bin("==", at(v("a"), "n"), ref.Str("a1")), at(v("b"), "n"), ref.Str("z")), v("f"), call("a"), ref.CallX("f", at(v("b"), "l")),
					}
					eachSeq(len(opts), 0, fw.Pick(t, 3, 4), func(i []int) {
						var s []string
						for _, k := range i {
							s = append(s, opts[k])
						}
						for _, e := range exprs {
							yield(scopeCase{s, e})
						}
					})
				},
				func(r *fw.Rec, c scopeCase) {
					env := scopeEnv(c.Scopes)
					r.State(c.String())
					checkEval(r, c.T.Print(ref.Spaced, true), c.T, env, toCtx(env, nil))
					r.Trace()
				}),
			fw.S("forscopes", "all for expressions over the names a and b, nested two deep in body, collection, condition or key position (thorough three deep), also inside templates and followed by outer uses",
				func(t fw.Tier, yield func(exprCase)) {
					v := ref.Var
					is1 := func(n string) *ref.Node { return ref.Bin("!=", v(n), ref.Num("1")) }
					colls := []*ref.Node{v("a"), v("b"), ref.Tuple(v("a"), v("b"))}
					bodies := []*ref.Node{v("a"), v("b"), ref.Tuple(v("a"), v("b"))}
					conds := []*ref.Node{nil, is1("a"), is1("b")}
					inner := simpleFors(colls, bodies, conds, 3)
					wrap := func(f *ref.Node) {
						yield(exprCase{f})
						yield(exprCase{ref.Tuple(f, v("a"), v("b"))})
						yield(exprCase{ref.Tuple(v("a"), f)})
					}
					for _, f := range inner {
						wrap(f)
					}
					for _, f := range simpleFors(append(colls, inner...), bodies, conds[:2], 2) {
						wrap(f)
					}
					for _, f := range simpleFors(colls, inner, conds[:2], 2) {
						wrap(f)
					}
					for _, f := range simpleFors(colls, bodies, []*ref.Node{ref.Bin("==", inner[0], inner[7]), ref.Bin("!=", ref.Tuple(v("a")), inner[9]), ref.Bin("==", v("b"), inner[30])}, 3) {
						wrap(f)
					}
					for _, n := range []string{"a", "b"} {
						for _, f := range inner {
							yield(exprCase{ref.Tmpl(ref.TFor("", n, ref.Tuple(ref.Num("1"), ref.Num("2")), ref.Body(ref.TFor("a", "b", f, ref.Body(ref.Interp(v("a")))), ref.Interp(v(n)))))})
							yield(exprCase{ref.Tmpl(ref.TFor(n, "x", f, ref.Body(ref.Lit("."), ref.Interp(v(n)), ref.TFor("", n, v("c"), ref.Body(ref.Interp(v(n)))), ref.Interp(v(n)))), ref.Interp(ref.Idx(v("c"), ref.Num("1"))))})
						}
					}
					if t == fw.Thorough {
						deep := simpleFors(colls[:2], inner, conds[:2], 1)
						for _, f := range simpleFors(colls[:2], deep, conds[:1], 2) {
							yield(exprCase{f})
						}
					}
				},
				func(r *fw.Rec, c exprCase) {
					r.State(c.String())
					checkEval(r, c.T.Print(ref.Spaced, true), c.T, forScopeEnv, toCtx(forScopeEnv, nil))
					r.Trace()
				}),
			fw.S("calls", "all calls of 11 signatures with up to 3 arguments (thorough 4) out of 16, with and without expansion of the final argument",
				func(t fw.Tier, yield func(exprCase)) {
					for _, f := range []string{"f0", "f1n", "f2", "f2d", "fv", "f1v", "fvd", "fl", "f3", "bad", "g", "nosuch"} {
						eachSeq(len(callVals), 0, fw.Pick(t, 3, 4), func(i []int) {
							var args []*ref.Node
							for _, k := range i {
								args = append(args, callVals[k])
							}
							yield(exprCase{ref.Call(f, args...)})
							if len(args) > 0 {
								yield(exprCase{ref.CallX(f, args...)})
							}
							if len(args) < 3 {
								yield(exprCase{ref.Call("g", ref.Call(f, args...))})
								yield(exprCase{ref.CallX("fvd", ref.Str("p"), ref.Call(f, args...))})
							}
						})
					}
				}, runCall),
		},
	})
}

func runCall(r *fw.Rec, c exprCase) {
	r.State(c.String())
	env := envOf([]namedVal{
		{"list", cty.ListVal([]cty.Value{str("1"), str("x")})}, {"set", cty.SetVal([]cty.Value{num("3"), num("2")})},
		{"map", cty.MapVal(map[string]cty.Value{"b": str("2"), "a": str("1")})}, {"nulllist", null(cty.List(cty.String))},
		{"nulls", cty.ListVal([]cty.Value{null(cty.String), str("4"), null(cty.String)})},
		{"nested", tup(tup(str("true")), obj("k", str("5")))},
	})
	env.Funcs = callFns
	var calls []ref.CallRec
	ctx := toCtx(env, func(c ref.CallRec) { calls = append(calls, c) })
	src := c.T.Print(ref.Spaced, true)
	e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.InitialPos)
	r.Op(1)
	if diags.HasErrors() {
		r.Failf("", "valid expression %s is rejected: %s", src, diagsStr(diags))
		return
	}
	ev := &ref.Eval{}
	want := ev.Expr(c.T, env)
	if !compareOut(r, src, e, want, ctx, "") {
		return
	}
	only := func(in []ref.CallRec) (out []string) {
		for _, c := range in {
			if c.Name != "g" && c.Name != "bad" || want.OK() {
				out = append(out, fmt.Sprintf("%s%#v", c.Name, c.Args))
			}
		}
		return
	}
	if got, exp := sortedStr(only(calls)), sortedStr(only(ev.Calls)); got != exp && !want.Any {
		r.Failf("", "%s makes the calls %s, want %s", src, got, exp)
	}
	r.Trace()
}
