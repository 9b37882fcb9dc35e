package checks

import (
	"fmt"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
	"verif/mc/ref"
)

var (
	strList = cty.List(cty.String)
	objA    = cty.Object(map[string]cty.Type{"a": cty.Number})
)

func unk(t cty.Type) cty.Value         { return cty.UnknownVal(t) }
func lst(v ...cty.Value) cty.Value     { return cty.ListVal(v) }
func mapv(kv ...interface{}) cty.Value { return cty.MapVal(obj(kv...).AsValueMap()) }

// knownVals are the concrete inputs.
var knownVals = []cty.Value{
	num("0"), num("1"), num("2"), str("a"), str("b"), str("1"), str("true"), str(""), cty.True, cty.False,
	null(cty.DynamicPseudoType), null(cty.String), null(cty.Number), null(cty.Bool), null(strList), null(objA), null(cty.Map(cty.String)), null(cty.Set(cty.String)), null(cty.Tuple([]cty.Type{cty.Number})), null(cty.List(objA)), null(cty.List(strList)),
	cty.ListValEmpty(cty.String), lst(str("a")), lst(str("b"), str("a")), lst(str("a"), null(cty.String)), lst(num("1")),
	lst(obj("a", num("1")), obj("a", num("2"))), cty.ListValEmpty(objA), lst(null(objA)), lst(lst(str("a"))), cty.ListValEmpty(strList),
	cty.SetValEmpty(cty.String), cty.SetVal([]cty.Value{str("a"), str("b")}),
	cty.MapValEmpty(cty.String), mapv("a", str("x")), mapv("a", str("x"), "b", str("1")), mapv("b", null(cty.String)),
	cty.EmptyTupleVal, tup(num("1")), tup(num("0")), tup(str("a"), num("1")), tup(str("b"), num("1")), tup(tup(num("1")), tup(str("a"))), tup(null(cty.DynamicPseudoType)), tup(null(cty.Number)), tup(obj("a", num("1"))),
	cty.EmptyObjectVal, obj("a", num("1")), obj("a", str("a"), "b", num("2")), obj("a", tup(num("1"), num("2"))), obj("a", null(cty.Number)), obj("a", obj("a", num("0"))),
}

// unknownVals are the inputs that stand for several concrete ones.
var unknownVals = []cty.Value{
	cty.DynamicVal, unk(cty.Number), unk(cty.String), unk(cty.Bool), unk(strList), unk(objA), unk(cty.Map(cty.String)), unk(cty.Set(cty.String)), unk(cty.Tuple([]cty.Type{cty.Number})), unk(cty.List(objA)), unk(cty.List(strList)),
	unk(cty.EmptyTuple), unk(cty.EmptyObject), unk(cty.Object(map[string]cty.Type{"a": cty.DynamicPseudoType})),
	tup(unk(cty.Number)), tup(cty.DynamicVal), tup(unk(cty.String), num("1")), tup(unk(cty.Tuple([]cty.Type{cty.Number})), cty.DynamicVal),
	tup(unk(objA)), tup(obj("a", unk(cty.Number))),
	obj("a", unk(cty.Number)), obj("a", cty.DynamicVal), obj("a", str("a"), "b", unk(cty.Number)), obj("a", tup(num("1"), unk(cty.Number))), obj("a", obj("a", unk(cty.Number))),
	lst(unk(cty.String)), lst(str("b"), unk(cty.String)), lst(obj("a", num("1")), unk(objA)), lst(obj("a", unk(cty.Number)), obj("a", num("2"))), lst(unk(strList)),
	mapv("a", unk(cty.String)), mapv("a", str("x"), "b", unk(cty.String)),
}

// standsFor tells whether the concrete input c is one that u stands for.
func standsFor(u, c cty.Value) bool {
	if u.IsWhollyKnown() {
		return u.RawEquals(c)
	}
	return covers(u, c)
}

// covers tells whether the concrete result c is one that u stands for.
func covers(u, c cty.Value) bool {
	ut, ct := u.Type(), c.Type()
	if !u.IsKnown() {
		return ut == cty.DynamicPseudoType || conforms(ct, ut)
	}
	if u.IsNull() || c.IsNull() {
		return u.IsNull() && c.IsNull() && (conforms(ct, ut) || ut == cty.DynamicPseudoType)
	}
	if ut == cty.DynamicPseudoType {
		return true
	}
	switch {
	case ut.IsPrimitiveType():
		return ct.Equals(ut) && u.RawEquals(c)
	case ut.IsTupleType():
		if !ct.IsTupleType() || ut.Length() != ct.Length() {
			return false
		}
	case ut.IsObjectType():
		if !ct.IsObjectType() || len(ut.AttributeTypes()) != len(ct.AttributeTypes()) {
			return false
		}
		for n := range ut.AttributeTypes() {
			if !ct.HasAttribute(n) || !covers(u.GetAttr(n), c.GetAttr(n)) {
				return false
			}
		}
		return true
	case ut.IsSetType():
		return conforms(ct, ut) && (!u.IsWhollyKnown() || u.RawEquals(c))
	default:
		if !conforms(ct, ut) || u.LengthInt() != c.LengthInt() {
			return false
		}
	}
	ui, ci := u.ElementIterator(), c.ElementIterator()
	for ui.Next() {
		ci.Next()
		uk, uv := ui.Element()
		ck, cv := ci.Element()
		if !uk.RawEquals(ck) || !covers(uv, cv) {
			return false
		}
	}
	return true
}

// conforms tells whether type t is covered by type u, which may contain
// dynamic types.
func conforms(t, u cty.Type) bool {
	if u == cty.DynamicPseudoType {
		return true
	}
	if t == cty.DynamicPseudoType {
		return false
	}
	switch {
	case u.IsListType() && t.IsListType(), u.IsSetType() && t.IsSetType(), u.IsMapType() && t.IsMapType():
		return conforms(t.ElementType(), u.ElementType())
	case u.IsTupleType() && t.IsTupleType():
		a, b := t.TupleElementTypes(), u.TupleElementTypes()
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !conforms(a[i], b[i]) {
				return false
			}
		}
		return true
	case u.IsObjectType() && t.IsObjectType():
		a, b := t.AttributeTypes(), u.AttributeTypes()
		if len(a) != len(b) {
			return false
		}
		for n := range a {
			if _, ok := b[n]; !ok || !conforms(a[n], b[n]) {
				return false
			}
		}
		return true
	}
	return t.Equals(u)
}

// holes are the expression forms with one operand left open.
func holes() []func(x *ref.Node) *ref.Node {
	type N = *ref.Node
	var hs []func(x N) N
	add := func(f ...func(x N) N) { hs = append(hs, f...) }
	for _, op := range []string{"-", "!"} {
		op := op
		add(func(x N) N { return ref.Un(op, x) })
	}
	for _, op := range []string{"+", "/", "%", "<", "==", "!=", "&&", "||"} {
		op := op
		k := ref.Num("1")
		if op == "&&" || op == "||" {
			k = ref.Bool(op == "||")
		}
		add(func(x N) N { return ref.Bin(op, x, k) }, func(x N) N { return ref.Bin(op, k, x) })
	}
	add(
		func(x N) N { return ref.Bin("==", x, ref.Str("a")) },
		func(x N) N { return ref.Bin("==", x, ref.Null()) },
		func(x N) N { return ref.Bin("!=", x, ref.Tuple(ref.Num("1"))) },
		func(x N) N { return ref.Cond(x, ref.Num("1"), ref.Num("2")) },
		func(x N) N { return ref.Cond(x, ref.Num("1"), ref.Str("a")) },
		func(x N) N { return ref.Cond(ref.Bool(true), x, ref.Num("1")) },
		func(x N) N { return ref.Cond(ref.Bool(false), x, ref.Num("1")) },
		func(x N) N { return ref.Cond(ref.Bool(true), ref.Str("a"), x) },
		func(x N) N { return ref.Cond(ref.Bool(false), ref.Null(), x) },
		func(x N) N { return ref.Cond(ref.Bool(true), ref.Null(), x) },
		func(x N) N { return ref.Tuple(x) },
		func(x N) N { return ref.Tuple(ref.Num("1"), x) },
		func(x N) N { return ref.Obj(ref.Key("a"), x) },
		func(x N) N { return ref.Tuple(ref.Num("1"), ref.Num("2"), x, ref.Str("a"), ref.Num("3")) },
		func(x N) N { return ref.Call("echo", ref.Num("1"), ref.Num("2"), ref.Num("3"), x, ref.Num("4")) },
		func(x N) N {
			return ref.Obj(ref.Key("a"), ref.Num("1"), ref.Key("b"), ref.Num("2"), ref.Key("c"), x, ref.Key("d"), ref.Num("3"))
		},
		func(x N) N { return ref.Obj(ref.Paren(x), ref.Num("1")) },
		func(x N) N { return ref.Obj(ref.Key("b"), ref.Num("1"), ref.Paren(x), ref.Num("2")) },
		func(x N) N { return ref.Idx(x, ref.Num("0")) },
		func(x N) N { return ref.Idx(x, ref.Str("a")) },
		func(x N) N { return ref.Idx(ref.Tuple(ref.Num("1"), ref.Num("2")), x) },
		func(x N) N { return ref.Idx(ref.Obj(ref.Key("a"), ref.Num("1"), ref.Key("b"), ref.Str("c")), x) },
		func(x N) N { return ref.Idx(ref.Var("ml"), x) },
		func(x N) N { return ref.Attr(x, "a") },
		func(x N) N { return ref.LIdx(x, "0") },
		func(x N) N { return ref.ASplat(x, ref.Item()) },
		func(x N) N { return ref.ASplat(x, ref.Attr(ref.Item(), "a")) },
		func(x N) N { return ref.FSplat(x, ref.Item()) },
		func(x N) N { return ref.FSplat(x, ref.Attr(ref.Item(), "a")) },
		func(x N) N { return ref.FSplat(x, ref.Idx(ref.Item(), ref.Num("0"))) },
		func(x N) N { return ref.FSplat(x, ref.FSplat(ref.Item(), ref.Item())) },
		func(x N) N { return ref.FSplat(ref.Tuple(ref.Num("1"), ref.Num("2")), ref.Idx(ref.Item(), x)) },
		func(x N) N { return ref.ForT("", "v", x, ref.Var("v"), nil) },
		func(x N) N { return ref.ForT("k", "v", x, ref.Tuple(ref.Var("k"), ref.Var("v")), nil) },
		func(x N) N { return ref.ForT("", "v", x, ref.Num("1"), nil) },
		func(x N) N { return ref.ForT("", "v", x, ref.Num("1"), ref.Bin("!=", ref.Var("v"), ref.Str("a"))) },
		func(x N) N { return ref.ForT("", "v", ref.Tuple(ref.Num("0"), ref.Num("1")), x, nil) },
		func(x N) N { return ref.ForT("", "v", ref.Tuple(ref.Num("0"), ref.Num("1")), ref.Var("v"), x) },
		func(x N) N { return ref.ForT("", "v", ref.Tuple(), ref.Var("v"), x) },
		func(x N) N { return ref.ForT("", "v", ref.Tuple(x, ref.Num("1")), ref.Var("v"), nil) },
		func(x N) N { return ref.ForO("k", "v", x, ref.Var("k"), ref.Var("v"), false, nil) },
		func(x N) N { return ref.ForO("k", "v", x, ref.Var("v"), ref.Num("1"), true, nil) },
		func(x N) N { return ref.ForO("k", "v", ref.Tuple(ref.Str("a")), x, ref.Var("v"), false, nil) },
		func(x N) N { return ref.ForO("k", "v", ref.Tuple(ref.Str("a")), x, ref.Var("v"), true, nil) },
		func(x N) N { return ref.ForO("k", "v", ref.Tuple(ref.Str("a")), ref.Var("v"), x, false, nil) },
		func(x N) N {
			return ref.ForO("k", "v", ref.Tuple(ref.Str("a"), ref.Str("b")), ref.Var("v"), x, true, nil)
		},
		func(x N) N { return ref.ForO("k", "v", ref.Tuple(ref.Str("a")), ref.Var("v"), ref.Num("1"), false, x) },
		func(x N) N { return ref.Call("echo", x) },
		func(x N) N { return ref.Call("echo", ref.Num("1"), x) },
		func(x N) N { return ref.CallX("echo", x) },
		func(x N) N { return ref.CallX("echo", ref.Num("1"), x) },
		func(x N) N { return ref.Call("needs", x) },
		func(x N) N { return ref.CallX("needs", x) },
		func(x N) N { return ref.Tmpl(ref.Interp(x)) },
		func(x N) N { return ref.Tmpl(ref.Lit("p"), ref.Interp(x)) },
		func(x N) N { return ref.Tmpl(ref.Interp(x), ref.Lit("p"), ref.Interp(ref.Num("1")), ref.Lit("q")) },
		func(x N) N {
			return ref.Tmpl(ref.Lit("p"), ref.Interp(ref.Num("1")), ref.Lit("q"), ref.Interp(ref.Bool(true)), ref.Lit("r"), ref.Interp(x))
		},
		func(x N) N { return ref.Tmpl(ref.Lit("p"), ref.If(x, ref.Body(ref.Lit("q")), nil)) },
		func(x N) N {
			return ref.Tmpl(ref.If(ref.Bool(true), ref.Body(ref.Interp(x)), ref.Body(ref.Lit("q"))))
		},
		func(x N) N {
			return ref.Tmpl(ref.If(ref.Bool(false), ref.Body(ref.Interp(x)), ref.Body(ref.Lit("q"))))
		},
		func(x N) N { return ref.Tmpl(ref.TFor("k", "v", x, ref.Body(ref.Interp(ref.Var("k"))))) },
		func(x N) N {
			return ref.Tmpl(ref.TFor("", "v", ref.Tuple(ref.Num("1")), ref.Body(ref.Lit("z"), ref.Interp(x))))
		},
	)
	return hs
}

var unkEnv = &ref.Env{Vars: map[string]cty.Value{"ml": mapv("a", str("p"), "0", str("q"))}, Funcs: map[string]*ref.Fn{
	"echo":  {Variadic: &ref.Param{Type: cty.DynamicPseudoType, AllowNull: true}, Impl: func(a []cty.Value) (cty.Value, bool) { return cty.TupleVal(append([]cty.Value{}, a...)), true }},
	"needs": {Params: []ref.Param{{Type: cty.String}}, Impl: func(a []cty.Value) (cty.Value, bool) { return a[0], a[0].AsString() != "b" }},
}}

type evalRes struct {
	v  cty.Value
	ok bool
	d  hcl.Diagnostics
}

func evalWith(r *fw.Rec, e hcl.Expression, base *hcl.EvalContext, vars map[string]cty.Value) (res evalRes) {
	ctx := base.NewChild()
	ctx.Variables = vars
	v, diags := e.Value(ctx)
	r.Op(1)
	return evalRes{v, !diags.HasErrors(), diags}
}

func init() {
	one := func(r *fw.Rec, c exprCase) {
		src := c.T.Print(ref.Spaced, true)
		r.State(src)
		e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.InitialPos)
		if diags.HasErrors() {
			r.Failf("", "valid expression %s is rejected: %s", src, diagsStr(diags))
			return
		}
		base := toCtx(unkEnv, nil)
		cs := make([]evalRes, len(knownVals))
		for i, v := range knownVals {
			cs[i] = evalWith(r, e, base, map[string]cty.Value{"x": v})
		}
		for _, u := range unknownVals {
			us := evalWith(r, e, base, map[string]cty.Value{"x": u})
			for i, v := range knownVals {
				if !standsFor(u, v) {
					continue
				}
				r.Trace()
				if m := contradicts(us, cs[i]); m != "" {
					sig, ok := knownUnsound(c.T, map[string]cty.Value{"x": v})
					if !ok {
						continue
					}
					r.Failf(sig, "%s with x = %#v %s; with x = %#v it gives %s", src, u, m, v, cs[i])
					if sig == "" {
						return
					}
				}
			}
		}
	}
	fw.Register(&fw.Check{
		ID:          "C08",
		Assumptions: []string{"operations of the value library on unknown values are trusted", "collections of an unknown element type and sets with unknown elements are not among the inputs"},
		Suites: []fw.Suite{
			fw.S("single", "all expressions nested two deep (thorough three deep) out of 80 forms over one input: 32 partly or wholly unknown inputs against all of 51 concrete ones they stand for",
				func(t fw.Tier, yield func(exprCase)) {
					hs := holes()
					x := ref.Var("x")
					yield(exprCase{x})
					for _, f := range hs {
						yield(exprCase{f(x)})
						for _, g := range hs {
							yield(exprCase{g(f(x))})
						}
					}
					if t == fw.Thorough {
						for _, f := range hs {
							for _, g := range hs {
								for _, h := range hs {
									yield(exprCase{h(g(f(x)))})
								}
							}
						}
					}
				}, one),
			fw.S("pairs", "all two-input forms with both inputs partly or wholly unknown against all concrete pairs they stand for",
				func(t fw.Tier, yield func(exprCase)) {
					x, y := ref.Var("x"), ref.Var("y")
					es := []*ref.Node{
						ref.Bin("+", x, y), ref.Bin("<", x, y), ref.Bin("==", x, y), ref.Bin("!=", x, y), ref.Bin("&&", x, y), ref.Bin("||", x, y), ref.Bin("/", x, y),
						ref.Cond(x, y, ref.Num("1")), ref.Cond(x, ref.Str("a"), y), ref.Cond(ref.Bool(true), x, y), ref.Cond(ref.Bool(false), x, y), ref.Cond(ref.Bin("==", x, ref.Num("1")), x, y), ref.Cond(ref.Var("ub"), x, y),
						ref.Tuple(x, y), ref.Obj(ref.Paren(x), y), ref.Obj(ref.Paren(x), ref.Num("1"), ref.Paren(y), ref.Num("2")), ref.Idx(x, y), ref.Idx(ref.Tuple(x, ref.Num("1")), y), ref.Idx(ref.Obj(ref.Key("a"), x), y),
						ref.FSplat(x, ref.Idx(ref.Item(), y)), ref.ForT("k", "v", x, y, nil), ref.ForT("k", "v", x, ref.Var("v"), y), ref.ForT("k", "v", x, ref.Idx(y, ref.Var("k")), nil),
						ref.ForT("k", "v", x, ref.Var("k"), ref.Bin("==", ref.Var("v"), y)), ref.ForO("k", "v", x, y, ref.Var("v"), false, nil), ref.ForO("k", "v", x, y, ref.Var("v"), true, nil), ref.ForO("k", "v", x, ref.Var("k"), y, false, nil), ref.ForO("k", "v", x, ref.Var("k"), ref.Num("1"), true, y),
						ref.Call("echo", x, y), ref.CallX("echo", x, y), ref.CallX("needs", x, y), ref.Tmpl(ref.Interp(x), ref.Interp(y)), ref.Tmpl(ref.If(x, ref.Body(ref.Interp(y)), ref.Body(ref.Lit("n")))), ref.Tmpl(ref.TFor("", "v", x, ref.Body(ref.Interp(y), ref.Interp(ref.Var("v"))))),
						ref.ForT("", "v", ref.Tuple(x, y), ref.Var("v"), ref.Bin("!=", ref.Var("v"), ref.Str("a"))), ref.Cond(x, ref.Tuple(y), ref.Tuple(ref.Num("1"))), ref.Cond(x, ref.Obj(ref.Key("a"), y), ref.Obj(ref.Key("b"), ref.Num("1"))),
					}
					for _, e := range es {
						yield(exprCase{e})
					}
				},
				func(r *fw.Rec, c exprCase) {
					src := c.T.Print(ref.Spaced, true)
					e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.InitialPos)
					if diags.HasErrors() {
						r.Failf("", "valid expression %s is rejected: %s", src, diagsStr(diags))
						return
					}
					base := toCtx(unkEnv, nil)
					base.Variables["ub"] = unk(cty.Bool)
					var cs [][]evalRes
					for _, v := range knownVals {
						var row []evalRes
						for _, w := range knownVals {
							row = append(row, evalWith(r, e, base, map[string]cty.Value{"x": v, "y": w}))
						}
						cs = append(cs, row)
					}
					all := append(append([]cty.Value{}, unknownVals...), knownVals...)
					for _, u := range all {
						for _, w := range all {
							if u.IsWhollyKnown() && w.IsWhollyKnown() {
								continue
							}
							us := evalWith(r, e, base, map[string]cty.Value{"x": u, "y": w})
							r.State(src, u.GoString(), w.GoString())
							for i, v := range knownVals {
								if !standsFor(u, v) {
									continue
								}
								for j, z := range knownVals {
									if !standsFor(w, z) {
										continue
									}
									r.Trace()
									if m := contradicts(us, cs[i][j]); m != "" {
										sig, ok := knownUnsound(c.T, map[string]cty.Value{"x": v, "y": z, "ub": cty.True})
										if !ok {
											continue
										}
										if hasEquality(c.T) && (nestedDynamic(u) || nestedDynamic(w)) {
											sig = "equality-nested-dynamic"
										}
										r.Failf(sig, "%s with x = %#v, y = %#v %s; with x = %#v, y = %#v it gives %s", src, u, w, m, v, z, cs[i][j])
										if sig == "" {
											return
										}
									}
								}
							}
						}
					}
				}),
		},
	})
}

func (e evalRes) String() string {
	if !e.ok {
		return "error " + diagsStr(e.d)
	}
	return fmt.Sprintf("%#v", e.v)
}

func contradicts(u, c evalRes) string {
	if !c.ok {
		return ""
	}
	if !u.ok {
		return "fails (" + diagsStr(u.d) + ")"
	}
	if !covers(u.v, c.v) {
		return fmt.Sprintf("gives %#v", u.v)
	}
	return ""
}

// knownUnsound identifies concrete evaluations in which a splat of null gives
// an empty tuple or a conditional converts its result. ok is false if the
// evaluation drops errors, so that its outcome is not judged.
func knownUnsound(t *ref.Node, vars map[string]cty.Value) (sig string, ok bool) {
	ev := &ref.Eval{}
	o := ev.Expr(t, &ref.Env{Vars: vars, Parent: unkEnv})
	switch {
	case o.Any || ev.Dropped:
		return "", false
	case ev.NullSplat:
		return "splat-null", true
	case ev.CondConv:
		return "conditional-type", true
	}
	return "", true
}

func hasEquality(n *ref.Node) bool {
	if n == nil {
		return false
	}
	if n.S == "==" || n.S == "!=" {
		return true
	}
	for _, x := range n.X {
		if hasEquality(x) {
			return true
		}
	}
	return false
}

func nestedDynamic(v cty.Value) bool {
	return v.Type() != cty.DynamicPseudoType && v.Type().HasDynamicTypes() && !v.IsWhollyKnown()
}
