package checks

import (
	"regexp"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
	"verif/mc/ref"
)

// freeVars adds the names n reads from the surrounding scope.
func freeVars(n *ref.Node, bound map[string]bool, out map[string]bool) {
	if n == nil {
		return
	}
	switch n.K {
	case "var":
		if !bound[n.S] {
			out[n.S] = true
		}
		return
	case "for", "tfor":
		freeVars(n.X[0], bound, out)
		inner := map[string]bool{}
		for k := range bound {
			inner[k] = true
		}
		inner[n.N[0]] = true
		inner[n.N[1]] = true
		for _, x := range n.X[1:] {
			freeVars(x, inner, out)
		}
		return
	}
	for _, x := range n.X {
		freeVars(x, bound, out)
	}
}

func nameSet(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func roots(ts []hcl.Traversal) map[string]bool {
	m := map[string]bool{}
	for _, t := range ts {
		m[t.RootName()] = true
	}
	return m
}

var varSets = func() (out []map[string]cty.Value) {
	vs := []cty.Value{str("a"), num("0"), cty.True, tup(obj("a", num("1")), str("a")), obj("a", str("a"), "b", tup(num("0")))}
	for i := range vs {
		out = append(out, map[string]cty.Value{"x": vs[i], "v": vs[(i+1)%len(vs)], "k": vs[(i+3)%len(vs)], "a": vs[(i+2)%len(vs)], "b": vs[(i+3)%len(vs)], "c": tup(num("0"), num("1")), "ml": mapv("a", str("p"), "0", str("q"))})
	}
	return
}()

// checkVars compares the variables reported for e with the names in want and
// evaluates it with nothing else defined.
func checkVars(r *fw.Rec, src string, e hcl.Expression, want map[string]bool, funcs *hcl.EvalContext, text bool) {
	ts := e.Variables()
	r.Op(1)
	got := roots(ts)
	if nameSet(got) != nameSet(want) {
		r.Failf("", "%s reports the variables {%s}, want {%s}", src, nameSet(got), nameSet(want))
		return
	}
	for _, t := range ts {
		if !text {
			break
		}
		rng := t.SourceRange()
		if m := badRange(rng, 0, len(src)); m != "" {
			r.Failf("", "%s: variable %s: %s", src, t.RootName(), m)
			return
		}
		if strings.Contains(src[rng.Start.Byte:rng.End.Byte], ")") {
			continue // reaches out of a parenthesis
		}
		ae, diags := hclsyntax.ParseExpression([]byte(src[rng.Start.Byte:rng.End.Byte]), "t.hcl", rng.Start)
		again, tdiags := hcl.AbsTraversalForExpr(ae)
		if diags.HasErrors() || tdiags.HasErrors() || travStr(again, true) != travStr(t, true) {
			r.Failf("", "%s: variable %s is reported at %q", src, travStr(t, true), src[rng.Start.Byte:rng.End.Byte])
			return
		}
	}
	for _, vars := range varSets {
		full := evalWith(r, e, funcs, vars)
		some := map[string]cty.Value{}
		for k := range got {
			if v, ok := vars[k]; ok {
				some[k] = v
			}
		}
		part := evalWith(r, e, funcs, some)
		if full.ok != part.ok || full.ok && !full.v.RawEquals(part.v) || len(full.d) != len(part.d) {
			r.Failf("", "%s gives %s with all variables but %s with only the reported ones", src, full, part)
			return
		}
	}
	r.Trace()
}

var reExprSpec = regexp.MustCompile(`\bexpr `)

// refersTo tells whether items refer to variables.
func refersTo(items []*bItem) bool {
	for _, it := range items {
		if !it.Blk && strings.Contains(sValOf(it.Val).J, "${") || refersTo(it.Body) {
			return true
		}
	}
	return false
}

// checkSpecVars compares decoding with all variables to decoding with those
// reported for the body and the specification.
func checkSpecVars(r *fw.Rec, c specCase) {
	items := c.items()
	spec := c.Spec.spec()
	for _, isJSON := range []bool{false, true} {
		if isJSON && !sLabelsFit(c.Spec, items) {
			continue
		}
		body, src, msg := sBody(items, isJSON)
		if body == nil {
			r.Failf("", "%q is rejected: %s", src, msg)
			return
		}
		r.State(src, c.Spec.String())
		r.Op(1)
		got := roots(hcldec.Variables(body, spec))
		some := map[string]cty.Value{}
		for k := range got {
			if v, ok := sCtx.Variables[k]; ok {
				some[k] = v
			}
			if !strings.Contains(src, k) && !strings.Contains(c.Spec.String(), k) {
				r.Failf("", "decoding %q with %s reports the variable %s", src, c.Spec, k)
			}
		}
		full, fdiags := hcldec.Decode(body, spec, sCtx)
		if fdiags.HasErrors() {
			r.Count("erroneous", 1)
			continue
		}
		part, pdiags := hcldec.Decode(body, spec, &hcl.EvalContext{Variables: some})
		if pdiags.HasErrors() || !full.RawEquals(part) {
			r.Failf("", "decoding %q with %s, with only the reported variables {%s}: %#v %s; with all of them: %#v", src, c.Spec, nameSet(got), part, diagsStr(pdiags), full)
			return
		}
		r.Trace()
	}
}

var fnCtx = func() *hcl.EvalContext {
	return toCtx(&ref.Env{Funcs: unkEnv.Funcs}, nil)
}()

func init() {
	run := func(r *fw.Rec, c exprCase) {
		src := c.T.Print(ref.Spaced, true)
		r.State(src)
		want := map[string]bool{}
		freeVars(c.T, map[string]bool{}, want)
		e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.InitialPos)
		r.Op(1)
		if diags.HasErrors() {
			r.Failf("", "valid expression %s is rejected: %s", src, diagsStr(diags))
			return
		}
		checkVars(r, src, e, want, fnCtx, true)
	}
	fw.Register(&fw.Check{
		ID:          "C09",
		Assumptions: []string{"of a reported reference the root name and the source text are judged, not how many of the following steps it includes"},
		Suites: []fw.Suite{
			fw.S("forms", "all expressions nested two deep (thorough three deep) out of 75 forms over 8 references, two of them to names that some forms bind",
				func(t fw.Tier, yield func(exprCase)) {
					hs := holes()
					v := ref.Var
					leaves := []*ref.Node{v("x"), v("v"), ref.Attr(v("v"), "a"), ref.Idx(v("x"), ref.Num("0")), ref.Idx(v("x"), v("k")), ref.LIdx(ref.Attr(v("x"), "b"), "0"), ref.Idx(ref.Attr(v("k"), "a"), ref.Str("b")), ref.Attr(ref.Paren(v("v")), "a")}
					for _, l := range leaves {
						yield(exprCase{l})
						for _, f := range hs {
							yield(exprCase{f(l)})
							for _, g := range hs {
								yield(exprCase{g(f(l))})
							}
						}
					}
					if t == fw.Thorough {
						for _, l := range leaves[:3] {
							for _, f := range hs {
								for _, g := range hs {
									for _, h := range hs {
										yield(exprCase{h(g(f(l)))})
									}
								}
							}
						}
					}
				}, run),
			fw.S("scopes", "all for expressions over the names a and b nested two deep in body, collection or condition position, followed by outer uses",
				func(t fw.Tier, yield func(exprCase)) {
					v := ref.Var
					colls := []*ref.Node{v("a"), v("b"), v("c")}
					bodies := []*ref.Node{v("a"), v("b"), ref.Tuple(v("a"), v("x"))}
					conds := []*ref.Node{nil, ref.Bin("==", v("a"), ref.Num("0")), ref.Bin("!=", v("b"), ref.Str("a"))}
					inner := simpleFors(colls, bodies, conds, 2)
					for _, f := range inner {
						yield(exprCase{f})
						yield(exprCase{ref.Tuple(f, v("a"))})
					}
					for _, f := range []*ref.Node{
						ref.ForT("", "_", v("a"), v("_"), ref.Bin("==", v("_"), v("a"))), ref.ForT("_", "a", v("_"), ref.Tuple(v("_"), v("a")), nil),
						ref.ForO("a", "_", v("b"), v("_"), v("a"), true, nil), ref.Tmpl(ref.TFor("", "_", v("a"), ref.Body(ref.Interp(v("_")), ref.Interp(v("b"))))),
					} {
						yield(exprCase{f})
						yield(exprCase{ref.Tuple(f, v("_"))})
					}
					for _, f := range simpleFors(inner, bodies, conds[:2], 2) {
						yield(exprCase{f})
					}
					for _, f := range simpleFors(colls, inner, conds[:2], 2) {
						yield(exprCase{f})
						yield(exprCase{ref.Tuple(v("b"), f)})
					}
					for i := range inner {
						if i%5 == 0 || t == fw.Thorough {
							for _, f := range simpleFors(colls, bodies[:2], []*ref.Node{ref.Bin("==", inner[i], v("a"))}, 2) {
								yield(exprCase{f})
							}
						}
						for _, n := range []string{"a", "b"} {
							yield(exprCase{ref.Tmpl(ref.TFor("", n, inner[i], ref.Body(ref.Interp(v("a")))), ref.Interp(v("b")))})
							yield(exprCase{ref.Tmpl(ref.TFor("x", n, v("c"), ref.Body(ref.If(v(n), ref.Body(ref.Interp(inner[i])), ref.Body(ref.Interp(v("x")))))))})
						}
					}
				}, run),
			fw.S("deep scopes", "all chains of at most 4 (thorough 5) loops of three kinds over the names a, b and c, nested in one another, with uses of all names inside and after each",
				func(t fw.Tier, yield func(exprCase)) {
					v := ref.Var
					names := []string{"a", "b", "c"}
					eachSeq(9, 3, fw.Pick(t, 4, 5), func(ix []int) {
						e := ref.Tuple(v("a"), v("b"), v("c"), v("x"))
						for i := len(ix) - 1; i >= 0; i-- {
							n, coll := names[ix[i]%3], v("x")
							if i > 0 {
								coll = v(names[ix[i-1]%3])
							}
							switch ix[i] / 3 {
							case 0:
								e = ref.ForT("", n, coll, e, nil)
							case 1:
								e = ref.ForO("k", n, coll, v("k"), e, false, ref.Bin("==", v("b"), v("k")))
							default:
								e = ref.Tmpl(ref.TFor("", n, coll, ref.Body(ref.Interp(e))), ref.Interp(v("a")))
							}
							e = ref.Tuple(e, v(names[i%3]))
						}
						yield(exprCase{e})
					})
				}, run),
			fw.S("specs", "the specification/body pairs of C22 with bodies of one item (a quarter of them, thorough all: 2), natively and in JSON", func(t fw.Tier, yield func(specCase)) {
				i := 0
				sSpecs(t, func(n *sNode, max int) {
					i++
					n.each(min(max, fw.Pick(t, 2-min(1, i%4), 2)), func(idx []int) {
						c := specCase{Spec: n, Items: append([]int{}, idx...)}
						if reExprSpec.MatchString(n.String()) || refersTo(c.items()) {
							yield(c)
						}
					})
				})
			}, checkSpecVars),
			fw.S("keys", "objects with every form of key, times nested values",
				func(t fw.Tier, yield func(exprCase)) {
					v := ref.Var
					keys := []*ref.Node{ref.Key("a"), ref.Key("x"), ref.Paren(v("a")), ref.Str("a"), ref.Tmpl(ref.Lit("p"), ref.Interp(v("b"))), ref.Tmpl(ref.Interp(v("a"))), ref.Num("1"), ref.Paren(ref.Attr(v("a"), "b")), ref.Idx(v("c"), ref.Num("1")), ref.Paren(ref.Paren(v("x"))), ref.Bin("+", ref.Idx(v("c"), ref.Num("0")), v("x")), ref.Cond(v("x"), v("a"), v("b")), ref.Call("echo", v("k"))}
					vals := []*ref.Node{v("x"), ref.Num("1"), ref.Obj(ref.Key("b"), v("a")), ref.Obj(ref.Paren(v("b")), v("b"))}
					for _, k := range keys {
						for _, w := range vals {
							if k.K != "cond" {
								yield(exprCase{ref.Obj(k, w)})
							}
							for _, k2 := range keys {
								if k.K != "cond" && k2.K != "cond" {
									yield(exprCase{ref.Obj(k, w, k2, vals[0])})
									yield(exprCase{ref.ForT("", "a", ref.Tuple(ref.Num("1")), ref.Obj(k, w, k2, vals[2]), nil)})
								}
							}
						}
						if k.K == "key" {
							continue
						}
						yield(exprCase{ref.ForO("", "b", v("c"), k, v("b"), false, nil)})
						yield(exprCase{ref.ForO("a", "b", v("c"), k, v("a"), true, v("x"))})
					}
				}, run),
			fw.S("json", "all JSON values of depth 2 (thorough 3) over template strings and template property names",
				func(t fw.Tier, yield func(jsonVarCase)) {
					var leaves []jsonVarCase
					v := ref.Var
					for _, n := range []*ref.Node{
						ref.Tmpl(ref.Lit("lit")), ref.Tmpl(ref.Interp(v("x"))), ref.Tmpl(ref.Lit("p "), ref.Interp(ref.Attr(v("v"), "a"))), ref.Tmpl(ref.TFor("", "x", v("c"), ref.Body(ref.Interp(v("x"))))),
						ref.Tmpl(ref.TFor("k", "v", v("c"), ref.Body(ref.Interp(v("x")), ref.Interp(v("k")))), ref.Interp(v("k"))), ref.Tmpl(ref.If(v("a"), ref.Body(ref.Lit("q")), ref.Body(ref.Interp(v("b"))))), ref.Tmpl(ref.Interp(ref.Obj(ref.Key("x"), v("a")))),
					} {
						w := map[string]bool{}
						freeVars(n, map[string]bool{}, w)
						leaves = append(leaves, jsonVarCase{jsonStr(n.PrintTemplate(ref.Spaced)), nameSet(w)})
					}
					prims := []jsonVarCase{{"1", ""}, {"true", ""}, {"null", ""}}
					level := append(append([]jsonVarCase{}, leaves...), prims...)
					for d := 0; d < fw.Pick(t, 2, 3); d++ {
						var next []jsonVarCase
						next = append(next, jsonVarCase{"[]", ""}, jsonVarCase{"{}", ""})
						src := level
						if d > 0 && len(src) > 400 {
							src = src[:400]
						}
						for i, a := range src {
							next = append(next, jsonVarCase{"[" + a.Src + "]", a.Want})
							for j, b := range leaves {
								next = append(next, jsonVarCase{"{" + b.Src + ": " + a.Src + "}", a.Want + "," + b.Want})
								next = append(next, jsonVarCase{"[" + a.Src + ", " + b.Src + "]", a.Want + "," + b.Want})
								c := leaves[(i+j)%len(leaves)]
								next = append(next, jsonVarCase{"{" + b.Src + ": " + a.Src + ", " + `"z"` + ": " + c.Src + "}", a.Want + "," + b.Want + "," + c.Want})
							}
						}
						for _, c := range level {
							yield(c)
						}
						level = next
					}
					for _, c := range level {
						yield(c)
					}
				},
				func(r *fw.Rec, c jsonVarCase) {
					src := `{"attr": ` + c.Src + `}`
					r.State(src)
					f, diags := json.Parse([]byte(src), "t.json")
					r.Op(1)
					if diags.HasErrors() {
						r.Failf("", "%s is rejected: %s", src, diagsStr(diags))
						return
					}
					attrs, diags := f.Body.JustAttributes()
					if diags.HasErrors() || attrs["attr"] == nil {
						r.Failf("", "%s: no attribute: %s", src, diagsStr(diags))
						return
					}
					want := map[string]bool{}
					for _, n := range strings.Split(c.Want, ",") {
						if n != "" {
							want[n] = true
						}
					}
					checkVars(r, src, attrs["attr"].Expr, want, fnCtx, false)
				}),
		},
	})
}

type jsonVarCase struct{ Src, Want string }

func jsonStr(s string) string {
	b := &strings.Builder{}
	b.WriteByte('"')
	for _, c := range s {
		switch c {
		case '"', '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case '\n':
			b.WriteString(`\n`)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}
