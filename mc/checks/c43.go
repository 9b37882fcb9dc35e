package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcltest"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
)

// mockSteps are the steps of references.
var mockSteps = []string{".k", ".m", "[0]", "[1]", `["k"]`, `["a b"]`}

// mockScopes are the variables of one scope.
var mockScopes = []map[string]cty.Value{
	nil,
	{},
	{"a": str("inner")},
	{"a": obj("k", tup(str("p"), obj("m", str("q"))), "m", str("r"), "a b", num("1"))},
	{"b": tup(obj("k", str("s")), str("t")), "a": cty.NullVal(cty.String)},
	{"b": lst(str("x"), str("y")), "c": cty.DynamicVal},
	{"a": cty.UnknownVal(cty.Map(cty.String)), "b": cty.MapVal(map[string]cty.Value{"k": str("mk"), "a b": str("mab")})},
}

// mockCase is a list of references, or one of them, in nested scopes, the
// outermost first.
type mockCase struct {
	Refs   []string
	List   bool
	Scopes []int
}

func mockExpr(src string) []hcl.Expression {
	ret := []hcl.Expression{hcltest.MockExprTraversalSrc(src)}
	if trav, diags := hclsyntax.ParseTraversalAbs([]byte(src), "t", hcl.InitialPos); !diags.HasErrors() {
		ret = append(ret, hcltest.MockExprTraversal(trav))
		if len(trav) == 1 {
			ret = append(ret, hcltest.MockExprVariable(src))
		}
	}
	return ret
}

// mockShow describes what an expression is.
func mockShow(e hcl.Expression, ctx *hcl.EvalContext, list bool) string {
	var b strings.Builder
	v, diags := e.Value(ctx)
	if list && !diags.HasErrors() {
		var p []string
		for it := v.ElementIterator(); it.Next(); {
			_, x := it.Element()
			p = append(p, fmt.Sprintf("%#v", x))
		}
		fmt.Fprintf(&b, "value [%s]", strings.Join(p, ", "))
	} else if diags.HasErrors() {
		b.WriteString("error")
	} else {
		fmt.Fprintf(&b, "value %#v", v)
	}
	var vars []string
	for _, t := range e.Variables() {
		vars = append(vars, travStr(t, false))
	}
	sort.Strings(vars)
	fmt.Fprintf(&b, "; variables %q", vars)
	abs, diags := hcl.AbsTraversalForExpr(e)
	fmt.Fprintf(&b, "; reference %v", diags.HasErrors())
	if !diags.HasErrors() {
		b.WriteString(" " + travStr(abs, false))
	}
	fmt.Fprintf(&b, "; keyword %q", hcl.ExprAsKeyword(e))
	elems, diags := hcl.ExprList(e)
	fmt.Fprintf(&b, "; list %v", diags.HasErrors())
	for _, x := range elems {
		b.WriteString("\n\t" + mockShow(x, ctx, false))
	}
	return b.String()
}

func runMock(r *fw.Rec, c mockCase) {
	var ctx *hcl.EvalContext
	for i, k := range c.Scopes {
		if i == 0 {
			ctx = &hcl.EvalContext{Variables: mockScopes[k]}
		} else {
			ctx = ctx.NewChild()
			ctx.Variables = mockScopes[k]
		}
	}
	src := strings.Join(c.Refs, ", ")
	if c.List {
		src = "[" + src + "]"
	}
	r.State(src, fmt.Sprint(c.Scopes))
	native, diags := hclsyntax.ParseExpression([]byte(src), "t", hcl.InitialPos)
	if diags.HasErrors() {
		r.Failf("parse", "%s: %s", src, diagsStr(diags))
		return
	}
	var mocks []hcl.Expression
	if !c.List {
		mocks = mockExpr(c.Refs[0])
	} else {
		var tys []cty.Type
		for _, s := range c.Refs {
			e, _ := hclsyntax.ParseExpression([]byte(s), "t", hcl.InitialPos)
			v, diags := e.Value(ctx)
			if !diags.HasErrors() {
				if v.Type() == cty.DynamicPseudoType {
					return
				}
				tys = append(tys, v.Type())
			}
		}
		for _, ty := range tys {
			if !ty.Equals(tys[0]) {
				return // there is no such list
			}
		}
		for k := 0; k < 2; k++ {
			elems := []hcl.Expression{}
			for _, s := range c.Refs {
				es := mockExpr(s)
				elems = append(elems, es[k*(len(es)-1)])
			}
			mocks = append(mocks, hcltest.MockExprList(elems))
		}
	}
	want := mockShow(native, ctx, c.List)
	for i, m := range mocks {
		r.Op(1)
		if got := mockShow(m, ctx, c.List); got != want {
			r.Failf("mock", "%s in the scopes %v, stand-in %d: %s instead of %s", src, c.Scopes, i, got, want)
			return
		}
	}
	r.Trace()
	// As attributes of a body.
	exprs := map[string]hcl.Expression{}
	for i, m := range mocks {
		exprs[fmt.Sprintf("m%d", i)] = m
	}
	attrs := hcltest.MockAttrs(exprs)
	body := hcltest.MockBody(&hcl.BodyContent{Attributes: attrs})
	got, diags := body.JustAttributes()
	if diags.HasErrors() || len(got) != len(exprs) {
		r.Failf("attrs", "%s: %d attributes instead of %d, %s", src, len(got), len(exprs), diagsStr(diags))
		return
	}
	for k, a := range got {
		if a.Name != k || mockShow(a.Expr, ctx, c.List) != want {
			r.Failf("attr", "%s: attribute %s is %s: %s instead of %s", src, k, a.Name, mockShow(a.Expr, ctx, c.List), want)
		}
	}
}

func init() {
	fw.Register(&fw.Check{
		ID: "C43",
		Assumptions: []string{
			"positions are not judged", "lists of values of different types are not judged, since there is no such value",
		},
		Suites: []fw.Suite{
			fw.S("references", fmt.Sprintf("all references of 4 variables and at most 3 (thorough: 4) steps out of %d, in no scope and in all nestings of one to three out of %d scopes", len(mockSteps), len(mockScopes)), func(t fw.Tier, yield func(mockCase)) {
				eachSeq(len(mockSteps), 0, fw.Pick(t, 3, 4), func(steps []int) {
					for _, root := range []string{"a", "b", "c", "d"} {
						s := root
						for _, k := range steps {
							s += mockSteps[k]
						}
						eachSeq(len(mockScopes), 0, fw.Pick(t, 2, 3), func(sc []int) {
							yield(mockCase{[]string{s}, false, append([]int{}, sc...)})
						})
					}
				})
			}, runMock),
			fw.S("lists", "all lists of at most 3 references out of 10, in all nestings of at most two scopes", func(t fw.Tier, yield func(mockCase)) {
				refs := []string{"a", "b", "c", "d", "a.k", "a.m", "b[0]", "b[1]", `b["k"]`, "a.k[1].m"}
				eachSeq(len(refs), 0, fw.Pick(t, 3, 4), func(ix []int) {
					var rs []string
					for _, i := range ix {
						rs = append(rs, refs[i])
					}
					eachSeq(len(mockScopes), 0, 2, func(sc []int) {
						yield(mockCase{rs, true, append([]int{}, sc...)})
					})
				})
			}, runMock),
		},
	})
}
