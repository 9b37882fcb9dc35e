package checks

import (
	"fmt"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"

	"verif/mc/fw"
)

var useItems = []string{
	"a = v\n",
	"a = [for v in l: v]\n",
	"b l {\n  a = v\n}\n",
	"dynamic \"b\" {\n  for_each = l\n  labels = [\"x${b.key}\"]\n  content {\n    a = b.value\n  }\n}\n",
	"dynamic \"b\" {\n  for_each = l\n  iterator = v\n  labels = [\"x\"]\n  content {\n    a = v.value\n    dynamic \"b\" {\n      for_each = [v.key]\n      labels = [\"y\"]\n      iterator = w\n      content {\n        a = [v.key, w.value]\n      }\n    }\n  }\n}\n",
	"function \"f\" {\n  params = [v]\n  variadic_param = w\n  result = [v, w, l]\n}\n",
	"dynamic \"b\" {\n  for_each = u\n  labels = [\"z\"]\n  content {\n    a = b.value\n  }\n}\n",
}

type useCase struct {
	Items []int
	Ctx   int
}

func useCtx(i int) *hcl.EvalContext {
	vars := map[string]cty.Value{
		"v": cty.StringVal("outer"),
		"l": cty.TupleVal([]cty.Value{cty.StringVal("p"), cty.StringVal("q")}),
		"u": cty.DynamicVal,
	}
	ctx := &hcl.EvalContext{Variables: vars}
	switch i {
	case 1:
		ctx = ctx.NewChild()
	case 2:
		ctx = ctx.NewChild()
		ctx.Variables = map[string]cty.Value{"w": cty.True}
	case 3:
		ctx = ctx.NewChild()
		ctx.Variables = map[string]cty.Value{"v": cty.True, "b": cty.Zero}
		ctx = ctx.NewChild()
	}
	return ctx
}

func runUse(r *fw.Rec, c useCase) {
	src := ""
	for _, i := range c.Items {
		src += useItems[i]
	}
	r.State(src, fmt.Sprint(c.Ctx))
	f, diags := hclsyntax.ParseConfig([]byte(src), "f", hcl.InitialPos)
	if diags.HasErrors() {
		return
	}
	ctx, tctx := useCtx(c.Ctx), useCtx(c.Ctx)
	before := ctxStr(ctx)
	check := func(what string) bool {
		r.Op(1)
		for _, x := range []*hcl.EvalContext{ctx, tctx} {
			if after := ctxStr(x); after != before {
				r.Failf("context", "%s %q makes the context %s, from %s", what, src, after, before)
				return false
			}
		}
		return true
	}
	inner := &hcldec.AttrSpec{Name: "a", Type: cty.DynamicPseudoType}
	texpr, _ := hclsyntax.ParseExpression([]byte("[for w in [v]: w]"), "t", hcl.InitialPos)
	nested := hcldec.ObjectSpec{
		"a": &hcldec.TransformExprSpec{Wrapped: inner, Expr: texpr, TransformCtx: tctx, VarName: "v"},
		"l": &hcldec.BlockLabelSpec{Index: 0, Name: "l"},
		"b": &hcldec.BlockTupleSpec{TypeName: "b", Nested: hcldec.ObjectSpec{"a": inner, "l": &hcldec.BlockLabelSpec{Index: 0, Name: "l"}}},
	}
	spec := hcldec.ObjectSpec{"a": inner, "b": &hcldec.BlockTupleSpec{TypeName: "b", Nested: nested}}
	body := dynblock.Expand(f.Body, ctx)
	hcldec.PartialDecode(body, spec, ctx)
	hcldec.Decode(body, spec, ctx)
	hcldec.ImpliedType(spec)
	if !check("decoding") {
		return
	}
	hcldec.Variables(f.Body, spec)
	dynblock.VariablesHCLDec(f.Body, spec)
	dynblock.ExpandVariablesHCLDec(f.Body, spec)
	if !check("finding the variables of") {
		return
	}
	var st struct {
		A hcl.Expression `hcl:"a,optional"`
		B []struct {
			L string      `hcl:"l,label"`
			A interface{} `hcl:"-"`
			R hcl.Body    `hcl:",remain"`
		} `hcl:"b,block"`
		R hcl.Body `hcl:",remain"`
	}
	gohcl.DecodeBody(body, ctx, &st)
	if !check("decoding") {
		return
	}
	fns, _, fdiags := userfunc.DecodeUserFunctions(f.Body, "function", func() *hcl.EvalContext { return ctx })
	if !fdiags.HasErrors() {
		for _, fn := range fns {
			fn.Call([]cty.Value{cty.StringVal("arg"), cty.True})
			fn.Call([]cty.Value{cty.StringVal("arg")})
			fn.ReturnTypeForValues([]cty.Value{cty.StringVal("arg")})
			r.Op(1)
		}
	}
	if !check("calling the functions of") {
		return
	}
	// Schemas of walks have room behind them, too.
	for _, names := range guardNames {
		s, show := guardSchema(names...)
		was := show()
		var walk func(n dynblock.WalkVariablesNode)
		walk = func(n dynblock.WalkVariablesNode) {
			_, children := n.Visit(s)
			r.Op(1)
			for _, ch := range children {
				walk(ch.Node)
			}
		}
		walk(dynblock.WalkVariables(f.Body))
		walk(dynblock.WalkExpandVariables(f.Body))
		if now := show(); now != was {
			r.Failf("schema", "walking %q with schema %v makes that %s, from %s", src, names, now, was)
			return
		}
		// And so have the warnings given to a body.
		w := &hcl.Diagnostic{Severity: hcl.DiagWarning, Summary: "w", Detail: "w"}
		guard := &hcl.Diagnostic{Severity: hcl.DiagWarning, Summary: "guard"}
		room := hcl.Diagnostics{w, guard, guard, guard}
		b := transform.BodyWithDiagnostics(f.Body, room[:1])
		b.Content(s)
		b.PartialContent(s)
		b.JustAttributes()
		r.Op(3)
		if room[0] != w || room[1] != guard || room[2] != guard || room[3] != guard {
			r.Failf("warnings", "reading %q with a warning changes what is behind the warnings given", src)
			return
		}
	}
	r.Trace()
}

func init() {
	fw.Extend("C50",
		fw.S("decoding", fmt.Sprintf("all bodies of at most 3 (thorough: 4) of %d arguments, blocks, dynamic blocks and functions, decoded, analysed and called in 4 contexts", len(useItems)), func(t fw.Tier, yield func(useCase)) {
			eachSeq(len(useItems), 0, fw.Pick(t, 3, 4), func(ix []int) {
				for c := 0; c < 4; c++ {
					yield(useCase{append([]int(nil), ix...), c})
				}
			})
		}, runUse))
}
