package checks

import (
	"fmt"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"verif/mc/fw"
	"verif/mc/ref"
)

// toCtx builds the evaluation context corresponding to an environment of the
// model.
func toCtx(env *ref.Env, record func(ref.CallRec)) *hcl.EvalContext {
	if env == nil {
		return nil
	}
	var ctx *hcl.EvalContext
	if parent := toCtx(env.Parent, record); parent != nil {
		ctx = parent.NewChild()
	} else {
		ctx = &hcl.EvalContext{}
	}
	if env.Vars != nil {
		ctx.Variables = map[string]cty.Value{}
		for k, v := range env.Vars {
			ctx.Variables[k] = v
		}
	}
	if env.Funcs != nil {
		ctx.Functions = map[string]function.Function{}
		for k, f := range env.Funcs {
			ctx.Functions[k] = f.Function(k, record)
		}
	}
	return ctx
}

// checkEval parses and evaluates src and compares the outcome with that of the
// model for t.
func checkEval(r *fw.Rec, src string, t *ref.Node, env *ref.Env, ctx *hcl.EvalContext) {
	e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.InitialPos)
	r.Op(1)
	if diags.HasErrors() {
		r.Failf("", "valid expression %s is rejected: %s", src, diagsStr(diags))
		return
	}
	ev := &ref.Eval{}
	want := ev.Expr(t, env)
	sig := ""
	if ev.WideModulo {
		sig = "modulo-wide"
	}
	compareOut(r, src, e, want, ctx, sig)
}

func compareOut(r *fw.Rec, src string, e hcl.Expression, want ref.Out, ctx *hcl.EvalContext, sig string) bool {
	got, diags := e.Value(ctx)
	r.Op(1)
	for _, d := range diags {
		if m := badDiag(d, 0, len(src)); m != "" {
			r.Failf("", "evaluating %q: %s", src, m)
			return false
		}
	}
	if got == cty.NilVal {
		r.Failf("", "%s gives no value", src)
		return false
	}
	return compareVal(r, src, got, diags, want, sig)
}

func compareVal(r *fw.Rec, src string, got cty.Value, diags hcl.Diagnostics, want ref.Out, sig string) bool {
	switch {
	case want.Any:
		r.Count("unjudged", 1)
		return true
	case want.Err:
		r.Count("errors", 1)
		if !diags.HasErrors() {
			r.Failf("", "%s gives %#v, want an error", src, got)
			return false
		}
	default:
		r.Count("values", 1)
		if diags.HasErrors() {
			r.Failf("", "%s fails, want %#v: %s", src, want.V, diagsStr(diags))
			return false
		}
		if !ref.Same(got, want.V) {
			r.Failf(sig, "%s gives %#v, want %#v", src, got, want.V)
			return false
		}
	}
	return true
}

// values lists the values that variables of the model environment take.
type namedVal struct {
	name string
	v    cty.Value
}

func envOf(vals []namedVal) *ref.Env {
	env := &ref.Env{Vars: map[string]cty.Value{}}
	for _, v := range vals {
		if _, dup := env.Vars[v.name]; dup {
			panic("duplicate " + v.name)
		}
		env.Vars[v.name] = v.v
	}
	return env
}

func varNodes(vals []namedVal) []*ref.Node {
	var ns []*ref.Node
	for _, v := range vals {
		ns = append(ns, ref.Var(v.name))
	}
	return ns
}

func num(s string) cty.Value { return ref.Parse(s) }

var _ = fmt.Sprint
