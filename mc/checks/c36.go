package checks

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"verif/mc/fw"
)

func tVals() []cty.Value {
	n, s := cty.NumberIntVal, cty.StringVal
	obj := func(kv ...interface{}) cty.Value {
		m := map[string]cty.Value{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1].(cty.Value)
		}
		return cty.ObjectVal(m)
	}
	base := []cty.Value{
		n(1), s("ab"), cty.True, cty.EmptyObjectVal, cty.EmptyTupleVal, cty.ListValEmpty(cty.String), cty.MapValEmpty(cty.Number),
		cty.NullVal(cty.String), cty.NullVal(cty.DynamicPseudoType), cty.NullVal(cty.List(cty.String)), cty.NullVal(cty.EmptyObject),
		cty.DynamicVal, cty.UnknownVal(cty.String), cty.UnknownVal(cty.List(cty.Number)), cty.UnknownVal(cty.Map(cty.String)), cty.UnknownVal(cty.Set(cty.String)),
		cty.UnknownVal(cty.Tuple([]cty.Type{cty.String, cty.Number})), cty.UnknownVal(cty.Object(map[string]cty.Type{"a": cty.String, "0": cty.Bool})),
		cty.SetVal([]cty.Value{n(1)}),
	}
	in := []cty.Value{
		n(5), s("x"), obj("a", n(6)), cty.TupleVal([]cty.Value{n(7)}), cty.ListVal([]cty.Value{n(8), n(9)}), cty.MapVal(map[string]cty.Value{"a": s("m"), "0": s("z")}),
		cty.NullVal(cty.String), cty.UnknownVal(cty.Number), cty.DynamicVal,
		cty.TupleVal([]cty.Value{obj("a", cty.ListVal([]cty.Value{s("deep"), s("er")}))}), obj("a", obj("a", cty.True, "b", cty.UnknownVal(cty.List(cty.String)))),
	}
	ret := base
	for _, v := range in {
		ret = append(ret, obj("a", v, "0", n(1)), cty.TupleVal([]cty.Value{v, s("second")}), cty.ListVal([]cty.Value{v, v}), cty.MapVal(map[string]cty.Value{"a": v}))
	}
	return ret
}

// tDeep is a value with n values inside each other, and those around it to
// which the steps that lead to the innermost one belong.
func tDeep(n int) (cty.Value, []int) {
	v := cty.StringVal("innermost")
	var steps []int
	for i := 0; i < n; i++ {
		switch i % 4 {
		case 0:
			v = obj("a", v, "b", cty.True)
			steps = append(steps, 0)
		case 1:
			v = cty.TupleVal([]cty.Value{cty.False, v})
			steps = append(steps, 4)
		case 2:
			v = cty.ListVal([]cty.Value{v})
			steps = append(steps, 3)
		case 3:
			v = cty.MapVal(map[string]cty.Value{"a": v})
			steps = append(steps, 5)
		}
	}
	for i, j := 0, len(steps)-1; i < j; i, j = i+1, j-1 {
		steps[i], steps[j] = steps[j], steps[i]
	}
	return v, steps
}

// tStep is a step: an attribute, or an index key.
type tStep struct {
	attr string
	key  cty.Value
}

var tSteps = []tStep{
	{attr: "a"}, {attr: "b"}, {attr: "zz"},
	{key: cty.NumberIntVal(0)}, {key: cty.NumberIntVal(1)}, {key: cty.StringVal("a")}, {key: cty.StringVal("0")}, {key: cty.NumberIntVal(2)}, {key: cty.StringVal("zz")},
	{key: cty.NumberIntVal(-1)}, {key: cty.NumberFloatVal(0.5)}, {key: cty.True}, {key: cty.StringVal("")}, {key: cty.NullVal(cty.Number)}, {key: cty.NullVal(cty.String)},
	{key: cty.UnknownVal(cty.Number)}, {key: cty.UnknownVal(cty.String)}, {key: cty.DynamicVal}, {key: cty.ListVal([]cty.Value{cty.Zero})}, {key: cty.UnknownVal(cty.Bool)},
}

// refStep looks up a step: ok is false if that is an error, judged is false if
// it depends on something unknown.
func refStep(v cty.Value, s tStep) (ret cty.Value, ok, judged bool) {
	if v.Type() == cty.DynamicPseudoType && !v.IsKnown() {
		return cty.DynamicVal, true, false
	}
	if v.IsNull() {
		return cty.DynamicVal, false, v.IsKnown()
	}
	ty := v.Type()
	if s.attr != "" {
		if !v.IsKnown() {
			return cty.DynamicVal, true, false
		}
		switch {
		case ty.IsObjectType():
			if !ty.HasAttribute(s.attr) {
				return cty.DynamicVal, false, true
			}
			return v.GetAttr(s.attr), true, true
		case ty.IsMapType():
			for it := v.ElementIterator(); it.Next(); {
				k, e := it.Element()
				if k.AsString() == s.attr {
					return e, true, true
				}
			}
		}
		return cty.DynamicVal, false, true
	}
	if !v.IsKnown() || !s.key.IsKnown() {
		return cty.DynamicVal, true, false
	}
	if s.key.IsNull() {
		return cty.DynamicVal, false, true
	}
	switch {
	case ty.IsListType() || ty.IsTupleType():
		k, err := convert.Convert(s.key, cty.Number)
		if err != nil {
			return cty.DynamicVal, false, true
		}
		i, acc := k.AsBigFloat().Int64()
		if acc != big.Exact || i < 0 {
			return cty.DynamicVal, false, true
		}
		for it := v.ElementIterator(); it.Next(); i-- {
			if _, e := it.Element(); i == 0 {
				return e, true, true
			}
		}
	case ty.IsMapType() || ty.IsObjectType():
		k, err := convert.Convert(s.key, cty.String)
		if err != nil {
			return cty.DynamicVal, false, true
		}
		for it := v.ElementIterator(); it.Next(); {
			if ek, e := it.Element(); ek.AsString() == k.AsString() {
				return e, true, true
			}
		}
	}
	return cty.DynamicVal, false, true
}

type tCase struct {
	Val   int
	Steps []int
	Deep  int `json:",omitempty"` // the depth, of a deep value
}

func runTraverse(r *fw.Rec, c tCase) {
	var val cty.Value
	if c.Deep > 0 {
		val, _ = tDeep(c.Deep)
	} else {
		val = tVals()[c.Val]
	}
	r.State(fmt.Sprintf("%#v %v", val, c.Steps))
	ctx := (&hcl.EvalContext{Variables: map[string]cty.Value{"v": val}}).NewChild().NewChild()
	ctx.Variables = map[string]cty.Value{}
	rng := func(i int) hcl.Range {
		return hcl.Range{Filename: "t", Start: hcl.Pos{Line: 1, Column: i + 1, Byte: i}, End: hcl.Pos{Line: 1, Column: i + 2, Byte: i + 1}}
	}
	src := "v"
	trav := hcl.Traversal{hcl.TraverseRoot{Name: "v", SrcRange: rng(0)}}
	path := cty.Path{}
	want, wantOK, judged := val, true, true
	for i, k := range c.Steps {
		s := tSteps[k]
		if s.attr != "" {
			src += "." + s.attr
			trav = append(trav, hcl.TraverseAttr{Name: s.attr, SrcRange: rng(i + 1)})
			path = append(path, cty.GetAttrStep{Name: s.attr})
		} else {
			name := fmt.Sprintf("k%d", i)
			ctx.Variables[name] = s.key
			src += "[" + name + "]"
			trav = append(trav, hcl.TraverseIndex{Key: s.key, SrcRange: rng(i + 1)})
			path = append(path, cty.IndexStep{Key: s.key})
		}
		if wantOK && judged {
			want, wantOK, judged = refStep(want, s)
		}
	}
	desc := func(op string) string { return fmt.Sprintf("%s with v = %#v, steps %v: %s", src, val, c.Steps, op) }
	e, diags := hclsyntax.ParseExpression([]byte(src), "e", hcl.Pos{Line: 1, Column: 1})
	if diags.HasErrors() {
		r.Failf("parse", "%s", desc(diagsStr(diags)))
		return
	}
	ev, ed := e.Value(ctx)
	if judged && (ed.HasErrors() == wantOK || wantOK && !ev.RawEquals(want)) {
		r.Failf("expr", "%s", desc(fmt.Sprintf("the expression gives %#v (%s) instead of %#v (error: %v)", ev, diagsStr(ed), want, !wantOK)))
	}
	check := func(op string, v cty.Value, ds hcl.Diagnostics) {
		r.Op(1)
		r.Trace()
		if ds.HasErrors() != ed.HasErrors() || !ds.HasErrors() && !v.RawEquals(ev) {
			r.Failf("differs", "%s", desc(fmt.Sprintf("%s gives %#v (%s), the expression %#v (%s)", op, v, diagsStr(ds), ev, diagsStr(ed))))
		}
	}
	subj := rng(5000)
	v, ds := hcl.ApplyPath(val, path, &subj)
	check("the path", v, ds)
	for _, d := range ds {
		if d.Subject == nil || *d.Subject != subj {
			r.Failf("path-subject", "%s", desc("an error of the path has not the given subject"))
		}
	}
	v, ds = hcl.ApplyPath(val, path, nil)
	check("the path without a range", v, ds)
	// Step by step with the single operations.
	cur, failed := val, hcl.Diagnostics(nil)
	for _, k := range c.Steps {
		s := tSteps[k]
		if s.attr != "" {
			cur, failed = hcl.GetAttr(cur, s.attr, nil)
		} else {
			cur, failed = hcl.Index(cur, s.key, nil)
		}
		if failed.HasErrors() {
			break
		}
	}
	check("the operations one by one", cur, failed)
	v, ds = trav.TraverseAbs(ctx)
	check("the traversal", v, ds)
	for _, d := range ds {
		if m := badDiag(d, 0, len(trav)); m != "" {
			r.Failf("diag", "%s", desc(m))
		}
	}
	v, ds = trav[1:].TraverseRel(val)
	check("the relative traversal", v, ds)
	split := trav.SimpleSplit()
	v, ds = split.Traverse(ctx)
	check("the split traversal", v, ds)
	if rv, rd := split.TraverseAbs(ctx); rd.HasErrors() || !rv.RawEquals(val) {
		r.Failf("split-abs", "%s", desc("the absolute part of the split is not the root"))
	}
	v, ds = split.TraverseRel(val)
	check("the relative part of the split", v, ds)
	if split.RootName() != "v" || trav.RootName() != "v" || trav.IsRelative() || !split.Rel.IsRelative() || split.Abs.IsRelative() {
		r.Failf("root", "%s", desc("wrong root name or kind of traversal"))
	}
	if !reflect.DeepEqual(split.Join(), trav) {
		r.Failf("join-split", "%s", desc("joining the split does not give the traversal"))
	}
	if got := trav.SourceRange(); got.Start.Byte != 0 || got.End.Byte != len(trav) {
		r.Failf("range", "%s", desc(fmt.Sprintf("range of the traversal is %v", got)))
	}
	for i := 1; i <= len(trav); i++ {
		before := travStr(trav, true)
		j := hcl.TraversalJoin(trav[:i:len(trav)], trav[i:])
		if travStr(j, true) != before {
			r.Failf("join", "%s", desc(fmt.Sprintf("cut at %d and joined: %s", i, travStr(j, true))))
		}
		j2 := hcl.TraversalJoin(trav[:i:len(trav)], hcl.Traversal{hcl.TraverseAttr{Name: "other"}})
		if travStr(j2, false) != travStr(trav[:i], false)+".other" || travStr(trav, true) != before {
			r.Failf("join-shared", "%s", desc("joining changes the traversal joined"))
		}
		v1, ds := trav[:i].TraverseAbs(ctx)
		if !ds.HasErrors() {
			v1, ds = trav[i:].TraverseRel(v1)
		}
		check(fmt.Sprintf("the traversal in parts cut at %d", i), v1, ds)
	}
	if lit, ok := tLiteral(c.Steps); ok {
		le, diags := hclsyntax.ParseExpression([]byte("v"+lit), "e", hcl.Pos{Line: 1, Column: 1})
		if diags.HasErrors() {
			r.Failf("parse-literal", "%s: %s", lit, diagsStr(diags))
			return
		}
		v, ds := le.Value(ctx)
		check("with the keys written out", v, ds)
		if pt, diags := hclsyntax.ParseTraversalAbs([]byte("v"+lit), "e", hcl.Pos{Line: 1, Column: 1}); diags.HasErrors() {
			r.Failf("parse-traversal", "%s: %s", lit, diagsStr(diags))
		} else {
			v, ds := pt.TraverseAbs(ctx)
			check("the traversal parsed", v, ds)
		}
	}
	// Neither a missing variable nor a missing context crashes.
	other := append(hcl.Traversal{hcl.TraverseRoot{Name: "w", SrcRange: rng(0)}}, trav[1:]...)
	for _, cx := range []*hcl.EvalContext{nil, {}, ctx} {
		if _, ds := other.TraverseAbs(cx); !ds.HasErrors() {
			r.Failf("no-variable", "%s", desc("a traversal of a variable that does not exist succeeds"))
		}
		if _, ds := other.SimpleSplit().Traverse(cx); !ds.HasErrors() {
			r.Failf("no-variable", "%s", desc("a split traversal of a variable that does not exist succeeds"))
		}
	}
}

// tLiteral writes the steps with literal keys.
func tLiteral(steps []int) (string, bool) {
	var b strings.Builder
	for _, k := range steps {
		s := tSteps[k]
		switch {
		case s.attr != "":
			b.WriteString("." + s.attr)
		case !s.key.IsKnown() || s.key.IsNull():
			return "", false
		case s.key.Type() == cty.String:
			fmt.Fprintf(&b, "[%q]", s.key.AsString())
		case s.key.Type() == cty.Number && s.key.AsBigFloat().IsInt() && s.key.AsBigFloat().Sign() >= 0:
			fmt.Fprintf(&b, "[%s]", s.key.AsBigFloat().Text('f', 0))
		default:
			return "", false
		}
	}
	return b.String(), true
}

func init() {
	fw.Register(&fw.Check{
		ID: "C36",
		Assumptions: []string{
			"results that depend on something unknown are compared between the interfaces only: C08 judges how they approximate the known ones",
		},
		Suites: []fw.Suite{
			fw.S("steps", "all values of the alphabet with all sequences of at most two (thorough: three) of 20 steps and of three (thorough: four) of the first 13 (thorough: nine), by path, by single operations, by absolute, relative, split, cut and parsed traversals and by expression", func(t fw.Tier, yield func(tCase)) {
				n := len(tVals())
				emit := func(ix []int) {
					steps := append([]int{}, ix...)
					for v := 0; v < n; v++ {
						yield(tCase{Val: v, Steps: steps})
					}
				}
				eachSeq(len(tSteps), 0, fw.Pick(t, 2, 3), emit)
				eachSeq(fw.Pick(t, 13, 9), fw.Pick(t, 3, 4), fw.Pick(t, 3, 4), emit)
			}, runTraverse),
		},
	})
}
