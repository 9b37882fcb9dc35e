package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
)

// nonconf says where a value does not have the wanted type. A value of
// dynamic type that is unknown or null stands for any type.
func nonconf(got, want cty.Type, path string) string {
	if got == cty.DynamicPseudoType || want == cty.DynamicPseudoType {
		return ""
	}
	bad := fmt.Sprintf("%s is %s instead of %s", path, got.FriendlyName(), want.FriendlyName())
	switch {
	case want.IsListType() && got.IsListType(), want.IsSetType() && got.IsSetType(), want.IsMapType() && got.IsMapType():
		return nonconf(got.ElementType(), want.ElementType(), path+"[]")
	case want.IsObjectType() && got.IsObjectType():
		g, w := got.AttributeTypes(), want.AttributeTypes()
		if len(g) != len(w) {
			return bad
		}
		for k, t := range w {
			if _, ok := g[k]; !ok {
				return bad
			}
			if m := nonconf(g[k], t, path+"."+k); m != "" {
				return m
			}
		}
		return ""
	case want.IsTupleType() && got.IsTupleType():
		g, w := got.TupleElementTypes(), want.TupleElementTypes()
		if len(g) != len(w) {
			return bad
		}
		for i, t := range w {
			if m := nonconf(g[i], t, fmt.Sprintf("%s[%d]", path, i)); m != "" {
				return m
			}
		}
		return ""
	}
	if !got.Equals(want) {
		return bad
	}
	return ""
}

func (s sSchema) String() string {
	var p []string
	for name, req := range s.attrs {
		p = append(p, fmt.Sprintf("%s required=%v", name, req))
	}
	for name, l := range s.blocks {
		p = append(p, fmt.Sprintf("%s{%d}", name, l))
	}
	sort.Strings(p)
	return strings.Join(p, ", ")
}

// schemaOf is the schema as a set.
func schemaOf(h *hcl.BodySchema) sSchema {
	s := sSchema{map[string]bool{}, map[string]int{}, false}
	for _, a := range h.Attributes {
		s.attrs[a.Name] = s.attrs[a.Name] || a.Required
	}
	for _, b := range h.Blocks {
		s.blocks[b.Type] = len(b.LabelNames)
	}
	return s
}

// sRange is where the value of a specification comes from: exactly there, or
// somewhere in there, or unspecified.
func (n *sNode) sRange(items []*bItem, extent [2]int, labels [][2]int) (rng [2]int, exact, ok bool) {
	switch n.K {
	case "obj", "tup":
		return extent, false, true
	case "lit", "expr":
		return extent, false, false
	case "attr":
		for _, it := range items {
			if !it.Blk && it.Name == n.Name {
				return [2]int{it.full[1] - len(it.Val), it.full[1]}, true, true
			}
		}
		return extent, false, true
	case "label":
		return labels[n.Min], true, true
	case "default", "texpr", "tfunc":
		return n.X[0].sRange(items, extent, labels)
	}
	l := n.Labels
	if len(n.X) > 0 {
		l += n.X[0].labelCount()
	}
	for _, it := range items {
		if it.Blk && it.Name == n.Name && len(it.Labels) == l {
			if n.K == "attrs" {
				return it.full, false, true
			}
			return n.X[0].sRange(it.Body, it.full, it.labels[n.Labels:])
		}
	}
	return extent, false, true
}

func sExpected(n *sNode) string { return n.schema().String() }

// badImplied says what is wrong with what a specification implies.
func badImplied(n *sNode, spec hcldec.Spec) string {
	if got, want := hcldec.ImpliedType(spec), n.ty(); !got.Equals(want) {
		return fmt.Sprintf("the implied type is %#v instead of %#v", got, want)
	}
	if got, want := schemaOf(hcldec.ImpliedSchema(spec)).String(), sExpected(n); got != want {
		return fmt.Sprintf("the implied schema is %s instead of %s", got, want)
	}
	children := hcldec.ChildBlockTypes(spec)
	nested := map[string][]*sNode{}
	n.nested(nested)
	if len(children) != len(nested) {
		return fmt.Sprintf("%d child block types instead of %d", len(children), len(nested))
	}
	for name, xs := range nested {
		c, ok := children[name]
		if !ok {
			return "no child block type " + name
		}
		if len(xs) == 1 && len(xs[0].X) == 1 {
			if got, want := schemaOf(hcldec.ImpliedSchema(c)).String(), sExpected(xs[0].X[0]); got != want {
				return fmt.Sprintf("the schema of child block type %s is %s instead of %s", name, got, want)
			}
		}
	}
	return ""
}

func checkConforms(r *fw.Rec, c specCase) {
	items := c.items()
	spec := c.Spec.spec()
	ty := c.Spec.ty()
	if len(items) == 0 {
		if m := badImplied(c.Spec, spec); m != "" {
			r.Failf("", "%s: %s", c.Spec, m)
			return
		}
	}
	var marked []*bItem
	for _, isJSON := range []bool{false, true} {
		body, src, m, msg := sBodyMarked(items, isJSON)
		if body == nil {
			r.Failf("", "%q is rejected: %s", src, msg)
			return
		}
		r.State(src)
		rng := hcldec.SourceRange(body, spec)
		r.Op(1)
		if !isJSON {
			marked = m
			if want, exact, ok := c.Spec.sRange(marked, [2]int{0, len(src)}, nil); ok {
				if rng.Filename != "t.hcl" || rng.Start.Byte > rng.End.Byte || rng.Start.Byte < want[0] || rng.End.Byte > want[1] || exact && (rng.Start.Byte != want[0] || rng.End.Byte != want[1]) {
					r.Failf("", "the source range of %s in %q is %s bytes %d-%d instead of %v", c.Spec, src, rng, rng.Start.Byte, rng.End.Byte, want)
					return
				}
			}
		} else if _, _, ok := c.Spec.sRange(marked, [2]int{0, 0}, nil); ok && sLabelsFit(c.Spec, items) {
			if rng.Filename != "t.json" || rng.Start.Byte > rng.End.Byte || rng.Start.Byte < 0 || rng.End.Byte > len(src) {
				r.Failf("", "the source range of %s in %q is %s", c.Spec, src, rng)
				return
			}
		}
		for _, ctx := range []*hcl.EvalContext{sCtx, nil} {
			got, _ := hcldec.Decode(body, spec, ctx)
			part, _, _ := hcldec.PartialDecode(body, spec, ctx)
			r.Op(2)
			for _, v := range []cty.Value{got, part} {
				if v == cty.NilVal {
					r.Failf("", "decoding %q with %s gives no value", src, c.Spec)
					return
				}
				if m := nonconf(v.Type(), ty, "the value"); m != "" {
					r.Failf(pinnedSig(c.Spec, v.Type()), "decoding %q with %s gives %#v: %s", src, c.Spec, v, m)
					return
				}
			}
		}
		r.Trace()
	}
}

// dynForms are the ways a block can be generated.
var dynForms = []string{"", "[1]", "[1, 2]", "[]", "{k = 1}", "u", "d", "nope", "null", "[u]"}

type dynSpecCase struct {
	Spec  *sNode
	Items []int
	Form  int
}

func dynSpecCases(t fw.Tier, yield func(dynSpecCase)) {
	k := 0
	sSpecs(fw.Quick, func(n *sNode, max int) {
		if len(n.schema().blocks) == 0 {
			return
		}
		k++
		n.each(fw.Pick(t, 1, min(max, 2)), func(idx []int) {
			blk := false
			for _, i := range idx {
				blk = blk || sItems[i].Blk && sItems[i].Name == "blk"
			}
			if !blk {
				return
			}
			for f := range dynForms {
				yield(dynSpecCase{n, append([]int{}, idx...), f})
			}
		})
	})
}

func checkDynConforms(r *fw.Rec, c dynSpecCase) {
	items := specCase{Spec: c.Spec, Items: c.Items}.items()
	var src string
	for _, it := range items {
		one := bNative(bClone([]*bItem{it}), bLayouts[0])
		if !it.Blk || c.Form == 0 {
			src += one
			continue
		}
		src += fmt.Sprintf("dynamic %q {\n  for_each = %s\n", it.Name, dynForms[c.Form])
		if len(it.Labels) > 0 {
			src += fmt.Sprintf("  labels = [%q", it.Labels[0])
			for _, l := range it.Labels[1:] {
				src += fmt.Sprintf(", %q", l)
			}
			src += "]\n"
		}
		src += "  content " + one[strings.Index(one, "{"):] + "}\n"
	}
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.InitialPos)
	if diags.HasErrors() {
		r.Failf("", "%q is rejected: %s", src, diagsStr(diags))
		return
	}
	r.State(src)
	spec := c.Spec.spec()
	ty := c.Spec.ty()
	body := dynblock.Expand(f.Body, sCtx)
	for _, ctx := range []*hcl.EvalContext{sCtx, nil} {
		got, _ := hcldec.Decode(body, spec, ctx)
		part, _, _ := hcldec.PartialDecode(body, spec, ctx)
		r.Op(2)
		for _, v := range []cty.Value{got, part} {
			if v == cty.NilVal {
				r.Failf("", "decoding %q with %s gives no value", src, c.Spec)
				return
			}
			if m := nonconf(v.Type(), ty, "the value"); m != "" {
				r.Failf(pinnedSig(c.Spec, v.Type()), "decoding %q with %s gives %#v: %s", src, c.Spec, v, m)
				return
			}
		}
	}
	hcldec.SourceRange(body, spec)
	hcldec.Variables(body, spec)
	r.Op(2)
	r.Trace()
}

// pinnedTypes calls f with the types the specification has if some maps of
// several labels are, as no blocks at all make them, maps of the nested type.
func (n *sNode) pinnedTypes(f func(cty.Type)) {
	var maps []*sNode
	var clone func(n *sNode) *sNode
	clone = func(n *sNode) *sNode {
		c := *n
		c.X = nil
		for _, x := range n.X {
			c.X = append(c.X, clone(x))
		}
		if c.K == "map" && c.Labels > 1 {
			maps = append(maps, &c)
		}
		return &c
	}
	root := clone(n)
	for k := 1; k < 1<<len(maps); k++ {
		for i, m := range maps {
			m.Labels = 2 - k>>i&1
		}
		f(root.ty())
	}
}

// pinnedSig recognises the known finding.
func pinnedSig(n *sNode, t cty.Type) string {
	sig := ""
	n.pinnedTypes(func(p cty.Type) {
		if nonconf(t, p, "") == "" {
			sig = "map-empty"
		}
	})
	return sig
}

func init() {
	fw.Register(&fw.Check{
		ID:          "C23",
		Assumptions: []string{"an unknown or null value of dynamic type conforms to any type"},
		Suites: []fw.Suite{
			fw.S("specs", fmt.Sprintf("the specifications and bodies of C22, without those of 3 items in the quick tier (%d specifications that read attributes, %d nested ones in each kind of block specification, combined), natively and in JSON, with and without a context: implied type, implied schema, child block types, type of the result, source range", len(sLeaves), len(sNested)),
				func(t fw.Tier, yield func(specCase)) {
					yieldSpecCases(t, func(c specCase) {
						if t == fw.Thorough || len(c.Items) < 3 {
							yield(c)
						}
					})
				}, checkConforms),
			fw.S("expanded", fmt.Sprintf("the specifications of C22 that read blocks, each with every body of one item (thorough two) in which the blocks are generated in %d ways, some of them unknown or failing", len(dynForms)),
				dynSpecCases, checkDynConforms),
		},
	})
}
