package checks

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
)

// sendSpecs sends specifications over one stream.
func sendSpecs(specs ...hcldec.Spec) (ret []hcldec.Spec, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	for _, s := range specs {
		if err := enc.Encode(&s); err != nil {
			return nil, err
		}
	}
	dec := gob.NewDecoder(&buf)
	for range specs {
		var s hcldec.Spec
		if err := dec.Decode(&s); err != nil {
			return nil, err
		}
		ret = append(ret, s)
	}
	return ret, nil
}

func gobCopy(from, to interface{}) bool {
	var buf bytes.Buffer
	return gob.NewEncoder(&buf).Encode(from) == nil && gob.NewDecoder(&buf).Decode(to) == nil
}

// plainSpec tells whether a specification is free of expressions and functions
// and of types and values that the go-cty library cannot send.
func (n *sNode) plainSpec() bool {
	if n.K == "texpr" || n.K == "tfunc" || n.K == "expr" {
		return false
	}
	switch n.K {
	case "attr", "attrs":
		var ty cty.Type
		if !gobCopy(sTypes[n.Ty], &ty) || !ty.Equals(sTypes[n.Ty]) {
			return false
		}
	case "lit":
		var v cty.Value
		if !gobCopy(sLits[n.Name], &v) || !v.RawEquals(sLits[n.Name]) {
			return false
		}
	}
	for _, x := range n.X {
		if !x.plainSpec() {
			return false
		}
	}
	return true
}

// spareLabels shows the label names of a specification with what is stored
// after them.
func spareLabels(s hcldec.Spec) (ret []string) {
	switch s := s.(type) {
	case hcldec.ObjectSpec:
		for i := range s {
			ret = append(ret, spareLabels(s[i])...)
		}
		sort.Strings(ret)
	case hcldec.TupleSpec:
		for i := range s {
			ret = append(ret, spareLabels(s[i])...)
		}
	case *hcldec.BlockSpec:
		return spareLabels(s.Nested)
	case *hcldec.BlockListSpec:
		return spareLabels(s.Nested)
	case *hcldec.BlockTupleSpec:
		return spareLabels(s.Nested)
	case *hcldec.BlockSetSpec:
		return spareLabels(s.Nested)
	case *hcldec.BlockMapSpec:
		return append(append(ret, s.LabelNames[:cap(s.LabelNames)]...), spareLabels(s.Nested)...)
	case *hcldec.BlockObjectSpec:
		return append(append(ret, s.LabelNames[:cap(s.LabelNames)]...), spareLabels(s.Nested)...)
	case *hcldec.DefaultSpec:
		return append(spareLabels(s.Primary), spareLabels(s.Default)...)
	}
	return ret
}

func schemaText(s *hcl.BodySchema) string {
	var parts []string
	for _, a := range s.Attributes {
		parts = append(parts, fmt.Sprintf("%q %v", a.Name, a.Required))
	}
	for _, b := range s.Blocks {
		parts = append(parts, fmt.Sprintf("%q %q", b.Type, b.LabelNames))
	}
	sort.Strings(parts)
	return strings.Join(parts, "; ")
}

func diagText(diags hcl.Diagnostics) string {
	var parts []string
	for _, d := range diags {
		parts = append(parts, fmt.Sprintf("%d %s; %v", d.Severity, d.Summary, d.Subject))
	}
	sort.Strings(parts)
	return strings.Join(parts, "\n")
}

func init() {
	fw.Register(&fw.Check{
		ID: "C37",
		Assumptions: []string{
			"the gob encoding of the standard library and of the types and values of the go-cty library",
			"specifications with expressions or functions, which cannot be sent, are left out, and so are types and values that the go-cty library cannot send, such as the dynamic type",
		},
		Suites: []fw.Suite{
			fw.S("specs", "all specifications of C22 without expressions and functions, sent alone and after another one, decoding every body of at most one item (thorough: two) that matters, wholly and partially", func(t fw.Tier, yield func(specCase)) {
				sSpecs(t, func(n *sNode, max int) {
					if !n.plainSpec() {
						return
					}
					n.each(fw.Pick(t, 1, min(max, 2)), func(idx []int) {
						yield(specCase{Spec: n, Items: append([]int{}, idx...)})
					})
				})
			}, func(r *fw.Rec, c specCase) {
				spec := c.Spec.spec()
				sent, err := sendSpecs(spec, spec)
				if err != nil {
					r.Failf("send", "specification %s: %s", c.Spec, err)
					return
				}
				items := c.items()
				body, src, msg := sBody(items, false)
				if body == nil {
					r.Failf("", "%q is rejected: %s", src, msg)
					return
				}
				spare := fmt.Sprint(spareLabels(spec))
				want, wantDiags := hcldec.Decode(body, spec, sCtx)
				wantP, _, wantPDiags := hcldec.PartialDecode(body, spec, sCtx)
				if now := fmt.Sprint(spareLabels(spec)); now != spare {
					r.Failf("spare", "specification %s: decoding wrote into the memory of its label names: %s was %s", c.Spec, now, spare)
				}
				for i, s := range sent {
					r.Op(1)
					r.State(c.Spec.String(), src)
					if got, want := hcldec.ImpliedType(s), hcldec.ImpliedType(spec); !got.Equals(want) {
						r.Failf("type", "specification %s (%d): type %#v after sending, %#v before", c.Spec, i, got, want)
						return
					}
					if got, want := schemaText(hcldec.ImpliedSchema(s)), schemaText(hcldec.ImpliedSchema(spec)); got != want {
						r.Failf("schema", "specification %s (%d): schema %s after sending, %s before", c.Spec, i, got, want)
						return
					}
					got, gotDiags := hcldec.Decode(body, s, sCtx)
					if !got.RawEquals(want) || diagText(gotDiags) != diagText(wantDiags) {
						r.Failf("decode", "specification %s, input %q: %#v, %v after sending, %#v, %v before", c.Spec, src, got, gotDiags, want, wantDiags)
					}
					got, _, gotDiags = hcldec.PartialDecode(body, s, sCtx)
					if !got.RawEquals(wantP) || diagText(gotDiags) != diagText(wantPDiags) {
						r.Failf("partial", "specification %s, input %q: %#v, %v after sending, %#v, %v before", c.Spec, src, got, gotDiags, wantP, wantPDiags)
					}
					r.Trace()
				}
			}),
		},
	})
}
