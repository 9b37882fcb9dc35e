package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"

	"verif/mc/fw"
)

// The place an error is reported at must be the place of what is wrong. Here
// each item of a body, and each argument of a call, is known to be right or
// wrong by construction, and so are the bytes to blame.

type placeCase struct {
	Items  []int
	Schema int
	Wrap   bool
}

// placeItems has the items: the text before the brace or equals sign in
// pieces, the first of them the type or name.
var placeItems = []struct {
	name   string
	labels []string
	block  bool
}{
	{"a", nil, false}, {"é", nil, false}, {"x", nil, false},
	{"x", nil, true}, {"x", []string{"l"}, true}, {"x", []string{`"m é"`, "n"}, true}, {"x", []string{"o", `"p"`, "q"}, true},
	{"y", []string{`"l"`}, true}, {"y", nil, true}, {"a", nil, true}, {"zz", []string{"l"}, true},
}

var placeSchemas = []*hcl.BodySchema{
	{Attributes: []hcl.AttributeSchema{{Name: "a"}}, Blocks: []hcl.BlockHeaderSchema{{Type: "x"}, {Type: "y", LabelNames: []string{"one"}}}},
	{Attributes: []hcl.AttributeSchema{{Name: "a", Required: true}, {Name: "é"}}, Blocks: []hcl.BlockHeaderSchema{{Type: "x", LabelNames: []string{"one"}}}},
	{Attributes: []hcl.AttributeSchema{{Name: "r", Required: true}, {Name: "s", Required: true}}, Blocks: []hcl.BlockHeaderSchema{{Type: "x", LabelNames: []string{"one", "two"}}, {Type: "y"}}},
	{Attributes: []hcl.AttributeSchema{{Name: "x"}}, Blocks: []hcl.BlockHeaderSchema{{Type: "a"}, {Type: "zz", LabelNames: []string{"l", "m"}}}},
}

type place struct {
	what   string
	lo, hi int
}

func runPlaces(r *fw.Rec, c placeCase) {
	schema := placeSchemas[c.Schema]
	var b strings.Builder
	if c.Wrap {
		b.WriteString("# é\nw {\n")
	}
	var errs []place
	seen := map[string]bool{}
	for _, i := range c.Items {
		it := placeItems[i]
		if !it.block && seen[it.name] {
			return // rejected already while parsing
		}
		b.WriteString("  ")
		nameAt := place{"name", b.Len(), b.Len() + len(it.name)}
		b.WriteString(it.name)
		if !it.block {
			seen[it.name] = true
			b.WriteString(" = 1\n")
			known := false
			for _, a := range schema.Attributes {
				known = known || a.Name == it.name
			}
			if !known {
				nameAt.what = "unsupported argument " + it.name
				errs = append(errs, nameAt)
			}
			continue
		}
		var labels []place
		for _, l := range it.labels {
			b.WriteString(" ")
			labels = append(labels, place{"extra label " + l, b.Len(), b.Len() + len(l)})
			b.WriteString(l)
		}
		b.WriteString(" ")
		brace := place{"brace with a label missing before it", b.Len(), b.Len() + 1}
		b.WriteString("{\n  }\n")
		known := false
		for _, s := range schema.Blocks {
			if s.Type != it.name {
				continue
			}
			known = true
			switch {
			case len(labels) > len(s.LabelNames):
				errs = append(errs, labels[len(s.LabelNames)])
			case len(labels) < len(s.LabelNames):
				errs = append(errs, brace)
			}
		}
		if !known {
			nameAt.what = "unsupported block " + it.name
			errs = append(errs, nameAt)
		}
	}
	if c.Wrap {
		b.WriteString("}\nv = 2\n")
	}
	src := b.String()
	f, diags := hclsyntax.ParseConfig([]byte(src), "f", hcl.Pos{Line: 1, Column: 1})
	if diags.HasErrors() {
		r.Failf("rejected", "%q: %s", src, diags)
		return
	}
	body := f.Body
	if c.Wrap {
		content, diags := body.Content(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "v"}}, Blocks: []hcl.BlockHeaderSchema{{Type: "w"}}})
		if diags.HasErrors() || len(content.Blocks) != 1 {
			r.Failf("wrapped", "%q: %s", src, diags)
			return
		}
		body = content.Blocks[0].Body
	}
	r.State(src + fmt.Sprint(c.Schema))
	miss := body.MissingItemRange()
	for _, a := range schema.Attributes {
		if a.Required && !seen[a.Name] {
			errs = append(errs, place{"missing " + a.Name, miss.Start.Byte, miss.End.Byte})
		}
	}
	_, diags = body.Content(schema)
	r.Op(1)
	r.Trace()
	judgePlaces(r, fmt.Sprintf("%q with schema %d", src, c.Schema), diags, errs)
}

// judgePlaces checks that there is one error for each of the places, which
// are at different bytes unless they are at the same one for a reason.
func judgePlaces(r *fw.Rec, desc string, diags hcl.Diagnostics, errs []place) {
	sort.SliceStable(errs, func(i, j int) bool {
		return errs[i].lo < errs[j].lo || errs[i].lo == errs[j].lo && errs[i].hi < errs[j].hi
	})
	var got []hcl.Range
	for _, d := range diags {
		if d.Severity != hcl.DiagError {
			continue
		}
		if d.Subject == nil {
			r.Failf("no-place", "%s: %s", desc, d)
			return
		}
		got = append(got, *d.Subject)
		if d.Context != nil && (d.Context.Start.Byte > d.Subject.Start.Byte || d.Context.End.Byte < d.Subject.End.Byte) {
			r.Failf("context", "%s: %s is about %s, not within %s", desc, d, d.Subject, d.Context)
		}
	}
	sort.SliceStable(got, func(i, j int) bool {
		a, b := got[i], got[j]
		return a.Start.Byte < b.Start.Byte || a.Start.Byte == b.Start.Byte && a.End.Byte < b.End.Byte
	})
	if len(got) != len(errs) {
		r.Failf("number", "%s: errors %s, expected %v", desc, diags, errs)
		return
	}
	for i, g := range got {
		e := errs[i]
		if g.Start.Byte < e.lo || g.End.Byte > e.hi {
			r.Failf("place", "%s: an error is reported at bytes %d-%d, expected in %d-%d (%s); errors are %s", desc, g.Start.Byte, g.End.Byte, e.lo, e.hi, e.what, diags)
			return
		}
	}
}

// Calls.

type callCase struct {
	Args   []int
	Expand int // length of the expanded final argument, or -1
	Params int
	Var    bool
	Type   string // parameters' type
	Fail   int    // argument which the function rejects, or -1; -2 for the call
}

var callArgs = []struct {
	src string
	bad string // which parameter type rejects it
}{
	{`1`, ""}, {`"7"`, ""}, {`"é"`, "number"}, {`[2]`, "both"}, {`1 + 2`, ""},
}

func runCallPlaces(r *fw.Rec, c callCase) {
	typ := cty.Number
	if c.Type == "string" {
		typ = cty.String
	}
	spec := &function.Spec{Type: function.StaticReturnType(cty.Number), Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
		switch {
		case c.Fail == -2:
			return cty.DynamicVal, fmt.Errorf("no")
		case c.Fail >= 0 && c.Fail < len(args):
			return cty.DynamicVal, function.NewArgErrorf(c.Fail, "not that")
		}
		return cty.NumberIntVal(int64(len(args))), nil
	}}
	for i := 0; i < c.Params; i++ {
		spec.Params = append(spec.Params, function.Parameter{Name: fmt.Sprintf("p%d", i), Type: typ})
	}
	if c.Var {
		spec.VarParam = &function.Parameter{Name: "rest", Type: typ}
	}
	bad := func(i int) bool {
		b := callArgs[i].bad
		return b == "both" || b == c.Type
	}
	var b strings.Builder
	b.WriteString("[0,\n fn(")
	callAt := b.Len() - 3
	type arg struct {
		place
		bad bool
	}
	var args []arg
	for k, i := range c.Args {
		if k > 0 {
			b.WriteString(", ")
		}
		at := b.Len()
		b.WriteString(callArgs[i].src)
		args = append(args, arg{place{fmt.Sprintf("argument %d", k), at, b.Len()}, bad(i)})
	}
	if c.Expand >= 0 {
		if len(args) > 0 {
			b.WriteString(", ")
		}
		at := b.Len()
		b.WriteString("[" + strings.Repeat("5,", c.Expand) + "]")
		for k := 0; k < c.Expand; k++ {
			args = append(args, arg{place{fmt.Sprintf("expanded argument %d", k), at, b.Len()}, false})
		}
		b.WriteString("...")
	}
	closeAt := b.Len()
	b.WriteString(")]")
	src := b.String()
	desc := fmt.Sprintf("%q with %+v", src, c)
	r.State(desc)
	var errs []place
	switch {
	case len(args) < c.Params:
		errs = append(errs, place{"missing argument", closeAt, closeAt + 1})
	case len(args) > c.Params && !c.Var:
		errs = append(errs, args[c.Params].place)
	default:
		for _, a := range args {
			if a.bad {
				errs = append(errs, a.place)
			}
		}
		if len(errs) == 0 {
			switch {
			case c.Fail == -2:
				errs = append(errs, place{"call", callAt, closeAt + 1})
			case c.Fail >= 0 && c.Fail < len(args):
				errs = append(errs, args[c.Fail].place)
			}
		}
	}
	e, diags := hclsyntax.ParseExpression([]byte(src), "f", hcl.InitialPos)
	if diags.HasErrors() {
		r.Failf("rejected", "%q: %s", src, diags)
		return
	}
	ctx := &hcl.EvalContext{Functions: map[string]function.Function{"fn": function.New(spec)}}
	_, diags = e.Value(ctx)
	r.Op(1)
	r.Trace()
	judgePlaces(r, desc, diags, errs)
	for _, d := range diags {
		if d.Expression == nil {
			continue
		}
		rng := d.Expression.Range()
		if rng.Start.Byte > d.Subject.Start.Byte || rng.End.Byte < d.Subject.End.Byte {
			r.Failf("expression", "%s: %s blames the expression at %s", desc, d, rng)
		}
	}
}

func init() {
	fw.Extend("C35",
		fw.S("body places", "all bodies of at most 3 (thorough: 4) of 11 arguments and blocks, alone and inside a block, with 4 schemas", func(t fw.Tier, yield func(placeCase)) {
			eachSeq(len(placeItems), 0, fw.Pick(t, 3, 4), func(ix []int) {
				for s := range placeSchemas {
					for _, w := range []bool{false, true} {
						yield(placeCase{append([]int{}, ix...), s, w})
					}
				}
			})
		}, runPlaces),
		fw.S("call places", "calls with at most 3 (thorough: 4) of 5 arguments and at most 2 expanded ones, of functions with 0 to 2 parameters of 2 types and with or without further ones, rejecting each argument", func(t fw.Tier, yield func(callCase)) {
			eachSeq(len(callArgs), 0, fw.Pick(t, 3, 4), func(ix []int) {
				for exp := -1; exp <= 2; exp++ {
					for p := 0; p <= 2; p++ {
						for _, v := range []bool{false, true} {
							for _, typ := range []string{"number", "string"} {
								for fail := -2; fail < len(ix)+exp; fail++ {
									yield(callCase{append([]int{}, ix...), exp, p, v, typ, fail})
								}
							}
						}
					}
				}
			})
		}, runCallPlaces),
	)
}
