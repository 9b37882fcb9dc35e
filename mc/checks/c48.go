package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"verif/mc/fw"
)

// C48: an expression is put together of parts that are each in error, by a
// name of its own, or are unknown, which suits everything.

// eForm is a way of putting parts together. The parts in first are evaluated
// before the others, which are reached only if none of these is in error and,
// when gate is set, none of them is unknown. Parts in drop may be reported.
type eForm struct {
	text  string // with @ for each part
	first []int
	gate  bool
	drop  []int
	twice bool // its other parts are evaluated more than once
}

var eForms = []eForm{
	{text: "(@)"}, {text: "-@"}, {text: "!@"}, {text: "@ + @"}, {text: "@ == @"}, {text: "@ && @"}, {text: "@ < @"}, {text: "@ || @"},
	{text: "[@, @]"}, {text: "[@, 1, @]"}, {text: "{k = @, l = @}"}, {text: "{(@) = @}"}, {text: "{(@) = 1, (@) = 2}"},
	{text: "f(@, @)"}, {text: "f(@...)"}, {text: "f(@, @...)", first: []int{1}, gate: true}, {text: "f(f(@), @)"}, {text: "@[@]"}, {text: "@.a"}, {text: "@[0]"}, {text: "@[*].a"}, {text: "@.*.a"}, {text: "@[*][@]", first: []int{0}, gate: true, twice: true},
	{text: `"${@}"`}, {text: `"a${@}b${@}"`}, {text: `"${@} ${@}"`}, {text: `"%{ if true }${@}%{ endif }${@}"`},
	{text: `"%{ if @ }${@}%{ endif }"`, first: []int{0}, gate: true}, {text: `"%{ for v in @ }${@}%{ endfor }"`, first: []int{0}, gate: true, twice: true},
	{text: `"%{ for v in [1] }${v}${@}${@}%{ endfor }${@}"`},
	{text: "[for v in @: @]", first: []int{0}, gate: true, twice: true}, {text: "[for v in [1]: @ if true]"}, {text: "[for v in [1]: @ if @]", first: []int{1}, gate: true},
	{text: "{for v in [1]: @ => @}", first: []int{0}, gate: true}, {text: "{for k, v in {a = @}: k => @...}"}, {text: "[for v in [1, 2]: @]", twice: true},
	{text: "@ ? @ : @", first: []int{0}, gate: true}, {text: "true ? @ : 1"}, {text: "false ? 1 : @"},
	{text: `{k = [@], l = {m = @}}`}, {text: "[@][0]"}, {text: "{a = @}.a"}, {text: "f([@], {a = @})"},
}

// eSlots are the numbers of parts of the forms.
func (f eForm) slots() int { return strings.Count(f.text, "@") }

// eNode is a form with its parts, or a part in error (Form -1) or an unknown
// one (Form -2).
type eNode struct {
	Form int     `json:"f"`
	Kids []eNode `json:"k,omitempty"`
}

// eUse says what is expected of the errors: each of the names is reported as
// often as counted, or, if negative, at most that often.
type eUse struct{ most, least map[string]int }

// write gives the source, and records the names. reached: the part is
// evaluated for sure; never: it may be evaluated.
func (n eNode) write(next *int, use eUse, reached bool, twice int, fns bool) (src string, errs bool, unk bool) {
	switch n.Form {
	case -2:
		return "g", false, true
	case -1:
		*next++
		name := fmt.Sprintf("u%d", *next)
		use.most[name] = twice
		if reached {
			use.least[name] = 1
		}
		if fns && *next%2 == 1 {
			return name + "()", true, false
		}
		return name, true, false
	}
	f := eForms[n.Form]
	isFirst := map[int]bool{}
	for _, i := range f.first {
		isFirst[i] = true
	}
	parts := strings.Split(f.text, "@")
	texts := make([]string, len(n.Kids))
	blocked := false
	for pass := 0; pass < 2; pass++ {
		for i, k := range n.Kids {
			if isFirst[i] != (pass == 0) {
				continue
			}
			r, tw := reached && !blocked, twice
			if f.twice && pass > 0 {
				tw *= 10
			}
			s, e, u := k.write(next, use, r, tw, fns)
			texts[i] = s
			if k.Form >= 0 {
				texts[i] = "(" + s + ")"
			}
			errs, unk = errs || e, unk || u
			if pass == 0 && (e || u || k.Form != -1) {
				// its value, if any, is not followed here
				blocked = true
			}
		}
	}
	var b strings.Builder
	for i, p := range parts {
		b.WriteString(p)
		if i < len(texts) {
			b.WriteString(texts[i])
		}
	}
	return b.String(), errs, unk
}

var eCtx = &hcl.EvalContext{
	Variables: map[string]cty.Value{"g": cty.DynamicVal},
	Functions: map[string]function.Function{"f": function.New(&function.Spec{
		Params:   []function.Parameter{{Name: "x", Type: cty.DynamicPseudoType, AllowNull: true}},
		VarParam: &function.Parameter{Name: "xs", Type: cty.DynamicPseudoType, AllowNull: true},
		Type:     function.StaticReturnType(cty.DynamicPseudoType),
		Impl:     func(a []cty.Value, t cty.Type) (cty.Value, error) { return a[0], nil },
	})},
}

var eAny = function.New(&function.Spec{
	Type: function.StaticReturnType(cty.DynamicPseudoType),
	Impl: func(a []cty.Value, t cty.Type) (cty.Value, error) { return cty.DynamicVal, nil },
})

// eJudge compares the places of errors with the names that are in error.
func eJudge(src []byte, diags hcl.Diagnostics, use eUse) string {
	got := map[string]int{}
	for _, d := range diags {
		if d.Severity != hcl.DiagError {
			continue
		}
		if d.Subject == nil {
			return "an error without a place: " + d.Error()
		}
		name := string(d.Subject.SliceBytes(src))
		if use.most[name] == 0 {
			return fmt.Sprintf("error %q (at %q) although nothing is wrong there", d.Summary+": "+d.Detail, name)
		}
		got[name]++
	}
	var names []string
	for n := range use.most {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if got[n] < use.least[n] || got[n] > use.most[n] {
			return fmt.Sprintf("%d errors are reported for %s: %s", got[n], n, diagsStr(diags))
		}
	}
	return ""
}

func newUse() eUse { return eUse{map[string]int{}, map[string]int{}} }

func runErrors(r *fw.Rec, c eNode) {
	for _, fns := range []bool{false, true} {
		n := 0
		use := newUse()
		src, _, _ := c.write(&n, use, true, 1, fns)
		r.State(src)
		e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.InitialPos)
		if diags.HasErrors() {
			r.Failf("", "valid expression %s is rejected: %s", src, diagsStr(diags))
			return
		}
		// the errors that remain when all names are defined
		known := eCtx.NewChild()
		known.Variables = map[string]cty.Value{}
		known.Functions = map[string]function.Function{"f": eCtx.Functions["f"]}
		for name := range use.most {
			known.Variables[name] = cty.DynamicVal
			known.Functions[name] = eAny
		}
		_, diags = e.Value(known)
		for _, d := range diags {
			if d.Subject != nil {
				use.most[string(d.Subject.SliceBytes([]byte(src)))] += 100
				use.least = nil
			}
		}
		_, diags = e.Value(eCtx)
		r.Op(2)
		if m := eJudge([]byte(src), diags, use); m != "" {
			r.Failf("", "%s: %s", src, m)
			return
		}
	}
	r.Trace()
}

// eItem is an item of a body, natively, with @ for names in error.
type eItem struct{ native, json string }

var eItems = []eItem{
	{"a = @\n", `"a": "${@}"`}, {"b = [@, @]\n", `"b": ["${@}", "${@}"]`},
	{"x {\n  a = @\n  b = @\n}\n", `"x": {"a": "${@}", "b": "${@}"}`},
	{"x {\n  b = \"1${@}${@}\"\n}\n", `"x": {"b": "1${@}${@}"}`},
	{"y \"l\" {\n  a = @\n  z {\n    a = @\n  }\n}\n", `"y": {"l": {"a": "${@}", "z": {"a": "${@}"}}}`},
	{"y \"m\" {\n  z {\n    a = f(@, @)\n  }\n  z {\n    a = @ + @\n  }\n}\n", `"y": {"m": {"z": [{"a": "${f(@, @)}"}, {"a": "${@ + @}"}]}}`},
	{"w {\n  p = @\n  q = {k = @}\n}\n", `"w": {"p": "${@}", "q": {"k": "${@}"}}`},
	{"a = 1\n", `"a": 1`},
}

var eInner = hcldec.ObjectSpec{
	"a": &hcldec.AttrSpec{Name: "a", Type: cty.DynamicPseudoType},
	"b": &hcldec.AttrSpec{Name: "b", Type: cty.DynamicPseudoType},
}

var eZ = &hcldec.BlockTupleSpec{TypeName: "z", Nested: &hcldec.AttrSpec{Name: "a", Type: cty.DynamicPseudoType}}

var eSpecs = []hcldec.Spec{
	hcldec.ObjectSpec{
		"a": eInner["a"], "b": eInner["b"], "x": &hcldec.BlockTupleSpec{TypeName: "x", Nested: eInner},
		"y": &hcldec.BlockObjectSpec{TypeName: "y", LabelNames: []string{"l"}, Nested: hcldec.ObjectSpec{"a": eInner["a"], "z": eZ}},
		"w": &hcldec.BlockTupleSpec{TypeName: "w", Nested: hcldec.TupleSpec{&hcldec.AttrSpec{Name: "p", Type: cty.DynamicPseudoType}, &hcldec.AttrSpec{Name: "q", Type: cty.DynamicPseudoType}}},
	},
	hcldec.TupleSpec{
		&hcldec.DefaultSpec{Primary: eInner["a"], Default: &hcldec.LiteralSpec{Value: cty.NullVal(cty.DynamicPseudoType)}}, eInner["b"],
		&hcldec.BlockTupleSpec{TypeName: "x", Nested: eInner},
		&hcldec.BlockTupleSpec{TypeName: "y", Nested: hcldec.TupleSpec{eInner["a"], eZ, &hcldec.BlockLabelSpec{Index: 0, Name: "l"}}},
		&hcldec.BlockTupleSpec{TypeName: "w", Nested: hcldec.ObjectSpec{"p": &hcldec.AttrSpec{Name: "p", Type: cty.String}, "q": &hcldec.AttrSpec{Name: "q", Type: cty.Map(cty.String)}}},
	},
}

type eGoInner struct {
	A *cty.Value `hcl:"a"`
	B *cty.Value `hcl:"b"`
}

type eGoY struct {
	L string    `hcl:"l,label"`
	A cty.Value `hcl:"a,optional"`
	Z []struct {
		A string `hcl:"a"`
	} `hcl:"z,block"`
}

type eGo struct {
	A string      `hcl:"a,optional"`
	B []string    `hcl:"b,optional"`
	X []*eGoInner `hcl:"x,block"`
	Y []eGoY      `hcl:"y,block"`
	W []struct {
		P int               `hcl:"p"`
		Q map[string]string `hcl:"q"`
	} `hcl:"w,block"`
}

func runBodyErrors(r *fw.Rec, c []int) {
	for kind := 0; kind < 4; kind++ {
		text, sep := "", ""
		for _, i := range c {
			if kind == 1 {
				text += sep + eItems[i].json
				sep = ", "
			} else {
				text += eItems[i].native
			}
		}
		if kind == 1 {
			text = "{" + text + "}"
		}
		use := newUse()
		var b strings.Builder
		for i, p := range strings.Split(text, "@") {
			if i > 0 {
				name := fmt.Sprintf("u%d", i)
				use.most[name], use.least[name] = 1, 1
				b.WriteString(name)
			}
			b.WriteString(p)
		}
		src := []byte(b.String())
		r.State(string(src))
		var body hcl.Body
		var diags hcl.Diagnostics
		switch kind {
		case 0, 3:
			var f *hcl.File
			f, diags = hclsyntax.ParseConfig(src, "t.hcl", hcl.InitialPos)
			body = f.Body
			if kind == 3 {
				body = dynblock.Expand(body, eCtx)
			}
		case 1:
			var f *hcl.File
			f, diags = json.Parse(src, "t.json")
			body = f.Body
		case 2:
			body, diags = hclpack.PackNativeFile(src, "t.hcl", hcl.InitialPos)
		}
		if diags.HasErrors() {
			r.Failf("", "valid configuration %q is rejected: %s", src, diagsStr(diags))
			return
		}
		for i, spec := range eSpecs {
			_, diags := hcldec.Decode(body, spec, eCtx)
			r.Op(1)
			if m := eJudge(src, diags, use); m != "" {
				r.Failf("", "%q, of kind %d, decoded with specification %d: %s", src, kind, i, m)
				return
			}
		}
		var t eGo
		diags = gohcl.DecodeBody(body, eCtx, &t)
		r.Op(1)
		// it may also be said that such a value cannot be had as a Go value
		var direct hcl.Diagnostics
		seen := map[string]bool{}
		for _, d := range diags {
			if d.Subject != nil {
				name := string(d.Subject.SliceBytes(src))
				if use.most[name] == 0 || seen[name] {
					continue
				}
				seen[name] = true
			}
			direct = append(direct, d)
		}
		diags = direct
		if m := eJudge(src, diags, use); m != "" {
			r.Failf("", "%q, of kind %d, decoded into Go values: %s", src, kind, m)
			return
		}
	}
	r.Trace()
}

func init() {
	leaf, unk := eNode{Form: -1}, eNode{Form: -2}
	fill := func(f int, kids []eNode, yield func(eNode)) {
		eachSeq(len(kids), eForms[f].slots(), eForms[f].slots(), func(ix []int) {
			n := eNode{Form: f}
			for _, i := range ix {
				n.Kids = append(n.Kids, kids[i])
			}
			yield(n)
		})
	}
	var ones []eNode
	for f := range eForms {
		fill(f, []eNode{leaf, unk}, func(n eNode) { ones = append(ones, n) })
	}
	fw.Register(&fw.Check{
		ID: "C48",
		Assumptions: []string{
			"what is after an unknown or erroneous condition or collection may or may not be reported",
			"where the parts are of the wrong type for each other, only that there are no further errors is judged",
			"parts in error are references to names that are not defined and calls of functions that are not",
		},
		Suites: []fw.Suite{
			fw.S("expressions", fmt.Sprintf("%d forms of expressions with every part being in error or unknown, and with each such expression at every place, beside each of them or of such parts (of three parts: thorough only)", len(eForms)),
				func(t fw.Tier, yield func(eNode)) {
					for f := range eForms {
						fill(f, []eNode{leaf, unk}, yield)
						switch eForms[f].slots() {
						case 1:
							fill(f, ones, yield)
						case 2:
							for _, a := range ones {
								for _, b := range append([]eNode{leaf, unk}, ones...) {
									if b.Form < 0 {
										yield(eNode{f, []eNode{b, a}})
									}
									yield(eNode{f, []eNode{a, b}})
								}
							}
						default:
							for _, a := range ones {
								for _, b := range []eNode{leaf, unk} {
									for _, c := range []eNode{leaf, unk} {
										yield(eNode{f, []eNode{a, b, c}})
										yield(eNode{f, []eNode{b, a, c}})
										yield(eNode{f, []eNode{b, c, a}})
										if c.Form == -1 && t == fw.Thorough {
											for _, a2 := range ones {
												yield(eNode{f, []eNode{a, a2, b}})
												yield(eNode{f, []eNode{a, b, a2}})
												yield(eNode{f, []eNode{b, a, a2}})
											}
										}
									}
								}
							}
						}
					}
				}, runErrors),
			fw.S("bodies", "all bodies of up to 4 (thorough 5) of 8 arguments and blocks with names that are not defined, natively, in JSON, packed and with dynamic blocks expanded, decoded with two specifications and into a Go structure",
				func(t fw.Tier, yield func([]int)) {
					eachSeq(len(eItems), 0, fw.Pick(t, 4, 5), func(ix []int) {
						seen := map[string]bool{}
						for _, i := range ix {
							s := eItems[i].native
							k := strings.SplitN(s, "{", 2)[0]
							if i == 0 || i == 1 || i == 7 {
								k = s[:1]
							} else if s[0] != 'y' {
								continue
							}
							if seen[k] {
								return
							}
							seen[k] = true
						}
						yield(append([]int{}, ix...))
					})
				}, runBodyErrors),
		},
	})
}
