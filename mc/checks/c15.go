package checks

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
	"verif/mc/ref"
)

// valPair is an attribute value in native syntax and in JSON.
type valPair struct{ N, J string }

var valPairs = []valPair{
	{`1`, `1`}, {`-2.5`, `-2.5`}, {`"s"`, `"s"`}, {`true`, `true`}, {`null`, `null`}, {`""`, `""`}, {`[]`, `[]`}, {`{}`, `{}`},
	{`v`, `"${v}"`}, {`"${v}"`, `"${v}"`}, {`"a-${v}"`, `"a-${v}"`}, {`v + 1`, `"${v + 1}"`}, {`nope`, `"${nope}"`}, {`"x${nope}"`, `"x${nope}"`}, {`o.nope`, `"${o.nope}"`},
	{`"$${v}"`, `"$${v}"`}, {`"%%{v}"`, `"%%{v}"`}, {`"%{if b}y%{else}n%{endif}"`, `"%{if b}y%{else}n%{endif}"`}, {`"%{for x in l}${x},%{endfor}"`, `"%{for x in l}${x},%{endfor}"`},
	{`"\n\t\"é\\"`, `"\n\t\"é\\"`}, {`"é"`, `"é"`}, {`[1, v, "${v}"]`, `[1, "${v}", "${v}"]`}, {`{k = v}`, `{"k": "${v}"}`}, {`{(v) = 1}`, `{"${v}": 1}`}, {`{"${v}x" = [v]}`, `{"${v}x": ["${v}"]}`},
	{`{a = 1, b = {c = null}}`, `{"a": 1, "b": {"c": null}}`}, {`[[], {}, [v]]`, `[[], {}, ["${v}"]]`}, {`l[*]`, `"${l[*]}"`}, {`[for x in l : x]`, `"${[for x in l : x]}"`}, {`{for x in l : x => v}`, `"${{for x in l : x => v}}"`},
	{`u`, `"${u}"`}, {`"${u}"`, `"${u}"`}, {`"a${u}"`, `"a${u}"`}, {`[u]`, `["${u}"]`}, {`{(u) = 1}`, `{"${u}": 1}`}, {`{(n) = 1}`, `{"${n}": 1}`}, {`{(l) = 1}`, `{"${l}": 1}`}, {`n`, `"${n}"`}, {`b ? v : "z"`, `"${b ? v : \"z\"}"`},
	{`99999999999999999999.5`, `99999999999999999999.5`}, {`1e5`, `1e5`}, {`[nope, 1]`, `["${nope}", 1]`}, {`{a = nope}`, `{"a": "${nope}"}`}, {`{"//" = 1}`, `{"//": 1}`},
}

var pairCtxs = []*hcl.EvalContext{
	{Variables: map[string]cty.Value{"v": num("7"), "b": cty.True, "l": lst(str("p"), str("q")), "o": obj("k", str("w")), "u": cty.UnknownVal(cty.String), "n": cty.NullVal(cty.String)}},
	{Variables: map[string]cty.Value{"v": str("k"), "b": cty.False, "l": tup(), "o": cty.UnknownVal(cty.EmptyObject), "u": cty.DynamicVal, "n": cty.NullVal(cty.DynamicPseudoType)}},
	{Variables: map[string]cty.Value{"v": cty.UnknownVal(cty.Number), "b": cty.UnknownVal(cty.Bool), "l": cty.UnknownVal(cty.List(cty.String)), "o": str("s"), "u": str("u")}},
	{},
}

// eqRes is whether two evaluations cannot be told apart by value and success.
func eqRes(v1 cty.Value, d1 hcl.Diagnostics, v2 cty.Value, d2 hcl.Diagnostics) bool {
	return d1.HasErrors() == d2.HasErrors() && (d1.HasErrors() || v1.RawEquals(v2))
}

func parseBoth(native, js string) (hcl.Body, hcl.Body, string) {
	nf, diags := hclsyntax.ParseConfig([]byte(native), "t.hcl", hcl.InitialPos)
	if diags.HasErrors() {
		return nil, nil, fmt.Sprintf("%q is rejected: %s", native, diagsStr(diags))
	}
	jf, diags := json.Parse([]byte(js), "t.json")
	if diags.HasErrors() {
		return nil, nil, fmt.Sprintf("%q is rejected: %s", js, diagsStr(diags))
	}
	return nf.Body, jf.Body, ""
}

// sameBodies compares two bodies under a schema that is used on all levels.
func sameBodies(r *fw.Rec, n, j hcl.Body, s bSchema, rest *bSchema, ctxs []*hcl.EvalContext, depth int) string {
	r.Op(2)
	var nc, jc *hcl.BodyContent
	var nd, jd hcl.Diagnostics
	if rest != nil {
		var nr, jr hcl.Body
		nc, nr, nd = n.PartialContent(s.hcl())
		jc, jr, jd = j.PartialContent(s.hcl())
		_, nrd := nr.Content(&hcl.BodySchema{})
		_, jrd := jr.Content(&hcl.BodySchema{})
		if nrd.HasErrors() != jrd.HasErrors() {
			return fmt.Sprintf("remaining body: %s, as JSON %s", diagsStr(nrd), diagsStr(jrd))
		}
		if m := sameBodies(r, nr, jr, *rest, nil, ctxs, depth); m != "" {
			return fmt.Sprintf("what remains after %s: %s", s, m)
		}
	} else {
		nc, nd = n.Content(s.hcl())
		jc, jd = j.Content(s.hcl())
	}
	if nd.HasErrors() != jd.HasErrors() {
		return fmt.Sprintf("%s: diagnostics %s, as JSON %s", s, diagsStr(nd), diagsStr(jd))
	}
	if len(nc.Attributes) != len(jc.Attributes) {
		return fmt.Sprintf("%s: %d attributes, as JSON %d", s, len(nc.Attributes), len(jc.Attributes))
	}
	for name, na := range nc.Attributes {
		ja := jc.Attributes[name]
		if ja == nil || ja.Name != name || na.Name != name {
			return fmt.Sprintf("%s: attribute %s is different", s, name)
		}
		for _, ctx := range ctxs {
			nv, nd := na.Expr.Value(ctx)
			jv, jd := ja.Expr.Value(ctx)
			if !eqRes(nv, nd, jv, jd) {
				return fmt.Sprintf("%s: attribute %s is %#v (%s), as JSON %#v (%s)", s, name, nv, diagsStr(nd), jv, diagsStr(jd))
			}
		}
	}
	if len(nc.Blocks) != len(jc.Blocks) {
		return fmt.Sprintf("%s: %d blocks, as JSON %d", s, len(nc.Blocks), len(jc.Blocks))
	}
	for i, nb := range nc.Blocks {
		jb := jc.Blocks[i]
		if nb.Type != jb.Type || fmt.Sprintf("%q", append([]string{}, nb.Labels...)) != fmt.Sprintf("%q", append([]string{}, jb.Labels...)) {
			return fmt.Sprintf("%s: block %d is %s %q, as JSON %s %q", s, i, nb.Type, nb.Labels, jb.Type, jb.Labels)
		}
		if depth < 3 {
			if m := sameBodies(r, nb.Body, jb.Body, s, rest, ctxs, depth+1); m != "" {
				return fmt.Sprintf("in block %d: %s", i, m)
			}
		}
	}
	return ""
}

// pairSpecs are decoding specifications for the items below.
func pairSpecs() map[string]hcldec.Spec {
	attr := func(n string, ty cty.Type, req bool) hcldec.Spec {
		return &hcldec.AttrSpec{Name: n, Type: ty, Required: req}
	}
	yIn := hcldec.ObjectSpec{"a": attr("a", cty.String, false), "b": attr("b", cty.DynamicPseudoType, false), "x": &hcldec.BlockMapSpec{TypeName: "x", LabelNames: []string{"l"}, Nested: attr("b", cty.String, false)}}
	return map[string]hcldec.Spec{
		"objects": hcldec.ObjectSpec{
			"a": attr("a", cty.String, false), "b": attr("b", cty.DynamicPseudoType, false), "y": &hcldec.BlockTupleSpec{TypeName: "y", Nested: yIn},
			"x": &hcldec.BlockMapSpec{TypeName: "x", LabelNames: []string{"l"}, Nested: hcldec.ObjectSpec{"a": attr("a", cty.Number, false), "b": attr("b", cty.Number, false), "y": &hcldec.BlockListSpec{TypeName: "y", Nested: attr("a", cty.Number, false)}}},
			"z": &hcldec.BlockObjectSpec{TypeName: "z", LabelNames: []string{"l", "m"}, Nested: hcldec.ObjectSpec{"a": attr("a", cty.DynamicPseudoType, false), "y": &hcldec.BlockTupleSpec{TypeName: "y", Nested: attr("a", cty.DynamicPseudoType, false)}}},
		},
		"required": hcldec.TupleSpec{attr("a", cty.DynamicPseudoType, true), &hcldec.BlockSpec{TypeName: "y", Nested: &hcldec.DefaultSpec{Primary: attr("a", cty.String, false), Default: &hcldec.LiteralSpec{Value: str("d")}}, Required: true}},
		"labels": hcldec.TupleSpec{
			&hcldec.BlockListSpec{TypeName: "z", Nested: hcldec.ObjectSpec{"l": &hcldec.BlockLabelSpec{Index: 0, Name: "l"}, "m": &hcldec.BlockLabelSpec{Index: 1, Name: "m"}, "a": attr("a", cty.String, false), "y": &hcldec.BlockListSpec{TypeName: "y", Nested: attr("a", cty.String, false)}}, MinItems: 1, MaxItems: 2},
			&hcldec.BlockSetSpec{TypeName: "x", Nested: hcldec.TupleSpec{&hcldec.BlockLabelSpec{Index: 0, Name: "l"}, attr("b", cty.String, false)}},
			&hcldec.BlockAttrsSpec{TypeName: "y", ElementType: cty.String},
		},
	}
}

type pairInner struct {
	L string  `hcl:"l,label"`
	A *string `hcl:"a"`
	B *int    `hcl:"b"`
	Y []pairY `hcl:"y,block"`
}
type pairY struct {
	A *string     `hcl:"a"`
	X []pairInner `hcl:"x,block"`
}
type pairTop struct {
	A *string     `hcl:"a"`
	B *string     `hcl:"b"`
	X []pairInner `hcl:"x,block"`
	Y []*pairY    `hcl:"y,block"`
	Z []struct {
		L string   `hcl:"l,label"`
		M string   `hcl:"m,label"`
		R hcl.Body `hcl:",remain"`
	} `hcl:"z,block"`
}

func (t pairTop) String() string {
	p := func(s *string) string {
		if s == nil {
			return "-"
		}
		return *s
	}
	var b strings.Builder
	fmt.Fprintf(&b, "a=%s b=%s", p(t.A), p(t.B))
	var xs func(in []pairInner)
	ys := func(y pairY) {
		fmt.Fprintf(&b, " y{%s", p(y.A))
		xs(y.X)
		b.WriteString("}")
	}
	xs = func(in []pairInner) {
		for _, x := range in {
			fmt.Fprintf(&b, " x %s{%s", x.L, p(x.A))
			if x.B != nil {
				fmt.Fprint(&b, *x.B)
			}
			for _, y := range x.Y {
				ys(y)
			}
			b.WriteString("}")
		}
	}
	xs(t.X)
	for _, y := range t.Y {
		ys(*y)
	}
	for _, z := range t.Z {
		fmt.Fprintf(&b, " z %s %s", z.L, z.M)
	}
	return b.String()
}

// nullPairs are native items and JSON properties with nulls and comments.
var nullPairs = []valPair{
	{"", `"//": 1`}, {"", `"//": {"a": 1}`}, {"", `"y": null`}, {"", `"y": []`}, {"y {\n}\n", `"y": [null]`}, {"y {\n}\ny {\n  a = 1\n}\ny {\n}\n", `"y": [null, {"a": 1}, null]`},
	{"", `"x": {"p": null}`}, {"x \"p\" {\n}\n", `"x": {"p": [null]}`}, {"x \"p\" {\n  a = 1\n}\n", `"x": [{"p": {"//": "c", "a": 1, "//": null}}]`}, {"x \"q\" {\n}\n", `"x": {"p": null, "q": {}}`},
	{"", `"z": {"p": {"q": null}}`}, {"z \"p\" \"q\" {\n}\nz \"p\" \"r\" {\n}\n", `"z": {"p": {"q": [null], "r": {"//": []}}}`}, {"a = null\n", `"a": null`}, {"b = {\"//\" = 1}\n", `"b": {"//": 1}`},
	{"x \"//\" {\n  b = 1\n}\n", `"x": {"//": {"b": 1}}`}, {"y {\n  x \"p\" {\n  }\n}\n", `"y": {"x": {"p": [null]}, "//": null, "y": null}`}, {"y {\n  a = null\n}\n", `"y": {"a": null}`},
}

// allPairSchema is the schema of everything in the pairs of bodies.
func pairSchema(names string) bSchema {
	var s bSchema
	for _, n := range names {
		switch n {
		case 'a', 'b':
			s.Attrs = append(s.Attrs, hcl.AttributeSchema{Name: string(n)})
		default:
			s.Blocks = append(s.Blocks, hcl.BlockHeaderSchema{Type: string(n), LabelNames: bLabelNames[:map[rune]int{'x': 1, 'z': 2, 'w': 3, 'v': 4}[n]]})
		}
	}
	return s
}

func runNulls(r *fw.Rec, c []int) {
	native, props := "", []string{}
	for _, k := range c {
		native += nullPairs[k].N
		props = append(props, nullPairs[k].J)
	}
	r.State(fmt.Sprint(c))
	for _, js := range []string{"{" + strings.Join(props, ", ") + "}", "[{" + strings.Join(props, "}, {") + "}]"} {
		for cut := 0; cut < 32; cut++ {
			n, j, m := parseBoth(native, js)
			if m != "" {
				r.Failf("", "%s\nand %s: %s", native, js, m)
				return
			}
			first, second := "", ""
			for i, n := range "abxyz" {
				if cut>>uint(i)&1 != 0 {
					first += string(n)
				} else {
					second += string(n)
				}
			}
			s1, s2 := pairSchema(first), pairSchema(second)
			depth := 3
			if first == "" {
				depth = 0
			} else {
				nc, nr, nd := n.PartialContent(s1.hcl())
				jc, jr, jd := j.PartialContent(s1.hcl())
				r.Op(2)
				if nd.HasErrors() || jd.HasErrors() || len(nc.Blocks) != len(jc.Blocks) || len(nc.Attributes) != len(jc.Attributes) {
					r.Failf("", "%s\nand %s: partial extraction with %s: %d attributes, %d blocks (%s), as JSON %d, %d (%s)", native, js, s1, len(nc.Attributes), len(nc.Blocks), diagsStr(nd), len(jc.Attributes), len(jc.Blocks), diagsStr(jd))
					return
				}
				n, j = nr, jr
			}
			if m := sameBodies(r, n, j, s2, nil, []*hcl.EvalContext{{}}, depth); m != "" {
				r.Failf("", "%s\nand %s: %s", native, js, m)
				return
			}
		}
	}
	r.Trace()
}

func init() {
	specs := pairSpecs()
	schemas := bSchemas([]string{"a", "b"}, map[string][]int{"x": {1}, "y": {0}, "z": {2}})
	ctx := []*hcl.EvalContext{{}}
	runPair := func(r *fw.Rec, c []*bItem) {
		items := bClone(c)
		k := 0
		bNumber(items, &k)
		native := bNative(items, bLayouts[0])
		r.State(native)
		for form := 0; form < 4; form++ {
			js := bJSON(items, form)
			n, j, m := parseBoth(native, js)
			fail := func(m string) { r.Failf("", "%s\nand %s: %s", native, js, m) }
			if m != "" {
				fail(m)
				return
			}
			for i, s := range schemas {
				if len(items) > 3 && i%5 != 0 || len(items) > 4 && i%15 != 0 {
					continue
				}
				rests := []*bSchema{nil, &schemas[(i*7+3)%len(schemas)], &schemas[0]}
				if len(items) < 3 {
					for k := range schemas {
						rests = append(rests, &schemas[k])
					}
				}
				for _, rest := range rests {
					if m := sameBodies(r, n, j, s, rest, ctx, 0); m != "" {
						fail(m)
						return
					}
				}
			}
			for name, spec := range specs {
				if name == "labels" && form == 1 {
					continue // attributes of any name cannot be read from an array
				}
				nv, nd := hcldec.Decode(n, spec, ctx[0])
				jv, jd := hcldec.Decode(j, spec, ctx[0])
				r.Op(2)
				if name == "labels" && nd.HasErrors() {
					continue // a block and an attribute are the same there
				}
				if nd.HasErrors() != jd.HasErrors() || !nd.HasErrors() && !nv.RawEquals(jv) {
					fail(fmt.Sprintf("decoding %s: %#v (%s), as JSON %#v (%s)", name, nv, diagsStr(nd), jv, diagsStr(jd)))
					return
				}
			}
			var nt, jt pairTop
			nd := gohcl.DecodeBody(n, ctx[0], &nt)
			jd := gohcl.DecodeBody(j, ctx[0], &jt)
			if nd.HasErrors() != jd.HasErrors() || nt.String() != jt.String() {
				fail(fmt.Sprintf("decoding to Go: %s (%s), as JSON %s (%s)", nt, diagsStr(nd), jt, diagsStr(jd)))
				return
			}
		}
		r.Trace()
	}
	fw.Register(&fw.Check{
		ID: "C15",
		Suites: []fw.Suite{
			fw.S("values", fmt.Sprintf("every pair and (thorough) triple out of %d attribute values written in both syntaxes, alone, in a list, in an object and in a labelled block, in %d contexts", len(valPairs), len(pairCtxs)),
				func(t fw.Tier, yield func([]int)) {
					eachSeq(len(valPairs), 1, fw.Pick(t, 2, 3), func(idx []int) { yield(append([]int{}, idx...)) })
				},
				func(r *fw.Rec, c []int) {
					var nl, jl, no, jo, nb, jb []string
					for i, k := range c {
						p := valPairs[k]
						nl, jl = append(nl, p.N), append(jl, p.J)
						no, jo = append(no, fmt.Sprintf("k%d = %s", i, p.N)), append(jo, fmt.Sprintf(`"k%d": %s`, i, p.J))
						nb, jb = append(nb, fmt.Sprintf("k%d = %s\n", i, p.N)), append(jb, fmt.Sprintf(`"k%d": %s`, i, p.J))
					}
					native := fmt.Sprintf("l = [%s]\no = {%s}\nw = {q = [%s]}\nblk \"lab\" {\n%s}\n%s", strings.Join(nl, ", "), strings.Join(no, ", "), strings.Join(nl, ", "), strings.Join(nb, ""), strings.Join(nb, ""))
					js := fmt.Sprintf(`{"l": [%s], "o": {%s}, "w": {"q": [%s]}, "blk": {"lab": {%s}}, %s}`, strings.Join(jl, ", "), strings.Join(jo, ", "), strings.Join(jl, ", "), strings.Join(jb, ", "), strings.Join(jb, ", "))
					r.State(native)
					n, j, m := parseBoth(native, js)
					if m == "" {
						s := bSchema{Attrs: []hcl.AttributeSchema{{Name: "l"}, {Name: "o"}, {Name: "w"}, {Name: "k0"}, {Name: "k1"}, {Name: "k2"}}, Blocks: []hcl.BlockHeaderSchema{{Type: "blk", LabelNames: []string{"l"}}}}
						m = sameBodies(r, n, j, s, nil, pairCtxs, 0)
					}
					if m != "" {
						r.Failf("", "%s\nand %s: %s", native, js, m)
						return
					}
					r.Trace()
				}),
			fw.S("expressions", "every expression nested two deep out of 75 forms with 5 variable sets, as an attribute value, inside a list and as an object key and value",
				func(t fw.Tier, yield func(exprCase)) {
					hs := holes()
					x := ref.Var("x")
					for _, f := range hs {
						yield(exprCase{f(x)})
						for _, g := range hs {
							yield(exprCase{g(f(x))})
						}
					}
				},
				func(r *fw.Rec, c exprCase) {
					src := c.T.Print(ref.Spaced, true)
					if strings.Contains(src, "<<") {
						return
					}
					q := jsonStr("${" + src + "}")
					native := fmt.Sprintf("a = %s\nb = [%s, {k = %s}]\nc = {(%s) = 1}\n", src, src, src, src)
					js := fmt.Sprintf(`{"a": %s, "b": [%s, {"k": %s}], "c": {%s: 1}}`, q, q, q, q)
					r.State(src)
					n, j, m := parseBoth(native, js)
					if m == "" {
						var ctxs []*hcl.EvalContext
						for _, vars := range varSets {
							ctx := fnCtx.NewChild()
							ctx.Variables = vars
							ctxs = append(ctxs, ctx)
						}
						s := bSchema{Attrs: []hcl.AttributeSchema{{Name: "a"}, {Name: "b"}, {Name: "c"}}}
						m = sameBodies(r, n, j, s, nil, ctxs, 0)
					}
					if m != "" {
						r.Failf("", "%s: %s", src, m)
						return
					}
					r.Trace()
				}),
			fw.S("labels", "all bodies of one or two (thorough: three) blocks with one or two labels out of 6, such as empty ones and one like a comment, or with 3 or 4 labels, in 4 JSON forms, with 5 schemas and 3 decoding specifications",
				func(t fw.Tier, yield func([]*bItem)) {
					var bs []*bItem
					labels := []string{"p", "//", "", "a b", "é", "0"}
					for _, l := range labels {
						bs = append(bs, bBlock("x", []string{l}, bAttr("a", "#")))
						for _, m := range labels {
							bs = append(bs, bBlock("z", []string{l, m}))
						}
					}
					for _, l := range []string{"p", "q"} {
						for _, m := range []string{"p", "q"} {
							bs = append(bs, bBlock("w", []string{"p", l, m}), bBlock("v", []string{"p", "q", l, m}, bAttr("a", "#")))
						}
					}
					eachSeq(len(bs), 1, fw.Pick(t, 2, 3), func(idx []int) {
						if len(idx) == 3 && sumInts(idx)%7 != 0 {
							return
						}
						var items []*bItem
						for _, i := range idx {
							items = append(items, bs[i])
						}
						yield(bClone(items))
					})
				}, func(r *fw.Rec, c []*bItem) {
					native := bNative(c, bLayouts[0])
					r.State(native)
					for form := 0; form < 4; form++ {
						items := bClone(c)
						k := 0
						bNumber(items, &k)
						native, js := bNative(items, bLayouts[0]), bJSON(items, form)
						n, j, m := parseBoth(native, js)
						for _, s := range []string{"axyz", "ax", "az", "a", "vwx"} {
							if m == "" {
								m = sameBodies(r, n, j, pairSchema(s), nil, ctx, 0)
							}
						}
						if m != "" {
							r.Failf("", "%s\nand %s: %s", native, js, m)
							return
						}
						for name, spec := range specs {
							nv, nd := hcldec.Decode(n, spec, ctx[0])
							jv, jd := hcldec.Decode(j, spec, ctx[0])
							r.Op(2)
							if nd.HasErrors() != jd.HasErrors() || !nd.HasErrors() && !nv.RawEquals(jv) {
								r.Failf("", "%s\nand %s: decoding %s: %#v (%s), as JSON %#v (%s)", native, js, name, nv, diagsStr(nd), jv, diagsStr(jd))
								return
							}
						}
					}
					r.Trace()
				}),
			fw.S("nulls", fmt.Sprintf("all sequences of up to 3 (thorough: 4) out of %d items with comments, nulls in place of blocks and empty arrays, in one object and in an array of objects, extracted in all ways of two steps", len(nullPairs)),
				func(t fw.Tier, yield func([]int)) {
					eachSeq(len(nullPairs), 0, fw.Pick(t, 3, 4), func(idx []int) {
						seen := map[string]bool{}
						for _, i := range idx {
							if n := nullPairs[i].N; strings.HasPrefix(n, "a =") || strings.HasPrefix(n, "b =") {
								if seen[n[:1]] {
									return
								}
								seen[n[:1]] = true
							}
						}
						yield(append([]int{}, idx...))
					})
				}, runNulls),
			fw.S("structure", fmt.Sprintf("every body of up to 3 items (thorough 4) out of %d in 4 JSON forms, with %d schemas in full and partial extraction, %d decoding specifications and a Go structure; and 6 families of bodies of 5 to 65 items", len(c12Items), len(schemas), len(specs)),
				func(t fw.Tier, yield func([]*bItem)) {
					eachSeq(len(c12Items), 0, fw.Pick(t, 3, 4), func(idx []int) {
						var items []*bItem
						for _, i := range idx {
							items = append(items, c12Items[i])
						}
						if !hasDup(items) {
							yield(bClone(items))
						}
					})
					for _, n := range []int{5, 9, 17, 33, 65} {
						for _, f := range sortedKeys(sizeBodies) {
							yield(sizeBodies[f](n))
						}
					}
				},
				runPair),
		},
	})
}
