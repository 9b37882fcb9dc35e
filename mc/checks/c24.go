package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"verif/mc/fw"
)

// goCase is a structure type and the items of the body.
type goCase struct {
	S     []gField
	Items []int
	More  []*bItem `json:",omitempty"` // further items
}

func gA(name, ty string) gField { return gField{K: "attr", Name: name, Ty: ty} }
func gO(name, ty string) gField { return gField{K: "optional", Name: name, Ty: ty} }
func gP(name, ty string) gField { return gField{K: "plain", Name: name, Ty: ty} }
func gL(name string) gField     { return gField{K: "label", Name: name, Ty: "string"} }
func gR(ty string) gField       { return gField{K: "remain", Ty: ty} }
func gRS(x ...gField) gField    { return gField{K: "remain", X: x} }
func gB(ty, name string, x ...gField) gField {
	return gField{K: "block", Name: name, Ty: ty, X: x}
}

var gNone = gField{K: "none", Ty: "string"}

// gAttrFields are all kinds of fields for the attribute a.
func gAttrFields() []gField {
	var ret []gField
	for _, ty := range []string{"string", "*string", "int", "*int", "int8", "uint", "float64", "bool", "*bool", "[]string", "[]int", "[]*string", "map[string]string", "map[string]int", "map[string]bool", "value", "expr", "attr", "struct", "*struct", "[]struct"} {
		ret = append(ret, gA("a", ty))
	}
	return append(ret, gP("a", "string"), gP("a", "*int"), gO("a", "string"), gO("a", "int"), gO("a", "[]string"), gO("a", "value"), gO("a", "struct"), gO("a", "map[string]string"), gO("a", "expr"))
}

var gMore = []gField{
	gA("b", "int"), gA("b", "*string"), gO("b", "string"), gA("b", "expr"), gP("b", "value"), gNone,
	gR("body"), gR("attrs"), gR("map[string]string"), gR("map[string]int"), gR("map[string]attr"), gR("map[string]expr"), gR("map[string]value"), gRS(gO("b", "string"), gA("z", "*int")), gRS(gO("z", "int"), gR("attrs")), gRS(),
	gB("*", "other"), gB("[]", "other", gL("l"), gO("a", "int")),
}

// gBodies are structures that blocks are decoded into.
var gBodies = [][]gField{
	{}, {gA("a", "string")}, {gA("a", "*int")}, {gO("a", "string"), gO("b", "value")}, {gA("a", "value")}, {gA("a", "expr"), gNone},
	{gL("l")}, {gL("l"), gA("a", "*string")}, {gL("l"), gL("m"), gO("a", "int")}, {gO("a", "int"), gL("l"), gNone, gL("m")}, {gL("l"), gL("m"), gO("a", "int"), gL("n")}, {gL("l"), gR("attrs")}, {gR("body")}, {gL("l"), gR("map[string]string")}, {gO("a", "string"), gR("map[string]value")},
	{gB("", "blk", gA("a", "*int"))}, {gB("[]", "blk", gL("w")), gO("a", "string")}, {gL("l"), gB("*", "blk", gL("w"), gO("a", "int")), gA("a", "*string")}, {gB("[]*", "blk", gR("attrs"))}, {gRS(gO("a", "string"), gO("b", "int"))},
}

func goStructs(t fw.Tier, yield func([]gField, int)) {
	attrs := gAttrFields()
	for _, a := range attrs {
		yield([]gField{a}, 2)
		for _, m := range gMore {
			yield([]gField{a, m}, 2)
			yield([]gField{m, a}, fw.Pick(t, 1, 2))
		}
	}
	for i, m := range gMore {
		yield([]gField{m}, 2)
		for j, n := range gMore {
			if i != j && !(m.K == "remain" && n.K == "remain") && (m.Name == "" || m.Name != n.Name) {
				yield([]gField{m, n}, 2)
			}
		}
	}
	yield(nil, 2)
	for _, b := range gBodies {
		for _, ty := range []string{"", "*", "[]", "[]*"} {
			f := gB(ty, "blk", b...)
			yield([]gField{f}, 3)
			for _, m := range gMore {
				yield([]gField{f, m}, fw.Pick(t, 1, 2))
			}
			for _, a := range attrs {
				yield([]gField{a, f}, fw.Pick(t, 1, 2))
			}
			for _, ty2 := range []string{"", "*", "[]", "[]*"} {
				yield([]gField{gB(ty2, "blk", f)}, fw.Pick(t, 1, 2))
				yield([]gField{gB(ty2, "blk", gL("l"), f, gNone)}, fw.Pick(t, 1, 2))
				yield([]gField{gNone, gRS(f, gO("a", "string"))}, fw.Pick(t, 1, 2))
			}
		}
	}
}

// gEach calls f with every sequence of items that may matter to the schema.
func gEach(fs []gField, max int, f func(idx []int)) {
	bs, _ := gSchema(fs)
	s := schemaOf(bs.hcl())
	for _, x := range fs {
		if x.K == "remain" && x.nested() {
			in, _ := gSchema(x.X)
			for n, r := range schemaOf(in.hcl()).attrs {
				s.attrs[n] = r
			}
			for n, l := range schemaOf(in.hcl()).blocks {
				s.blocks[n] = l
			}
		}
	}
	s.eachItems(max, f)
}

// gFits is whether all blocks have the number of labels that the structure
// expects, without which JSON means something else, and whether JSON can tell
// attributes and blocks apart.
func gFits(fs []gField, items []*bItem) bool {
	bs, _ := gSchema(fs)
	s := schemaOf(bs.hcl())
	for _, it := range items {
		if !it.Blk {
			if _, blk := s.blocks[it.Name]; blk {
				return false
			}
			continue
		}
		if _, attr := s.attrs[it.Name]; attr {
			return false
		}
		l, ok := s.blocks[it.Name]
		if ok && l != len(it.Labels) {
			return false
		}
		for _, f := range fs {
			if !ok && f.K == "remain" && (!f.nested() && f.Ty != "body" || f.nested() && !gFits(f.X, []*bItem{it})) {
				return false
			}
			if ok && f.K == "block" && f.Name == it.Name && !gFits(f.X, it.Body) {
				return false
			}
		}
	}
	return true
}

func checkGo(r *fw.Rec, c goCase) {
	items := specCase{Items: c.Items, More: c.More}.items()
	ty := gStruct(c.S)
	if len(c.Items) == 0 && c.More == nil {
		bs, wantPartial := gSchema(c.S)
		schema, partial := gohcl.ImpliedBodySchema(reflect.New(ty).Elem().Interface())
		if got, want := schemaOf(schema).String(), schemaOf(bs.hcl()).String(); got != want || partial != wantPartial {
			r.Failf("", "the schema of %s is %s, partial %v, instead of %s", gString(c.S), got, partial, want)
			return
		}
		ps, pp := gohcl.ImpliedBodySchema(reflect.New(ty).Interface())
		if schemaOf(ps).String() != schemaOf(schema).String() || pp != partial {
			r.Failf("", "the schema of a pointer to %s differs", gString(c.S))
			return
		}
		var names []string
		for _, b := range schema.Blocks {
			names = append(names, b.LabelNames...)
		}
		var wantNames []string
		blocks := append([]gField{}, c.S...)
		sort.SliceStable(blocks, func(i, j int) bool { return blocks[i].Name < blocks[j].Name })
		for _, f := range blocks {
			if f.K == "block" {
				for _, l := range f.X {
					if l.K == "label" {
						wantNames = append(wantNames, l.Name)
					}
				}
			}
		}
		if strings.Join(names, " ") != strings.Join(wantNames, " ") {
			r.Failf("", "the labels of %s are %s instead of %s", gString(c.S), names, wantNames)
			return
		}
	}
	for _, isJSON := range []bool{false, true} {
		if isJSON && !gFits(c.S, items) {
			continue
		}
		body, src, msg := sBody(items, isJSON)
		if body == nil {
			r.Failf("", "%q is rejected: %s", src, msg)
			return
		}
		r.State(src)
		for _, filled := range []bool{false, true} {
			for _, ctx := range []*hcl.EvalContext{sCtx, nil} {
				if ctx == nil && (isJSON || filled) {
					continue
				}
				target := reflect.New(ty)
				before := reflect.New(ty).Elem()
				if filled {
					target.Elem().Set(gPre(ty))
					before.Set(gPre(ty))
				}
				d := &gDec{ctx: ctx != nil, json: isJSON}
				want := d.body(bRef{Items: items}, c.S, nil, before)
				diags := gohcl.DecodeBody(body, ctx, target.Interface())
				r.Op(1)
				if diags.HasErrors() != (len(d.errs) > 0) {
					r.Failf("", "decoding %q into %s: errors %s, expected %s", src, gString(c.S), diagsStr(diags), d.errs)
					return
				}
				for _, dg := range diags {
					if m := badDiag(dg, 0, len(src)); m != "" {
						r.Failf("", "decoding %q into %s: %s", src, gString(c.S), m)
						return
					}
				}
				if isJSON && diags.HasErrors() {
					continue
				}
				if m := want(target.Elem()); m != "" {
					r.Failf("", "decoding %q into %s (filled before: %v): %s", src, gString(c.S), filled, m)
					return
				}
			}
		}
		r.Trace()
	}
}

// goExprCase is one value decoded into one type.
type goExprCase struct{ Val, Ty string }

func checkGoExpr(r *fw.Rec, c goExprCase) {
	v := sVals[c.Val]
	t := gTypes[c.Ty]
	for _, isJSON := range []bool{false, true} {
		for _, filled := range []bool{false, true} {
			var expr hcl.Expression
			src := v.N
			if isJSON {
				src = v.J
				f, diags := json.Parse([]byte(`{"a": `+v.J+`}`), "t")
				if diags.HasErrors() {
					r.Failf("", "%q is rejected", src)
					return
				}
				attrs, _ := f.Body.JustAttributes()
				expr = attrs["a"].Expr
			} else {
				expr, _ = hclsyntax.ParseExpression([]byte(v.N), "t", hcl.InitialPos)
			}
			r.State(src, c.Ty)
			target := reflect.New(t)
			if filled {
				target.Elem().Set(gPre(t))
			}
			diags := gohcl.DecodeExpression(expr, sCtx, target.Interface())
			r.Op(1)
			want, ok := gValue(v.V, t)
			if v.Err {
				ok = false
			}
			if diags.HasErrors() == ok {
				r.Failf("", "decoding %s into %s: errors %s, expected %v", src, c.Ty, diagsStr(diags), !ok)
				return
			}
			if got := gDump(target.Elem()); ok && got != want {
				r.Failf("", "decoding %s into %s gives %s instead of %s", src, c.Ty, got, want)
				return
			}
			r.Trace()
		}
	}
}

func init() {
	fw.Register(&fw.Check{
		ID:          "C24",
		Assumptions: []string{"type conversion is that of the cty library", "structures for block bodies, not raw blocks or bodies, in block fields"},
		Suites: []fw.Suite{
			fw.S("values", fmt.Sprintf("%d values times %d Go types, natively and in JSON, into zero and other targets", len(sVals), 26),
				func(t fw.Tier, yield func(goExprCase)) {
					for _, v := range sortedKeys(sVals) {
						for _, ty := range sortedKeys(gTypes) {
							switch ty {
							case "expr", "attr", "body", "attrs", "map[string]attr", "map[string]expr":
								continue
							}
							if v == "1.5" && ty == "uint" {
								continue // left to the cty library
							}
							yield(goExprCase{v, ty})
						}
					}
				}, checkGoExpr),
			fw.S("structs", fmt.Sprintf("structure types with one or two of %d attribute fields, %d other fields and %d nested structures in 4 kinds of block fields, nested again; each with every body of up to 2 (single block fields 3, pairs with a block field 1, thorough 2) items that matter to it out of %d, natively and in JSON, into zero and other targets", len(gAttrFields()), len(gMore), len(gBodies), len(sItems)),
				func(t fw.Tier, yield func(goCase)) {
					goStructs(t, func(fs []gField, max int) {
						gEach(fs, max, func(idx []int) { yield(goCase{S: fs, Items: append([]int{}, idx...)}) })
					})
				}, checkGo),
		},
	})
}
