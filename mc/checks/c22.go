package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
)

// specCase is a specification and the bodies it is applied to: the items of
// the alphabet that are used.
type specCase struct {
	Spec  *sNode
	Items []int
	More  []*bItem `json:",omitempty"` // further items
}

func sAttr(name, ty string, req bool) *sNode { return &sNode{K: "attr", Name: name, Ty: ty, Req: req} }
func sLit(name string) *sNode                { return &sNode{K: "lit", Name: name} }
func sLabel(i int) *sNode                    { return &sNode{K: "label", Min: i} }
func sObj(x ...*sNode) *sNode                { return &sNode{K: "obj", X: x} }
func sTup(x ...*sNode) *sNode                { return &sNode{K: "tup", X: x} }
func sDef(p, d *sNode) *sNode                { return &sNode{K: "default", X: []*sNode{p, d}} }
func sTE(e string, x *sNode) *sNode          { return &sNode{K: "texpr", Name: e, X: []*sNode{x}} }
func sTF(f string, x *sNode) *sNode          { return &sNode{K: "tfunc", Name: f, X: []*sNode{x}} }

// sLeaves read the body itself.
var sLeaves = []*sNode{
	sAttr("a", "string", false), sAttr("a", "number", true), sAttr("a", "bool", false), sAttr("a", "any", false), sAttr("a", "list", false), sAttr("a", "map", false), sAttr("a", "set", true), sAttr("a", "obj", false), sAttr("a", "anys", false), sAttr("b", "string", true), sAttr("b", "number", false),
	sLit("d"), sLit("null"), sLit("unknown"), {K: "expr", Name: "v"}, {K: "expr", Name: "1"}, {K: "expr", Name: "\"e${v}\""}, {K: "expr", Name: "nope"},
	sDef(sAttr("a", "string", false), sLit("d")), sDef(sAttr("a", "string", false), sAttr("b", "string", false)), sDef(sAttr("a", "string", true), sAttr("b", "string", true)), sDef(sAttr("a", "list", false), sLit("list")), sDef(sDef(sAttr("a", "string", false), sAttr("b", "string", false)), sLit("d")),
	sTE("[it, tv]", sAttr("a", "string", false)), sTE("it == null", sAttr("a", "number", false)), sTE("nope", sAttr("a", "any", false)), sTF("upper", sAttr("a", "string", true)), sTF("len", sAttr("a", "any", false)), sTF("fail", sAttr("a", "string", false)), sTE("[it, tv]", sTF("len", sDef(sAttr("a", "string", false), sLit("d")))),
	sObj(), sTup(),
}

// sNested are specifications of the bodies of blocks.
var sNested = []*sNode{
	sAttr("a", "string", false), sAttr("a", "number", true), sAttr("a", "any", false), sLabel(0), sObj(sLabel(0), sAttr("a", "string", false)), sTup(sLabel(0), sLabel(1)), sObj(sAttr("a", "any", false), sAttr("b", "any", false)), sTup(sAttr("a", "number", false), sAttr("b", "string", false)),
	sLit("d"), sObj(), sDef(sAttr("a", "string", false), sLit("d")), sDef(sAttr("a", "string", false), sLabel(0)), sTE("[it, tv]", sLabel(0)), sTF("upper", sDef(sAttr("a", "string", false), sAttr("b", "string", false))),
	{K: "block", Name: "blk", X: []*sNode{sAttr("a", "number", false)}}, {K: "list", Name: "blk", X: []*sNode{sLabel(0)}}, {K: "attrs", Name: "blk", Ty: "string"}, {K: "expr", Name: "v"}, sLit("nulla"),
	sObj(sLabel(0), &sNode{K: "map", Name: "blk", Labels: 1, X: []*sNode{sAttr("a", "number", false)}}, sAttr("a", "string", false)),
}

// sBlocks are the specifications of blocks with the given nested one.
func sBlocks(name string, x *sNode) []*sNode {
	ret := []*sNode{{K: "block", Name: name, X: []*sNode{x}}, {K: "block", Name: name, Req: true, X: []*sNode{x}}}
	for _, k := range []string{"list", "tuple", "set"} {
		for _, m := range [][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 2}} {
			ret = append(ret, &sNode{K: k, Name: name, Min: m[0], Max: m[1], X: []*sNode{x}})
		}
	}
	for l := 1; l <= 2; l++ {
		if !anyIn(x.ty()) {
			ret = append(ret, &sNode{K: "map", Name: name, Labels: l, X: []*sNode{x}})
		}
		ret = append(ret, &sNode{K: "object", Name: name, Labels: l, X: []*sNode{x}})
	}
	return ret
}

// anyIn tells whether a type is not completely known.
func anyIn(t cty.Type) bool {
	if t.IsCollectionType() {
		return anyIn(t.ElementType())
	}
	if t.IsObjectType() {
		for _, x := range t.AttributeTypes() {
			if anyIn(x) {
				return true
			}
		}
	}
	if t.IsTupleType() {
		for _, x := range t.TupleElementTypes() {
			if anyIn(x) {
				return true
			}
		}
	}
	return t == cty.DynamicPseudoType
}

var sItems = []*bItem{
	bAttr("a", "1"), bAttr("a", `"s"`), bAttr("a", `"5"`), bAttr("a", "true"), bAttr("a", `[1, "x"]`), bAttr("a", "[2, 1, 2]"), bAttr("a", "{k = 1}"), bAttr("a", "{k = true, l = 2}"), bAttr("a", "null"), bAttr("a", "v"), bAttr("a", "u"), bAttr("a", "un"), bAttr("a", "d"), bAttr("a", "l"), bAttr("a", "nope"), bAttr("a", "[]"), bAttr("a", "[nope]"), bAttr("a", "[u, \"z\"]"),
	bAttr("b", "2"), bAttr("b", "null"), bAttr("b", "v"), bAttr("b", "nope"),
	bAttr("z", "1"),
	bBlock("blk", nil), bBlock("blk", nil, bAttr("a", "1")), bBlock("blk", nil, bAttr("a", `"s"`)), bBlock("blk", nil, bAttr("a", "u")), bBlock("blk", nil, bAttr("a", "d")), bBlock("blk", nil, bAttr("a", "null")), bBlock("blk", nil, bAttr("a", "1"), bAttr("b", "2")), bBlock("blk", nil, bAttr("b", "v")), bBlock("blk", nil, bAttr("z", "1")), bBlock("blk", nil, bAttr("a", "[1, \"x\"]")), bBlock("blk", nil, bAttr("a", "nope")), bBlock("blk", nil, bAttr("a", "true"), bAttr("b", "[]")),
	bBlock("blk", []string{"x"}, bAttr("a", "1")), bBlock("blk", []string{"x"}, bAttr("a", `"s"`)), bBlock("blk", []string{"y"}, bAttr("a", "1")), bBlock("blk", []string{"y"}),
	bBlock("blk", []string{"x", "y"}, bAttr("a", "1")), bBlock("blk", []string{"x", "z"}, bAttr("a", "2")), bBlock("blk", []string{"y", "y"}, bAttr("a", "u")), bBlock("blk", []string{"x", "y", "z"}), bBlock("blk", []string{"x", "y", "w"}, bAttr("a", "2")),
	bBlock("blk", nil, bBlock("blk", nil, bAttr("a", "1"))), bBlock("blk", nil, bBlock("blk", []string{"w"}), bBlock("blk", []string{"v"})), bBlock("blk", nil, bBlock("blk", nil, bAttr("a", "1")), bBlock("blk", nil)), bBlock("blk", []string{"x"}, bBlock("blk", []string{"w"}, bAttr("a", "2")), bAttr("a", "v")), bBlock("blk", []string{"x"}, bBlock("blk", nil, bAttr("a", "1"))), bBlock("blk", []string{"x", "y"}, bBlock("blk", []string{"w"}, bAttr("a", "2"))),
	bBlock("other", nil), bBlock("other", []string{"x"}, bAttr("a", "1")),
}

// each calls f with every sequence of items that may matter to the
// specification and one that does not.
func (n *sNode) each(max int, f func(idx []int)) { n.schema().eachItems(max, f) }

func (s sSchema) eachItems(max int, f func(idx []int)) {
	var use []int
	foreign := map[string]bool{}
	for i, it := range sItems {
		_, isAttr := s.attrs[it.Name]
		l, isBlock := s.blocks[it.Name]
		if it.Blk {
			isAttr = false
		} else {
			isBlock = false
		}
		if isBlock && len(it.Labels) != l {
			// one of each wrong number of labels
			k := fmt.Sprint("labels", len(it.Labels))
			if foreign[k] {
				continue
			}
			foreign[k] = true
		} else if !isAttr && !isBlock {
			k := fmt.Sprint(it.Blk)
			if foreign[k] {
				continue
			}
			foreign[k] = true
		}
		use = append(use, i)
	}
	eachSeq(len(use), 0, max, func(seq []int) {
		names := map[string]bool{}
		idx := make([]int, len(seq))
		for i, k := range seq {
			it := sItems[use[k]]
			if !it.Blk {
				if names[it.Name] {
					return
				}
				names[it.Name] = true
			}
			idx[i] = use[k]
		}
		f(idx)
	})
}

func (c specCase) items() []*bItem {
	var items []*bItem
	for _, i := range c.Items {
		items = append(items, sItems[i])
	}
	return append(items, c.More...)
}

// sSpecs enumerates specifications.
func sSpecs(t fw.Tier, yield func(*sNode, int)) {
	out := func(n *sNode, max int) {
		if !n.schema().bad {
			yield(n, max)
		}
	}
	for i, x := range sLeaves {
		out(x, 3)
		for j, y := range sLeaves {
			out(sObj(x, y), fw.Pick(t, 2-min(1, (i+j)%3), 2))
			out(sTup(y, x), fw.Pick(t, 2-min(1, (i+j+1)%3), 2))
		}
	}
	var blocks []*sNode
	for _, x := range sNested {
		blocks = append(blocks, sBlocks("blk", x)...)
	}
	for _, ty := range []string{"string", "number", "any"} {
		for _, req := range []bool{false, true} {
			blocks = append(blocks, &sNode{K: "attrs", Name: "blk", Ty: ty, Req: req})
		}
	}
	for i, b := range blocks {
		out(b, fw.Pick(t, 3-min(1, (i+i/18)%4), 3))
		out(sObj(b, sAttr("a", "number", false)), 2)
		out(sTup(b, &sNode{K: "list", Name: "other", X: []*sNode{sAttr("a", "any", false)}}), 2)
		out(sTE("[it, tv]", b), 2)
		out(sTE("it == null", b), 2)
		out(sTF("len", b), 2)
		if b.ty().Equals(cty.String) {
			out(sDef(b, sLit("d")), 2)
			out(sDef(b, sAttr("b", "string", false)), 2)
			out(sTF("upper", b), 2)
		}
		if t == fw.Thorough {
			out(sObj(b, b), 2)
			for j := i % 7; j < len(blocks); j += 7 {
				out(sTup(b, blocks[j]), 2)
			}
			for _, deep := range sBlocks("blk", b) {
				out(deep, 2)
			}
		} else if i%3 == 0 {
			for j, deep := range sBlocks("blk", b) {
				if j%4 == (i/3)%4 {
					out(deep, 1)
				}
			}
		}
	}
}

func yieldSpecCases(t fw.Tier, yield func(specCase)) {
	sSpecs(t, func(n *sNode, max int) {
		n.each(fw.Pick(t, max, max), func(idx []int) {
			yield(specCase{Spec: n, Items: append([]int{}, idx...)})
		})
	})
}

// runModel decodes with the model. Elements of unlike types of which some are
// not known can make the result undefined.
func runModel(n *sNode, items []*bItem, partial, ctx, pin bool) (v cty.Value, d *sDec, ok bool) {
	d = &sDec{ctx: ctx, pin: pin}
	defer func() {
		if p := recover(); p != nil {
			ok = false
		}
	}()
	return d.body(n, items, nil, partial), d, true
}

func checkSpec(r *fw.Rec, c specCase) {
	items := c.items()
	spec := c.Spec.spec()
	for _, isJSON := range []bool{false, true} {
		if isJSON && !sLabelsFit(c.Spec, items) {
			continue
		}
		body, src, msg := sBody(items, isJSON)
		if body == nil {
			r.Failf("", "%q is rejected: %s", src, msg)
			return
		}
		r.State(src)
		for _, partial := range []bool{false, true} {
			for _, ctx := range []*hcl.EvalContext{sCtx, nil} {
				if ctx == nil && isJSON {
					continue // templates are not evaluated then
				}
				want, d, ok := runModel(c.Spec, items, partial, ctx != nil, false)
				r.Op(1)
				var got cty.Value
				var diags hcl.Diagnostics
				var rest hcl.Body
				if partial {
					got, rest, diags = hcldec.PartialDecode(body, spec, ctx)
				} else {
					got, diags = hcldec.Decode(body, spec, ctx)
				}
				if !ok {
					r.Count("unjudged", 1)
					continue
				}
				if diags.HasErrors() != (len(d.errs) > 0) {
					r.Failf("", "decoding %q with %s: errors %s, expected %s", src, c.Spec, diagsStr(diags), d.errs)
					return
				}
				if !diags.HasErrors() && !got.RawEquals(want) {
					sig := ""
					if alt, _, ok := runModel(c.Spec, items, partial, ctx != nil, true); ok && got.RawEquals(alt) {
						sig = "map-empty"
					}
					r.Failf(sig, "decoding %q with %s gives %#v instead of %#v", src, c.Spec, got, want)
					return
				}
				if partial {
					if m := badRest(c.Spec, items, rest); m != "" {
						r.Failf("", "decoding a part of %q with %s: %s", src, c.Spec, m)
						return
					}
				}
			}
		}
		r.Trace()
	}
}

// badRest says what is wrong with the remaining body.
func badRest(n *sNode, items []*bItem, rest hcl.Body) string {
	s := n.schema()
	schema := &hcl.BodySchema{}
	var want []string
	seen := map[string]bool{}
	for _, it := range items {
		_, a := s.attrs[it.Name]
		_, b := s.blocks[it.Name]
		if !it.Blk && !a {
			schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: it.Name, Required: true})
			want = append(want, it.Name)
		}
		if it.Blk && !b {
			if !seen[it.Name] {
				schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: it.Name, LabelNames: bLabelNames[:len(it.Labels)]})
				seen[it.Name] = true
			}
			want = append(want, it.Name)
		}
	}
	c, diags := rest.Content(schema)
	if diags.HasErrors() {
		return "what remains has errors: " + diagsStr(diags)
	}
	var got []string
	for name := range c.Attributes {
		got = append(got, name)
	}
	for _, b := range c.Blocks {
		got = append(got, b.Type)
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("what remains is %v instead of %v", got, want)
	}
	return ""
}

func init() {
	fw.Register(&fw.Check{
		ID:          "C22",
		Assumptions: []string{"type conversion and unification are those of the cty library"},
		Suites: []fw.Suite{
			fw.S("specs", fmt.Sprintf("every specification out of %d that read attributes, pairs of them, %d nested ones in each kind of block specification, these in objects, tuples, defaults, transforms and again in blocks; each with every body of up to 3 (pairs and others 2, nested blocks 1; thorough 2) items that matter to it out of %d", len(sLeaves), len(sNested), len(sItems)),
				yieldSpecCases, checkSpec),
		},
	})
}
