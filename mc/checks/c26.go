package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"verif/mc/fw"
)

// dItem is an attribute, a block or a dynamic block.
type dItem struct {
	K      string   // "a", "b" or "d"
	Name   string   // or the generated type
	Refs   []string `json:",omitempty"` // the values of an attribute
	Labels []string `json:",omitempty"`
	For    string   `json:",omitempty"`
	Iter   string   `json:",omitempty"`
	NoLab  bool     `json:",omitempty"` // no labels argument
	Bad    string   `json:",omitempty"` // what is wrong with a dynamic block
	Body   []*dItem `json:",omitempty"`
}

func dA(name string, refs ...string) *dItem { return &dItem{K: "a", Name: name, Refs: refs} }
func dB(name string, labels []string, body ...*dItem) *dItem {
	return &dItem{K: "b", Name: name, Labels: labels, Body: body}
}
func dD(name, each, iter string, labels []string, body ...*dItem) *dItem {
	return &dItem{K: "d", Name: name, For: each, Iter: iter, Labels: labels, NoLab: labels == nil, Body: body}
}

// dExpr is the source of an attribute's value.
func (it *dItem) dExpr() string {
	if len(it.Refs) == 1 {
		return it.Refs[0]
	}
	return "[" + strings.Join(it.Refs, ", ") + "]"
}

func dNative(b *strings.Builder, items []*dItem) {
	for _, it := range items {
		switch it.K {
		case "a":
			fmt.Fprintf(b, "%s = %s\n", it.Name, it.dExpr())
		case "b":
			b.WriteString(it.Name)
			for _, l := range it.Labels {
				fmt.Fprintf(b, " %q", l)
			}
			b.WriteString(" {\n")
			dNative(b, it.Body)
			b.WriteString("}\n")
		case "d":
			switch it.Bad {
			case "no-type":
				b.WriteString("dynamic {\n")
			case "two-types":
				fmt.Fprintf(b, "dynamic %q \"x\" {\n", it.Name)
			default:
				fmt.Fprintf(b, "dynamic %q {\n", it.Name)
			}
			if it.Bad != "no-each" {
				fmt.Fprintf(b, "for_each = %s\n", it.For)
			}
			if it.Iter != "" {
				fmt.Fprintf(b, "iterator = %s\n", it.Iter)
			}
			if !it.NoLab {
				fmt.Fprintf(b, "labels = [%s]\n", strings.Join(it.Labels, ", "))
			}
			if it.Bad == "labels" {
				b.WriteString("labels = v\n")
			}
			if it.Bad == "extra" {
				b.WriteString("extra = 1\n")
			}
			if it.Bad == "extra-block" {
				b.WriteString("extra {\n}\n")
			}
			if it.Bad != "no-content" {
				b.WriteString("content {\n")
				dNative(b, it.Body)
				b.WriteString("}\n")
			}
			if it.Bad == "two-contents" {
				b.WriteString("content {\n}\n")
			}
			b.WriteString("}\n")
		}
	}
}

func dTmpl(ref string) string { return fmt.Sprintf("%q", "${"+ref+"}") }

// dJSON writes the items as a JSON object in which names may be repeated.
func dJSON(items []*dItem) string {
	var p []string
	for _, it := range items {
		switch it.K {
		case "a":
			v := dTmpl(it.Refs[0])
			if len(it.Refs) != 1 {
				v = dTmpl(it.dExpr())
			}
			p = append(p, fmt.Sprintf("%q: %s", it.Name, v))
		case "b":
			s := dJSON(it.Body)
			for i := len(it.Labels) - 1; i >= 0; i-- {
				s = fmt.Sprintf("{%q: %s}", it.Labels[i], s)
			}
			p = append(p, fmt.Sprintf("%q: %s", it.Name, s))
		case "d":
			var in []string
			if it.Bad != "no-each" {
				in = append(in, `"for_each": `+dTmpl(it.For))
			}
			if it.Iter != "" {
				in = append(in, fmt.Sprintf(`"iterator": %q`, it.Iter))
			}
			if !it.NoLab {
				var ls []string
				for _, l := range it.Labels {
					ls = append(ls, dTmpl(l))
				}
				in = append(in, `"labels": [`+strings.Join(ls, ", ")+"]")
			}
			if it.Bad == "labels" {
				in = append(in, `"labels": "${v}"`)
			}
			if it.Bad == "extra" || it.Bad == "extra-block" {
				in = append(in, `"extra": {}`)
			}
			if it.Bad != "no-content" {
				in = append(in, `"content": `+dJSON(it.Body))
			}
			if it.Bad == "two-contents" {
				in = append(in, `"content": {}`)
			}
			p = append(p, fmt.Sprintf(`"dynamic": {%q: {%s}}`, it.Name, strings.Join(in, ", ")))
		}
	}
	return "{" + strings.Join(p, ", ") + "}"
}

// The variables for expansion and those for the content.
var dForVars = map[string]cty.Value{
	"v": str("expand"), "l": lst(str("p"), str("q")), "s": cty.SetVal([]cty.Value{str("y"), str("x")}), "m": mapv("k", str("mk"), "j", str("mj")), "le": cty.ListValEmpty(cty.String), "me": cty.MapValEmpty(cty.Number),
	"ul": cty.UnknownVal(cty.List(cty.String)), "um": cty.UnknownVal(cty.Map(cty.String)), "d": cty.DynamicVal, "us": cty.UnknownVal(cty.String), "nl": cty.NullVal(cty.List(cty.String)), "lu": lst(cty.UnknownVal(cty.String), str("z")), "ll": lst(lst(str("a"), str("b")), cty.ListValEmpty(cty.String), lst(str("c"))),
	"lo": tup(obj("x", num("1")), obj("x", num("2"))), "lul": lst(cty.UnknownVal(cty.List(cty.String)), lst(str("k"))), "ms": cty.MapVal(map[string]cty.Value{"k": cty.SetVal([]cty.Value{num("2"), num("1")})}),
}

// dSized are the sizes of the lists and maps of the alphabet of sizes.
var dSized = []int{3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 257}

func init() {
	for _, n := range dSized {
		var l []cty.Value
		m := map[string]cty.Value{}
		for i := 0; i < n; i++ {
			l = append(l, str(fmt.Sprint("e", i)))
			m[fmt.Sprint("k", i)] = l[i]
		}
		dForVars[fmt.Sprint("l", n)], dForVars[fmt.Sprint("m", n)], dForVars[fmt.Sprint("s", n)] = cty.ListVal(l), cty.MapVal(m), cty.SetVal(l)
	}
}

// dynDeep gives dynamic blocks of three and four levels.
func dynDeep(t fw.Tier, yield func(dCase)) {
	iters := []string{"", "it", "in"}
	use := func(i int) []*dItem {
		return [][]*dItem{{dA("a", "blk.key", "blk.value"), dA("b", "it.key")}, {dA("a", "it.key", "in.value"), dA("b", "it.value", "blk.value")}, {dA("a", "in.key", "in.value")}}[i]
	}
	eachSeq(3, 3, 3, func(it []int) {
		for _, f0 := range []string{"l", "m", "ll"} {
			for _, f1 := range []string{"l", "m", "blk.value", "it.value"} {
				for _, f2 := range []string{"l", "s", "blk.value", "in.value"} {
					for c := 0; c < 3; c++ {
						for i, names := range [][]string{{"blk", "blk"}, {"other", "blk"}, {"blk", "other"}} {
							if t == fw.Quick && (i+c+it[0]+it[1])%3 != 0 {
								continue
							}
							inner := dD(names[1], f2, iters[it[2]], nil, use(c)...)
							mid := dD("blk", f1, iters[it[1]], nil, dA("a", "it.value"), inner, dA("b", "blk.key"))
							yield(dCase{[]*dItem{dD(names[0], f0, iters[it[0]], nil, mid)}, 0})
						}
					}
				}
			}
		}
	})
	eachSeq(3, 4, 4, func(it []int) {
		for c := 0; c < 3; c++ {
			d := dD("blk", "l", iters[it[3]], nil, use(c)...)
			for i := 2; i >= 0; i-- {
				d = dD("blk", "l", iters[it[i]], nil, dA("a", "blk.key"), d)
			}
			yield(dCase{[]*dItem{d}, 0})
		}
	})
	// The iterators of inner blocks are not those of what follows them.
	eachSeq(4, 4, 4, func(it []int) {
		names := []string{"", "it", "in", "v"}
		after := func() *dItem {
			return dB("other", nil, dA("a", "in.key"), dA("b", "it.key"), dB("other", nil, dA("a", "blk.key"), dA("b", "v.key")))
		}
		d := dD("blk", "l", names[it[3]], nil, dA("a", "in.key"))
		for i := 2; i >= 0; i-- {
			d = dD("blk", "l", names[it[i]], nil, d, after())
		}
		yield(dCase{[]*dItem{d, after()}, 0})
	})
	for _, n := range dSized {
		for _, k := range []string{"l", "m", "s"} {
			f := fmt.Sprint(k, n)
			yield(dCase{[]*dItem{dB("blk", nil), dD("blk", f, "", nil, dA("a", "blk.key", "blk.value")), dB("blk", nil, dA("a", "1"))}, 0})
			yield(dCase{[]*dItem{dD("blk", f, "it", []string{"it.key"}, dA("a", "it.value"))}, 1})
			if n <= 33 {
				yield(dCase{[]*dItem{dD("blk", f, "", nil, dA("a", "blk.key"), dD("other", f, "", nil, dA("a", "blk.value", "other.value")))}, 0})
			}
		}
		var many []*dItem
		for i := 0; i < n; i++ {
			many = append(many, dD([]string{"blk", "other"}[i%2], []string{"l", "[]", "m"}[i%3], "", nil, dA("a", "v")))
		}
		yield(dCase{many, 0})
	}
}

var dContentVars = map[string]cty.Value{"v": str("content"), "blk": obj("key", str("bk"), "value", str("bv")), "cv": tup(num("1"), str("x"))}

// dEval evaluates a reference; ok is false if it fails.
func dEval(ref string, iters, vars map[string]cty.Value) (cty.Value, bool) {
	switch ref {
	case "1":
		return num("1"), true
	case `"s"`:
		return str("s"), true
	case "null":
		return cty.NullVal(cty.DynamicPseudoType), true
	case "[]":
		return cty.EmptyTupleVal, true
	case "{}":
		return cty.EmptyObjectVal, true
	case `["t", 2]`:
		return tup(str("t"), num("2")), true
	case `{z = "oz", b = 3}`:
		return obj("z", str("oz"), "b", num("3")), true
	}
	steps := strings.Split(ref, ".")
	v, ok := iters[steps[0]]
	if !ok {
		v, ok = vars[steps[0]]
	}
	if !ok {
		return cty.DynamicVal, false
	}
	for _, s := range steps[1:] {
		if v.Type() == cty.DynamicPseudoType && !v.IsKnown() {
			return cty.DynamicVal, true
		}
		if v.IsNull() || !v.Type().IsObjectType() && !v.Type().IsMapType() {
			return cty.DynamicVal, false
		}
		if v.Type().IsObjectType() {
			if !v.Type().HasAttribute(s) {
				return cty.DynamicVal, false
			}
			v = v.GetAttr(s)
			continue
		}
		return cty.DynamicVal, false
	}
	return v, true
}

// dRoots are the variables in references.
func dRoots(refs []string) []string {
	var ret []string
	for _, r := range refs {
		switch r[0] {
		case '"', '[', '{', '1':
			continue
		}
		if r != "null" {
			ret = append(ret, strings.Split(r, ".")[0])
		}
	}
	return ret
}

// dOut is an expanded body.
type dOut struct {
	Attrs  map[string]string
	Blocks []dOutBlock
	Errs   []string
}

type dOutBlock struct {
	Type   string
	Labels []string
	Body   *dOut
}

// dModel expands by hand.
type dModel struct {
	labels  int // of blocks of type blk
	content map[string]cty.Value
	all     bool // all attributes are read
}

func (m dModel) labelCount(name string) int {
	if name == "blk" {
		return m.labels
	}
	return 0
}

func (m dModel) expand(items []*dItem, iters map[string]cty.Value, unknown bool) *dOut {
	out := &dOut{Attrs: map[string]string{}}
	bad := func(f string, a ...interface{}) { out.Errs = append(out.Errs, fmt.Sprintf(f, a...)) }
	block := func(name string, labels []string, body []*dItem, iters map[string]cty.Value, unknown bool) {
		out.Blocks = append(out.Blocks, dOutBlock{name, labels, m.expand(body, iters, unknown)})
	}
	for _, it := range items {
		switch it.K {
		case "a":
			if it.Name == "z" && !m.all {
				bad("unsupported")
				continue
			}
			out.Attrs[it.Name] = m.attr(it, iters, unknown)
		case "b":
			if len(it.Labels) != m.labelCount(it.Name) {
				bad("labels")
				continue
			}
			block(it.Name, it.Labels, it.Body, iters, unknown)
		case "d":
			if it.Name != "blk" && it.Name != "other" {
				bad("unsupported")
				continue
			}
			if it.Bad != "" {
				bad("%s", it.Bad)
				continue
			}
			n := m.labelCount(it.Name)
			if it.NoLab != (n == 0) || !it.NoLab && len(it.Labels) != n {
				bad("labels")
				continue
			}
			each, ok := dEval(it.For, iters, dForVars)
			if !ok {
				bad("for_each")
				continue
			}
			name := it.Name
			if it.Iter != "" {
				name = it.Iter
				if strings.ContainsAny(name, ".1[\"") {
					bad("iterator")
					continue
				}
			}
			ty := each.Type()
			if each.IsNull() || ty != cty.DynamicPseudoType && !ty.IsCollectionType() && !ty.IsTupleType() && !ty.IsObjectType() {
				bad("for_each value")
				continue
			}
			one := func(k, v cty.Value, unk bool) {
				in := map[string]cty.Value{}
				for n, o := range iters {
					in[n] = o
				}
				in[name] = obj("key", k, "value", v)
				var labels []string
				for _, l := range it.Labels {
					lv, ok := dEval(l, in, dForVars)
					if ok {
						var err error
						lv, err = convert.Convert(lv, cty.String)
						ok = err == nil && !lv.IsNull() && lv.IsKnown()
					}
					if !ok {
						bad("label")
						return
					}
					labels = append(labels, lv.AsString())
				}
				block(it.Name, labels, it.Body, in, unknown || unk)
			}
			if !each.IsKnown() {
				one(cty.DynamicVal, cty.DynamicVal, true)
				continue
			}
			for e := each.ElementIterator(); e.Next(); {
				k, v := e.Element()
				one(k, v, false)
			}
		}
	}
	return out
}

func (m dModel) attr(it *dItem, iters map[string]cty.Value, unknown bool) string {
	if unknown {
		return dAttr(cty.DynamicVal, false, nil)
	}
	var vs []cty.Value
	for _, r := range it.Refs {
		v, ok := dEval(r, iters, m.content)
		if !ok {
			return dAttr(cty.DynamicVal, true, m.free(it.Refs, iters))
		}
		vs = append(vs, v)
	}
	v := vs[0]
	if len(vs) > 1 {
		v = cty.TupleVal(vs)
	}
	return dAttr(v, false, m.free(it.Refs, iters))
}

func (m dModel) free(refs []string, iters map[string]cty.Value) []string {
	var ret []string
	for _, r := range dRoots(refs) {
		if _, ok := iters[r]; !ok {
			ret = append(ret, r)
		}
	}
	return ret
}

func dAttr(v cty.Value, err bool, vars []string) string {
	vars = append([]string{}, vars...)
	sort.Strings(vars)
	if err {
		return fmt.Sprintf("error vars%v", vars)
	}
	return fmt.Sprintf("%#v vars%v", v, vars)
}

func (o *dOut) write(b *strings.Builder, indent string) {
	var names []string
	for n := range o.Attrs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(b, "%s%s = %s\n", indent, n, o.Attrs[n])
	}
	for _, k := range o.Blocks {
		fmt.Fprintf(b, "%s%s %q\n", indent, k.Type, k.Labels)
		k.Body.write(b, indent+"  ")
	}
	if len(o.Errs) > 0 {
		fmt.Fprintf(b, "%serrors\n", indent)
	}
}

func (o *dOut) hasErrors() bool {
	if len(o.Errs) > 0 {
		return true
	}
	for _, k := range o.Blocks {
		if k.Body.hasErrors() {
			return true
		}
	}
	return false
}

func (o *dOut) String() string {
	var b strings.Builder
	o.write(&b, "")
	return b.String()
}

func dSchema(labels int) *hcl.BodySchema {
	return &hcl.BodySchema{
		Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "b"}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "blk", LabelNames: bLabelNames[:labels]}, {Type: "other"}},
	}
}

// dWays are the ways of extracting the content of a body.
var dWays = []string{"content", "attributes first", "blocks first", "one by one", "just attributes"}

// dRead reads an expanded body.
func dRead(body hcl.Body, labels int, way string, ctx *hcl.EvalContext, ranges func(hcl.Range) bool) *dOut {
	out := &dOut{Attrs: map[string]string{}}
	s := dSchema(labels)
	sub := func(attrs []hcl.AttributeSchema, blocks []hcl.BlockHeaderSchema) *hcl.BodySchema {
		return &hcl.BodySchema{Attributes: attrs, Blocks: blocks}
	}
	var blocks []hcl.Blocks
	attrs := hcl.Attributes{}
	take := func(c *hcl.BodyContent, diags hcl.Diagnostics) {
		for n, a := range c.Attributes {
			if attrs[n] != nil {
				out.Errs = append(out.Errs, "attribute twice")
			}
			attrs[n] = a
		}
		blocks = append(blocks, c.Blocks)
		if diags.HasErrors() {
			out.Errs = append(out.Errs, diagsStr(diags))
		}
	}
	switch way {
	case "content":
		c, diags := body.Content(s)
		take(c, diags)
	case "attributes first":
		c, rest, diags := body.PartialContent(sub(s.Attributes, nil))
		take(c, diags)
		all, _ := body.JustAttributes()
		for n := range attrs {
			if all[n] == nil {
				out.Errs = append(out.Errs, "not all attributes")
			} else {
				attrs[n] = all[n]
			}
		}
		c, diags = rest.Content(sub(nil, s.Blocks))
		take(c, diags)
	case "blocks first":
		c, rest, diags := body.PartialContent(sub(nil, s.Blocks))
		take(c, diags)
		c, diags = rest.Content(sub(s.Attributes, nil))
		take(c, diags)
	case "one by one":
		c, rest, diags := body.PartialContent(sub(s.Attributes[:1], s.Blocks[1:]))
		take(c, diags)
		c, rest, diags = rest.PartialContent(sub(nil, s.Blocks[:1]))
		take(c, diags)
		c, diags = rest.Content(sub(s.Attributes[1:], nil))
		take(c, diags)
	case "just attributes":
		c, rest, diags := body.PartialContent(sub(nil, s.Blocks))
		take(c, diags)
		as, diags := rest.JustAttributes()
		take(&hcl.BodyContent{Attributes: as}, diags)
	}
	for n, a := range attrs {
		v, diags := a.Expr.Value(ctx)
		var vars []string
		for _, t := range a.Expr.Variables() {
			vars = append(vars, t.RootName())
		}
		if a.Name != n || !ranges(a.Range) || !ranges(a.NameRange) || !ranges(a.Expr.Range()) {
			out.Errs = append(out.Errs, "attribute name or range")
		}
		out.Attrs[n] = dAttr(v, diags.HasErrors(), vars)
	}
	for _, bs := range blocks {
		for _, b := range bs {
			if !ranges(b.DefRange) || !ranges(b.TypeRange) || len(b.LabelRanges) != len(b.Labels) {
				out.Errs = append(out.Errs, "block range")
			}
			out.Blocks = append(out.Blocks, dOutBlock{b.Type, append([]string(nil), b.Labels...), dRead(b.Body, labels, way, ctx, ranges)})
		}
	}
	return out
}

// byType puts blocks of type other before those of type blk, as reading one by
// one does.
func (o *dOut) byType() *dOut {
	n := &dOut{Attrs: o.Attrs, Errs: o.Errs}
	for _, t := range []string{"other", "blk"} {
		for _, b := range o.Blocks {
			if b.Type == t {
				b.Body = b.Body.byType()
				n.Blocks = append(n.Blocks, b)
			}
		}
	}
	return n
}

// dVars are the variables that expanding needs, or with the content.
func (m dModel) vars(items []*dItem, iters map[string]bool, content bool, set map[string]bool) {
	need := func(refs []string, iters map[string]bool) {
		for _, r := range dRoots(refs) {
			if !iters[r] {
				set[r] = true
			}
		}
	}
	for _, it := range items {
		switch it.K {
		case "a":
			if content && it.Name != "z" {
				need(it.Refs, iters)
			}
		case "b":
			m.vars(it.Body, iters, content, set)
		case "d":
			need([]string{it.For}, iters)
			in := map[string]bool{}
			for n := range iters {
				in[n] = true
			}
			if it.Iter != "" {
				in[it.Iter] = true
			} else {
				in[it.Name] = true
			}
			need(it.Labels, in)
			m.vars(it.Body, in, content, set)
		}
	}
}

func dSet(set map[string]bool) string {
	var ret []string
	for n := range set {
		ret = append(ret, n)
	}
	sort.Strings(ret)
	return strings.Join(ret, " ")
}

func dTravs(ts []hcl.Traversal) string {
	set := map[string]bool{}
	for _, t := range ts {
		set[t.RootName()] = true
	}
	return dSet(set)
}

func dWalk(n dynblock.WalkVariablesNode, s *hcl.BodySchema) []hcl.Traversal {
	vars, children := n.Visit(s)
	for _, c := range children {
		vars = append(vars, dWalk(c.Node, s)...)
	}
	return vars
}

// dSpec is a specification that reads four levels.
func dSpec(labels, depth int) hcldec.Spec {
	o := hcldec.ObjectSpec{"a": &hcldec.AttrSpec{Name: "a", Type: cty.DynamicPseudoType}, "b": &hcldec.AttrSpec{Name: "b", Type: cty.DynamicPseudoType}}
	for i := 0; i < labels; i++ {
		o[fmt.Sprint("l", i)] = &hcldec.BlockLabelSpec{Index: i, Name: "l"}
	}
	if depth > 0 {
		o["blk"] = &hcldec.BlockTupleSpec{TypeName: "blk", Nested: dSpec(labels, depth-1)}
		o["other"] = &hcldec.BlockTupleSpec{TypeName: "other", Nested: dSpec(0, 0)}
	}
	return o
}

// dCase is a body and the number of labels of its blocks.
type dCase struct {
	Items  []*dItem
	Labels int
}

func (it *dItem) sane() bool {
	if it.Bad != "" || it.K == "d" && (it.Name != "blk" && it.Name != "other" || strings.ContainsAny(it.Iter, ".1[\"")) {
		return false
	}
	for _, x := range it.Body {
		if !x.sane() {
			return false
		}
	}
	return true
}

// fits is whether JSON cannot mistake anything.
func (it *dItem) fits(labels int) bool {
	if it.Bad == "no-type" || it.Bad == "two-types" || it.K == "b" && it.Name == "blk" && len(it.Labels) != labels || it.K == "b" && it.Name == "other" && len(it.Labels) != 0 {
		return false
	}
	for _, x := range it.Body {
		if !x.fits(labels) {
			return false
		}
	}
	return true
}

func checkDyn(r *fw.Rec, c dCase) {
	m := dModel{c.Labels, dContentVars, false}
	want := m.expand(c.Items, nil, false)
	sane, fits := true, true
	for _, it := range c.Items {
		sane = sane && it.sane()
		fits = fits && it.fits(c.Labels)
	}
	forCtx := &hcl.EvalContext{Variables: dForVars}
	ctx := &hcl.EvalContext{Variables: dContentVars}
	for _, isJSON := range []bool{false, true} {
		var b strings.Builder
		var f *hcl.File
		var diags hcl.Diagnostics
		if isJSON {
			if !fits {
				continue
			}
			b.WriteString(dJSON(c.Items))
			f, diags = json.Parse([]byte(b.String()), "t")
		} else {
			dNative(&b, c.Items)
			f, diags = hclsyntax.ParseConfig([]byte(b.String()), "t", hcl.InitialPos)
		}
		src := b.String()
		if diags.HasErrors() {
			r.Failf("", "%q is rejected: %s", src, diagsStr(diags))
			return
		}
		r.State(src)
		body := dynblock.Expand(f.Body, forCtx)
		inFile := func(x hcl.Range) bool {
			return x.Filename == "t" && x.Start.Byte >= 0 && x.Start.Byte <= x.End.Byte && x.End.Byte <= len(src)
		}
		for _, way := range dWays {
			if isJSON && way == "just attributes" && (len(want.Errs) > 0 || want.hasErrors()) {
				continue
			}
			w := want
			if way == "one by one" {
				w = want.byType()
			}
			if way == "just attributes" {
				w = dModel{c.Labels, dContentVars, true}.expand(c.Items, nil, false)
			}
			r.Op(1)
			got := dRead(body, c.Labels, way, ctx, inFile)
			if g, w := got.String(), w.String(); g != w {
				r.Failf("", "expanding %q with %d labels, read by %s, gives\n%s(%s)\ninstead of\n%s", src, c.Labels, way, g, got.Errs, w)
				return
			}
		}
		if sane && fits {
			s := dSchema(c.Labels)
			for _, content := range []bool{false, true} {
				set := map[string]bool{}
				m.vars(c.Items, nil, content, set)
				var node dynblock.WalkVariablesNode
				var dec []hcl.Traversal
				spec := dSpec(c.Labels, 4)
				if content {
					node = dynblock.WalkVariables(f.Body)
					dec = dynblock.VariablesHCLDec(f.Body, spec)
				} else {
					node = dynblock.WalkExpandVariables(f.Body)
					dec = dynblock.ExpandVariablesHCLDec(f.Body, spec)
				}
				r.Op(2)
				if got := dTravs(dWalk(node, s)); got != dSet(set) {
					r.Failf("", "the variables (with content: %v) of %q are %s instead of %s", content, src, got, dSet(set))
					return
				}
				if got := dTravs(dec); got != dSet(set) && !dOtherNested(c.Items, false) {
					r.Failf("", "the variables by specification (with content: %v) of %q are %s instead of %s", content, src, got, dSet(set))
					return
				}
			}
		} else {
			// Reading the variables of a malformed body does not crash.
			s, spec := dSchema(c.Labels), dSpec(c.Labels, 4)
			dWalk(dynblock.WalkVariables(f.Body), s)
			dWalk(dynblock.WalkExpandVariables(f.Body), s)
			dynblock.VariablesHCLDec(f.Body, spec)
			dynblock.ExpandVariablesHCLDec(f.Body, spec)
		}
		r.Trace()
	}
}

// dOtherNested is whether a block of type other has nested blocks, which the
// specification does not read.
func dOtherNested(items []*dItem, in bool) bool {
	for _, it := range items {
		if in && it.K != "a" || dOtherNested(it.Body, it.K != "a" && it.Name == "other") {
			return true
		}
	}
	return false
}

var (
	dFors    = []string{"[]", "{}", `["t", 2]`, `{z = "oz", b = 3}`, "l", "s", "m", "le", "me", "ul", "um", "d", "us", "nl", "null", "1", `"s"`, "nope", "lu", "ll", "lo", "v", "lul", "ms", "v.x"}
	dIters   = []string{"", "it", "v", "l", "blk", "it.x", "\"it\"", "1"}
	dContent = [][]*dItem{nil, {dA("a", "blk.key")}, {dA("a", "it.value"), dA("b", "v")}, {dA("a", "blk.key", "blk.value", "v")}, {dA("a", "it.key", "it.value"), dA("b", "1")}, {dA("a", "blk.value.x")}, {dA("a", "cv", "l")}, {dA("a", "v.value"), dA("b", "nope")}, {dB("other", nil, dA("a", "blk.key", "it.key"))}, {dA("z", "blk.key")}}
	dLabels  = [][]string{nil, {}, {"blk.key"}, {"it.value"}, {`"s"`, "blk.key"}, {"it.key", "v"}, {"us"}, {"null"}, {"nope"}, {"1"}, {"l"}, {"blk.value", "blk.value"}, {"blk", "1"}}
	dBads    = []string{"no-each", "no-content", "two-contents", "extra", "extra-block", "no-type", "two-types", "labels"}
)

func dynSingles(t fw.Tier, yield func(dCase)) {
	for _, each := range dFors {
		for _, iter := range dIters {
			for _, labels := range dLabels {
				for _, content := range dContent {
					for n := 0; n <= 2; n++ {
						if n == 0 && labels != nil && len(labels) != 1 || n > 0 && labels == nil && iter != "" {
							continue
						}
						if n == 2 && t == fw.Quick && iter != "" && iter != "it" {
							continue
						}
						yield(dCase{[]*dItem{dD("blk", each, iter, labels, content...)}, n})
					}
				}
			}
			for _, name := range []string{"other", "foreign"} {
				for _, content := range dContent {
					yield(dCase{[]*dItem{dD(name, each, iter, nil, content...)}, 0})
					yield(dCase{[]*dItem{dD(name, each, iter, nil, content...)}, 1})
				}
			}
		}
		for _, bad := range dBads {
			for _, content := range dContent {
				for n := 0; n <= 1; n++ {
					it := dD("blk", each, "", nil, content...)
					it.Bad = bad
					yield(dCase{[]*dItem{it}, n})
				}
			}
		}
	}
}

// dSeqItems are put next to each other.
var dSeqItems = []*dItem{
	dA("a", "v"), dA("b", "blk.key"), dB("blk", nil, dA("a", "v")), dB("blk", []string{"x"}), dB("other", nil, dA("b", "1"), dD("blk", "l", "", nil, dA("a", "blk.value"))),
	dD("blk", "l", "", nil, dA("a", "blk.value")), dD("blk", "m", "it", nil, dA("a", "it.key", "it.value")), dD("other", "l", "", nil, dA("a", "other.value")), dD("blk", "[]", "", nil), dD("blk", "ul", "", nil, dA("a", "v"), dB("other", nil, dA("b", "1"))), dD("blk", "nope", "", nil), dD("other", "s", "v", nil, dA("a", "v.value"), dA("b", "blk.key")),
	dD("blk", "l", "", []string{"blk.value"}, dA("a", "blk.key")), dD("other", "d", "", nil, dA("a", "1")), dD("foreign", "l", "", nil), dA("z", "1"), dB("blk", []string{"x"}, dD("blk", "m", "", []string{"blk.key"}, dA("b", "blk.value"))),
}

func dynSeqs(t fw.Tier, yield func(dCase)) {
	eachSeq(len(dSeqItems), 2, fw.Pick(t, 3, 4), func(seq []int) {
		var items []*dItem
		seen := map[string]bool{}
		for _, k := range seq {
			it := dSeqItems[k]
			if it.K == "a" {
				if seen[it.Name] {
					return
				}
				seen[it.Name] = true
			}
			items = append(items, it)
		}
		for n := 0; n <= 1; n++ {
			yield(dCase{items, n})
		}
	})
}

// dynNested puts dynamic blocks into each other, directly or inside a static
// block.
func dynNested(t fw.Tier, yield func(dCase)) {
	outerFors := []string{"l", "m", "ll", "lo", "ul", "lu", "[]", "s", "lul", "ms"}
	outerIters := []string{"", "it", "v"}
	innerFors := []string{"l", "blk.value", "it.value", "v", "ul", "m", "blk", "nope", "v.value", "l.x", "[]", "lo"}
	innerIters := []string{"", "it", "in", "v"}
	contents := [][]*dItem{{dA("a", "blk.key", "blk.value"), dA("b", "v")}, {dA("a", "it.key", "in.value"), dA("b", "it.value", "blk.value")}, {dA("a", "blk.value", "other.value", "cv")}, {dB("other", nil, dA("a", "blk.value"), dA("b", "in.key"))}, {dA("a", "v.key")}}
	for _, of := range outerFors {
		for _, oi := range outerIters {
			for _, inf := range innerFors {
				for _, ii := range innerIters {
					for _, c := range contents {
						for _, in := range []string{"blk", "other"} {
							inner := dD(in, inf, ii, nil, c...)
							yield(dCase{[]*dItem{dD("blk", of, oi, nil, inner)}, 0})
							yield(dCase{[]*dItem{dD("blk", of, oi, nil, dA("a", "blk.key"), dB("blk", nil, dA("b", "it.key"), inner))}, 0})
							yield(dCase{[]*dItem{dD("other", of, oi, nil, inner, dA("a", "other.value"))}, 0})
							if t == fw.Thorough {
								for _, ff := range []string{"l", "blk.value", "it.value", "in.value", "m"} {
									for _, fi := range []string{"", "it", "in"} {
										mid := dD(in, inf, ii, nil, dA("b", "it.value"), dD("blk", ff, fi, nil, c...))
										yield(dCase{[]*dItem{dD("blk", of, oi, nil, mid)}, 0})
									}
								}
							}
						}
						if ii == "" && oi == "" {
							inner := dD("blk", inf, ii, []string{"blk.key", "v"}, c...)
							for _, ol := range []string{"blk.key", "blk.value"} {
								yield(dCase{[]*dItem{dD("blk", of, oi, []string{ol, "v"}, dA("a", "blk.key"), dB("blk", []string{"x", "y"}, dA("b", "blk.value"), inner))}, 2})
							}
						}
						for _, lab := range []string{"blk.key", "it.key", "in.value", "blk.value", "v"} {
							for _, ol := range []string{"blk.key", "it.value"} {
								yield(dCase{[]*dItem{dD("blk", of, oi, []string{ol}, dD("blk", inf, ii, []string{lab}, c...))}, 1})
							}
						}
					}
				}
			}
		}
	}
}

func init() {
	fw.Register(&fw.Check{
		ID:          "C26",
		Assumptions: []string{"every expression is a literal or a reference, the values of which are those of the model"},
		Suites: []fw.Suite{
			fw.S("singles", fmt.Sprintf("one dynamic block: %d collections times %d iterators times %d label lists times %d contents times 0 to 2 expected labels, %d kinds of malformed ones; read in %d ways, natively and in JSON", len(dFors), len(dIters), len(dLabels), len(dContent), len(dBads), len(dWays)),
				dynSingles, checkDyn),
			fw.S("sequences", fmt.Sprintf("2 to 3 (thorough 4) of %d attributes, blocks and dynamic blocks next to each other", len(dSeqItems)), dynSeqs, checkDyn),
			fw.S("nested", "dynamic blocks inside each other, directly or in a static block, with shadowed iterators, labels and unknown collections (thorough: three levels)", dynNested, checkDyn),
			fw.S("deep", "dynamic blocks three levels deep with 3 iterators at each level, 3, 4 and 4 collections, 3 contents and 3 choices of block types (quick: one of these in turn); four levels deep, also followed by blocks using their iterators; and collections of 19 sizes up to 257 and as many dynamic blocks", dynDeep, checkDyn),
		},
	})
}
