package checks

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"github.com/zclconf/go-cty/cty/function"
	"github.com/zclconf/go-cty/cty/function/stdlib"
)

// sNode describes a decoding specification.
type sNode struct {
	K      string
	Name   string   `json:",omitempty"` // attribute, block type, expression, function
	Ty     string   `json:",omitempty"`
	Req    bool     `json:",omitempty"`
	Min    int      `json:",omitempty"` // or the index of a label
	Max    int      `json:",omitempty"`
	Labels int      `json:",omitempty"`
	X      []*sNode `json:",omitempty"`
}

func (n *sNode) String() string {
	s := n.K
	if n.Name != "" {
		s += " " + n.Name
	}
	if n.Ty != "" {
		s += ":" + n.Ty
	}
	if n.Req {
		s += "!"
	}
	if n.Min != 0 || n.Max != 0 {
		s += fmt.Sprintf("[%d,%d]", n.Min, n.Max)
	}
	if n.Labels != 0 {
		s += fmt.Sprintf("/%d", n.Labels)
	}
	if len(n.X) > 0 {
		var p []string
		for _, x := range n.X {
			p = append(p, x.String())
		}
		s += "(" + strings.Join(p, ", ") + ")"
	}
	return s
}

var sTypes = map[string]cty.Type{
	"string": cty.String, "number": cty.Number, "bool": cty.Bool, "any": cty.DynamicPseudoType, "list": cty.List(cty.String), "map": cty.Map(cty.String), "set": cty.Set(cty.Number),
	"obj": cty.Object(map[string]cty.Type{"k": cty.Number}), "anys": cty.List(cty.DynamicPseudoType),
}

var sLits = map[string]cty.Value{
	"d": str("d"), "null": cty.NullVal(cty.String), "unknown": cty.UnknownVal(cty.String), "n": num("7"), "list": lst(str("z")), "nulla": cty.NullVal(cty.DynamicPseudoType),
}

var sFuncs = map[string]function.Function{
	"upper": stdlib.UpperFunc,
	"len": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "v", Type: cty.DynamicPseudoType, AllowNull: true, AllowDynamicType: true}},
		Type:   func(args []cty.Value) (cty.Type, error) { return cty.Tuple([]cty.Type{args[0].Type(), cty.Bool}), nil },
		Impl: func(args []cty.Value, ty cty.Type) (cty.Value, error) {
			return cty.TupleVal([]cty.Value{args[0], cty.BoolVal(args[0].IsNull())}), nil
		},
	}),
	"fail": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "v", Type: cty.DynamicPseudoType, AllowNull: true, AllowDynamicType: true, AllowUnknown: true}},
		Type:   func(args []cty.Value) (cty.Type, error) { return cty.Bool, nil },
		Impl: func(args []cty.Value, ty cty.Type) (cty.Value, error) {
			return cty.NilVal, fmt.Errorf("fails")
		},
	}),
}

// sExprs are the expressions of transforms, given the value "it".
var sExprs = map[string]struct {
	expr hcl.Expression
	f    func(v cty.Value) (cty.Value, bool)
}{}

var sTransformCtx = &hcl.EvalContext{Variables: map[string]cty.Value{"tv": str("outer"), "it": str("hidden")}}

func init() {
	add := func(src string, f func(v cty.Value) (cty.Value, bool)) {
		e, diags := hclsyntax.ParseExpression([]byte(src), "transform", hcl.InitialPos)
		if diags.HasErrors() {
			panic(diags)
		}
		x := sExprs[src]
		x.expr, x.f = e, f
		sExprs[src] = x
	}
	add("[it, tv]", func(v cty.Value) (cty.Value, bool) { return tup(v, str("outer")), true })
	add("it == null", func(v cty.Value) (cty.Value, bool) {
		if v.IsNull() {
			return cty.True, true
		}
		if v.Type() == cty.DynamicPseudoType || !v.IsKnown() {
			return cty.UnknownVal(cty.Bool), true
		}
		return cty.False, true
	})
	add("nope", func(v cty.Value) (cty.Value, bool) { return cty.DynamicVal, false })
	for _, src := range []string{"v", "1", "\"e${v}\"", "nope"} {
		if _, ok := sExprs[src]; !ok {
			add(src, nil)
		}
	}
}

// spec builds the specification.
func (n *sNode) spec() hcldec.Spec {
	labels := append([]string{}, bLabelNames...)[:n.Labels] // with room for more
	var x []hcldec.Spec
	for _, c := range n.X {
		x = append(x, c.spec())
	}
	switch n.K {
	case "obj":
		o := hcldec.ObjectSpec{}
		for i, s := range x {
			o[fmt.Sprint("k", i)] = s
		}
		return o
	case "tup":
		return hcldec.TupleSpec(x)
	case "attr":
		return &hcldec.AttrSpec{Name: n.Name, Type: sTypes[n.Ty], Required: n.Req}
	case "lit":
		return &hcldec.LiteralSpec{Value: sLits[n.Name]}
	case "expr":
		return &hcldec.ExprSpec{Expr: sExprs[n.Name].expr}
	case "block":
		return &hcldec.BlockSpec{TypeName: n.Name, Nested: x[0], Required: n.Req}
	case "list":
		return &hcldec.BlockListSpec{TypeName: n.Name, Nested: x[0], MinItems: n.Min, MaxItems: n.Max}
	case "tuple":
		return &hcldec.BlockTupleSpec{TypeName: n.Name, Nested: x[0], MinItems: n.Min, MaxItems: n.Max}
	case "set":
		return &hcldec.BlockSetSpec{TypeName: n.Name, Nested: x[0], MinItems: n.Min, MaxItems: n.Max}
	case "map":
		return &hcldec.BlockMapSpec{TypeName: n.Name, LabelNames: labels, Nested: x[0]}
	case "object":
		return &hcldec.BlockObjectSpec{TypeName: n.Name, LabelNames: labels, Nested: x[0]}
	case "attrs":
		return &hcldec.BlockAttrsSpec{TypeName: n.Name, ElementType: sTypes[n.Ty], Required: n.Req}
	case "label":
		return &hcldec.BlockLabelSpec{Index: n.Min, Name: fmt.Sprint("l", n.Min)}
	case "default":
		return &hcldec.DefaultSpec{Primary: x[0], Default: x[1]}
	case "texpr":
		return &hcldec.TransformExprSpec{Wrapped: x[0], Expr: sExprs[n.Name].expr, TransformCtx: sTransformCtx, VarName: "it"}
	case "tfunc":
		return &hcldec.TransformFuncSpec{Wrapped: x[0], Func: sFuncs[n.Name]}
	}
	panic(n.K)
}

func (n *sNode) isBlock() bool {
	switch n.K {
	case "block", "list", "tuple", "set", "map", "object", "attrs":
		return true
	}
	return false
}

// sSchema is what a specification reads from a body.
type sSchema struct {
	attrs  map[string]bool // required or not
	blocks map[string]int  // number of labels
	bad    bool            // different numbers of labels for one type
}

func (n *sNode) schema() sSchema {
	s := sSchema{map[string]bool{}, map[string]int{}, false}
	n.addSchema(&s)
	return s
}

func (n *sNode) addSchema(s *sSchema) {
	switch {
	case n.K == "attr":
		s.attrs[n.Name] = s.attrs[n.Name] || n.Req
	case n.isBlock():
		l := n.Labels
		if len(n.X) > 0 {
			l += n.X[0].labelCount()
			if n.X[0].schema().bad {
				s.bad = true
			}
		}
		if k, ok := s.blocks[n.Name]; ok && k != l {
			s.bad = true
		}
		s.blocks[n.Name] = l
	default:
		for _, x := range n.X {
			x.addSchema(s)
		}
	}
}

// labelCount is how many labels the specification of a block body reads.
func (n *sNode) labelCount() int {
	if n.K == "label" {
		return n.Min + 1
	}
	if n.isBlock() {
		return 0
	}
	c := 0
	for _, x := range n.X {
		if k := x.labelCount(); k > c {
			c = k
		}
	}
	return c
}

// ty is the type that the specification implies.
func (n *sNode) ty() cty.Type {
	switch n.K {
	case "obj":
		m := map[string]cty.Type{}
		for i, x := range n.X {
			m[fmt.Sprint("k", i)] = x.ty()
		}
		return cty.Object(m)
	case "tup":
		var ts []cty.Type
		for _, x := range n.X {
			ts = append(ts, x.ty())
		}
		return cty.Tuple(ts)
	case "attr":
		return sTypes[n.Ty]
	case "lit":
		return sLits[n.Name].Type()
	case "expr", "tuple", "object":
		return cty.DynamicPseudoType
	case "block", "default":
		return n.X[0].ty()
	case "list":
		return cty.List(n.X[0].ty())
	case "set":
		return cty.Set(n.X[0].ty())
	case "map":
		t := n.X[0].ty()
		for i := 0; i < n.Labels; i++ {
			t = cty.Map(t)
		}
		return t
	case "attrs":
		return cty.Map(sTypes[n.Ty])
	case "label":
		return cty.String
	case "texpr":
		v, ok := sExprs[n.Name].f(cty.UnknownVal(n.X[0].ty()))
		if !ok {
			return cty.DynamicPseudoType
		}
		return v.Type()
	case "tfunc":
		switch n.Name {
		case "upper":
			return cty.String
		case "fail":
			return cty.Bool
		}
		return cty.Tuple([]cty.Type{n.X[0].ty(), cty.Bool})
	}
	panic(n.K)
}

// sVal is a value an attribute can have.
type sVal struct {
	N, J string
	V    cty.Value
	Err  bool
}

var sVals = map[string]sVal{}

// sValOf is a value of the alphabet, or a number.
func sValOf(n string) sVal {
	v, ok := sVals[n]
	if !ok {
		v = sVal{n, n, num(n), false}
	}
	return v
}

var sCtx = &hcl.EvalContext{Variables: map[string]cty.Value{"v": str("w"), "u": cty.UnknownVal(cty.String), "d": cty.DynamicVal, "l": lst(str("p"), str("q")), "un": cty.UnknownVal(cty.Number)}}

func init() {
	for _, v := range []sVal{
		{"1", "1", num("1"), false}, {"2", "2", num("2"), false}, {`"s"`, `"s"`, str("s"), false}, {`"5"`, `"5"`, str("5"), false}, {"true", "true", cty.True, false}, {`[1, "x"]`, `[1, "x"]`, tup(num("1"), str("x")), false}, {"[2, 1, 2]", "[2, 1, 2]", tup(num("2"), num("1"), num("2")), false},
		{"{k = 1}", `{"k": 1}`, obj("k", num("1")), false}, {"{k = true, l = 2}", `{"k": true, "l": 2}`, obj("k", cty.True, "l", num("2")), false}, {"null", "null", cty.NullVal(cty.DynamicPseudoType), false}, {"v", `"${v}"`, str("w"), false}, {"u", `"${u}"`, cty.UnknownVal(cty.String), false}, {"un", `"${un}"`, cty.UnknownVal(cty.Number), false},
		{"d", `"${d}"`, cty.DynamicVal, false}, {"l", `"${l}"`, lst(str("p"), str("q")), false}, {"nope", `"${nope}"`, cty.DynamicVal, true}, {"[]", "[]", cty.EmptyTupleVal, false}, {"[nope]", `["${nope}"]`, tup(cty.DynamicVal), true}, {"[u, \"z\"]", `["${u}", "z"]`, tup(cty.UnknownVal(cty.String), str("z")), false},
		{"300", "300", num("300"), false}, {"-1", "-1", num("-1"), false}, {"-129", "-129", num("-129"), false}, {"1.5", "1.5", num("1.5"), false}, {"9223372036854775807", "9223372036854775807", num("9223372036854775807"), false}, {"9223372036854775808", "9223372036854775808", num("9223372036854775808"), false}, {"18446744073709551616", "18446744073709551616", num("18446744073709551616"), false}, {"[null]", "[null]", tup(cty.NullVal(cty.DynamicPseudoType)), false}, {"{k = null}", `{"k": null}`, obj("k", cty.NullVal(cty.DynamicPseudoType)), false}, {"{}", "{}", cty.EmptyObjectVal, false}, {"[{k = 1}, {k = 2}]", `[{"k": 1}, {"k": 2}]`, tup(obj("k", num("1")), obj("k", num("2"))), false}, {"\"\"", `""`, str(""), false}, {"\"true\"", `"true"`, str("true"), false},
	} {
		sVals[v.N] = v
	}
}

// sDec is a reference decoder.
type sDec struct {
	ctx  bool // variables are defined
	pin  bool // no blocks with two or more labels give a map of the nested type
	errs []string
}

func (d *sDec) err(f string, a ...interface{}) { d.errs = append(d.errs, fmt.Sprintf(f, a...)) }

func (d *sDec) value(it *bItem) cty.Value {
	v := sValOf(it.Val)
	if v.Err || !d.ctx && strings.Contains(v.J, "${") {
		d.err("value %s", it.Val)
		return cty.DynamicVal
	}
	return v.V
}

// body decodes the items of a body.
func (d *sDec) body(n *sNode, items []*bItem, labels []string, partial bool) cty.Value {
	s := n.schema()
	ref := bRef{Items: items}
	var bs bSchema
	for name, req := range s.attrs {
		bs.Attrs = append(bs.Attrs, hcl.AttributeSchema{Name: name, Required: req})
	}
	for name, l := range s.blocks {
		bs.Blocks = append(bs.Blocks, hcl.BlockHeaderSchema{Type: name, LabelNames: bLabelNames[:l]})
	}
	var out bOut
	if partial {
		out, _ = ref.partial(bs)
	} else {
		out = ref.content(bs)
	}
	if len(out.Errs) > 0 {
		d.err("content %s", bErrsStr(out.Errs))
	}
	return d.decode(n, out, labels)
}

// unify gives values one type, except those whose type is not known.
func (d *sDec) unify(vs []cty.Value) bool {
	for _, all := range []bool{true, false} {
		var ts []cty.Type
		var at []int
		for i, v := range vs {
			if all || v.Type() != cty.DynamicPseudoType {
				ts = append(ts, v.Type())
				at = append(at, i)
			}
		}
		if len(ts) == 0 {
			continue
		}
		ty, convs := convert.UnifyUnsafe(ts)
		if ty == cty.NilType {
			return false
		}
		for i, c := range convs {
			if c != nil {
				v, err := c(vs[at[i]])
				if err != nil {
					return false
				}
				vs[at[i]] = v
			}
		}
	}
	return true
}

func (d *sDec) decode(n *sNode, c bOut, labels []string) cty.Value {
	var mine []*bItem
	if n.isBlock() {
		for _, b := range c.Blocks {
			if b.Name == n.Name {
				mine = append(mine, b)
			}
		}
	}
	many := func() []cty.Value {
		var vs []cty.Value
		for _, b := range mine {
			vs = append(vs, d.body(n.X[0], b.Body, b.Labels, false))
		}
		if len(vs) < n.Min || n.Max > 0 && len(vs) > n.Max {
			d.err("%d blocks", len(vs))
		}
		return vs
	}
	switch n.K {
	case "obj":
		m := map[string]cty.Value{}
		for i, x := range n.X {
			m[fmt.Sprint("k", i)] = d.decode(x, c, labels)
		}
		return cty.ObjectVal(m)
	case "tup":
		var vs []cty.Value
		for _, x := range n.X {
			vs = append(vs, d.decode(x, c, labels))
		}
		return cty.TupleVal(vs)
	case "attr":
		it := c.Attrs[n.Name]
		if it == nil {
			return cty.NullVal(sTypes[n.Ty])
		}
		v, err := convert.Convert(d.value(it), sTypes[n.Ty])
		if err != nil {
			d.err("type of %s", it.Val)
			return cty.UnknownVal(sTypes[n.Ty])
		}
		return v
	case "lit":
		return sLits[n.Name]
	case "expr":
		switch n.Name {
		case "1":
			return num("1")
		case "nope":
			d.err("expression")
			return cty.DynamicVal
		}
		if !d.ctx {
			d.err("expression")
			return cty.DynamicVal
		}
		if n.Name == "v" {
			return str("w")
		}
		return str("ew")
	case "block":
		if len(mine) == 0 {
			if n.Req {
				d.err("missing block")
			}
			return cty.NullVal(n.X[0].ty())
		}
		if len(mine) > 1 {
			d.err("duplicate block")
		}
		return d.body(n.X[0], mine[0].Body, mine[0].Labels, false)
	case "list":
		vs := many()
		if len(vs) == 0 {
			return cty.ListValEmpty(n.X[0].ty())
		}
		if len(d.errs) > 0 || !d.unify(vs) {
			d.err("types")
			return cty.DynamicVal
		}
		return cty.ListVal(vs)
	case "set":
		vs := many()
		if len(vs) == 0 {
			return cty.SetValEmpty(n.X[0].ty())
		}
		if len(d.errs) > 0 || !d.unify(vs) {
			d.err("types")
			return cty.DynamicVal
		}
		return cty.SetVal(vs)
	case "tuple":
		return cty.TupleVal(many())
	case "map", "object":
		return d.keyed(n, mine, 0, map[string]bool{})
	case "attrs":
		if len(mine) == 0 {
			if n.Req {
				d.err("missing block")
			}
			return cty.NullVal(cty.Map(sTypes[n.Ty]))
		}
		if len(mine) > 1 {
			d.err("duplicate block")
		}
		m := map[string]cty.Value{}
		var names []string
		var vs []cty.Value
		for _, it := range mine[0].Body {
			if it.Blk {
				d.err("block among attributes")
				continue
			}
			v, err := convert.Convert(d.value(it), sTypes[n.Ty])
			if err != nil {
				d.err("type of %s", it.Val)
				continue
			}
			names = append(names, it.Name)
			vs = append(vs, v)
		}
		if len(d.errs) > 0 {
			return cty.DynamicVal
		}
		if len(vs) == 0 {
			return cty.MapValEmpty(sTypes[n.Ty])
		}
		if !d.unify(vs) {
			d.err("types")
			return cty.DynamicVal
		}
		for i, name := range names {
			m[name] = vs[i]
		}
		return cty.MapVal(m)
	case "label":
		return str(labels[n.Min])
	case "default":
		v := d.decode(n.X[0], c, labels)
		if v.IsNull() {
			return d.decode(n.X[1], c, labels)
		}
		return v
	case "texpr", "tfunc":
		before := len(d.errs)
		v := d.decode(n.X[0], c, labels)
		if len(d.errs) > before {
			return cty.DynamicVal
		}
		if n.K == "texpr" {
			v, ok := sExprs[n.Name].f(v)
			if !ok {
				d.err("transform")
			}
			return v
		}
		v, err := sFuncs[n.Name].Call([]cty.Value{v})
		if err != nil {
			d.err("function")
			return cty.DynamicVal
		}
		return v
	}
	panic(n.K)
}

// keyed nests blocks by their labels.
func (d *sDec) keyed(n *sNode, items []*bItem, level int, seen map[string]bool) cty.Value {
	if level == n.Labels {
		// called for one key
		if len(items) > 1 {
			d.err("duplicate labels")
		}
		var v cty.Value
		for i := len(items) - 1; i >= 0; i-- {
			v = d.body(n.X[0], items[i].Body, items[i].Labels[n.Labels:], false)
		}
		return v
	}
	var order []string
	by := map[string][]*bItem{}
	for _, it := range items {
		k := it.Labels[level]
		if by[k] == nil {
			order = append(order, k)
		}
		by[k] = append(by[k], it)
	}
	m := map[string]cty.Value{}
	for _, k := range order {
		m[k] = d.keyed(n, by[k], level+1, seen)
	}
	if n.K == "object" {
		return cty.ObjectVal(m)
	}
	if len(m) == 0 {
		t := n.ty().ElementType()
		if d.pin {
			t = n.X[0].ty()
		}
		return cty.MapValEmpty(t)
	}
	if len(d.errs) > 0 {
		return cty.DynamicVal
	}
	return cty.MapVal(m)
}

// sBody makes bodies of items with the values of the model.
func sBody(items []*bItem, isJSON bool) (hcl.Body, string, string) {
	body, src, _, msg := sBodyMarked(items, isJSON)
	return body, src, msg
}

// sBodyMarked also returns the items with their places in native source.
func sBodyMarked(items []*bItem, isJSON bool) (hcl.Body, string, []*bItem, string) {
	c := bClone(items)
	var fill func(items []*bItem)
	fill = func(items []*bItem) {
		for _, it := range items {
			if !it.Blk && isJSON {
				it.Val = sValOf(it.Val).J
			}
			fill(it.Body)
		}
	}
	fill(c)
	if isJSON {
		src := bJSON(c, 2)
		f, diags := json.Parse([]byte(src), "t.json")
		if diags.HasErrors() {
			return nil, src, nil, diagsStr(diags)
		}
		return f.Body, src, c, ""
	}
	src := bNative(c, bLayouts[0])
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.InitialPos)
	if diags.HasErrors() {
		return nil, src, nil, diagsStr(diags)
	}
	return f.Body, src, c, ""
}

// sLabelsFit is whether all blocks have the number of labels that the
// specification expects, without which JSON means something else.
func sLabelsFit(n *sNode, items []*bItem) bool {
	s := n.schema()
	nested := map[string][]*sNode{}
	n.nested(nested)
	for _, it := range items {
		if !it.Blk {
			continue
		}
		l, ok := s.blocks[it.Name]
		if !ok {
			continue
		}
		if l != len(it.Labels) {
			return false
		}
		for _, b := range nested[it.Name] {
			if len(b.X) > 0 {
				if !sLabelsFit(b.X[0], it.Body) {
					return false
				}
				continue
			}
			for _, in := range it.Body {
				if in.Blk {
					return false // attributes only, and JSON has no blocks then
				}
			}
		}
	}
	return true
}

func (n *sNode) nested(m map[string][]*sNode) {
	if n.isBlock() {
		m[n.Name] = append(m[n.Name], n)
		return
	}
	for _, x := range n.X {
		x.nested(m)
	}
}
