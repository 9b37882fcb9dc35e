package checks

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
)

// gField describes a field of a Go structure: its kind, the name in its tag
// and its type, which for blocks and some remain fields wraps a structure.
type gField struct {
	K    string
	Name string   `json:",omitempty"`
	Ty   string   `json:",omitempty"` // for blocks: "", "*", "[]" or "[]*"
	X    []gField `json:",omitempty"`
}

func (f gField) String() string {
	s := f.Name + " " + f.K
	if f.Ty != "" {
		s += " " + f.Ty
	}
	if f.nested() {
		s += gString(f.X)
	}
	return s
}

func gString(fs []gField) string {
	var p []string
	for _, f := range fs {
		p = append(p, f.String())
	}
	return "{" + strings.Join(p, "; ") + "}"
}

// gInner is an attribute value as a structure.
type gInner struct {
	K int `cty:"k"`
}

var gTypes = map[string]reflect.Type{
	"string": reflect.TypeOf(""), "*string": reflect.TypeOf((*string)(nil)), "int": reflect.TypeOf(0), "*int": reflect.TypeOf((*int)(nil)), "int8": reflect.TypeOf(int8(0)), "uint": reflect.TypeOf(uint(0)), "float64": reflect.TypeOf(0.5), "bool": reflect.TypeOf(false), "*bool": reflect.TypeOf((*bool)(nil)),
	"[]string": reflect.TypeOf([]string{}), "[]int": reflect.TypeOf([]int{}), "[]*string": reflect.TypeOf([]*string{}), "map[string]string": reflect.TypeOf(map[string]string{}), "map[string]int": reflect.TypeOf(map[string]int{}), "map[string]bool": reflect.TypeOf(map[string]bool{}),
	"value": reflect.TypeOf(cty.NilVal), "expr": reflect.TypeOf((*hcl.Expression)(nil)).Elem(), "attr": reflect.TypeOf((*hcl.Attribute)(nil)), "struct": reflect.TypeOf(gInner{}), "*struct": reflect.TypeOf((*gInner)(nil)), "[]struct": reflect.TypeOf([]gInner{}),
	"body": reflect.TypeOf((*hcl.Body)(nil)).Elem(), "attrs": reflect.TypeOf(hcl.Attributes(nil)), "map[string]attr": reflect.TypeOf(map[string]*hcl.Attribute{}), "map[string]expr": reflect.TypeOf(map[string]hcl.Expression{}), "map[string]value": reflect.TypeOf(map[string]cty.Value{}),
}

func (f gField) goType() reflect.Type {
	if f.nested() {
		t := gStruct(f.X)
		if strings.HasSuffix(f.Ty, "*") {
			t = reflect.PtrTo(t)
		}
		if strings.HasPrefix(f.Ty, "[]") {
			t = reflect.SliceOf(t)
		}
		return t
	}
	return gTypes[f.Ty]
}

var gStructs sync.Map

// gStruct makes the structure type.
func gStruct(fs []gField) reflect.Type {
	key := gString(fs)
	if t, ok := gStructs.Load(key); ok {
		return t.(reflect.Type)
	}
	t := gMakeStruct(fs)
	gStructs.Store(key, t)
	return t
}

func gMakeStruct(fs []gField) reflect.Type {
	var sf []reflect.StructField
	for i, f := range fs {
		tag := fmt.Sprintf(`json:"x" hcl:"%s,%s"`, f.Name, f.K)
		switch f.K {
		case "none":
			tag = `json:"x"`
		case "plain":
			tag = fmt.Sprintf(`hcl:"%s"`, f.Name)
		}
		sf = append(sf, reflect.StructField{Name: fmt.Sprint("F", i), Type: f.goType(), Tag: reflect.StructTag(tag)})
	}
	return reflect.StructOf(sf)
}

func (f gField) isAttr() bool { return f.K == "attr" || f.K == "plain" || f.K == "optional" }

// gLabels is how many labels a block decoded into the structure has.
func gLabels(fs []gField) int {
	n := 0
	for _, f := range fs {
		if f.K == "label" {
			n++
		}
	}
	return n
}

func gSchema(fs []gField) (bs bSchema, partial bool) {
	for _, f := range fs {
		switch {
		case f.isAttr():
			bs.Attrs = append(bs.Attrs, hcl.AttributeSchema{Name: f.Name, Required: f.K != "optional" && !strings.HasPrefix(f.Ty, "*") && f.Ty != "expr" && f.Ty != "attr"})
		case f.K == "block":
			bs.Blocks = append(bs.Blocks, hcl.BlockHeaderSchema{Type: f.Name, LabelNames: bLabelNames[:gLabels(f.X)]})
		case f.K == "remain":
			partial = true
		}
	}
	return bs, partial
}

// gPre is a value of the type that is not zero.
func gPre(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch t {
	case gTypes["value"]:
		v.Set(reflect.ValueOf(str("pre")))
		return v
	case gTypes["expr"]:
		v.Set(reflect.ValueOf(hcl.StaticExpr(str("pre"), hcl.Range{})))
		return v
	case gTypes["body"]:
		v.Set(reflect.ValueOf(hcl.EmptyBody()))
		return v
	case gTypes["attr"]:
		v.Set(reflect.ValueOf(&hcl.Attribute{Name: "pre", Expr: hcl.StaticExpr(str("pre"), hcl.Range{})}))
		return v
	}
	switch t.Kind() {
	case reflect.String:
		v.SetString("pre")
	case reflect.Int, reflect.Int8:
		v.SetInt(99)
	case reflect.Uint:
		v.SetUint(99)
	case reflect.Float64:
		v.SetFloat(9.5)
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(gPre(t.Elem()))
	case reflect.Slice:
		v.Set(reflect.Append(v, gPre(t.Elem()), gPre(t.Elem())))
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		v.SetMapIndex(reflect.ValueOf("pre"), gPre(t.Elem()))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			v.Field(i).Set(gPre(t.Field(i).Type))
		}
	default:
		panic(t.String())
	}
	return v
}

// gDump writes a Go value.
func gDump(v reflect.Value) string {
	if !v.IsValid() {
		return "invalid"
	}
	switch x := v.Interface().(type) {
	case cty.Value:
		if x == cty.NilVal {
			return "none"
		}
		return fmt.Sprintf("%#v", x)
	case *hcl.Attribute:
		if x == nil {
			return "nil"
		}
		return x.Name + " = " + gExpr(x.Expr)
	case hcl.Expression:
		return gExpr(x)
	case hcl.Body:
		return "body"
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + gDump(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, gDump(v.Index(i)))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case reflect.Map:
		if v.IsNil() {
			return "nil"
		}
		var p []string
		for _, k := range v.MapKeys() {
			p = append(p, fmt.Sprintf("%q: %s", k.String(), gDump(v.MapIndex(k))))
		}
		sort.Strings(p)
		return "{" + strings.Join(p, ", ") + "}"
	case reflect.Struct:
		var p []string
		for i := 0; i < v.NumField(); i++ {
			p = append(p, gDump(v.Field(i)))
		}
		return "struct{" + strings.Join(p, "; ") + "}"
	case reflect.Interface:
		return "nil"
	}
	return fmt.Sprintf("%#v", v.Interface())
}

func gExpr(e hcl.Expression) string {
	if e == nil {
		return "nil"
	}
	v, diags := e.Value(sCtx)
	return fmt.Sprintf("(%#v, %v)", v, diags.HasErrors())
}

// gCty is the type that a Go type stands for.
func gCty(t reflect.Type) cty.Type {
	if t == gTypes["value"] {
		return cty.DynamicPseudoType
	}
	switch t.Kind() {
	case reflect.String:
		return cty.String
	case reflect.Bool:
		return cty.Bool
	case reflect.Ptr:
		return gCty(t.Elem())
	case reflect.Slice:
		return cty.List(gCty(t.Elem()))
	case reflect.Map:
		return cty.Map(gCty(t.Elem()))
	case reflect.Struct:
		return cty.Object(map[string]cty.Type{"k": cty.Number})
	}
	return cty.Number
}

// gValue is the Go value, as written by gDump, for a value.
func gValue(v cty.Value, t reflect.Type) (string, bool) {
	v, err := convert.Convert(v, gCty(t))
	if err != nil {
		return "", false
	}
	return gConverted(v, t)
}

func gConverted(v cty.Value, t reflect.Type) (string, bool) {
	if t == gTypes["value"] {
		return fmt.Sprintf("%#v", v), true
	}
	if !v.IsKnown() {
		return "", false
	}
	if v.IsNull() {
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Map:
			return "nil", true
		}
		return "", false
	}
	switch t.Kind() {
	case reflect.String:
		return fmt.Sprintf("%#v", v.AsString()), true
	case reflect.Bool:
		return fmt.Sprint(v.True()), true
	case reflect.Float64:
		f, _ := v.AsBigFloat().Float64()
		return fmt.Sprintf("%#v", f), true
	case reflect.Int, reflect.Int8, reflect.Uint:
		i, acc := v.AsBigFloat().Int(nil)
		lim := map[reflect.Kind][2]string{reflect.Int: {"-9223372036854775808", "9223372036854775807"}, reflect.Int8: {"-128", "127"}, reflect.Uint: {"0", "18446744073709551615"}}[t.Kind()]
		lo, _ := new(big.Int).SetString(lim[0], 10)
		hi, _ := new(big.Int).SetString(lim[1], 10)
		if acc != big.Exact || i.Cmp(lo) < 0 || i.Cmp(hi) > 0 {
			return "", false
		}
		if t.Kind() == reflect.Uint {
			return fmt.Sprintf("%#v", uint(i.Uint64())), true
		}
		return i.String(), true
	case reflect.Ptr:
		s, ok := gConverted(v, t.Elem())
		return "&" + s, ok
	case reflect.Slice, reflect.Map:
		var p []string
		for it := v.ElementIterator(); it.Next(); {
			k, e := it.Element()
			s, ok := gConverted(e, t.Elem())
			if !ok {
				return "", false
			}
			if t.Kind() == reflect.Map {
				s = fmt.Sprintf("%q: %s", k.AsString(), s)
			}
			p = append(p, s)
		}
		if t.Kind() == reflect.Map {
			sort.Strings(p)
			return "{" + strings.Join(p, ", ") + "}", true
		}
		return "[" + strings.Join(p, ", ") + "]", true
	case reflect.Struct:
		s, ok := gConverted(v.GetAttr("k"), t.Field(0).Type)
		return "struct{" + s + "}", ok
	}
	panic(t.String())
}

// gWant judges a Go value.
type gWant func(v reflect.Value) string

func gIs(s string) gWant {
	return func(v reflect.Value) string {
		if d := gDump(v); d != s {
			return fmt.Sprintf("%s instead of %s", d, s)
		}
		return ""
	}
}

func gAny(v reflect.Value) string { return "" }

// gDec is a reference decoder: what a structure is decoded to that had the
// given value before.
type gDec struct {
	ctx  bool
	json bool
	errs []string
}

func (d *gDec) err(f string, a ...interface{}) { d.errs = append(d.errs, fmt.Sprintf(f, a...)) }

func (d *gDec) value(it *bItem) (cty.Value, bool) {
	v := sValOf(it.Val)
	if v.Err || !d.ctx && strings.Contains(v.J, "${") {
		d.err("value %s", it.Val)
		return cty.DynamicVal, false
	}
	return v.V, true
}

// attr decodes an attribute into a Go type.
func (d *gDec) attr(it *bItem, t reflect.Type) gWant {
	v := sValOf(it.Val)
	dump := fmt.Sprintf("(%#v, %v)", v.V, v.Err)
	switch t {
	case gTypes["expr"]:
		if v.Err {
			return gAny
		}
		return gIs(dump)
	case gTypes["attr"]:
		if v.Err {
			return gAny
		}
		return gIs(it.Name + " = " + dump)
	}
	cv, ok := d.value(it)
	if !ok {
		return gAny
	}
	s, ok := gValue(cv, t)
	if !ok {
		d.err("%s for %s", it.Val, t)
		return gAny
	}
	return gIs(s)
}

func (d *gDec) body(ref bRef, fs []gField, labels []string, before reflect.Value) gWant {
	bs, partial := gSchema(fs)
	var out bOut
	var rest bRef
	if partial {
		out, rest = ref.partial(bs)
	} else {
		out = ref.content(bs)
	}
	if len(out.Errs) > 0 {
		d.err("content %s", bErrsStr(out.Errs))
	}
	want := make([]gWant, len(fs))
	li := 0
	for i, f := range fs {
		old := before.Field(i)
		switch {
		case f.K == "none":
			want[i] = gIs(gDump(old))
		case f.isAttr():
			it := out.Attrs[f.Name]
			if it == nil {
				want[i] = gIs(gDump(old))
				if f.Ty == "expr" {
					want[i] = gIs(fmt.Sprintf("(%#v, false)", cty.NullVal(cty.DynamicPseudoType)))
				}
				continue
			}
			want[i] = d.attr(it, f.goType())
		case f.K == "label":
			if labels == nil {
				want[i] = gIs(gDump(old))
			} else {
				want[i] = gIs(fmt.Sprintf("%#v", labels[li]))
				li++
			}
		case f.K == "block":
			want[i] = d.block(f, out, old)
		case f.K == "remain":
			want[i] = d.remain(f, rest, old)
		}
	}
	return func(v reflect.Value) string {
		for i, w := range want {
			if m := w(v.Field(i)); m != "" {
				return fmt.Sprintf("field %s: %s", fs[i], m)
			}
		}
		return ""
	}
}

func (d *gDec) block(f gField, out bOut, old reflect.Value) gWant {
	var mine []*bItem
	for _, b := range out.Blocks {
		if b.Name == f.Name {
			mine = append(mine, b)
		}
	}
	ty := gStruct(f.X)
	zero := reflect.New(ty).Elem()
	one := func(it *bItem, before reflect.Value) gWant {
		return d.body(bRef{Items: it.Body}, f.X, append([]string{}, it.Labels...), before)
	}
	if strings.HasPrefix(f.Ty, "[]") {
		if len(mine) == 0 {
			return gIs("nil")
		}
		var ws []gWant
		for _, it := range mine {
			ws = append(ws, one(it, zero))
		}
		return func(v reflect.Value) string {
			if v.Len() != len(ws) {
				return fmt.Sprintf("%d blocks instead of %d", v.Len(), len(ws))
			}
			for i, w := range ws {
				e := v.Index(i)
				if e.Kind() == reflect.Ptr {
					if e.IsNil() {
						return "nil block"
					}
					e = e.Elem()
				}
				if m := w(e); m != "" {
					return fmt.Sprintf("block %d: %s", i, m)
				}
			}
			return ""
		}
	}
	if len(mine) > 1 {
		d.err("duplicate block")
		return gAny
	}
	if len(mine) == 0 {
		if f.Ty == "*" {
			return gIs("nil")
		}
		d.err("missing block")
		return gAny
	}
	if f.Ty == "*" {
		w := one(mine[0], zero)
		return func(v reflect.Value) string {
			if v.IsNil() {
				return "nil"
			}
			return w(v.Elem())
		}
	}
	return one(mine[0], old)
}

func (d *gDec) remain(f gField, rest bRef, old reflect.Value) gWant {
	if f.nested() {
		return d.body(rest, f.X, nil, old)
	}
	if f.Ty == "body" {
		return func(v reflect.Value) string {
			b, _ := v.Interface().(hcl.Body)
			if b == nil {
				return "no body"
			}
			return gRest(b, rest, d.json)
		}
	}
	out, blocks := rest.just()
	if blocks {
		d.err("blocks remain")
	}
	var names []string
	for n := range out.Attrs {
		names = append(names, n)
	}
	sort.Strings(names)
	t := f.goType().Elem()
	ws := map[string]gWant{}
	for _, n := range names {
		ws[n] = d.attr(out.Attrs[n], t)
	}
	return func(v reflect.Value) string {
		if v.Len() != len(ws) {
			return fmt.Sprintf("%s instead of attributes %s", gDump(v), names)
		}
		for n, w := range ws {
			e := v.MapIndex(reflect.ValueOf(n))
			if !e.IsValid() {
				return "no " + n
			}
			if m := w(e); m != "" {
				return n + ": " + m
			}
		}
		return ""
	}
}

// gRest says what is wrong with a remaining body.
func gRest(b hcl.Body, rest bRef, json bool) string {
	schema := &hcl.BodySchema{}
	var want []string
	seen := map[string]bool{}
	for _, it := range rest.Items {
		if !rest.visible(it) {
			continue
		}
		want = append(want, it.Name)
		if !it.Blk {
			schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: it.Name, Required: true})
		} else if !seen[it.Name] {
			schema.Blocks = append(schema.Blocks, hcl.BlockHeaderSchema{Type: it.Name, LabelNames: bLabelNames[:len(it.Labels)]})
			seen[it.Name] = true
		}
	}
	c, diags := b.Content(schema)
	if diags.HasErrors() {
		return "what remains has errors: " + diagsStr(diags)
	}
	var got []string
	for name := range c.Attributes {
		got = append(got, name)
	}
	for _, b := range c.Blocks {
		got = append(got, b.Type)
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("what remains is %v instead of %v", got, want)
	}
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	var ret []string
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}

// nested is whether the field is decoded into a structure.
func (f gField) nested() bool { return f.K == "block" || f.K == "remain" && f.Ty == "" }
