package checks

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
)

var encStrs = []string{"a", "", "${x}", "%{if}", "q\"b\\n\nr\r\t", "é\u2028\x01", "$${", "$", "%%{x", "null", "a-b", "\ufeff", "\U0001f600", "a\n", "${\"a\"}", "\\", "//", "#", "\u00a0"}

var encLabels = []string{"x", "", "two words", "q\"b", "é", "a\\b", "n\nl", "$", "1", "for", "${x}", "%{x}", "$${", "%%{", "${"}

func encVals(ty string) []interface{} {
	p := func(s string) *string { return &s }
	switch ty {
	case "string":
		var ret []interface{}
		for _, s := range encStrs {
			ret = append(ret, s)
		}
		return ret
	case "*string":
		ret := []interface{}{(*string)(nil)}
		for _, s := range encStrs {
			ret = append(ret, p(s))
		}
		return ret
	case "int":
		return []interface{}{0, -1, 7, math.MaxInt64, math.MinInt64}
	case "*int":
		i := 5
		z := 0
		return []interface{}{(*int)(nil), &i, &z}
	case "int8":
		return []interface{}{int8(-128), int8(127)}
	case "uint":
		return []interface{}{uint(0), uint(math.MaxUint64)}
	case "float64":
		return []interface{}{0.0, 0.5, -0.25, 1e21, 1e-7, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, 123456789.125}
	case "bool":
		return []interface{}{false, true}
	case "*bool":
		f := false
		return []interface{}{(*bool)(nil), &f}
	case "[]string":
		return []interface{}{[]string(nil), []string{}, []string{"a"}, []string{"", "${", "b\n"}}
	case "[]int":
		return []interface{}{[]int(nil), []int{}, []int{3, -1}}
	case "[]*string":
		return []interface{}{[]*string(nil), []*string{}, []*string{p("a"), nil, p("${")}}
	case "map[string]string":
		return []interface{}{map[string]string(nil), map[string]string{}, map[string]string{"a": "x"}, map[string]string{"a b": "1", "for": "2", "if": "3"}, map[string]string{"${k}": "v", "": "e"}, map[string]string{"1": "n", "a.b": "d", "null": "", "true": "t"}, map[string]string{"q\"": "\"", "n\n": "\n", "b\\": "%{", "é": "é", "-": "-", "a-b": "c"}}
	case "map[string]int":
		return []interface{}{map[string]int{"a": 1, "b": 2}}
	case "map[string]bool":
		return []interface{}{map[string]bool{"a": true, "b": false}}
	case "value":
		return []interface{}{cty.NullVal(cty.DynamicPseudoType), str("s${"), num("1.5"), cty.False, tup(num("1"), str("x")), obj("k", num("1"), "l m", tup()), cty.EmptyObjectVal, tup(cty.NullVal(cty.DynamicPseudoType), obj("for", str("a\nb")))}
	case "struct":
		return []interface{}{gInner{1}, gInner{}}
	case "*struct":
		return []interface{}{(*gInner)(nil), &gInner{2}}
	case "[]struct":
		return []interface{}{[]gInner(nil), []gInner{}, []gInner{{1}, {2}}}
	case "expr":
		return []interface{}{hcl.Expression(nil), hcl.StaticExpr(str("s"), hcl.Range{})}
	case "attr":
		return []interface{}{(*hcl.Attribute)(nil), &hcl.Attribute{Name: "q", Expr: hcl.StaticExpr(str("s"), hcl.Range{})}}
	case "body":
		return []interface{}{hcl.EmptyBody()}
	case "attrs":
		return []interface{}{hcl.Attributes{"q": &hcl.Attribute{Name: "q", Expr: hcl.StaticExpr(str("s"), hcl.Range{})}}}
	}
	panic(ty)
}

// encAll makes the values of a structure in some order: all values of every
// field with each other if full, and else the n-th ones.
func encAll(fs []gField, full bool) []reflect.Value {
	t := gStruct(fs)
	ret := []reflect.Value{reflect.New(t).Elem()}
	for i, f := range fs {
		var vals []reflect.Value
		if f.nested() && f.K == "block" {
			ft := f.goType()
			in := encAll(f.X, false)
			ptr := func(v reflect.Value) reflect.Value {
				p := reflect.New(v.Type())
				p.Elem().Set(v)
				return p
			}
			switch f.Ty {
			case "":
				vals = in
			case "*":
				vals = append(vals, reflect.Zero(ft))
				for _, v := range in {
					vals = append(vals, ptr(v))
				}
			case "[]", "[]*":
				elem := func(v reflect.Value) reflect.Value {
					if f.Ty == "[]*" {
						return ptr(v)
					}
					return v
				}
				vals = append(vals, reflect.Zero(ft), reflect.MakeSlice(ft, 0, 0))
				for k, v := range in {
					vals = append(vals, reflect.Append(reflect.Zero(ft), elem(v)), reflect.Append(reflect.Zero(ft), elem(v), elem(in[(k+1)%len(in)])))
				}
				if f.Ty == "[]*" {
					vals = append(vals, reflect.Append(reflect.Zero(ft), reflect.Zero(ft.Elem()), elem(in[0]), reflect.Zero(ft.Elem())))
				}
			}
		} else if f.K == "remain" && f.Ty == "" {
			vals = encAll(f.X, false)
		} else if f.K == "label" {
			for _, l := range encLabels {
				vals = append(vals, reflect.ValueOf(l))
			}
		} else {
			for _, v := range encVals(f.Ty) {
				rv := reflect.New(f.goType()).Elem()
				if v != nil {
					rv.Set(reflect.ValueOf(v))
				}
				vals = append(vals, rv)
			}
		}
		var next []reflect.Value
		put := func(base, v reflect.Value) {
			n := reflect.New(t).Elem()
			n.Set(base)
			n.Field(i).Set(v)
			next = append(next, n)
		}
		if full {
			for _, b := range ret {
				for _, v := range vals {
					put(b, v)
				}
			}
		} else {
			for k := 0; k < len(ret) || k < len(vals); k++ {
				put(ret[k%len(ret)], vals[k%len(vals)])
			}
		}
		ret = next
	}
	return ret
}

// encItem is an item that has to be written.
type encItem struct {
	Name   string
	Labels []string
	Body   []encItem
	Blk    bool
}

func (it encItem) String() string {
	if !it.Blk {
		return it.Name
	}
	return fmt.Sprintf("%s%q%s", it.Name, it.Labels, it.Body)
}

// encItems are the items that a value is written as, in order.
func encItems(fs []gField, v reflect.Value) []encItem {
	var ret []encItem
	for i, f := range fs {
		fv := v.Field(i)
		switch {
		case f.isAttr():
			if f.Ty == "expr" || f.Ty == "attr" || fv.Kind() == reflect.Ptr && fv.IsNil() {
				continue
			}
			ret = append(ret, encItem{Name: f.Name})
		case f.K == "block":
			var vs []reflect.Value
			if fv.Kind() == reflect.Slice {
				for k := 0; k < fv.Len(); k++ {
					vs = append(vs, fv.Index(k))
				}
			} else {
				vs = append(vs, fv)
			}
			for _, e := range vs {
				if e.Kind() == reflect.Ptr {
					if e.IsNil() {
						continue
					}
					e = e.Elem()
				}
				it := encItem{Name: f.Name, Blk: true, Body: encItems(f.X, e)}
				for k, x := range f.X {
					if x.K == "label" {
						it.Labels = append(it.Labels, e.Field(k).String())
					}
				}
				ret = append(ret, it)
			}
		}
	}
	return ret
}

// srcItems are the items of a parsed body, in order.
func srcItems(b *hclsyntax.Body) []encItem {
	at := map[int]encItem{}
	var offs []int
	for _, a := range b.Attributes {
		at[a.SrcRange.Start.Byte] = encItem{Name: a.Name}
		offs = append(offs, a.SrcRange.Start.Byte)
	}
	for _, k := range b.Blocks {
		at[k.TypeRange.Start.Byte] = encItem{Name: k.Type, Blk: true, Labels: append([]string(nil), k.Labels...), Body: srcItems(k.Body)}
		offs = append(offs, k.TypeRange.Start.Byte)
	}
	for i := range offs {
		for j := i + 1; j < len(offs); j++ {
			if offs[j] < offs[i] {
				offs[i], offs[j] = offs[j], offs[i]
			}
		}
	}
	var ret []encItem
	for _, o := range offs {
		ret = append(ret, at[o])
	}
	return ret
}

// encBack is the value, as written by gDump, that comes back.
func encBack(fs []gField, v reflect.Value, labels bool) string {
	var p []string
	for i, f := range fs {
		fv := v.Field(i)
		switch {
		case f.K == "label":
			if !labels {
				p = append(p, `""`)
			} else {
				p = append(p, gDump(fv))
			}
		case f.K == "none":
			p = append(p, gDump(reflect.Zero(fv.Type())))
		case f.Ty == "expr":
			p = append(p, fmt.Sprintf("(%#v, false)", cty.NullVal(cty.DynamicPseudoType)))
		case f.Ty == "attr":
			p = append(p, "nil")
		case f.Ty == "body":
			p = append(p, "body")
		case f.Ty == "attrs":
			p = append(p, "{}")
		case f.K == "block":
			switch fv.Kind() {
			case reflect.Slice:
				var e []string
				for k := 0; k < fv.Len(); k++ {
					x := fv.Index(k)
					amp := ""
					if x.Kind() == reflect.Ptr {
						if x.IsNil() {
							continue
						}
						x = x.Elem()
						amp = "&"
					}
					e = append(e, amp+encBack(f.X, x, true))
				}
				if e == nil {
					p = append(p, "nil")
				} else {
					p = append(p, "["+strings.Join(e, ", ")+"]")
				}
			case reflect.Ptr:
				if fv.IsNil() {
					p = append(p, "nil")
				} else {
					p = append(p, "&"+encBack(f.X, fv.Elem(), true))
				}
			default:
				p = append(p, encBack(f.X, fv, true))
			}
		default:
			p = append(p, gDump(fv))
		}
	}
	return "struct{" + strings.Join(p, "; ") + "}"
}

var encStarts = []string{"", "a = 1\n", "z = 1 # c\n\nblk \"x\" {\n  a = 1\n}\n# end", "a = 1\nb = 2\nblk {\n}\nother {\n}\n", "# only a comment\n", "blk {\n}\n"}

func checkEncode(r *fw.Rec, fs []gField, v reflect.Value, start string) {
	show := gString(fs) + " " + gDump(v)
	ptr := reflect.New(v.Type())
	ptr.Elem().Set(v)
	wantItems := fmt.Sprint(encItems(fs, v))
	srcs := map[string]string{}
	for _, how := range []string{"value", "pointer", "existing", "block"} {
		f := hclwrite.NewEmptyFile()
		switch how {
		case "value":
			gohcl.EncodeIntoBody(v.Interface(), f.Body())
		case "pointer":
			gohcl.EncodeIntoBody(ptr.Interface(), f.Body())
		case "existing":
			var diags hcl.Diagnostics
			f, diags = hclwrite.ParseConfig([]byte(start), "start", hcl.InitialPos)
			if diags.HasErrors() {
				r.Failf("", "%q is rejected", start)
				return
			}
			gohcl.EncodeIntoBody(v.Interface(), f.Body())
		case "block":
			f.Body().AppendBlock(gohcl.EncodeAsBlock(v.Interface(), "top"))
		}
		src := string(f.Bytes())
		srcs[how] = src
		r.Op(1)
		r.State(src)
		pf, diags := hclsyntax.ParseConfig([]byte(src), "t", hcl.InitialPos)
		if diags.HasErrors() {
			r.Failf("", "%s (%s) is written as %q, which has errors: %s", show, how, src, diagsStr(diags))
			return
		}
		body := pf.Body.(*hclsyntax.Body)
		target := reflect.New(v.Type())
		if how == "block" {
			var labels []string
			for i, x := range fs {
				if x.K == "label" {
					labels = append(labels, v.Field(i).String())
				}
			}
			want := fmt.Sprint([]encItem{{Name: "top", Blk: true, Labels: labels, Body: encItems(fs, v)}})
			if got := fmt.Sprint(srcItems(body)); got != want {
				r.Failf("", "%s (%s) is written as %q: items %s instead of %s", show, how, src, got, want)
				return
			}
			wrap := []gField{gB("", "top", fs...)}
			target = reflect.New(gStruct(wrap))
			diags = gohcl.DecodeBody(pf.Body, nil, target.Interface())
			target = target.Elem().Field(0).Addr()
		} else {
			if got := fmt.Sprint(srcItems(body)); got != wantItems {
				r.Failf("", "%s (%s) is written as %q: items %s instead of %s", show, how, src, got, wantItems)
				return
			}
			diags = gohcl.DecodeBody(pf.Body, nil, target.Interface())
		}
		r.Op(2)
		if diags.HasErrors() {
			r.Failf("", "%s (%s) is written as %q, which cannot be decoded: %s", show, how, src, diagsStr(diags))
			return
		}
		if got, want := gDump(target.Elem()), encBack(fs, v, how == "block"); got != want {
			r.Failf("", "%s (%s) is written as %q and comes back as %s instead of %s", show, how, src, got, want)
			return
		}
	}
	if srcs["pointer"] != srcs["value"] {
		r.Failf("", "%s is written as %q by a pointer and as %q by value", show, srcs["pointer"], srcs["value"])
		return
	}
	r.Trace()
}

// encCaseV is a structure type, the number of its value and the body it is
// written into.
type encCaseV struct {
	S     []gField
	Full  bool
	N     int
	Start int
}

// encStructs are the structure types that can be written.
func encStructs(t fw.Tier, yield func(fs []gField, full bool)) {
	ok := func(fs []gField) bool {
		for _, f := range fs {
			if f.K == "remain" && (f.Ty == "" || strings.HasPrefix(f.Ty, "map")) {
				return false
			}
		}
		return true
	}
	out := func(full bool, fs ...gField) {
		if ok(fs) {
			yield(fs, full)
		}
	}
	attrs := gAttrFields()
	for _, a := range attrs {
		out(true, a)
		out(true, gL("l"), a)
		for _, b := range attrs {
			b.Name = "b"
			out(true, a, b)
			if t == fw.Thorough {
				c := b
				c.Name = "c-d"
				out(false, a, gNone, c, gB("[]", "blk", gL("l"), b), gA("e", "string"))
			}
		}
		for _, m := range gMore {
			if m.Name != "a" {
				out(true, a, m)
				out(true, m, a)
			}
		}
	}
	out(true)
	for _, b := range gBodies {
		if !ok(b) {
			continue
		}
		for _, ty := range []string{"", "*", "[]", "[]*"} {
			f := gB(ty, "blk", b...)
			out(true, f)
			for _, m := range gMore {
				out(true, f, m)
				out(true, m, f)
			}
			for _, ty2 := range []string{"", "*", "[]", "[]*"} {
				g := gB(ty2, "other", b...)
				out(false, f, g)
				out(false, gA("a", "string"), f, gA("b", "int"), g, gA("c", "bool"))
				out(false, gB(ty2, "blk", f))
				out(false, gB(ty2, "blk", gL("l"), f, gNone, gL("m"), gA("a", "string")))
				if t == fw.Thorough {
					for _, ty3 := range []string{"", "*", "[]", "[]*"} {
						out(false, gB(ty3, "x", gL("l"), gB(ty2, "blk", f, gA("a", "value")), gA("b", "*string")), f)
					}
				}
			}
		}
	}
}

func init() {
	fw.Register(&fw.Check{
		ID:          "C25",
		Assumptions: []string{"strings are valid UTF-8 in normal form C, as the cty library makes all strings"},
		Suites: []fw.Suite{
			fw.S("round-trip", fmt.Sprintf("structure types with one or two of %d attribute fields (all pairs of values), with %d other fields, and with %d nested structures in 4 kinds of block fields, combined and nested; written by value, by pointer, over %d existing bodies and as a block with labels", len(gAttrFields()), len(gMore), len(gBodies), len(encStarts)),
				func(t fw.Tier, yield func(encCaseV)) {
					k := 0
					encStructs(t, func(fs []gField, full bool) {
						for n := range encAll(fs, full) {
							k++
							if t == fw.Thorough {
								for s := range encStarts {
									yield(encCaseV{fs, full, n, s})
								}
							} else {
								yield(encCaseV{fs, full, n, k % len(encStarts)})
							}
						}
					})
				}, func(r *fw.Rec, c encCaseV) {
					checkEncode(r, c.S, encValue(c), encStarts[c.Start])
				}),
		},
	})
}

var encCache sync.Map

// encValue is the value of a case.
func encValue(c encCaseV) reflect.Value {
	key := fmt.Sprint(c.Full, gString(c.S))
	vs, ok := encCache.Load(key)
	if !ok {
		vs = encAll(c.S, c.Full)
		encCache.Store(key, vs)
	}
	return vs.([]reflect.Value)[c.N]
}
