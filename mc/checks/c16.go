package checks

import (
	"fmt"
	"strings"
	"unicode/utf16"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
)

// jTmpl is a JSON string and what it is as a template in jTmplCtx.
type jTmpl struct {
	Src  string // JSON source
	Val  cty.Value
	Err  string // the source text the error points at, "?" for any
	Null bool
}

var jTmplCtx = &hcl.EvalContext{Variables: map[string]cty.Value{
	"s": str("a"), "n": num("5"), "b": cty.True, "l": tup(num("1"), str("z")), "o": obj("k", str("w")), "nul": cty.NullVal(cty.String), "u": cty.UnknownVal(cty.String), "d": cty.DynamicVal,
}}

var jTmpls = []jTmpl{
	{Src: `"a"`, Val: str("a")}, {Src: `"b"`, Val: str("b")}, {Src: `""`, Val: str("")}, {Src: `"${s}"`, Val: str("a")}, {Src: `"x${s}"`, Val: str("xa")}, {Src: `"${n}"`, Val: num("5")}, {Src: `"n${n}"`, Val: str("n5")}, {Src: `"5"`, Val: str("5")},
	{Src: `"$${s}"`, Val: str("${s}")}, {Src: `"%{if b}y%{endif}"`, Val: str("y")}, {Src: `"${b}"`, Val: cty.True}, {Src: `"${s}"`, Val: str("a")}, {Src: `"é${s}"`, Val: str("éa")}, {Src: `"$"`, Val: str("$")}, {Src: `"{s}"`, Val: str("{s}")}, {Src: `"//"`, Val: str("//")},
	{Src: `"${u}"`, Val: cty.UnknownVal(cty.String)}, {Src: `"a${u}"`, Val: cty.UnknownVal(cty.String)}, {Src: `"${d}"`, Val: cty.DynamicVal}, {Src: `"${nul}"`, Val: cty.NullVal(cty.String)}, {Src: `"${null}"`, Val: cty.NullVal(cty.DynamicPseudoType)},
	{Src: `"${l}"`, Val: tup(num("1"), str("z"))}, {Src: `"${o.k}"`, Val: str("w")}, {Src: `"${s}${n}"`, Val: str("a5")}, {Src: `"${\"q\"}"`, Val: str("q")}, {Src: `"a\\n"`, Val: str(`a\n`)}, {Src: `"\n"`, Val: str("\n")},
	{Src: `"${nope}"`, Err: "nope"}, {Src: `"x é ${nope}"`, Err: "nope"}, {Src: `"${"`, Err: "?"}, {Src: `"${s s}"`, Err: "?"}, {Src: `"a${l}"`, Err: "?"}, {Src: `"é${nope}"`, Err: "?"}, {Src: `"${o.x}"`, Err: ".x"}, {Src: `"%{if"`, Err: "?"}, {Src: `"${nul}x"`, Err: "?"},
}

var jTmplBySrc = map[string]jTmpl{}

// jPlace is where an error has to be.
type jPlace struct {
	start, end int
	exact      bool
	maybe      bool // only permitted, not required
}

// jText is a template of plain text and of uses of the variable n.
func jText(s string) cty.Value {
	if rest := strings.Replace(s, "${n}", "", -1); s == "${n}" || strings.Contains(rest, "${") || strings.Contains(rest, "%{") {
		panic("no template " + s)
	}
	return cty.StringVal(strings.Replace(s, "${n}", "5", -1))
}

// jEval evaluates a JSON value by the rules of the JSON syntax, without a
// context if tmpl is not set.
func jEval(src []byte, n jNode, tmpl bool, errs *[]jPlace) cty.Value {
	switch n.kind {
	case 's':
		if !tmpl {
			return cty.StringVal(n.str)
		}
		text := string(src[n.start:n.end])
		t := jTmplBySrc[text]
		if t.Src == "" {
			return jText(n.str)
		}
		if t.Err == "" {
			return t.Val
		}
		p := jPlace{start: n.start, end: n.end}
		if t.Err != "?" {
			p.start += strings.Index(text, t.Err)
			p.end = p.start + len(t.Err)
			p.exact = true
		}
		*errs = append(*errs, p)
		return cty.DynamicVal
	case 'a':
		vals := []cty.Value{}
		for _, e := range n.vals {
			vals = append(vals, jEval(src, e, tmpl, errs))
		}
		return cty.TupleVal(vals)
	case 'o':
		attrs := map[string]cty.Value{}
		known := true
		for i, k := range n.keys {
			before := len(*errs)
			name := jEval(src, k, tmpl, errs)
			if len(*errs) > before {
				// Whatever the failed name evaluates to may collide.
				for _, k := range n.keys {
					*errs = append(*errs, jPlace{start: k.start, end: k.end, exact: true, maybe: true})
				}
			}
			v := jEval(src, n.vals[i], tmpl, errs)
			bad := jPlace{start: k.start, end: k.end, exact: true}
			if !name.IsWhollyKnown() {
				if ty := name.Type(); ty.IsPrimitiveType() || ty == cty.DynamicPseudoType {
					known = false
					continue
				}
			}
			s, ok := primStr(name)
			if !ok {
				*errs = append(*errs, bad)
				continue
			}
			if _, dup := attrs[s]; dup {
				*errs = append(*errs, bad)
				continue
			}
			attrs[s] = v
		}
		if !known {
			return cty.DynamicVal
		}
		return cty.ObjectVal(attrs)
	}
	v, _ := n.val()
	return v
}

func primStr(v cty.Value) (string, bool) {
	switch {
	case v.IsNull():
		return "", false
	case v.Type() == cty.String:
		return v.AsString(), true
	case v.Type() == cty.Bool:
		return fmt.Sprint(v.True()), true
	case v.Type() == cty.Number:
		return v.AsBigFloat().Text('f', -1), true
	}
	return "", false
}

// jsonAttr gives the expression of a JSON document {"a": VALUE}.
func jsonAttrExpr(src string) (hcl.Expression, string) {
	f, diags := json.Parse([]byte(src), "t.json")
	if diags.HasErrors() {
		return nil, diagsStr(diags)
	}
	attrs, diags := f.Body.JustAttributes()
	if diags.HasErrors() || attrs["a"] == nil {
		return nil, diagsStr(diags)
	}
	return attrs["a"].Expr, ""
}

func checkJSONValue(r *fw.Rec, val string) {
	src := []byte(`{"a": ` + val + `}`)
	e, m := jsonAttrExpr(string(src))
	if m != "" {
		r.Failf("", "%s is rejected: %s", src, m)
		return
	}
	r.StateB("", src)
	n := readJSON(src).vals[0]
	for _, ctx := range []*hcl.EvalContext{jTmplCtx, nil, jTmplCtx.NewChild()} {
		var errs []jPlace
		want := jEval(src, n, ctx != nil, &errs)
		got, diags := e.Value(ctx)
		r.Op(1)
		if len(errs) == 0 {
			if len(diags) != 0 || !got.RawEquals(want) {
				r.Failf("", "%s (context %v) is %#v (%s), expected %#v", val, ctx != nil, got, diagsStr(diags), want)
				return
			}
			continue
		}
		if !diags.HasErrors() {
			r.Failf("", "%s (context %v) is %#v without errors, expected errors at %v", val, ctx != nil, got, errs)
			return
		}
		for _, d := range diags {
			found := false
			for _, p := range errs {
				if d.Subject != nil && (p.exact && d.Subject.Start.Byte == p.start && d.Subject.End.Byte == p.end || !p.exact && d.Subject.Start.Byte >= p.start && d.Subject.End.Byte <= p.end) {
					found = true
				}
			}
			if !found {
				r.Failf("", "%s: diagnostic %s is not at one of %v", val, diagsStr(hcl.Diagnostics{d}), errs)
				return
			}
		}
		for _, p := range errs {
			found := p.maybe
			for _, d := range diags {
				if d.Subject != nil && d.Subject.Start.Byte >= p.start && d.Subject.End.Byte <= p.end {
					found = true
				}
			}
			if !found {
				r.Failf("", "%s: no error at %q, only %s", val, src[p.start:p.end], diagsStr(diags))
				return
			}
		}
	}
	if m := badJSONRange(src, e.Range(), n.start, n.end); m != "" {
		r.Failf("", "%s: %s", val, m)
		return
	}
	r.Trace()
}

// jsonEsc writes a JSON string with all characters escaped.
func jsonEsc(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, u := range utf16.Encode([]rune(s)) {
		fmt.Fprintf(&b, "\\u%04x", u)
	}
	b.WriteByte('"')
	return b.String()
}

func init() {
	for _, t := range jTmpls {
		jTmplBySrc[t.Src] = t
	}
	leaves := []string{`1`, `-0.5`, `1e3`, `true`, `false`, `null`, `[]`, `{}`}
	var keys []string
	for _, t := range jTmpls {
		leaves = append(leaves, t.Src)
		keys = append(keys, t.Src)
	}
	var small []string
	for _, i := range []int{0, 3, 4, 5, 6, 8, 10, 11, 14, 17, 24, 27, 32, 35} {
		small = append(small, leaves[i])
	}
	fw.Register(&fw.Check{
		ID: "C16",
		Suites: []fw.Suite{
			fw.S("values", fmt.Sprintf("every leaf out of %d, every array of up to 2 of them (thorough 3) and every object of one or two properties with names out of %d templates, with two contexts and without one", len(leaves), len(keys)),
				func(t fw.Tier, yield func(string)) {
					eachSeq(len(leaves), 1, fw.Pick(t, 2, 3), func(idx []int) {
						var el []string
						for _, i := range idx {
							el = append(el, leaves[i])
						}
						if len(el) == 1 {
							yield(el[0])
						}
						yield("[" + strings.Join(el, ",") + "]")
					})
					for _, k1 := range keys {
						for _, v1 := range leaves {
							yield("{" + k1 + ": " + v1 + "}")
						}
						for _, k2 := range keys {
							for i, v1 := range leaves {
								yield("{" + k1 + ": " + v1 + ", " + k2 + ": " + leaves[(i*7+3)%len(leaves)] + "}")
							}
							if t == fw.Thorough {
								for _, k3 := range keys {
									yield("{" + k1 + ": 1, " + k2 + ": 2, " + k3 + ": 3}")
								}
							}
						}
					}
				},
				checkJSONValue),
			fw.S("nested", fmt.Sprintf("every array and object around one or two values (thorough three levels) that are leaves out of %d, arrays or objects", len(small)),
				func(t fw.Tier, yield func(string)) {
					level := append([]string{}, small...)
					for d := 0; d < fw.Pick(t, 2, 3); d++ {
						var next []string
						for i, v := range level {
							o := small[i%len(small)]
							next = append(next, "["+v+"]", "["+v+", "+o+"]", "["+o+", "+v+"]", `{"a": `+v+`}`, `{"${s}": `+v+`, "b": `+o+`}`, `{"b": `+v+`, "x${s}": `+o+`}`, `{"a": `+v+`, "${s}": `+o+`}`, `{"${u}": `+v+`}`, `{"${nope}": `+v+`}`)
						}
						level = append(append([]string{}, small...), next...)
						for _, v := range next {
							yield(v)
						}
					}
				},
				checkJSONValue),
			fw.S("strings", "every string of up to 4 (thorough 6) pieces of template syntax, written plainly and with all characters escaped, as a value and as a property name",
				func(t fw.Tier, yield func(fw.StrCase)) {
					eachString([]string{"${", "}", "%{", "$", "s", " ", `"`, "\n", "if b", "endif", "~", "é", "nope", `\`}, 1, fw.Pick(t, 4, 6), func(s string) { yield(fw.StrCase(s)) })
				},
				func(r *fw.Rec, c fw.StrCase) {
					s := string(c)
					r.State(s)
					var want cty.Value
					te, wd := hclsyntax.ParseTemplate([]byte(s), "t", hcl.InitialPos)
					if !wd.HasErrors() {
						var ed hcl.Diagnostics
						want, ed = te.Value(jTmplCtx)
						wd = append(wd, ed...)
					}
					for _, q := range []string{jsonStr(s), jsonEsc(s)} {
						src := `{"a": ` + q + `, "o": {` + q + `: 1}}`
						f, diags := json.Parse([]byte(src), "t.json")
						attrs, _ := f.Body.JustAttributes()
						if diags.HasErrors() || attrs["a"] == nil || attrs["o"] == nil {
							r.Failf("", "%s is rejected: %s", src, diagsStr(diags))
							return
						}
						got, diags := attrs["a"].Expr.Value(jTmplCtx)
						if !eqRes(got, diags, want, wd) {
							r.Failf("", "%s is %#v (%s), expected %#v (%s)", q, got, diagsStr(diags), want, diagsStr(wd))
							return
						}
						for _, d := range diags {
							if d.Subject == nil || d.Subject.Start.Byte < 6 || d.Subject.End.Byte > 6+len(q) || d.Subject.Filename != "t.json" {
								r.Failf("", "%s: diagnostic %s is outside the string at 6-%d", src, diagsStr(hcl.Diagnostics{d}), 6+len(q))
								return
							}
						}
						got, diags = attrs["a"].Expr.Value(nil)
						if len(diags) != 0 || !got.RawEquals(cty.StringVal(s)) {
							r.Failf("", "%s without a context is %#v (%s)", q, got, diagsStr(diags))
							return
						}
						got, diags = attrs["o"].Expr.Value(nil)
						if len(diags) != 0 || !got.RawEquals(cty.ObjectVal(map[string]cty.Value{s: num("1")})) {
							r.Failf("", "{%s: 1} without a context is %#v (%s)", q, got, diagsStr(diags))
							return
						}
						got, diags = attrs["o"].Expr.Value(jTmplCtx)
						bad := wd.HasErrors()
						name := ""
						known := false
						if !bad {
							known = want.IsWhollyKnown()
							if known {
								var ok bool
								name, ok = primStr(want)
								bad = !ok
							}
						}
						if bad != diags.HasErrors() {
							r.Failf("", "{%s: 1} is %#v (%s), expected errors: %v", q, got, diagsStr(diags), bad)
							return
						}
						for _, d := range diags {
							if d.Subject == nil || d.Subject.Start.Byte < strings.LastIndex(src, ", \"o\"")+8 || d.Subject.End.Byte > len(src)-5 {
								r.Failf("", "%s: diagnostic %s is outside the name", src, diagsStr(hcl.Diagnostics{d}))
								return
							}
						}
						if !bad && known && !got.RawEquals(cty.ObjectVal(map[string]cty.Value{name: num("1")})) || !bad && !known && !got.RawEquals(cty.DynamicVal) {
							r.Failf("", "{%s: 1} is %#v, expected the name %q", q, got, name)
							return
						}
						r.Op(5)
					}
					r.Trace()
				}),
		},
	})
}
