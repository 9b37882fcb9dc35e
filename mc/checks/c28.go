package checks

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"verif/mc/fw"
)

// uFunc is a function declaration.
type uFunc struct {
	Name   string
	Params []string
	Var    string `json:",omitempty"`
	Result string
}

func (f uFunc) native(kw string) string {
	s := fmt.Sprintf("%s %q {\n  params = [%s]\n", kw, f.Name, strings.Join(f.Params, ", "))
	if f.Var != "" {
		s += "  variadic_param = " + f.Var + "\n"
	}
	return s + "  result = " + f.Result + "\n}\n"
}

func (f uFunc) json() string {
	var p []string
	for _, n := range f.Params {
		p = append(p, jsonStr(n))
	}
	s := fmt.Sprintf(`%s: {"params": [%s]`, jsonStr(f.Name), strings.Join(p, ", "))
	if f.Var != "" {
		s += `, "variadic_param": ` + jsonStr(f.Var)
	}
	return s + `, "result": ` + jsonStr("${"+f.Result+"}") + `}`
}

var uParams = [][]string{{}, {"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"a", "b", "c"}}
var uResults = []string{"1", "a", "b", "c", "[a, b]", "[b, a]", "a + b", "base", "[a, base]", "c[0]", "[for x in c: x]", "[for a in c: a]", "inc(a)", "inc(base)", `"x${a}"`, "{k = a}", "a.k", "v0", "a == 1 ? a : b", "[c, a]", "join2(c...)", "join2(a, c...)", "a[b]", "[a, a]", "undefined", "h(a)"}

type uArg struct {
	src string
	val cty.Value
}

var uArgs = []uArg{
	{"v0", cty.NumberIntVal(0)},
	{"v1", cty.StringVal("s")},
	{"v2", cty.ObjectVal(map[string]cty.Value{"k": cty.True})},
	{"v3", cty.ListVal([]cty.Value{cty.NumberIntVal(1), cty.NumberIntVal(2)})},
	{"v4", cty.UnknownVal(cty.String)},
	{"v5", cty.DynamicVal},
	{"v6", cty.NullVal(cty.String)},
	{"v7", cty.ListVal([]cty.Value{cty.UnknownVal(cty.Number)})},
	{"v8", cty.TupleVal([]cty.Value{cty.NumberIntVal(3), cty.StringVal("t")})},
}

func uBaseFns() map[string]function.Function {
	inc := function.New(&function.Spec{
		Params: []function.Parameter{{Name: "x", Type: cty.Number}},
		Type:   function.StaticReturnType(cty.Number),
		Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) {
			return args[0].Add(cty.NumberIntVal(1)), nil
		},
	})
	join := function.New(&function.Spec{
		VarParam: &function.Parameter{Name: "x", Type: cty.String},
		Type:     function.StaticReturnType(cty.String),
		Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) {
			s := ""
			for _, a := range args {
				s += a.AsString() + ";"
			}
			return cty.StringVal(s), nil
		},
	})
	return map[string]function.Function{"inc": inc, "join2": join}
}

// uBase are the kinds of base context: no function, a function without a
// context, one with variables and functions, and one with a parent.
var uBases = []string{"none", "nil", "vars", "nested"}

func uBaseVars(kind string) map[string]cty.Value {
	if kind == "vars" || kind == "nested" {
		return map[string]cty.Value{"base": cty.NumberIntVal(7), "a": cty.StringVal("base a")}
	}
	return nil
}

type uCase struct {
	Funcs []uFunc
	Base  string
	JSON  bool `json:",omitempty"`
	Max   int  // longest argument list
}

func (c uCase) src() string {
	if c.JSON {
		var p []string
		for _, f := range c.Funcs {
			p = append(p, `{`+f.json()+`}`)
		}
		return `{"z": 1, "function": [` + strings.Join(p, ", ") + `], "other": {"x": {}}}`
	}
	s := "z = 1\n"
	for _, f := range c.Funcs {
		s += f.native("function")
	}
	return s + "other \"x\" {\n}\n"
}

func parseAny(src string, isJSON bool) (*hcl.File, hcl.Diagnostics) {
	if isJSON {
		return json.Parse([]byte(src), "f.json")
	}
	return hclsyntax.ParseConfig([]byte(src), "f", hcl.Pos{Line: 1, Column: 1})
}

// uWant is what calling a function gives, and whether it fails.
func uWant(c uCase, f uFunc, args []uArg, fns map[string]function.Function) (cty.Value, bool) {
	if len(args) < len(f.Params) || f.Var == "" && len(args) > len(f.Params) {
		return cty.DynamicVal, false
	}
	ctx := &hcl.EvalContext{Variables: map[string]cty.Value{}}
	for k, v := range uBaseVars(c.Base) {
		ctx.Variables[k] = v
	}
	if uBaseVars(c.Base) != nil {
		ctx.Functions = fns
	}
	for i, p := range f.Params {
		ctx.Variables[p] = args[i].val
	}
	if f.Var != "" {
		rest := []cty.Value{}
		for _, a := range args[len(f.Params):] {
			rest = append(rest, a.val)
		}
		ctx.Variables[f.Var] = cty.TupleVal(rest)
	}
	e, diags := hclsyntax.ParseExpression([]byte(f.Result), "r", hcl.Pos{Line: 1, Column: 1})
	if diags.HasErrors() {
		return cty.DynamicVal, false
	}
	v, diags := e.Value(ctx)
	return v, !diags.HasErrors()
}

func runUserFuncs(r *fw.Rec, c uCase) {
	src := c.src()
	r.State(c.Base, src)
	f, diags := parseAny(src, c.JSON)
	if diags.HasErrors() {
		r.Failf("parse", "%s\n%s", src, diagsStr(diags))
		return
	}
	baseFns := uBaseFns()
	var base *hcl.EvalContext
	var ctxFn userfunc.ContextFunc
	switch c.Base {
	case "nil":
		ctxFn = func() *hcl.EvalContext { return nil }
	case "vars":
		base = &hcl.EvalContext{Variables: uBaseVars(c.Base), Functions: baseFns}
		ctxFn = func() *hcl.EvalContext { return base }
	case "nested":
		base = (&hcl.EvalContext{Variables: uBaseVars(c.Base), Functions: baseFns}).NewChild()
		ctxFn = func() *hcl.EvalContext { return base }
	}
	funcs, remain, diags := userfunc.DecodeUserFunctions(f.Body, "function", ctxFn)
	if len(diags) > 0 {
		r.Failf("decode", "%s\n%s", src, diagsStr(diags))
		return
	}
	r.Op(1)
	if len(funcs) != len(c.Funcs) {
		r.Failf("count", "%s\n%d functions", src, len(funcs))
	}
	// h is a user function that others may call through the base context.
	if h, ok := funcs["h"]; ok && c.Base != "none" && c.Base != "nil" {
		baseFns["h"] = h
	}
	checkRest(r, remain, src)
	callCtx := &hcl.EvalContext{Variables: map[string]cty.Value{"b": cty.StringVal("caller b"), "c": cty.StringVal("caller c")}, Functions: funcs}
	for _, a := range uArgs {
		callCtx.Variables[a.src] = a.val
	}
	for _, uf := range c.Funcs {
		fn, ok := funcs[uf.Name]
		if !ok {
			r.Failf("missing", "%s\nfunction %s is not declared", src, uf.Name)
			continue
		}
		eachSeq(len(uArgs), 0, c.Max, func(ix []int) {
			r.Op(1)
			r.Trace()
			var args []uArg
			var srcs []string
			var vals []cty.Value
			null, unk := false, false
			for _, i := range ix {
				args = append(args, uArgs[i])
				srcs = append(srcs, uArgs[i].src)
				vals = append(vals, uArgs[i].val)
				null = null || uArgs[i].val.IsNull()
				unk = unk || !uArgs[i].val.IsKnown()
			}
			want, wantOK := uWant(c, uf, args, baseFns)
			call := fmt.Sprintf("%s(%s)", uf.Name, strings.Join(srcs, ", "))
			desc := fmt.Sprintf("%s with base %s\ncalling %s", src, c.Base, call)
			got, err := fn.Call(vals)
			e, diags := hclsyntax.ParseExpression([]byte(call), "c", hcl.Pos{Line: 1, Column: 1})
			if diags.HasErrors() {
				r.Failf("call-parse", "%s: %s", call, diagsStr(diags))
				return
			}
			ev, diags := e.Value(callCtx)
			if (err != nil) != diags.HasErrors() || err == nil && !ev.RawEquals(got) {
				r.Failf("call-expr", "%s: direct call gives %#v (%v), expression %#v (%s)", desc, got, err, ev, diagsStr(diags))
				return
			}
			switch {
			case null && len(args) >= len(uf.Params) && (uf.Var != "" || len(args) == len(uf.Params)):
				// The library rejects null arguments or passes them on.
				if err == nil && !(wantOK && unkMatches(got, want)) && !(unk && !got.IsKnown()) {
					r.Failf("null", "%s with a null argument gives %#v instead of an error or %#v", desc, got, want)
				}
			case unk:
				if err == nil && !wantOK && len(args) != len(uf.Params) && uf.Var == "" {
					r.Failf("arity", "%s gives %#v instead of an error", desc, got)
				}
				if err == nil && wantOK && !unkMatches(got, want) {
					r.Failf("unknown", "%s gives %#v instead of %#v", desc, got, want)
				}
				if err != nil && wantOK {
					r.Failf("unknown-error", "%s fails (%s) instead of giving %#v", desc, err, want)
				}
			case wantOK && err != nil:
				r.Failf("fails", "%s fails (%s) instead of giving %#v", desc, err, want)
			case !wantOK && err == nil:
				r.Failf("succeeds", "%s gives %#v instead of an error", desc, got)
			case wantOK && !got.RawEquals(want):
				r.Failf("value", "%s gives %#v instead of %#v", desc, got, want)
			}
			if err != nil {
				if ds, ok := err.(hcl.Diagnostics); ok {
					for _, d := range ds {
						if m := badDiag(d, 0, len(src)); m != "" {
							r.Failf("diag", "%s: %s", desc, m)
						}
					}
				}
			}
		})
	}
}

// unkMatches says whether want is what got promises.
func unkMatches(got, want cty.Value) bool {
	if !got.IsKnown() {
		return got.Type() == cty.DynamicPseudoType || nonconf(want.Type(), got.Type(), "") == ""
	}
	return got.RawEquals(want)
}

// checkRest reads what is left, which must be the attribute z and the block
// other.
func checkRest(r *fw.Rec, remain hcl.Body, src string) {
	content, diags := remain.Content(&hcl.BodySchema{
		Attributes: []hcl.AttributeSchema{{Name: "z", Required: true}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "other", LabelNames: []string{"l"}}},
	})
	if diags.HasErrors() || len(content.Blocks) != 1 || content.Blocks[0].Labels[0] != "x" {
		r.Failf("rest", "%s\nthe remaining body has not just the other content: %s", src, diagsStr(diags))
	}
	content, _, diags = remain.PartialContent(&hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "function", LabelNames: []string{"l"}}}})
	if diags.HasErrors() || len(content.Blocks) != 0 {
		r.Failf("rest-functions", "%s\nthe remaining body has %d functions: %s", src, len(content.Blocks), diagsStr(diags))
	}
}

// uBad are declarations with something wrong.
var uBad = []string{
	"function \"f\" {\n  result = 1\n}\n",
	"function \"f\" {\n  params = []\n}\n",
	"function \"f\" {\n}\n",
	"function {\n  params = []\n  result = 1\n}\n",
	"function \"f\" \"g\" {\n  params = []\n  result = 1\n}\n",
	"function \"f\" {\n  params = []\n  result = 1\n  extra = 1\n}\n",
	"function \"f\" {\n  params = []\n  result = 1\n  extra {\n  }\n}\n",
	"function \"f\" {\n  params = []\n  variadic = a\n  result = 1\n}\n",
}

var uBadParams = []string{`a`, `{}`, `{a = b}`, `["a"]`, `[a, "b"]`, `[a.b]`, `[a, b[0]]`, `[1]`, `[a, 1]`, `[-a]`, `[a()]`, `[[a]]`, `"a"`, `null`, `[for x in y: x]`, `f(a)`, `[a][*]`, `[a + b]`, `["${a}"]`, `[{}]`, `[a ? b : c]`}
var uBadVar = []string{`"a"`, `[a]`, `a.b`, `a[0]`, `1`, `a()`, `{}`, `-a`, `"${a}"`, `a + b`}

var uBadJSON = []string{
	`{"f": {"result": 1}}`, `{"f": {"params": []}}`, `{"f": {}}`, `{"f": {"params": [], "result": 1, "extra": 1}}`,
	`{"f": {"params": "a", "result": 1}}`, `{"f": {"params": {}, "result": 1}}`, `{"f": {"params": 1, "result": 1}}`, `{"f": {"params": ["a.b"], "result": 1}}`,
	`{"f": {"params": ["a", 1], "result": 1}}`, `{"f": {"params": [["a"]], "result": 1}}`, `{"f": {"params": [null], "result": 1}}`, `{"f": {"params": ["a b"], "result": 1}}`, `{"f": {"params": [""], "result": 1}}`, `{"f": {"params": ["${a}"], "result": 1}}`,
	`{"f": {"params": [], "variadic_param": "a.b", "result": 1}}`, `{"f": {"params": [], "variadic_param": ["a"], "result": 1}}`, `{"f": {"params": [], "variadic_param": 1, "result": 1}}`, `{"f": {"params": [], "variadic_param": "", "result": 1}}`,
	`{"f": {"params": [], "variadic_param": "1", "result": 1}}`,
	`{"f": 1}`, `1`, `"f"`, `{"f": [1]}`,
}

func init() {
	good := uFunc{Name: "g", Params: []string{"x"}, Result: "x"}
	fw.Register(&fw.Check{
		ID: "C28",
		Assumptions: []string{
			"null arguments may be rejected instead of passed on, and unknown arguments may give an unknown result in place of the one that substituting them gives: both come from the library of values",
		},
		Suites: []fw.Suite{
			fw.S("single", "one declaration of every parameter list, variadic parameter and result of the alphabets, every base context, natively and in JSON, and all argument lists of at most three (thorough: four) of nine values", func(t fw.Tier, yield func(uCase)) {
				for _, js := range []bool{false, true} {
					for _, base := range uBases {
						for _, ps := range uParams {
							for _, v := range []string{"", "c", "rest", "a"} {
								if v != "" && len(v) == 1 && strings.Contains(strings.Join(ps, ""), v) {
									continue
								}
								for _, res := range uResults {
									max := len(ps) + 1
									if v != "" {
										max++
									}
									if lim := fw.Pick(t, 3, 4); max > lim {
										max = lim
										if len(ps) > max {
											max = len(ps)
										}
									}
									yield(uCase{Funcs: []uFunc{{"f", ps, v, res}}, Base: base, JSON: js, Max: max})
								}
							}
						}
					}
				}
			}, runUserFuncs),
			fw.S("several", "all pairs of declarations (thorough: triples) of a smaller alphabet in one body, the others being callable", func(t fw.Tier, yield func(uCase)) {
				alpha := []uFunc{
					{"f", []string{"a"}, "", "a"}, {"f", []string{"a", "b"}, "", "[a, b]"}, {"f", nil, "c", "c"}, {"f", []string{"b"}, "c", "[c, b]"},
					{"f", []string{"b"}, "", "h(b)"}, {"f", []string{"b"}, "", "a"}, {"f", []string{"x"}, "", "[x, a, base]"}, {"f", []string{"a"}, "", "b"}, {"f", nil, "", "1"},
					{"f", []string{"x"}, "rest", "[x, rest]"}, {"f", nil, "d", "[d, a]"},
				}
				names := []string{"f", "h", "k"}
				eachSeq(len(alpha), 2, fw.Pick(t, 2, 3), func(ix []int) {
					for _, base := range uBases {
						for _, js := range []bool{false, true} {
							c := uCase{Base: base, JSON: js, Max: 2}
							for i, k := range ix {
								f := alpha[k]
								f.Name = names[i]
								if f.Result == "h(b)" && f.Name != "f" {
									return // would call itself
								}
								c.Funcs = append(c.Funcs, f)
							}
							yield(c)
						}
					}
				})
			}, runUserFuncs),
			fw.S("malformed", "every malformed declaration of the alphabet, alone and before and after a good one, natively and in JSON, and natively in pairs around a good one", func(t fw.Tier, yield func(fw.StrCase)) {
				var bad []string
				for _, b := range uBad {
					bad = append(bad, b)
				}
				for _, p := range uBadParams {
					bad = append(bad, "function \"f\" {\n  params = "+p+"\n  result = 1\n}\n")
				}
				for _, v := range uBadVar {
					bad = append(bad, "function \"f\" {\n  params = []\n  variadic_param = "+v+"\n  result = 1\n}\n")
				}
				for _, b := range bad {
					yield(fw.StrCase(b))
					yield(fw.StrCase(b + good.native("function")))
					yield(fw.StrCase(good.native("function") + b))
				}
				for i, b := range bad {
					for j, c := range bad {
						if i != 3 && i != 4 && j != 3 && j != 4 {
							yield(fw.StrCase(b + good.native("function") + strings.Replace(c, "\"f\"", "\"h\"", 1)))
						}
					}
				}
				for _, b := range uBadJSON {
					yield(fw.StrCase(`{"function": ` + b + `}`))
					yield(fw.StrCase(`{"function": [{` + good.json() + `}, ` + b + `]}`))
					yield(fw.StrCase(`{"function": [` + b + `, {` + good.json() + `}]}`))
				}
			}, func(r *fw.Rec, c fw.StrCase) {
				src := string(c)
				r.State(src)
				f, diags := parseAny(src, src[0] == '{')
				if diags.HasErrors() {
					r.Failf("malformed-parse", "%s: %s", src, diagsStr(diags))
					return
				}
				r.Op(1)
				r.Trace()
				_, _, diags = userfunc.DecodeUserFunctions(f.Body, "function", nil)
				if !diags.HasErrors() {
					r.Failf("malformed", "%s\nis accepted", src)
				}
				if at := strings.Index(src, "function \"h\""); at > 0 {
					// Both of two malformed declarations are reported.
					first, second := false, false
					for _, d := range diags {
						if d.Subject != nil {
							first = first || d.Subject.Start.Byte < at
							second = second || d.Subject.Start.Byte >= at
						}
					}
					if !first || !second {
						r.Failf("malformed-both", "%s\nonly one is reported: %s", src, diagsStr(diags))
					}
				}
				for _, d := range diags {
					if m := badDiag(d, 0, len(src)); m != "" {
						r.Failf("diag", "%s\n%s", src, m)
					}
				}
			}),
		},
	})
}
