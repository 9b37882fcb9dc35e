package checks

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"github.com/zclconf/go-cty/cty/function/stdlib"
	"verif/mc/fw"
)

var nativeTokens = []string{
	"a", "b ", "for ", "in ", "if ", "null", "true", "else", "endif", "1", "1.5", ".", "..", "*", "[", "]", "(", ")", "{", "}", ",", ":", "=", "==", "=>", "...", "?", "!", "-", "&&",
	"\"", "\"s\"", "${", "%{", "~}", "$", "\\", "\n", " ", "#c\n", "/*c*/", "<<E\n", "E\n", "é", "\xff", "'", "`", ";", "&", "\t", "\r",
}

var nativeThemes = []struct {
	name     string
	alphabet []string
	q, th    int
}{
	{"template", []string{"\"", "${", "}", "%{", "if ", "a", "else", "endif", "for ", " in ", "endfor", "~}", "%{~", "x"}, 5, 6},
	{"heredoc", []string{"a=", "<<E\n", "<<-E\n", "E\n", " ", "x", "\n", "${", "}", "%{if a}", "%{endif}", "E"}, 5, 6},
	{"for", []string{"[", "{", "for ", "a", ",", " in ", ":", "=>", " if ", "...", "]", "}"}, 5, 6},
	{"suffix", []string{"a", ".", "*", "[", "]", "0", "(", ")", "\"k\"", "...", "1.1", ","}, 5, 6},
	{"body", []string{"a", "{", "}", "=", "\n", "\"b\"", "1", " ", "[", ",", "#c\n"}, 6, 7},
	{"object", []string{"{", "}", "a", "=", ":", "1", ",", "\n", "(", ")", "\"k\""}, 5, 6},
	{"operators", []string{"a", "1", "-", "!", "+", "?", ":", "(", ")", "\n", "==", "||", "<"}, 5, 6},
	{"labels", []string{"a ", "\"l\" ", "\"l", "${", "}", "\"", "{", "\n", "=", "1", "<<E\n"}, 5, 6},
}

// wellFormed are sources from which broken ones are made by small edits.
var wellFormed = []string{
	"a = 1\nb = 2\n",
	"a = b.c[0].d[\"e\"].*.f[*].g\n",
	"b \"x\" y {\n  a = 1\n  c {\n  }\n}\n",
	"b { a = 1 }\nb {}\n",
	"a = [1, \"two\", true, null, [3], {x = 4}]\n",
	"a = {\n  x = 1\n  \"y\" = 2, (z) : 3\n}\n",
	"a = [for k, v in m : k if v]\n",
	"a = {for k, v in m : k => v... if k}\n",
	"a = f(1, 2, x...)\n",
	"a = x ? y : z\n",
	"a = 1 + 2 * -3 == 4 && !true || false\n",
	"a = \"x${b}y%{ if c }z%{ else }w%{ endif }\\n\\u00e9$${q}\"\n",
	"a = \"%{ for k, v in m ~}\n${k}%{ endfor }\"\n",
	"a = <<E\n  x ${b}\n%{ if c ~}\n y\n%{ endif }\nE\nb = 1\n",
	"b {\n  a = <<-E\n    x\n      y\n    E\n}\n",
	"# comment\na = 1 // x\n/* y */ b = 2\n",
	"a = (\n  1 +\n  2\n)\n",
	"a = foo.0.bar.1\n",
	"a = \"${[for x in y : \"${x}\"]}\"\n",
	"a = \"${ {x=1}.x }\" \nb = x[\"y\"][\"z\"].w\n",
}

type srcCase struct{ Src fw.StrCase }

func (c srcCase) String() string { return c.Src.String() }

func init() {
	suites := []fw.Suite{
		fw.S("tokens", "all strings of up to 3 (thorough 4) of 51 tokens, in each of the four entry points, then decoded and evaluated",
			func(t fw.Tier, yield func(fw.StrCase)) {
				eachString(nativeTokens, 0, fw.Pick(t, 3, 4), func(s string) { yield(fw.StrCase(s)) })
			}, runTotal),
		fw.S("attribute", "all strings of up to 3 (thorough 4) of 51 tokens as the value of an attribute of a nested block",
			func(t fw.Tier, yield func(fw.StrCase)) {
				eachString(nativeTokens, 1, fw.Pick(t, 3, 4), func(s string) { yield(fw.StrCase("b {\na = " + s + "\n}\n")) })
			}, runTotal),
		fw.S("characters", "all strings of up to 4 of 30 characters and bytes",
			func(t fw.Tier, yield func(fw.StrCase)) {
				eachString(lexBytes, 0, 4, func(s string) { yield(fw.StrCase(s)) })
			}, runTotal),
	}
	for _, th := range nativeThemes {
		th := th
		suites = append(suites, fw.S("theme-"+th.name, fmt.Sprintf("all strings of up to %d (thorough %d) of %d tokens: %q", th.q, th.th, len(th.alphabet), th.alphabet),
			func(t fw.Tier, yield func(fw.StrCase)) {
				eachString(th.alphabet, 0, fw.Pick(t, th.q, th.th), func(s string) { yield(fw.StrCase(s)) })
			}, runTotal))
	}
	suites = append(suites,
		fw.S("edits", "every byte deletion, truncation, duplication and every insertion or replacement by one of 51 tokens in each of 20 well-formed sources (thorough: every two such token edits)",
			func(t fw.Tier, yield func(fw.StrCase)) {
				for _, s := range wellFormed {
					eachEdit(s, nativeTokens, func(e string) { yield(fw.StrCase(e)) })
					if t == fw.Thorough {
						eachEdit(s, nativeTokens, func(e string) {
							eachEdit(e, []string{"", "\"", "}", "{", "[", "\n", "${"}, func(e2 string) { yield(fw.StrCase(e2)) })
						})
					}
				}
			}, runTotal),
		fw.S("nesting", "every repetition (40 and 300 times) of every sequence of up to 3 (thorough 4) of 15 opening constructs, unclosed and closed",
			func(t fw.Tier, yield func(fw.StrCase)) {
				open := []string{"(", "[", "{", "\"${", "f(", "a[", "[for x in ", "{for k,v in ", "-", "!", "a?", "1:", "{a=", "<<E\n${", "%{if "}
				clos := []string{")", "]", "}", "}\"", ")", "]", ":x]", ":k=>v}", "", "", ":1", "", "}", "}\nE\n", "}%{endif}"}
				eachSeq(len(open), 1, fw.Pick(t, 3, 4), func(idx []int) {
					var o, c string
					for _, i := range idx {
						o += open[i]
						c = clos[i] + c
					}
					for _, n := range []int{40, 300} {
						if n == 300 && len(idx) > 2 {
							continue
						}
						yield(fw.StrCase("a = " + strings.Repeat(o, n)))
						yield(fw.StrCase("a = " + strings.Repeat(o, n) + "1" + strings.Repeat(c, n) + "\n"))
					}
				})
				for _, unit := range []string{"b {\n", "b \"l\" {", "a=1\n", "a=[\n", "x.", "x[0]", ".*", "[*]", "+1", "?1:", "&&a", "\n", "${", "\"", "%{if a}", "%{for a in b}"} {
					for _, n := range []int{40, 2000} {
						yield(fw.StrCase(strings.Repeat(unit, n)))
						yield(fw.StrCase("a = x" + strings.Repeat(unit, n)))
					}
				}
			}, runTotalDeep),
	)
	fw.Register(&fw.Check{
		ID:          "C01",
		Assumptions: []string{"evaluation uses one context with values of several types and two functions, and no context"},
		Suites:      suites,
	})
}

// eachEdit yields every one-step edit of s.
func eachEdit(s string, pieces []string, yield func(string)) {
	for i := 0; i <= len(s); i++ {
		yield(s[:i])
		if i > 0 {
			yield(s[i:])
		}
		if i < len(s) {
			yield(s[:i] + s[i+1:])
			yield(s[:i+1] + s[i:])
		}
		for _, p := range pieces {
			yield(s[:i] + p + s[i:])
			if i < len(s) {
				yield(s[:i] + p + s[i+1:])
			}
		}
	}
}

var totalCtx = &hcl.EvalContext{
	Variables: map[string]cty.Value{
		"a": cty.ObjectVal(map[string]cty.Value{"a": cty.ListVal([]cty.Value{cty.StringVal("k"), cty.StringVal("l")}), "k": cty.NumberIntVal(1)}),
		"b": cty.ListVal([]cty.Value{cty.NumberIntVal(1), cty.NumberIntVal(2)}),
		"é": cty.UnknownVal(cty.String),
		"x": cty.MapVal(map[string]cty.Value{"k": cty.True}),
		"m": cty.DynamicVal,
	},
	Functions: map[string]function.Function{"f": stdlib.LengthFunc, "a": stdlib.UpperFunc},
}

var totalSchemas = []*hcl.BodySchema{
	{},
	{Attributes: []hcl.AttributeSchema{{Name: "a", Required: true}, {Name: "z"}}, Blocks: []hcl.BlockHeaderSchema{{Type: "b"}}},
	{Attributes: []hcl.AttributeSchema{{Name: "b", Required: true}}, Blocks: []hcl.BlockHeaderSchema{{Type: "a", LabelNames: []string{"l"}}, {Type: "b", LabelNames: []string{"l", "m"}}}},
}

func runTotal(r *fw.Rec, c fw.StrCase)     { runTotalSrc(r, []byte(c), true) }
func runTotalDeep(r *fw.Rec, c fw.StrCase) { runTotalSrc(r, []byte(c), false) }

func runTotalSrc(r *fw.Rec, src []byte, eval bool) {
	orig := string(src)
	start := hcl.Pos{Byte: 0, Line: 1, Column: 1}
	r.StateB("", src)
	checkDiags := func(what string, diags hcl.Diagnostics) {
		for _, d := range diags {
			if m := badDiag(d, 0, len(src)); m != "" {
				r.Failf("", "%s of %q: %s", what, src, m)
			}
		}
	}
	checkExpr := func(what string, e hcl.Expression) {
		rng, srng := e.Range(), e.StartRange()
		r.Op(2)
		if m := badRange(rng, 0, len(src)); m != "" {
			r.Failf("", "%s of %q: expression %s", what, src, m)
		}
		if m := badRange(srng, 0, len(src)); m != "" {
			r.Failf("", "%s of %q: start of expression %s", what, src, m)
		}
		e.Variables()
		r.Op(1)
		if !eval {
			return
		}
		for _, ctx := range []*hcl.EvalContext{nil, totalCtx} {
			v, diags := e.Value(ctx)
			r.Op(1)
			if v == cty.NilVal {
				r.Failf("", "%s of %q evaluates to no value", what, src)
			}
			for _, d := range diags {
				if d.Summary == "" {
					r.Failf("", "%s of %q: diagnostic without summary", what, src)
				}
			}
		}
	}

	f, diags := hclsyntax.ParseConfig(src, "f", start)
	r.Op(1)
	checkDiags("config", diags)
	if f == nil || f.Body == nil {
		r.Failf("", "parsing %q as config gives no body", src)
	} else {
		var visit func(body hcl.Body, depth int)
		visit = func(body hcl.Body, depth int) {
			for _, s := range totalSchemas {
				body.Content(s)
				content, remain, _ := body.PartialContent(s)
				r.Op(2)
				if content == nil || remain == nil {
					r.Failf("", "partial content of %q is nil", src)
					continue
				}
				if depth < 12 {
					for _, b := range content.Blocks {
						if b.Body == nil {
							r.Failf("", "block in %q has no body", src)
							continue
						}
						visit(b.Body, depth+1)
					}
				}
				remain.Content(&hcl.BodySchema{})
			}
			attrs, _ := body.JustAttributes()
			r.Op(1)
			for name, a := range attrs {
				if a == nil || a.Expr == nil {
					r.Failf("", "attribute %q of %q has no expression", name, src)
					continue
				}
				checkExpr("attribute "+name, a.Expr)
			}
			body.MissingItemRange()
		}
		visit(f.Body, 0)
		if string(f.Bytes) != orig {
			r.Failf("", "file of %q holds bytes %q", orig, f.Bytes)
		}
	}

	e, diags := hclsyntax.ParseExpression(src, "f", start)
	r.Op(1)
	checkDiags("expression", diags)
	if e == nil {
		r.Failf("", "parsing %q as expression gives nil", src)
	} else {
		checkExpr("expression", e)
	}
	e, diags = hclsyntax.ParseTemplate(src, "f", start)
	r.Op(1)
	checkDiags("template", diags)
	if e == nil {
		r.Failf("", "parsing %q as template gives nil", src)
	} else {
		checkExpr("template", e)
	}
	trav, diags := hclsyntax.ParseTraversalAbs(src, "f", start)
	r.Op(1)
	checkDiags("traversal", diags)
	if !diags.HasErrors() {
		if len(trav) == 0 || trav.IsRelative() {
			r.Failf("", "parsing %q as traversal gives %#v without errors", src, trav)
		} else {
			trav.TraverseAbs(totalCtx)
			trav.TraverseAbs(&hcl.EvalContext{})
			trav.SourceRange()
		}
	}
	if string(src) != orig {
		r.Failf("", "parsing %q changed the source to %q", orig, src)
	}
	r.Trace()
}
