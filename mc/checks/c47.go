package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"verif/mc/fw"
	"verif/mc/ref"
)

// C47: sequences of tokens are grown from those that begin a body or a
// template, read by the parser and by a reference parser of the grammar.

var gramBodies = []tokAlpha{
	{`a b 1 "s" = { } [ ] , + NL #c`, ``, 6, 8},
	{`a = 1 { } NL`, ``, 8, 10},
	{`a b = 1 { } NL /*c*/`, `a {`, 9, 10},
	{`a "s" b { } = NL`, `a`, 8, 10},
	{`a = 1 } { NL #c`, `a { NL`, 10, 12},
	{`a = 1 } , NL #c`, `a { a =`, 11, 13},
	{`a b = 1 } NL`, `a = 1 NL`, 11, 12},
	{`a = 1 } NL b {`, `a { NL b {`, 11, 13},
	{`a = 1 } NL #c //c /*c*/`, `b = {`, 9, 11},
	{`1 , NL #c /*c*/ ] )`, `b = [`, 10, 12},
	{`a = ( ) [ ] { } NL`, `b =`, 8, 10},
	{`a = 1 { } CRLF //CR`, ``, 7, 9},
	{`a "s" "s${a}" b { } = CRLF`, `a`, 6, 8},
}

var gramTemplates = []tokAlpha{
	{`x ${ } %{ if else endif for endfor a in ,`, ``, 5, 6},
	{`x ${ } a + { =`, ``, 5, 7},
	{`x %{ } else endif`, `%{ if a }`, 11, 13},
	{`x %{ } endfor else endif`, `%{ for a in a }`, 12, 13},
	{`%{ } if for a in endif endfor else`, `%{ if a }`, 10, 11},
	{`%{ } if for a in endif endfor else`, `%{ for a in a }`, 12, 13},
	{`a , in } x`, `%{ for`, 8, 9},
}

func init() {
	fw.Register(&fw.Check{
		ID: "C47",
		Assumptions: []string{
			"expressions are read as for C03; where the grammar leaves the layout open (a full splat's brackets over several lines) nothing is judged",
			"tokens are separated by one space, so pieces that only touch are not among the sequences",
		},
		Suites: []fw.Suite{
			fw.S("bodies", "every sequence of up to 6 (thorough 8) of 13 kinds of token that is the beginning of a body, or is that with one token more, and of smaller sets to 11 (thorough 13) tokens about blocks, labels, single-line blocks, duplicate arguments, newlines and comments",
				func(t fw.Tier, yield func(tokCase)) {
					genGrammar(t, gramBodies, func(s []string) (bool, int) {
						_, ok, at, _ := ref.ParseBodyTokens(s)
						return ok, at
					}, yield)
				}, runGramBodies),
			fw.S("templates", "every sequence of up to 5 (thorough 6) of 12 kinds of token that is the beginning of a template, or is that with one token more, and of smaller sets to 12 (thorough 13) tokens about nested and unbalanced directives; stand-alone and quoted",
				func(t fw.Tier, yield func(tokCase)) {
					genGrammar(t, gramTemplates, func(s []string) (bool, int) {
						n, at, _ := ref.ParseTemplateTokens(s)
						return n != nil, at
					}, yield)
				}, runGramTemplates),
			fw.S("references", "every sequence of up to 8 (thorough 9) tokens out of names, dots, brackets, numbers, strings, stars and a sign, as a reference",
				func(t fw.Tier, yield func([]string)) {
					var grow func(s []string, n int)
					grow = func(s []string, n int) {
						yield(append([]string(nil), s...))
						if _, at := refTokens(s); n == 0 || at < len(s) {
							return
						}
						for _, tok := range []string{"a", ".", "[", "]", "1", `"s"`, "*", "-"} {
							grow(append(s[:len(s):len(s)], tok), n-1)
						}
					}
					grow(nil, fw.Pick(t, 8, 9))
				}, runGramRefs),
		},
	})
}

func genGrammar(t fw.Tier, alphas []tokAlpha, parse func([]string) (bool, int), yield func(tokCase)) {
	for i, a := range alphas {
		max := fw.Pick(t, a.quick, a.deeper)
		toks := a.list()
		pre := a.prefix()
		split := len(pre) + 2
		var grow func(pre []string)
		grow = func(pre []string) {
			if ok, at := parse(pre); len(pre) == split && (ok || at >= len(pre)) {
				yield(tokCase{i, append([]string(nil), pre...), max})
				return
			} else {
				yield(tokCase{i, append([]string(nil), pre...), len(pre)})
				if !ok && at < len(pre) {
					return
				}
			}
			for _, tok := range toks {
				grow(append(pre[:len(pre):len(pre)], tok))
			}
		}
		grow(pre)
	}
}

// walkTokens tries the case's sequence and all that grow from it. try tells
// whether the sequence begins something valid, and whether it was judged right.
func walkTokens(c tokCase, toks []string, try func(seq []string) (viable, right bool)) {
	seq := append(make([]string, 0, c.Max+1), c.Pre...)
	bad := 0
	var walk func()
	walk = func() {
		if bad > 2 {
			return
		}
		viable, right := try(seq)
		if !right {
			bad++
			return
		}
		if len(seq) >= c.Max || !viable {
			return
		}
		for _, t := range toks {
			seq = append(seq, t)
			walk()
			seq = seq[:len(seq)-1]
		}
	}
	walk()
}

func joinTokens(seq []string) string {
	var b strings.Builder
	for _, t := range seq {
		b.WriteString(t)
		if t[0] == '#' || strings.HasPrefix(t, "//") {
			b.WriteString("\n")
		}
		b.WriteString(" ")
	}
	return b.String()
}

func runGramBodies(r *fw.Rec, c tokCase) {
	walkTokens(c, gramBodies[c.Alpha].list(), func(seq []string) (bool, bool) {
		want, ok, at, judged := ref.ParseBodyTokens(seq)
		if !judged {
			return ok || at >= len(seq), true
		}
		return ok || at >= len(seq), gramBody(r, joinTokens(seq), want, ok)
	})
}

func gramBody(r *fw.Rec, src string, want []ref.Entry, ok bool) bool {
	r.State(src)
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.InitialPos)
	r.Op(1)
	if ok == diags.HasErrors() {
		if ok {
			r.Failf("", "valid configuration %q is rejected: %s", src, diagsStr(diags))
		} else {
			r.Failf("", "configuration %q is accepted although the grammar does not allow it", src)
		}
		return false
	}
	if ok {
		got, exp := dumpSynBody(f.Body.(*hclsyntax.Body)), dumpEntries(want)
		if got != exp {
			r.Failf("", "configuration %q is read as %s, want %s", src, got, exp)
			return false
		}
	}
	w, diags := hclwrite.ParseConfig([]byte(src), "t.hcl", hcl.InitialPos)
	r.Op(1)
	if ok == diags.HasErrors() {
		r.Failf("", "configuration %q for rewriting: errors %s, want valid=%v", src, diagsStr(diags), ok)
		return false
	}
	if ok {
		got, exp := dumpWriteBody(w.Body()), dumpNames(want)
		if got != exp {
			r.Failf("", "configuration %q for rewriting is read as %s, want %s", src, got, exp)
			return false
		}
	}
	r.Trace()
	return true
}

// dumpEntries has the attributes in order of their names, then the blocks.
func dumpEntries(es []ref.Entry) string {
	var attrs, blocks []string
	for _, e := range es {
		if e.Value != nil {
			attrs = append(attrs, e.Name+"="+e.Value.String())
			continue
		}
		blocks = append(blocks, fmt.Sprintf("%s%q{%s}", e.Name, e.Labels, dumpEntries(e.Body)))
	}
	sort.Strings(attrs)
	return strings.Join(append(attrs, blocks...), " ")
}

func dumpSynBody(b *hclsyntax.Body) string {
	var attrs, blocks []string
	for n, a := range b.Attributes {
		if a.Name != n {
			n += "/" + a.Name
		}
		attrs = append(attrs, n+"="+dumpExpr(a.Expr))
	}
	for _, bl := range b.Blocks {
		blocks = append(blocks, fmt.Sprintf("%s%q{%s}", bl.Type, bl.Labels, dumpSynBody(bl.Body)))
	}
	sort.Strings(attrs)
	return strings.Join(append(attrs, blocks...), " ")
}

func dumpNames(es []ref.Entry) string {
	var attrs, blocks []string
	for _, e := range es {
		if e.Value != nil {
			attrs = append(attrs, e.Name)
			continue
		}
		blocks = append(blocks, "{"+dumpNames(e.Body)+"}")
	}
	sort.Strings(attrs)
	return strings.Join(append(attrs, blocks...), " ")
}

func dumpWriteBody(b *hclwrite.Body) string {
	var attrs, blocks []string
	for n := range b.Attributes() {
		attrs = append(attrs, n)
	}
	for _, bl := range b.Blocks() {
		blocks = append(blocks, "{"+dumpWriteBody(bl.Body())+"}")
	}
	sort.Strings(attrs)
	return strings.Join(append(attrs, blocks...), " ")
}

func runGramTemplates(r *fw.Rec, c tokCase) {
	walkTokens(c, gramTemplates[c.Alpha].list(), func(seq []string) (bool, bool) {
		n, at, judged := ref.ParseTemplateTokens(seq)
		viable := n != nil || at >= len(seq)
		if !judged {
			return viable, true
		}
		return viable, gramTemplate(r, joinTemplate(seq), n)
	})
}

// joinTemplate separates the tokens inside of a sequence; outside they are
// literal.
func joinTemplate(seq []string) string {
	var b strings.Builder
	depth := 0
	for _, t := range seq {
		b.WriteString(t)
		switch {
		case t == "${" || t == "%{" || t == "{" && depth > 0:
			depth++
		case t == "}" && depth > 0:
			depth--
		}
		if depth > 0 {
			b.WriteString(" ")
		}
	}
	return b.String()
}

func gramTemplate(r *fw.Rec, src string, n *ref.Node) bool {
	r.State(src)
	e, diags := hclsyntax.ParseTemplate([]byte(src), "t.hcl", hcl.InitialPos)
	q, qdiags := hclsyntax.ParseExpression([]byte(`"`+src+`"`), "t.hcl", hcl.InitialPos)
	r.Op(2)
	for i, d := range []hcl.Diagnostics{diags, qdiags} {
		if (n != nil) == d.HasErrors() {
			if n != nil {
				r.Failf("", "valid template %q (quoted: %v) is rejected: %s", src, i == 1, diagsStr(d))
			} else {
				r.Failf("", "template %q (quoted: %v) is accepted although the grammar does not allow it", src, i == 1)
			}
			return false
		}
	}
	if n != nil {
		want := n.String()
		for i, e := range []hcl.Expression{e, q} {
			if got := dumpExpr(e); got != want {
				r.Failf("", "template %q (quoted: %v) is read as %s, want %s", src, i == 1, got, want)
				return false
			}
		}
	}
	r.Trace()
	return true
}

// refTokens reads a reference: a name followed by attributes and literal
// indexes. at is the first token that cannot be part of one.
func refTokens(s []string) (want string, at int) {
	i := 0
	next := func(ok ...string) string {
		if i < len(s) {
			for _, t := range ok {
				if s[i] == t {
					i++
					return t
				}
			}
		}
		return ""
	}
	if next("a") == "" {
		return "", i
	}
	want = "a"
	for i < len(s) {
		if next(".") != "" {
			if next("a") == "" {
				return "", i
			}
			want = "(attr " + want + " a)"
			continue
		}
		if next("[") == "" {
			return "", i
		}
		k := next("1", `"s"`)
		if k == "" || next("]") == "" {
			return "", i
		}
		if k == "1" {
			want = "(idx " + want + " (num 1))"
		} else {
			want = "(idx " + want + ` (str "s"))`
		}
	}
	return want, i
}

func runGramRefs(r *fw.Rec, seq []string) {
	want, _ := refTokens(seq)
	src := strings.Join(seq, " ")
	r.State(src)
	tr, diags := hclsyntax.ParseTraversalAbs([]byte(src), "t.hcl", hcl.InitialPos)
	r.Op(1)
	if (want != "") == diags.HasErrors() {
		r.Failf("", "reference %q: errors %s, want valid=%v", src, diagsStr(diags), want != "")
		return
	}
	if want != "" {
		if got := dumpTraversal("", tr); got != want {
			r.Failf("", "reference %q is read as %s, want %s", src, got, want)
			return
		}
	}
	r.Trace()
}
