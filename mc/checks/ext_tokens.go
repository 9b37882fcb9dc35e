package checks

import (
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"verif/mc/fw"
	"verif/mc/ref"
)

// Every sequence of tokens up to a length is read by the parser and by a
// reference parser written from the grammar. Sequences are grown one token at
// a time from those that begin some expression; one that does not is tried
// once and not grown further.

type tokCase struct {
	Alpha int      `json:"alpha"`
	Pre   []string `json:"pre"`
	Max   int      `json:"max"`
}

type tokAlpha struct {
	toks   string
	pre    string
	quick  int
	deeper int
}

var tokAlphas = []tokAlpha{
	{`a for in if 1 "s" ( ) [ ] { } , . * ? : = => ... - ! + || NL`, ``, 5, 6},
	{`a 1 . * [ ] "s"`, `a`, 9, 11},
	{`a ( ) , ... [ ] NL`, ``, 8, 9},
	{`a ( ) , ... NL`, `a (`, 9, 11},
	{`a 1 , [ ] NL`, `[`, 8, 10},
	{`a = : , ( ) { } NL`, `{`, 8, 10},
	{`a "s" 1 = , } NL . [ ]`, `{ a =`, 7, 9},
	{`a - ! + * || && == < ? : ( )`, ``, 6, 8},
	{`a in , for : if ] [`, `[ for`, 10, 12},
	{`a : => ... if } ] , NL`, `{ for a in a :`, 13, 15},
	{`a : => ... if } ] , NL`, `[ for a in a :`, 12, 14},
	{`a : => ... if } for in ,`, `{ for a , a in`, 13, 14},
	{`a if ] } [ * . 1 , NL`, `[ for a in a : a`, 13, 14},
	{`a = } NL , * [ ] .`, `{ a = a [ * ]`, 11, 13},
	{`a = } , #c /*c*/ [ ]`, `{`, 8, 10},
	{`a "s${a}" "s" [ ] . = { } , CRLF //CR`, ``, 5, 6},
	{`a ( ) = } , NL + ?  :`, `{ a = a`, 9, 11},
}

func init() {
	fw.Extend("C03",
		fw.S("token sequences", "every sequence of up to 5 of 25 kinds of token, and longer ones of smaller sets about splats and indexing, calls, tuples, objects, operators and for expressions (to 13 tokens), as an expression, an attribute's value and an interpolation",
			func(t fw.Tier, yield func(tokCase)) {
				genGrammar(t, tokAlphas, func(s []string) (bool, int) {
					n, at, _ := ref.ParseTokens(s, false)
					return n != nil, at
				}, yield)
			}, runTokens))
}

func (a tokAlpha) list() []string { return splitTokens(a.toks) }

func (a tokAlpha) prefix() []string { return splitTokens(a.pre) }

func splitTokens(s string) []string {
	ts := strings.Fields(s)
	for i, t := range ts {
		switch t {
		case "NL":
			ts[i] = "\n"
		case "CRLF":
			ts[i] = "\r\n"
		case "//CR":
			ts[i] = "//c\r"
		}
	}
	return ts
}

func runTokens(r *fw.Rec, c tokCase) {
	walkTokens(c, tokAlphas[c.Alpha].list(), func(seq []string) (bool, bool) {
		n, at, judged := ref.ParseTokens(seq, false)
		return n != nil || at >= len(seq), !judged || tokSeq(r, seq, n)
	})
}

func tokSeq(r *fw.Rec, seq []string, n *ref.Node) bool {
	src := joinTokens(seq)
	e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.InitialPos)
	r.Op(1)
	want := ""
	if n != nil {
		want = n.String()
	}
	r.State(src)
	if (n != nil) == diags.HasErrors() {
		if n != nil {
			r.Failf("", "valid expression %q is rejected: %s", src, diagsStr(diags))
		} else {
			r.Failf("", "%q is not an expression but is accepted, as %s", src, dumpExpr(e))
		}
		return false
	}
	if n != nil {
		if got := dumpExpr(e); got != want {
			r.Failf("", "expression %q is read as %s, want %s", src, got, want)
			return false
		}
		tsrc := `"${` + src + `}"`
		te, diags := hclsyntax.ParseExpression([]byte(tsrc), "t.hcl", hcl.InitialPos)
		r.Op(1)
		if diags.HasErrors() {
			r.Failf("", "valid interpolation %q is rejected: %s", tsrc, diagsStr(diags))
			return false
		}
		if got := dumpExpr(te); got != "(wrap "+want+")" {
			r.Failf("", "interpolation %q is read as %s, want %s", tsrc, got, want)
			return false
		}
	}

	// as the value of an attribute, newlines outside of brackets end it
	m, _, judged := ref.ParseTokens(seq, true)
	newlines := false
	for _, t := range seq {
		newlines = newlines || t == "\n" || t == "\r\n" || t[0] == '#' || strings.HasPrefix(t, "//")
	}
	if !judged || m == nil && newlines {
		return true
	}
	asrc := "v = " + src + "\n"
	f, diags := hclsyntax.ParseConfig([]byte(asrc), "t.hcl", hcl.InitialPos)
	r.Op(1)
	if (m != nil) == diags.HasErrors() {
		if m != nil {
			r.Failf("", "valid attribute %q is rejected: %s", asrc, diagsStr(diags))
		} else {
			r.Failf("", "attribute %q is accepted although its value is not an expression", asrc)
		}
		return false
	}
	if m != nil {
		attr := f.Body.(*hclsyntax.Body).Attributes["v"]
		if attr == nil {
			r.Failf("", "attribute %q is missing from its body", asrc)
			return false
		}
		if got := dumpExpr(attr.Expr); got != m.String() {
			r.Failf("", "attribute %q is read as %s, want %s", asrc, got, m.String())
			return false
		}
	}
	r.Trace()
	return true
}
