package checks

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"verif/mc/fw"
	"verif/mc/ref"
)

// Sources for the checks of hclwrite.

// wItems are whole lines of a body.
var wItems = []string{
	"a = 1\n", "bb=x.y\n", "c   =   [1, x]\n", "d = {\n  k = x\n}\n", "e = [\n1,\n\n  2 # c\n]\n", "f = <<EOT\n  t ${x}\n\nEOT\n", "g = <<-EOT\n    t\n  ${x.y[0]}\n    EOT\n",
	"blk {\n}\n", "blk {}\n", "blk \"l\" m {\n  a = x\n}\n", "blk { a = x }\n", "blk {\n  sub \"q\\\"$${\" {\n    z = 1\n  }\n\n  # in\n}\n", "blk l {\n\n\n}\n", "blk { # after open\n  a = 1 // line\n  b = 2 /* i */\n  ccc = 3\n}\n", "blk { /* i */ }\n",
	"# lead\n", "// lead\n", "/* lead */\n", "/* two\nlines */\n", "\n", "h = x # line\n", "i = x /* in */ // line\n", "/* j */ j /* k */ = /* l */ (x) /* m */\n", "k = \"a${x}b\" \n", "\tl = x\r\n", "n = f(x...)\n", "é = x[\"é\"]\n", "\to\t=\t1\t# t\r\n",
}

// wEndings are written after the items.
var wEndings = []string{"", "z = x", "z = x # e", "# e", "/* e */", "zb {}", "zb {\n}", "z = x /* e */", "\n\n", "  "}

// wItemCases enumerates sources made of these items.
func wItemCases(max int, yield func(string)) {
	eachSeq(len(wItems), 0, max, func(idx []int) {
		src := ""
		for i, k := range idx {
			it := wItems[k]
			// give attributes of the same item different names
			for j := 0; j < i; j++ {
				if idx[j] == k {
					if p := strings.IndexAny(it, "= "); p > 0 && strings.Contains(it, "=") && !strings.HasPrefix(it, "blk") && !strings.HasPrefix(it, "/*") {
						it = "q" + strings.TrimLeft(it, "\t")
					}
				}
			}
			src += it
		}
		for _, e := range wEndings {
			if e != "" && len(idx) > 2 && e != "z = x" && e != "/* e */" {
				continue
			}
			yield(src + e)
		}
	})
}

// wExprs are all expressions nested two deep.
func wExprs(yield func(*ref.Node)) {
	hs := holes()
	x := ref.Attr(ref.Var("x"), "y")
	for _, f := range hs {
		yield(f(x))
		for _, g := range hs {
			yield(g(f(x)))
		}
	}
}

// wMore are expressions that the reference grammar does not print.
var wMore = []string{
	"x.0", "x.0.1", "x.0.1.2", "x.10.21.3.4", "x.10.y.2", "x.0.y", "x.0 .1", "x.0. 1", "x .0 . y", "x . 0", "x.0[1].0", "f(x.0...)", "f(1 ...)", "x[\"k\"].y", "x[0][1]", "x[-1]", "x[true]", "x[null]", "x[\"${y}\"]", "x[y.z]", "x[(0)]", "x [ 0 ]", "x . y", "(x)", "((x))", "(x).y", "(x.y)[0]", "x.*.y", "x[*].y", "x.*.y.0", "x[*][y]", "-x", "!x", "- -x", "x ? y : z", "(x ? y : z)", "f()", "f(x, y,)", "f(x...)", "f(\n  x,\n  y\n)",
	"[for k, v in x : v if k]", "{for k, v in x : k => v...}", "[for v in [x] : v]", "{for v in x : (v) => y if z}", "[\n  for v in x :\n  v\n]", "{ k = x, (y) = z, \"s\" = 1, \"${x}\" = 2, x.y = 3 }", "{\n  k : x\n  l = y,\n}", "{ for = x }", "{ x = x }", "{ (x) = x }", "{ for-x = y }",
	"\"\"", "\"a\"", "\"${x}\"", "\"a${x}b${y.z}c\"", "\"${~ x ~}\"", "\"%{ if x }a%{ else }${y}%{ endif }\"", "\"%{ for k, v in x }${v}%{ endfor }\"", "\"$${x}\"", "\"\\\"${\"${x}\"}\"", "\"${{a = x}}\"", "\"${ x }  ${ y }\"", "\"${[for v in x : v]}\"",
	"<<E\nE\n", "<<E\n${x}\nE\n", "<<E\n  a ${x} b\n%{ if y }\n  c\n%{ endif }\nE\n", "<<-E\n\t${x}\n    y\n  E\n", "[<<E\na\nE\n, x]", "<<E\n${\nx\n}\nE\n", "f(<<E\n${f(x)}\nE\n)", "{ k = <<E\na\nE\n}",
	"1", "1.5e3", "true", "null", "x-y", "x - y", "x -y", "x--y", "a-1", "a -1", "1-1", "1 -1", "x.y-z", "x > -1", "x ? -1 : - 1", "x==y&&!z||w", "x%y", "x ? y ? 1 : 2 : z", "[]", "{}", "[x,y,]", "[\n]", "{\n}", "[ # c\n x, # d\n # e\n]", "[x /* c */, /* d */ y]", "{ /* c */ k /* d */ = /* e */ x /* f */ }",
}

// wExprPlaces puts an expression in a source.
var wExprPlaces = []func(e string) string{
	func(e string) string { return "a = " + e + nlUnless(e) },
	func(e string) string { return "a = " + e + lineUnless(e, " # c\n") + "bbbbb = 1\n" },
	func(e string) string { return "b \"l\" {\n  a=" + e + nlUnless(e) + "}\n" },
	func(e string) string { return "b { a = " + e + "}" },
	func(e string) string {
		return "a = 1 # x\n/* y */ ccc = " + e + lineUnless(e, "// z\n") + "d=2 // zz\n"
	},
}

func nlUnless(e string) string { return lineUnless(e, "\n") }
func lineUnless(e, end string) string {
	if strings.HasSuffix(e, "\n") {
		return ""
	}
	return end
}

// lexToks gives the tokens of a source without positions.
func lexToks(src []byte) []string {
	toks, _ := hclsyntax.LexConfig(src, "t", hcl.InitialPos)
	var ret []string
	for _, t := range toks {
		if t.Type == hclsyntax.TokenEOF {
			continue
		}
		ret = append(ret, string(rune(t.Type))+string(t.Bytes))
	}
	return ret
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// wTokens is the alphabet of token strings for the writer.
var wTokens = []string{"a", "=", "{", "}", "\"", "1", "\n", "#c\n", "/*c*/", "[", "]", ".", "(", ")", ",", " ", "${"}

var wTokensWide = []string{"a", "=", "{", "}", "\"", "1", "\n", "#c\n", "/*c*/", "[", "]", ".", "(", ")", ",", " ", "${", "%{", "<<E\n", "E\n", "-", "!", "...", "?", ":", "in", "\t", "\r", "\xff", "é", "&", "|", "<", ">", "*", "~}", "\\", "'", ";", "`", "@", "x\u0301", "\ufeff", "==", "for", "if", "+", "/", "%"}

// wGaps inserts a piece of trivia in every gap between the tokens of an
// expression.
func wGaps(n *ref.Node, piece string, yield func(string)) {
	toks, nl, glued := n.PrintTokens()
	for g := 0; g <= len(toks); g++ {
		if g < len(toks) && glued[g] {
			continue
		}
		if strings.Contains(piece, "\n") && g < len(toks) && !nl[g] || strings.Contains(piece, "\n") && g == len(toks) {
			continue
		}
		var b strings.Builder
		for i, t := range toks {
			if i == g {
				b.WriteString(piece)
			} else if i > 0 && !glued[i] {
				b.WriteString(" ")
			}
			b.WriteString(t)
		}
		if g == len(toks) {
			b.WriteString(piece)
		}
		yield(b.String())
	}
}

// wSuites are suites that run a check on sources for the writer.
func wSuites(run func(r *fw.Rec, src string)) []fw.Suite {
	strRun := func(r *fw.Rec, c fw.StrCase) { run(r, string(c)) }
	return []fw.Suite{
		fw.S("items", fmt.Sprintf("every sequence of up to 3 (thorough 4) lines out of %d kinds of attributes, blocks, comments and blank lines, with %d endings", len(wItems), len(wEndings)),
			func(t fw.Tier, yield func(fw.StrCase)) {
				wItemCases(fw.Pick(t, 3, 4), func(s string) { yield(fw.StrCase(s)) })
			}, strRun),
		fw.S("expressions", fmt.Sprintf("every expression nested two deep out of 75 forms and %d others, and every operator between every pair of 15 operands, in %d places", len(wMore), len(wExprPlaces)),
			func(t fw.Tier, yield func(fw.StrCase)) {
				each := func(e string) {
					for _, p := range wExprPlaces {
						yield(fw.StrCase(p(e)))
					}
				}
				for _, e := range wMore {
					each(e)
					for _, f := range wMore {
						if strings.HasSuffix(e, "\n") || strings.HasSuffix(f, "\n") {
							continue
						}
						each("[" + e + ", " + f + "]")
						if t == fw.Thorough {
							each("{a=" + e + ", (" + f + ") = 1}")
							each("f(" + e + ")[" + f + "]")
							each("\"${" + e + "}-${" + f + "}\"")
							each("(" + e + ") ? " + f + " : x")
						}
					}
				}
				operands := []string{"y", "-y", "-1", "!y", "- -y", "-(y)", "-f(y)", "(-y)", "-y[0]", "[-y]", "\"s\"", "x.0", "-x.0[1]", "{}", "y.*.z"}
				for _, op := range []string{"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "?y:", "? y :"} {
					for _, p := range operands {
						for _, q := range operands {
							each(p + " " + op + " " + q)
							each("(" + p + ")" + op + q)
							if t == fw.Thorough {
								each("x ? " + p + op + q + " : " + q)
								each("f(x, " + p + " " + op + q + ")")
							}
						}
					}
				}
				wExprs(func(n *ref.Node) {
					each(n.Print(ref.Spaced, true))
					if t == fw.Thorough {
						for l := ref.Layout(1); l < 3; l++ {
							each(n.Print(l, true))
						}
					}
				})
			}, strRun),
		fw.S("gaps", "every expression of 75 forms (thorough nested two deep) with a comment, a line comment or spaces in every gap between its tokens",
			func(t fw.Tier, yield func(fw.StrCase)) {
				each := func(n *ref.Node) {
					for _, piece := range []string{" /* c */ ", "/*c*/", " # c\n", " // c\n\n", "   ", "\n", "\t"} {
						wGaps(n, piece, func(s string) {
							yield(fw.StrCase("a = " + s + "\n"))
							yield(fw.StrCase("b {\n  a = " + s + " # c\n c=1\n}\n"))
						})
					}
				}
				hs := holes()
				x := ref.Attr(ref.Var("x"), "y")
				for i, f := range hs {
					each(f(x))
					for j, g := range hs {
						if t == fw.Thorough || (i+j)%25 == 0 {
							each(g(f(x)))
						}
					}
				}
			}, strRun),
		fw.S("tokens", fmt.Sprintf("every string of up to 5 (thorough 6) tokens out of %d, and every string of up to 3 (thorough 4) out of %d", len(wTokens), len(wTokensWide)),
			func(t fw.Tier, yield func(fw.StrCase)) {
				eachString(wTokens, 0, fw.Pick(t, 4, 6), func(s string) { yield(fw.StrCase(s)) })
				eachString(wTokensWide, 0, fw.Pick(t, 3, 4), func(s string) { yield(fw.StrCase(s)) })
				eachString(wTokens, 0, fw.Pick(t, 3, 4), func(s string) {
					for _, p := range [][2]string{{"a = ", "\n"}, {"b {\n", "\n}\n"}, {"a = [", "]\nb=1 # c\n"}, {"a = \"${", "}\"\n"}, {"a = <<E\n${", "}\nE\n"}} {
						yield(fw.StrCase(p[0] + s + p[1]))
					}
				})
			}, strRun),
	}
}
