package checks

import (
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"verif/mc/fw"
)

// Brackets of every kind are nested in each other, and a line break is put
// into each gap between tokens in turn. Whether it may stand there depends only
// on the innermost bracket around the gap.

// nestKinds are the constructs. The holes and gaps are X: another construct,
// I: a gap in which newlines don't count, B: a gap of an object in which they
// are not allowed, P: a gap that is in whatever is around the construct, H: the
// end of a heredoc, which must be followed by a newline.
var nestKinds = [][]string{
	{"(", "I", "X", "I", ")"},
	{"[", "I", "X", "I", ",", "I", "b", "I", "]"},
	{"{", "I", "k", "B", "=", "B", "X", "I", "}"},
	{"{", "I", "(", "I", "X", "I", ")", "B", ":", "B", "1", "I", "}"},
	{"f", "P", "(", "I", "X", "I", ")"},
	{"a", "P", "[", "I", "X", "I", "]"},
	{"[", "I", "for", "I", "v", "I", "in", "I", "X", "I", ":", "I", "v", "I", "]"},
	{"{", "I", "for", "I", "v", "I", "in", "I", "b", "I", ":", "I", "v", "I", "=>", "I", "X", "I", "if", "I", "c", "I", "}"},
	{`"s${`, "I", "X", "I", `}"`},
	{`"${`, "I", "X", "I", `}"`},
	{`"%{`, "I", "if", "I", "X", "I", `}t%{`, "I", "else", "I", `}u%{`, "I", "endif", "I", `}"`},
	{`"%{`, "I", "for", "I", "v", "I", "in", "I", "X", "I", `}t%{`, "I", "endfor", "I", `}"`},
	{"<<E\ns${", "I", "X", "I", "}\nE", "H"},
	{"X", "P", "+", "P", "b"},
	{"a", "P", "*", "P", "X"},
	{"c", "P", "?", "P", "X", "P", ":", "P", "b"},
	{"-", "P", "X"},
	{"X", "P", ".", "P", "p"},
}

type nestCase struct {
	Kinds []int `json:"kinds"`
}

type nestElem struct {
	text string
	gap  byte // i: allowed, b: not allowed, r: at the root; 0 for a token
}

func (c nestCase) elems() []nestElem {
	var ret []nestElem
	var add func(kinds []int, mode byte)
	add = func(kinds []int, mode byte) {
		if len(kinds) == 0 {
			ret = append(ret, nestElem{text: "a"})
			return
		}
		k := nestKinds[kinds[0]]
		inner := byte('i')
		switch {
		case kinds[0] == 2:
			inner = 'b'
		case k[0] == "X" || k[1] == "P" && k[len(k)-1] != "]" && k[len(k)-1] != ")":
			inner = mode
		}
		for _, s := range k {
			switch s {
			case "X":
				add(kinds[1:], inner)
			case "I":
				ret = append(ret, nestElem{gap: 'i'})
			case "B":
				ret = append(ret, nestElem{gap: 'b'})
			case "P":
				ret = append(ret, nestElem{gap: mode})
			case "H":
				ret = append(ret, nestElem{text: "H"})
			default:
				ret = append(ret, nestElem{text: s})
			}
		}
	}
	add(c.Kinds, 'r')
	return ret
}

// print writes the expression with the line break in each gap that at selects,
// and says whether all newlines are in gaps that allow them.
func nestPrint(es []nestElem, brk string, root bool, at func(i int) bool) (string, bool) {
	var b strings.Builder
	ok, end := true, false
	for i, e := range es {
		switch {
		case e.gap == 0 && e.text == "H":
			end = true
		case e.gap == 0:
			b.WriteString(e.text)
		default:
			good := e.gap == 'i' || e.gap == 'r' && root
			if end {
				b.WriteString("\n")
				ok = ok && good
				end = false
			}
			b.WriteString(" ")
			if at(i) {
				b.WriteString(brk)
				if strings.HasSuffix(brk, "\n") {
					ok = ok && good
				}
			}
		}
	}
	if end && root {
		b.WriteString("\n")
	}
	return b.String(), ok
}

func init() {
	fw.Extend("C03",
		fw.S("nested brackets", "all nestings of up to 3 (thorough 4) of 18 constructs that are or are not brackets, among them templates, directives and heredocs, with each of 4 line breaks or comments in each gap and in all gaps that allow it, as an expression and as an attribute in a body and in a block",
			func(t fw.Tier, yield func(nestCase)) {
				var rec func(k []int)
				rec = func(k []int) {
					yield(nestCase{append([]int{}, k...)})
					if len(k) == fw.Pick(t, 3, 4) {
						return
					}
					for i := range nestKinds {
						rec(append(k, i))
					}
				}
				rec(nil)
			}, runNest))
}

func runNest(r *fw.Rec, c nestCase) {
	es := c.elems()
	none := func(int) bool { return false }
	plain, ok := nestPrint(es, "", true, none)
	if !ok {
		// a heredoc stands where its newline is not allowed
		if _, diags := hclsyntax.ParseExpression([]byte(plain), "t.hcl", hcl.InitialPos); !diags.HasErrors() {
			r.Failf("", "expression %q is accepted although a newline stands where it must not", plain)
		}
		r.Op(1)
		return
	}
	e, diags := hclsyntax.ParseExpression([]byte(plain), "t.hcl", hcl.InitialPos)
	r.Op(1)
	if diags.HasErrors() {
		r.Failf("", "valid expression %q is rejected: %s", plain, diagsStr(diags))
		return
	}
	want := dumpExpr(e)
	r.State(want)
	for _, brk := range []string{"\n", "#c\n", "//c\r\n", "/*c*/"} {
		for i := -1; i < len(es); i++ {
			if i >= 0 && es[i].gap == 0 {
				continue
			}
			for _, root := range []bool{true, false} {
				src, ok := nestPrint(es, brk, root, func(j int) bool {
					return j == i || i < 0 && (es[j].gap == 'i' || root && es[j].gap == 'r')
				})
				if !nestOne(r, src, root, ok, want) {
					return
				}
			}
		}
	}
	r.Trace()
}

func nestOne(r *fw.Rec, src string, root, ok bool, want string) bool {
	if root {
		e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.InitialPos)
		r.Op(1)
		return nestJudge(r, src, e, diags, ok, want)
	}
	for _, block := range []bool{false, true} {
		text := "v = " + src + "\nw = 1\n"
		if block {
			text = "b {\n" + text + "}\nu = 2\n"
		}
		f, diags := hclsyntax.ParseConfig([]byte(text), "t.hcl", hcl.InitialPos)
		r.Op(1)
		if diags.HasErrors() || !ok {
			if !nestJudge(r, text, nil, diags, ok, want) {
				return false
			}
			continue
		}
		body := f.Body.(*hclsyntax.Body)
		if block {
			if len(body.Blocks) != 1 || len(body.Attributes) != 1 || body.Attributes["u"] == nil {
				r.Failf("", "configuration %q is not read as a block and an attribute", text)
				return false
			}
			body = body.Blocks[0].Body
		}
		if len(body.Attributes) != 2 || body.Attributes["v"] == nil || body.Attributes["w"] == nil {
			r.Failf("", "configuration %q is not read with its two attributes", text)
			return false
		}
		if !nestJudge(r, text, body.Attributes["v"].Expr, diags, ok, want) {
			return false
		}
	}
	return true
}

func nestJudge(r *fw.Rec, src string, e hcl.Expression, diags hcl.Diagnostics, ok bool, want string) bool {
	switch {
	case ok && diags.HasErrors():
		r.Failf("", "%q is rejected although its newlines are all inside brackets: %s", src, diagsStr(diags))
	case !ok && !diags.HasErrors():
		r.Failf("", "%q is accepted although a newline stands where it must not", src)
	case ok && dumpExpr(e) != want:
		r.Failf("", "%q is read as %s, want %s", src, dumpExpr(e), want)
	default:
		return true
	}
	return false
}
