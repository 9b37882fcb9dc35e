package checks

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"verif/mc/fw"
	"verif/mc/ref"
)

// form is a way of building an expression from n operands.
type form struct {
	n  int
	mk func(x []*ref.Node) *ref.Node
}

var binOps = []string{"||", "&&", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%"}

func binForm(op string) form {
	return form{2, func(x []*ref.Node) *ref.Node { return ref.Bin(op, x[0], x[1]) }}
}

func unForm(op string) form {
	return form{1, func(x []*ref.Node) *ref.Node { return ref.Un(op, x[0]) }}
}

var condForm = form{3, func(x []*ref.Node) *ref.Node { return ref.Cond(x[0], x[1], x[2]) }}

var suffixForms = []form{
	{1, func(x []*ref.Node) *ref.Node { return ref.Attr(x[0], "p") }},
	{1, func(x []*ref.Node) *ref.Node { return ref.Idx(x[0], ref.Num("0")) }},
	{1, func(x []*ref.Node) *ref.Node { return ref.Idx(x[0], ref.Str("k")) }},
	{2, func(x []*ref.Node) *ref.Node { return ref.Idx(x[0], x[1]) }},
	{1, func(x []*ref.Node) *ref.Node { return ref.LIdx(x[0], "1") }},
	{1, func(x []*ref.Node) *ref.Node { return ref.ASplat(x[0], ref.Item()) }},
	{1, func(x []*ref.Node) *ref.Node { return ref.ASplat(x[0], ref.LIdx(ref.Attr(ref.Item(), "q"), "2")) }},
	{1, func(x []*ref.Node) *ref.Node { return ref.FSplat(x[0], ref.Item()) }},
	{1, func(x []*ref.Node) *ref.Node {
		return ref.FSplat(x[0], ref.Idx(ref.Attr(ref.Item(), "q"), ref.Num("3")))
	}},
	{2, func(x []*ref.Node) *ref.Node { return ref.FSplat(x[0], ref.Idx(ref.Item(), x[1])) }},
	{1, func(x []*ref.Node) *ref.Node {
		return ref.FSplat(x[0], ref.FSplat(ref.Attr(ref.Item(), "q"), ref.Attr(ref.Item(), "r")))
	}},
}

var groupForms = []form{
	{1, func(x []*ref.Node) *ref.Node { return ref.Paren(x[0]) }},
	{0, func(x []*ref.Node) *ref.Node { return ref.Tuple() }},
	{1, func(x []*ref.Node) *ref.Node { return ref.Tuple(x[0]) }},
	{2, func(x []*ref.Node) *ref.Node { n := ref.Tuple(x[0], x[1]); n.B = true; return n }},
	{0, func(x []*ref.Node) *ref.Node { return ref.Obj() }},
	{1, func(x []*ref.Node) *ref.Node { return ref.Obj(ref.Key("k"), x[0]) }},
	{2, func(x []*ref.Node) *ref.Node {
		n := ref.Obj(ref.Paren(x[0]), x[1])
		n.N[0] = ":"
		return n
	}},
	{2, func(x []*ref.Node) *ref.Node {
		n := ref.Obj(ref.Str("s t"), x[0], ref.Key("u"), x[1])
		n.B = true
		return n
	}},
	{2, func(x []*ref.Node) *ref.Node { return ref.ForT("", "v", x[0], x[1], nil) }},
	{3, func(x []*ref.Node) *ref.Node { return ref.ForT("i", "v", x[0], x[1], x[2]) }},
	{3, func(x []*ref.Node) *ref.Node { return ref.ForO("", "v", x[0], x[1], x[2], false, nil) }},
	{3, func(x []*ref.Node) *ref.Node { return ref.ForO("k", "v", x[0], x[1], x[2], true, ref.Var("z")) }},
	{0, func(x []*ref.Node) *ref.Node { return ref.Call("f") }},
	{1, func(x []*ref.Node) *ref.Node { return ref.Call("f", x[0]) }},
	{2, func(x []*ref.Node) *ref.Node { return ref.CallX("f", x[0], x[1]) }},
	{1, func(x []*ref.Node) *ref.Node { return ref.Tmpl(ref.Interp(x[0])) }},
	{2, func(x []*ref.Node) *ref.Node { return ref.Tmpl(ref.Lit("a"), ref.Interp(x[0]), ref.Interp(x[1])) }},
	{2, func(x []*ref.Node) *ref.Node {
		return ref.Tmpl(ref.If(x[0], ref.Body(ref.Interp(x[1])), ref.Body(ref.Lit("e"))))
	}},
}

// eachTree yields every tree with exactly n internal nodes. Leaves are numbered
// from left to right by leaf.
func eachTree(forms []form, n int, leaf func(i int) *ref.Node, yield func(*ref.Node)) {
	var build func(n, leaves int, k func(t *ref.Node, leaves int))
	var fill func(f form, x []*ref.Node, n, leaves int, k func(x []*ref.Node, leaves int))
	fill = func(f form, x []*ref.Node, n, leaves int, k func([]*ref.Node, int)) {
		if len(x) == f.n {
			if n == 0 {
				k(x, leaves)
			}
			return
		}
		lo := 0
		if len(x) == f.n-1 {
			lo = n
		}
		for m := lo; m <= n; m++ {
			build(m, leaves, func(t *ref.Node, l int) {
				fill(f, append(x[:len(x):len(x)], t), n-m, l, k)
			})
		}
	}
	build = func(n, leaves int, k func(*ref.Node, int)) {
		if n == 0 {
			k(leaf(leaves), leaves+1)
			return
		}
		for _, f := range forms {
			fill(f, nil, n-1, leaves, func(x []*ref.Node, l int) { k(f.mk(x), l) })
		}
	}
	build(n, 0, func(t *ref.Node, _ int) { yield(t) })
}

func varLeaf(i int) *ref.Node { return ref.Var(string(rune('a' + i))) }

var mixedLeaves = []*ref.Node{ref.Var("a"), ref.Num("1"), ref.Str("x"), ref.Bool(true), ref.Null(), ref.Num("2.5"), ref.Var("b-c")}

type treeCase struct {
	T *ref.Node
}

func (c treeCase) String() string { return c.T.Print(ref.Spaced, false) }

func init() {
	var ops []form
	for _, op := range binOps {
		ops = append(ops, binForm(op))
	}
	ops = append(ops, unForm("-"), unForm("!"), condForm)
	reps := []form{binForm("||"), binForm("&&"), binForm("=="), binForm("<"), binForm("-"), binForm("/"), unForm("-"), condForm}
	repsSuffix := append(append([]form{}, reps...), suffixForms[0], suffixForms[3], suffixForms[6], suffixForms[8])
	every := append(append(append([]form{}, ops...), suffixForms...), groupForms...)
	everyReps := append(append([]form{}, repsSuffix...), groupForms...)
	fw.Register(&fw.Check{
		ID:          "C03",
		Assumptions: []string{"structure is read from the exported syntax tree types", "the layout of a full splat's own brackets is not varied over lines"},
		Suites: []fw.Suite{
			fw.S("operators", "all trees of up to 3 nodes over all 15 operators and the conditional, in every layout, alone and as an attribute",
				func(t fw.Tier, yield func(treeCase)) {
					for n := 0; n <= fw.Pick(t, 3, 4); n++ {
						eachTree(ops, n, varLeaf, func(x *ref.Node) { yield(treeCase{x}) })
					}
				}, runTree),
			fw.S("precedence", "all trees of 4 nodes (thorough 5) over one operator per precedence level, the conditional, unary minus and suffixes",
				func(t fw.Tier, yield func(treeCase)) {
					if t == fw.Quick {
						eachTree(reps, 4, varLeaf, func(x *ref.Node) { yield(treeCase{x}) })
						eachTree(repsSuffix, 3, varLeaf, func(x *ref.Node) { yield(treeCase{x}) })
						return
					}
					eachTree(repsSuffix, 4, varLeaf, func(x *ref.Node) { yield(treeCase{x}) })
					eachTree(reps, 5, varLeaf, func(x *ref.Node) { yield(treeCase{x}) })
				}, runTree),
			fw.S("constructs", "all trees of up to 2 nodes over every operator, suffix, constructor, for, call and template form, with each kind of leaf, and of 3 nodes over representatives (thorough)",
				func(t fw.Tier, yield func(treeCase)) {
					for s := range mixedLeaves {
						leaf := func(i int) *ref.Node { return mixedLeaves[(i+s)%len(mixedLeaves)] }
						for n := 0; n <= 2; n++ {
							eachTree(every, n, leaf, func(x *ref.Node) { yield(treeCase{x}) })
						}
					}
					if t == fw.Thorough {
						eachTree(everyReps, 3, varLeaf, func(x *ref.Node) { yield(treeCase{x}) })
					}
				}, runTree),
			fw.S("suffixes", "all chains of up to 4 suffixes (thorough 5) on each kind of term",
				func(t fw.Tier, yield func(treeCase)) {
					for n := 1; n <= fw.Pick(t, 4, 5); n++ {
						eachTree(suffixForms[:9], n, varLeaf, func(x *ref.Node) {
							yield(treeCase{x})
						})
					}
				}, runTree),
			fw.S("newlines", "every tree of up to 2 nodes as an attribute with a newline inserted at each place outside brackets",
				func(t fw.Tier, yield func(treeCase)) {
					for n := 1; n <= fw.Pick(t, 2, 3); n++ {
						forms := every
						if n == 3 {
							forms = repsSuffix
						}
						eachTree(forms, n, varLeaf, func(x *ref.Node) { yield(treeCase{x}) })
					}
				}, runNewlines),
		},
	})
}

func parseAttr(src string) (hcl.Expression, hcl.Diagnostics) {
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.InitialPos)
	if diags.HasErrors() {
		return nil, diags
	}
	attrs := f.Body.(*hclsyntax.Body).Attributes
	a := attrs["v"]
	if a == nil {
		return nil, hcl.Diagnostics{{Severity: hcl.DiagError, Summary: "no attribute v"}}
	}
	return a.Expr, nil
}

func runTree(r *fw.Rec, c treeCase) {
	want := c.T.String()
	r.State(want)
	seen := map[string]bool{}
	for l := ref.Spaced; l < ref.NumLayouts; l++ {
		src := c.T.Print(l, true)
		if !seen[src] {
			seen[src] = true
			e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.InitialPos)
			r.Op(1)
			if diags.HasErrors() {
				r.Failf("", "valid expression %q is rejected: %s", src, diagsStr(diags))
				return
			}
			if got := dumpExpr(e); got != want {
				r.Failf("", "expression %q is read as %s, want %s", src, got, want)
				return
			}
		}
		src = "v = " + c.T.Print(l, false) + "\nw = 1\n"
		if l == ref.Comments {
			src = "v = " + c.T.Print(l, false) + " // x\nw = 1\n"
		}
		e, diags := parseAttr(src)
		r.Op(1)
		if diags.HasErrors() {
			r.Failf("", "valid attribute %q is rejected: %s", src, diagsStr(diags))
			return
		}
		if got := dumpExpr(e); got != want {
			r.Failf("", "attribute %q is read as %s, want %s", src, got, want)
			return
		}
	}
	r.Trace()
}

func runNewlines(r *fw.Rec, c treeCase) {
	toks, nl, glued := c.T.PrintTokens()
	r.State(c.T.String())
	for i := 1; i < len(toks); i++ {
		if glued[i] || nl[i] || toks[i] == "\n" || toks[i-1] == "\n" {
			continue
		}
		// inside an object constructor a newline between items is a separator,
		// so only places outside of all brackets are judged
		if depthAt(toks, i) != 0 {
			continue
		}
		var b strings.Builder
		b.WriteString("v = ")
		for j, t := range toks {
			switch {
			case j == i:
				b.WriteString("\n")
			case j > 0 && !glued[j]:
				b.WriteString(" ")
			}
			b.WriteString(t)
		}
		b.WriteString("\n")
		src := b.String()
		_, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.InitialPos)
		r.Op(1)
		if !diags.HasErrors() {
			r.Failf("", "attribute continued after a newline is accepted: %q", src)
			return
		}
	}
	r.Trace()
}

func depthAt(toks []string, i int) int {
	d := 0
	for _, t := range toks[:i] {
		switch {
		case t == "(" || t == "[" || t == "{" || strings.HasPrefix(t, "${") || strings.HasPrefix(t, "%{"):
			d++
		case t == ")" || t == "]" || t == "}" || t == "~}":
			d--
		}
	}
	return d
}

var _ = fmt.Sprint
