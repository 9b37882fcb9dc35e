package checks

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"verif/mc/fw"
)

// rNode is a part of a source whose place is known as it is written.
type rNode struct {
	K string   // kind
	S []string `json:",omitempty"` // texts: name, operator, steps, labels
	C []*rNode `json:",omitempty"` // parts

	// The range starts from lo to loMax and ends from hiMin to hi: parentheses
	// may belong to it or not, as may what an operator at the end works on.
	lo, loMax, hiMin, hi int
	at                   [][2]int // places of texts, by kind
}

// rWriter writes nodes with some text between the tokens.
type rWriter struct {
	b     strings.Builder
	style int
	lines []bool // whether line breaks are ignored here
	first bool   // nothing is to be written before the next token
}

const rStyles = 4

func rWord(c byte) bool {
	return c == '_' || c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func (w *rWriter) tok(s string) [2]int {
	last := byte(0)
	if n := w.b.Len(); n > 0 {
		last = w.b.String()[n-1]
	}
	switch {
	case w.first:
	case w.style == 0:
		w.b.WriteString(" ")
	case w.style == 1:
		if rWord(last) && rWord(s[0]) || last == '%' && s[0] == '{' || last == '!' && s[0] == '=' {
			w.b.WriteString(" ")
		}
	case w.style == 2:
		w.b.WriteString(" /* é */ ")
	case w.style == 3 && len(w.lines) > 0 && w.lines[len(w.lines)-1]:
		w.b.WriteString("\n  ")
	default:
		w.b.WriteString(" ")
	}
	w.first = false
	from := w.b.Len()
	w.b.WriteString(s)
	return [2]int{from, w.b.Len()}
}

func (w *rWriter) raw(s string) [2]int {
	from := w.b.Len()
	w.b.WriteString(s)
	return [2]int{from, w.b.Len()}
}

func (w *rWriter) in(lines bool) { w.lines = append(w.lines, lines) }
func (w *rWriter) out()          { w.lines = w.lines[:len(w.lines)-1] }

func join2(a, b [2]int) [2]int { return [2]int{a[0], b[1]} }

// steps writes steps of a traversal: names, indexes and numbers after a dot.
func (w *rWriter) steps(n *rNode, steps []string) {
	for _, s := range steps {
		switch {
		case strings.HasPrefix(s, "["):
			o := w.tok("[")
			w.in(true)
			w.tok(s[1 : len(s)-1])
			c := w.tok("]")
			w.out()
			n.at = append(n.at, join2(o, c))
		default:
			o := w.tok(".")
			n.at = append(n.at, join2(o, w.tok(s[1:])))
		}
	}
}

func (n *rNode) exact(r [2]int) { n.lo, n.loMax, n.hiMin, n.hi = r[0], r[0], r[1], r[1] }

// parts writes the parts of a template, which are texts or written in ${ }.
func (w *rWriter) parts(cs []*rNode) {
	for _, c := range cs {
		switch c.K {
		case "text":
			c.exact(w.raw(c.S[0]))
		case "tif", "tfor":
			w.node(c)
		default:
			w.raw("${")
			w.in(true)
			w.first = w.style == 1
			w.node(c)
			w.out()
			w.first = w.style == 1
			w.tok("}")
		}
	}
}

// directive writes a directive of a template, with a node in it.
func (w *rWriter) directive(text string, n *rNode) [2]int {
	from := w.b.Len()
	w.raw("%{")
	w.in(true)
	w.first = w.style == 1
	for _, t := range strings.Fields(text) {
		w.tok(t)
	}
	if n != nil {
		w.node(n)
	}
	w.out()
	w.first = w.style == 1
	c := w.tok("}")
	return [2]int{from, c[1]}
}

func (w *rWriter) node(n *rNode) {
	n.at = nil
	switch n.K {
	case "lit":
		n.exact(w.tok(n.S[0]))
	case "trav":
		r := w.tok(n.S[0])
		n.at = append(n.at, r)
		w.steps(n, n.S[1:])
		n.exact(join2(r, n.at[len(n.at)-1]))
	case "rel":
		w.node(n.C[0])
		w.steps(n, n.S)
		n.lo, n.loMax = n.C[0].lo, n.at[0][0]
		n.hiMin, n.hi = n.at[len(n.at)-1][1], n.at[len(n.at)-1][1]
	case "index":
		w.node(n.C[0])
		o := w.tok("[")
		w.in(true)
		w.node(n.C[1])
		c := w.tok("]")
		w.out()
		n.at = append(n.at, o)
		n.lo, n.loMax, n.hiMin, n.hi = n.C[0].lo, o[0], c[1], c[1]
	case "splat": // S[0] is the operator
		w.node(n.C[0])
		var o, c [2]int
		if n.S[0] == "[*]" {
			o = w.tok("[")
			w.tok("*")
			c = w.tok("]")
		} else {
			o = w.tok(".")
			c = w.tok("*")
		}
		n.at = append(n.at, join2(o, c))
		w.steps(n, n.S[1:])
		end := n.at[len(n.at)-1][1]
		n.lo, n.loMax, n.hiMin, n.hi = n.C[0].lo, o[0], end, end
	case "call":
		name := w.tok(n.S[0])
		o := w.tok("(")
		w.in(true)
		for i, c := range n.C {
			w.node(c)
			if i < len(n.C)-1 {
				w.tok(",")
			}
		}
		if len(n.S) > 1 { // "," or "..."
			w.tok(n.S[1])
		}
		c := w.tok(")")
		w.out()
		n.at = append(n.at, name, o, c)
		n.exact(join2(name, c))
	case "cond":
		w.node(n.C[0])
		w.tok("?")
		w.node(n.C[1])
		w.tok(":")
		w.node(n.C[2])
		n.lo, n.loMax, n.hiMin, n.hi = n.C[0].lo, n.C[0].loMax, n.C[2].hiMin, n.C[2].hi
	case "bin":
		w.node(n.C[0])
		w.tok(n.S[0])
		w.node(n.C[1])
		n.lo, n.loMax, n.hiMin, n.hi = n.C[0].lo, n.C[0].loMax, n.C[1].hiMin, n.C[1].hi
	case "un":
		o := w.tok(n.S[0])
		w.node(n.C[0])
		n.at = append(n.at, o)
		n.lo, n.loMax, n.hiMin, n.hi = o[0], o[0], n.C[0].hiMin, n.C[0].hi
	case "paren":
		o := w.tok("(")
		w.in(true)
		w.node(n.C[0])
		c := w.tok(")")
		w.out()
		in := n.C[0]
		in.lo, in.hi = o[0], c[1]
		n.lo, n.loMax, n.hiMin, n.hi = in.lo, in.loMax, in.hiMin, in.hi
	case "tuple":
		o := w.tok("[")
		w.in(true)
		for i, c := range n.C {
			w.node(c)
			if i < len(n.C)-1 || len(n.S) > 0 {
				w.tok(",")
			}
		}
		c := w.tok("]")
		w.out()
		n.at = append(n.at, o)
		n.exact(join2(o, c))
	case "object": // keys and values in turn
		o := w.tok("{")
		w.in(false)
		for i := 0; i < len(n.C); i += 2 {
			if len(n.S) > 1 { // items in lines of their own
				w.raw("\n")
			}
			w.node(n.C[i])
			w.tok(n.S[0])
			w.node(n.C[i+1])
			if i < len(n.C)-2 && len(n.S) < 2 {
				w.tok(",")
			}
		}
		if len(n.S) > 1 {
			w.raw("\n")
		}
		c := w.tok("}")
		w.out()
		n.at = append(n.at, o)
		n.exact(join2(o, c))
	case "for": // S: brackets, variables, has a condition, groups; C: collection, [key], value, [condition]
		o := w.tok(n.S[0][:1])
		w.in(true)
		w.tok("for")
		for i, v := range strings.Split(n.S[1], ",") {
			if i > 0 {
				w.tok(",")
			}
			w.tok(v)
		}
		w.tok("in")
		w.node(n.C[0])
		w.tok(":")
		i := 1
		if n.S[0] == "{}" {
			w.node(n.C[1])
			w.tok("=>")
			i = 2
		}
		w.node(n.C[i])
		if len(n.S) > 2 {
			w.tok(n.S[2])
		}
		if i+1 < len(n.C) {
			w.tok("if")
			w.node(n.C[i+1])
		}
		c := w.tok(n.S[0][1:])
		w.out()
		n.at = append(n.at, o, c)
		n.exact(join2(o, c))
	case "tmpl", "wrap":
		o := w.tok(`"`)
		w.parts(n.C)
		n.exact(join2(o, w.raw(`"`)))
	case "tif": // C: condition, then, else
		o := w.directive("if", n.C[0])
		w.parts(n.C[1].C)
		if len(n.C) > 2 {
			w.directive("else", nil)
			w.parts(n.C[2].C)
		}
		n.exact(join2(o, w.directive("endif", nil)))
	case "tfor": // C: collection, content
		o := w.directive("for "+n.S[0]+" in", n.C[0])
		w.parts(n.C[1].C)
		c := w.directive("endfor", nil)
		n.at = append(n.at, o, c)
		n.exact(join2(o, c))
	case "attr":
		name := w.tok(n.S[0])
		eq := w.tok("=")
		w.node(n.C[0])
		n.at = append(n.at, name, eq)
		n.exact([2]int{name[0], n.C[0].hi})
	case "block", "line": // S: type, labels
		for _, s := range n.S {
			n.at = append(n.at, w.tok(s))
		}
		o := w.tok("{")
		for _, c := range n.C {
			if n.K == "block" {
				w.raw("\n")
			}
			w.node(c)
		}
		if n.K == "block" {
			w.raw("\n")
		}
		c := w.tok("}")
		n.at = append(n.at, o, c)
		n.exact(join2(n.at[0], c))
	default:
		panic(n.K)
	}
}

// rCheck compares the ranges in a tree with the places written.
type rCheck struct {
	r   *fw.Rec
	src string
	pos []hcl.Pos // of all offsets
	bad bool
}

func (k *rCheck) fail(n *rNode, format string, args ...interface{}) {
	k.bad = true
	k.r.Failf(n.K, "%q: %s at %d: %s", k.src, n.K, n.lo, fmt.Sprintf(format, args...))
}

// range_ tells whether a range is exactly of what was written at a place.
func (k *rCheck) exact(n *rNode, what string, got hcl.Range, want [2]int) {
	if got.Filename != "f" || got.Start != k.pos[want[0]] || got.End != k.pos[want[1]] {
		k.fail(n, "%s is at %s instead of %d-%d (%q)", what, fullRange(got), want[0], want[1], k.src[want[0]:want[1]])
	}
}

func (k *rCheck) span(n *rNode, got hcl.Range) {
	s, e := got.Start.Byte, got.End.Byte
	if s < n.lo || s > n.loMax || e < n.hiMin || e > n.hi {
		k.fail(n, "the range is %s instead of %d-%d (%q)", fullRange(got), n.lo, n.hi, k.src[n.lo:n.hi])
		return
	}
	k.exact(n, "the range", got, [2]int{s, e})
}

func (k *rCheck) steps(n *rNode, t hcl.Traversal, at [][2]int) {
	if len(t) != len(at) {
		k.fail(n, "%d steps instead of %d", len(t), len(at))
		return
	}
	for i, s := range t {
		k.exact(n, fmt.Sprint("step ", i), s.SourceRange(), at[i])
	}
	k.exact(n, "the traversal", t.SourceRange(), join2(at[0], at[len(at)-1]))
}

func (k *rCheck) all(n *rNode, want []*rNode, got ...hclsyntax.Expression) {
	if len(want) != len(got) {
		k.fail(n, "%d parts instead of %d", len(got), len(want))
		return
	}
	for i := range want {
		k.node(want[i], got[i])
	}
}

// parts compares the parts of a template, literals of which may be in pieces.
func (k *rCheck) parts(n *rNode, want []*rNode, got []hclsyntax.Expression) {
	if len(want) == 0 {
		return
	}
	for _, c := range want {
		if len(got) == 0 {
			k.fail(n, "parts are missing")
			return
		}
		e := got[0]
		got = got[1:]
		if c.K != "text" {
			k.node(c, e)
			continue
		}
		r := e.Range()
		for r.End.Byte < c.hi && len(got) > 0 && got[0].Range().Start.Byte == r.End.Byte {
			r.End = got[0].Range().End
			got = got[1:]
		}
		k.exact(c, "the text", r, [2]int{c.lo, c.hi})
	}
	if len(got) > 0 {
		k.fail(n, "there are more parts")
	}
}

func (k *rCheck) node(n *rNode, e hclsyntax.Expression) {
	k.r.Op(1)
	if e == nil {
		k.fail(n, "is missing")
		return
	}
	if n.K == "paren" {
		k.node(n.C[0], e)
		return
	}
	rng, start := e.Range(), e.StartRange()
	k.span(n, rng)
	if s, t := start.Start.Byte, start.End.Byte; s < n.lo || t < s || t > n.hi || start.Filename != "f" || start.Start != k.pos[s] || start.End != k.pos[t] {
		k.fail(n, "the start range is %s", fullRange(start))
	}
	wrong := func() { k.fail(n, "is a %T", e) }
	switch n.K {
	case "lit":
		if _, ok := e.(*hclsyntax.LiteralValueExpr); !ok {
			wrong()
		}
		k.exact(n, "the start range", start, [2]int{n.loMax, n.hiMin})
	case "trav":
		x, ok := e.(*hclsyntax.ScopeTraversalExpr)
		if !ok {
			wrong()
			return
		}
		k.steps(n, x.Traversal, n.at)
	case "rel":
		x, ok := e.(*hclsyntax.RelativeTraversalExpr)
		if !ok {
			wrong()
			return
		}
		k.steps(n, x.Traversal, n.at)
		k.node(n.C[0], x.Source)
	case "index":
		x, ok := e.(*hclsyntax.IndexExpr)
		if !ok {
			wrong()
			return
		}
		k.exact(n, "the bracket", x.OpenRange, n.at[0])
		k.all(n, n.C, x.Collection, x.Key)
	case "splat":
		x, ok := e.(*hclsyntax.SplatExpr)
		if !ok {
			wrong()
			return
		}
		k.exact(n, "the operator", x.MarkerRange, n.at[0])
		k.exact(n, "the start range", start, n.at[0])
		k.node(n.C[0], x.Source)
		if rt, ok := x.Each.(*hclsyntax.RelativeTraversalExpr); ok {
			k.steps(n, rt.Traversal, n.at[1:])
		} else if len(n.at) > 1 {
			k.fail(n, "applies a %T to the elements", x.Each)
		}
	case "call":
		x, ok := e.(*hclsyntax.FunctionCallExpr)
		if !ok {
			wrong()
			return
		}
		k.exact(n, "the name", x.NameRange, n.at[0])
		k.exact(n, "the opening parenthesis", x.OpenParenRange, n.at[1])
		k.exact(n, "the closing parenthesis", x.CloseParenRange, n.at[2])
		k.exact(n, "the start range", start, join2(n.at[0], n.at[1]))
		k.all(n, n.C, x.Args...)
	case "cond":
		x, ok := e.(*hclsyntax.ConditionalExpr)
		if !ok {
			wrong()
			return
		}
		k.all(n, n.C, x.Condition, x.TrueResult, x.FalseResult)
	case "bin":
		x, ok := e.(*hclsyntax.BinaryOpExpr)
		if !ok {
			wrong()
			return
		}
		k.all(n, n.C, x.LHS, x.RHS)
	case "un":
		x, ok := e.(*hclsyntax.UnaryOpExpr)
		if !ok {
			wrong()
			return
		}
		k.exact(n, "the operator", x.SymbolRange, n.at[0])
		k.exact(n, "the start range", start, n.at[0])
		k.node(n.C[0], x.Val)
	case "tuple":
		x, ok := e.(*hclsyntax.TupleConsExpr)
		if !ok {
			wrong()
			return
		}
		k.exact(n, "the bracket", x.OpenRange, n.at[0])
		k.exact(n, "the start range", start, n.at[0])
		k.all(n, n.C, x.Exprs...)
	case "object":
		x, ok := e.(*hclsyntax.ObjectConsExpr)
		if !ok {
			wrong()
			return
		}
		k.exact(n, "the brace", x.OpenRange, n.at[0])
		k.exact(n, "the start range", start, n.at[0])
		var parts []hclsyntax.Expression
		for _, it := range x.Items {
			key := it.KeyExpr
			if w, ok := key.(*hclsyntax.ObjectConsKeyExpr); ok {
				if w.Range() != w.Wrapped.Range() {
					k.fail(n, "a key is at %s and at %s", fullRange(w.Range()), fullRange(w.Wrapped.Range()))
				}
				key = w.Wrapped
			}
			parts = append(parts, key, it.ValueExpr)
		}
		k.all(n, n.C, parts...)
	case "for":
		x, ok := e.(*hclsyntax.ForExpr)
		if !ok {
			wrong()
			return
		}
		k.exact(n, "the opening bracket", x.OpenRange, n.at[0])
		k.exact(n, "the closing bracket", x.CloseRange, n.at[1])
		k.exact(n, "the start range", start, n.at[0])
		parts := []hclsyntax.Expression{x.CollExpr}
		if x.KeyExpr != nil {
			parts = append(parts, x.KeyExpr)
		}
		parts = append(parts, x.ValExpr)
		if x.CondExpr != nil {
			parts = append(parts, x.CondExpr)
		}
		k.all(n, n.C, parts...)
	case "tmpl":
		x, ok := e.(*hclsyntax.TemplateExpr)
		if !ok {
			wrong()
			return
		}
		k.parts(n, n.C, x.Parts)
	case "wrap":
		x, ok := e.(*hclsyntax.TemplateWrapExpr)
		if !ok {
			wrong()
			return
		}
		k.node(n.C[0], x.Wrapped)
	case "tif":
		x, ok := e.(*hclsyntax.ConditionalExpr)
		if !ok {
			wrong()
			return
		}
		k.node(n.C[0], x.Condition)
		k.body(n, n.C[1], x.TrueResult)
		if len(n.C) > 2 {
			k.body(n, n.C[2], x.FalseResult)
		}
	case "tfor":
		j, ok := e.(*hclsyntax.TemplateJoinExpr)
		if !ok {
			wrong()
			return
		}
		x, ok := j.Tuple.(*hclsyntax.ForExpr)
		if !ok {
			wrong()
			return
		}
		k.exact(n, "the directive", x.OpenRange, n.at[0])
		k.exact(n, "the end directive", x.CloseRange, n.at[1])
		k.node(n.C[0], x.CollExpr)
		k.body(n, n.C[1], x.ValExpr)
	}
}

// body compares what is between two directives.
func (k *rCheck) body(n, want *rNode, e hclsyntax.Expression) {
	x, ok := e.(*hclsyntax.TemplateExpr)
	if !ok {
		k.fail(n, "has a %T between directives", e)
		return
	}
	if len(want.C) > 0 {
		first, last := want.C[0], want.C[len(want.C)-1]
		if r := x.Range(); r.Start.Byte > first.loMax || r.End.Byte < last.hiMin || r.Start.Byte < n.lo || r.End.Byte > n.hi {
			k.fail(n, "what is between directives is at %s", fullRange(r))
		}
	}
	k.parts(n, want.C, x.Parts)
}

func (k *rCheck) items(n *rNode, items []*rNode, b *hclsyntax.Body, lo, hi int) {
	k.r.Op(1)
	at := map[int]*hclsyntax.Block{}
	for _, x := range b.Blocks {
		at[x.TypeRange.Start.Byte] = x
	}
	if r := b.Range(); r.Filename != "f" || r.Start.Byte < lo || r.End.Byte > hi || len(items) > 0 && (r.Start.Byte > items[0].lo || r.End.Byte < items[len(items)-1].hiMin) {
		k.fail(n, "the body is at %s", fullRange(r))
	} else {
		k.exact(n, "the body", r, [2]int{r.Start.Byte, r.End.Byte})
		if e := b.EndRange.Start.Byte; e < lo || e > hi || b.EndRange.End != b.EndRange.Start || b.EndRange.Filename != "f" || b.EndRange.Start != k.pos[e] || len(items) > 0 && e < items[len(items)-1].hiMin {
			k.fail(n, "the end of the body is at %s", fullRange(b.EndRange))
		}
	}
	for _, it := range items {
		if it.K == "attr" {
			a := b.Attributes[it.S[0]]
			if a == nil {
				k.fail(it, "is missing")
				continue
			}
			k.exact(it, "the name", a.NameRange, it.at[0])
			k.exact(it, "the equals sign", a.EqualsRange, it.at[1])
			k.exact(it, "the range", a.SrcRange, [2]int{it.lo, it.hi})
			if a.Range() != a.SrcRange || a.AsHCLAttribute().Range != a.SrcRange || a.AsHCLAttribute().NameRange != a.NameRange {
				k.fail(it, "has different ranges")
			}
			k.node(it.C[0], a.Expr)
			continue
		}
		x := at[it.lo]
		if x == nil {
			k.fail(it, "is missing")
			continue
		}
		n := len(it.S)
		k.exact(it, "the type", x.TypeRange, it.at[0])
		if len(x.LabelRanges) != n-1 {
			k.fail(it, "has %d label ranges", len(x.LabelRanges))
			continue
		}
		for i, l := range x.LabelRanges {
			k.exact(it, fmt.Sprint("label ", i), l, it.at[1+i])
		}
		k.exact(it, "the opening brace", x.OpenBraceRange, it.at[n])
		k.exact(it, "the closing brace", x.CloseBraceRange, it.at[n+1])
		k.exact(it, "the range", x.Range(), [2]int{it.lo, it.hi})
		if d := x.DefRange(); d.End.Byte < it.at[n-1][1] || d.End.Byte > it.at[n][1] {
			k.fail(it, "the header is at %s", fullRange(d))
		} else {
			k.exact(it, "the header", d, [2]int{it.lo, d.End.Byte})
		}
		k.items(it, it.C, x.Body, it.at[n][0], it.at[n+1][1])
	}
}

// rCase is an expression, a template or a body, written in a style.
type rCase struct {
	Kind  string
	N     *rNode
	Style int
}

func runRanges(r *fw.Rec, c rCase) {
	w := rWriter{style: c.Style, first: true}
	start := hcl.Pos{Line: 1, Column: 1}
	k := rCheck{r: r}
	switch c.Kind {
	case "expr":
		w.node(c.N)
	case "template":
		w.parts(c.N.C)
	default:
		for i, it := range c.N.C {
			if i > 0 {
				w.raw("\n")
			}
			w.first = i%2 == 0
			w.node(it)
		}
		w.raw("\n")
	}
	k.src = w.b.String()
	r.State(c.Kind + k.src)
	if c.Kind == "expr" && c.Style == 1 {
		start = hcl.Pos{Line: 7, Column: 5, Byte: 0}
	}
	k.pos = make([]hcl.Pos, len(k.src)+1)
	for i := range k.pos {
		k.pos[i] = advance(start, []byte(k.src[:i]))
	}
	r.Trace()
	switch c.Kind {
	case "expr":
		e, diags := hclsyntax.ParseExpression([]byte(k.src), "f", start)
		if diags.HasErrors() {
			r.Failf("parse", "%q: %s", k.src, diagsStr(diags))
			return
		}
		k.node(c.N, e)
	case "template":
		e, diags := hclsyntax.ParseTemplate([]byte(k.src), "f", start)
		if diags.HasErrors() {
			r.Failf("parse", "%q: %s", k.src, diagsStr(diags))
			return
		}
		if rng := e.Range(); rng.Filename != "f" || rng.Start.Byte != 0 || rng.End != k.pos[len(k.src)] {
			k.fail(c.N, "the template is at %s", fullRange(rng))
		}
		switch x := e.(type) {
		case *hclsyntax.TemplateExpr:
			k.parts(c.N, c.N.C, x.Parts)
		case *hclsyntax.TemplateWrapExpr:
			k.all(c.N, c.N.C, x.Wrapped)
		default:
			k.fail(c.N, "is a %T", e)
		}
	default:
		f, diags := hclsyntax.ParseConfig([]byte(k.src), "f", start)
		if diags.HasErrors() {
			r.Failf("parse", "%q: %s", k.src, diagsStr(diags))
			return
		}
		k.items(c.N, c.N.C, f.Body.(*hclsyntax.Body), 0, len(k.src))
	}
}

func rLit(s string) *rNode                        { return &rNode{K: "lit", S: []string{s}} }
func rText(s string) *rNode                       { return &rNode{K: "text", S: []string{s}} }
func rTrav(s ...string) *rNode                    { return &rNode{K: "trav", S: s} }
func rN(k string, s []string, c ...*rNode) *rNode { return &rNode{K: k, S: s, C: c} }

var rLeaves = []*rNode{
	rTrav("a"), rLit("12"), rTrav("é", ".b", "[0]", ".1"), rN("tmpl", nil, rText("s é\\n")), rN("call", []string{"f"}),
	rLit("true"), rTrav("a", `["k"]`), rN("tmpl", nil, rText("x"), rTrav("a", ".b"), rText("é"), rLit("1")), rN("wrap", nil, rTrav("a")), rN("tmpl", nil),
	rN("tuple", nil), rN("object", []string{"="}),
}

// rMakers make nodes of parts.
var rMakers = []struct {
	n   int
	f   func(c ...*rNode) *rNode
	pre bool // the first part is worked on by what follows it
}{
	{2, func(c ...*rNode) *rNode { return rN("bin", []string{"+"}, c...) }, true},
	{2, func(c ...*rNode) *rNode { return rN("bin", []string{"-"}, c...) }, true},
	{2, func(c ...*rNode) *rNode { return rN("bin", []string{"=="}, c...) }, true},
	{2, func(c ...*rNode) *rNode { return rN("bin", []string{"&&"}, c...) }, true},
	{2, func(c ...*rNode) *rNode { return rN("bin", []string{">="}, c...) }, true},
	{2, func(c ...*rNode) *rNode { return rN("bin", []string{"%"}, c...) }, true},
	{1, func(c ...*rNode) *rNode { return rN("un", []string{"-"}, c...) }, true},
	{1, func(c ...*rNode) *rNode { return rN("un", []string{"!"}, c...) }, true},
	{1, func(c ...*rNode) *rNode { return rN("paren", nil, c...) }, false},
	{1, func(c ...*rNode) *rNode { return rN("paren", nil, rN("paren", nil, c...)) }, false},
	{3, func(c ...*rNode) *rNode { return rN("cond", nil, c...) }, true},
	{1, func(c ...*rNode) *rNode { return rN("rel", []string{".x"}, rN("call", []string{"g"}, c...)) }, false},
	{1, func(c ...*rNode) *rNode { return rN("rel", []string{"[1]", ".x", ".0"}, rN("tuple", nil, c...)) }, false},
	{2, func(c ...*rNode) *rNode {
		return rN("index", nil, rTrav("m"), rN("bin", []string{"*"}, rN("paren", nil, c[0]), rN("paren", nil, c[1])))
	}, false},
	{2, func(c ...*rNode) *rNode {
		return rN("rel", []string{".x"}, rN("index", nil, rN("paren", nil, c[0]), rN("un", []string{"-"}, rN("paren", nil, c[1]))))
	}, false},
	{1, func(c ...*rNode) *rNode { return rN("splat", []string{".*"}, rN("paren", nil, c...)) }, false},
	{1, func(c ...*rNode) *rNode { return rN("splat", []string{".*", ".x", ".0"}, rN("tuple", nil, c...)) }, false},
	{1, func(c ...*rNode) *rNode {
		return rN("splat", []string{".*", ".x", ".0", ".y"}, rN("call", []string{"g"}, c...))
	}, false},
	{1, func(c ...*rNode) *rNode { return rN("splat", []string{"[*]"}, rN("tuple", nil, c...)) }, false},
	{1, func(c ...*rNode) *rNode {
		return rN("splat", []string{"[*]", ".x", `["k"]`, ".0"}, rN("paren", nil, c...))
	}, false},
	{2, func(c ...*rNode) *rNode { return rN("call", []string{"f"}, c...) }, false},
	{2, func(c ...*rNode) *rNode { return rN("call", []string{"fé", ","}, c...) }, false},
	{1, func(c ...*rNode) *rNode { return rN("call", []string{"f", "..."}, c...) }, false},
	{2, func(c ...*rNode) *rNode { return rN("tuple", nil, c...) }, false},
	{1, func(c ...*rNode) *rNode { return rN("tuple", []string{","}, c...) }, false},
	{2, func(c ...*rNode) *rNode { return rN("object", []string{"="}, rTrav("k"), c[0], rTrav("k2"), c[1]) }, false},
	{2, func(c ...*rNode) *rNode { return rN("object", []string{":"}, rN("paren", nil, c[0]), c[1]) }, false},
	{2, func(c ...*rNode) *rNode {
		return rN("object", []string{"=", "\n"}, rTrav("k"), c[0], rN("tmpl", nil, rText("k 2")), c[1])
	}, false},
	{2, func(c ...*rNode) *rNode { return rN("for", []string{"[]", "v"}, c...) }, false},
	{3, func(c ...*rNode) *rNode { return rN("for", []string{"[]", "k,v"}, c...) }, false},
	{3, func(c ...*rNode) *rNode { return rN("for", []string{"{}", "k,v"}, c...) }, false},
	{3, func(c ...*rNode) *rNode { return rN("for", []string{"{}", "v", "..."}, c[0], c[1], c[2], c[0]) }, false},
	{1, func(c ...*rNode) *rNode { return rN("wrap", nil, c...) }, false},
	{2, func(c ...*rNode) *rNode { return rN("tmpl", nil, rText("é "), c[0], rText("\\t"), c[1]) }, false},
	{2, func(c ...*rNode) *rNode { return rN("tmpl", nil, c[0], c[1], rText(" $${")) }, false},
	{3, func(c ...*rNode) *rNode {
		return rN("tmpl", nil, rText("é"), rN("tif", nil, c[0], rN("", nil, rText("t"), c[1]), rN("", nil, c[2], rText("e"))))
	}, false},
	{2, func(c ...*rNode) *rNode { return rN("tmpl", nil, rN("tif", nil, c[0], rN("", nil, c[1])), rText("x")) }, false},
	{2, func(c ...*rNode) *rNode {
		return rN("tmpl", nil, rText("é"), rN("tfor", []string{"v"}, c[0], rN("", nil, rText("t"), c[1])))
	}, false},
	{2, func(c ...*rNode) *rNode {
		return rN("tmpl", nil, rN("tfor", []string{"k , v"}, c[0], rN("", nil, rN("tif", nil, c[1], rN("", nil, rText("é"))))))
	}, false},
}

// rClone copies nodes, since those in several places are written several times.
func rClone(n *rNode) *rNode {
	m := &rNode{K: n.K, S: n.S}
	for _, c := range n.C {
		m.C = append(m.C, rClone(c))
	}
	return m
}

// rEach makes every node of the given parts, at most two of which are not the
// first, and puts operators among the parts of operators in parentheses.
func rEach(parts []*rNode, others []*rNode, yield func(*rNode)) {
	for _, m := range rMakers {
		guard := func(n *rNode) *rNode {
			n = rClone(n)
			if m.pre && (n.K == "bin" || n.K == "cond" || n.K == "un") {
				return rN("paren", nil, n)
			}
			return n
		}
		for slot := 0; slot < m.n; slot++ {
			for _, p := range parts {
				for _, o := range others {
					c := make([]*rNode, m.n)
					for i := range c {
						c[i] = guard(o)
					}
					c[slot] = guard(p)
					yield(m.f(c...))
					if m.n == 1 {
						break
					}
				}
			}
		}
	}
}

func init() {
	fw.Register(&fw.Check{
		ID: "C44",
		Assumptions: []string{
			"whether the range of a part includes parentheses around it is not judged, nor is whether that of an index, attribute access or splat includes what it is applied to",
			"whether the header of a block includes its brace is not judged",
			"the ranges of what stands between two directives of a template, and of bodies, are only judged to enclose their parts and be enclosed",
		},
		Suites: []fw.Suite{
			fw.S("expressions", fmt.Sprintf("%d leaves, all %d ways to put together parts with every leaf at every place beside every other, and these with each of those of four leaves at every place beside three leaves (thorough: four, and three levels of one leaf); in four styles: spaces, as tight as possible, comments and line breaks between the tokens", len(rLeaves), len(rMakers)), func(t fw.Tier, yield func(rCase)) {
				emit := func(n *rNode) {
					for s := 0; s < rStyles; s++ {
						yield(rCase{"expr", rClone(n), s})
					}
				}
				for _, l := range rLeaves {
					emit(l)
				}
				few := rLeaves[:4]
				var level []*rNode
				rEach(rLeaves, rLeaves, func(n *rNode) { emit(n) })
				rEach(few, few[:fw.Pick(t, 2, 4)], func(n *rNode) { level = append(level, rClone(n)) })
				rEach(level, few[:fw.Pick(t, 3, 4)], func(n *rNode) { emit(n) })
				if t == fw.Thorough {
					var one, two []*rNode
					rEach(few[:1], few[:1], func(n *rNode) { one = append(one, rClone(n)) })
					rEach(one, few[:1], func(n *rNode) { two = append(two, rClone(n)) })
					rEach(two, few[:1], func(n *rNode) { emit(n) })
				}
			}, runRanges),
			fw.S("templates", "templates of their own, of at most three (thorough: four) parts out of 12, in four styles", func(t fw.Tier, yield func(rCase)) {
				parts := []*rNode{rText("x"), rText("é\n b"), rText("\"q\"\n"), rTrav("a", ".b"), rLit("1"), rN("call", []string{"f"}, rTrav("a")), rN("tmpl", nil, rText("s"), rTrav("a")), rN("object", []string{"="}, rTrav("k"), rLit("2")),
					rN("tif", nil, rTrav("c"), rN("", nil, rText("t\n"))), rN("tif", nil, rTrav("c"), rN("", nil, rText("t"), rTrav("a")), rN("", nil, rLit("1"), rText("\ne"))), rN("tfor", []string{"v"}, rTrav("l"), rN("", nil, rText("\n"), rTrav("v"))), rN("tfor", []string{"k , v"}, rN("tuple", nil, rLit("1")), rN("", nil, rN("tif", nil, rTrav("k"), rN("", nil, rText("x")))))}
				eachSeq(len(parts), 1, fw.Pick(t, 3, 4), func(ix []int) {
					var cs []*rNode
					for i, x := range ix {
						if i > 0 && parts[x].K == "text" && parts[ix[i-1]].K == "text" {
							return
						}
						cs = append(cs, parts[x])
					}
					for s := 0; s < rStyles; s++ {
						yield(rCase{"template", rClone(rN("tmpl", nil, cs...)), s})
					}
				})
			}, runRanges),
			fw.S("bodies", "bodies of at most three (thorough: four) out of 11 attributes and blocks, and of two in blocks, in four styles", func(t fw.Tier, yield func(rCase)) {
				at := func(name string, n *rNode) *rNode { return rN("attr", []string{name}, n) }
				items := []*rNode{
					at("a", rLit("1")), at("é", rN("tmpl", nil, rText("é "), rTrav("b"))), at("c", rN("object", []string{"=", "\n"}, rTrav("k"), rN("tuple", nil, rLit("1"), rTrav("x")))), at("d", rN("bin", []string{"+"}, rN("paren", nil, rTrav("x")), rN("call", []string{"f"}))),
					rN("block", []string{"x"}), rN("block", []string{"x", "l", `"m é"`}, at("a", rTrav("b", ".c"))), rN("line", []string{"y"}), rN("line", []string{"y", `"é"`, "é", `""`}, at("a", rLit("2"))), rN("block", []string{"z"}, rN("block", []string{"x", "l"}, at("b", rLit("null"))), at("a", rLit("2"))),
					rN("block", []string{"é", `"a\"b"`}, rN("line", []string{"x"})), at("e", rN("paren", nil, rLit("1"))),
				}
				emit := func(cs []*rNode) {
					seen := map[string]bool{}
					for _, c := range cs {
						if c.K == "attr" && seen[c.S[0]] {
							return
						}
						seen[c.S[0]] = seen[c.S[0]] || c.K == "attr"
					}
					for s := 0; s < rStyles; s++ {
						yield(rCase{"body", rClone(rN("body", nil, cs...)), s})
					}
				}
				eachSeq(len(items), 0, fw.Pick(t, 3, 4), func(ix []int) {
					var cs []*rNode
					for _, x := range ix {
						cs = append(cs, items[x])
					}
					emit(cs)
					if len(cs) == 2 && (cs[0].K != "attr" || ix[0] != ix[1]) {
						emit([]*rNode{rN("block", []string{"w", "l"}, cs...), items[0]})
						emit([]*rNode{items[0], rN("block", []string{"w"}, rN("block", []string{"v", `"l"`}, cs...), cs[0])})
					}
				})
			}, runRanges),
		},
	})
}
