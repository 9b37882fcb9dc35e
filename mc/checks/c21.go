package checks

import (
	"bytes"
	encjson "encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"github.com/zclconf/go-cty/cty/function/stdlib"
	"verif/mc/fw"
)

var packCtxs = []*hcl.EvalContext{
	nil,
	{Variables: map[string]cty.Value{"x": obj("y", num("1"), "0", str("s")), "y": str("k"), "z": cty.True, "v": lst(num("1"), num("2"))}, Functions: map[string]function.Function{"f": stdlib.MaxFunc}},
	{Variables: map[string]cty.Value{"x": tup(obj("y", tup(num("1")))), "y": num("0"), "z": cty.False}},
}

func transport(b *hclpack.Body) (*hclpack.Body, []byte, error) {
	buf, err := encjson.Marshal(b)
	if err != nil {
		return nil, nil, err
	}
	var u hclpack.Body
	if err := encjson.Unmarshal(buf, &u); err != nil {
		return nil, buf, err
	}
	return &u, buf, nil
}

func labelNames(n int) []string {
	var ret []string
	for i := 0; i < n; i++ {
		ret = append(ret, fmt.Sprint("label", i))
	}
	return ret
}

// bodySchemaOf is a schema that fits all of a body.
func bodySchemaOf(b *hclsyntax.Body) *hcl.BodySchema {
	s := &hcl.BodySchema{}
	for name := range b.Attributes {
		s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: name, Required: true})
	}
	sort.Slice(s.Attributes, func(i, j int) bool { return s.Attributes[i].Name < s.Attributes[j].Name })
	seen := map[string]bool{}
	for _, blk := range b.Blocks {
		if !seen[blk.Type] {
			seen[blk.Type] = true
			s.Blocks = append(s.Blocks, hcl.BlockHeaderSchema{Type: blk.Type, LabelNames: labelNames(len(blk.Labels))})
		}
	}
	return s
}

func fullRange(r hcl.Range) string {
	return fmt.Sprintf("%s:%d,%d,%d-%d,%d,%d", r.Filename, r.Start.Line, r.Start.Column, r.Start.Byte, r.End.Line, r.End.Column, r.End.Byte)
}

func fullDiags(diags hcl.Diagnostics) []string {
	var s []string
	for _, d := range diags {
		detail := d.Detail
		if i := strings.Index(detail, " Did you mean"); i >= 0 {
			detail = detail[:i] // not the same every time
		}
		line := fmt.Sprintf("%d %s (%s)", d.Severity, d.Summary, detail)
		if d.Subject != nil {
			line += " at " + fullRange(*d.Subject)
		}
		if d.Context != nil {
			line += " in " + fullRange(*d.Context)
		}
		s = append(s, line)
	}
	return s
}

func travsStr(ts []hcl.Traversal) string {
	var s []string
	for _, t := range ts {
		x := ""
		for _, st := range t {
			x += travStr(hcl.Traversal{st}, false) + "@" + fullRange(st.SourceRange())
		}
		s = append(s, x)
	}
	return strings.Join(s, " ")
}

// packedExprDiff compares a packed expression with the one it was made from.
func packedExprDiff(r *fw.Rec, src []byte, ofs int, n, p *hcl.Attribute) string {
	r.Op(1)
	if fullRange(n.Range) != fullRange(p.Range) || fullRange(n.NameRange) != fullRange(p.NameRange) || n.Name != p.Name {
		return fmt.Sprintf("attribute %s %s %s has become %s %s %s", n.Name, fullRange(n.Range), fullRange(n.NameRange), p.Name, fullRange(p.Range), fullRange(p.NameRange))
	}
	if a, b := fullRange(n.Expr.StartRange()), fullRange(p.Expr.StartRange()); a != b {
		return fmt.Sprintf("start range %s has become %s", a, b)
	}
	// The range of a packed expression covers all of its source, also what
	// the native range leaves out.
	nr, pr := n.Expr.Range(), p.Expr.Range()
	if pr.Start.Byte > nr.Start.Byte || pr.End.Byte < nr.End.Byte || pr.End != n.Range.End || pr.Start.Byte < n.NameRange.End.Byte || pr.Filename != nr.Filename {
		return fmt.Sprintf("range %s of the expression of attribute %s has become %s", fullRange(nr), fullRange(n.Range), fullRange(pr))
	}
	i := n.NameRange.End.Byte - ofs
	gap := strings.TrimLeft(string(src[i:nr.Start.Byte-ofs]), " \t")
	if strings.Trim(strings.TrimPrefix(gap, "="), " \t") == "" && nr.End == n.Range.End && fullRange(nr) != fullRange(pr) {
		return fmt.Sprintf("range %s has become %s", fullRange(nr), fullRange(pr))
	}
	pe, ok := p.Expr.(*hclpack.Expression)
	if !ok {
		return fmt.Sprintf("packed expression is %T", p.Expr)
	}
	e, diags := pe.Parse()
	if diags.HasErrors() {
		return fmt.Sprintf("packed expression %q does not parse: %s", pe.Source, diagsStr(diags))
	}
	if a, b := fullRange(nr), fullRange(e.Range()); a != b {
		return fmt.Sprintf("range %s has become %s after parsing", a, b)
	}
	if a, b := dumpExpr(n.Expr), dumpExpr(e); a != b {
		return fmt.Sprintf("%s has become %s", a, b)
	}
	if a, b := travsStr(n.Expr.Variables()), travsStr(p.Expr.Variables()); a != b {
		return fmt.Sprintf("variables %s have become %s", a, b)
	}
	for _, ctx := range packCtxs {
		v1, d1 := n.Expr.Value(ctx)
		v2, d2 := p.Expr.Value(ctx)
		if !v1.RawEquals(v2) || !eqStrs(fullDiags(d1), fullDiags(d2)) {
			return fmt.Sprintf("value %#v (%s) has become %#v (%s)", v1, fullDiags(d1), v2, fullDiags(d2))
		}
	}
	// static analysis goes through to the real expression
	t1, d1 := hcl.AbsTraversalForExpr(n.Expr)
	t2, d2 := hcl.AbsTraversalForExpr(p.Expr)
	if travsStr([]hcl.Traversal{t1}) != travsStr([]hcl.Traversal{t2}) || d1.HasErrors() != d2.HasErrors() {
		return fmt.Sprintf("static traversal %s has become %s", travStr(t1, true), travStr(t2, true))
	}
	l1, d1 := hcl.ExprList(n.Expr)
	l2, d2 := hcl.ExprList(p.Expr)
	m1, d3 := hcl.ExprMap(n.Expr)
	m2, d4 := hcl.ExprMap(p.Expr)
	c1, d5 := hcl.ExprCall(n.Expr)
	c2, d6 := hcl.ExprCall(p.Expr)
	if len(l1) != len(l2) || len(m1) != len(m2) || d1.HasErrors() != d2.HasErrors() || d3.HasErrors() != d4.HasErrors() || d5.HasErrors() != d6.HasErrors() || c1 != nil && (c2 == nil || c1.Name != c2.Name || len(c1.Arguments) != len(c2.Arguments)) {
		return "static analysis differs"
	}
	return ""
}

// packedDiff compares a packed body with the body it was made from.
func packedDiff(r *fw.Rec, src []byte, ofs int, n, p hcl.Body) string {
	nb, ok := n.(*hclsyntax.Body)
	if !ok {
		return "not a native body"
	}
	full := bodySchemaOf(nb)
	other := &hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "missing", Required: true}}, Blocks: []hcl.BlockHeaderSchema{{Type: "blk", LabelNames: []string{"x"}}, {Type: "z"}}}
	// the packed one is at the end of the body and the native one at the start
	if m := p.MissingItemRange(); m.Filename != "t.hcl" || m.Start.Byte < nb.SrcRange.Start.Byte || m.End.Byte > nb.SrcRange.End.Byte || m.Start.Line < nb.SrcRange.Start.Line {
		return fmt.Sprintf("missing item range of %s is %s", fullRange(nb.SrcRange), fullRange(m))
	}
	for _, s := range []*hcl.BodySchema{full, other, {}} {
		r.Op(2)
		nc, nd := n.Content(s)
		pc, pd := p.Content(s)
		if a, b := contentStr(nc), contentStr(pc); a != b {
			return fmt.Sprintf("content %s has become %s", a, b)
		}
		if len(nd) != len(pd) {
			return fmt.Sprintf("errors %s have become %s", diagSet(nd), diagSet(pd))
		}
		nc, nrest, _ := n.PartialContent(s)
		pc, prest, _ := p.PartialContent(s)
		if a, b := contentStr(nc), contentStr(pc); a != b {
			return fmt.Sprintf("partial content %s has become %s", a, b)
		}
		na, _ := nrest.JustAttributes()
		pa, _ := prest.JustAttributes()
		if a, b := attrsStr(na), attrsStr(pa); a != b {
			return fmt.Sprintf("remaining attributes %s have become %s", a, b)
		}
	}
	na, nd := n.JustAttributes()
	pa, pd := p.JustAttributes()
	if a, b := attrsStr(na), attrsStr(pa); a != b || nd.HasErrors() != pd.HasErrors() {
		return fmt.Sprintf("attributes %s have become %s", a, b)
	}
	for name := range na {
		if m := packedExprDiff(r, src, ofs, na[name], pa[name]); m != "" {
			return m
		}
	}
	nc, _ := n.Content(full)
	pc, _ := p.Content(full)
	for i, b := range nc.Blocks {
		q := pc.Blocks[i]
		if b.Type != q.Type || !eqStrs(b.Labels, q.Labels) || fullRange(b.DefRange) != fullRange(q.DefRange) || fullRange(b.TypeRange) != fullRange(q.TypeRange) || len(b.LabelRanges) != len(q.LabelRanges) {
			return fmt.Sprintf("block %+v has become %+v", b, q)
		}
		for k := range b.LabelRanges {
			if fullRange(b.LabelRanges[k]) != fullRange(q.LabelRanges[k]) {
				return fmt.Sprintf("label range %s has become %s", fullRange(b.LabelRanges[k]), fullRange(q.LabelRanges[k]))
			}
		}
		if m := packedDiff(r, src, ofs, b.Body, q.Body); m != "" {
			return m
		}
	}
	return ""
}

var packStarts = []hcl.Pos{{Line: 7, Column: 3, Byte: 100}, {Line: 1, Column: 1, Byte: 0}}

func checkPacked(r *fw.Rec, src string) {
	for i, start := range packStarts {
		if i == 1 && len(src) > 40 {
			break
		}
		f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", start)
		r.Op(1)
		if diags.HasErrors() {
			_, diags := hclpack.PackNativeFile([]byte(src), "t.hcl", start)
			if !diags.HasErrors() {
				r.Failf("", "packing the malformed %q is no error", src)
			}
			return
		}
		given := []byte(src)
		p, diags := hclpack.PackNativeFile(given, "t.hcl", start)
		if diags.HasErrors() || p == nil {
			r.Failf("", "packing %q: %s", src, diagsStr(diags))
			return
		}
		u, buf, err := transport(p)
		if err != nil {
			r.Failf("", "transporting %q (%s): %s", src, buf, err)
			return
		}
		r.StateB("", buf)
		if m := packedDiff(r, []byte(src), start.Byte, f.Body, u); m != "" {
			r.Failf("", "packing and transporting %q from %v: %s", src, start, m)
			return
		}
		if i == 0 {
			if m := packedDiff(r, []byte(src), start.Byte, f.Body, p); m != "" {
				r.Failf("", "packing %q from %v: %s", src, start, m)
				return
			}
		}
		if string(given) != src {
			r.Failf("", "packing %q and reading that changes the source to %q", src, given)
			return
		}
		nilEmpty(p)
		nilEmpty(u)
		if !reflect.DeepEqual(p, u) {
			r.Failf("", "packed %q becomes\n%+v\ninstead of\n%+v", src, u, p)
			return
		}
		_, buf2, err := transport(u)
		if err != nil || !bytes.Equal(buf, buf2) {
			r.Failf("", "packing %q gives %s and then %s (%v)", src, buf, buf2, err)
			return
		}
		r.Trace()
	}
}

// usePacked does with an unpacked body all that a reader would.
func usePacked(r *fw.Rec, b *hclpack.Body, depth int) {
	s := &hcl.BodySchema{}
	for name := range b.Attributes {
		s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: name})
	}
	for _, blk := range b.ChildBlocks {
		n := len(blk.Labels)
		s.Blocks = append(s.Blocks, hcl.BlockHeaderSchema{Type: blk.Type, LabelNames: make([]string, n)})
	}
	r.Op(1)
	c, _ := b.Content(s)
	b.PartialContent(&hcl.BodySchema{})
	b.JustAttributes()
	b.MissingItemRange()
	for _, a := range c.Attributes {
		a.Expr.Variables()
		v, diags := a.Expr.Value(packCtxs[1])
		if v == cty.NilVal && !diags.HasErrors() {
			r.Failf("", "attribute %s has no value and no errors", a.Name)
			return
		}
		for _, d := range diags {
			if d == nil || d.Summary == "" {
				r.Failf("", "attribute %s has an empty error", a.Name)
				return
			}
		}
		a.Expr.Range()
		a.Expr.StartRange()
		hcl.ExprList(a.Expr)
	}
	for _, blk := range c.Blocks {
		if child, ok := blk.Body.(*hclpack.Body); ok && depth < 5 {
			usePacked(r, child, depth+1)
		}
	}
}

func checkCorrupt(r *fw.Rec, data []byte) {
	r.Op(1)
	r.StateB("", data)
	var b hclpack.Body
	if err := encjson.Unmarshal(data, &b); err != nil {
		return
	}
	r.Trace()
	usePacked(r, &b, 0)
	if _, _, err := transport(&b); err != nil {
		r.Failf("", "%q is accepted, but not accepted again after packing it: %s", data, err)
	}
}

var packDocs = []string{
	"", "a = 1\n", "a = x.y\nb {\n}\n", "b \"l\" m {\n  a = [1, \"${x}\"]\n}\n", "\n\n\na = <<E\nt\nE\n\n\n\n",
}

// packVal is a packed expression made by hand.
type packVal struct{ T, S string }

func (c packVal) typ() hclpack.ExprSourceType { return hclpack.ExprSourceType(c.T[0]) }

func checkPackVal(r *fw.Rec, c packVal) {
	rng := hcl.Range{Filename: "t", Start: hcl.Pos{Line: 2, Column: 3, Byte: 10}, End: hcl.Pos{Line: 2, Column: 3 + len(c.S), Byte: 10 + len(c.S)}}
	b := &hclpack.Body{Attributes: map[string]hclpack.Attribute{"a": {Expr: hclpack.Expression{Source: []byte(c.S), SourceType: c.typ(), Range_: rng, StartRange_: rng}, Range: rng, NameRange: rng}}}
	var want hcl.Expression
	var wd hcl.Diagnostics
	switch c.T {
	case "T":
		want, wd = hclsyntax.ParseTemplate([]byte(c.S), "t", rng.Start)
	case "N":
		want, wd = hclsyntax.ParseExpression([]byte(c.S+"\n"), "t", rng.Start) // the line an expression is on always ends
	}
	for _, moved := range []bool{false, true} {
		r.Op(1)
		r.State(c.T, c.S)
		if moved {
			u, _, err := transport(b)
			if err != nil {
				r.Failf("", "transporting %v: %s", c, err)
				return
			}
			b = u
		}
		attrs, _ := b.JustAttributes()
		a := attrs["a"]
		if a == nil {
			r.Failf("", "%v is gone", c)
			return
		}
		if a.Range != rng || a.NameRange != rng || a.Expr.Range() != rng || a.Expr.StartRange() != rng {
			r.Failf("", "ranges of %v have changed", c)
			return
		}
		for _, ctx := range packCtxs {
			got, gd := a.Expr.Value(ctx)
			if c.T == "L" {
				// how malformed literals are rejected is up to the cty library
				if !encjson.Valid([]byte(c.S)) {
					r.Count("unjudged", 1)
					continue
				}
				if gd.HasErrors() {
					r.Failf("", "literal %q: %s", c.S, diagsStr(gd))
					return
				}
				var errs []jPlace
				if v := jEval([]byte(c.S), readJSON([]byte(c.S)), false, &errs); len(errs) == 0 && !v.RawEquals(got) {
					r.Failf("", "literal %q is %#v instead of %#v", c.S, got, v)
					return
				}
				continue
			}
			if wd.HasErrors() {
				if !gd.HasErrors() {
					r.Failf("", "%v has no errors", c)
					return
				}
				continue
			}
			v, d := want.Value(ctx)
			if !v.RawEquals(got) || !eqStrs(fullDiags(d), fullDiags(gd)) {
				r.Failf("", "%v is %#v (%s) instead of %#v (%s)", c, got, fullDiags(gd), v, fullDiags(d))
				return
			}
			if x, y := travsStr(want.Variables()), travsStr(a.Expr.Variables()); x != y {
				r.Failf("", "%v has variables %s instead of %s", c, y, x)
				return
			}
		}
	}
	r.Trace()
}

// packGap is a source with a distance between two items.
type packGap struct {
	Lines, Cols, Form int
}

func (c packGap) src() string {
	nl, sp := strings.Repeat("\n", c.Lines), strings.Repeat(" ", c.Cols)
	switch c.Form {
	case 0:
		return "a = x\n" + nl + sp + "b = y\n"
	case 1:
		return nl + sp + "blk " + sp + "\"l\" {\n" + nl + sp + "a = x\n}\n"
	case 2:
		return "a = [" + nl + sp + "x\n]" + nl + "\n"
	}
	return sp + "a " + sp + "=" + sp + "\"" + sp + "\"\n" + nl
}

// packPart is a piece of a body put together from several files.
type packPart struct {
	File string
	Src  int
}

var packSrcs = []string{"a = 1\n", "\n  b = x.y\n\n", "blk \"l\" {\n  c = 1\n}\n", "blk {\n}\nd = [\n1]\n"}

func nilEmpty(b *hclpack.Body) {
	if len(b.Attributes) == 0 {
		b.Attributes = nil
	}
	if len(b.ChildBlocks) == 0 {
		b.ChildBlocks = nil
	}
	for i := range b.ChildBlocks {
		if len(b.ChildBlocks[i].Labels) == 0 {
			b.ChildBlocks[i].Labels = nil
			b.ChildBlocks[i].LabelRanges = nil
		}
		nilEmpty(&b.ChildBlocks[i].Body)
	}
}

func checkParts(r *fw.Rec, c []packPart) {
	all := &hclpack.Body{}
	for i, p := range c {
		b, diags := hclpack.PackNativeFile([]byte(packSrcs[p.Src]), p.File, hcl.Pos{Line: 1, Column: 1, Byte: 0})
		if diags.HasErrors() {
			r.Failf("", "packing: %s", diagsStr(diags))
			return
		}
		for name, a := range b.Attributes {
			if all.Attributes == nil {
				all.Attributes = map[string]hclpack.Attribute{}
			}
			all.Attributes[fmt.Sprint(name, i)] = a
		}
		all.ChildBlocks = append(all.ChildBlocks, b.ChildBlocks...)
		all.MissingItemRange_ = b.MissingItemRange_
		// whole files can be nested as well
		all.ChildBlocks = append(all.ChildBlocks, hclpack.Block{Type: "file", Labels: []string{p.File}, Body: *b, LabelRanges: []hcl.Range{b.MissingItemRange_}, DefRange: b.MissingItemRange_, TypeRange: b.MissingItemRange_})
	}
	r.Op(1)
	u, buf, err := transport(all)
	if err != nil {
		r.Failf("", "%v cannot be transported: %s", c, err)
		return
	}
	r.StateB("", buf)
	nilEmpty(all)
	nilEmpty(u)
	if !reflect.DeepEqual(all, u) {
		r.Failf("", "%v becomes\n%+v\ninstead of\n%+v", c, u, all)
		return
	}
	r.Trace()
}

func init() {
	strRun := func(r *fw.Rec, c fw.StrCase) { checkCorrupt(r, []byte(c)) }
	parts := []packPart{}
	for _, f := range []string{"a", "b", "", "é.hcl"} {
		for i := range packSrcs {
			parts = append(parts, packPart{f, i})
		}
	}
	tmplAlphabet := []string{"a", " ", "\n", "\"", "\\", "é", "${x}", "${x.y}", "%{if z}", "%{endif}", "$${", "${", "}", "%{for i in v}${i}%{endfor}", "~}", "<", "\u2028"}
	exprAlphabet := []string{"x", ".y", "[0]", "1", "\"a\"", "\"${y}\"", "+", "(", ")", "<<E\nt\nE", "\n", " ", "#c", "[*]", "f(", "...", "<", "&&", "é"}
	jsonAlphabet := []string{"1", "-2.5", "\"a\"", "\"${x}\"", "null", "true", "[", "]", "{", "}", ",", ":", " ", "\"\\u00e9\"", "1e3"}
	suites := wSuites(func(r *fw.Rec, src string) { checkPacked(r, src) })
	fw.Register(&fw.Check{
		ID:          "C21",
		Assumptions: []string{"the native parser is what packed bodies are compared with"},
		Suites: append(suites,
			fw.S("distances", "sources with every distance up to 300 lines (thorough 9000) and every distance up to 300 columns (thorough 2000) in 4 places, and powers of two up to 65536",
				func(t fw.Tier, yield func(packGap)) {
					for f := 0; f < 4; f++ {
						for n := 0; n <= fw.Pick(t, 300, 9000); n++ {
							if n <= 300 || n%8 == 0 {
								yield(packGap{n, 0, f})
							}
						}
						for n := 0; n <= fw.Pick(t, 300, 2000); n++ {
							yield(packGap{1, n, f})
						}
						for k := uint(8); k <= 16; k++ {
							for d := -2; d <= 2; d++ {
								yield(packGap{1<<k + d, 1, f})
								yield(packGap{0, 1<<k + d, f})
							}
						}
					}
				}, func(r *fw.Rec, c packGap) { checkPacked(r, c.src()) }),
			fw.S("files", fmt.Sprintf("every body put together from up to 3 (thorough 4) out of %d pieces of files, each file with one text", len(parts)),
				func(t fw.Tier, yield func([]packPart)) {
					eachSeq(len(parts), 0, fw.Pick(t, 3, 4), func(idx []int) {
						var c []packPart
						text := map[string]int{}
						for _, i := range idx {
							p := parts[i]
							if k, ok := text[p.File]; ok && k != p.Src {
								return // one file has one text
							}
							text[p.File] = p.Src
							c = append(c, p)
						}
						yield(c)
					})
				}, checkParts),
			fw.S("values", "every packed template, expression or JSON literal of up to 3 (thorough 4) tokens",
				func(t fw.Tier, yield func(packVal)) {
					eachString(tmplAlphabet, 0, fw.Pick(t, 3, 4), func(s string) { yield(packVal{"T", s}) })
					eachString(exprAlphabet, 0, fw.Pick(t, 3, 4), func(s string) { yield(packVal{"N", s}) })
					eachString(jsonAlphabet, 0, fw.Pick(t, 4, 5), func(s string) { yield(packVal{"L", s}) })
				}, checkPackVal),
			fw.S("corruption", fmt.Sprintf("every truncation, every removal, replacement and insertion of one byte (thorough all values, and pairs of replacements by 9 values in the smallest ones) in the packed forms of %d sources", len(packDocs)),
				func(t fw.Tier, yield func(fw.StrCase)) {
					for k, src := range packDocs {
						b, diags := hclpack.PackNativeFile([]byte(src), "t", hcl.Pos{Line: 1, Column: 1})
						if diags.HasErrors() {
							panic(diags)
						}
						buf, err := encjson.Marshal(b)
						if err != nil {
							panic(err)
						}
						var repl []byte
						for c := 0; c < 256; c++ {
							if t == fw.Thorough || c < 128 || c == 0xff || c == 0xc3 {
								repl = append(repl, byte(c))
							}
						}
						few := []byte("\"{}[],:9A")
						for i := 0; i <= len(buf); i++ {
							yield(fw.StrCase(buf[:i]))
							for _, c := range repl {
								yield(fw.StrCase(string(buf[:i]) + string([]byte{c}) + string(buf[i:])))
								if i < len(buf) {
									yield(fw.StrCase(string(buf[:i]) + string([]byte{c}) + string(buf[i+1:])))
								}
							}
							if i < len(buf) {
								yield(fw.StrCase(string(buf[:i]) + string(buf[i+1:])))
							}
							if t == fw.Thorough && k < 3 {
								for j := i + 1; j < len(buf); j++ {
									for _, c := range few {
										for _, d := range few {
											m := append([]byte{}, buf...)
											m[i], m[j] = c, d
											yield(fw.StrCase(m))
										}
									}
								}
							}
						}
					}
				}, strRun),
			fw.S("documents", "every packed document with each of its fields out of an alphabet of well-formed and malformed values",
				func(t fw.Tier, yield func(fw.StrCase)) {
					ranges := []string{"", `,"r":null`, `,"r":""`, `,"r":"AgQ"`, `,"r":"BAQG"`, `,"r":"AA"`, `,"r":"AQ"`, `,"r":"//////////8"`, `,"r":"gICAgICAgICAAA"`, `,"r":3`, `,"r":"AgQCBAIEAgQCBA"`, `,"r":"_"`, `,"r":"w7"`}
					srcs := []string{"", `,"s":"1"`, `,"s":"x."`, `,"s":"\ufffd\u0000"`, `,"s":null`, `,"s":3`, `,"s":"<<E\nE"`, `,"s":"{"`}
					types := []string{"", `,"t":0`, `,"t":1`, `,"t":2`, `,"t":3`, `,"t":-1`, `,"t":"0"`, `,"t":1.5`}
					heads := []string{"", `,"h":null`, `,"h":[]`, `,"h":["b"]`, `,"h":["b","l"]`, `,"h":"b"`, `,"h":[1]`, `,"h":["b",null]`}
					files := []string{"", `,"s":null`, `,"s":[]`, `,"s":["f"]`, `,"s":["f","g"]`, `,"s":"f"`, `,"s":[null]`}
					poss := []string{"", `,"p":null`, `,"p":""`, `,"p":"AgICAgIC"`, `,"p":"OzsCAgI"`, `,"p":"Og"`, `,"p":"AgI"`, `,"p":"AQEBAQEB"`, `,"p":"gICAgICAgICAAA"`, `,"p":3`, `,"p":"//////////9////////////f////////////////8"`}
					object := func(fields ...string) string {
						return "{" + strings.TrimPrefix(strings.Join(fields, ""), ",") + "}"
					}
					var bodies []string
					for _, rg := range ranges {
						bodies = append(bodies, object(rg))
						for _, s := range srcs {
							for _, ty := range types {
								bodies = append(bodies, `{"a":{"x":`+object(s, ty, rg)+`}}`)
							}
						}
						for _, h := range heads {
							for _, b := range []string{"", `,"b":null`, `,"b":{}`, `,"b":[]`, `,"b":{"a":{"y":{"s":"1"}}}`, `,"b":{"b":[{"h":["c"]}]}`} {
								bodies = append(bodies, `{"b":[`+object(h, b, rg)+`]}`)
							}
						}
					}
					for _, odd := range []string{"null", "[]", "1", `""`, `{"a":null}`, `{"a":[]}`, `{"a":{"x":null}}`, `{"b":null}`, `{"b":{}}`, `{"b":[null]}`, `{"b":[[]]}`, `{"A":{"x":{"S":"1"}},"B":[{"H":["b"]}]}`, `{"a":{"":{"s":"1"}}}`} {
						bodies = append(bodies, odd)
					}
					for _, b := range bodies {
						for _, f := range files {
							for _, p := range poss {
								yield(fw.StrCase(`{"r":` + b + f + p + `}`))
							}
						}
					}
					for _, s := range []string{"", "null", "[]", "1", "\"\"", "{}", "{\"r\":{}", "nul", "{}{}", " {} "} {
						yield(fw.StrCase(s))
					}
					// every short payload of positions and ranges
					alphabet := []string{"A", "B", "C", "g", "/", "O", "7", "w", "_", "="}
					eachString(alphabet, 0, fw.Pick(t, 4, 6), func(s string) {
						yield(fw.StrCase(`{"r":{"r":"AgQ"},"s":["f","g"],"p":"` + s + `"}`))
						yield(fw.StrCase(`{"r":{"r":"` + s + `"},"s":["f","g"],"p":"AgICAgICOwICAg"}`))
					})
				}, strRun),
		),
	})
}
