package checks

import (
	"bytes"
	"fmt"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"verif/mc/fw"
)

// nativeCase is a body in a layout.
type nativeCase struct {
	Items  []*bItem
	Layout int
}

var c11Items = []*bItem{
	bAttr("a", "#"), bAttr("b", "#"), bAttr("x", "#"),
	bBlock("x", nil), bBlock("x", []string{"l"}), bBlock("x", []string{"l", "m n"}), bBlock("x", []string{"m"}, bAttr("a", "#")),
	bBlock("y", nil, bAttr("a", "#"), bAttr("c", "#"), bBlock("y", nil, bAttr("b", "#"))), bBlock("y", []string{"l"}), bBlock("a", nil, bBlock("x", []string{"q"}), bBlock("x", nil)),
}

// c11Sequences are the extraction sequences applied to each body.
func c11Sequences() [][]bOp {
	all := bSchemas([]string{"a", "b"}, map[string][]int{"x": {0, 1, 2}, "y": {0}})
	second := bSchemas([]string{"a"}, map[string][]int{"x": {1}, "y": {0, 1}})
	third := bSchemas([]string{"a"}, map[string][]int{"x": {1}})
	seqs := bSeqs(all, second, third)
	// names that are wanted both as attribute and as block type
	for _, s := range bSchemas([]string{"x", "b"}, map[string][]int{"x": {1}, "a": {0}}) {
		seqs = append(seqs, []bOp{{'c', s}})
		for _, s2 := range bSchemas([]string{"a", "x"}, map[string][]int{"x": {0}}) {
			seqs = append(seqs, []bOp{{'p', s}, {'c', s2}}, []bOp{{'p', s}, {'p', s2}, {'j', bSchema{}}})
		}
	}
	return seqs
}

// childSeqs are applied to the bodies of extracted blocks.
var childSeqs = func() [][]bOp {
	some := bSchemas([]string{"a"}, map[string][]int{"x": {0, 1}, "y": {0}})
	return bSeqs(some, some[:4], nil)
}()

func runNative(r *fw.Rec, c nativeCase, seqs [][]bOp) {
	items := bClone(c.Items)
	n := 0
	bNumber(items, &n)
	src := bNative(items, bLayouts[c.Layout])
	r.State(src)
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.InitialPos)
	r.Op(1)
	// Only repeated attributes are errors at this point.
	var want []bErr
	var dups func(items []*bItem)
	dups = func(items []*bItem) {
		seen := map[string]bool{}
		for _, it := range items {
			if it.Blk {
				dups(it.Body)
			} else if seen[it.Name] {
				want = append(want, bErr{Item: it})
			} else {
				seen[it.Name] = true
			}
		}
	}
	dups(items)
	if m := bErrsMatch(diags, want, [2]int{0, len(src)}); m != "" {
		r.Failf("parse", "parsing %q: %s; want %s; got %s", src, m, bErrsStr(want), diagsStr(diags))
		return
	}
	ref := bRef{Items: items}
	for _, seq := range seqs {
		if !nativeSeq(r, src, f.Body, ref, seq, [2]int{0, len(src)}, 0) {
			return
		}
	}
	r.Trace()
}

// nativeSeq applies a sequence of extractions to a body and its model.
func nativeSeq(r *fw.Rec, src string, body hcl.Body, ref bRef, seq []bOp, bodyRange [2]int, depth int) bool {
	fail := func(i int, format string, args ...interface{}) bool {
		r.Failf("content", "%q, %v (at depth %d): %s", src, seq[:i+1], depth, fmt.Sprintf(format, args...))
		return false
	}
	if body == nil {
		return fail(-1, "nil body")
	}
	for i, op := range seq {
		r.Op(1)
		if op.Kind == 'j' {
			attrs, diags := body.JustAttributes()
			want, blocks := ref.just()
			if m := bAttrsMatch(attrs, want.Attrs); m != "" {
				return fail(i, "%s", m)
			}
			if m := nativeAttrRanges(src, attrs, want.Attrs); m != "" {
				return fail(i, "%s", m)
			}
			if diags.HasErrors() != blocks {
				return fail(i, "blocks remain: %v, diagnostics %s", blocks, diagsStr(diags))
			}
			for _, d := range diags {
				ok := false
				for _, it := range ref.Items {
					ok = ok || it.Blk && ref.visible(it) && d.Subject != nil && d.Subject.Start.Byte >= it.header[0] && d.Subject.End.Byte <= it.header[1]
				}
				if !ok {
					return fail(i, "diagnostics are not about a block: %s", diagsStr(diags))
				}
			}
			continue
		}
		var content *hcl.BodyContent
		var diags hcl.Diagnostics
		var out bOut
		if op.Kind == 'c' {
			content, diags = body.Content(op.S.hcl())
			out = ref.content(op.S)
		} else {
			content, body, diags = body.PartialContent(op.S.hcl())
			out, ref = ref.partial(op.S)
			if body == nil {
				return fail(i, "no remaining body")
			}
		}
		if m := bErrsMatch(diags, out.Errs, bodyRange); m != "" {
			return fail(i, "%s; want %s, got %s", m, bErrsStr(out.Errs), diagsStr(diags))
		}
		if content == nil {
			return fail(i, "nil content")
		}
		if m := bAttrsMatch(content.Attributes, out.Attrs); m != "" {
			return fail(i, "%s", m)
		}
		if m := nativeAttrRanges(src, content.Attributes, out.Attrs); m != "" {
			return fail(i, "%s", m)
		}
		if m := bHeadersMatch(content.Blocks, out.Blocks); m != "" {
			return fail(i, "%s", m)
		}
		if m := bByType(content.Blocks); m != "" {
			return fail(i, "%s", m)
		}
		if mr := content.MissingItemRange; mr.Filename != "t.hcl" || mr.Start.Byte < bodyRange[0] || mr.End.Byte > bodyRange[1] {
			return fail(i, "missing item range %v is outside the body", mr)
		}
		for k, b := range content.Blocks {
			it := out.Blocks[k]
			if b.TypeRange.Start.Byte != it.name[0] || b.TypeRange.End.Byte != it.name[1] {
				return fail(i, "block %s at %d has the type range %v", it.Name, it.name[0], b.TypeRange)
			}
			if b.DefRange.Start.Byte != it.name[0] || b.DefRange.End.Byte < it.name[1] || b.DefRange.End.Byte > it.header[1] {
				return fail(i, "block %s at %d has the definition range %v", it.Name, it.name[0], b.DefRange)
			}
			if len(b.LabelRanges) != len(it.labels) {
				return fail(i, "block %s has %d label ranges", it.Name, len(b.LabelRanges))
			}
			for j, lr := range b.LabelRanges {
				if lr.Start.Byte != it.labels[j][0] || lr.End.Byte != it.labels[j][1] {
					return fail(i, "label %d of block %s is at %v but has the range %v", j, it.Name, it.labels[j], lr)
				}
			}
			if depth < 2 && len(seq) == 1 && (len(it.Body) > 0 || i == 0 && k == 0) {
				for _, cs := range childSeqs {
					if !nativeSeq(r, src, b.Body, bRef{Items: it.Body}, cs, it.body, depth+1) {
						return false
					}
				}
			}
		}
	}
	return true
}

// bByType compares the blocks picked by type with those there are.
func bByType(blocks hcl.Blocks) string {
	want := map[string]hcl.Blocks{}
	for _, b := range blocks {
		want[b.Type] = append(want[b.Type], b)
	}
	got := blocks.ByType()
	for ty, w := range want {
		for _, g := range []hcl.Blocks{got[ty], blocks.OfType(ty)} {
			same := len(g) == len(w)
			for i := 0; same && i < len(g); i++ {
				same = g[i] == w[i]
			}
			if !same {
				return fmt.Sprintf("%d instead of %d blocks of type %s, or others", len(g), len(w), ty)
			}
		}
	}
	if len(got) != len(want) || len(blocks.OfType("never")) != 0 || len(got["never"]) != 0 {
		return "blocks of types that there are none of"
	}
	return ""
}

func nativeAttrRanges(src string, got hcl.Attributes, want map[string]*bItem) string {
	for name, it := range want {
		a := got[name]
		if a.NameRange.Start.Byte != it.name[0] || a.NameRange.End.Byte != it.name[1] {
			return fmt.Sprintf("attribute %s at %d has the name range %v", name, it.name[0], a.NameRange)
		}
		if a.Range.Start.Byte != it.full[0] || a.Range.End.Byte != it.full[1] {
			return fmt.Sprintf("attribute %s at %v has the range %v", name, it.full, a.Range)
		}
		if !bytes.Equal(a.Expr.Range().SliceBytes([]byte(src)), []byte(it.Val)) {
			return fmt.Sprintf("attribute %s has an expression at %v", name, a.Expr.Range())
		}
	}
	return ""
}

func init() {
	seqs := c11Sequences()
	fw.Register(&fw.Check{
		ID: "C11",
		Suites: []fw.Suite{
			fw.S("sequences", fmt.Sprintf("every body of up to 2 items (thorough 3) out of %d, in %d layouts, with %d sequences of up to 3 extractions", len(c11Items), len(bLayouts), len(seqs)),
				func(t fw.Tier, yield func(nativeCase)) {
					eachSeq(len(c11Items), 0, fw.Pick(t, 2, 3), func(idx []int) {
						for l := range bLayouts {
							yield(nativeCase{c11Pick(idx), l})
						}
					})
				}, func(r *fw.Rec, c nativeCase) { runNative(r, c, seqs) }),
			fw.S("longer", "every body of exactly 3 items (thorough 4) out of 10, in one layout, with 72 single extractions and a partial one followed by each of 6 others",
				func(t fw.Tier, yield func(nativeCase)) {
					n := fw.Pick(t, 3, 4)
					eachSeq(len(c11Items), n, n, func(idx []int) {
						yield(nativeCase{c11Pick(idx), len(idx) % 2})
					})
				}, func(r *fw.Rec, c nativeCase) { runNative(r, c, c11Short) }),
		},
	})
}

var c11Short = func() [][]bOp {
	all := bSchemas([]string{"a", "b"}, map[string][]int{"x": {0, 1, 2}, "y": {0}})
	var ret [][]bOp
	for i, s := range all {
		ret = append(ret, []bOp{{'c', s}})
		if i%6 == 0 {
			ret = append(ret, []bOp{{'p', s}, {'c', all[(i*7+5)%len(all)]}}, []bOp{{'p', s}, {'j', bSchema{}}})
		}
	}
	return ret
}()

func c11Pick(idx []int) []*bItem {
	var items []*bItem
	for _, i := range idx {
		items = append(items, c11Items[i])
	}
	return bClone(items)
}
