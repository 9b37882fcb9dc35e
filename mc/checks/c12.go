package checks

import (
	encjson "encoding/json"
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/include"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/hcltest"
	"verif/mc/fw"
)

// bodyKind builds a body with given items. Kinds that contain JSON cannot tell
// attributes from blocks, nor count labels, without a schema.
type bodyKind struct {
	Name  string
	JSON  bool
	Array bool // JSON arrays are not usable for extracting all attributes
	Make  func(items []*bItem) (hcl.Body, string)
}

func kNative(items []*bItem) (hcl.Body, string) {
	f, diags := hclsyntax.ParseConfig([]byte(bNative(items, bLayouts[0])), "t.hcl", hcl.InitialPos)
	if diags.HasErrors() {
		return nil, diagsStr(diags)
	}
	return f.Body, ""
}

func kJSON(form int) func(items []*bItem) (hcl.Body, string) {
	return func(items []*bItem) (hcl.Body, string) {
		f, diags := json.Parse([]byte(bJSON(items, form)), "t.json")
		if diags.HasErrors() {
			return nil, diagsStr(diags)
		}
		return f.Body, ""
	}
}

func kPacked(transport bool) func(items []*bItem) (hcl.Body, string) {
	return func(items []*bItem) (hcl.Body, string) {
		b, diags := hclpack.PackNativeFile([]byte(bNative(items, bLayouts[0])), "t.hcl", hcl.InitialPos)
		if diags.HasErrors() {
			return nil, diagsStr(diags)
		}
		if !transport {
			return b, ""
		}
		buf, err := encjson.Marshal(b)
		if err != nil {
			return nil, err.Error()
		}
		var u hclpack.Body
		if err := encjson.Unmarshal(buf, &u); err != nil {
			return nil, err.Error()
		}
		return &u, ""
	}
}

func kMock(items []*bItem) (hcl.Body, string) {
	c := &hcl.BodyContent{Attributes: map[string]*hcl.Attribute{}}
	for _, it := range items {
		if it.Blk {
			b, _ := kMock(it.Body)
			c.Blocks = append(c.Blocks, &hcl.Block{Type: it.Name, Labels: it.Labels, Body: b})
		} else {
			c.Attributes[it.Name] = &hcl.Attribute{Name: it.Name, Expr: hcltest.MockExprLiteral(bVal(it))}
		}
	}
	return hcltest.MockBody(c), ""
}

type bodyMaker func(items []*bItem) (hcl.Body, string)

// kSplit merges two bodies made of the items before and after a split.
func kSplit(at func(n int) int, f, g bodyMaker) bodyMaker {
	return func(items []*bItem) (hcl.Body, string) {
		k := at(len(items))
		a, m := f(items[:k])
		if m != "" {
			return nil, m
		}
		b, m := g(items[k:])
		if m != "" {
			return nil, m
		}
		return hcl.MergeBodies([]hcl.Body{a, b}), ""
	}
}

func kWrap(f bodyMaker, wrap func(hcl.Body) hcl.Body) bodyMaker {
	return func(items []*bItem) (hcl.Body, string) {
		b, m := f(items)
		if m != "" {
			return nil, m
		}
		return wrap(b), ""
	}
}

func wExpand(b hcl.Body) hcl.Body { return dynblock.Expand(b, nil) }

func wDeep(b hcl.Body) hcl.Body {
	return transform.Deep(b, transform.TransformerFunc(func(b hcl.Body) hcl.Body { return b }))
}

func wWarn(b hcl.Body) hcl.Body {
	return transform.BodyWithDiagnostics(b, hcl.Diagnostics{{Severity: hcl.DiagWarning, Summary: "w"}})
}

func wInclude(b hcl.Body) hcl.Body {
	return transform.Deep(b, include.Transformer("include", nil, include.MapResolver(nil)))
}

func half(n int) int { return n / 2 }
func one(n int) int  { return (n + 1) / 2 }
func zero(n int) int { return 0 }
func full(n int) int { return n }

var bodyKinds = []bodyKind{
	{"native", false, false, kNative},
	{"json", true, false, kJSON(0)},
	{"json array", true, true, kJSON(1)},
	{"json grouped", true, false, kJSON(2)},
	{"json nested arrays", true, false, kJSON(3)},
	{"packed", false, false, kPacked(false)},
	{"packed and transported", false, false, kPacked(true)},
	{"mock", false, false, kMock},
	{"merged native", false, false, kSplit(half, kNative, kNative)},
	{"merged with empty", false, false, kSplit(full, kNative, func([]*bItem) (hcl.Body, string) { return hcl.EmptyBody(), "" })},
	{"merged native and json", true, false, kSplit(one, kNative, kJSON(2))},
	{"merged mock and packed", false, false, kSplit(half, kMock, kPacked(true))},
	{"merged empty and merged", false, false, kSplit(zero, kNative, kSplit(one, kNative, kNative))},
	{"expanded native", false, false, kWrap(kNative, wExpand)},
	{"expanded json", true, false, kWrap(kJSON(2), wExpand)},
	{"expanded twice", false, false, kWrap(kWrap(kNative, wExpand), wExpand)},
	{"expanded merged", false, false, kWrap(kSplit(half, kNative, kNative), wExpand)},
	{"expanded mock", false, false, kWrap(kMock, wExpand)},
	{"expanded packed", false, false, kWrap(kPacked(true), wExpand)},
	{"merged expanded", false, false, kSplit(one, kWrap(kNative, wExpand), kWrap(kMock, wExpand))},
	{"transformed native", false, false, kWrap(kNative, wDeep)},
	{"transformed json", true, false, kWrap(kJSON(0), wDeep)},
	{"transformed expanded", false, false, kWrap(kWrap(kNative, wExpand), wDeep)},
	{"expanded transformed", false, false, kWrap(kWrap(kNative, wDeep), wExpand)},
	{"with a warning", false, false, kWrap(kNative, wWarn)},
	{"merged with warnings", false, false, kSplit(half, kWrap(kMock, wWarn), kWrap(kNative, wWarn))},
	{"including nothing", false, false, kWrap(kNative, wInclude)},
}

var c12Items = []*bItem{
	bAttr("a", "#"), bAttr("b", "#"),
	bBlock("x", []string{"l"}), bBlock("x", []string{"m"}, bAttr("a", "#")), bBlock("x", []string{"l"}, bAttr("b", "#"), bBlock("y", nil, bAttr("a", "#"))),
	bBlock("y", nil), bBlock("y", nil, bAttr("a", "#"), bBlock("x", []string{"q"}, bAttr("b", "#"))),
	bBlock("z", []string{"l", "m"}, bAttr("a", "#")), bBlock("z", []string{"l", "n"}), bBlock("z", []string{"m", "m"}, bBlock("y", nil)),
}

// labelOK are items with labels that differ from the above; not for JSON.
var c12BadItems = []*bItem{
	bAttr("a", "#"), bBlock("x", nil), bBlock("x", []string{"l"}), bBlock("x", []string{"l", "m"}), bBlock("y", nil), bBlock("y", []string{"k"}, bAttr("a", "#")),
}

type kindCase struct {
	Kind  int
	Items []*bItem
	Long  bool // use all sequences
}

// hasDup is whether an attribute is repeated somewhere.
func hasDup(items []*bItem) bool {
	seen := map[string]bool{}
	for _, it := range items {
		if it.Blk {
			if hasDup(it.Body) {
				return true
			}
		} else if seen[it.Name] {
			return true
		}
		seen[it.Name] = !it.Blk
	}
	return false
}

func runKind(r *fw.Rec, c kindCase, seqs, child [][]bOp) {
	kind := bodyKinds[c.Kind]
	items := bClone(c.Items)
	n := 0
	bNumber(items, &n)
	r.State(kind.Name, bNative(items, bLayouts[0]))
	body, m := kind.Make(items)
	if m != "" {
		r.Failf("make", "%s body of %q: %s", kind.Name, bNative(items, bLayouts[0]), m)
		return
	}
	k := &kindRun{r: r, kind: kind, items: items, child: child}
	ref := bRef{Items: items}
	for _, seq := range seqs {
		if !k.seq(body, ref, seq, nil, 0) {
			return
		}
	}
	// The first sequence again: nothing done in between may have changed it.
	for _, seq := range seqs[:1] {
		if !k.seq(body, ref, seq, nil, 0) {
			return
		}
	}
	r.Trace()
}

type kindRun struct {
	r     *fw.Rec
	kind  bodyKind
	items []*bItem
	child [][]bOp
}

func (k *kindRun) seq(body hcl.Body, ref bRef, seq []bOp, path []string, depth int) bool {
	fail := func(i int, format string, args ...interface{}) bool {
		k.r.Failf("kind "+k.kind.Name, "%s body of %q, %s%v: %s", k.kind.Name, bNative(k.items, bLayouts[0]), strings.Join(path, ""), seq[:i+1], fmt.Sprintf(format, args...))
		return false
	}
	for i, op := range seq {
		k.r.Op(1)
		if body == nil {
			return fail(i-1, "nil body")
		}
		if op.Kind == 'j' {
			want, blocks := ref.just()
			if k.kind.JSON && blocks || k.kind.Array {
				continue
			}
			attrs, diags := body.JustAttributes()
			if m := bAttrsMatch(attrs, want.Attrs); m != "" {
				return fail(i, "%s", m)
			}
			if diags.HasErrors() != blocks {
				return fail(i, "there are blocks: %v, but diagnostics: %s", blocks, diagsStr(diags))
			}
			continue
		}
		var content *hcl.BodyContent
		var diags hcl.Diagnostics
		var out bOut
		before := body
		if op.Kind == 'c' {
			content, diags = body.Content(op.S.hcl())
			out = ref.content(op.S)
		} else {
			content, body, diags = body.PartialContent(op.S.hcl())
			out, ref = ref.partial(op.S)
		}
		if diags.HasErrors() != (len(out.Errs) > 0) {
			return fail(i, "expected errors %s, but diagnostics: %s", bErrsStr(out.Errs), diagsStr(diags))
		}
		if content == nil {
			return fail(i, "nil content")
		}
		if m := bAttrsMatch(content.Attributes, out.Attrs); m != "" {
			return fail(i, "%s", m)
		}
		if out.labelErr() {
			continue
		}
		if m := bHeadersMatch(content.Blocks, out.Blocks); m != "" {
			return fail(i, "%s", m)
		}
		if op.Kind == 'p' && i == 0 && len(seq) == 2 {
			// Extracting does not use anything up.
			again, diags2 := before.Content(op.S.hcl())
			if m := bHeadersMatch(again.Blocks, out.Blocks); m != "" {
				return fail(i, "and again: %s", m)
			}
			if m := bAttrsMatch(again.Attributes, out.Attrs); m != "" {
				return fail(i, "and again: %s", m)
			}
			left := false
			for _, it := range ref.Items {
				left = left || ref.visible(it)
			}
			if diags2.HasErrors() != (left || diags.HasErrors()) {
				return fail(i, "something is left: %v, partial content has errors: %v, content has diagnostics %s", left, diags.HasErrors(), diagsStr(diags2))
			}
		}
		if depth < 2 && (len(seq) == 1 || i == len(seq)-1 && depth == 0) {
			child := k.child
			if len(seq) > 1 && len(child) > 0 {
				child = child[len(child)-3 : len(child)-2]
			}
			for n, b := range content.Blocks {
				for _, cs := range child {
					if !k.seq(b.Body, bRef{Items: out.Blocks[n].Body}, cs, append(path[:len(path):len(path)], fmt.Sprint(seq, " block ", n, ": ")), depth+1) {
						return false
					}
				}
			}
		}
	}
	return true
}

func init() {
	all := bSchemas([]string{"a", "b"}, map[string][]int{"x": {1}, "y": {0}, "z": {2}})
	second := bSchemas([]string{"a"}, map[string][]int{"x": {1}, "y": {0}})
	third := bSchemas([]string{"b"}, map[string][]int{"z": {2}})
	seqs := bSeqs(all, second, third)
	short := bSeqs(all, []bSchema{second[0], second[5], second[11]}, third[2:5])
	child := bSeqs([]bSchema{second[0], second[4], second[7], second[11]}, []bSchema{second[6], second[11]}, nil)
	bad := bSeqs(bSchemas([]string{"a"}, map[string][]int{"x": {0, 1, 2}, "y": {0, 1}}), second, nil)
	fw.Register(&fw.Check{
		ID: "C12",
		Suites: []fw.Suite{
			fw.S("kinds", fmt.Sprintf("every body of up to 2 items (thorough 3) out of %d as each of %d kinds, with %d sequences (thorough, and for one item, %d) of up to 3 extractions, and %d sequences on nested bodies", len(c12Items), len(bodyKinds), len(short), len(seqs), len(child)),
				func(t fw.Tier, yield func(kindCase)) {
					eachSeq(len(c12Items), 0, fw.Pick(t, 2, 3), func(idx []int) {
						c12Yield(c12Items, idx, false, func(c kindCase) {
							c.Long = len(idx) < 2 || t == fw.Thorough
							yield(c)
						})
					})
				}, func(r *fw.Rec, c kindCase) {
					if c.Long {
						runKind(r, c, seqs, child)
					} else {
						runKind(r, c, short, child)
					}
				}),
			fw.S("labels", fmt.Sprintf("every body of up to 3 items (thorough 4) out of %d with wrong numbers of labels as each kind that has them, with %d sequences", len(c12BadItems), len(bad)),
				func(t fw.Tier, yield func(kindCase)) {
					eachSeq(len(c12BadItems), 0, fw.Pick(t, 3, 4), func(idx []int) { c12Yield(c12BadItems, idx, true, yield) })
				}, func(r *fw.Rec, c kindCase) { runKind(r, c, bad, nil) }),
		},
	})
}

func c12Yield(from []*bItem, idx []int, noJSON bool, yield func(kindCase)) {
	var items []*bItem
	for _, i := range idx {
		items = append(items, from[i])
	}
	if hasDup(items) {
		return
	}
	for k, kind := range bodyKinds {
		if !noJSON || !kind.JSON {
			yield(kindCase{Kind: k, Items: bClone(items)})
		}
	}
}
