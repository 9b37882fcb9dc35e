package checks

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hclpack"
	"verif/mc/fw"
)

// mergeCase is a list of bodies given by indices into mergeParts; Kinds gives
// the kind of each body by its position: n(ative), j(son), p(acked),
// e(xpanded), m(erged with an empty one).
type mergeCase struct {
	Parts []int
	Kinds string
}

var mergeParts = [][]*bItem{
	{},
	{bAttr("a", "#")},
	{bAttr("b", "#")},
	{bAttr("a", "#"), bBlock("x", []string{"l"})},
	{bAttr("b", "#"), bAttr("a", "#")},
	{bBlock("x", []string{"l"}), bBlock("y", nil, bAttr("a", "#"))},
	{bBlock("x", []string{"m"}, bAttr("a", "#")), bAttr("c", "#")},
	{bBlock("y", nil), bBlock("x", []string{"l"}, bAttr("b", "#")), bBlock("y", nil)},
}

func mergePart(items []*bItem, i int, kind byte) (*hcl.File, hcl.Diagnostics) {
	name := fmt.Sprintf("f%d", i)
	src := bNative(items, bLayouts[0])
	switch kind {
	case 'j':
		return json.Parse([]byte(bJSON(items, 2)), name)
	case 'p':
		b, diags := hclpack.PackNativeFile([]byte(src), name, hcl.InitialPos)
		return &hcl.File{Body: b}, diags
	}
	f, diags := hclsyntax.ParseConfig([]byte(src), name, hcl.InitialPos)
	switch kind {
	case 'e':
		return &hcl.File{Body: dynblock.Expand(f.Body, nil)}, diags
	case 'm':
		return &hcl.File{Body: hcl.MergeBodies([]hcl.Body{hcl.EmptyBody(), f.Body})}, diags
	}
	return f, diags
}

// mergings gives ways of merging the files that all mean the same.
func mergings(files []*hcl.File) map[string]hcl.Body {
	var bodies []hcl.Body
	for _, f := range files {
		bodies = append(bodies, f.Body)
	}
	m := func(bs ...hcl.Body) hcl.Body { return hcl.MergeBodies(bs) }
	ret := map[string]hcl.Body{"files": hcl.MergeFiles(files), "bodies": hcl.MergeBodies(bodies)}
	e := hcl.EmptyBody()
	var withEmpty []hcl.Body
	for _, b := range bodies {
		withEmpty = append(withEmpty, e, b, m(), m(e))
	}
	ret["with empty bodies"] = hcl.MergeBodies(withEmpty)
	ret["once more"] = m(m(bodies...))
	switch len(bodies) {
	case 2:
		ret["each alone"] = m(m(bodies[0]), m(bodies[1]))
	case 3:
		ret["(0 1) 2"] = m(m(bodies[0], bodies[1]), bodies[2])
		ret["0 (1 2)"] = m(bodies[0], m(bodies[1], bodies[2]))
	}
	return ret
}

func mergeSeqs() [][]bOp {
	all := bSchemas([]string{"a", "b"}, map[string][]int{"x": {1}, "y": {0}})
	some := []bSchema{all[0], all[4], all[11], all[21], all[35]}
	return bSeqs(all, some, some[1:4])
}

func runMerge(r *fw.Rec, c mergeCase, seqs [][]bOp) {
	var files []*hcl.File
	var parts [][]*bItem
	n := 0
	var show []string
	for i, p := range c.Parts {
		items := bClone(mergeParts[p])
		bNumber(items, &n)
		kind := c.Kinds[i%len(c.Kinds)]
		f, diags := mergePart(items, i, kind)
		if diags.HasErrors() {
			r.Failf("", "part %d: %s", i, diagsStr(diags))
			return
		}
		files = append(files, f)
		parts = append(parts, items)
		show = append(show, fmt.Sprintf("%c%q", kind, bNative(items, bLayouts[0])))
	}
	r.State(show...)
	for how, body := range mergings(files) {
		for _, seq := range seqs {
			if m := mergeSeq(r, body, parts, c, seq); m != "" {
				r.Failf("", "%v merged (%s), %v: %s", show, how, seq, m)
				return
			}
		}
	}
	r.Trace()
}

// wantDiag is an expected error: a text that it has to contain, and the file
// it has to be about, if known.
type wantDiag struct {
	file  string
	texts []string
}

func matchDiags(diags hcl.Diagnostics, want []wantDiag) string {
	if len(diags) != len(want) {
		return fmt.Sprintf("%d diagnostics instead of %d (%v): %s", len(diags), len(want), want, diagsStr(diags))
	}
	used := make([]bool, len(want))
	var match func(i int) bool
	match = func(i int) bool {
		if i == len(diags) {
			return true
		}
		d := diags[i]
	next:
		for j, w := range want {
			if used[j] || d.Severity != hcl.DiagError || w.file != "" && (d.Subject == nil || d.Subject.Filename != w.file) {
				continue
			}
			for _, t := range w.texts {
				if !strings.Contains(d.Summary+" "+d.Detail, t) {
					continue next
				}
			}
			used[j] = true
			if match(i + 1) {
				return true
			}
			used[j] = false
		}
		return false
	}
	if !match(0) {
		return fmt.Sprintf("diagnostics %s instead of errors about %v", diagsStr(diags), want)
	}
	return ""
}

func mergeSeq(r *fw.Rec, body hcl.Body, parts [][]*bItem, c mergeCase, seq []bOp) string {
	hidA, hidB := map[string]bool{}, map[string]bool{}
	for _, op := range seq {
		r.Op(1)
		if body == nil {
			return "nil body"
		}
		attrs := map[string]*bItem{}
		var blocks []*bItem
		var want []wantDiag
		dups := map[string][]string{}
		skip := false
		wantAttr := func(name string) bool {
			if op.Kind == 'j' {
				return true
			}
			for _, a := range op.S.Attrs {
				if a.Name == name {
					return true
				}
			}
			return false
		}
		wantBlock := func(name string) bool {
			for _, b := range op.S.Blocks {
				if b.Type == name {
					return true
				}
			}
			return false
		}
		for i, items := range parts {
			file := fmt.Sprintf("f%d", i)
			blockSeen := false
			for _, it := range items {
				switch {
				case !it.Blk && hidA[it.Name] || it.Blk && hidB[it.Name]:
				case !it.Blk && wantAttr(it.Name):
					if attrs[it.Name] == nil {
						attrs[it.Name] = it
					} else {
						dups[it.Name] = append(dups[it.Name], file)
					}
				case it.Blk && op.Kind == 'j':
					skip = skip || c.Kinds[i%len(c.Kinds)] == 'j'
					if !blockSeen || c.Kinds[i%len(c.Kinds)] == 'p' {
						want = append(want, wantDiag{file, []string{"lock"}})
					}
					blockSeen = true
				case it.Blk && wantBlock(it.Name):
					blocks = append(blocks, it)
				case op.Kind == 'c':
					want = append(want, wantDiag{file, []string{fmt.Sprintf("%q", it.Name)}})
				}
			}
		}
		for _, a := range op.S.Attrs {
			if a.Required && attrs[a.Name] == nil {
				want = append(want, wantDiag{"", []string{fmt.Sprintf("%q", a.Name)}})
			}
		}
		var got hcl.Attributes
		var gotBlocks hcl.Blocks
		var diags hcl.Diagnostics
		switch op.Kind {
		case 'j':
			got, diags = body.JustAttributes()
		case 'c':
			var content *hcl.BodyContent
			content, diags = body.Content(op.S.hcl())
			got, gotBlocks = content.Attributes, content.Blocks
		case 'p':
			var content *hcl.BodyContent
			content, body, diags = body.PartialContent(op.S.hcl())
			got, gotBlocks = content.Attributes, content.Blocks
			for _, a := range op.S.Attrs {
				hidA[a.Name] = true
			}
			for _, b := range op.S.Blocks {
				hidB[b.Type] = true
			}
		}
		if skip {
			continue // JSON blocks can be taken as attributes
		}
		if m := bAttrsMatch(got, attrs); m != "" {
			return m
		}
		if m := bHeadersMatch(gotBlocks, blocks); m != "" {
			return m
		}
		for name, in := range dups {
			for _, file := range in {
				want = append(want, wantDiag{file, []string{fmt.Sprintf("%q", name), got[name].NameRange.String()}})
			}
		}
		if m := matchDiags(diags, want); m != "" {
			return m
		}
		for i, b := range gotBlocks {
			a, d := b.Body.JustAttributes()
			ref := bRef{Items: blocks[i].Body}
			w, _ := ref.just()
			if m := bAttrsMatch(a, w.Attrs); m != "" || d.HasErrors() {
				return fmt.Sprintf("in block %d: %s %s", i, m, diagsStr(d))
			}
		}
	}
	return ""
}

func init() {
	seqs := mergeSeqs()
	kinds := []string{"n", "j", "nj", "jn", "pne", "mje", "enp"}
	fw.Register(&fw.Check{
		ID: "C13",
		Suites: []fw.Suite{
			fw.S("merge", fmt.Sprintf("every list of up to 2 bodies (thorough 3) out of %d in %d combinations of kinds, merged in up to 6 ways, with %d sequences of up to 3 extractions", len(mergeParts), len(kinds), len(seqs)),
				func(t fw.Tier, yield func(mergeCase)) {
					eachSeq(len(mergeParts), 0, fw.Pick(t, 2, 3), func(idx []int) {
						for _, k := range kinds {
							yield(mergeCase{append([]int{}, idx...), k})
						}
					})
				}, func(r *fw.Rec, c mergeCase) { runMerge(r, c, seqs) }),
			fw.S("three", "every list of 3 bodies (thorough 4, of the first 6) out of 8 in 7 combinations of kinds, with 36 single extractions and 4 longer sequences",
				func(t fw.Tier, yield func(mergeCase)) {
					n := fw.Pick(t, 3, 4)
					eachSeq(fw.Pick(t, len(mergeParts), 6), n, n, func(idx []int) {
						for _, k := range kinds {
							yield(mergeCase{append([]int{}, idx...), k})
						}
					})
				}, func(r *fw.Rec, c mergeCase) { runMerge(r, c, mergeShort) }),
		},
	})
}

var mergeShort = func() [][]bOp {
	var ret [][]bOp
	all := bSchemas([]string{"a", "b"}, map[string][]int{"x": {1}, "y": {0}})
	for i, s := range all {
		ret = append(ret, []bOp{{'c', s}})
		if i%9 == 4 {
			ret = append(ret, []bOp{{'p', s}, {'c', all[(i*5+3)%len(all)]}})
		}
	}
	return append(ret, []bOp{{'j', bSchema{}}})
}()
