package checks

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcled"
	"github.com/hashicorp/hcl2/hclpack"
	"verif/mc/fw"
)

// lItem is an item of a source whose place is known as it is written.
type lItem struct {
	Pre    string   `json:",omitempty"` // text before it
	Name   string   // of the attribute, or the block type
	Expr   string   `json:",omitempty"` // of an attribute
	Labels []string `json:",omitempty"` // as written
	Block  bool     `json:",omitempty"`
	Flat   bool     `json:",omitempty"` // block in a single line
	Body   []*lItem `json:",omitempty"`
	Post   string   `json:",omitempty"` // text after it, before the line break

	start, end, defEnd, brace, exprStart int
	labels                               [][2]int
}

func (it *lItem) write(b *strings.Builder) {
	b.WriteString(it.Pre)
	it.start = b.Len()
	b.WriteString(it.Name)
	it.defEnd = b.Len()
	it.labels = nil
	if !it.Block {
		b.WriteString(" = ")
		it.exprStart = b.Len()
		b.WriteString(it.Expr)
		it.end = b.Len()
		if strings.HasSuffix(it.Expr, "\n") {
			it.end--
			b.WriteString(it.Post)
			return
		}
	} else {
		for _, l := range it.Labels {
			b.WriteString(" ")
			s := b.Len()
			b.WriteString(l)
			it.labels = append(it.labels, [2]int{s, b.Len()})
			it.defEnd = b.Len()
		}
		b.WriteString(" {")
		it.brace = b.Len()
		if !it.Flat {
			b.WriteString("\n")
			for _, s := range it.Body {
				s.write(b)
			}
		} else if len(it.Body) > 0 {
			s := it.Body[0]
			s.Pre = " "
			s.start = b.Len() + 1
			b.WriteString(" " + s.Name + " = ")
			s.exprStart = b.Len()
			b.WriteString(s.Expr)
			s.end = b.Len()
			b.WriteString(" ")
		}
		b.WriteString("}")
		it.end = b.Len()
	}
	b.WriteString(it.Post)
	b.WriteString("\n")
}

func lAt(items []*lItem, ofs int) (blocks []*lItem, attr *lItem) {
	for _, it := range items {
		if ofs < it.start || ofs >= it.end {
			continue
		}
		if !it.Block {
			return nil, it
		}
		sub, attr := lAt(it.Body, ofs)
		return append([]*lItem{it}, sub...), attr
	}
	return nil, nil
}

func lLabel(l string) string { return strings.Trim(l, `"`) }

// badBlock says how a block found differs from the one written.
func badBlock(got *hcl.Block, want *lItem) string {
	if got == nil {
		return "none"
	}
	var labels []string
	for _, l := range want.Labels {
		labels = append(labels, lLabel(l))
	}
	if got.Type != want.Name || strings.Join(got.Labels, ",") != strings.Join(labels, ",") {
		return fmt.Sprintf("%s %v", got.Type, got.Labels)
	}
	if got.TypeRange.Start.Byte != want.start || got.TypeRange.End.Byte != want.start+len(want.Name) {
		return fmt.Sprintf("%s with type at %v", got.Type, got.TypeRange)
	}
	if got.DefRange.Start.Byte != want.start || got.DefRange.End.Byte != want.defEnd {
		return fmt.Sprintf("%s defined at %v", got.Type, got.DefRange)
	}
	if len(got.LabelRanges) != len(want.labels) {
		return fmt.Sprintf("%s with %d label ranges", got.Type, len(got.LabelRanges))
	}
	for i, r := range got.LabelRanges {
		if r.Start.Byte != want.labels[i][0] || r.End.Byte != want.labels[i][1] {
			return fmt.Sprintf("%s with label at %v", got.Type, r)
		}
	}
	if got.Body == nil {
		return got.Type + " without body"
	}
	// The body is that of the block written.
	hb, ok := got.Body.(*hclsyntax.Body)
	if ok && (hb.SrcRange.Start.Byte < want.defEnd || hb.SrcRange.End.Byte > want.end) {
		return fmt.Sprintf("%s with body at %v", got.Type, hb.SrcRange)
	}
	if ok {
		n := 0
		for _, it := range want.Body {
			if it.Block {
				n++
			}
		}
		if len(hb.Blocks) != n || len(hb.Attributes) != len(want.Body)-n {
			return fmt.Sprintf("%s with another body", got.Type)
		}
	}
	return ""
}

func runAtPos(r *fw.Rec, items []*lItem) {
	var b strings.Builder
	for _, it := range items {
		it.write(&b)
	}
	src := b.String()
	r.State(src)
	f, diags := hclsyntax.ParseConfig([]byte(src), "f", hcl.Pos{Line: 1, Column: 1})
	if diags.HasErrors() {
		r.Failf("parse", "%s\n%s", src, diagsStr(diags))
		return
	}
	for ofs := -1; ofs <= len(src)+1; ofs++ {
		r.Op(1)
		r.Trace()
		pos := hcl.Pos{Byte: ofs, Line: 1, Column: 1}
		if ofs >= 0 && ofs <= len(src) {
			pos = advance(hcl.Pos{Line: 1, Column: 1}, []byte(src[:ofs]))
		}
		where := fmt.Sprintf("%s\nat offset %d", src, ofs)
		blocks, attr := lAt(items, ofs)
		got := f.BlocksAtPos(pos)
		if len(got) != len(blocks) {
			r.Failf("blocks", "%s: %d blocks instead of %d", where, len(got), len(blocks))
			continue
		}
		for i, want := range blocks {
			if m := badBlock(got[i], want); m != "" {
				r.Failf("block", "%s: block %d is %s instead of %s", where, i, m, want.Name)
			}
		}
		inner, outer := f.InnermostBlockAtPos(pos), f.OutermostBlockAtPos(pos)
		if len(blocks) == 0 {
			if inner != nil || outer != nil {
				r.Failf("no-block", "%s: a block where there is none", where)
			}
		} else {
			if m := badBlock(inner, blocks[len(blocks)-1]); m != "" {
				r.Failf("innermost", "%s: the innermost block is %s", where, m)
			}
			if m := badBlock(outer, blocks[0]); m != "" {
				r.Failf("outermost", "%s: the outermost block is %s", where, m)
			}
		}
		ga, ge := f.AttributeAtPos(pos), f.OutermostExprAtPos(pos)
		switch {
		case attr == nil && (ga != nil || ge != nil):
			r.Failf("no-attr", "%s: an attribute or expression where there is none", where)
		case attr != nil && ga == nil:
			r.Failf("attr-none", "%s: no attribute instead of %s", where, attr.Name)
		case attr != nil:
			if ga.Name != attr.Name || ga.NameRange.Start.Byte != attr.start || ga.NameRange.End.Byte != attr.start+len(attr.Name) || ga.Range.Start.Byte != attr.start || ga.Range.End.Byte != attr.end {
				r.Failf("attr", "%s: attribute %s at %v instead of %s from %d to %d", where, ga.Name, ga.Range, attr.Name, attr.start, attr.end)
			}
			if ofs < attr.exprStart {
				if ge != nil {
					r.Failf("no-expr", "%s: an expression where there is none", where)
				}
			} else if ge == nil {
				r.Failf("expr-none", "%s: no expression", where)
			} else if ge != ga.Expr || ge.Range().Start.Byte != attr.exprStart || ge.Range().End.Byte != attr.end {
				r.Failf("expr", "%s: expression at %v instead of from %d to %d", where, ge.Range(), attr.exprStart, attr.end)
			}
		}
		want := ""
		if len(blocks) > 0 {
			want = blocks[0].Name
			for _, l := range blocks[0].Labels {
				want += ` "` + lLabel(l) + `"`
			}
		}
		if s := hcled.ContextString(f, ofs); s != want {
			r.Failf("context", "%s: the context is %q instead of %q", where, s, want)
		}
		rng := hcled.ContextDefRange(f, ofs)
		if len(blocks) > 0 {
			if rng.Start.Byte != blocks[0].start || rng.End.Byte < blocks[0].defEnd || rng.End.Byte > blocks[0].brace {
				r.Failf("context-range", "%s: the context is defined at %v", where, rng)
			}
		} else if rng != f.Body.MissingItemRange() {
			r.Failf("context-none", "%s: the context is defined at %v, where there is none", where, rng)
		}
	}
}

// jContext is the path to the innermost container, as shown to users.
func jContext(n jNode, ofs int) string {
	for i, v := range n.vals {
		if v.kind != 'o' && v.kind != 'a' || ofs < v.start || ofs >= v.end {
			continue
		}
		step := fmt.Sprintf("[%d]", i)
		if n.kind == 'o' {
			step = "." + n.keys[i].str
		}
		return step + jContext(v, ofs)
	}
	return ""
}

func lAlphabet(t fw.Tier, depth int) []*lItem {
	ret := []*lItem{
		{Name: "a", Expr: "1"},
		{Name: "b", Expr: "foo(1, [2])", Pre: "  ", Post: " # c"},
		{Name: "c", Expr: "{\n  k = \"é\"\n}", Pre: "# c\n"},
		{Name: "x", Block: true, Flat: true},
		{Name: "y", Block: true, Flat: true, Labels: []string{`"l"`}, Body: []*lItem{{Name: "a", Expr: "2"}}},
		{Name: "x", Block: true, Pre: "\n\n"},
	}
	if depth < 2 {
		ret = append(ret,
			&lItem{Name: "h", Expr: "<<E\n  é\nE\n"},
			&lItem{Name: "é", Expr: "a ? -b : c.d", Pre: "/* c */ "},
			&lItem{Name: "d", Expr: `"t${x}é"`},
		)
	}
	if depth > 0 {
		var subs [][]*lItem
		sub := lAlphabet(t, depth-1)
		subs = append(subs, nil)
		for _, s := range sub {
			subs = append(subs, []*lItem{s})
		}
		if t == fw.Thorough || depth == 1 {
			for i, s := range sub {
				for j, u := range sub {
					if !(s.Name == u.Name && !s.Block) && (t == fw.Thorough && depth == 1 || (i+j)%3 == 0) {
						subs = append(subs, []*lItem{s, u})
					}
				}
			}
		}
		for i, body := range subs {
			ls := [][]string{nil, {`"l"`}, {"l", `"m n"`}}[i%3]
			ret = append(ret, &lItem{Name: []string{"x", "blk"}[i%2], Block: true, Labels: ls, Body: body, Pre: []string{"", " "}[i%2], Post: []string{"", "", " // c"}[i%3]})
		}
	}
	return ret
}

func init() {
	fw.Register(&fw.Check{
		ID: "C33",
		Assumptions: []string{
			"how labels with characters that need escaping are shown in a context description is not judged",
		},
		Suites: []fw.Suite{
			fw.S("native", "every offset, and those just outside, of all sequences of at most two (thorough: three) items, blocks nesting to depth two", func(t fw.Tier, yield func([]*lItem)) {
				emit := func(alpha []*lItem, min, max int) {
					eachSeq(len(alpha), min, max, func(ix []int) {
						seen := map[string]bool{}
						var items []*lItem
						for _, i := range ix {
							it := alpha[i]
							if !it.Block && seen[it.Name] {
								return
							}
							seen[it.Name] = true
							items = append(items, lClone(it))
						}
						yield(items)
					})
				}
				emit(lAlphabet(t, 2), 0, 1)
				emit(lAlphabet(fw.Quick, 1), 2, 2)
				emit(lAlphabet(fw.Quick, 2), 2, 2)
				if t == fw.Thorough {
					emit(lAlphabet(t, 1), 3, 3)
				} else {
					emit(lAlphabet(fw.Quick, 0), 3, 3)
				}
			}, runAtPos),
			fw.S("json", "every offset of all JSON documents of the alphabet", func(t fw.Tier, yield func(fw.StrCase)) {
				leaves := []string{"1", `"s"`, "null", "{}", "[]", " [ ] ", "{ }"}
				wrap := func(vs []string, pairs bool) []string {
					var ret []string
					for _, v := range vs {
						ret = append(ret, "["+v+"]", `{"a":`+v+`}`, ` { "é" : `+v+" } ")
					}
					if pairs {
						for _, v := range vs {
							for _, w := range vs {
								ret = append(ret, "["+v+", "+w+"]", `{"a":`+v+`,"b":`+w+`}`, "[{\"a\":"+v+"},"+w+"]")
							}
						}
					}
					return ret
				}
				l1 := append(wrap(leaves, true), leaves...)
				some := l1
				if t == fw.Quick {
					some = append(wrap(leaves, false), leaves...)
				}
				for _, l := range [][]string{leaves, l1, wrap(some, true)} {
					for _, s := range l {
						if s = strings.TrimLeft(s, " "); s[0] == '{' || s[0] == '[' {
							yield(fw.StrCase("\n" + s))
						}
					}
				}
				for _, v := range wrap(wrap(leaves, false), false) {
					yield(fw.StrCase(`{"x":{"l":` + v + `}}`))
				}
			}, func(r *fw.Rec, c fw.StrCase) {
				r.State(string(c))
				f, diags := json.Parse(c, "f.json")
				if diags.HasErrors() {
					return // the root must be an object or a list of objects
				}
				root := readJSON(c)
				for ofs := -1; ofs <= len(c)+1; ofs++ {
					r.Op(1)
					r.Trace()
					want := ""
					if ofs >= root.start && ofs < root.end {
						want = strings.TrimPrefix(jContext(root, ofs), ".")
					}
					if s := hcled.ContextString(f, ofs); s != want {
						r.Failf("json-context", "%s at %d: the context is %q instead of %q", c, ofs, s, want)
					}
					hcled.ContextDefRange(f, ofs)
					pos := hcl.Pos{Byte: ofs, Line: 1, Column: 1}
					if f.BlocksAtPos(pos) != nil || f.InnermostBlockAtPos(pos) != nil || f.OutermostBlockAtPos(pos) != nil || f.AttributeAtPos(pos) != nil || f.OutermostExprAtPos(pos) != nil {
						r.Failf("json-at", "%s at %d: something is found although JSON has no fixed structure", c, ofs)
					}
				}
			}),
			fw.S("malformed", "every offset of all token strings of at most five (thorough: six) tokens, valid or not, and of packed files: no crash, and the nesting lists agree", func(t fw.Tier, yield func(fw.StrCase)) {
				eachString([]string{"a ", "x ", "{ ", "} ", "= ", "1 ", "\"l\" ", "\n", "[", "(", "<<E\n"}, 0, fw.Pick(t, 5, 6), func(s string) { yield(fw.StrCase(s)) })
			}, func(r *fw.Rec, c fw.StrCase) {
				r.State(string(c))
				f, diags := hclsyntax.ParseConfig(c, "f", hcl.Pos{Line: 1, Column: 1})
				if f == nil {
					return
				}
				files := []*hcl.File{f}
				if !diags.HasErrors() {
					if pb, ds := hclpack.PackNativeFile(c, "f", hcl.Pos{Line: 1, Column: 1}); !ds.HasErrors() {
						files = append(files, &hcl.File{Body: pb, Bytes: c})
					}
				}
				if jf, _ := json.Parse(c, "f.json"); jf != nil {
					files = append(files, jf)
				}
				for _, f := range files {
					for ofs := -1; ofs <= len(c)+1; ofs++ {
						r.Op(1)
						pos := hcl.Pos{Byte: ofs, Line: 1, Column: 1}
						l, in, out := f.BlocksAtPos(pos), f.InnermostBlockAtPos(pos), f.OutermostBlockAtPos(pos)
						f.AttributeAtPos(pos)
						f.OutermostExprAtPos(pos)
						hcled.ContextString(f, ofs)
						hcled.ContextDefRange(f, ofs)
						if len(l) == 0 != (in == nil) || len(l) == 0 != (out == nil) || len(l) > 0 && (l[0].TypeRange != out.TypeRange || l[len(l)-1].TypeRange != in.TypeRange) {
							r.Failf("agree", "%s at %d: the blocks found, the innermost and the outermost disagree", c, ofs)
						}
					}
				}
			}),
		},
	})
}

func lClone(it *lItem) *lItem {
	c := *it
	c.Body = nil
	for _, s := range it.Body {
		c.Body = append(c.Body, lClone(s))
	}
	return &c
}
