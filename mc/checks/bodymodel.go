package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/zclconf/go-cty/cty"
)

// bItem is an attribute or a block of a body model. Val is the literal source
// of an attribute's value; it has to mean the same in native syntax and JSON.
type bItem struct {
	Blk    bool     `json:",omitempty"`
	Name   string   `json:",omitempty"`
	Val    string   `json:",omitempty"`
	Labels []string `json:",omitempty"`
	Body   []*bItem `json:",omitempty"`

	// Offsets in the printed source.
	name   [2]int
	header [2]int // name, or type up to the open brace
	full   [2]int
	body   [2]int
	labels [][2]int
}

func bAttr(name, val string) *bItem { return &bItem{Name: name, Val: val} }

func bBlock(name string, labels []string, body ...*bItem) *bItem {
	return &bItem{Blk: true, Name: name, Labels: labels, Body: body}
}

// bClone copies the items so that each occurrence has its own offsets.
func bClone(items []*bItem) []*bItem {
	var ret []*bItem
	for _, it := range items {
		c := *it
		c.Body = bClone(it.Body)
		ret = append(ret, &c)
	}
	return ret
}

// bNumber makes the values of the attributes distinct.
func bNumber(items []*bItem, n *int) {
	for _, it := range items {
		if it.Blk {
			bNumber(it.Body, n)
		} else if it.Val == "#" {
			*n++
			it.Val = fmt.Sprint(*n)
		}
	}
}

// bLayout is a way of writing a body in native syntax.
type bLayout struct {
	NL      string // line break
	Comment bool   // comments between the items
	OneLine bool   // blocks with at most one attribute on one line
	Ident   bool   // labels written as identifiers
	NoFinal bool   // no line break at the end of the file
	Indent  string
}

var bLayouts = []bLayout{
	{NL: "\n", Indent: "  "},
	{NL: "\r\n", Comment: true, NoFinal: true},
	{NL: "\n", OneLine: true, Ident: true, Indent: "\t"},
	{NL: "\n", Comment: true, OneLine: true, Ident: true, NoFinal: true, Indent: " "},
}

func bNative(items []*bItem, l bLayout) string {
	var b strings.Builder
	bNativeTo(&b, items, l, "")
	s := b.String()
	if l.NoFinal {
		s = strings.TrimSuffix(s, l.NL)
	}
	return s
}

func bNativeTo(b *strings.Builder, items []*bItem, l bLayout, indent string) {
	for i, it := range items {
		if l.Comment {
			switch i % 3 {
			case 0:
				b.WriteString(indent + "# x = 1" + l.NL)
			case 1:
				b.WriteString(l.NL + indent + "/* a { } */ ")
			}
		}
		b.WriteString(indent)
		it.full[0] = b.Len()
		it.name = [2]int{b.Len(), b.Len() + len(it.Name)}
		it.header = it.name
		b.WriteString(it.Name)
		if !it.Blk {
			b.WriteString(" = " + it.Val)
		} else {
			it.labels = nil
			for _, lb := range it.Labels {
				b.WriteString(" ")
				s := b.Len()
				if l.Ident && isIdent(lb) {
					b.WriteString(lb)
				} else {
					b.WriteString(fmt.Sprintf("%q", lb))
				}
				it.labels = append(it.labels, [2]int{s, b.Len()})
			}
			b.WriteString(" {")
			it.header[1] = b.Len()
			it.body[0] = b.Len() - 1
			if l.OneLine && len(it.Body) <= 1 && (len(it.Body) == 0 || !it.Body[0].Blk) {
				for _, a := range it.Body {
					b.WriteString(" ")
					a.full[0] = b.Len()
					a.name = [2]int{b.Len(), b.Len() + len(a.Name)}
					a.header = a.name
					b.WriteString(a.Name + " = " + a.Val)
					a.full[1] = b.Len()
					b.WriteString(" ")
				}
			} else {
				b.WriteString(l.NL)
				bNativeTo(b, it.Body, l, indent+l.Indent)
				b.WriteString(indent)
			}
			b.WriteString("}")
			it.body[1] = b.Len()
		}
		it.full[1] = b.Len()
		if l.Comment && i%3 == 2 {
			b.WriteString(" // b = 2")
		}
		b.WriteString(l.NL)
	}
}

func isIdent(s string) bool {
	for i, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && (c >= '0' && c <= '9' || c == '-')) {
			return false
		}
	}
	return s != ""
}

// bJSON writes a body as JSON in one of several forms.
//
//	0  one object with one property for each item, names repeated as needed
//	1  an array of objects with one property each
//	2  like 0, neighbouring blocks of one type joined, labels nested in objects
//	3  like 2, labels nested in arrays of objects, bodies in arrays, comments
func bJSON(items []*bItem, form int) string {
	var props []string
	for i := 0; i < len(items); {
		it := items[i]
		if !it.Blk {
			props = append(props, fmt.Sprintf("%q: %s", it.Name, it.Val))
			i++
			continue
		}
		j := i + 1
		if form >= 2 {
			for j < len(items) && items[j].Blk && items[j].Name == it.Name && len(items[j].Labels) == len(it.Labels) {
				j++
			}
		}
		props = append(props, fmt.Sprintf("%q: %s", it.Name, bJSONBlocks(items[i:j], 0, form)))
		i = j
	}
	if form == 3 {
		props = append([]string{`"//": "note"`}, props...)
	}
	if form == 1 {
		for i := range props {
			props[i] = "{" + props[i] + "}"
		}
		return "[" + strings.Join(props, ", ") + "]"
	}
	return "{" + strings.Join(props, ", ") + "}"
}

// bJSONBlocks writes blocks of the same type whose first labels are already
// written.
func bJSONBlocks(items []*bItem, label, form int) string {
	if label == len(items[0].Labels) {
		var bodies []string
		for _, it := range items {
			bodies = append(bodies, bJSON(it.Body, form))
		}
		if len(bodies) == 1 && form != 3 && !strings.HasPrefix(bodies[0], "[") {
			return bodies[0]
		}
		return "[" + strings.Join(bodies, ", ") + "]"
	}
	var props []string
	for i := 0; i < len(items); {
		j := i + 1
		for j < len(items) && items[j].Labels[label] == items[i].Labels[label] {
			j++
		}
		props = append(props, fmt.Sprintf("%q: %s", items[i].Labels[label], bJSONBlocks(items[i:j], label+1, form)))
		i = j
	}
	if form == 3 {
		for i := range props {
			props[i] = "{" + props[i] + "}"
		}
		return "[" + strings.Join(props, ", ") + "]"
	}
	return "{" + strings.Join(props, ", ") + "}"
}

// bSchema is a schema for the model.
type bSchema struct {
	Attrs  []hcl.AttributeSchema
	Blocks []hcl.BlockHeaderSchema
}

func (s bSchema) hcl() *hcl.BodySchema {
	return &hcl.BodySchema{Attributes: s.Attrs, Blocks: s.Blocks}
}

func (s bSchema) String() string {
	var p []string
	for _, a := range s.Attrs {
		if a.Required {
			p = append(p, a.Name+"!")
		} else {
			p = append(p, a.Name)
		}
	}
	for _, b := range s.Blocks {
		p = append(p, fmt.Sprintf("%s%v{}", b.Type, b.LabelNames))
	}
	return "{" + strings.Join(p, " ") + "}"
}

var bLabelNames = []string{"first", "second", "third", "fourth", "fifth"}

// bSchemas gives all schemas with each attribute absent, optional or required
// and each block type absent or with one of the given numbers of labels.
func bSchemas(attrs []string, blocks map[string][]int) []bSchema {
	ret := []bSchema{{}}
	for _, a := range attrs {
		var next []bSchema
		for _, s := range ret {
			next = append(next, s)
			for _, req := range []bool{false, true} {
				next = append(next, bSchema{append(append([]hcl.AttributeSchema{}, s.Attrs...), hcl.AttributeSchema{Name: a, Required: req}), s.Blocks})
			}
		}
		ret = next
	}
	var types []string
	for b := range blocks {
		types = append(types, b)
	}
	sort.Strings(types)
	for _, b := range types {
		var next []bSchema
		for _, s := range ret {
			next = append(next, s)
			for _, n := range blocks[b] {
				next = append(next, bSchema{s.Attrs, append(append([]hcl.BlockHeaderSchema{}, s.Blocks...), hcl.BlockHeaderSchema{Type: b, LabelNames: bLabelNames[:n:n]})})
			}
		}
		ret = next
	}
	return ret
}

// bRef is the reference model of a body: items, of which some names are
// already extracted.
type bRef struct {
	Items []*bItem
	HidA  map[string]bool
	HidB  map[string]bool
}

// bOut is what extracting content gives.
type bOut struct {
	Attrs  map[string]*bItem
	Blocks []*bItem
	Errs   []bErr
}

// bErr is an expected error: about an item, or about a missing attribute.
type bErr struct {
	Item    *bItem
	Missing string
	Labels  bool // wrong number of labels
}

func (o bOut) labelErr() bool {
	for _, e := range o.Errs {
		if e.Labels {
			return true
		}
	}
	return false
}

// visible is whether an item is not extracted yet.
func (b bRef) visible(it *bItem) bool {
	if it.Blk {
		return !b.HidB[it.Name]
	}
	return !b.HidA[it.Name]
}

func (b bRef) partial(s bSchema) (bOut, bRef) {
	out := bOut{Attrs: map[string]*bItem{}}
	rem := bRef{b.Items, map[string]bool{}, map[string]bool{}}
	for k := range b.HidA {
		rem.HidA[k] = true
	}
	for k := range b.HidB {
		rem.HidB[k] = true
	}
	for _, a := range s.Attrs {
		for _, it := range b.Items {
			if !it.Blk && it.Name == a.Name && b.visible(it) && out.Attrs[a.Name] == nil {
				out.Attrs[a.Name] = it
			}
		}
		if out.Attrs[a.Name] == nil && a.Required {
			out.Errs = append(out.Errs, bErr{Missing: a.Name})
		}
		rem.HidA[a.Name] = true
	}
	for _, it := range b.Items {
		for _, bs := range s.Blocks {
			if it.Blk && it.Name == bs.Type && b.visible(it) {
				if len(it.Labels) != len(bs.LabelNames) {
					out.Errs = append(out.Errs, bErr{Item: it, Labels: true})
				} else {
					out.Blocks = append(out.Blocks, it)
				}
			}
		}
	}
	for _, bs := range s.Blocks {
		rem.HidB[bs.Type] = true
	}
	return out, rem
}

func (b bRef) content(s bSchema) bOut {
	out, rem := b.partial(s)
	seen := map[string]bool{}
	for _, it := range b.Items {
		if rem.visible(it) && (it.Blk || !seen[it.Name]) {
			out.Errs = append(out.Errs, bErr{Item: it})
			if !it.Blk {
				seen[it.Name] = true
			}
		}
	}
	return out
}

// just is the extraction of all attributes; blocks are an error.
func (b bRef) just() (bOut, bool) {
	out := bOut{Attrs: map[string]*bItem{}}
	blocks := false
	for _, it := range b.Items {
		if !b.visible(it) {
			continue
		}
		if it.Blk {
			blocks = true
		} else if out.Attrs[it.Name] == nil {
			out.Attrs[it.Name] = it
		}
	}
	return out, blocks
}

// bOp is one step of a sequence of extractions.
type bOp struct {
	Kind byte // 'c' content, 'p' partial content, 'j' just attributes
	S    bSchema
}

func (o bOp) String() string {
	switch o.Kind {
	case 'c':
		return "Content" + o.S.String()
	case 'p':
		return "PartialContent" + o.S.String()
	}
	return "JustAttributes"
}

// bVal is the value of an attribute of the model.
func bVal(it *bItem) cty.Value {
	if strings.HasPrefix(it.Val, `"`) {
		return cty.StringVal(strings.Trim(it.Val, `"`))
	}
	return num(it.Val)
}

// bAttrsMatch compares extracted attributes with expected ones.
func bAttrsMatch(got hcl.Attributes, want map[string]*bItem) string {
	for name := range got {
		if want[name] == nil {
			return fmt.Sprintf("attribute %s is returned", name)
		}
	}
	for name, it := range want {
		a := got[name]
		if a == nil {
			return fmt.Sprintf("attribute %s is not returned", name)
		}
		if a.Name != name {
			return fmt.Sprintf("attribute %s has the name %s", name, a.Name)
		}
		v, diags := a.Expr.Value(nil)
		if diags.HasErrors() || !v.RawEquals(bVal(it)) {
			return fmt.Sprintf("attribute %s has the value %#v instead of %s (%s)", name, v, it.Val, diagsStr(diags))
		}
	}
	return ""
}

// bHeadersMatch compares the types and labels of extracted blocks with
// expected ones.
func bHeadersMatch(got hcl.Blocks, want []*bItem) string {
	show := func(typ string, labels []string) string { return typ + fmt.Sprintf("%q", labels) }
	var g, w []string
	for _, b := range got {
		g = append(g, show(b.Type, append([]string{}, b.Labels...)))
		if len(b.LabelRanges) != len(b.Labels) && b.LabelRanges != nil {
			return fmt.Sprintf("block %s has %d label ranges", b.Type, len(b.LabelRanges))
		}
	}
	for _, b := range want {
		w = append(w, show(b.Name, append([]string{}, b.Labels...)))
	}
	if strings.Join(g, ",") != strings.Join(w, ",") {
		return fmt.Sprintf("blocks %v are returned instead of %v", g, w)
	}
	return ""
}

// bErrsMatch pairs the diagnostics with the expected errors, each exactly
// once, given where in the source the items are.
func bErrsMatch(diags hcl.Diagnostics, want []bErr, bodyRange [2]int) string {
	if len(diags) != len(want) {
		return fmt.Sprintf("%d diagnostics instead of %d", len(diags), len(want))
	}
	fits := func(d *hcl.Diagnostic, e bErr) bool {
		if d.Severity != hcl.DiagError || d.Subject == nil {
			return false
		}
		s, t := d.Subject.Start.Byte, d.Subject.End.Byte
		text := d.Summary + " " + d.Detail
		if e.Item == nil {
			return strings.Contains(text, fmt.Sprintf("%q", e.Missing)) && s >= bodyRange[0] && t <= bodyRange[1]
		}
		return s < t && s >= e.Item.header[0] && t <= e.Item.header[1] && strings.Contains(text, e.Item.Name)
	}
	used := make([]bool, len(want))
	var match func(i int) bool
	match = func(i int) bool {
		if i == len(diags) {
			return true
		}
		for j, e := range want {
			if !used[j] && fits(diags[i], e) {
				used[j] = true
				if match(i + 1) {
					return true
				}
				used[j] = false
			}
		}
		return false
	}
	if !match(0) {
		return "the diagnostics are not about the expected items"
	}
	return ""
}

func bErrsStr(errs []bErr) string {
	var s []string
	for _, e := range errs {
		switch {
		case e.Item == nil:
			s = append(s, "missing "+e.Missing)
		case e.Labels:
			s = append(s, "labels of "+e.Item.Name)
		default:
			s = append(s, "unexpected "+e.Item.Name)
		}
	}
	return "[" + strings.Join(s, ", ") + "]"
}

// bSeqs gives sequences of extractions: all single ones, every partial
// extraction followed by each of the second ones, and two partial ones
// followed by each of the third ones.
func bSeqs(all, second, third []bSchema) [][]bOp {
	var ret [][]bOp
	ret = append(ret, []bOp{{'j', bSchema{}}})
	for _, s := range all {
		ret = append(ret, []bOp{{'c', s}})
		for _, s2 := range second {
			ret = append(ret, []bOp{{'p', s}, {'c', s2}})
		}
		ret = append(ret, []bOp{{'p', s}, {'j', bSchema{}}})
	}
	for _, s := range third {
		for _, s2 := range third {
			for _, s3 := range third {
				ret = append(ret, []bOp{{'p', s}, {'p', s2}, {'c', s3}})
			}
			ret = append(ret, []bOp{{'p', s}, {'p', s2}, {'j', bSchema{}}})
		}
	}
	return ret
}
