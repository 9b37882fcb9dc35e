package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"

	"verif/mc/fw"
)

// Places of the errors of decoding. A body has items that are right or wrong
// in themselves, and there may be too many or too few of them.

type decPlace struct {
	Items []int
	JSON  bool
}

// decItem is an item of the body: the argument a, a block x or a block y with
// a label. val is the value of the argument, or of n in the block.
type decItem struct {
	kind, label, val string
	bad              bool
}

var decItems = []decItem{
	{"a", "", "1", false}, {"a", "", "[1]", true},
	{"x", "", "1", false}, {"x", "", `[ 2 ]`, true}, {"x", "", "", false},
	{"y", "l", "3", false}, {"y", "m", "4", false}, {"y", "l", `{ }`, true},
}

type decPlaced struct {
	decItem
	whole, value place
}

func (c decPlace) write() (string, []decPlaced) {
	var b strings.Builder
	var out []decPlaced
	put := func(format string, args ...interface{}) { fmt.Fprintf(&b, format, args...) }
	if !c.JSON {
		for _, i := range c.Items {
			it := decPlaced{decItem: decItems[i]}
			put("  ")
			start := b.Len()
			val := func() {
				at := b.Len()
				put("%s", it.val)
				it.value = place{"value of " + it.kind, at, b.Len()}
			}
			switch it.kind {
			case "a":
				put("a = ")
				val()
			default:
				put("%s ", it.kind)
				if it.label != "" {
					put("%q ", it.label)
				}
				put("{\n")
				if it.val != "" {
					put("    n = ")
					val()
					put("\n")
				}
				put("  }")
			}
			it.whole = place{it.kind, start, b.Len()}
			put("\n")
			out = append(out, it)
		}
		return b.String(), out
	}
	put("{")
	sep := ""
	for _, kind := range []string{"y", "a", "x"} {
		first := true
		array := 0
		for _, i := range c.Items {
			it := decPlaced{decItem: decItems[i]}
			if it.kind != kind {
				continue
			}
			val := func() {
				at := b.Len()
				put("%s", it.val)
				it.value = place{"value of " + it.kind, at, b.Len()}
			}
			switch {
			case kind == "a":
				put("%s\n  \"a\": ", sep)
			case first:
				put("%s\n  %q: ", sep, kind)
				array = b.Len()
				put("[\n  ")
			default:
				put(",\n  ")
			}
			sep = ","
			first = false
			start := b.Len()
			if kind == "a" {
				val()
			} else {
				if it.label != "" {
					put("{%q: ", it.label)
				}
				put("{ ")
				if it.val != "" {
					put(`"n": `)
					val()
				}
				put(" }")
				if it.label != "" {
					put("}")
				}
			}
			it.whole = place{it.kind, start, b.Len()}
			if kind == "x" {
				// A block in an array may be said to start where that does.
				it.whole.lo = array
			}
			out = append(out, it)
		}
		if !first && kind != "a" {
			put("]")
		}
	}
	put("\n}")
	return b.String(), out
}

type decWay struct {
	name string
	// needA and needX tell what must be there, dup how often x may be, and
	// labels whether the labels of y must differ.
	needA    bool
	minX     int
	maxX     int
	single   bool
	labels   bool
	dupStops bool
	decode   func(hcl.Body) hcl.Diagnostics
}

func decWays() []decWay {
	n := &hcldec.AttrSpec{Name: "n", Type: cty.Number}
	obj := hcldec.ObjectSpec{"n": n}
	spec := func(s hcldec.Spec) func(hcl.Body) hcl.Diagnostics {
		return func(b hcl.Body) hcl.Diagnostics {
			_, diags := hcldec.Decode(b, s, nil)
			return diags
		}
	}
	a := &hcldec.AttrSpec{Name: "a", Type: cty.Number}
	ar := &hcldec.AttrSpec{Name: "a", Type: cty.Number, Required: true}
	ymap := &hcldec.BlockMapSpec{TypeName: "y", LabelNames: []string{"l"}, Nested: n}
	yobj := &hcldec.BlockObjectSpec{TypeName: "y", LabelNames: []string{"l"}, Nested: obj}
	type nested struct {
		N int `hcl:"n,optional"`
	}
	type labelled struct {
		L string `hcl:"l,label"`
		N int    `hcl:"n,optional"`
	}
	return []decWay{
		{"one block", true, 1, 0, true, true, false, spec(hcldec.ObjectSpec{"a": ar, "x": &hcldec.BlockSpec{TypeName: "x", Nested: obj, Required: true}, "y": ymap})},
		{"optional block", false, 0, 0, true, true, false, spec(hcldec.TupleSpec{a, &hcldec.BlockSpec{TypeName: "x", Nested: n}, yobj})},
		{"default", false, 0, 0, true, true, false, spec(hcldec.TupleSpec{&hcldec.DefaultSpec{Primary: a, Default: &hcldec.LiteralSpec{Value: cty.NumberIntVal(1)}}, &hcldec.BlockSpec{TypeName: "x", Nested: n}, yobj})},
		{"list", false, 1, 2, false, true, false, spec(hcldec.ObjectSpec{"a": a, "x": &hcldec.BlockListSpec{TypeName: "x", Nested: n, MinItems: 1, MaxItems: 2}, "y": yobj})},
		{"tuple", true, 2, 2, false, true, false, spec(hcldec.ObjectSpec{"a": ar, "x": &hcldec.BlockTupleSpec{TypeName: "x", Nested: obj, MinItems: 2, MaxItems: 2}, "y": ymap})},
		{"set", false, 0, 1, false, true, false, spec(hcldec.ObjectSpec{"a": a, "x": &hcldec.BlockSetSpec{TypeName: "x", Nested: obj, MaxItems: 1}, "y": ymap})},
		{"attributes", false, 1, 0, true, true, false, spec(hcldec.ObjectSpec{"a": a, "x": &hcldec.BlockAttrsSpec{TypeName: "x", ElementType: cty.Number, Required: true}, "y": ymap})},
		{"structure", true, 1, 0, true, false, true, func(b hcl.Body) hcl.Diagnostics {
			var v struct {
				A int        `hcl:"a"`
				X nested     `hcl:"x,block"`
				Y []labelled `hcl:"y,block"`
			}
			return gohcl.DecodeBody(b, nil, &v)
		}},
		{"structure of pointers", false, 0, 0, true, false, true, func(b hcl.Body) hcl.Diagnostics {
			var v struct {
				A *int        `hcl:"a"`
				X *nested     `hcl:"x,block"`
				Y []*labelled `hcl:"y,block"`
			}
			return gohcl.DecodeBody(b, nil, &v)
		}},
	}
}

func runDecPlaces(r *fw.Rec, c decPlace) {
	src, items := c.write()
	f, diags := hclsyntax.ParseConfig([]byte(src), "f", hcl.Pos{Line: 1, Column: 1})
	if c.JSON {
		f, diags = json.Parse([]byte(src), "f")
	}
	if diags.HasErrors() {
		r.Failf("rejected", "%q: %s", src, diags)
		return
	}
	r.State(src)
	miss := f.Body.MissingItemRange()
	missing := place{"missing", miss.Start.Byte, miss.End.Byte}
	for _, w := range decWays() {
		var errs []place
		haveA, xs, labels := false, 0, map[string]bool{}
		nx := 0
		for _, it := range items {
			if it.kind == "x" {
				nx++
			}
		}
		for _, it := range items {
			report := it.bad
			switch it.kind {
			case "a":
				haveA = true
			case "x":
				xs++
				switch {
				case w.single && xs == 2:
					errs = append(errs, it.whole)
				case !w.single && w.maxX > 0 && xs == w.maxX+1:
					errs = append(errs, it.whole)
				}
				if w.single && (xs > 1 || w.dupStops && nx > 1) {
					report = false
				}
			case "y":
				if w.labels && labels[it.label] {
					errs = append(errs, it.whole)
				}
				labels[it.label] = true
			}
			if report {
				errs = append(errs, it.value)
			}
		}
		if w.needA && !haveA {
			errs = append(errs, missing)
		}
		if xs < w.minX {
			errs = append(errs, missing)
		}
		diags := w.decode(f.Body)
		r.Op(1)
		r.Trace()
		matchPlaces(r, fmt.Sprintf("%q decoded as %s", src, w.name), diags, errs)
	}
}

// matchPlaces is like judgePlaces for places some of which lie in others.
func matchPlaces(r *fw.Rec, desc string, diags hcl.Diagnostics, errs []place) {
	var got []hcl.Range
	for _, d := range diags {
		if d.Severity != hcl.DiagError {
			continue
		}
		if d.Subject == nil {
			r.Failf("no-place", "%s: %s", desc, d)
			return
		}
		got = append(got, *d.Subject)
	}
	if len(got) != len(errs) {
		r.Failf("number", "%s: errors %s, expected %v", desc, diags, errs)
		return
	}
	// The narrowest places are given out first.
	sort.SliceStable(errs, func(i, j int) bool { return errs[i].hi-errs[i].lo < errs[j].hi-errs[j].lo })
	used := make([]bool, len(got))
	for _, e := range errs {
		found := false
		for i, g := range got {
			if !used[i] && g.Start.Byte >= e.lo && g.End.Byte <= e.hi {
				used[i], found = true, true
				break
			}
		}
		if !found {
			r.Failf("place", "%s: no error at bytes %d-%d (%s); errors are %s", desc, e.lo, e.hi, e.what, diags)
			return
		}
	}
}

func init() {
	fw.Extend("C35",
		fw.S("decoding places", "all bodies of at most 4 (thorough: 5) of 8 right and wrong items, in native syntax and JSON, decoded with 7 specifications and into 2 structures", func(t fw.Tier, yield func(decPlace)) {
			eachSeq(len(decItems), 0, fw.Pick(t, 4, 5), func(ix []int) {
				as := 0
				for _, i := range ix {
					if decItems[i].kind == "a" {
						as++
					}
				}
				if as > 1 {
					return
				}
				yield(decPlace{append([]int{}, ix...), false})
				yield(decPlace{append([]int{}, ix...), true})
			})
		}, runDecPlaces),
	)
}
