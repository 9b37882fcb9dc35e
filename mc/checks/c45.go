package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"verif/mc/fw"
)

// jStart is the place where a node starts: its opening bracket, or all of it.
func (n jNode) jStart() [2]int {
	if n.kind == 'o' || n.kind == 'a' {
		return [2]int{n.start, n.start + 1}
	}
	return [2]int{n.start, n.end}
}

// jMissing is where something missing from a body is reported.
func (n jNode) jMissing() [2]int {
	if n.kind == 'o' {
		return [2]int{n.end - 1, n.end}
	}
	return n.jStart()
}

// jProp is a property of an object.
type jProp struct{ key, val jNode }

// jProps are the properties of an object, or of the objects in an array, and
// the places of what should have been objects.
func jProps(n jNode) (ps []jProp, errs [][2]int) {
	switch n.kind {
	case '0':
	case 'o':
		for i := range n.keys {
			ps = append(ps, jProp{n.keys[i], n.vals[i]})
		}
	case 'a':
		for _, v := range n.vals {
			if v.kind != 'o' {
				errs = append(errs, v.jStart())
				continue
			}
			p, _ := jProps(v)
			ps = append(ps, p...)
		}
	default:
		errs = append(errs, n.jStart())
	}
	return ps, errs
}

// jBlock is a block in the order written.
type jBlock struct {
	typ    jNode
	labels []jNode
	def    jNode // the value the labels lead to
	body   jNode
}

func jBlocks(typ jNode, v jNode, labels []jNode, left int) (bs []jBlock, errs [][2]int) {
	if left > 0 {
		ps, errs := jProps(v)
		if len(ps) == 0 {
			return nil, append(errs, v.jStart())
		}
		for _, p := range ps {
			b, e := jBlocks(typ, p.val, append(append([]jNode(nil), labels...), p.key), left-1)
			bs, errs = append(bs, b...), append(errs, e...)
		}
		return bs, errs
	}
	switch v.kind {
	case '0':
	case 'o':
		bs = append(bs, jBlock{typ, labels, v, v})
	case 'a':
		for _, e := range v.vals {
			bs = append(bs, jBlock{typ, labels, v, e})
		}
	default:
		errs = append(errs, v.jStart())
	}
	return bs, errs
}

// jRangeSchemas are the schemas a body is read with, one after the other, all
// but the last of them partially.
var jRangeSchemas = [][]*hcl.BodySchema{
	{{
		Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "b", Required: true}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "c"}, {Type: "d", LabelNames: []string{"p"}}, {Type: "e", LabelNames: []string{"p", "q"}}, {Type: "g", LabelNames: []string{"p", "q", "r"}}},
	}},
	{{
		Attributes: []hcl.AttributeSchema{{Name: "a", Required: true}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "d"}},
	}, {
		Attributes: []hcl.AttributeSchema{{Name: "c"}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "b"}, {Type: "e", LabelNames: []string{"p"}}},
	}},
}

type jRanges struct {
	r   *fw.Rec
	src []byte
}

func (j jRanges) on(what string, rng hcl.Range, at [2]int) string {
	j.r.Op(1)
	if m := badJSONRange(j.src, rng, at[0], at[1]); m != "" {
		return fmt.Sprintf("%s: %s (%q)", what, m, j.src[at[0]:at[1]])
	}
	return ""
}

// errs compares the places of errors, as sets.
func (j jRanges) errs(diags hcl.Diagnostics, want [][2]int) string {
	set := map[string]bool{}
	for _, w := range want {
		set[fmt.Sprintf("%d-%d", w[0], w[1])] = true
	}
	got := map[string]bool{}
	for _, d := range diags {
		if d.Subject == nil {
			return "an error without a place: " + d.Error()
		}
		s := d.Subject
		if m := j.on("error "+d.Summary, *s, [2]int{s.Start.Byte, s.End.Byte}); m != "" {
			return m
		}
		if c := d.Context; c != nil && (c.Start.Byte > s.Start.Byte || c.End.Byte < s.End.Byte) {
			return fmt.Sprintf("%s: the context %s is not around %s", d.Summary, c, s)
		}
		k := fmt.Sprintf("%d-%d", s.Start.Byte, s.End.Byte)
		if !set[k] {
			return fmt.Sprintf("error %q at %s, expected at %v", d.Error(), k, want)
		}
		got[k] = true
	}
	if len(got) != len(set) {
		return fmt.Sprintf("errors are at %v, expected at %v", diagsStr(diags), want)
	}
	return ""
}

func (j jRanges) attr(a *hcl.Attribute, p jProp) string {
	if m := j.on("name", a.NameRange, [2]int{p.key.start, p.key.end}); m != "" {
		return m
	}
	if m := j.on("attribute", a.Range, [2]int{p.key.start, p.val.end}); m != "" {
		return m
	}
	return j.expr(a.Expr, p.val)
}

func (j jRanges) expr(e hcl.Expression, n jNode) string {
	if m := j.on("value", e.Range(), [2]int{n.start, n.end}); m != "" {
		return m
	}
	return j.on("start of value", e.StartRange(), n.jStart())
}

func (j jRanges) body(b hcl.Body, n jNode, chain []*hcl.BodySchema, depth int) string {
	hidden := map[string]bool{}
	for i, s := range chain {
		if m := j.on("missing items", b.MissingItemRange(), n.jMissing()); m != "" {
			return m
		}
		ps, errs := jProps(n)
		var want []jProp
		var blocks []jBlock
		seen := map[string]bool{}
		using := map[string]bool{}
		for _, p := range ps {
			name := p.key.str
			if hidden[name] {
				continue
			}
			known := false
			for _, a := range s.Attributes {
				if a.Name != name {
					continue
				}
				known = true
				if seen[name] {
					errs = append(errs, [2]int{p.key.start, p.key.end})
				} else {
					want = append(want, p)
				}
				seen[name] = true
			}
			for _, bs := range s.Blocks {
				if bs.Type == name && !known {
					known = true
					b, e := jBlocks(p.key, p.val, nil, len(bs.LabelNames))
					blocks, errs = append(blocks, b...), append(errs, e...)
				}
			}
			if known {
				using[name] = true
			} else if i == len(chain)-1 && name != "//" {
				errs = append(errs, [2]int{p.key.start, p.key.end})
			}
		}
		for _, a := range s.Attributes {
			if a.Required && !seen[a.Name] {
				errs = append(errs, n.jMissing())
			}
		}
		var content *hcl.BodyContent
		var remain hcl.Body
		var diags hcl.Diagnostics
		if i == len(chain)-1 {
			content, diags = b.Content(s)
		} else {
			content, remain, diags = b.PartialContent(s)
		}
		if m := j.errs(diags, errs); m != "" {
			return m
		}
		if m := j.on("missing items of content", content.MissingItemRange, n.jMissing()); m != "" {
			return m
		}
		if len(content.Attributes) != len(want) || len(content.Blocks) != len(blocks) {
			return fmt.Sprintf("%d attributes and %d blocks, expected %d and %d", len(content.Attributes), len(content.Blocks), len(want), len(blocks))
		}
		for _, p := range want {
			a := content.Attributes[p.key.str]
			if a == nil {
				return "no attribute " + p.key.str
			}
			if m := j.attr(a, p); m != "" {
				return "attribute " + p.key.str + ": " + m
			}
		}
		for i, bl := range content.Blocks {
			w := blocks[i]
			if m := j.on("block type", bl.TypeRange, [2]int{w.typ.start, w.typ.end}); m != "" {
				return m
			}
			if len(bl.LabelRanges) != len(w.labels) {
				return fmt.Sprintf("%d label ranges for %d labels", len(bl.LabelRanges), len(w.labels))
			}
			for k, l := range w.labels {
				if m := j.on("label", bl.LabelRanges[k], [2]int{l.start, l.end}); m != "" {
					return m
				}
				if len(bl.Labels) != len(w.labels) || bl.Labels[k] != l.str {
					return fmt.Sprintf("labels %q, of which one at %d is %q", bl.Labels, l.start, l.str)
				}
			}
			if m := j.on("start of block", bl.DefRange, w.def.jStart()); m != "" {
				if w.def.start == w.body.start || j.on("", bl.DefRange, w.body.jStart()) != "" {
					return m
				}
			}
			if depth > 0 {
				for _, c := range jRangeSchemas {
					if m := j.body(bl.Body, w.body, c, depth-1); m != "" {
						return "in block: " + m
					}
				}
				if m := j.just(bl.Body, w.body, nil); m != "" {
					return "in block: " + m
				}
			}
		}
		for k := range using {
			hidden[k] = true
		}
		if remain != nil {
			if m := j.just(remain, n, hidden); m != "" {
				return "remaining: " + m
			}
		}
		b = remain
	}
	return ""
}

func (j jRanges) just(b hcl.Body, n jNode, hidden map[string]bool) string {
	attrs, diags := b.JustAttributes()
	if n.kind != 'o' {
		return j.errs(diags, [][2]int{n.jStart()})
	}
	want := map[string]jProp{}
	var errs [][2]int
	for i, k := range n.keys {
		if k.str == "//" || hidden[k.str] {
			continue
		}
		if _, dup := want[k.str]; dup {
			errs = append(errs, [2]int{k.start, k.end})
			continue
		}
		want[k.str] = jProp{k, n.vals[i]}
	}
	if m := j.errs(diags, errs); m != "" {
		return m
	}
	if len(attrs) != len(want) {
		return fmt.Sprintf("%d attributes instead of %d", len(attrs), len(want))
	}
	for name, p := range want {
		if attrs[name] == nil {
			return "no attribute " + name
		}
		if m := j.attr(attrs[name], p); m != "" {
			return m
		}
	}
	return ""
}

// jLay lays compact JSON out in different ways.
func jLay(s string, style int) string {
	if style == 0 {
		return s
	}
	var b strings.Builder
	depth, str := 0, false
	nl := func() { b.WriteString("\n" + strings.Repeat("  ", depth)) }
	for i := 0; i < len(s); i++ {
		c := s[i]
		if str {
			b.WriteByte(c)
			if c == '\\' {
				i++
				b.WriteByte(s[i])
			}
			str = c != '"'
			continue
		}
		switch c {
		case '"':
			str = true
			b.WriteByte(c)
		case '{', '[':
			b.WriteByte(c)
			depth++
			if style == 2 {
				nl()
			} else {
				b.WriteString("  ")
			}
		case '}', ']':
			depth--
			if style == 2 {
				nl()
			} else {
				b.WriteString(" ")
			}
			b.WriteByte(c)
		case ',':
			if style == 2 {
				b.WriteByte(c)
				nl()
			} else {
				b.WriteString("\n, ")
			}
		case ':':
			if style == 2 {
				b.WriteString(": ")
			} else {
				b.WriteString(" :\n\n")
			}
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func c45run(r *fw.Rec, c fw.StrCase) {
	src := []byte(c)
	r.StateB("", src)
	f, diags := json.Parse(src, "t.json")
	if diags.HasErrors() {
		r.Failf("parse", "%q: %s", src, diagsStr(diags))
		return
	}
	n := readJSON(src)
	j := jRanges{r, src}
	for _, chain := range jRangeSchemas {
		if m := j.body(f.Body, n, chain, 2); m != "" {
			r.Failf("range", "%s\nschemas of %d: %s", src, len(chain), m)
			return
		}
	}
	if m := j.just(f.Body, n, nil); m != "" {
		r.Failf("range", "%s\njust attributes: %s", src, m)
		return
	}
	r.Trace()
}

// jtCase is a JSON string, or an array or object of strings, with parts in
// them whose places are known.
type jtCase struct {
	Pre  string // the text before the value
	Kind int    // what kind of value
	Tmpl string // the template
	Lay  int
}

var jtTemplates = []string{
	"${v}", "a${v}b", "é${v}", "${v.a}${w}", "😀 ${ v } ${w[0]}", "%{ if v }${w}%{ endif }", "%{ for k in v }${k}${w}%{ endfor }",
	"${[v, w.b]}", "${f(v)}", "${ bad }", "x ${nosuch} y ${v}", "${v.zz}", "${1 +}", "${", "%{ foo }", "é é ${f(nosuch)}", "${f(w, v)}", "${ v ${", "%{ if v }", "${g(v)} ${bad}",
}

// jtStatic are strings naming references and calls.
var jtStatic = []string{"v", "v.a", "v.a[0].b", "w[\"k\"]", "f(v)", "f(v, w.a)", "f()"}

func c45strings(r *fw.Rec, c jtCase) {
	r.State(fmt.Sprintf("%#v", c))
	q := `"` + c.Tmpl + `"`
	val := map[int]string{0: q, 1: "[1," + q + "]", 2: `{"k":` + q + `}`, 3: `{` + q + `:2}`}[c.Kind]
	src := []byte(c.Pre + jLay(`{"z":null,"a":`+val+`}`, c.Lay))
	f, diags := json.Parse(src, "t.json")
	if diags.HasErrors() {
		r.Failf("parse", "%s: %s", src, diagsStr(diags))
		return
	}
	attrs, _ := f.Body.JustAttributes()
	e := attrs["a"].Expr
	j := jRanges{r, src}
	// where a name is, when it occurs just once
	at := strings.Index(string(src), q) + 1
	end := at + len(c.Tmpl)
	var uses []string
	for _, tr := range e.Variables() {
		rng := tr.SourceRange()
		if rng.Start.Byte < at || rng.End.Byte > end {
			r.Failf("variables", "%s: %s is at %s (%d-%d), not in the string", src, tr.RootName(), rng, rng.Start.Byte, rng.End.Byte)
			return
		}
		if m := j.on("reference", rng, [2]int{rng.Start.Byte, rng.End.Byte}); m != "" {
			r.Failf("variables", "%s: %s", src, m)
			return
		}
		if got, want := string(rng.SliceBytes(src)), travText(tr); got != want {
			r.Failf("variables", "%s: %s is said to be written %q", src, want, got)
			return
		}
		uses = append(uses, rng.String())
	}
	sort.Strings(uses)
	for i := range uses {
		if i > 0 && uses[i] == uses[i-1] {
			r.Failf("variables", "%s: two references at %s", src, uses[i])
			return
		}
	}
	ctx := &hcl.EvalContext{
		Variables: map[string]cty.Value{
			"v": cty.ObjectVal(map[string]cty.Value{"a": cty.StringVal("A")}),
			"w": cty.TupleVal([]cty.Value{cty.StringVal("B")}),
		},
		Functions: map[string]function.Function{"f": function.New(&function.Spec{
			Params: []function.Parameter{{Name: "x", Type: cty.DynamicPseudoType}},
			Type:   function.StaticReturnType(cty.String),
			Impl:   func(args []cty.Value, t cty.Type) (cty.Value, error) { return cty.StringVal("F"), nil },
		})},
	}
	_, diags = e.Value(ctx)
	for _, d := range diags {
		for _, rng := range []*hcl.Range{d.Subject, d.Context} {
			if rng == nil {
				continue
			}
			// The end of the string is a place to report something missing at.
			if rng.Start.Byte < at-1 || rng.End.Byte > end+1 {
				r.Failf("errors", "%s: %q at %d-%d, not in the string", src, d.Error(), rng.Start.Byte, rng.End.Byte)
				return
			}
			if m := j.on(d.Summary, *rng, [2]int{rng.Start.Byte, rng.End.Byte}); m != "" {
				r.Failf("errors", "%s: %s", src, m)
				return
			}
		}
		for _, name := range []string{"bad", "nosuch", "zz", "foo", "g"} {
			if strings.Contains(d.Detail, `"`+name+`"`) && strings.TrimLeft(string(d.Subject.SliceBytes(src)), ".") != name {
				r.Failf("errors", "%s: %q is about %q", src, d.Error(), d.Subject.SliceBytes(src))
				return
			}
		}
	}
	r.Trace()
}

// travText is how a traversal of the templates is written.
func travText(tr hcl.Traversal) string {
	var b strings.Builder
	for _, s := range tr {
		switch s := s.(type) {
		case hcl.TraverseRoot:
			b.WriteString(s.Name)
		case hcl.TraverseAttr:
			b.WriteString("." + s.Name)
		case hcl.TraverseIndex:
			if s.Key.Type() == cty.String {
				fmt.Fprintf(&b, "[%q]", s.Key.AsString())
			} else {
				fmt.Fprintf(&b, "[%s]", s.Key.AsBigFloat().Text('f', -1))
			}
		}
	}
	return b.String()
}

// c45static checks the places of references and calls given as strings.
func c45static(r *fw.Rec, c jtCase) {
	r.State(fmt.Sprintf("%#v", c))
	q := `"` + strings.Replace(c.Tmpl, `"`, `\"`, -1) + `"`
	src := []byte(c.Pre + jLay(`{"z":null,"a":[`+q+`]}`, c.Lay))
	f, diags := json.Parse(src, "t.json")
	if diags.HasErrors() {
		r.Failf("parse", "%s: %s", src, diagsStr(diags))
		return
	}
	attrs, _ := f.Body.JustAttributes()
	list, _ := hcl.ExprList(attrs["a"].Expr)
	j := jRanges{r, src}
	at := strings.Index(string(src), q) + 1
	// Escapes in the string make later places inexact.
	exact := !strings.Contains(q, `\`)
	check := func(rng hcl.Range, text string) bool {
		if !exact {
			return true
		}
		if rng.Start.Byte < at || rng.End.Byte > at+len(c.Tmpl) || string(rng.SliceBytes(src)) != text {
			r.Failf("static", "%s: %q is said to be %q at %d-%d", src, text, rng.SliceBytes(src), rng.Start.Byte, rng.End.Byte)
			return false
		}
		if m := j.on(text, rng, [2]int{rng.Start.Byte, rng.End.Byte}); m != "" {
			r.Failf("static", "%s: %s", src, m)
			return false
		}
		return true
	}
	if tr, diags := hcl.AbsTraversalForExpr(list[0]); !diags.HasErrors() {
		if tr.SourceRange().Start.Byte != at {
			r.Failf("static", "%s: %s starts at %d instead of %d", src, c.Tmpl, tr.SourceRange().Start.Byte, at)
			return
		}
		if !check(tr.SourceRange(), c.Tmpl) {
			return
		}
	}
	if call, diags := hcl.ExprCall(list[0]); !diags.HasErrors() {
		if !check(call.NameRange, call.Name) || !check(call.ArgsRange, c.Tmpl[len(call.Name):]) {
			return
		}
		for _, a := range call.Arguments {
			tr, _ := hcl.AbsTraversalForExpr(a)
			if !check(a.Range(), travText(tr)) {
				return
			}
		}
	}
	r.Trace()
}

func init() {
	leaves := []string{"1", `"s"`, "null", "true", "[]", "{}"}
	shapes := append([]string{
		`{"a":1}`, `[{"a":1}]`, `[{"a":1},{"b":"é","é":2}]`, "[1]", `[{"a":1},2,{"b":3}]`, "[null]", "[[]]", `{"b":1,"b":2}`,
		`{"l":{"a":1}}`, `{"l":{"b":1},"é m":[{},{"b":2}]}`, `[{"l":{}},{"l":{"c":{"b":0}}}]`, `{"l":{"m":{"b":1}}}`,
		`{"l":[{"m":{"b":1}},{"n":[]}],"k":{"o":[{"b":2},{"b":3}]}}`, `{"l":1}`, `{"l":[1]}`, `{"l":{"m":2}}`, `[{"l":{"m":{}}},3]`,
		`{"//":1,"b":2}`, `{"l":[],"m":{}}`, `{"c":{"b":[1]},"b":{}}`, `{"l":{"m":{"n":{"b":1},"o":{}},"p":{"q":[{},{"b":1}]}},"r":[{"s":{"t":{"b":2},"u":{}}}]}`, `{"c":[{"b":1},{"c":{"b":2}}],"b":2}`,
	}, leaves...)
	names := []string{"a", "b", "c", "d", "e", "g", "x", "", "//"}
	var props []string
	for _, n := range names {
		for _, s := range shapes {
			if (n == "d" || n == "e" || n == "g") && s == "null" {
				continue // what an absent value means for labels is not said
			}
			props = append(props, `"`+n+`":`+s)
		}
	}
	fw.Register(&fw.Check{
		ID: "C45",
		Assumptions: []string{
			"columns are not compared after a tab or a carriage return in the same line",
			"places within strings are compared only when no escape precedes them in the string",
			"a block written in an array is at the array's opening bracket or at its own",
		},
		Suites: []fw.Suite{
			fw.S("bodies", fmt.Sprintf("every object of one property in %d shapes, named by one of %d names, in 3 layouts, alone, in an array and after another object; every object of two of them (thorough: and one of 5 more before or after); read with 2 chains of schemas and as attributes, and so are its blocks down to depth 3", len(shapes), len(names)),
				func(t fw.Tier, yield func(fw.StrCase)) {
					put := func(s string, lay int) {
						yield(fw.StrCase(jLay("{"+s+"}", lay)))
					}
					for lay := 0; lay < 3; lay++ {
						for _, p := range props {
							put(p, lay)
							yield(fw.StrCase(jLay("[{"+p+"}]", lay)))
							yield(fw.StrCase(jLay(`[{"b":1},{`+p+`},2,{}]`, lay)))
						}
					}
					for i, p := range props {
						for k, q := range props {
							put(p+","+q, (i+k)%2+1)
							if t == fw.Thorough {
								put(p+","+q, 0)
								for _, o := range []string{`"a":{}`, `"c":[{"b":1},2]`, `"d":{"l":{"b":1},"m":[{}]}`, `"e":{"l":{"m":{}}}`, `"x":[]`} {
									put(p+","+q+","+o, (i+k)%3)
									put(o+","+p+","+q, (i+k+1)%3)
								}
							}
						}
					}
				}, c45run),
			fw.S("strings", fmt.Sprintf("%d templates as a value, in an array, in an object and as a name, after 3 beginnings, in 3 layouts", len(jtTemplates)),
				func(t fw.Tier, yield func(jtCase)) {
					for _, pre := range []string{"", "\n\n  ", "    "} {
						for lay := 0; lay < 3; lay++ {
							for kind := 0; kind < 4; kind++ {
								for _, s := range jtTemplates {
									yield(jtCase{pre, kind, s, lay})
								}
								for _, a := range jtTemplates {
									for _, b := range jtTemplates {
										if strings.ContainsAny(b, "%") || a == b || strings.HasSuffix(a, "${") {
											continue
										}
										yield(jtCase{pre, kind, a + " – " + b, lay})
									}
								}
							}
						}
					}
				}, c45strings),
			fw.S("static", fmt.Sprintf("%d references and calls as strings, after 3 beginnings, in 3 layouts", len(jtStatic)),
				func(t fw.Tier, yield func(jtCase)) {
					for _, pre := range []string{"", "\n\n  ", "    "} {
						for lay := 0; lay < 3; lay++ {
							for _, s := range jtStatic {
								yield(jtCase{pre, 0, s, lay})
							}
						}
					}
				}, c45static),
		},
	})
}
