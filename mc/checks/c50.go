package checks

import (
	"bufio"
	"bytes"
	encjson "encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/hclparse"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"

	"verif/mc/fw"
)

// What a caller hands in must be left alone, also in the room behind a slice,
// and what is made from it must not change when the caller reuses it.

// guarded is a copy of a text inside a larger buffer.
func guarded(s string) (whole, part []byte) {
	whole = []byte("<<<" + s + ">>>>>>>>>>>>>>>>")
	return whole, whole[3 : 3+len(s)]
}

type srcUse struct {
	name string
	// use returns text that was made from the source and is to stay as it is
	// when the source is overwritten; nil if there is no such thing.
	use func(src []byte) func() string
}

var srcUses = map[string][]srcUse{
	"body": {
		{"LexConfig", func(src []byte) func() string { hclsyntax.LexConfig(src, "f", hcl.InitialPos); return nil }},
		{"ParseConfig", func(src []byte) func() string {
			f, _ := hclsyntax.ParseConfig(src, "f", hcl.InitialPos)
			if f == nil || f.Body == nil {
				return nil
			}
			hclsyntax.VisitAll(f.Body.(*hclsyntax.Body), func(hclsyntax.Node) hcl.Diagnostics { return nil })
			attrs, _ := f.Body.JustAttributes()
			for _, a := range attrs {
				a.Expr.Value(fragCtx)
				a.Expr.Variables()
			}
			return nil
		}},
		{"Format", func(src []byte) func() string {
			out := hclwrite.Format(src)
			return func() string { return string(out) }
		}},
		{"hclwrite.ParseConfig", func(src []byte) func() string {
			f, diags := hclwrite.ParseConfig(src, "f", hcl.InitialPos)
			if diags.HasErrors() || f == nil {
				return nil
			}
			f.Body().SetAttributeValue("zz", cty.StringVal("é"))
			f.Body().SetAttributeValue("a", cty.Zero)
			f.Body().AppendNewBlock("zz", []string{"l"})
			for _, b := range f.Body().Blocks() {
				b.Body().AppendNewline()
			}
			return func() string { return string(f.Bytes()) }
		}},
		{"PackNativeFile", func(src []byte) func() string {
			b, diags := hclpack.PackNativeFile(src, "f", hcl.InitialPos)
			if diags.HasErrors() {
				return nil
			}
			buf, err := encjson.Marshal(b)
			if err != nil {
				return nil
			}
			wb, wbuf := buf, append([]byte(nil), buf...)
			var u hclpack.Body
			err = encjson.Unmarshal(wb, &u)
			return func() string {
				if !bytes.Equal(wb, wbuf) {
					return "encoded form changed"
				}
				return fmt.Sprint(err == nil)
			}
		}},
		{"lines", func(src []byte) func() string {
			for sc := hcl.NewRangeScanner(src, "f", bufio.ScanLines); sc.Scan(); {
				sc.Range().SliceBytes(src)
			}
			return nil
		}},
		{"parser", func(src []byte) func() string {
			p := hclparse.NewParser()
			_, diags := p.ParseHCL(src, "f")
			var b bytes.Buffer
			hcl.NewDiagnosticTextWriter(&b, p.Files(), 40, true).WriteDiagnostics(diags)
			return nil
		}},
	},
	"expr": {
		{"ParseExpression", func(src []byte) func() string {
			e, diags := hclsyntax.ParseExpression(src, "f", hcl.InitialPos)
			if diags.HasErrors() || e == nil {
				return nil
			}
			e.Value(fragCtx)
			e.Variables()
			return nil
		}},
		{"ParseTraversalAbs", func(src []byte) func() string {
			hclsyntax.ParseTraversalAbs(src, "f", hcl.InitialPos)
			return nil
		}},
		{"PackExpression", func(src []byte) func() string {
			e := &hclpack.Expression{Source: src, SourceType: hclpack.ExprNative}
			e.Parse()
			e.Value(fragCtx)
			e.Variables()
			e = &hclpack.Expression{Source: src, SourceType: hclpack.ExprTemplate}
			e.Value(fragCtx)
			return nil
		}},
	},
	"template": {
		{"ParseTemplate", func(src []byte) func() string {
			e, diags := hclsyntax.ParseTemplate(src, "f", hcl.InitialPos)
			if diags.HasErrors() || e == nil {
				return nil
			}
			e.Value(fragCtx)
			e.Variables()
			return nil
		}},
	},
	"json": {
		{"json.Parse", func(src []byte) func() string {
			f, _ := json.Parse(src, "f")
			if f == nil || f.Body == nil {
				return nil
			}
			attrs, _ := f.Body.JustAttributes()
			for _, a := range attrs {
				a.Expr.Value(fragCtx)
				a.Expr.Value(nil)
				a.Expr.Variables()
			}
			return nil
		}},
	},
}

func runSrcUse(r *fw.Rec, c fragCase) {
	r.State(c.Kind + c.Src)
	for _, u := range srcUses[c.Kind] {
		whole, part := guarded(c.Src)
		before := string(whole)
		later := u.use(part)
		r.Op(1)
		if string(whole) != before {
			r.Failf(u.name, "%s of %q leaves the buffer as %q", u.name, c.Src, whole)
			return
		}
		if later == nil {
			continue
		}
		want := later()
		if string(whole) != before {
			r.Failf(u.name, "using the result of %s of %q leaves the buffer as %q", u.name, c.Src, whole)
			return
		}
		for i := range whole {
			whole[i] = '#'
		}
		if got := later(); got != want {
			r.Failf(u.name+"-later", "when the source %q is overwritten after %s, its result becomes %q instead of %q", c.Src, u.name, got, want)
			return
		}
		r.Trace()
	}
}

// Contexts.

func ctxStr(ctx *hcl.EvalContext) string {
	var b strings.Builder
	for ; ctx != nil; ctx = ctx.Parent() {
		var names []string
		for n, v := range ctx.Variables {
			names = append(names, fmt.Sprintf("%s=%#v", n, v))
		}
		for n := range ctx.Functions {
			names = append(names, n+"()")
		}
		sort.Strings(names)
		fmt.Fprintf(&b, "%v %v %q\n", ctx.Variables == nil, ctx.Functions == nil, names)
	}
	return b.String()
}

func runCtxUse(r *fw.Rec, c fragCase) {
	r.State(c.Src)
	e, diags := hclsyntax.ParseExpression([]byte(c.Src), "f", hcl.InitialPos)
	if diags.HasErrors() {
		return
	}
	je, jdiags := json.Parse([]byte(`{"a": `+jsonStr("${"+c.Src+"}")+`}`), "f")
	for _, ctx := range append(aCtxs(), fragCtx, fragCtx.NewChild(), &hcl.EvalContext{}) {
		before := ctxStr(ctx)
		_, ds := e.Value(ctx)
		e.Variables()
		if !jdiags.HasErrors() {
			attrs, _ := je.Body.JustAttributes()
			attrs["a"].Expr.Value(ctx)
		}
		var b bytes.Buffer
		hcl.NewDiagnosticTextWriter(&b, nil, 0, false).WriteDiagnostics(ds)
		for _, t := range e.Variables() {
			t.TraverseAbs(ctx)
		}
		r.Op(4)
		if after := ctxStr(ctx); after != before {
			r.Failf("context", "evaluating %s makes the context %s, from %s", c.Src, after, before)
			return
		}
	}
	r.Trace()
}

// Schemas.

// guardSchema is a schema in larger arrays, and what it is like.
func guardSchema(names ...string) (*hcl.BodySchema, func() string) {
	attrs := []hcl.AttributeSchema{{Name: "guard0"}}
	blocks := []hcl.BlockHeaderSchema{{Type: "guard0"}}
	for _, n := range names {
		f := strings.Split(n, ".")
		if f[0] == "block" {
			labels := append(append([]string(nil), f[2:]...), "guard1", "guard2")
			blocks = append(blocks, hcl.BlockHeaderSchema{Type: f[1], LabelNames: labels[:len(f)-2]})
			if len(f) == 2 {
				blocks[len(blocks)-1].LabelNames = nil
			}
		} else {
			attrs = append(attrs, hcl.AttributeSchema{Name: f[0], Required: len(f) > 1})
		}
	}
	na, nb := len(attrs), len(blocks)
	for _, g := range []string{"guard1", "guard2", "guard3"} {
		attrs = append(attrs, hcl.AttributeSchema{Name: g})
		blocks = append(blocks, hcl.BlockHeaderSchema{Type: g})
	}
	s := &hcl.BodySchema{Attributes: attrs[1:na], Blocks: blocks[1:nb]}
	return s, func() string {
		out := fmt.Sprintf("%v %d %d", attrs, len(s.Attributes), len(s.Blocks))
		for _, b := range blocks {
			out += fmt.Sprintf("%s %q;", b.Type, b.LabelNames[:cap(b.LabelNames)])
		}
		return out
	}
}

var guardNames = [][]string{
	{}, {"a"}, {"a.r", "b"}, {"b", "a", "block.x.l"}, {"block.x.l", "block.y", "block.z.l.m"}, {"zz.r", "block.zz"}, {"a", "b", "block.x.l", "block.y", "block.z.l.m", "block.w.l.m.n"},
	{"c", "b", "block.y.l", "block.x"}, {"block.z.l", "block.y", "block.x.l", "d.r", "a"},
}

type schemaUse struct {
	Kind  int
	Items []*bItem
}

func runSchemaUse(r *fw.Rec, c schemaUse) {
	k := bodyKinds[c.Kind]
	n := 0
	bNumber(c.Items, &n)
	body, m := k.Make(c.Items)
	if m != "" {
		r.Failf("made", "%s: %s", k.Name, m)
		return
	}
	r.State(k.Name + bNative(c.Items, bLayouts[0]))
	var use func(b hcl.Body, depth int) bool
	use = func(b hcl.Body, depth int) bool {
		for i, names := range guardNames {
			s, show := guardSchema(names...)
			before := show()
			content, remain, _ := b.PartialContent(s)
			b.Content(s)
			r.Op(2)
			if remain != nil {
				remain.Content(s)
				remain.PartialContent(s)
				r.Op(2)
			}
			if after := show(); after != before {
				r.Failf("schema", "reading a body (%s) of %q with schema %v makes that %s, from %s", k.Name, bNative(c.Items, bLayouts[0]), names, after, before)
				return false
			}
			if i == 6 && depth < 2 && content != nil {
				for _, bl := range content.Blocks {
					if !use(bl.Body, depth+1) {
						return false
					}
				}
			}
		}
		return true
	}
	if use(body, 0) {
		r.Trace()
	}
}

// Arguments of other calls.

type argUse struct {
	Call int
	N    int // elements of the argument
	Room int // room behind them
}

func argStrs(n, room int) ([]string, []string) {
	all := []string{}
	for i := 0; i < n+room; i++ {
		all = append(all, fmt.Sprintf("l%d é", i))
	}
	return all, all[:n]
}

func argTrav(n, room int) (hcl.Traversal, hcl.Traversal) {
	all := hcl.Traversal{hcl.TraverseRoot{Name: "root"}}
	for i := 1; i < n+room; i++ {
		switch i % 3 {
		case 0:
			all = append(all, hcl.TraverseAttr{Name: fmt.Sprintf("s%d", i)})
		case 1:
			all = append(all, hcl.TraverseIndex{Key: cty.NumberIntVal(int64(i))})
		default:
			all = append(all, hcl.TraverseIndex{Key: cty.StringVal(fmt.Sprintf("k %d", i))})
		}
	}
	if n > len(all) {
		n = len(all)
	}
	return all, all[:n]
}

// argCalls make a call with an argument of some length and room, returning how
// to show the argument with its room, how to spoil it, and how to show the
// result of the call.
var argCalls = []struct {
	name string
	call func(n, room int) (arg func() string, spoil func(), result func() string)
}{
	{"AppendNewBlock", func(n, room int) (func() string, func(), func() string) {
		all, labels := argStrs(n, room)
		f := hclwrite.NewEmptyFile()
		f.Body().AppendNewBlock("b", labels)
		return func() string { return fmt.Sprintf("%q", all) }, func() { spoilStrs(all) }, func() string { return string(f.Bytes()) }
	}},
	{"NewBlock", func(n, room int) (func() string, func(), func() string) {
		all, labels := argStrs(n, room)
		f := hclwrite.NewEmptyFile()
		f.Body().AppendBlock(hclwrite.NewBlock("b", labels))
		return func() string { return fmt.Sprintf("%q", all) }, func() { spoilStrs(all) }, func() string { return string(f.Bytes()) }
	}},
	{"SetAttributeTraversal", func(n, room int) (func() string, func(), func() string) {
		all, t := argTrav(n+1, room)
		f := hclwrite.NewEmptyFile()
		f.Body().SetAttributeTraversal("a", t)
		return func() string { return travStr(all, false) }, func() { spoilTrav(all) }, func() string { return string(f.Bytes()) }
	}},
	{"TokensForTraversal", func(n, room int) (func() string, func(), func() string) {
		all, t := argTrav(n+1, room)
		toks := hclwrite.TokensForTraversal(t)
		return func() string { return travStr(all, false) }, func() { spoilTrav(all) }, func() string {
			f := hclwrite.NewEmptyFile()
			f.Body().AppendUnstructuredTokens(toks)
			return string(f.Bytes())
		}
	}},
	{"TraversalJoin", func(n, room int) (func() string, func(), func() string) {
		all, t := argTrav(n+1, room)
		rel := hcl.Traversal{hcl.TraverseAttr{Name: "x"}, hcl.TraverseAttr{Name: "y"}, hcl.TraverseAttr{Name: "z"}}
		j := hcl.TraversalJoin(t, rel[:2])
		hcl.TraversalJoin(t, rel[1:])
		return func() string { return travStr(all, false) + travStr(rel, true) }, func() { spoilTrav(all); spoilTrav(rel) }, func() string { return travStr(j, false) }
	}},
	{"renaming", func(n, room int) (func() string, func(), func() string) {
		from, to := []string{"a", "b"}, []string{"x", "y"}
		f, _ := hclwrite.ParseConfig([]byte("a = a.b[0] + a.b.a\n"), "f", hcl.InitialPos)
		a := f.Body().GetAttribute("a")
		if n > 2 {
			n = 2
		}
		if n > 0 {
			a.Expr().RenameVariablePrefix(from[:n], to[:n])
		}
		return func() string { return fmt.Sprintf("%q %q", from, to) }, func() { spoilStrs(from); spoilStrs(to) }, func() string { return string(f.Bytes()) }
	}},
	{"MergeBodies", func(n, room int) (func() string, func(), func() string) {
		all := []hcl.Body{}
		for i := 0; i < n+room; i++ {
			f, _ := hclsyntax.ParseConfig([]byte(fmt.Sprintf("a%d = %d\nx l%d {\n}\n", i, i, i)), fmt.Sprintf("f%d", i), hcl.InitialPos)
			all = append(all, f.Body)
		}
		same := append([]hcl.Body(nil), all...)
		m := hcl.MergeBodies(all[:n])
		mixed := append([]hcl.Body{hcl.EmptyBody(), m}, all...)
		mixedStr := func() (s string) {
			for _, b := range mixed {
				s += contentStrOf(b)
			}
			return s
		}
		before := mixedStr()
		m2 := hcl.MergeBodies(mixed[:n+2])
		return func() string {
				for i := range all {
					if all[i] != same[i] {
						return "changed"
					}
				}
				if after := mixedStr(); after != before {
					return "from " + before + " to " + after
				}
				return ""
			}, func() {}, func() string {
				return contentStrOf(m) + contentStrOf(m2)
			}
	}},
	{"MergeFiles", func(n, room int) (func() string, func(), func() string) {
		all := []*hcl.File{}
		for i := 0; i < n+room; i++ {
			f, _ := json.Parse([]byte(fmt.Sprintf(`{"a%d": %d}`, i, i)), "f")
			all = append(all, f)
		}
		same := append([]*hcl.File{}, all...)
		m := hcl.MergeFiles(all[:n])
		return func() string { return fmt.Sprint(reflect.DeepEqual(all, same)) }, func() {
			for i := range all {
				all[i] = nil
			}
		}, func() string { return contentStrOf(m) }
	}},
	{"EncodeIntoBody", func(n, room int) (func() string, func(), func() string) {
		type blk struct {
			L string   `hcl:"l,label"`
			S []string `hcl:"s"`
		}
		all, ls := argStrs(n, room)
		v := struct {
			S []string          `hcl:"s"`
			M map[string]string `hcl:"m"`
			B []*blk            `hcl:"b,block"`
		}{S: ls, M: map[string]string{"b": "1", "a": "2"}}
		for _, l := range ls {
			v.B = append(v.B, &blk{L: l, S: ls})
		}
		f := hclwrite.NewEmptyFile()
		gohcl.EncodeIntoBody(&v, f.Body())
		return func() string { return fmt.Sprintf("%q %q %d %+v", all, v.M, len(v.B), v.B) }, func() { spoilStrs(all); v.M["a"] = "x"; v.B = nil }, func() string { return string(f.Bytes()) }
	}},
	{"messages", func(n, room int) (func() string, func(), func() string) {
		src := "ab = é\nc = d\n"
		d := &hcl.Diagnostic{Severity: hcl.DiagError, Summary: "S", Detail: "Some detail"}
		at := func(i int) hcl.Pos { return advance(hcl.Pos{Line: 1, Column: 1}, []byte(src[:i])) }
		if n > 0 {
			d.Subject = &hcl.Range{Filename: "f", Start: at(n), End: at(n - 1 + 2*room)}
			if d.Subject.End.Byte < d.Subject.Start.Byte {
				d.Subject.End = d.Subject.Start
			}
			if room > 1 {
				d.Context = &hcl.Range{Filename: "f", Start: at(0), End: at(len(src))}
			}
		}
		all := append(hcl.Diagnostics{d, d, d}, make(hcl.Diagnostics, room)...)
		show := func() string {
			return fmt.Sprintf("%+v %+v %s %d", d.Subject, d.Context, d.Error(), cap(all[:3]))
		}
		var b bytes.Buffer
		w := hcl.NewDiagnosticTextWriter(&b, map[string]*hcl.File{"f": {Bytes: []byte(src)}}, 30, n%2 == 0)
		return func() string {
			before := show()
			w.WriteDiagnostics(all[:3])
			w.WriteDiagnostic(d)
			all[:3].Errs()
			all[:3].HasErrors()
			if after := show(); after != before {
				return "from " + before + " to " + after
			}
			return "same"
		}, func() {}, func() string { return "" }
	}},
	{"SetAttributeValue", func(n, room int) (func() string, func(), func() string) {
		m := map[string]cty.Value{}
		var l []cty.Value
		for i := 0; i < n; i++ {
			m[fmt.Sprint("k", i)] = cty.StringVal("x")
			l = append(l, cty.NumberIntVal(int64(9-i)))
		}
		v := cty.ObjectVal(map[string]cty.Value{"m": cty.ObjectVal(m), "l": cty.TupleVal(l)})
		f := hclwrite.NewEmptyFile()
		f.Body().SetAttributeValue("a", v)
		return func() string { return fmt.Sprintf("%#v", v) }, func() {}, func() string { return string(f.Bytes()) }
	}},
	{"AppendUnstructuredTokens", func(n, room int) (func() string, func(), func() string) {
		var all hclwrite.Tokens
		for i := 0; i < n+room; i++ {
			all = append(all, &hclwrite.Token{Type: hclsyntax.TokenIdent, Bytes: []byte(fmt.Sprint("t", i))})
		}
		f := hclwrite.NewEmptyFile()
		f.Body().AppendUnstructuredTokens(all[:n])
		f.Body().AppendNewline()
		f.Body().SetAttributeValue("a", cty.True)
		return func() string {
			s := ""
			for _, t := range all {
				s += string(t.Bytes) + ","
			}
			return s
		}, func() {}, func() string { return string(f.Bytes()) }
	}},
}

func spoilStrs(s []string) {
	for i := range s {
		s[i] = "spoilt"
	}
}

func spoilTrav(t hcl.Traversal) {
	for i := range t {
		t[i] = hcl.TraverseAttr{Name: "spoilt"}
	}
}

func contentStrOf(b hcl.Body) string {
	attrs, diags := b.JustAttributes()
	content, _, _ := b.PartialContent(&hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "x", LabelNames: []string{"l"}}}})
	s := fmt.Sprint(len(diags))
	for i := 0; i < 9; i++ {
		if a := attrs[fmt.Sprint("a", i)]; a != nil {
			v, _ := a.Expr.Value(nil)
			s += fmt.Sprintf("%s=%#v ", a.Name, v)
		}
	}
	for _, bl := range content.Blocks {
		s += fmt.Sprintf("%s %q ", bl.Type, bl.Labels)
	}
	return s
}

func init() {
	fw.Register(&fw.Check{
		ID: "C50",
		Assumptions: []string{
			"files and tokens of the syntax packages may refer to the source they were read from, as documented",
		},
		Suites: []fw.Suite{
			fw.S("sources", "all sources of at most 5 (thorough: 6) pieces out of 11 to 13, as a body, an expression, a template or JSON, inside a larger buffer, given to every function that reads source, and overwritten afterwards", func(t fw.Tier, yield func(fragCase)) {
				n := fw.Pick(t, 5, 6)
				eachString([]string{"a = é", "\n", "b x \"é\" {", "}", "<<-E\n", "  é${a}\n", "  E\n", "/* c\n */", "#c\r\n", "\"", " [1,\n2]", "!"}, 0, n, func(s string) { yield(fragCase{"body", s}) })
				eachString([]string{"a", "[", "]", "\n", ".", "0", "\"é\\n", "\"", "${", "~}", "+ ", "<<-E\n  x\n   ", "\n E\n"}, 0, n, func(s string) { yield(fragCase{"expr", s}) })
				eachString([]string{"é", "${a ~}", "%{ if true }", "%{ else ~}", "%{ endif }", "\n ", "${~ ", "}", "$$", " \"", "%{ for x in l }"}, 0, n, func(s string) { yield(fragCase{"template", s}) })
				eachString([]string{"{", "}", "\"a\"", ":", ",", "[", "]", "\"${a.a}\\n\"", "1.50", "null", "\"x\": \"é\\u00e9\""}, 0, n, func(s string) { yield(fragCase{"json", s}) })
			}, runSrcUse),
			fw.S("contexts", "all basic expressions and traversals of the C34 alphabet and 15 kinds of expression over pairs of 8 operands, in 7 contexts", func(t fw.Tier, yield func(fragCase)) {
				for _, e := range aBasics {
					yield(fragCase{"expr", e.Src})
				}
				aTraversals(2, func(e aExpr) { yield(fragCase{"expr", e.Src}) })
				ops := []string{"1", `"é"`, "null", "a", "l", "a.a", "nope", "l[*]"}
				for _, p := range ops {
					for _, q := range ops {
						for _, s := range []string{"%s + %s", "%s == %s", "%s[%s]", "true ? %s : %s", "\"é%{ if %s }${%s}%{ endif }\"", "{for v in [%s]: v => %s}", "[for a in %s: a if %s]", "[for k, l in %s: [for a in l: %s]]", "f(%s, %s...)", "{(%s) = %s}", "\"%{ for a in %s }${a}%{ endfor }${%s}\"", "%s[*].b[*].%s", "[for a in %s: %s][*]", "id(%s) + %s", "%s.*.b[%s]"} {
							s = strings.Replace(s, "%s", p, 1)
							yield(fragCase{"expr", strings.Replace(s, "%s", q, 1)})
						}
					}
				}
			}, runCtxUse),
			fw.S("schemas", fmt.Sprintf("all bodies of at most 2 (thorough: 3) of 10 items, of %d kinds, and the bodies of their blocks, read with %d schemas that lie in larger arrays", len(bodyKinds), len(guardNames)), func(t fw.Tier, yield func(schemaUse)) {
				eachSeq(len(c12Items), 0, fw.Pick(t, 2, 3), func(ix []int) {
					var items []*bItem
					for _, i := range ix {
						items = append(items, c12Items[i])
					}
					if hasDup(items) {
						return
					}
					for k := range bodyKinds {
						yield(schemaUse{k, bClone(items)})
					}
				})
			}, runSchemaUse),
			fw.S("arguments", "12 calls that take lists, references, bodies, tokens, messages or structures, of at most 4 (thorough: 6) elements with room for at most 3 more", func(t fw.Tier, yield func(argUse)) {
				for c := range argCalls {
					for n := 0; n <= fw.Pick(t, 4, 6); n++ {
						for room := 0; room <= 3; room++ {
							yield(argUse{c, n, room})
						}
					}
				}
			}, func(r *fw.Rec, c argUse) {
				k := argCalls[c.Call]
				r.State(fmt.Sprint(c))
				// What the argument is like without any call is what a call
				// made just the same leaves behind at first.
				arg, spoil, result := k.call(c.N, c.Room)
				r.Op(1)
				first := result()
				shown := arg()
				if k.name == "messages" && shown != "same" || k.name == "MergeBodies" && shown != "" || k.name == "MergeFiles" && shown != "true" {
					r.Failf("argument", "%s with %d elements and room for %d: %s", k.name, c.N, c.Room, shown)
					return
				}
				if want := argWant(k.name, c.N, c.Room); want != "" && shown != want {
					r.Failf("argument", "%s with %d elements and room for %d leaves %s, given %s", k.name, c.N, c.Room, shown, want)
					return
				}
				spoil()
				if later := result(); later != first {
					r.Failf("later", "%s with %d elements and room for %d: %q becomes %q when the argument is used for something else", k.name, c.N, c.Room, first, later)
					return
				}
				r.Trace()
			}),
		},
	})
}

// argWant is what an argument is like before the call.
func argWant(name string, n, room int) string {
	switch name {
	case "AppendNewBlock", "NewBlock":
		all, _ := argStrs(n, room)
		return fmt.Sprintf("%q", all)
	case "SetAttributeTraversal", "TokensForTraversal":
		all, _ := argTrav(n+1, room)
		return travStr(all, false)
	case "TraversalJoin":
		all, _ := argTrav(n+1, room)
		return travStr(all, false) + travStr(hcl.Traversal{hcl.TraverseAttr{Name: "x"}, hcl.TraverseAttr{Name: "y"}, hcl.TraverseAttr{Name: "z"}}, true)
	case "renaming":
		return fmt.Sprintf("%q %q", []string{"a", "b"}, []string{"x", "y"})
	case "AppendUnstructuredTokens":
		s := ""
		for i := 0; i < n+room; i++ {
			s += fmt.Sprintf("t%d,", i)
		}
		return s
	}
	return ""
}
