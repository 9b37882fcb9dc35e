package checks

import (
	"bytes"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
)

// shownDiag is a written diagnostic taken apart.
type shownDiag struct {
	head  string
	on    string // file and line
	none  bool   // no source
	lines map[int]string
	mark  string // marked text
	rest  string
}

var reLine = regexp.MustCompile(`^ *(\d+): (.*)$`)

// readDiag reads a diagnostic written in colour.
func readDiag(s string) (*shownDiag, string) {
	ret := &shownDiag{lines: map[int]string{}}
	parts := strings.SplitN(s, "\n\n", 2)
	if len(parts) < 2 {
		return nil, "no empty line after the summary"
	}
	ret.head = parts[0]
	body := parts[1]
	if !strings.HasPrefix(body, "  on ") {
		ret.rest = body
		return ret, ""
	}
	nl := strings.Index(body, "\n")
	ret.on = body[:nl]
	body = body[nl+1:]
	for {
		nl := strings.Index(body, "\n")
		if nl < 0 {
			return nil, "the source does not end with an empty line"
		}
		line := body[:nl]
		body = body[nl+1:]
		if line == "" {
			break
		}
		if line == "  (source code not available)" {
			ret.none = true
			continue
		}
		m := reLine.FindStringSubmatch(line)
		if m == nil {
			return nil, fmt.Sprintf("line %q is no source line", line)
		}
		n, _ := strconv.Atoi(m[1])
		text := m[2]
		if i := strings.Index(text, "\x1b[1;4m"); i >= 0 {
			j := strings.Index(text, "\x1b[0m")
			if j < i {
				return nil, "the marking does not end"
			}
			ret.mark += text[i+6 : j]
			text = text[:i] + text[i+6:j] + text[j+4:]
		}
		ret.lines[n] = text
	}
	ret.rest = body
	return ret, ""
}

type srcLine struct {
	start, end int // without the line break
	text       string
}

func srcLines(src string) []srcLine {
	var ret []srcLine
	ofs := 0
	for ofs < len(src) {
		end := strings.IndexByte(src[ofs:], '\n')
		next := ofs + end + 1
		if end < 0 {
			end = len(src) - ofs
			next = len(src)
		}
		text := strings.TrimSuffix(src[ofs:ofs+end], "\r")
		ret = append(ret, srcLine{ofs, ofs + len(text), text})
		ofs = next
	}
	return ret
}

// checkShown writes a diagnostic in several ways and checks the text.
func checkShown(r *fw.Rec, desc string, d *hcl.Diagnostic, files map[string]*hcl.File, widths []uint) {
	sev := map[hcl.DiagnosticSeverity]string{hcl.DiagError: "Error", hcl.DiagWarning: "Warning"}[d.Severity]
	for _, width := range widths {
		for _, fs := range []map[string]*hcl.File{files, nil, {"other": {Bytes: []byte("other text\nof another file\n\n")}}} {
			r.Op(1)
			r.Trace()
			var plain, color bytes.Buffer
			if err := hcl.NewDiagnosticTextWriter(&plain, fs, width, false).WriteDiagnostic(d); err != nil {
				r.Failf("write", "%s: %s", desc, err)
			}
			hcl.NewDiagnosticTextWriter(&color, fs, width, true).WriteDiagnostic(d)
			how := fmt.Sprintf("%s, width %d: written as\n%s", desc, width, color.String())
			if p := regexp.MustCompile("\x1b\\[[0-9;]*m").ReplaceAllString(color.String(), ""); p != plain.String() {
				r.Failf("color", "%s\nwithout colour\n%s", how, plain.String())
			}
			for _, c := range []string{"\x1b[31mError\x1b[0m: ", "\x1b[33mWarning\x1b[0m: "} {
				if strings.Contains(c, sev) && !strings.HasPrefix(color.String(), c) {
					r.Failf("severity-color", "%s\nhas another colour", how)
				}
			}
			var bare bytes.Buffer
			hcl.NewDiagnosticTextWriter(&bare, nil, width, false).WriteDiagnostic(&hcl.Diagnostic{Severity: d.Severity, Summary: "s", Detail: d.Detail})
			for _, l := range strings.Split(bare.String(), "\n")[1:] {
				if width >= 20 && utf8.RuneCountInString(l) > int(width) && strings.ContainsAny(strings.TrimSpace(l), " ") {
					r.Failf("width", "%s\nis wider than that: %q", how, l)
				}
			}
			if !strings.HasPrefix(plain.String(), sev+": "+d.Summary+"\n") {
				r.Failf("head", "%s\nlacks severity or summary", how)
			}
			for _, w := range strings.Fields(d.Detail) {
				if !strings.Contains(plain.String(), w) {
					r.Failf("detail", "%s\nlacks the detail", how)
				}
			}
			if width == 0 && d.Detail != "" && !strings.Contains(plain.String(), d.Detail) {
				r.Failf("detail-whole", "%s\nlacks the detail as it is", how)
			}
			if d.Subject == nil {
				continue
			}
			sd, bad := readDiag(color.String())
			if bad != "" {
				r.Failf("form", "%s\n%s", how, bad)
				continue
			}
			if on := fmt.Sprintf("  on %s line %d", d.Subject.Filename, d.Subject.Start.Line); sd.on != on+":" && !strings.HasPrefix(sd.on, on+", in ") {
				r.Failf("place", "%s\nlacks file or line", how)
			}
			f := fs[d.Subject.Filename]
			if f == nil || f.Bytes == nil {
				if !sd.none || len(sd.lines) > 0 {
					r.Failf("no-source", "%s\nthough there is no source", how)
				}
				continue
			}
			checkSnippet(r, how, d, string(f.Bytes), sd)
		}
	}
}

func checkSnippet(r *fw.Rec, how string, d *hcl.Diagnostic, src string, sd *shownDiag) {
	start, end := d.Subject.Start.Byte, d.Subject.End.Byte
	lo, hi := start, end
	if d.Context != nil {
		if d.Context.Start.Byte < lo {
			lo = d.Context.Start.Byte
		}
		if d.Context.End.Byte > hi {
			hi = d.Context.End.Byte
		}
	}
	lines := srcLines(src)
	for n, text := range sd.lines {
		if n < 1 || n > len(lines) || lines[n-1].text != text {
			r.Failf("line-text", "%s\nline %d is not in the source", how, n)
			return
		}
		if l := lines[n-1]; l.start > hi || l.end < lo {
			r.Failf("line-extra", "%s\nline %d is not concerned", how, n)
		}
	}
	mark := ""
	for i, l := range lines {
		if l.start < hi && l.end > lo && l.start < l.end {
			if _, ok := sd.lines[i+1]; !ok {
				r.Failf("line-missing", "%s\nlacks line %d", how, i+1)
			}
		}
		a, b := start, end
		if a < l.start {
			a = l.start
		}
		if b > l.end {
			b = l.end
		}
		if a < b {
			mark += src[a:b]
		}
	}
	if start < end && sd.mark != mark {
		r.Failf("mark", "%s\nmarked %q instead of %q", how, sd.mark, mark)
	}
}

type snipCase struct {
	Src        string
	Start, End int
	CS, CE     int // context, if CE > 0
	Warn       bool
}

var diagDetails = []string{"", "Short.", "A long detail with anextremelylongwordthatdoesnotfitanywhere and é, in several words that have to be wrapped.\n\nAnd a second paragraph."}

// evalSources are sources whose evaluation or decoding reports problems.
var diagBodies = []string{
	"", "a = 1\n", "a = 1\na = 2\n", "b {\n}\n", "b \"l\" {\n  z = 1\n}\n", "b \"l\" \"m\" {\n}\n", "z = 1\n", "z {\n}\n", "a {\n}\n", "b = 1\n", "a = \"é${nope}\"\n", "a = <<E\nx ${1 + \"b\"}\nE\n", "a = \n", "a = [\n  1,\n  nope,\n]\n", "a = {\n  (null) = 1\n}\n",
	"b \"l\" {\n  a = nope.é\n}\n", "b \"l\" {\n\n  a = foo(\n    1\n  )\n}\n", "b \"é\" {", "a = 1 b = 2\n", "a = \"x\n", "# c\r\na = 1 +\r\n", "\ta = ~\n", "a = 1\n}\n", "x = \"\\q\"\n", "a = 08.\n", "a = \xff\n", "a = 'x'\n", "a = \"${\n", "b \"${x}\" {\n}\n", "a = [for x in 1: x]\n", "a = {for x in []: x}\n", "a = 1 ? 2 : \"\\u00e9\"\n", "a = \"%{ if }\"\n", "a = \"%{ endif }\"\n",
}
var diagJSON = []string{
	`{}`, `{"a": 1}`, `{"a": 1, "a": 2}`, `{"b": 1}`, `{"b": {"l": {"z": 1}}}`, `{"z": 1}`, `{"a": "${nope}"}`, "{\n  \"a\": \"é${1 + \\\"b\\\"}\"\n}", `{"a": {"${null}": 1}}`, `{`, `{"a"`, `{"a": }`, `{"a": "x`, `[1]`, `1`, ``, `{"a": tru}`, `{"a": 01}`, "{\"a\":\n\n \"${foo(}\"}", `{"a": ["${nope}", 1]}`, `{"b": [{"l": 1}]}`, `{"a": 1,}`, `{"a": "\ud800"}`, `{"a" 1}`, `{"a": 'x'}`, "{\"a\": \xff}", `{1: 2}`, `{"a": {"${x}": 1, "k": 2}}`,
}

// varStmts are the statements about variables that a message must make.
func varStmts(d *hcl.Diagnostic) []string {
	if d.Expression == nil || d.EvalContext == nil || d.Subject == nil {
		return nil
	}
	var ret []string
	for _, t := range d.Expression.Variables() {
		simple := true
		name := ""
		for _, s := range t {
			switch s := s.(type) {
			case hcl.TraverseIndex:
				switch s.Key.Type() {
				case cty.Number:
					name += "[" + s.Key.AsBigFloat().Text('g', 10) + "]"
				case cty.String:
					name += fmt.Sprintf("[%q]", s.Key.AsString())
				default:
					simple = false
				}
			case hcl.TraverseRoot:
				name = s.Name
			case hcl.TraverseAttr:
				name += "." + s.Name
			default:
				simple = false
			}
		}
		v, diags := t.TraverseAbs(d.EvalContext)
		if !simple || diags.HasErrors() || !v.IsKnown() {
			continue
		}
		switch {
		case v.IsNull():
			ret = append(ret, name+" set to null")
		case v.Type() == cty.String:
			ret = append(ret, fmt.Sprintf("%s as %q", name, v.AsString()))
		case v.Type() == cty.Bool:
			ret = append(ret, fmt.Sprintf("%s as %v", name, v.True()))
		case v.Type() == cty.Number:
			ret = append(ret, name+" as "+v.AsBigFloat().Text('g', 10))
		default:
			ret = append(ret, name+" as ")
		}
	}
	return ret
}

func runDiags(r *fw.Rec, desc string, src []byte, name string, f *hcl.File, diags hcl.Diagnostics, eval bool) {
	files := map[string]*hcl.File{name: {Bytes: src}}
	if f != nil {
		files[name] = f
	}
	var all, each bytes.Buffer
	for i, d := range diags {
		if d == nil {
			r.Failf("nil", "%s: a nil diagnostic", desc)
			return
		}
		what := fmt.Sprintf("%s: message %d", desc, i)
		checkShown(r, what, d, files, []uint{0, 1, 40, 78})
		if m := badDiag(d, 0, len(src)); m != "" && eval {
			r.Failf("subject", "%s: %s", what, m)
		}
		if d.Subject != nil && eval && d.Subject.Filename != name {
			r.Failf("subject-file", "%s is about %q", what, d.Subject.Filename)
		}
		var b bytes.Buffer
		hcl.NewDiagnosticTextWriter(&b, files, 78, false).WriteDiagnostic(d)
		for _, s := range varStmts(d) {
			if !strings.Contains(b.String(), s) {
				r.Failf("variables", "%s written as\n%s\ndoes not say %s", what, b.String(), s)
			}
		}
		each.Write(b.Bytes())
	}
	hcl.NewDiagnosticTextWriter(&all, files, 78, false).WriteDiagnostics(diags)
	if all.String() != each.String() {
		r.Failf("all", "%s: written together\n%s\none by one\n%s", desc, all.String(), each.String())
	}
}

var loopElems = []cty.Value{num("1"), str("s"), obj("a", num("1")), null(cty.DynamicPseudoType), tup(num("1"), str("t")), obj("a", str("q"))}

var loopBodies = []string{"v.a", "v + 1", "v[0]", "-v", "num(v)", "\"x${v}y\"", "v ? 1 : 2", "v.a + 1", "[for w in v: w + 1]", "[for v in v: -v]", "v[*].a", "{(v) = k}", "[v.a, v[0], k.z]", "id(v).a", "true ? v.a : 1"}

var loopForms = []string{"[for k, v in l: %s]", "{for k, v in l: \"${k}\" => %s}", "{for k, v in l: \"g\" => %s...}", "[for k, v in l: 1 if (%s) == 1]", "[for x in [0, 1]: [for k, v in l: %s]]", "\"%%{ for k, v in l }${%s}%%{ endfor }\""}

// loopCase is a loop over some elements, of a tuple or an object.
type loopCase struct {
	Elems      []int
	Body, Form int
	Obj        bool
}

// inEffect describes the values of k and v, if known, that a context gives.
func inEffect(ctx *hcl.EvalContext) (string, bool) {
	ret := ""
	for _, n := range []string{"k", "v", "w"} {
		for c := ctx; c != nil; c = c.Parent() {
			if v, ok := c.Variables[n]; ok {
				if !v.IsKnown() {
					return "", false
				}
				ret += fmt.Sprintf("%s is %#v, ", n, v)
				break
			}
		}
	}
	return ret, true
}

var shownVals = []cty.Value{num("1"), num("1234567.25"), num("-0.000012345678"), num("12345678901"), str(""), str("é\"\n"), str("a b"), cty.True, cty.False, null(cty.String), null(cty.DynamicPseudoType), cty.UnknownVal(cty.String), cty.EmptyTupleVal, obj("k", num("1"))}

func uniqStrs(in []string) (ret []string) {
	seen := map[string]bool{}
	for _, s := range in {
		if !seen[s] {
			ret = append(ret, s)
		}
		seen[s] = true
	}
	return
}

func runLoop(r *fw.Rec, c loopCase) {
	r.State(fmt.Sprint(c))
	src := fmt.Sprintf(loopForms[c.Form], loopBodies[c.Body])
	loop, diags := hclsyntax.ParseExpression([]byte(src), "f", hcl.InitialPos)
	body, diags2 := hclsyntax.ParseExpression([]byte(loopBodies[c.Body]), "f", hcl.InitialPos)
	if len(diags) > 0 || len(diags2) > 0 {
		r.Failf("parse", "%s: %s%s", src, diagsStr(diags), diagsStr(diags2))
		return
	}
	var elems []cty.Value
	for _, e := range c.Elems {
		elems = append(elems, loopElems[e])
	}
	coll := tup(elems...)
	if c.Obj {
		m := map[string]cty.Value{}
		for i, e := range elems {
			m[string(rune('p'+i))] = e
		}
		coll = cty.ObjectVal(m)
	}
	ctx := aCtxs()[0].NewChild()
	ctx.Variables = map[string]cty.Value{"l": coll}
	want := map[string]bool{}
	for it := coll.ElementIterator(); it.Next(); {
		k, v := it.Element()
		in := ctx.NewChild()
		in.Variables = map[string]cty.Value{"k": k, "v": v}
		_, diags := body.Value(in)
		for _, d := range diags {
			if d.EvalContext == nil {
				continue
			}
			if s, ok := inEffect(d.EvalContext); ok {
				want[s+d.Summary] = true
			}
		}
	}
	_, diags = loop.Value(ctx)
	r.Op(1)
	n := 0
	for _, d := range diags {
		if d.EvalContext == nil {
			continue
		}
		s, ok := inEffect(d.EvalContext)
		if !ok || c.Form == 5 && d.Subject.End.Byte-d.Subject.Start.Byte == len(src) || s == "" {
			continue // about the whole, or found in advance
		}
		n++
		if !want[s+d.Summary] {
			if c.Form == 5 && !strings.Contains(sortedStr(keysOf(want)), d.Summary) {
				continue // about the result of the loop
			}
			r.Failf("iteration", "%s with %#v: %s (%s) is reported with the values of another iteration: %s", src, coll, d.Summary, d.Subject, s)
			return
		}
	}
	if n == 0 && len(want) > 0 && c.Form != 3 {
		r.Failf("iteration-none", "%s with %#v: of %v only %s is reported", src, coll, sortedStr(keysOf(want)), diagsStr(diags))
		return
	}
	r.Trace()
}

func keysOf(m map[string]bool) (ret []string) {
	for k := range m {
		ret = append(ret, k)
	}
	return
}

func runSnippet(r *fw.Rec, c snipCase) {
	r.State(fmt.Sprint(c))
	at := func(ofs int) hcl.Pos {
		if ofs > len(c.Src) {
			p := advance(hcl.Pos{Line: 1, Column: 1}, []byte(c.Src))
			p.Byte, p.Column = ofs, p.Column+ofs-len(c.Src)
			return p
		}
		return advance(hcl.Pos{Line: 1, Column: 1}, []byte(c.Src[:ofs]))
	}
	d := &hcl.Diagnostic{Severity: hcl.DiagError, Summary: "Summary é", Detail: diagDetails[(c.Start+c.End)%3], Subject: &hcl.Range{Filename: "f", Start: at(c.Start), End: at(c.End)}}
	if c.Warn {
		d.Severity = hcl.DiagWarning
	}
	if c.CE > 0 {
		d.Context = &hcl.Range{Filename: "f", Start: at(c.CS), End: at(c.CE)}
	}
	desc := fmt.Sprintf("range %d to %d (context %d to %d) of %q", c.Start, c.End, c.CS, c.CE, c.Src)
	checkShown(r, desc, d, map[string]*hcl.File{"f": {Bytes: []byte(c.Src)}}, []uint{0, 1, 20, 78})
	if !strings.Contains(d.Error(), "Summary é") || !strings.Contains(d.Error(), d.Detail) || !strings.Contains(d.Error(), "f:") {
		r.Failf("error-text", "%s: as an error %q", desc, d.Error())
	}
}

func init() {
	fw.Register(&fw.Check{
		ID: "C35",
		Assumptions: []string{
			"what is marked for an empty range is not judged, only that the lines shown are those of the source",
			"how values other than null and primitive ones are described is not judged",
		},
		Suites: []fw.Suite{
			fw.S("snippets", "all buffers of at most four (thorough: five) pieces of six, with all ranges, and all contexts around them, at four widths, with and without source", func(t fw.Tier, yield func(snipCase)) {
				eachString([]string{"a", "é", "\n", "\r\n", "  b", "c\u0301"}, 0, fw.Pick(t, 4, 5), func(s string) {
					var cuts []int
					for i := 0; i <= len(s); i++ {
						if i == len(s) || s[i]&0xC0 != 0x80 {
							cuts = append(cuts, i)
						}
					}
					for i, a := range cuts {
						for j, b := range cuts[i:] {
							yield(snipCase{Src: s, Start: a, End: b, Warn: (i+j)%2 == 0})
							if len(s) < 6 || (i+j)%3 == 0 {
								yield(snipCase{Src: s, Start: a, End: b, CS: 0, CE: len(s)})
								yield(snipCase{Src: s, Start: a, End: b, CS: a, CE: len(s)})
								yield(snipCase{Src: s, Start: a, End: b, CS: 0, CE: b})
							}
							if len(s) < fw.Pick(t, 6, 8) {
								// Contexts that reach beyond only one end, or
								// not even to the ends.
								for k, cs := range cuts {
									for _, ce := range cuts[k:] {
										if cs < b && ce > a && (cs > a || ce < b) {
											yield(snipCase{Src: s, Start: a, End: b, CS: cs, CE: ce})
										}
									}
								}
							}
						}
						// Beyond the end, as for a file cut short.
						yield(snipCase{Src: s, Start: a, End: len(s) + 2})
					}
				})
			}, runSnippet),
			fw.S("sizes", "a range in the first, the last and a middle line of a text of as many lines, or in as long a line, with "+sizesText, func(t fw.Tier, yield func(snipCase)) {
				for _, n := range sizes(t) {
					src := strings.Repeat("ab = é\n", n)
					wide := strings.Repeat("xé", n) + "\nend\n"
					for _, k := range []int{0, n / 2, n - 1} {
						yield(snipCase{Src: src, Start: 8 * k, End: 8*k + 2, Warn: k%2 == 0})
						yield(snipCase{Src: src, Start: 8*k + 5, End: 8*k + 7, CS: 0, CE: len(src)})
						yield(snipCase{Src: src, Start: 0, End: 8*k + 2})
						yield(snipCase{Src: wide, Start: 3 * k, End: 3*k + 1})
						yield(snipCase{Src: wide, Start: 3 * k, End: 3 * n, CS: 0, CE: len(wide)})
					}
				}
			}, runSnippet),
			fw.S("evaluation", "the messages from evaluating all expressions of the C34 alphabet, and all operators, conditionals, templates, indices, calls and for expressions over pairs of 14 operands, in three contexts, natively and in JSON", func(t fw.Tier, yield func(fw.StrCase)) {
				for _, e := range aBasics {
					yield(fw.StrCase(e.Src))
				}
				aTraversals(2, func(e aExpr) { yield(fw.StrCase(e.Src)) })
				ops := []string{"1", `"é"`, "null", "a", "l", "o.k", "u", "nope", "[1]", "{}", "x", "id(x)", "true", "nofn(x)"}
				for _, p := range ops {
					for _, s := range []string{"-%s", "!%s", "%s[*].zz", "%s.zz", "\"a${%s}\"", "[for v in %s: v]", "{for k, v in %s: k => v}", "cat(%s...)", "num(%s)", "id(%s, 1)", "{(%s) = 1}", "[%s...]", "<<E\n  é ${%s}\nE\n", "[for v in l: %s]", "[for x in l: num(x)]", "(\n%s\n)"} {
						yield(fw.StrCase(fmt.Sprintf(s, p)))
					}
					for _, q := range ops {
						for _, s := range []string{"%s + %s", "%s == %s", "%s && %s", "%s < %s", "%s[%s]", "true ? %s : %s", "%s ? %s : 1", "%s % %s", "\"%{ if %s }${%s}%{ endif }\"", "{for v in [%s]: v => %s}", "{for v in [%s]: v => %s...}", "[for v in [%s]: v if %s]", "cat(%s, %s)"} {
							s = strings.Replace(s, "%s", p, 1)
							yield(fw.StrCase(strings.Replace(s, "%s", q, 1)))
						}
					}
				}
			}, func(r *fw.Rec, c fw.StrCase) {
				r.State(string(c))
				src := append([]byte("a = "), c...)
				if !strings.HasSuffix(string(src), "\n") {
					src = append(src, '\n')
				}
				f, diags := hclsyntax.ParseConfig(src, "f", hcl.Pos{Line: 1, Column: 1})
				if diags.HasErrors() {
					runDiags(r, string(c), src, "f", f, diags, true)
				} else {
					attrs, _ := f.Body.JustAttributes()
					for _, ctx := range append(aCtxs(), nil) {
						_, diags := attrs["a"].Expr.Value(ctx)
						runDiags(r, string(c), src, "f", f, diags, true)
					}
				}
				js := []byte("{\n  \"é\": 1, \"a\": " + jsonStr("${"+string(c)+"}") + "\n}")
				f, diags = json.Parse(js, "f.json")
				if diags.HasErrors() {
					runDiags(r, string(js), js, "f.json", f, diags, true)
					return
				}
				attrs, _ := f.Body.JustAttributes()
				for _, ctx := range aCtxs() {
					_, diags := attrs["a"].Expr.Value(ctx)
					runDiags(r, string(js), js, "f.json", f, diags, true)
				}
			}),
			fw.S("values", "messages about 10 expressions with each of 14 values and pairs of them", func(t fw.Tier, yield func([]int)) {
				eachSeq(len(shownVals), 2, 2, func(ix []int) { yield(append([]int{}, ix...)) })
			}, func(r *fw.Rec, c []int) {
				r.State(fmt.Sprint(c))
				ctx := &hcl.EvalContext{Variables: map[string]cty.Value{"a": shownVals[c[0]], "b": tup(shownVals[c[1]], obj("k", shownVals[c[0]]))}}
				for _, src := range []string{"a", "b[0]", "[a, b[0]]", "b[1].k", "b[1][\"k\"]", "a + a", "[a, b[0], b[1].k, b[1]]", "nope", "[b[7], a]", "1"} {
					e, _ := hclsyntax.ParseExpression([]byte(src), "f", hcl.InitialPos)
					r.Op(1)
					d := &hcl.Diagnostic{Severity: hcl.DiagError, Summary: "S", Detail: "D", Subject: e.Range().Ptr(), Expression: e, EvalContext: ctx}
					runDiags(r, fmt.Sprintf("%s with %#v", src, ctx.Variables), []byte(src), "f", nil, hcl.Diagnostics{d}, false)
					var b bytes.Buffer
					hcl.NewDiagnosticTextWriter(&b, nil, 0, false).WriteDiagnostic(d)
					if stmts := varStmts(d); len(uniqStrs(stmts)) != strings.Count(b.String(), " as ")+strings.Count(b.String(), " set to null") {
						r.Failf("statements", "%s written as\n%s\nstates other than %q", src, b.String(), stmts)
					}
				}
			}),
			fw.S("iterations", "15 expressions with the variables of a loop, in 6 kinds of loops over all tuples and objects of at most 3 (thorough: 4) elements out of 6", func(t fw.Tier, yield func(loopCase)) {
				eachSeq(len(loopElems), 1, fw.Pick(t, 3, 4), func(ix []int) {
					for b := range loopBodies {
						for f := range loopForms {
							for _, o := range []bool{false, true} {
								yield(loopCase{append([]int{}, ix...), b, f, o})
							}
						}
					}
				})
			}, runLoop),
			fw.S("decoding", "the messages from parsing and decoding all bodies of the alphabet and pairs of them, natively and in JSON, and of all token strings of at most three (thorough: four) tokens", func(t fw.Tier, yield func(fw.StrCase)) {
				for _, s := range diagBodies {
					yield(fw.StrCase(s))
				}
				for _, s := range diagJSON {
					yield(fw.StrCase("J" + s))
				}
				for _, s := range diagBodies {
					for _, u := range diagBodies {
						yield(fw.StrCase(s + u))
					}
				}
				eachString([]string{"a ", "= ", "1", "{", "}", "\"", "${", "\n", "b ", "é", "<<E\n", "(", "\r\n", "#"}, 0, fw.Pick(t, 3, 4), func(s string) { yield(fw.StrCase(s)) })
				eachString([]string{"{", "}", "[", "]", "\"a\"", ":", ",", "1", "\n", "\"${", "\"", "é"}, 1, fw.Pick(t, 3, 4), func(s string) { yield(fw.StrCase("J" + s)) })
			}, func(r *fw.Rec, c fw.StrCase) {
				r.State(string(c))
				src, name := []byte(c), "f"
				var f *hcl.File
				var diags hcl.Diagnostics
				if len(c) > 0 && c[0] == 'J' {
					src, name = src[1:], "f.json"
					f, diags = json.Parse(src, name)
				} else {
					f, diags = hclsyntax.ParseConfig(src, name, hcl.Pos{Line: 1, Column: 1})
				}
				runDiags(r, fmt.Sprintf("parsing %q", c), src, name, f, diags, true)
				if f == nil || f.Body == nil {
					return
				}
				spec := hcldec.ObjectSpec{
					"a": &hcldec.AttrSpec{Name: "a", Type: cty.Number, Required: true},
					"b": &hcldec.BlockMapSpec{TypeName: "b", LabelNames: []string{"l"}, Nested: &hcldec.AttrSpec{Name: "a", Type: cty.String, Required: true}},
				}
				for _, ctx := range append(aCtxs()[:1], nil) {
					_, diags = hcldec.Decode(f.Body, spec, ctx)
					runDiags(r, fmt.Sprintf("decoding %q", c), src, name, f, diags, true)
					var v struct {
						A int `hcl:"a"`
						B []struct {
							L string `hcl:"l,label"`
							A string `hcl:"a"`
						} `hcl:"b,block"`
					}
					runDiags(r, fmt.Sprintf("decoding %q into a structure", c), src, name, f, gohcl.DecodeBody(f.Body, ctx, &v), true)
				}
				_, diags = f.Body.JustAttributes()
				runDiags(r, fmt.Sprintf("attributes of %q", c), src, name, f, diags, true)
			}),
			fw.S("sets", "all lists of at most five (thorough: seven) severities, cut and joined at every place", func(t fw.Tier, yield func([]int)) {
				eachSeq(2, 0, fw.Pick(t, 5, 7), func(ix []int) { yield(append([]int{}, ix...)) })
			}, func(r *fw.Rec, c []int) {
				r.State(fmt.Sprint(c))
				mk := func(i int) *hcl.Diagnostic {
					return &hcl.Diagnostic{Severity: []hcl.DiagnosticSeverity{hcl.DiagError, hcl.DiagWarning}[c[i]], Summary: fmt.Sprintf("S%d", i), Detail: "D"}
				}
				var ds hcl.Diagnostics
				errs := []string{}
				for i := range c {
					d := mk(i)
					n := ds.Append(d)
					if len(n) != i+1 || n[i] != d {
						r.Failf("append", "appending to %d of %v", i, c)
					}
					ds = n
					if c[i] == 0 {
						errs = append(errs, d.Summary)
					}
					r.Op(1)
					if ds.HasErrors() != (len(errs) > 0) {
						r.Failf("has-errors", "%v has errors: %v", c[:i+1], ds.HasErrors())
					}
				}
				r.Trace()
				var got []string
				for _, e := range ds.Errs() {
					got = append(got, e.(*hcl.Diagnostic).Summary)
				}
				if strings.Join(got, ",") != strings.Join(errs, ",") {
					r.Failf("errs", "the errors of %v are %v", c, got)
				}
				for cut := 0; cut <= len(c); cut++ {
					e := append(hcl.Diagnostics{}, ds[:cut]...).Extend(ds[cut:])
					if len(e) != len(ds) {
						r.Failf("extend", "extending %d of %v", cut, c)
						continue
					}
					for i := range e {
						if e[i] != ds[i] {
							r.Failf("extend-order", "extending %d of %v", cut, c)
						}
					}
				}
				s := ds.Error()
				switch {
				case len(ds) == 0:
				case !strings.Contains(s, "S0"):
					r.Failf("error", "%v as an error: %q", c, s)
				case len(ds) > 1 && !strings.Contains(s, fmt.Sprint(len(ds)-1)):
					r.Failf("error-count", "%v as an error: %q", c, s)
				}
				if err := hcl.NewDiagnosticTextWriter(&bytes.Buffer{}, nil, 10, false).WriteDiagnostic(nil); err == nil {
					r.Failf("write-nil", "a nil diagnostic is written")
				}
			}),
		},
	})
}
