package checks

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
	"verif/mc/ref"
)

var tmplEnv = envOf([]namedVal{
	{"n", num("1")}, {"s", str(" v ")}, {"t", cty.True}, {"f", cty.False}, {"l", tup(str("x"), num("2"))}, {"z", null(cty.String)},
	{"o", obj("b", str("B"), "a", str("A"))}, {"e", cty.ListValEmpty(cty.String)},
})

var tmplCtx = toCtx(tmplEnv, nil)

func withMarkers(n *ref.Node, m ...string) *ref.Node {
	c := *n
	c.N = append(append([]string{}, n.N...), m...)
	return &c
}

func tmplPieces() []*ref.Node {
	var ps []*ref.Node
	for _, l := range []string{"a", " ", " b ", "\n", " \n\t c", "$", "%", "${", "%{x}", `"`, `\`, "é~}", "{", " "} {
		ps = append(ps, ref.Lit(l))
	}
	for _, x := range []*ref.Node{ref.Var("n"), ref.Var("s")} {
		for _, m := range [][]string{{"", ""}, {"~", ""}, {"", "~"}, {"~", "~"}} {
			ps = append(ps, withMarkers(ref.Interp(x), m...))
		}
	}
	for _, x := range []*ref.Node{ref.Var("t"), ref.Var("l"), ref.Var("z"), ref.Null(), ref.Str("q\n\"${"), ref.Tmpl(ref.Lit("<"), ref.Interp(ref.Var("n")), ref.Lit(">")), ref.Tmpl(ref.Interp(ref.Var("n"))), ref.Obj(ref.Key("k"), ref.Num("1"))} {
		ps = append(ps, ref.Interp(x))
	}
	bodies := []*ref.Node{ref.Body(), ref.Body(ref.Lit(" in ")), ref.Body(ref.Interp(ref.Var("n"))), ref.Body(ref.Lit("\n  x"), ref.Interp(ref.Var("s")), ref.Lit("y\n"))}
	marks := [][]string{{}, {"~", "~", "~", "~", "~", "~"}, {"", "~", "~", "~", "~", ""}, {"~", "", "", "~", "", "~"}}
	for _, c := range []string{"t", "f"} {
		for i, b := range bodies {
			for j, m := range marks {
				ps = append(ps, withMarkers(ref.If(ref.Var(c), b, nil), m...))
				if (i+j)%2 == 0 {
					ps = append(ps, withMarkers(ref.If(ref.Var(c), b, bodies[(i+1)%4]), m...))
				}
			}
		}
	}
	for _, coll := range []string{"l", "o", "e"} {
		for _, b := range []*ref.Node{ref.Body(), ref.Body(ref.Lit(" "), ref.Interp(ref.Var("v")), ref.Lit(" ")), ref.Body(ref.Interp(ref.Var("v"))), ref.Body(ref.Lit("\n "), ref.Interp(ref.Var("k")), ref.Interp(ref.Var("v")))} {
			for _, m := range [][]string{{}, {"~", "~", "~", "~"}, {"", "~", "~", ""}} {
				ps = append(ps, withMarkers(ref.TFor("k", "v", ref.Var(coll), b), m...))
			}
		}
	}
	ps = append(ps, ref.TFor("", "n", ref.Var("l"), ref.Body(ref.Interp(ref.Var("n")), ref.If(ref.Bin("==", ref.Var("n"), ref.Num("2")), ref.Body(ref.Lit("!")), nil))))
	ps = append(ps, ref.If(ref.Var("t"), ref.Body(ref.TFor("", "v", ref.Var("l"), ref.Body(ref.Interp(ref.Var("v"))))), ref.Body(ref.If(ref.Var("f"), ref.Body(), ref.Body(ref.Lit("k"))))))
	ps = append(ps, ref.If(ref.Var("z"), ref.Body(), nil), ref.If(ref.Var("n"), ref.Body(), nil), ref.TFor("", "v", ref.Var("z"), ref.Body()), ref.TFor("", "v", ref.Var("n"), ref.Body()),
		ref.If(ref.Var("t"), ref.Body(ref.Lit("ok")), ref.Body(ref.Interp(ref.Var("undefined")))), ref.If(ref.Var("f"), ref.Body(ref.Lit("ok")), ref.Body(ref.Interp(ref.Var("z")))))
	return ps
}

type tmplCase struct{ P []*ref.Node }

func (c tmplCase) String() string { return ref.Tmpl(c.P...).PrintTemplate(ref.Spaced) }

// ambiguous tells whether a literal would join with a following introducer.
func ambiguous(parts []*ref.Node, heredoc bool) bool {
	for i, p := range parts {
		if p.K == "lit" && i+1 < len(parts) && parts[i+1].K != "lit" && (strings.HasSuffix(p.S, "$") || strings.HasSuffix(p.S, "%")) {
			return true
		}
		for _, x := range p.X {
			if x.K != "body" {
				continue
			}
			if n := len(x.X); n > 0 && x.X[n-1].K == "lit" && (strings.HasSuffix(x.X[n-1].S, "$") || strings.HasSuffix(x.X[n-1].S, "%")) {
				return true
			}
		}
	}
	return false
}

func init() {
	fw.Register(&fw.Check{
		ID: "C06",
		Assumptions: []string{"a strip marker acts on the literal text of its own line, including the line break",
			"strip markers inside flush heredocs are not judged", "conversion to string is that of the value library"},
		Suites: []fw.Suite{
			fw.S("parts", "all sequences of up to 2 parts (thorough 3) out of 112 literals, interpolations and directives with strip markers, quoted, stand-alone and as heredoc",
				func(t fw.Tier, yield func(tmplCase)) {
					ps := tmplPieces()
					eachSeq(len(ps), 0, fw.Pick(t, 2, 3), func(i []int) {
						var x []*ref.Node
						for _, k := range i {
							x = append(x, ps[k])
						}
						yield(tmplCase{x})
					})
				}, runTmpl),
			fw.S("strip", "all sequences of 3 to 5 parts (thorough 6) over spaces, newlines, text and interpolations with every combination of strip markers",
				func(t fw.Tier, yield func(tmplCase)) {
					ps := []*ref.Node{ref.Lit(" "), ref.Lit("\n"), ref.Lit("x")}
					for _, m := range [][]string{{"", ""}, {"~", ""}, {"", "~"}, {"~", "~"}} {
						ps = append(ps, withMarkers(ref.Interp(ref.Var("s")), m...))
					}
					ps = append(ps, withMarkers(ref.If(ref.Var("t"), ref.Body(ref.Lit(" \n ")), nil), "", "~", "", "", "~", "~"))
					eachSeq(len(ps), 3, fw.Pick(t, 5, 6), func(i []int) {
						var x []*ref.Node
						for _, k := range i {
							x = append(x, ps[k])
						}
						yield(tmplCase{x})
					})
				}, runTmpl),
			fw.S("escapes", "all quoted and stand-alone texts of up to 4 pieces (thorough 5) out of dollars, percents, braces, backslash escapes and text",
				func(t fw.Tier, yield func(fw.StrCase)) {
					eachString([]string{"a", " ", "$", "%", "{", "}", `\n`, `\\`, `\"`, `\t`, `\r`, `\u00e9`, `\U0001F600`, `\u0041`, `\x`, `\u12`, `\u`, `\UD800`, `\`, "é", "${n}", "%{if t}", "~", `\uD800`, `\$`, "'", "\t"}, 0, fw.Pick(t, 4, 5), func(s string) { yield(fw.StrCase(s)) })
				}, runEscapes),
			fw.S("flush", "all flush and plain heredocs of up to 4 lines (thorough 5) out of 20 indented, blank and interpolated lines, with line endings LF and CRLF and indented end markers",
				func(t fw.Tier, yield func([]int)) {
					eachSeq(len(heredocLines), 0, fw.Pick(t, 4, 5), func(i []int) { yield(append([]int{}, i...)) })
				}, runHeredoc),
			fw.S("directives", "all sequences of up to 6 (thorough 7) pieces out of text, two interpolations and the 6 parts of directives, whether balanced or not",
				func(t fw.Tier, yield func([]int)) {
					eachSeq(len(dirPieces), 0, fw.Pick(t, 5, 7), func(i []int) { yield(append([]int{}, i...)) })
					if t == fw.Quick {
						eachSeq(len(dirPieces), 6, 6, func(i []int) {
							if i[0] > 3 && i[0] != 8 {
								yield(append([]int{}, i...))
							}
						})
					}
				}, runDirectives),
		},
	})
}

func runTmpl(r *fw.Rec, c tmplCase) {
	parts := ref.Merge(c.P)
	t := ref.Tmpl(parts...)
	r.State(t.PrintTemplate(ref.Spaced))
	if !ambiguous(parts, false) {
		src := t.Print(ref.Spaced, true)
		checkEval(r, src, t, tmplEnv, tmplCtx)
		src = t.PrintTemplate(ref.Compact)
		e, diags := hclsyntax.ParseTemplate([]byte(src), "t.tmpl", hcl.InitialPos)
		r.Op(1)
		if diags.HasErrors() {
			r.Failf("", "valid template %q is rejected: %s", src, diagsStr(diags))
			return
		}
		ev := &ref.Eval{}
		want := ev.BareTemplate(parts, tmplEnv)
		compareOut(r, src, e, want, tmplCtx, "")
	}
	hp := ref.Merge(append(append([]*ref.Node{}, parts...), ref.Lit("\n")))
	if !ambiguous(hp, true) {
		src := "<<EOT_\n" + ref.Tmpl(hp...).PrintTemplate(ref.Spaced) + "EOT_\n"
		e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.InitialPos)
		r.Op(1)
		if diags.HasErrors() {
			r.Failf("", "valid heredoc %q is rejected: %s", src, diagsStr(diags))
			return
		}
		ev := &ref.Eval{}
		compareOut(r, src, e, ev.BareTemplate(hp, tmplEnv), tmplCtx, "")
	}
	r.Trace()
}

// decodeText is the model of template text made of literals and the two
// sequences the alphabet contains. state is "ok", "err" or "skip".
func decodeText(s string, quoted bool) (out string, state string) {
	state = "ok"
	var b strings.Builder
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == '$' || c == '%':
			j := i
			for j < len(s) && s[j] == c {
				j++
			}
			if j < len(s) && s[j] == '{' {
				if j-i >= 2 {
					// escaped introducer: one of the characters is dropped
					b.WriteString(s[i+1 : j+1])
					i = j + 1
					continue
				}
				if strings.HasPrefix(s[i:], "${n}") {
					b.WriteString("1")
					i += 4
					continue
				}
				return "", "skip"
			}
			b.WriteString(s[i:j])
			i = j
		case c == '\\' && quoted:
			if i+1 >= len(s) {
				return "", "skip" // would escape the closing quote
			}
			n := 0
			switch s[i+1] {
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case '"':
				b.WriteByte('"')
			case '\\':
				b.WriteByte('\\')
			case 'u':
				n = 4
			case 'U':
				n = 8
			default:
				state = "err"
				if s[i+1] == '$' || s[i+1] == '%' {
					return "", "skip"
				}
			}
			i += 2
			if n > 0 {
				if i+n > len(s) {
					state = "err"
					continue
				}
				v, err := strconv.ParseUint(s[i:i+n], 16, 32)
				if err != nil || !utf8.ValidRune(rune(v)) || v > utf8.MaxRune {
					state = "err"
					continue
				}
				b.WriteRune(rune(v))
				i += n
			}
		case c == '"' && quoted:
			return "", "skip"
		default:
			b.WriteByte(c)
			i++
		}
	}
	return b.String(), state
}

func runEscapes(r *fw.Rec, c fw.StrCase) {
	for _, quoted := range []bool{true, false} {
		want, state := decodeText(string(c), quoted)
		r.State(fmt.Sprint(quoted), want, state)
		if state == "skip" {
			r.Count("unjudged", 1)
			continue
		}
		if string(c) == "${n}" {
			continue // single interpolation, judged elsewhere
		}
		var e hcl.Expression
		var diags hcl.Diagnostics
		if quoted {
			e, diags = hclsyntax.ParseExpression([]byte(`"`+string(c)+`"`), "t.hcl", hcl.InitialPos)
		} else {
			e, diags = hclsyntax.ParseTemplate(c, "t.hcl", hcl.InitialPos)
		}
		r.Op(1)
		if state == "err" {
			if !diags.HasErrors() {
				r.Failf("", "invalid escape in \"%s\" is accepted", c)
				return
			}
			continue
		}
		if diags.HasErrors() {
			r.Failf("", "valid template %q (quoted %v) is rejected: %s", c, quoted, diagsStr(diags))
			return
		}
		v, diags := e.Value(tmplCtx)
		r.Op(1)
		if diags.HasErrors() || !v.RawEquals(cty.StringVal(want)) {
			r.Failf("", "template %q (quoted %v) gives %#v %s, want %q", c, quoted, v, diagsStr(diags), want)
			return
		}
		r.Trace()
	}
}

// dirPieces are pieces of templates, in order: text, interpolations and parts
// of directives.
var dirPieces = []string{"a", "${n}", "${v}", "%{ endfor }", "%{ if t }", "%{ if f }", "%{ for v in l }", "%{ else }", "%{ endif }"}

// parseDirs reads pieces up to one that ends the parts.
func parseDirs(c []int) (parts []*ref.Node, rest []int, ok bool) {
	for len(c) > 0 {
		k := c[0]
		switch k {
		case 0:
			parts = append(parts, ref.Lit("a"))
			c = c[1:]
		case 1:
			parts = append(parts, ref.Interp(ref.Var("n")))
			c = c[1:]
		case 2:
			parts = append(parts, ref.Interp(ref.Var("v")))
			c = c[1:]
		case 4, 5:
			cond := ref.Var(map[int]string{4: "t", 5: "f"}[k])
			then, rest, ok := parseDirs(c[1:])
			if !ok || len(rest) == 0 {
				return nil, nil, false
			}
			var els *ref.Node
			if rest[0] == 7 {
				var ep []*ref.Node
				ep, rest, ok = parseDirs(rest[1:])
				if !ok || len(rest) == 0 {
					return nil, nil, false
				}
				els = ref.Body(ref.Merge(ep)...)
			}
			if rest[0] != 8 {
				return nil, nil, false
			}
			parts = append(parts, ref.If(cond, ref.Body(ref.Merge(then)...), els))
			c = rest[1:]
		case 6:
			body, rest, ok := parseDirs(c[1:])
			if !ok || len(rest) == 0 || rest[0] != 3 {
				return nil, nil, false
			}
			parts = append(parts, ref.TFor("", "v", ref.Var("l"), ref.Body(ref.Merge(body)...)))
			c = rest[1:]
		default:
			return parts, c, true
		}
	}
	return parts, nil, true
}

func runDirectives(r *fw.Rec, c []int) {
	src := ""
	for _, k := range c {
		src += dirPieces[k]
	}
	parts, rest, ok := parseDirs(c)
	ok = ok && len(rest) == 0
	r.State(src)
	if ok {
		runTmpl(r, tmplCase{parts})
		return
	}
	_, diags := hclsyntax.ParseTemplate([]byte(src), "t.tmpl", hcl.InitialPos)
	r.Op(1)
	if !diags.HasErrors() {
		r.Failf("", "template %q is accepted though its directives are not balanced", src)
	}
	_, diags = hclsyntax.ParseExpression([]byte(`"`+src+`"`), "t.hcl", hcl.InitialPos)
	r.Op(1)
	if !diags.HasErrors() {
		r.Failf("", "quoted template %q is accepted though its directives are not balanced", src)
	}
	_, diags = hclsyntax.ParseExpression([]byte("<<E\n"+src+"\nE\n"), "t.hcl", hcl.InitialPos)
	r.Op(1)
	if !diags.HasErrors() {
		r.Failf("", "heredoc %q is accepted though its directives are not balanced", src)
	}
	r.Trace()
}

var heredocLines = []string{"", "a", "  b", "    c", "\td", " \te", "  ${n}", "${n}f", "  g ${n}  h", "   ", " ", "  ${s} ", "    %{ if t }i", "  %{ endif }", "  $${j}", "  \\n k", "  l", "%{ for v in l }${v}%{ endfor }", "  %{ if t }m%{ endif }n", "%{ endif }"}

func runHeredoc(r *fw.Rec, c []int) {
	bal := 0
	for _, k := range c {
		if strings.Contains(heredocLines[k], "%{ if t }i") {
			bal++
		}
		if strings.HasSuffix(heredocLines[k], "endif }") {
			bal--
		}
		if bal < 0 {
			return
		}
	}
	if bal != 0 {
		return
	}
	for _, eol := range []string{"\n", "\r\n"} {
		// the common indentation of lines that are not blank
		min := -1
		for _, k := range c {
			l := heredocLines[k]
			t := strings.TrimLeftFunc(l, unicode.IsSpace)
			if t == "" {
				continue
			}
			n := utf8.RuneCountInString(l[:len(l)-len(t)])
			if min < 0 || n < min {
				min = n
			}
		}
		if min < 0 {
			min = 0
		}
		plain, flush, src := "", "", ""
		for _, k := range c {
			l := heredocLines[k]
			src += l + eol
			render := func(l string) string {
				l = strings.Replace(l, "$${", "\x00", -1)
				l = strings.Replace(l, "%{ for v in l }${v}%{ endfor }", "x2", -1)
				l = strings.Replace(l, "${n}", "1", -1)
				l = strings.Replace(l, "${s}", " v ", -1)
				l = strings.Replace(l, "%{ if t }", "", -1)
				l = strings.Replace(l, "%{ endif }", "", -1)
				return strings.Replace(l, "\x00", "${", -1)
			}
			plain += render(l) + eol
			if strings.TrimSpace(l) != "" {
				l = string([]rune(l)[min:])
			}
			flush += render(l) + eol
		}
		for i, intro := range []string{"<<EOT", "<<-EOT", "<<-EOT"} {
			end := "EOT"
			if i == 2 {
				end = "   EOT"
			}
			want := flush
			if i == 0 {
				want = plain
			}
			full := intro + eol + src + end + eol
			r.State(full)
			e, diags := hclsyntax.ParseExpression([]byte(full), "t.hcl", hcl.InitialPos)
			r.Op(1)
			if diags.HasErrors() {
				r.Failf("", "valid heredoc %q is rejected: %s", full, diagsStr(diags))
				return
			}
			v, diags := e.Value(tmplCtx)
			r.Op(1)
			if diags.HasErrors() || !v.RawEquals(cty.StringVal(want)) {
				r.Failf("", "heredoc %q gives %#v %s, want %q", full, v, diagsStr(diags), want)
				return
			}
			// the same as an attribute followed by another one
			cfg := "v = " + full + "w = 1" + eol
			ae, diags := parseAttr(cfg)
			r.Op(1)
			if diags.HasErrors() {
				r.Failf("", "valid heredoc attribute %q is rejected: %s", cfg, diagsStr(diags))
				return
			}
			if v, diags := ae.Value(tmplCtx); diags.HasErrors() || !v.RawEquals(cty.StringVal(want)) {
				r.Failf("", "heredoc attribute %q gives %#v %s, want %q", cfg, v, diagsStr(diags), want)
				return
			}
			r.Trace()
		}
	}
}
