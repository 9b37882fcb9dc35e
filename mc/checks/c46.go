package checks

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"verif/mc/fw"
)

// suggested is the name an error suggests, if it does. The other result tells
// what it is said to be, when it is to be something else than what it was.
func suggested(d *hcl.Diagnostic) (name, as string) {
	i := strings.Index(d.Detail, "Did you mean")
	if i < 0 {
		return "", ""
	}
	rest := d.Detail[i+len("Did you mean"):]
	q := strings.IndexByte(rest, '"')
	if q < 0 {
		return "", ""
	}
	p, err := strconv.QuotedPrefix(rest[q:])
	if err != nil {
		return "", ""
	}
	name, _ = strconv.Unquote(p)
	switch {
	case strings.Contains(rest[:q], "block"):
		as = "block"
	case strings.Contains(rest[:q], "argument"):
		as = "argument"
	}
	return name, as
}

// near tells whether one edit makes one name the other.
func near(a, b string) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	if len(b)-len(a) > 1 || a == b {
		return false
	}
	i := 0
	for i < len(a) && a[i] == b[i] {
		i++
	}
	if len(a) == len(b) {
		return a[i+1:] == b[i+1:]
	}
	return a[i:] == b[i+1:]
}

// far tells whether it takes more than three edits to make one name the other.
func far(a, b string) bool {
	prev := make([]int, len(b)+1)
	for j := range prev {
		prev[j] = j
	}
	for i := range a {
		cur := []int{i + 1}
		for j := range b {
			d := prev[j]
			if a[i] != b[j] {
				d++
			}
			for _, e := range []int{prev[j+1] + 1, cur[j] + 1} {
				if e < d {
					d = e
				}
			}
			cur = append(cur, d)
		}
		prev = cur
	}
	return prev[len(b)] > 3
}

// sgCase is a body with names in it and a schema.
type sgCase struct {
	Attrs, Blocks   []string // in the body
	SAttrs, SBlocks []string // in the schema
	Syntax          int      // native, JSON, packed
}

var sgSyntaxes = []string{"native", "JSON", "packed"}

func (c sgCase) schema() *hcl.BodySchema {
	s := &hcl.BodySchema{}
	for _, n := range c.SAttrs {
		s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: n})
	}
	for _, n := range c.SBlocks {
		s.Blocks = append(s.Blocks, hcl.BlockHeaderSchema{Type: n})
	}
	return s
}

// errors gives the errors of a body by the name they are about, and tells
// whether the body could be read at all.
func (c sgCase) errors(r *fw.Rec) (map[string][]*hcl.Diagnostic, bool) {
	r.Op(1)
	var b strings.Builder
	names := map[int]string{} // by offset
	for i, n := range c.Attrs {
		if c.Syntax == 1 {
			if i > 0 {
				b.WriteString(",")
			}
			names[b.Len()] = "a:" + n
			fmt.Fprintf(&b, "%q:{}", n)
		} else {
			names[b.Len()] = "a:" + n
			fmt.Fprintf(&b, "%s = 1\n", n)
		}
	}
	for i, n := range c.Blocks {
		if c.Syntax == 1 {
			if i+len(c.Attrs) > 0 {
				b.WriteString(",")
			}
			names[b.Len()] = "b:" + n
			fmt.Fprintf(&b, "%q:{}", n)
		} else {
			names[b.Len()] = "b:" + n
			fmt.Fprintf(&b, "%s {\n}\n", n)
		}
	}
	src := b.String()
	shift := 0
	var body hcl.Body
	var diags hcl.Diagnostics
	switch c.Syntax {
	case 0:
		f, d := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.Pos{Line: 1, Column: 1})
		body, diags = f.Body, d
	case 1:
		shift = 1
		f, d := json.Parse([]byte("{"+src+"}"), "t.hcl")
		body, diags = f.Body, d
	default:
		pb, d := hclpack.PackNativeFile([]byte(src), "t.hcl", hcl.Pos{Line: 1, Column: 1})
		body, diags = pb, d
	}
	if diags.HasErrors() {
		return nil, false
	}
	_, diags = body.Content(c.schema())
	ret := map[string][]*hcl.Diagnostic{}
	for _, d := range diags {
		n := names[d.Subject.Start.Byte-shift]
		ret[n] = append(ret[n], d)
	}
	return ret, true
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func replaced(ss []string, old, new string) []string {
	var ret []string
	for _, x := range ss {
		if x == old {
			if new == "" {
				continue
			}
			x = new
		}
		ret = append(ret, x)
	}
	return ret
}

func c46body(r *fw.Rec, c sgCase) {
	r.State(fmt.Sprintf("%v", c))
	errs, ok := c.errors(r)
	if !ok {
		r.Failf("read", "%+v cannot be read", c)
		return
	}
	if len(errs[""]) > 0 {
		r.Failf("place", "%+v: an error that is not about a name: %s", c, errs[""][0].Error())
		return
	}
	for kn, ds := range errs {
		kind, name := kn[:1], kn[2:]
		for _, d := range ds {
			sug, as := suggested(d)
			c2 := c
			// Names that could be used instead, one edit away.
			could := false
			if kind == "a" || c.Syntax == 1 {
				for _, s := range c.SAttrs {
					could = could || near(s, name) && !contains(c.Attrs, s) && !contains(c.Blocks, s)
				}
			}
			if kind == "b" || c.Syntax == 1 {
				for _, s := range c.SBlocks {
					could = could || near(s, name)
				}
			}
			if sug == "" {
				if could {
					r.Failf("none", "%s %+v: nothing is suggested for %q: %s", sgSyntaxes[c.Syntax], c, name, d.Error())
					return
				}
				continue
			}
			if far(sug, name) {
				r.Failf("far", "%s %+v: %q suggests %q for %q", sgSyntaxes[c.Syntax], c, d.Error(), sug, name)
				return
			}
			kind2 := kind
			if as != "" {
				kind2 = as[:1]
				if as == "argument" {
					kind2 = "a"
				}
			}
			switch {
			case kind == "a" && kind2 == "a":
				c2.Attrs = replaced(c.Attrs, name, sug)
			case kind == "b" && kind2 == "b":
				c2.Blocks = replaced(c.Blocks, name, sug)
			case kind == "a":
				c2.Attrs = replaced(c.Attrs, name, "")
				c2.Blocks = append(append([]string(nil), c.Blocks...), sug)
			default:
				c2.Blocks = replaced(c.Blocks, name, "")
				c2.Attrs = append(append([]string(nil), c.Attrs...), sug)
			}
			errs2, ok := c2.errors(r)
			if !ok || len(errs2[kind2+":"+sug]) > 0 {
				r.Failf("useless", "%s %+v: %q suggests %q, which is not accepted either", sgSyntaxes[c.Syntax], c, d.Error(), sug)
				return
			}
		}
	}
	r.Trace()
}

// sgName is a use of a name that may be defined in some of the scopes.
type sgName struct {
	Use    string
	Scopes [][]string // outermost first; nil has no map at all
	Form   int
}

var sgForms = []string{"%s", "%s.a", "[for q in [1]: %s]", "\"x${%s}\"", "%s == 1 ? 2 : 3"}

func c46name(fn bool) func(r *fw.Rec, c sgName) {
	return func(r *fw.Rec, c sgName) {
		r.State(fmt.Sprintf("%v", c))
		var ctx *hcl.EvalContext
		defined := map[string]bool{}
		for i, s := range c.Scopes {
			if i == 0 {
				ctx = &hcl.EvalContext{}
			} else {
				ctx = ctx.NewChild()
			}
			if s == nil {
				continue
			}
			ctx.Variables = map[string]cty.Value{}
			ctx.Functions = map[string]function.Function{}
			for _, n := range s {
				defined[n] = true
				if fn {
					ctx.Functions[n] = function.New(&function.Spec{
						Type: function.StaticReturnType(cty.Number),
						Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) { return cty.NumberIntVal(1), nil },
					})
				} else {
					ctx.Variables[n] = cty.NumberIntVal(1)
					if c.Form == 1 {
						ctx.Variables[n] = cty.ObjectVal(map[string]cty.Value{"a": cty.NumberIntVal(1)})
					}
				}
			}
		}
		if c.Form == 2 && !fn {
			defined["q"] = true
		}
		eval := func(name string) *hcl.Diagnostic {
			r.Op(1)
			text := name
			if fn {
				text += "()"
			}
			form := sgForms[c.Form]
			if fn && c.Form == 1 {
				form = "[%s]"
			}
			src := fmt.Sprintf(form, text)
			e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.Pos{Line: 1, Column: 1})
			if diags.HasErrors() {
				r.Failf("read", "%q: %s", src, diagsStr(diags))
				return nil
			}
			_, diags = e.Value(ctx)
			at := strings.LastIndex(src, text)
			for _, d := range diags {
				if d.Subject != nil && d.Subject.Start.Byte == at && (d.Subject.End.Byte == at+len(name) || d.Subject.End.Byte == at+len(text)) {
					return d
				}
			}
			return nil
		}
		d := eval(c.Use)
		if (d == nil) != defined[c.Use] {
			r.Failf("known", "%+v: defined: %v, error: %v", c, defined[c.Use], d)
			return
		}
		if d == nil {
			return
		}
		sug, _ := suggested(d)
		could := false
		for n := range defined {
			could = could || near(n, c.Use)
		}
		if fn && sug == "" {
			// Only functions of the scope itself need to be suggested.
			could = false
			if c.Form != 2 {
				for _, n := range c.Scopes[len(c.Scopes)-1] {
					could = could || near(n, c.Use)
				}
			}
		}
		if sug == "" {
			if could {
				r.Failf("none", "%+v: nothing is suggested: %s", c, d.Error())
			}
			return
		}
		if far(sug, c.Use) {
			r.Failf("far", "%+v: %q suggests an entirely different name", c, d.Error())
			return
		}
		if !defined[sug] || eval(sug) != nil {
			r.Failf("useless", "%+v: %q suggests something else undefined", c, d.Error())
			return
		}
		r.Trace()
	}
}

// c46word checks words in a place where only some are accepted.
func c46word(src func(w string) string, parse func(src []byte) hcl.Diagnostics, words []string) func(r *fw.Rec, c fw.StrCase) {
	return func(r *fw.Rec, c fw.StrCase) {
		w := string(c)
		r.StateB("", c)
		find := func(w string) *hcl.Diagnostic {
			r.Op(1)
			s := src(w)
			at := strings.Index(s, w)
			for _, d := range parse([]byte(s)) {
				if d.Subject != nil && d.Subject.Start.Byte == at && d.Subject.End.Byte == at+len(w) {
					return d
				}
			}
			return nil
		}
		d := find(w)
		if (d == nil) != contains(words, w) {
			r.Failf("known", "%q: %v", src(w), d)
			return
		}
		if d == nil {
			return
		}
		could := false
		for _, x := range words {
			could = could || near(x, w)
		}
		sug, _ := suggested(d)
		if sug == "" {
			if could {
				r.Failf("none", "%q: nothing is suggested: %s", src(w), d.Error())
			}
			return
		}
		if far(sug, w) {
			r.Failf("far", "%q: %q suggests an entirely different word", src(w), d.Error())
			return
		}
		if find(sug) != nil {
			r.Failf("useless", "%q: %q suggests what is not accepted either", src(w), d.Error())
			return
		}
		r.Trace()
	}
}

// opCase is an operator of other languages.
type opCase struct{ Op, Left, Right string }

var sgOps = map[string]string{"&": "&&", "|": "||", "~": "!"}

func c46op(r *fw.Rec, c opCase) {
	r.State(fmt.Sprintf("%v", c))
	write := func(op string) string {
		if c.Op == "~" {
			return op + c.Right
		}
		return c.Left + " " + op + " " + c.Right
	}
	_, diags := hclsyntax.ParseExpression([]byte(write(c.Op)), "t.hcl", hcl.Pos{Line: 1, Column: 1})
	if !diags.HasErrors() {
		r.Failf("known", "%q is accepted", write(c.Op))
		return
	}
	sug := ""
	for _, d := range diags {
		if s, _ := suggested(d); s != "" {
			sug = s
		}
	}
	r.Op(1)
	if sug == "" {
		r.Failf("none", "%q: nothing is suggested: %s", write(c.Op), diagsStr(diags))
		return
	}
	val := func(op string) string {
		e, diags := hclsyntax.ParseExpression([]byte(write(op)), "t.hcl", hcl.Pos{Line: 1, Column: 1})
		v, vd := e.Value(nil)
		return fmt.Sprintf("%#v %s", v, diagsStr(append(diags, vd...)))
	}
	// The suggestion is to do with truth values what is asked for with bits.
	if got, want := val(sug), val(sgOps[c.Op]); got != want {
		r.Failf("useless", "%q: %q is suggested, which gives %s instead of %s", write(c.Op), sug, got, want)
		return
	}
	r.Trace()
}

// subsets of up to max of the names, in each order of two.
func nameSets(names []string, max int) [][]string {
	ret := [][]string{{}}
	for _, a := range names {
		ret = append(ret, []string{a})
		if max < 2 {
			continue
		}
		for _, b := range names {
			if a != b {
				ret = append(ret, []string{a, b})
			}
		}
	}
	return ret
}

func init() {
	names := []string{"foo", "fop", "quux", "fo", "bar", "fxy"}
	tmplWords := []string{"if", "for", "else", "endif", "endfor"}
	fw.Register(&fw.Check{
		ID: "C46",
		Assumptions: []string{
			"no argument and block of a body have the same name",
			"whether something is suggested is judged only when an acceptable name is one edit away, or none is within three, and for functions only those of the scope itself",
		},
		Suites: []fw.Suite{
			fw.S("bodies", fmt.Sprintf("every body of up to 2 arguments and 1 block, and 1 and 2, of %d names, with every schema of up to 2 arguments and 1 block, and 1 and 2 (thorough: 2 and 2), in 3 syntaxes", len(names)),
				func(t fw.Tier, yield func(sgCase)) {
					two := nameSets(names, 2)
					for _, a := range two {
						for _, b := range two {
							if len(a)+len(b) > 3 {
								continue
							}
							clash := false
							for _, x := range b {
								clash = clash || contains(a, x)
							}
							if clash || len(a) == 2 && a[0] > a[1] && t == fw.Quick {
								continue
							}
							for _, sa := range two {
								for _, sb := range two {
									if len(sa)+len(sb) > fw.Pick(t, 3, 4) || t == fw.Quick && len(a)+len(b) == 3 && len(sa)+len(sb) > 2 {
										continue
									}
									for _, x := range sb {
										clash = clash || contains(sa, x)
									}
									if clash {
										clash = false
										continue
									}
									for s := range sgSyntaxes {
										yield(sgCase{a, b, sa, sb, s})
									}
								}
							}
						}
					}
				}, c46body),
			fw.S("variables", "every use of 5 names in 5 forms in up to 3 scopes, each without variables, with none, or with 1 or 2 of the names",
				func(t fw.Tier, yield func(sgName)) { sgNames(t, names[:5], yield) }, c46name(false)),
			fw.S("functions", "every call of 5 names in 5 forms in up to 3 scopes, each without functions, with none, or with 1 or 2 of the names",
				func(t fw.Tier, yield func(sgName)) { sgNames(t, names[:5], yield) }, c46name(true)),
			fw.S("template keywords", "every word of up to 6 (thorough 7) of the letters d e f i l n o r s, when it is at most 3 letters or within an edit or a swap of a keyword",
				func(t fw.Tier, yield func(fw.StrCase)) { sgWords(t, tmplWords, "defilnors", yield) },
				c46word(func(w string) string { return "%{ " + w + " x }" }, func(src []byte) hcl.Diagnostics {
					_, diags := hclsyntax.ParseTemplate(src, "t.hcl", hcl.Pos{Line: 1, Column: 1})
					return diags
				}, tmplWords)),
			fw.S("JSON keywords", "every word of up to 3 of the letters of the JSON keywords, and every one within two edits or a swap of a keyword",
				func(t fw.Tier, yield func(fw.StrCase)) {
					sgWords(t, []string{"true", "false", "null"}, "aeflnrstuN", yield)
				},
				c46word(func(w string) string { return `{"x": ` + w + " }" }, func(src []byte) hcl.Diagnostics {
					_, diags := json.Parse(src, "t.hcl")
					return diags
				}, []string{"true", "false", "null"})),
			fw.S("operators", "the bitwise operators on all truth values",
				func(t fw.Tier, yield func(opCase)) {
					for op := range sgOps {
						for _, l := range []string{"true", "false"} {
							for _, r := range []string{"true", "false"} {
								yield(opCase{op, l, r})
							}
						}
					}
				}, c46op),
		},
	})
}

func sgNames(t fw.Tier, names []string, yield func(sgName)) {
	sets := append([][]string{nil}, nameSets(names, 2)...)
	for _, use := range names {
		for form := range sgForms {
			for i, a := range sets {
				yield(sgName{use, [][]string{a}, form})
				for k, b := range sets {
					yield(sgName{use, [][]string{a, b}, form})
					if t == fw.Quick && (i > 7 || k > 7) {
						continue
					}
					for _, c := range sets {
						yield(sgName{use, [][]string{a, b, c}, form})
					}
				}
			}
		}
	}
}

func sgWords(t fw.Tier, words []string, letters string, yield func(fw.StrCase)) {
	seen := map[string]bool{}
	put := func(s string) {
		if !seen[s] && s != "" {
			seen[s] = true
			yield(fw.StrCase(s))
		}
	}
	var edit func(w string, n int)
	edit = func(w string, n int) {
		put(w)
		if n == 0 {
			return
		}
		for i := 0; i <= len(w); i++ {
			if i < len(w) {
				edit(w[:i]+w[i+1:], n-1)
			}
			if i+1 < len(w) {
				edit(w[:i]+w[i+1:i+2]+w[i:i+1]+w[i+2:], n-1)
			}
			for _, l := range letters {
				edit(w[:i]+string(l)+w[i:], n-1)
				if i < len(w) {
					edit(w[:i]+string(l)+w[i+1:], n-1)
				}
			}
		}
	}
	for _, w := range words {
		edit(w, fw.Pick(t, 2, 3))
	}
	eachString(strings.Split(letters, ""), 1, fw.Pick(t, 3, 5), put)
}
