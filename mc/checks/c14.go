package checks

import (
	"bytes"
	encjson "encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
	"verif/mc/ref"
)

// jNode is a JSON value read by the standard library, with the offsets of its
// text and with all properties in order.
type jNode struct {
	kind       byte // 'o', 'a', 's', 'n', 'b', '0'
	start, end int
	str        string // string value or number text
	b          bool
	keys       []jNode
	vals       []jNode
}

// readJSON reads a valid JSON text.
func readJSON(src []byte) jNode {
	r := &jReader{src: src, dec: encjson.NewDecoder(bytes.NewReader(src))}
	r.dec.UseNumber()
	return r.value()
}

type jReader struct {
	src []byte
	dec *encjson.Decoder
	end int
}

// token gives the next token and where it starts.
func (r *jReader) token() (encjson.Token, int) {
	tok, err := r.dec.Token()
	if err != nil {
		panic(err)
	}
	i := r.end
	for strings.IndexByte(" \t\r\n,:", r.src[i]) >= 0 {
		i++
	}
	r.end = int(r.dec.InputOffset())
	return tok, i
}

func (r *jReader) value() jNode {
	tok, start := r.token()
	n := jNode{start: start}
	switch t := tok.(type) {
	case encjson.Delim:
		if t == '{' {
			n.kind = 'o'
			for r.dec.More() {
				n.keys = append(n.keys, r.value())
				n.vals = append(n.vals, r.value())
			}
		} else {
			n.kind = 'a'
			for r.dec.More() {
				n.vals = append(n.vals, r.value())
			}
		}
		r.token()
	case string:
		n.kind, n.str = 's', t
	case encjson.Number:
		n.kind, n.str = 'n', string(t)
	case bool:
		n.kind, n.b = 'b', t
	case nil:
		n.kind = '0'
	}
	n.end = r.end
	return n
}

// val is the value of a node without templates; it fails for repeated names.
func (n jNode) val() (cty.Value, bool) {
	switch n.kind {
	case 's':
		return cty.StringVal(n.str), true
	case 'n':
		return ref.Parse(n.str), true
	case 'b':
		return cty.BoolVal(n.b), true
	case '0':
		return cty.NullVal(cty.DynamicPseudoType), true
	}
	ok := true
	if n.kind == 'a' {
		vals := []cty.Value{}
		for _, e := range n.vals {
			v, o := e.val()
			vals = append(vals, v)
			ok = ok && o
		}
		return cty.TupleVal(vals), ok
	}
	attrs := map[string]cty.Value{}
	for i, e := range n.vals {
		v, o := e.val()
		ok = ok && o
		key := cty.StringVal(n.keys[i].str).AsString()
		if _, dup := attrs[key]; dup {
			ok = false
		} else {
			attrs[key] = v
		}
	}
	return cty.ObjectVal(attrs), ok
}

// badJSONRange tells what is wrong with a range that should be on given text.
func badJSONRange(src []byte, rng hcl.Range, start, end int) string {
	if rng.Filename != "t.json" || rng.Start.Byte != start || rng.End.Byte != end {
		return fmt.Sprintf("range %s (bytes %d-%d) instead of bytes %d-%d", rng, rng.Start.Byte, rng.End.Byte, start, end)
	}
	for _, p := range []hcl.Pos{rng.Start, rng.End} {
		line := bytes.Count(src[:p.Byte], []byte{'\n'}) + 1
		if p.Line != line {
			return fmt.Sprintf("line %d at byte %d instead of %d", p.Line, p.Byte, line)
		}
		prefix := src[bytes.LastIndexByte(src[:p.Byte], '\n')+1 : p.Byte]
		if bytes.IndexAny(prefix, "\t\r") < 0 && utf8.Valid(prefix) {
			if col := advance(hcl.Pos{Line: 1, Column: 1}, prefix).Column; p.Column != col {
				return fmt.Sprintf("column %d at byte %d instead of %d", p.Column, p.Byte, col)
			}
		}
	}
	return ""
}

// matchJSON compares an expression with the value it was read from.
func matchJSON(r *fw.Rec, src []byte, e hcl.Expression, n jNode) string {
	r.Op(1)
	if m := badJSONRange(src, e.Range(), n.start, n.end); m != "" {
		return m
	}
	if sr := e.StartRange(); sr.Start != e.Range().Start || sr.End.Byte > n.end || sr.End.Byte <= n.start {
		return fmt.Sprintf("start range %s of %s", sr, e.Range())
	}
	v, diags := e.Value(nil)
	want, ok := n.val()
	if diags.HasErrors() == ok || ok && !v.RawEquals(want) {
		return fmt.Sprintf("value %#v (%s) instead of %#v", v, diagsStr(diags), want)
	}
	for _, d := range diags {
		if m := badDiag(d, n.start, n.end); m != "" {
			return m
		}
	}
	list, diags := hcl.ExprList(e)
	if diags.HasErrors() == (n.kind == 'a') {
		return "wrongly taken as a list or not"
	}
	if len(list) != len(n.vals) && n.kind == 'a' {
		return fmt.Sprintf("%d list elements", len(list))
	}
	for i, le := range list {
		if m := matchJSON(r, src, le, n.vals[i]); m != "" {
			return m
		}
	}
	pairs, diags := hcl.ExprMap(e)
	if diags.HasErrors() == (n.kind == 'o') {
		return "wrongly taken as a map or not"
	}
	if len(pairs) != len(n.vals) && n.kind == 'o' {
		return fmt.Sprintf("%d map elements", len(pairs))
	}
	for i, p := range pairs {
		if m := matchJSON(r, src, p.Key, n.keys[i]); m != "" {
			return m
		}
		if m := matchJSON(r, src, p.Value, n.vals[i]); m != "" {
			return m
		}
	}
	return ""
}

var jsonSchema = &hcl.BodySchema{
	Attributes: []hcl.AttributeSchema{{Name: "a", Required: true}, {Name: "b"}},
	Blocks:     []hcl.BlockHeaderSchema{{Type: "c", LabelNames: []string{"l"}}},
}

func checkJSON(r *fw.Rec, s string) {
	src := []byte(s)
	r.StateB("", src)
	r.Op(1)
	f, diags := json.Parse(src, "t.json")
	if f == nil || f.Body == nil {
		r.Failf("nil", "%q: no file", s)
		return
	}
	if !bytes.Equal(f.Bytes, src) {
		r.Failf("bytes", "%q: file has the bytes %q", s, f.Bytes)
		return
	}
	valid := encjson.Valid(src)
	trimmed := bytes.TrimLeft(src, " \t\r\n")
	valid = valid && (trimmed[0] == '{' || trimmed[0] == '[')
	if diags.HasErrors() == valid {
		r.Failf("accept", "%q: usable JSON: %v, diagnostics: %s", s, valid, diagsStr(diags))
		return
	}
	if valid && len(diags) != 0 {
		r.Failf("accept", "%q: diagnostics for valid JSON: %s", s, diagsStr(diags))
		return
	}
	for _, d := range diags {
		if m := badDiag(d, 0, len(src)); m != "" {
			r.Failf("diag", "%q: %s", s, m)
			return
		}
	}
	attrs, adiags := f.Body.JustAttributes()
	_, remain, pdiags := f.Body.PartialContent(jsonSchema)
	_, cdiags := f.Body.Content(jsonSchema)
	_, rdiags := remain.JustAttributes()
	for _, ds := range []hcl.Diagnostics{adiags, pdiags, cdiags, rdiags} {
		for _, d := range ds {
			if m := badDiag(d, 0, len(src)); m != "" {
				r.Failf("diag", "%q: %s", s, m)
				return
			}
		}
	}
	if m := badRange(f.Body.MissingItemRange(), 0, len(src)); m != "" {
		r.Failf("missing", "%q: missing item range: %s", s, m)
		return
	}
	for _, a := range attrs {
		a.Expr.Value(nil)
		a.Expr.Value(&hcl.EvalContext{})
		a.Expr.Variables()
	}
	if !valid {
		return
	}
	n := readJSON(src)
	if n.kind == 'a' {
		allObj := true
		for _, e := range n.vals {
			allObj = allObj && e.kind == 'o'
		}
		_, _, diags := f.Body.PartialContent(&hcl.BodySchema{})
		if diags.HasErrors() == allObj {
			r.Failf("array", "%q: all objects: %v, diagnostics: %s", s, allObj, diagsStr(diags))
		}
		if !adiags.HasErrors() {
			r.Failf("array", "%q: array has attributes", s)
		}
		r.Trace()
		return
	}
	seen := map[string]bool{}
	dups := 0
	for i, k := range n.keys {
		if k.str == "//" {
			continue
		}
		if seen[k.str] {
			dups++
			continue
		}
		seen[k.str] = true
		a := attrs[k.str]
		if a == nil || a.Name != k.str {
			r.Failf("attr", "%q: attribute %q is missing", s, k.str)
			return
		}
		if m := badJSONRange(src, a.NameRange, k.start, k.end); m != "" {
			r.Failf("range", "%q: name of %q: %s", s, k.str, m)
			return
		}
		if m := badJSONRange(src, a.Range, k.start, n.vals[i].end); m != "" {
			r.Failf("range", "%q: attribute %q: %s", s, k.str, m)
			return
		}
		if m := matchJSON(r, src, a.Expr, n.vals[i]); m != "" {
			r.Failf("value", "%q: attribute %q: %s", s, k.str, m)
			return
		}
	}
	if len(attrs) != len(seen) || len(adiags) != dups {
		r.Failf("attr", "%q: %d attributes and %d errors (%s), want %d and %d", s, len(attrs), len(adiags), diagsStr(adiags), len(seen), dups)
		return
	}
	r.Trace()
}

func init() {
	run := func(r *fw.Rec, c fw.StrCase) { checkJSON(r, string(c)) }
	toks := []string{"{", "}", "[", "]", ",", ":", `"a"`, `"b"`, "1", "true", " ", "="}
	chars := []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "a", "1", "-", ".", "e", "null", "\n", "\xff", "é", "\x00", "/", "'", "+", "_", "\t", "\r\n", "\ufeff", "`"}
	esc := []string{`\n`, `\u0041`, `\u00`, `\ud83d`, `\ude00`, `\/`, `\"`, `\\`, `\`, "é", "e\u0301", "\x00", "\n", "\xff", "${", "%{", "x", "\x7f", " ", "😀", `\b`, `\x`, "\t", `"`}
	wrap := []string{"{", `{"a":`, `{"a":[`, `[{"a":`, `{"a":{"b":`, "{\n\t\"b\": 1,\r\n  \"a\": [", `{"//":1,"a":`}
	fw.Register(&fw.Check{
		ID: "C14",
		Suites: []fw.Suite{
			fw.S("tokens", fmt.Sprintf("every sequence of up to 6 (thorough 7) of %d JSON tokens", len(toks)),
				func(t fw.Tier, yield func(fw.StrCase)) {
					eachString(toks, 0, fw.Pick(t, 6, 7), func(s string) { yield(fw.StrCase(s)) })
				}, run),
			fw.S("bytes", fmt.Sprintf("every sequence of up to 4 (thorough 5) of %d pieces", len(chars)),
				func(t fw.Tier, yield func(fw.StrCase)) {
					eachString(chars, 0, fw.Pick(t, 4, 5), func(s string) { yield(fw.StrCase(s)) })
				}, run),
			fw.S("nested", fmt.Sprintf("every sequence of up to 4 (thorough 5) of %d JSON tokens inside each of %d unclosed beginnings, closed properly and not", len(toks), len(wrap)),
				func(t fw.Tier, yield func(fw.StrCase)) {
					for _, w := range wrap {
						closing := ""
						for _, c := range w {
							switch c {
							case '{':
								closing = "}" + closing
							case '[':
								closing = "]" + closing
							}
						}
						eachString(toks, 0, fw.Pick(t, 4, 5), func(s string) {
							yield(fw.StrCase(w + s))
							yield(fw.StrCase(w + s + closing))
							yield(fw.StrCase(w + s + closing + "\n"))
						})
					}
				}, run),
			fw.S("strings", fmt.Sprintf("every string of up to 3 (thorough 4) of %d pieces as value and as name", len(esc)),
				func(t fw.Tier, yield func(fw.StrCase)) {
					eachString(esc, 0, fw.Pick(t, 3, 4), func(s string) {
						yield(fw.StrCase(`{"a":"` + s + `"}`))
						yield(fw.StrCase(`{"` + s + `": [1, "` + s + `"] , "` + s + `":0}`))
						yield(fw.StrCase(`{"a":"` + s))
					})
				}, run),
			fw.S("numbers", "every sequence of up to 6 (thorough 7) of 0 1 9 - + . e E as a value",
				func(t fw.Tier, yield func(fw.StrCase)) {
					eachString([]string{"0", "1", "9", "-", "+", ".", "e", "E"}, 1, fw.Pick(t, 6, 7), func(s string) {
						if i := strings.IndexAny(s, "eE"); i >= 0 && len(s)-i > 5 {
							return // keep exponents small
						}
						yield(fw.StrCase(`{"a":` + s + `}`))
					})
					for _, s := range []string{"18446744073709551617", "0.1", "-0", "1.000000000000000000000000000000000000000000001", "123456789012345678901234567890.5e-10", "1e100", "1E+2", "0.30000000000000004", "-12.5e-3", "9007199254740993"} {
						yield(fw.StrCase(`{"a":` + s + `}`))
						yield(fw.StrCase(`{"a":[` + s + `,` + s + `]}`))
					}
				}, run),
			fw.S("keywords", "every sequence of up to 4 (thorough 5) of 10 fragments of keywords as a value",
				func(t fw.Tier, yield func(fw.StrCase)) {
					eachString([]string{"true", "false", "null", "t", "T", "u", "_", "nul", "NaN", "1"}, 1, fw.Pick(t, 4, 5), func(s string) {
						yield(fw.StrCase(`{"a":` + s + `}`))
					})
				}, run),
			fw.S("documents", "every object of 1 or 2 properties whose values are leaves, arrays or objects of up to 2 leaves, in 4 layouts (thorough: and arrays of those)",
				func(t fw.Tier, yield func(fw.StrCase)) {
					for _, l := range jsonLayouts {
						inner := jsonTrees([]string{"1", `"s"`, "true", "null", `"é"`, "[]", "{}"}, l)
						for _, a := range inner {
							yield(fw.StrCase("{" + l[0] + `"a"` + l[1] + ":" + l[2] + a + l[3] + "}"))
							yield(fw.StrCase(l[0] + "{" + l[0] + `"a"` + l[1] + ":" + l[2] + "[" + l[0] + a + l[1] + "]" + l[3] + "}" + l[3]))
							for i, b := range inner {
								if t == fw.Thorough || i%2 == 0 {
									yield(fw.StrCase("{" + l[0] + `"a"` + l[1] + ":" + l[2] + a + l[1] + "," + l[0] + `"a b"` + l[1] + ":" + b + l[3] + "}"))
								}
								if t == fw.Thorough {
									yield(fw.StrCase("{" + l[0] + `"a"` + l[1] + ":" + l[2] + "[" + l[0] + a + l[1] + "," + l[2] + `{"k"` + l[1] + ":" + b + "}]" + l[3] + "}"))
								}
							}
						}
					}
				}, run),
			fw.S("deep", "nesting of depth 100, 1000 and 5000 in arrays and objects, closed and not",
				func(t fw.Tier, yield func(fw.StrCase)) {
					for _, n := range []int{100, 1000, 5000} {
						yield(fw.StrCase(`{"a":` + strings.Repeat("[", n)))
						yield(fw.StrCase(strings.Repeat("[", n) + strings.Repeat("]", n)))
						yield(fw.StrCase(strings.Repeat(`{"a":`, n)))
					}
					yield(fw.StrCase(`{"a":` + strings.Repeat("[", 100) + strings.Repeat("]", 100) + "}"))
					yield(fw.StrCase(strings.Repeat(`{"a":`, 100) + "1" + strings.Repeat("}", 100)))
				}, run),
		},
	})
}

// jsonLayouts give the whitespace after an open bracket, before a separator,
// after a colon and before a close bracket.
var jsonLayouts = [][4]string{{"", "", "", ""}, {" ", " ", " ", " "}, {"\n  ", "", " ", "\n"}, {"\r\n\t", "\t", "\n", "\r\n"}}

// jsonTrees gives leaves and the arrays and objects made of up to 2 of them.
func jsonTrees(leaves []string, l [4]string) []string {
	ret := append([]string{}, leaves...)
	for _, a := range leaves {
		ret = append(ret, "["+l[0]+a+l[3]+"]", "{"+l[0]+`"x"`+l[1]+":"+l[2]+a+l[3]+"}")
		for _, b := range leaves {
			ret = append(ret, "["+l[0]+a+l[1]+","+l[2]+b+l[3]+"]",
				"{"+l[0]+`"x"`+l[1]+":"+l[2]+a+l[1]+","+l[0]+`"é"`+l[1]+":"+l[2]+b+l[3]+"}",
				"{"+l[0]+`"x"`+l[1]+":"+l[2]+a+l[1]+","+l[0]+`"x"`+l[1]+":"+l[2]+b+l[3]+"}")
		}
	}
	return ret
}
