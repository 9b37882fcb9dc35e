package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"

	"verif/mc/fw"
	"verif/mc/ref"
)

// A fragment of a larger text is parsed with the position where it starts.
// What is read must be what is read at the start of a file, with all positions
// moved.

var fragStarts = []hcl.Pos{{Byte: 23, Line: 4, Column: 7}, {Byte: 300, Line: 1, Column: 9}, {Byte: 12, Line: 9, Column: 1}}

// mover moves a position from the start of a file to a fragment's place.
func mover(start hcl.Pos) func(hcl.Pos) hcl.Pos {
	return func(p hcl.Pos) hcl.Pos {
		if p.Line == 1 {
			p.Column += start.Column - 1
		}
		p.Line += start.Line - 1
		p.Byte += start.Byte
		return p
	}
}

var rangeType = reflect.TypeOf(hcl.Range{})
var ctyValType = reflect.TypeOf(cty.Value{})

// dumpMoved writes everything that can be reached from a value through its
// exported fields, with the ranges moved.
func dumpMoved(b *strings.Builder, v reflect.Value, move func(hcl.Pos) hcl.Pos) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Type() {
	case rangeType:
		r := v.Interface().(hcl.Range)
		if r == (hcl.Range{}) {
			b.WriteString("nowhere")
			return
		}
		s, e := move(r.Start), move(r.End)
		fmt.Fprintf(b, "<%s %d:%d@%d %d:%d@%d>", r.Filename, s.Line, s.Column, s.Byte, e.Line, e.Column, e.Byte)
		return
	case ctyValType:
		fmt.Fprintf(b, "%#v", v.Interface())
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dumpMoved(b, v.Elem(), move)
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%q", v.Bytes())
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpMoved(b, v.Index(i), move)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		b.WriteString("{")
		for _, k := range keys {
			fmt.Fprintf(b, "%v=", k)
			dumpMoved(b, v.MapIndex(k), move)
			b.WriteString(",")
		}
		b.WriteString("}")
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			b.WriteString(f.Name + ":")
			dumpMoved(b, v.Field(i), move)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Func:
		b.WriteString("func")
	default:
		fmt.Fprintf(b, "%v", v.Interface())
	}
}

func dumpMovedDiags(b *strings.Builder, diags hcl.Diagnostics, move func(hcl.Pos) hcl.Pos) {
	var ds []string
	for _, d := range diags {
		var b strings.Builder
		fmt.Fprintf(&b, "%d ", d.Severity)
		for _, r := range []*hcl.Range{d.Subject, d.Context} {
			dumpMoved(&b, reflect.ValueOf(r), move)
		}
		if d.Expression != nil {
			dumpMoved(&b, reflect.ValueOf(d.Expression.Range()), move)
		}
		ds = append(ds, b.String())
	}
	// Errors about different things are in no particular order.
	sort.Strings(ds)
	fmt.Fprintf(b, "%q", ds)
}

type fragRead func(src []byte, start hcl.Pos) (what interface{}, diags hcl.Diagnostics)

var fragReads = map[string][]struct {
	name string
	read fragRead
}{
	"body": {
		{"configuration", func(src []byte, start hcl.Pos) (interface{}, hcl.Diagnostics) {
			f, diags := hclsyntax.ParseConfig(src, "f", start)
			return f.Body, diags
		}},
		{"tokens", func(src []byte, start hcl.Pos) (interface{}, hcl.Diagnostics) {
			return hclsyntax.LexConfig(src, "f", start)
		}},
		{"configuration to write", func(src []byte, start hcl.Pos) (interface{}, hcl.Diagnostics) {
			f, diags := hclwrite.ParseConfig(src, "f", start)
			if diags.HasErrors() {
				return nil, diags
			}
			return f.Bytes(), diags
		}},
	},
	"expr": {
		{"expression", func(src []byte, start hcl.Pos) (interface{}, hcl.Diagnostics) {
			e, diags := hclsyntax.ParseExpression(src, "f", start)
			vars := []hcl.Traversal{}
			if e != nil {
				vars = e.Variables()
			}
			return []interface{}{e, vars}, diags
		}},
		{"value", func(src []byte, start hcl.Pos) (interface{}, hcl.Diagnostics) {
			e, diags := hclsyntax.ParseExpression(src, "f", start)
			if diags.HasErrors() || e == nil {
				return nil, nil
			}
			v, diags := e.Value(fragCtx)
			return v, diags
		}},
		{"tokens", func(src []byte, start hcl.Pos) (interface{}, hcl.Diagnostics) {
			return hclsyntax.LexExpression(src, "f", start)
		}},
		{"traversal", func(src []byte, start hcl.Pos) (interface{}, hcl.Diagnostics) {
			return hclsyntax.ParseTraversalAbs(src, "f", start)
		}},
	},
	"template": {
		{"template", func(src []byte, start hcl.Pos) (interface{}, hcl.Diagnostics) {
			e, diags := hclsyntax.ParseTemplate(src, "f", start)
			return e, diags
		}},
		{"tokens", func(src []byte, start hcl.Pos) (interface{}, hcl.Diagnostics) {
			return hclsyntax.LexTemplate(src, "f", start)
		}},
		{"value", func(src []byte, start hcl.Pos) (interface{}, hcl.Diagnostics) {
			e, diags := hclsyntax.ParseTemplate(src, "f", start)
			if diags.HasErrors() || e == nil {
				return nil, nil
			}
			v, diags := e.Value(fragCtx)
			return v, diags
		}},
	},
}

var fragCtx = &hcl.EvalContext{Variables: map[string]cty.Value{
	"a": cty.ObjectVal(map[string]cty.Value{"a": cty.TupleVal([]cty.Value{cty.NumberIntVal(1)})}),
	"l": cty.TupleVal([]cty.Value{cty.True, cty.NumberIntVal(2)}),
}}

type fragCase struct {
	Kind, Src string
}

func runFragment(r *fw.Rec, c fragCase) {
	fragment(r, c.Kind, c.Src)
}

func fragment(r *fw.Rec, kind, src string) bool {
	r.State(kind + src)
	for _, w := range fragReads[kind] {
		what, diags := w.read([]byte(src), hcl.Pos{Line: 1, Column: 1})
		r.Op(1)
		for _, start := range fragStarts {
			move := mover(start)
			var want, got strings.Builder
			dumpMoved(&want, reflect.ValueOf(what), move)
			dumpMovedDiags(&want, diags, move)
			there, thereDiags := w.read([]byte(src), start)
			same := func(p hcl.Pos) hcl.Pos { return p }
			dumpMoved(&got, reflect.ValueOf(there), same)
			dumpMovedDiags(&got, thereDiags, same)
			r.Op(1)
			if got.String() != want.String() {
				r.Failf(w.name, "%s of %q at %#v:\n%s\ninstead of\n%s", w.name, src, start, got.String(), want.String())
				return false
			}
		}
		r.Trace()
	}
	return true
}

func init() {
	fw.Register(&fw.Check{
		ID: "C49",
		Assumptions: []string{
			"a byte-order mark belongs at the start of a file only",
			"the order of messages is not judged",
		},
		Suites: []fw.Suite{
			fw.S("pieces", "all sources of at most 4 (thorough: 5) pieces out of 12 in bodies, 13 in expressions and 11 in templates, right or wrong, at 3 starting positions", func(t fw.Tier, yield func(fragCase)) {
				n := fw.Pick(t, 4, 5)
				eachString([]string{"a = é", "\n", "b x \"é\" {", "}", "<<E\n", " é${a}\n", "E\n", "/* c\n */", "#c\r\n", "\"", "${", "!"}, 0, n, func(s string) { yield(fragCase{"body", s}) })
				eachString([]string{"a", "[", "]", "\n", ".", "0", "\"é", "\"", "${", "}", "+ ", "<<-E\n  x\n E\n", "?"}, 0, n, func(s string) { yield(fragCase{"expr", s}) })
				eachString([]string{"é", "${a}", "%{ if true }", "%{ else ~}", "%{ endif }", "\n", "${", "}", "$", " \"", "%{ for x in l }"}, 0, n, func(s string) { yield(fragCase{"template", s}) })
			}, runFragment),
			fw.S("strings", "all quoted strings of at most 4 (thorough: 5) of 11 characters, escapes, wrong escapes and sequences, as expressions, keys, indexes and labels", func(t fw.Tier, yield func(fragCase)) {
				eachString([]string{`x`, `é`, `\n`, `\q`, `\u00e9`, `\u12`, `\U0001F600`, `$${`, `${a}`, `${ "\q" }`, "\n"}, 0, fw.Pick(t, 4, 5), func(s string) {
					yield(fragCase{"expr", `"` + s + `"`})
					yield(fragCase{"expr", ` a["` + s + `"]`})
					yield(fragCase{"expr", "[\n{\"" + s + `" = 1}]`})
					yield(fragCase{"body", `b "` + s + "\" {\n}\n"})
				})
			}, runFragment),
			fw.S("evaluation", "the values and messages of all traversals of the C34 alphabet and of all operators, templates, calls and for expressions over pairs of 8 operands", func(t fw.Tier, yield func(fragCase)) {
				for _, e := range aBasics {
					yield(fragCase{"expr", e.Src})
				}
				aTraversals(2, func(e aExpr) { yield(fragCase{"expr", e.Src}) })
				ops := []string{"1", `"é"`, "null", "a", "l", "a.a", "nope", "[\n1]"}
				for _, p := range ops {
					for _, q := range ops {
						for _, s := range []string{"%s + %s", "%s == %s", "%s && %s", "%s[%s]", "true ? %s : %s", "%s ? %s : 1", "\"é%{ if %s }${%s}%{ endif }\"", "{for v in [%s]: v => %s}", "[for v in %s: v if %s]", "f(%s, %s)", "{(%s) = %s}", "{\n a = %s\n b = %s }", "<<E\n${%s}\n%{ for x in %s }\n${x}\n%{ endfor }\nE\n", "<<-E\n  ${%s}\n %s\n E\n", "%s[*].b.%s", "(\n%s)[\n%s]", "%s.*.b[%s]"} {
							s = strings.Replace(s, "%s", p, 1)
							yield(fragCase{"expr", strings.Replace(s, "%s", q, 1)})
						}
					}
				}
			}, runFragment),
			fw.S("token sequences", "token sequences as for C03 and C47, two tokens shorter", func(t fw.Tier, yield func(fragTok)) {
				put := func(kind string, as []tokAlpha, less int, parse func([]string) (bool, int)) {
					short := append([]tokAlpha(nil), as...)
					for i := range short {
						short[i].quick -= less
						short[i].deeper = short[i].quick + 1
					}
					genGrammar(t, short, parse, func(c tokCase) { yield(fragTok{kind, c}) })
				}
				put("expr", tokAlphas, 2, func(s []string) (bool, int) {
					n, at, _ := ref.ParseTokens(s, false)
					return n != nil, at
				})
				put("body", gramBodies, 2, func(s []string) (bool, int) {
					_, ok, at, _ := ref.ParseBodyTokens(s)
					return ok, at
				})
				put("template", gramTemplates, 2, func(s []string) (bool, int) {
					n, at, _ := ref.ParseTemplateTokens(s)
					return n != nil, at
				})
			}, func(r *fw.Rec, c fragTok) {
				as := map[string][]tokAlpha{"expr": tokAlphas, "body": gramBodies, "template": gramTemplates}[c.Kind]
				walkTokens(c.Case, as[c.Case.Alpha].list(), func(seq []string) (viable, right bool) {
					src := joinTokens(seq)
					viable = true
					switch c.Kind {
					case "expr":
						n, at, _ := ref.ParseTokens(seq, false)
						viable = n != nil || at >= len(seq)
					case "body":
						_, ok, at, _ := ref.ParseBodyTokens(seq)
						viable = ok || at >= len(seq)
					case "template":
						src = strings.Join(seq, "")
						n, at, _ := ref.ParseTemplateTokens(seq)
						viable = n != nil || at >= len(seq)
					}
					return viable, fragment(r, c.Kind, src)
				})
			}),
		},
	})
}

type fragTok struct {
	Kind string
	Case tokCase
}
