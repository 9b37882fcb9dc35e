package checks

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
)

// genAlphabet are the characters of generated strings.
var genAlphabet = []string{"a", `"`, `\`, "$", "{", "}", "%", "\n", "\r", "\t", " ", "é", "\u0301", "\ufeff", "\x00", "\u2028", "😀", "~", "#", "/", "*", "<", "E", "0", ".", "\u200d", "\x7f", "\u0085", "'", "\U000e0001"}

var genNums = []string{"0", "1", "-1", "0.5", "-0.25", "1e3", "123456789012345678901234567890", "1e-9", "0.1", "3.14159", "-1e40", "1e100", "9007199254740993", "18446744073709551616", "1.000000000000000000000000000001", "4e-50"}

var genKeys = []string{"a", "b", "for", "if", "in", "null", "true", "else", "endfor", "1a", "1", "a-b", "-a", "a.b", "", "é", "e\u0301x", "${x}", "%{x}", `"`, `\`, "a b", "a\nb", "$", "_", "_a", "a_", "A1", "😀", "for x", "//", "#", "=", "a=", "·a", "a·", "\u203fa", "ªb", "\u0968", "a\u0968", "a\u200db", "\ufeff"}

// plainVal converts lists and sets to tuples and maps to objects.
func plainVal(v cty.Value) cty.Value {
	ty := v.Type()
	switch {
	case v.IsNull():
		return cty.NullVal(cty.DynamicPseudoType)
	case ty.IsListType(), ty.IsSetType(), ty.IsTupleType():
		vals := []cty.Value{}
		for it := v.ElementIterator(); it.Next(); {
			_, e := it.Element()
			vals = append(vals, plainVal(e))
		}
		return cty.TupleVal(vals)
	case ty.IsMapType(), ty.IsObjectType():
		attrs := map[string]cty.Value{}
		for it := v.ElementIterator(); it.Next(); {
			k, e := it.Element()
			attrs[k.AsString()] = plainVal(e)
		}
		return cty.ObjectVal(attrs)
	}
	return v
}

// readBack parses and evaluates generated source in one place.
func readBack(src string) (cty.Value, string) {
	f, diags := hclsyntax.ParseConfig([]byte(src), "t", hcl.InitialPos)
	if diags.HasErrors() {
		return cty.NilVal, diagsStr(diags)
	}
	attrs, diags := f.Body.JustAttributes()
	if diags.HasErrors() || len(attrs) != 1 {
		return cty.NilVal, fmt.Sprintf("%d attributes %s", len(attrs), diagsStr(diags))
	}
	a := attrs["a"]
	if a == nil {
		return cty.NilVal, "no attribute a"
	}
	if len(a.Expr.Variables()) != 0 {
		return cty.NilVal, "there are variables"
	}
	v, diags := a.Expr.Value(nil)
	if diags.HasErrors() {
		return cty.NilVal, diagsStr(diags)
	}
	return v, ""
}

func checkGen(r *fw.Rec, v cty.Value) {
	want := plainVal(v)
	r.Op(1)
	toks := hclwrite.TokensForValue(v)
	src := string(toks.Bytes())
	r.State(src)
	e, diags := hclsyntax.ParseExpression([]byte(src), "t", hcl.InitialPos)
	if diags.HasErrors() {
		r.Failf("", "%#v is written as %q: %s", v, src, diagsStr(diags))
		return
	}
	if got, diags := e.Value(nil); diags.HasErrors() || !got.RawEquals(want) {
		r.Failf("", "%#v is written as %q, which is %#v (%s)", v, src, got, diagsStr(diags))
		return
	}
	f := hclwrite.NewEmptyFile()
	f.Body().SetAttributeValue("a", v)
	f2, _ := hclwrite.ParseConfig([]byte("a = 1 # c"), "t", hcl.InitialPos)
	f2.Body().SetAttributeValue("a", v)
	lit := "a = " + string(hclwrite.NewExpressionLiteral(v).BuildTokens(nil).Bytes()) + "\n"
	for _, src := range []string{string(f.Bytes()), string(f2.Bytes()), lit} {
		r.Op(1)
		if got, m := readBack(src); m != "" || !got.RawEquals(want) {
			r.Failf("", "%#v is written as %q, which is %#v (%s)", v, src, got, m)
			return
		}
	}
	r.Trace()
}

// genCase is a value given by its shape and leaves.
type genCase struct {
	Shape int
	S     []string
}

var genShapes = []struct {
	name string
	n    int
	f    func(v ...cty.Value) cty.Value
}{
	{"leaf", 1, func(v ...cty.Value) cty.Value { return v[0] }},
	{"tuple", 2, func(v ...cty.Value) cty.Value { return tup(v...) }},
	{"object", 2, func(v ...cty.Value) cty.Value { return obj("k", v[0], "for", v[1]) }},
	{"nested", 2, func(v ...cty.Value) cty.Value {
		return obj("a", tup(v[0], obj("b", v[1])), "c d", tup(), "e", cty.EmptyObjectVal)
	}},
	{"tuple of tuples", 2, func(v ...cty.Value) cty.Value { return tup(tup(tup(v[0])), tup(), obj("x", obj("y", v[1]))) }},
	{"list", 2, func(v ...cty.Value) cty.Value {
		if !v[0].Type().Equals(v[1].Type()) {
			return lst(v[0])
		}
		return lst(v...)
	}},
	{"set", 2, func(v ...cty.Value) cty.Value {
		if !v[0].Type().Equals(v[1].Type()) {
			return cty.SetVal(v[:1])
		}
		return cty.SetVal(v)
	}},
	{"map", 2, func(v ...cty.Value) cty.Value {
		if !v[0].Type().Equals(v[1].Type()) {
			return mapv("if", v[0])
		}
		return mapv("q", v[0], "for", v[1])
	}},
	{"map of lists", 1, func(v ...cty.Value) cty.Value {
		return mapv("1", lst(v[0]), "2", cty.ListValEmpty(v[0].Type()))
	}},
	{"empty", 1, func(v ...cty.Value) cty.Value {
		return tup(cty.ListValEmpty(v[0].Type()), cty.MapValEmpty(v[0].Type()), cty.SetValEmpty(v[0].Type()), cty.NullVal(cty.List(v[0].Type())))
	}},
}

// genLeaf reads a leaf: s: string, n: number, or a keyword.
func genLeaf(s string) cty.Value {
	switch {
	case strings.HasPrefix(s, "s:"):
		return cty.StringVal(s[2:])
	case strings.HasPrefix(s, "n:"):
		return num(s[2:])
	case s == "true":
		return cty.True
	case s == "false":
		return cty.False
	case s == "nulls":
		return cty.NullVal(cty.String)
	}
	return cty.NullVal(cty.DynamicPseudoType)
}

// travCase is a traversal: a root name, ".name", "[string", "#number".
type travCase []string

func (c travCase) trav() hcl.Traversal {
	var t hcl.Traversal
	for i, s := range c {
		switch {
		case i == 0 && s != "":
			t = append(t, hcl.TraverseRoot{Name: s})
		case s == "":
		case s[0] == '.':
			t = append(t, hcl.TraverseAttr{Name: s[1:]})
		case s[0] == '[':
			t = append(t, hcl.TraverseIndex{Key: cty.StringVal(s[1:])})
		case s[0] == '#':
			t = append(t, hcl.TraverseIndex{Key: num(s[1:])})
		}
	}
	return t
}

func (c travCase) escaped() bool {
	for _, s := range c {
		if strings.ContainsAny(s, "$%") {
			return true
		}
	}
	return false
}

// ctx is a scope where the traversal selects the string "target", if it has
// no number steps.
func (c travCase) ctx() *hcl.EvalContext {
	v := str("target")
	for i := len(c) - 1; i > 0; i-- {
		if c[i][0] == '#' {
			return nil
		}
		v = obj(cty.StringVal(c[i][1:]).AsString(), v)
	}
	root := c[0]
	if root == "" {
		root = "root"
	}
	return &hcl.EvalContext{Variables: map[string]cty.Value{root: v}}
}

func sameTrav(a, b hcl.Traversal) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		switch x := a[i].(type) {
		case hcl.TraverseRoot:
			if y, ok := b[i].(hcl.TraverseRoot); !ok || x.Name != y.Name {
				return false
			}
		case hcl.TraverseAttr:
			if y, ok := b[i].(hcl.TraverseAttr); !ok || x.Name != y.Name {
				return false
			}
		case hcl.TraverseIndex:
			if y, ok := b[i].(hcl.TraverseIndex); !ok || !x.Key.RawEquals(y.Key) {
				return false
			}
		}
	}
	return true
}

func checkGenTrav(r *fw.Rec, c travCase) {
	t := c.trav()
	prefix := ""
	want := t
	if c[0] == "" {
		prefix = "root"
		want = append(hcl.Traversal{hcl.TraverseRoot{Name: "root"}}, t...)
	}
	srcs := []string{prefix + string(hclwrite.TokensForTraversal(t).Bytes())}
	if prefix == "" {
		f := hclwrite.NewEmptyFile()
		a := f.Body().SetAttributeTraversal("a", t)
		out := string(f.Bytes())
		if !strings.HasPrefix(out, "a = ") || !strings.HasSuffix(out, "\n") {
			r.Failf("", "%v is written as %q", c, out)
			return
		}
		srcs = append(srcs, out[4:len(out)-1], string(hclwrite.NewExpressionAbsTraversal(t).BuildTokens(nil).Bytes()))
		if vs := a.Expr().Variables(); len(vs) != 1 {
			r.Failf("", "%v has %d variables", c, len(vs))
			return
		}
	}
	for _, src := range srcs {
		r.Op(1)
		r.State(src)
		e, diags := hclsyntax.ParseExpression([]byte(src), "t", hcl.InitialPos)
		if diags.HasErrors() {
			r.Failf("", "%q is written as %q: %s", c, src, diagsStr(diags))
			return
		}
		if ctx := c.ctx(); ctx != nil {
			if got, diags := e.Value(ctx); diags.HasErrors() || !got.RawEquals(str("target")) {
				r.Failf("", "%q is written as %q, which selects %#v (%s)", c, src, got, diagsStr(diags))
				return
			}
		}
		// a key with template characters is not a single literal token, so
		// the expression parser leaves it as an index operation
		got, diags := hcl.AbsTraversalForExpr(e)
		if !c.escaped() && (diags.HasErrors() || !sameTrav(got, want)) {
			r.Failf("", "%q is written as %q, which is %s (%s)", c, src, travStr(got, false), diagsStr(diags))
			return
		}
		if got, diags := hclsyntax.ParseTraversalAbs([]byte(src), "t", hcl.InitialPos); diags.HasErrors() || !sameTrav(got, want) {
			r.Failf("", "%q is written as %q, which is %s (%s)", c, src, travStr(got, false), diagsStr(diags))
			return
		}
	}
	r.Trace()
}

func init() {
	leaves := []string{"true", "false", "null", "nulls"}
	for _, n := range genNums {
		leaves = append(leaves, "n:"+n)
	}
	for _, k := range genKeys {
		leaves = append(leaves, "s:"+k)
	}
	var steps []string
	for _, s := range []string{"a", "for", "null", "true", "é", "a-b", "_", "if", "in"} {
		steps = append(steps, "."+s)
	}
	for _, k := range genKeys {
		steps = append(steps, "["+k)
	}
	for _, n := range []string{"0", "1", "12", "1.5", "123456789012345678901234567890", "1e3"} {
		steps = append(steps, "#"+n)
	}
	roots := []string{"a", "for", "é", "a-b", "if", "in", "_x", ""}
	fw.Register(&fw.Check{
		ID: "C20",
		Suites: []fw.Suite{
			fw.S("strings", fmt.Sprintf("every string of up to 3 (thorough 4) out of %d characters", len(genAlphabet)),
				func(t fw.Tier, yield func(fw.StrCase)) {
					eachString(genAlphabet, 0, fw.Pick(t, 3, 4), func(s string) { yield(fw.StrCase(s)) })
				},
				func(r *fw.Rec, c fw.StrCase) { checkGen(r, cty.StringVal(string(c))) }),
			fw.S("values", fmt.Sprintf("every value of %d shapes with leaves out of %d", len(genShapes), len(leaves)),
				func(t fw.Tier, yield func(genCase)) {
					for i, sh := range genShapes {
						eachSeq(len(leaves), sh.n, sh.n, func(idx []int) {
							c := genCase{Shape: i}
							for _, k := range idx {
								c.S = append(c.S, leaves[k])
							}
							yield(c)
						})
					}
				},
				func(r *fw.Rec, c genCase) {
					var vs []cty.Value
					for _, s := range c.S {
						vs = append(vs, genLeaf(s))
					}
					for _, v := range vs {
						if v.IsNull() && v.Type() == cty.DynamicPseudoType && c.Shape >= 5 {
							return // no collection of them
						}
					}
					checkGen(r, genShapes[c.Shape].f(vs...))
				}),
			fw.S("keys", fmt.Sprintf("every object, map and nested object with one or two keys out of %d, and every key of up to 2 (thorough 3) out of %d characters", len(genKeys), len(genAlphabet)),
				func(t fw.Tier, yield func([]string)) {
					eachString(genAlphabet, 0, fw.Pick(t, 2, 3), func(s string) { yield([]string{s}) })
					for _, k := range genKeys {
						yield([]string{k})
						for _, l := range genKeys {
							if k < l {
								yield([]string{k, l})
							}
						}
					}
				},
				func(r *fw.Rec, c []string) {
					for _, k := range c {
						toks, _ := hclsyntax.LexExpression([]byte("x."+k), "f", hcl.InitialPos)
						name := len(toks) == 4 && toks[2].Type == hclsyntax.TokenIdent && string(toks[2].Bytes) == k
						if got := hclsyntax.ValidIdentifier(k); got != name {
							r.Failf("", "that %q is an identifier: %v, but it reads as one after a dot: %v", k, got, name)
						}
					}
					attrs := map[string]cty.Value{}
					for i, k := range c {
						attrs[cty.StringVal(k).AsString()] = num(fmt.Sprint(i))
					}
					o := cty.ObjectVal(attrs)
					for _, v := range []cty.Value{o, cty.MapVal(attrs), tup(o, o), obj("in", o), cty.ListVal([]cty.Value{cty.MapVal(attrs)})} {
						checkGen(r, v)
					}
				}),
			fw.S("traversals", fmt.Sprintf("every traversal of up to 2 (thorough 3) steps out of %d from %d roots", len(steps), len(roots)),
				func(t fw.Tier, yield func(travCase)) {
					for _, root := range roots {
						eachSeq(len(steps), 0, fw.Pick(t, 2, 3), func(idx []int) {
							c := travCase{root}
							for _, k := range idx {
								c = append(c, steps[k])
							}
							if root != "" || len(idx) > 0 {
								yield(c)
							}
						})
					}
					eachString(genAlphabet, 0, fw.Pick(t, 2, 3), func(s string) { yield(travCase{"x", "[" + s}) })
				}, checkGenTrav),
		},
	})
}
