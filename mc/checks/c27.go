package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/typeexpr"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
)

// tyExpr is an expression with the type it denotes: empty if it denotes none.
type tyExpr struct {
	Src  string
	Want string // as written by tyDump
}

// tyDump writes a type unambiguously.
func tyDump(t cty.Type) string {
	switch {
	case t == cty.String:
		return "S"
	case t == cty.Number:
		return "N"
	case t == cty.Bool:
		return "B"
	case t == cty.DynamicPseudoType:
		return "?"
	case t.IsListType():
		return "list<" + tyDump(t.ElementType()) + ">"
	case t.IsSetType():
		return "set<" + tyDump(t.ElementType()) + ">"
	case t.IsMapType():
		return "map<" + tyDump(t.ElementType()) + ">"
	case t.IsTupleType():
		var p []string
		for _, e := range t.TupleElementTypes() {
			p = append(p, tyDump(e))
		}
		return "tuple<" + strings.Join(p, ",") + ">"
	case t.IsObjectType():
		m := map[string]string{}
		for k, e := range t.AttributeTypes() {
			m[k] = tyDump(e)
		}
		return tyObj(m)
	}
	return "other"
}

func tyObj(m map[string]string) string {
	var p []string
	for k, v := range m {
		p = append(p, fmt.Sprintf("%q:%s", k, v))
	}
	sort.Strings(p)
	return "object<" + strings.Join(p, ",") + ">"
}

var tyLeaves = []tyExpr{
	{"string", "S"}, {"number", "N"}, {"bool", "B"}, {"any", "?"},
	{"foo", ""}, {"list", ""}, {"object", ""}, {"tuple", ""}, {"dynamic", ""}, {"String", ""}, {"null", ""}, {"true", ""},
	{"1", ""}, {`"string"`, ""}, {`"${string}"`, ""}, {"string.a", ""}, {"string[0]", ""}, {"string()", ""}, {"any()", ""}, {"-string", ""}, {"string == string", ""},
	{"[]", ""}, {"{}", ""}, {"[string]", ""}, {"{a=string}", ""}, {"string.*", ""}, {"string[*]", ""}, {"true ? string : string", ""}, {"<<E\nstring\nE\n", ""},
	{"list([])", ""}, {"list[string]", ""}, {"list.string", ""}, {"foo(string)", ""}, {"list()", ""}, {"set()", ""}, {"map()", ""}, {"object()", ""}, {"tuple()", ""},
	{"object({})", "object<>"}, {"tuple([])", "tuple<>"}, {"object([])", ""}, {"tuple({})", ""}, {"object([string])", ""}, {"tuple({a=string})", ""},
	{"list(string...)", ""}, {"tuple([string]...)", ""}, {"object({a=string}...)", ""},
	{"tuple([for x in y: string])", ""}, {"object({for k, v in y: k => string})", ""}, {"tuple([string][*])", ""}, {"tuple([string].*)", ""},
	{`object({"a"=string})`, ""}, {"object({a.b=string})", ""}, {"object({1=string})", ""}, {`object({"${a}"=string})`, ""}, {`object({"a-b"=string})`, ""},
	{"object({a:string})", `object<"a":S>`}, {"object({a=string,})", `object<"a":S>`}, {"tuple([string,])", "tuple<S>"}, {"list(string,)", "list<S>"},
	{"object({\na=string\nb=bool\n})", `object<"a":S,"b":B>`}, {"list( string )", "list<S>"}, {"list(\nstring\n)", "list<S>"}, {"tuple([\nstring,\nbool\n])", "tuple<S,B>"},
}

var tyNames = []string{"a", "b", "for", "if", "in", "null", "true", "a-b", "é", "any", "object", "A"}

// tyCons yields every expression made by one constructor from the given ones,
// second arguments and elements being taken from few.
func tyCons(all, few []tyExpr, yield func(tyExpr)) {
	ok := func(want string, parts ...tyExpr) string {
		for _, p := range parts {
			if p.Want == "" {
				return ""
			}
		}
		return want
	}
	for _, x := range all {
		for _, k := range []string{"list", "set", "map"} {
			yield(tyExpr{k + "(" + x.Src + ")", ok(k+"<"+x.Want+">", x)})
		}
		for _, k := range []string{"object", "tuple", "string", "any", "List", "array"} {
			if k == "object" && strings.HasPrefix(x.Src, "{") || k == "tuple" && strings.HasPrefix(x.Src, "[") {
				continue
			}
			yield(tyExpr{k + "(" + x.Src + ")", ""})
		}
		yield(tyExpr{"object({a=" + x.Src + "})", ok(tyObj(map[string]string{"a": x.Want}), x)})
		yield(tyExpr{"tuple([" + x.Src + "])", ok("tuple<"+x.Want+">", x)})
		for _, y := range few {
			for _, p := range [][2]tyExpr{{x, y}, {y, x}} {
				for _, k := range []string{"list", "set", "map", "object", "tuple"} {
					yield(tyExpr{k + "(" + p[0].Src + ", " + p[1].Src + ")", ""})
				}
				yield(tyExpr{"object({a=" + p[0].Src + "}, " + p[1].Src + ")", ""})
				yield(tyExpr{"tuple([" + p[0].Src + "], " + p[1].Src + ")", ""})
				yield(tyExpr{"object({a=" + p[0].Src + ", b=" + p[1].Src + "})", ok(tyObj(map[string]string{"a": p[0].Want, "b": p[1].Want}), x, y)})
				yield(tyExpr{"object({b=" + p[0].Src + ", \"a\"=" + p[1].Src + "})", ""})
				yield(tyExpr{"tuple([" + p[0].Src + ", " + p[1].Src + "])", ok("tuple<"+p[0].Want+","+p[1].Want+">", x, y)})
				yield(tyExpr{"tuple([" + p[0].Src + ", " + p[1].Src + ", " + p[0].Src + "])", ok("tuple<"+p[0].Want+","+p[1].Want+","+p[0].Want+">", x, y)})
			}
		}
	}
}

// tyBare says whether an expression can be written in a single line, as an
// argument among others.
func tyUsable(x tyExpr) bool { return !strings.HasPrefix(x.Src, "<<") }

func tyLevels(t fw.Tier, yield func(tyExpr)) {
	emit := func(x tyExpr) { yield(x) }
	var leaves, few []tyExpr
	for _, x := range tyLeaves {
		emit(x)
		if tyUsable(x) {
			leaves = append(leaves, x)
		}
	}
	few = []tyExpr{{"string", "S"}, {"any", "?"}, {"foo", ""}, {"1", ""}}
	var l1 []tyExpr
	tyCons(leaves, few, func(x tyExpr) { l1 = append(l1, x); emit(x) })
	for _, n := range tyNames {
		for _, x := range append(few, tyExpr{"list(number)", "list<N>"}) {
			want := func(m map[string]string) string {
				if x.Want == "" {
					return ""
				}
				return tyObj(m)
			}
			if n != "for" {
				e := tyExpr{"object({" + n + "=" + x.Src + "})", want(map[string]string{n: x.Want})}
				emit(e)
				l1 = append(l1, e)
			}
			for _, n2 := range tyNames {
				if n2 == n || n2 == "for" {
					continue
				}
				e := tyExpr{"object({" + n2 + "=bool, " + n + "=" + x.Src + "})", want(map[string]string{n: x.Want, n2: "B"})}
				emit(e)
				if n2 == "a" {
					l1 = append(l1, e)
				}
			}
		}
	}
	few2 := few[1:3]
	if t == fw.Thorough {
		few2 = few
	}
	var l2 []tyExpr
	tyCons(l1, few2, func(x tyExpr) {
		emit(x)
		if t == fw.Thorough && (x.Want != "" || len(l2)%7 == 0) {
			l2 = append(l2, x)
		}
	})
	if t == fw.Thorough {
		tyCons(l2, few2[:1], emit)
	}
}

func runTypeExpr(r *fw.Rec, c tyExpr) {
	r.State(c.Src)
	wantT := c.Want
	if strings.Contains(c.Want, "?") {
		wantT = ""
	}
	exprs := map[string]hcl.Expression{}
	ne, diags := hclsyntax.ParseExpression([]byte(c.Src), "f", hcl.Pos{Line: 1, Column: 1})
	if diags.HasErrors() {
		r.Failf("parse", "%s cannot be parsed: %s", c.Src, diagsStr(diags))
		return
	}
	exprs["native"] = ne
	exprs["wrapped"] = tyWrapped(ne)
	jf, diags := json.Parse([]byte(`{"a":`+jsonStr(c.Src)+`}`), "f.json")
	if !diags.HasErrors() {
		attrs, _ := jf.Body.JustAttributes()
		if attrs["a"] != nil {
			exprs["json"] = attrs["a"].Expr
		}
	}
	if exprs["json"] == nil {
		r.Failf("json-parse", "%s in JSON: %s", c.Src, diagsStr(diags))
		return
	}
	for _, kind := range []string{"native", "wrapped", "json"} {
		for _, f := range []string{"type", "constraint"} {
			r.Op(1)
			want := c.Want
			var got cty.Type
			var diags hcl.Diagnostics
			if f == "type" {
				want = wantT
				got, diags = typeexpr.Type(exprs[kind])
			} else {
				got, diags = typeexpr.TypeConstraint(exprs[kind])
			}
			r.Trace()
			for _, d := range diags {
				if m := badDiag(d, 0, len(jsonStr(c.Src))+20); m != "" {
					r.Failf("diag", "%s read as %s (%s): %s", c.Src, f, kind, m)
				}
			}
			switch {
			case want == "" && !diags.HasErrors():
				r.Failf("accepted", "%s read as %s (%s) is %s instead of an error", c.Src, f, kind, tyDump(got))
			case want != "" && diags.HasErrors():
				r.Failf("rejected", "%s read as %s (%s) fails instead of being %s: %s", c.Src, f, kind, want, diagsStr(diags))
			case want != "" && tyDump(got) != want:
				r.Failf("type", "%s read as %s (%s) is %s instead of %s", c.Src, f, kind, tyDump(got), want)
			}
			if want != "" && !diags.HasErrors() && kind == "native" {
				checkTypeString(r, got)
			}
		}
	}
}

// tyWrapped is the expression as seen in the body of a dynamic block.
func tyWrapped(e hcl.Expression) hcl.Expression {
	spec := hcldec.ObjectSpec{"x": &hcldec.BlockSpec{TypeName: "x", Nested: &hcldec.AttrSpec{Name: "a", Type: cty.DynamicPseudoType}}}
	src := "dynamic \"x\" {\nfor_each = [1]\ncontent {\na = 1\n}\n}\n"
	f, _ := hclsyntax.ParseConfig([]byte(src), "f", hcl.Pos{Line: 1, Column: 1})
	dyn := f.Body.(*hclsyntax.Body).Blocks[0]
	dyn.Body.Blocks[0].Body.Attributes["a"].Expr = e.(hclsyntax.Expression)
	body := dynblock.Expand(f.Body, nil)
	content, _ := body.Content(hcldec.ImpliedSchema(spec))
	attrs, _ := content.Blocks[0].Body.JustAttributes()
	return attrs["a"].Expr
}

func checkTypeString(r *fw.Rec, ty cty.Type) {
	s := typeexpr.TypeString(ty)
	e, diags := hclsyntax.ParseExpression([]byte(s), "f", hcl.Pos{Line: 1, Column: 1})
	if diags.HasErrors() {
		r.Failf("string-parse", "type %s is written as %s, which cannot be parsed: %s", tyDump(ty), s, diagsStr(diags))
		return
	}
	back, diags := typeexpr.TypeConstraint(e)
	if diags.HasErrors() {
		r.Failf("string-read", "type %s is written as %s, which is not a type: %s", tyDump(ty), s, diagsStr(diags))
		return
	}
	if tyDump(back) != tyDump(ty) || !back.Equals(ty) {
		r.Failf("string-type", "type %s is written as %s, which is %s", tyDump(ty), s, tyDump(back))
	}
}

// A tyTree is a type as data.
type tyTree struct {
	K     string
	Names []string  `json:",omitempty"`
	Sub   []*tyTree `json:",omitempty"`
}

func (t *tyTree) cty() cty.Type {
	var sub []cty.Type
	for _, s := range t.Sub {
		sub = append(sub, s.cty())
	}
	switch t.K {
	case "string":
		return cty.String
	case "number":
		return cty.Number
	case "bool":
		return cty.Bool
	case "any":
		return cty.DynamicPseudoType
	case "list":
		return cty.List(sub[0])
	case "set":
		return cty.Set(sub[0])
	case "map":
		return cty.Map(sub[0])
	case "tuple":
		if sub == nil {
			return cty.EmptyTuple
		}
		return cty.Tuple(sub)
	}
	m := map[string]cty.Type{}
	for i, n := range t.Names {
		m[n] = sub[i]
	}
	return cty.Object(m)
}

func tyTrees(t fw.Tier, yield func(*tyTree)) {
	var l0 []*tyTree
	for _, k := range []string{"string", "number", "bool", "any"} {
		l0 = append(l0, &tyTree{K: k})
	}
	step := func(all, few []*tyTree, emit func(*tyTree)) {
		for _, x := range all {
			for _, k := range []string{"list", "set", "map"} {
				emit(&tyTree{K: k, Sub: []*tyTree{x}})
			}
			emit(&tyTree{K: "tuple", Sub: []*tyTree{x}})
			for _, n := range tyNames {
				if n != "for" {
					emit(&tyTree{K: "object", Names: []string{n}, Sub: []*tyTree{x}})
				}
			}
			for _, y := range few {
				emit(&tyTree{K: "tuple", Sub: []*tyTree{x, y}})
				emit(&tyTree{K: "tuple", Sub: []*tyTree{y, x, x}})
				for i, n := range tyNames {
					for _, m := range tyNames[i+1:] {
						emit(&tyTree{K: "object", Names: []string{n, m}, Sub: []*tyTree{x, y}})
						emit(&tyTree{K: "object", Names: []string{m, n}, Sub: []*tyTree{x, y}})
					}
				}
			}
		}
	}
	l0 = append(l0, &tyTree{K: "tuple"}, &tyTree{K: "object"})
	for _, x := range l0 {
		yield(x)
	}
	var l1 []*tyTree
	step(l0, l0, func(x *tyTree) { l1 = append(l1, x); yield(x) })
	var some []*tyTree
	for i, x := range l1 {
		if len(x.Names) < 2 || i%11 == 0 {
			some = append(some, x)
		}
	}
	few := l0[:1]
	if t == fw.Thorough {
		few = l0[:4]
	}
	step(some, few, yield)
	// Three attributes in every order of names.
	for _, a := range tyNames {
		for _, b := range tyNames {
			for _, c := range tyNames {
				if a != b && b != c && a != c {
					yield(&tyTree{K: "object", Names: []string{a, b, c}, Sub: []*tyTree{l0[0], l0[1], {K: "list", Sub: l0[2:3]}}})
				}
			}
		}
	}
}

// tyJSON are JSON values that denote no type, and ways to write one.
var tyJSON = []tyExpr{
	{`1`, ""}, {`true`, ""}, {`null`, ""}, {`[]`, ""}, {`{}`, ""}, {`["string"]`, ""}, {`{"list":"string"}`, ""}, {`{"a":"string"}`, ""}, {`[["list","string"]]`, ""},
	{`"string"`, "S"}, {`"string"`, "S"}, {`"list(string)"`, "list<S>"}, {`""`, ""}, {`"${string}"`, ""}, {`"list(${string})"`, ""}, {`"list(string"`, ""}, {`"list(string))"`, ""},
	{`"string string"`, ""}, {`"string,"`, ""}, {`"string."`, ""}, {`"object({\"a\"=string})"`, ""}, {`"object({a=string})"`, `object<"a":S>`}, {`"tuple([string, any])"`, "tuple<S,?>"},
	{`"list(\"string\")"`, ""}, {`"strin"`, ""}, {`"1"`, ""}, {`"\""`, ""}, {`"map(any) "`, "map<?>"},
}

func init() {
	fw.Register(&fw.Check{
		ID: "C27",
		Assumptions: []string{
			"object types that cannot be denoted, those whose only attribute is named for, are left out; so are repeated attribute names and parentheses around a whole type in JSON",
		},
		Suites: []fw.Suite{
			fw.S("expressions", "all expressions made of 65 leaves and up to two constructors (thorough: three, every denoting expression and every seventh other of two), read as types and as constraints, natively, in JSON and inside a dynamic block", func(t fw.Tier, yield func(tyExpr)) {
				tyLevels(t, yield)
			}, runTypeExpr),
			fw.S("json", "all JSON values of the alphabet", func(t fw.Tier, yield func(tyExpr)) {
				for _, x := range tyJSON {
					yield(x)
				}
			}, func(r *fw.Rec, c tyExpr) {
				r.State(c.Src)
				f, diags := json.Parse([]byte(`{"a":`+c.Src+`}`), "f.json")
				if diags.HasErrors() {
					r.Failf("json-parse", "%s", diagsStr(diags))
					return
				}
				attrs, _ := f.Body.JustAttributes()
				for _, con := range []bool{false, true} {
					want := c.Want
					fn := typeexpr.TypeConstraint
					if !con {
						fn = typeexpr.Type
						if strings.Contains(want, "?") {
							want = ""
						}
					}
					r.Op(1)
					got, diags := fn(attrs["a"].Expr)
					r.Trace()
					switch {
					case want == "" && !diags.HasErrors():
						r.Failf("json-accepted", "JSON %s is %s instead of an error", c.Src, tyDump(got))
					case want != "" && diags.HasErrors():
						r.Failf("json-rejected", "JSON %s fails instead of being %s: %s", c.Src, want, diagsStr(diags))
					case want != "" && tyDump(got) != want:
						r.Failf("json-type", "JSON %s is %s instead of %s", c.Src, tyDump(got), want)
					}
				}
			}),
			fw.S("types", "all types of up to two constructors over four primitive types, pairs and triples of 12 attribute names", func(t fw.Tier, yield func(*tyTree)) {
				tyTrees(t, yield)
			}, func(r *fw.Rec, c *tyTree) {
				ty := c.cty()
				r.State(tyDump(ty))
				r.Op(1)
				r.Trace()
				checkTypeString(r, ty)
			}),
		},
	})
}
